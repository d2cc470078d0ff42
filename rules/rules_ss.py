"""sorted_string_map, decided over a table of any length."""
import ir
import ssrun
from build import Broken
from rules_seq import _report


def rule_lookup(ctx):
    js = ctx.work.all([("ssmap", [])])
    try:
        rs = ssrun.SSMap(ir.Module(js[0]), ctx.deadline).all()
    except KeyError as e:
        raise Broken(str(e))
    _report(ctx, rs, "an entry that is returned was compared equal, and nothing is returned only if every entry of the table was excluded")
    if not ctx.violations and not ctx.discharged:
        raise Broken("no operation of sorted_string_map could be analysed")
