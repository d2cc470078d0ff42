"""multi_type_matrix, decided by following one arbitrary element."""
import ir
import mtxrun
from build import Broken
from rules_seq import _report


def rule_mtx(ctx):
    js = ctx.work.all([("mtx", [])])
    try:
        rs = mtxrun.all_tasks(ir.Module(js[0]), ctx.deadline)
    except KeyError as e:
        raise Broken(str(e))
    _report(ctx, rs, "every call reads, writes or visits exactly the elements it names")
    if not ctx.violations and not ctx.discharged:
        raise Broken("no operation of multi_type_matrix could be analysed")
