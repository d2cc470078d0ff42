"""point_quad_tree, decided by the one-node-step analysis."""
import ir
import quadrun
from build import Broken
from rules_seq import _report


def rule_quad(ctx):
    js = ctx.work.all([("quad", [])])
    try:
        rs = quadrun.Quad(ir.Module(js[0]), ctx.deadline).all()
    except KeyError as e:
        raise Broken(str(e))
    _report(ctx, rs, "every point is kept, found, reported and counted exactly once, whatever the shape of the tree")
    if not ctx.violations and not ctx.discharged:
        raise Broken("no operation of point_quad_tree could be analysed")
