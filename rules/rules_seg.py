"""segment_tree and the search tree of flat_segment_tree, decided node by node and round by round."""
import ir
import segres
import segrun
from build import Broken
from rules_seq import _report


def _mod(ctx):
    return ir.Module(ctx.work.all([("seg", [], "seg")])[0])


def _go(ctx, get, text, what):
    try:
        rs = get()
    except KeyError as e:
        raise Broken(str(e))
    _report(ctx, rs, text)
    if not ctx.violations and not ctx.discharged:
        raise Broken("no operation of %s could be analysed" % what)


def rule_seg(ctx):
    m = _mod(ctx)
    _go(ctx, lambda: segrun.Seg(m, ctx.deadline).all(), "a query meets the mark of a segment exactly once when the segment contains the point and never otherwise", "segment_tree")


def rule_flat(ctx):
    m = _mod(ctx)
    _go(ctx, lambda: segres.flat_all(m, ctx.deadline), "the search tree leads every key to the leaf whose interval contains it", "the search tree of flat_segment_tree")
