"""Element-block, dispatcher and element-store properties decided by the sequence analysis."""
import ir
import posrun
import seqrun
from build import Broken


def _report(ctx, results, rule, cats=None, prefix=""):
    seen = {}
    for r in results:
        ctx.obligations += 1
        for k, n in r["stats"].items():
            ctx.count({"ret": "normal_exits", "throw": "throwing_exits"}.get(k, k), n)
        ctx.count("abstract_paths", r["paths"])
        ctx.count("instructions_interpreted", r["steps"])
        bad = [v for v in r["viol"] if cats is None or v[0] in cats]
        lab = prefix + r["label"]
        for cat, msg, where, path in bad:
            k = "%s: %s" % (lab, msg)
            if k not in seen:
                seen[k] = 1
                ctx.violation(k, rule, where, "%s: %s" % (lab, msg), path)
        if bad:
            continue
        if r["unknown"] or not (r["stats"].get("ret", 0) + r["stats"].get("throw", 0)):
            ctx.undecided.append("%s: %s" % (lab, "; ".join("%s at %s" % k for k in sorted(r["unknown"])[:2]) or "no path reaches an exit"))
        else:
            ctx.discharged += 1
        ctx.samples.append("%s [%s]: %d paths" % (lab, r["where"], r["paths"]))


def _blocks(ctx):
    if not hasattr(ctx, "blk"):
        js = ctx.work.all([("blk", ["DRV_DELAYED=0"]), ("blk", ["DRV_DELAYED=1"])])
        try:
            ctx.blk = [(n, seqrun.block_tasks(ir.Module(j), ctx.deadline)) for n, j in zip(("std::vector", "delayed_delete_vector"), js)]
        except KeyError as e:
            raise Broken(str(e))
        for n, (ops, disp) in ctx.blk:
            if len(ops) < 20 or len(disp) < 10:
                raise Broken("only %d block operations and %d dispatcher functions were found" % (len(ops), len(disp)))
    return ctx.blk


def _enough(ctx):
    if not ctx.violations and not ctx.discharged:
        raise Broken("none of the functions could be analysed (%d of %d)" % (ctx.discharged, ctx.obligations))


def rule_ops(ctx):
    for n, (ops, disp) in _blocks(ctx):
        _report(ctx, ops, "the block holds the specified elements after the call and the documented value is returned", None, n + ": ")
    _enough(ctx)


def rule_dispatch(ctx):
    for n, (ops, disp) in _blocks(ctx):
        _report(ctx, disp, "each element type is mapped to its own block's function, with the arguments unchanged", None, n + ": ")
    _enough(ctx)


def rule_vector(ctx):
    js = ctx.work.all([("ddv", [])])
    try:
        rs = seqrun.vector_tasks(ir.Module(js[0]), ctx.deadline)
    except KeyError as e:
        raise Broken(str(e))
    if len(rs) < 20:
        raise Broken("only %d operations of delayed_delete_vector were found" % len(rs))
    _report(ctx, rs, "after the call the vector holds exactly the elements a std::vector would hold")
    _enough(ctx)


def rule_positions(ctx):
    js = ctx.work.all([("pos", [], None, ["-mavx2"])])
    try:
        rs = posrun.tasks(ir.Module(js[0]), ctx.deadline)
    except (KeyError, LookupError) as e:
        raise Broken(str(e))
    if len(rs) < 10:
        raise Broken("only %d variants of the position adjustment were found" % len(rs))
    _report(ctx, rs, "delta is added to exactly the positions [start, n) and nothing else is written")
    _enough(ctx)
