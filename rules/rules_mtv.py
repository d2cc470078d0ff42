"""multi_type_vector properties decided by the segment analysis."""
import time
from multiprocessing import Pool
import ir
import mtvrun
from build import Broken

READ = {"get", "get_type", "is_empty", "position", "size", "block_size", "empty"}
RET = {"set", "insert", "push_back", "emplace_back", "push_back_empty", "set_empty", "insert_empty", "release", "release_range", "position", "transfer"}


def _run(ctx, cats, only, rule):
    js = ctx.work.all([("mtv", ["DRV_LAYOUT=soa", "DRV_COW=0"]), ("mtv", ["DRV_LAYOUT=aos", "DRV_COW=0"])])
    mtvrun.MODS.clear()
    mtvrun.MODS["soa"], mtvrun.MODS["aos"] = ir.Module(js[0]), ir.Module(js[1])
    ts, found = mtvrun.tasks(ctx.tier, ctx.deadline, only)
    results = []
    with Pool(8) as p:
        for r in p.imap_unordered(mtvrun.task, ts, chunksize=1):
            results.append(r)
            if r and ctx.tier == "quick" and sum(1 for v in r.get("viol", ()) if v[0] in cats) > 0 and len(results) > 6:
                # a violation settles the verdict; a few more tasks, then stop
                ctx.deadline = min(ctx.deadline, time.time())
                p.terminate()
                break
    ent, viol = mtvrun.summarise(results, cats)
    for k, v in sorted(viol.items()):
        ctx.violation("%s: %s: %s" % k, rule, v["where"], "%s: %s (%d abstract paths)" % (v["entry"], v["msg"], v["count"]), v["path"])
    bad = {k[0] for k in viol}
    dec = 0
    for l, e in sorted(ent.items()):
        ctx.obligations += 1
        if l in bad:
            continue
        if e["unknown"] or e["unexplored"] or not (e["ret"] + e["throw"]):
            ctx.undecided.append("%s: %d of %d paths not analysed%s%s" % (
                l, e["unknown"], e["paths"], ", %d open branches beyond the path budget" % e["unexplored"] if e["unexplored"] else "",
                " (" + "; ".join(sorted(e["why"])[:2]) + ")" if e["why"] else ""))
        else:
            ctx.discharged += 1
        if e["ret"] + e["throw"] > 0:
            dec += 1
    ctx.coverage["operations"] = len(ent)
    for k in ("paths", "ret", "throw", "steps", "unexplored"):
        ctx.coverage[{"ret": "normal_exits", "throw": "throwing_exits", "steps": "instructions_interpreted", "paths": "abstract_paths", "unexplored": "open_branches"}[k]] = sum(e[k] for e in ent.values())
    ctx.samples = ["%s [%s]: %d paths, %d normal exits, %d throwing" % (l, e["where"], e["paths"], e["ret"], e["throw"]) for l, e in sorted(ent.items())]
    if not dec and not viol:
        raise Broken("none of the operations could be analysed (%d of %d)" % (dec, len(ent)))


def rule_seq(ctx):
    _run(ctx, {"seq", "struct", "bug"}, lambda e: e.name not in READ, "the element sequence after the call is the specified one")


def rule_struct(ctx):
    _run(ctx, {"struct", "canon"}, lambda e: e.name not in READ, "blocks tile the range and neighbours differ in type")


def rule_own(ctx):
    _run(ctx, {"own", "bug"}, lambda e: e.name not in READ, "exactly-once ownership of element blocks and elements")


def rule_event(ctx):
    _run(ctx, {"event"}, lambda e: e.name not in READ, "acquired/released notifications pair up")


def rule_iter(ctx):
    _run(ctx, {"iter"}, lambda e: e.name in RET, "the returned iterator designates the documented block")


def rule_bounds(ctx):
    _run(ctx, {"accept", "reject", "strong", "ub", "bug"}, lambda e: any(k == "n" for k in e.kinds), "out-of-range calls are rejected before anything is modified, valid calls are not")


def rule_read(ctx):
    _run(ctx, {"value", "bug", "seq", "struct"}, lambda e: e.name in READ or (e.name == "release" and e.kinds), "the reported value belongs to the addressed element")
