"""flat_segment_tree properties decided by the leaf-list analysis."""
import re
import time
import traceback
from multiprocessing import Pool
import ir
import fstrun
from build import Broken

MOD = None
SHARDS = {"insert": 4, "insert_front": 2, "insert_back": 2, "shift_right": 2}


def _task(a):
    key, var, k, K, deadline = a
    try:
        for kk, f in fstrun.entries(MOD):
            if kk == key:
                return fstrun.run(MOD, key, f, var, deadline=deadline, shard=(k, K))
    except Exception:
        return {"label": "%s(%s)" % key, "exc": traceback.format_exc()[-800:]}
    return None


def normal(msg):
    msg = msg.split("; specified")[0].split("; before")[0]
    return re.sub(r"\d+", "~", msg)[:110]


def _run(ctx, cats, only, rule):
    global MOD
    js = ctx.work.all([("fst", [])])
    MOD = ir.Module(js[0])
    ents = list(fstrun.entries(MOD))
    have = {k for k, _ in ents}
    miss = set(fstrun.OPS) - have
    if miss:
        raise Broken("public operations of flat_segment_tree not found any more: %s" % sorted(miss))
    ts = []
    for key, f in ents:
        if not only(fstrun.OPS[key]):
            continue
        for var in fstrun.variants(key):
            K = 24 if "mid" in var.values() and key[0] == "insert" else SHARDS.get(key[0], 1)
            for k in range(K):
                ts.append((key, var, k, K, ctx.deadline))
    ts.sort(key=lambda t: (-t[3], t[2]))
    ent, viol = {}, {}
    with Pool(8) as p:
        for r in p.imap_unordered(_task, ts, chunksize=1):
            if r is None:
                continue
            e = ent.setdefault(r["label"], {"paths": 0, "ret": 0, "unknown": 0, "unexplored": 0, "steps": 0, "why": set(), "where": r.get("where")})
            if "exc" in r:
                e["unknown"] += 1
                e["why"].add("analysis failure: " + r["exc"].strip().split("\n")[-1])
                continue
            e["paths"] += r["paths"]
            e["ret"] += r["stats"].get("ret", 0) + r["stats"].get("throw", 0)
            e["unknown"] += r["stats"].get("unknown", 0)
            e["unexplored"] += r["exhausted"]
            e["steps"] += r["steps"]
            e["why"] |= {"%s at %s" % k for k in r["unknown"]}
            for v in r["viol"]:
                if v[0] not in cats:
                    continue
                k = (r["label"].split(" [")[0], v[0], normal(v[1]))
                o = viol.get(k)
                if o is None or len(v[3]) < len(o["path"]):
                    viol[k] = {"label": r["label"], "msg": v[1], "where": v[2], "path": list(v[3]), "count": o["count"] if o else 0}
                viol[k]["count"] += 1
            if viol and ctx.tier == "quick":
                p.terminate()
                break
    for k, v in sorted(viol.items()):
        ctx.violation("%s: %s: %s" % k, rule, v["where"], "%s: %s (%d abstract paths)" % (v["label"], v["msg"], v["count"]), v["path"])
    bad = {v["label"] for v in viol.values()}
    for l, e in sorted(ent.items()):
        ctx.obligations += 1
        if l in bad:
            continue
        if e["unknown"] or e["unexplored"] or not e["ret"]:
            ctx.undecided.append("%s: %d of %d paths not analysed, %d open branches (%s)" % (l, e["unknown"], e["paths"], e["unexplored"], "; ".join(sorted(e["why"])[:2])))
        else:
            ctx.discharged += 1
    ctx.coverage["operations"] = ctx.coverage.get("operations", 0) + len(ent)
    for k, n in (("paths", "abstract_paths"), ("ret", "exits_compared"), ("steps", "instructions_interpreted"), ("unexplored", "open_branches")):
        ctx.coverage[n] = ctx.coverage.get(n, 0) + sum(e[k] for e in ent.values())
    ctx.samples += ["%s [%s]: %d paths" % (l, e["where"], e["paths"]) for l, e in sorted(ent.items())]
    if not any(e["ret"] for e in ent.values()) and not viol:
        raise Broken("none of the operations could be analysed")


EDIT = {"insert", "shift_left", "shift_right", "clear"}


def rule_map(ctx):
    _run(ctx, {"map", "bug"}, lambda w: w in EDIT, "the key->value function after the call is the specified one")


def rule_links(ctx):
    _run(ctx, {"link", "leak", "bug"}, lambda w: w in EDIT, "the leaf list stays a doubly linked list between the two end nodes")


def rule_canon(ctx):
    _run(ctx, {"canon"}, lambda w: w in EDIT, "neighbouring segments have different values")


def rule_tree(ctx):
    _run(ctx, {"tree"}, lambda w: w in EDIT, "a changed leaf list invalidates the search tree")


def rule_ret(ctx):
    _run(ctx, {"ret"}, lambda w: w == "insert", "the returned position and flag describe what happened")


def rule_search(ctx):
    _run(ctx, {"ret", "map", "link", "bug"}, lambda w: w in ("search", "find"), "a leaf search reports the segment that contains the key and modifies nothing")
