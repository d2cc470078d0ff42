"""Runs the segment analysis over every public editing/access operation of both layouts."""
import os
import re
import time
import traceback
import ir
import mtvspec
from build import Broken

MODS = {}

# operations confirmed by hand on the pinned tree: (name, kinds of the parameters after an optional hint, hint?)
FLOOR = {
    ("set", "n v"), ("set", "hint n v"), ("set", "n it it"), ("set", "hint n it it"), ("push_back", "v"),
    ("emplace_back", "int"), ("push_back_empty", ""), ("insert", "n it it"), ("insert", "hint n it it"),
    ("get", "n out"), ("get", "n"), ("release", "n"), ("release", "n out"), ("release", "hint n out"), ("release", ""),
    ("release_range", "n n"), ("release_range", "hint n n"), ("position", "n"), ("position", "hint n"),
    ("transfer", "n n mtv n"), ("transfer", "hint n n mtv n"), ("get_type", "n"), ("is_empty", "n"),
    ("set_empty", "n n"), ("set_empty", "hint n n"), ("erase", "n n"), ("insert_empty", "n n"), ("insert_empty", "hint n n"),
    ("clear", ""), ("size", ""), ("block_size", ""), ("empty", ""), ("resize", "n"), ("swap", "mtv"), ("swap", "n n mtv n"),
    ("shrink_to_fit", ""),
}

# (shards, paths per shard in the quick tier); None = explore everything in one piece
HEAVY = {
    ("transfer", "n n mtv n"): (64, 220),
    ("swap", "n n mtv n"): (64, 220),
    ("transfer", "hint n n mtv n"): (32, 60),
    ("set", "n it it"): (8, None),
    ("set", "hint n it it"): (32, 150),
    ("set_empty", "n n"): (4, None),
    ("release_range", "n n"): (4, None),
    ("erase", "n n"): (6, None),
    ("set_empty", "hint n n"): (32, 150),
    ("release_range", "hint n n"): (32, 150),
    ("set", "hint n v"): (4, None),
    ("insert", "hint n it it"): (4, None),
    ("insert_empty", "hint n n"): (4, None),
    ("release", "hint n out"): (2, None),
}


def sig(e):
    return (e.name, " ".join(e.kinds))


def task(a):
    lay, label, k, K, budget, deadline = a
    mod = MODS[lay]
    for e in mtvspec.entries(mod, lay):
        if e.label == label:
            try:
                if time.time() > deadline:
                    return {"label": label, "sig": sig(e), "layout": lay, "skipped": True}
                r = mtvspec.run_entry(e, max_paths=budget or 10 ** 9, max_steps=10 ** 12, shard=(k, K), deadline=deadline)
            except RecursionError:
                return {"label": label, "sig": sig(e), "layout": lay, "exc": "recursion"}
            except Exception:
                return {"label": label, "sig": sig(e), "layout": lay, "exc": traceback.format_exc()[-800:]}
            if r is not None:
                r["sig"] = sig(e)
                r["layout"] = lay
                r["viol"] = r["viol"][:400]
            return r
    return None


def tasks(tier, deadline, only=None):
    """list of task tuples, cheap ones first, + the entries found"""
    light, heavy, found = [], [], {}
    for lay, mod in MODS.items():
        have = set()
        for e in mtvspec.entries(mod, lay):
            s = sig(e)
            if s not in FLOOR:
                continue
            have.add(s)
            found.setdefault(lay, []).append(e.label)
            if only and not only(e):
                continue
            h = HEAVY.get(s)
            if h is None:
                light.append((lay, e.label, 0, 1, None, deadline))
            else:
                K, b = h
                for k in range(K):
                    (heavy if b else light).append((lay, e.label, k, K, b if tier == "quick" else None, deadline))
        miss = FLOOR - have
        if miss:
            raise Broken("%s: public operations not found any more: %s" % (lay, sorted(miss)))
    # interleave the heavy ones so that a time limit hits all of them alike
    heavy.sort(key=lambda t: (t[2] / t[3], t[1]))
    return light + heavy, found


def normal(msg):
    return re.sub(r"\b[A-Za-z]+#\d+(-\d+|\+\d+)?", "~", msg)


def summarise(results, cats):
    ent = {}
    viol = {}
    for r in results:
        if r is None:
            continue
        e = ent.setdefault(r["label"], {"paths": 0, "ret": 0, "throw": 0, "unknown": 0, "bug": 0, "unexplored": 0, "steps": 0, "where": r.get("where"), "why": {}})
        if "exc" in r:
            e["unknown"] += 1
            e["why"]["analysis failure: " + r["exc"].strip().split("\n")[-1]] = 1
            continue
        if r.get("skipped"):
            e["unexplored"] += 1
            continue
        e["paths"] += r["paths"]
        for k in ("ret", "throw", "unknown", "bug"):
            e[k] += r["stats"].get(k, 0)
        e["unexplored"] += r["exhausted"]
        e["steps"] += r["steps"]
        for k, v in r["unknown"].items():
            s = "%s at %s" % k
            e["why"][s] = e["why"].get(s, 0) + v
        for v in r["viol"]:
            if v[0] not in cats:
                continue
            key = (r["label"], v[0], normal(v[1]).split(", expected")[0][:120])
            if key not in viol or len(v[3]) < len(viol[key]["path"]):
                old = viol.get(key, {"count": 0})
                viol[key] = {"entry": r["label"], "cat": v[0], "msg": v[1], "where": v[2], "path": list(v[3]), "count": old["count"]}
            viol[key]["count"] += 1
    return ent, viol
