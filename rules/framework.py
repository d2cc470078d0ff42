"""Runs the rules of one property, writes its evidence and decides the exit code."""
import json
import os
import sys
import time
import traceback
from build import Broken, Work, ROOT, REPO
import props

EV = os.path.join(ROOT, "evidence")


class Ctx:
    def __init__(self, prop, tier, work, t0):
        self.prop, self.tier, self.work, self.t0 = prop, tier, work, t0
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.limit = float(os.environ.get("VERIF_LIMIT", "0")) or (100.0 if tier == "quick" else 800.0)
        self.deadline = t0 + self.limit
        self.violations = []     # dict: key, where, rule, msg, path
        self.coverage = {}       # measured numbers
        self.samples = []
        self.assume = []
        self.obligations = 0
        self.discharged = 0
        self.undecided = []

    def violation(self, key, rule, where, msg, path=()):
        self.violations.append({"key": key, "rule": rule, "where": where, "msg": msg, "path": list(path)})

    def count(self, name, n=1):
        self.coverage[name] = self.coverage.get(name, 0) + n


def known(prop):
    p = os.path.join(ROOT, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [x for x in json.load(open(p))["findings"] if x["property"] == prop and x["status"] == "known"]


def main(argv):
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    if prop not in props.PROPS:
        print("unknown property", prop)
        return 2
    P = props.PROPS[prop]
    t0 = time.time()
    os.makedirs(EV, exist_ok=True)
    evp = os.path.join(EV, prop + ".json")
    vp = os.path.join(EV, prop + ".violations.txt")
    for f in (evp, vp):
        if os.path.exists(f):
            os.unlink(f)
    try:
        with Work() as w:
            ctx = Ctx(prop, tier, w, t0)
            for r in P["rules"]:
                r(ctx)
            if not ctx.obligations:
                raise Broken("no instance of the rule was found: the analysis is vacuous")
    except Broken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (prop, e))
        return 2
    except Exception:
        print("ANALYSIS-BROKEN property=%s internal error" % prop)
        traceback.print_exc()
        return 2
    kn = known(prop)
    new, old = [], []
    for v in ctx.violations:
        k = [x for x in kn if x["key"] == v["key"]]
        (old if k else new).append((v, k))
    seen = set()
    for v, k in old:
        if v["key"] not in seen:
            seen.add(v["key"])
            print("KNOWN-FINDING: property=%s %s" % (prop, k[0]["what"]))
    wall = round(time.time() - t0, 3)
    cov = {"explanation": P["explain"], "obligations": ctx.obligations, "discharged": ctx.discharged,
           "undecided": len(ctx.undecided), "undecided_list": ctx.undecided[:60]}
    cov.update(ctx.coverage)
    cov["samples"] = ctx.samples[:60]
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": ctx.seed, "level": P["level"],
          "coverage": cov, "wall_s": wall, "assumptions": P.get("assume", []) + ctx.assume, "violations": len(new)}
    json.dump(ev, open(evp, "w"), indent=1, default=str)
    print("%s [%s]: %d obligations, %d discharged, %d undecided, %d violations, %d known; %.1fs" % (
        prop, tier, ctx.obligations, ctx.discharged, len(ctx.undecided), len(new), len(seen), wall))
    for u in ctx.undecided[:8]:
        print("  not decided:", u)
    if not new:
        return 0
    with open(vp, "w") as f:
        for v, _ in new:
            f.write("%s\n  rule: %s\n  where: %s\n  %s\n" % (v["key"], v["rule"], v["where"], v["msg"]))
            if v["path"]:
                f.write("  path: %s\n" % " ".join(v["path"]))
            f.write("\n")
    for v, _ in new[:12]:
        print("  %s\n    rule: %s\n    where: %s\n    %s" % (v["key"], v["rule"], v["where"], v["msg"]))
        if v["path"]:
            print("    path: " + " ".join(v["path"][-8:]))
    print("VIOLATION property=%s replay=%s" % (prop, vp))
    return 1
