#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below (run by hand after editing it)."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "rules"))
sys.dont_write_bytecode = True
import props
from doctable import P, NA
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
for p in P:
    assert len(p["title"]) <= 80, p["id"]
for i in props.PROPS:
    assert i in ids, i
checks = []
for i in ids:
    if i in props.PROPS:
        q = props.PROPS[i]
        assert i not in NA, i
        checks.append({"property": i, "quick_cmd": "./check.py %s quick" % i, "thorough_cmd": "./check.py %s thorough" % i,
                       "technique": q["technique"], "level": q["level"], "level_note": q["note"],
                       "evidence_file": "evidence/%s.json" % i})
    else:
        assert i in NA, "no check and no reason: " + i
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
     "not_applicable": [{"property": i, "reason": NA[i]} for i in ids if i in NA],
     "notes": "Static analysis only. No hooks in /repo: every check compiles the current headers of /repo/include into LLVM IR or a clang AST and analyses that. See DESIGN.md; known-findings.json records the defects found and repaired."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(m["not_applicable"]), "not applicable")
