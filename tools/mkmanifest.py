#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and lib/plans.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
sys.dont_write_bytecode = True
import plans
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    pl = plans.PLANS.get(p["id"])
    if not pl:
        na.append(dict(property=p["id"], reason="no check built yet"))
        continue
    mods = sorted({m["module"] for m in pl.get("mc", [])} | {pl["trace"]})
    checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s" % p["id"],
                       thorough_cmd="VERIF_TIER=thorough python3 check.py %s --tier thorough" % p["id"],
                       evidence_file="evidence/%s.json" % p["id"],
                       technique="TLA+ specification (%s) checked with TLC; behaviours generated from it by TLC are performed on the real code and the recorded traces are validated by TLC against it" % ", ".join(mods),
                       level="model_checking", level_note=pl["note"]))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
         notes="No hooks: every observation goes through public interfaces, so /repo carries only 'fix:' commits. See DESIGN.md and known_findings.json.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed;", len(na), "not")
