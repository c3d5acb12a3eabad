#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and tools/seed_results.json."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(R + "/tools/seed_results.json"))
rows = []
for d in sorted(os.listdir(R + "/seeded")):
    f = f"{R}/seeded/{d}/meta.json"
    if os.path.exists(f):
        m = json.load(open(f))
        rows.append(f"| {d} | {m['property']} | {m['needs']} | {res.get(d, '?')} |")
s = open(R + "/DESIGN.md").read()
mark = "## Planted bugs"
s = s.split(mark)[0] + mark + """

Written from the statements and the code, each applied to /repo, built, run through the 20 stable tests (pass) and its
demonstration (fails), then given to the check of its property (tools: validation by hand-run scripts, not part of any
check). Last column: what the quick check said; "caught, after ..." where the check was strengthened because it missed
the bug at first.

| bug | property | needs | quick check |
|---|---|---|---|
""" + "\n".join(rows) + "\n"
open(R + "/DESIGN.md", "w").write(s)
