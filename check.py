#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--keep]   decides one property (see DESIGN.md)
   check.py --setup                                     parses every specification module, checks the tools"""
import argparse
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import plans
import runner


def setup():
    ok = True
    mods = sorted(n for n in os.listdir(runner.SPEC) if n.endswith(".tla"))
    rc, out = runner.sh(["java", "-cp", runner.JARS, "tla2sany.SANY"] + mods, 900, cwd=runner.SPEC)
    if rc != 0 or "Parse Error" in out or "*** Errors" in out or "Semantic errors" in out:
        print(out[-4000:])
        ok = False
    print("%d specification modules parsed" % len(mods))
    rc, out = runner.sh(["g++", "--version"], 60)
    ok = ok and rc == 0
    return 0 if ok else 2


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    if a.setup:
        return setup()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    return runner.check(plans.get(a.property), tier, seed, a.keep)


sys.exit(main())
