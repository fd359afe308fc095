#!/usr/bin/env python3
"""python3 run.py --property C01 [--tier quick|thorough] [--strict]"""
import argparse
import importlib
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from sa.rt import Check, Ctx, finish            # noqa: E402
from sa.project import AnalysisBroken           # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--selftest", action="store_true", help="only parse the project and load the rules")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--strict", action="store_true", help="also fail when an obligation is undecided (development)")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    rc = 0
    if a.selftest:
        Ctx()
        n = 0
        for f in sorted(os.listdir(os.path.join(HERE, "rules"))):
            if f[0] == "c" and f[1:-3].isdigit():
                importlib.import_module("rules." + f[:-3])
                n += 1
        print("selftest: %d rule modules loaded" % n)
        return 0
    if not a.property:
        ap.error("--property is required")
    for pid in a.property.split(","):
        try:
            ctx = Ctx()
        except (AnalysisBroken, SyntaxError) as e:
            print("error: %s" % e)
            return 2
        mod = importlib.import_module("rules." + pid.lower())
        chk = Check(pid, ctx)
        mod.check(chk, ctx)
        r = finish(chk, "thorough" if a.tier == "thorough" else "quick", seed, assumptions=getattr(mod, "ASSUMPTIONS", ()))
        if a.strict and any(o["status"] == "undecided" for o in chk.obligations):
            r = r or 3
        rc = max(rc, r)
    return rc


if __name__ == "__main__":
    sys.exit(main())
