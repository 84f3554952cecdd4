#!/usr/bin/env python3
"""run.py <property> [quick|thorough]: decide one property on /repo's current tree."""
import importlib
import os
import sys
import time
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    from engine import report, lin
    from checks import registry
    mod, fn = registry.CHECKS[prop]
    rep = report.Report(prop, tier)
    lin.DEADLINE[0] = time.time() + (600 if tier == "quick" else 780)
    try:
        getattr(importlib.import_module("checks." + mod), fn)(rep)
    except Exception as e:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s %s" % (prop, e))
        return 2
    return rep.finish()


if __name__ == "__main__":
    sys.exit(main())
