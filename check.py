#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]   decide one property of /repo"""
import sys, os, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from sgv import report


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    os.environ["VERIF_TIER"] = tier
    mod = importlib.import_module("props." + pid.lower())
    try:
        c = mod.run(tier)
        return c.finish()
    except report.AnalysisError as e:
        print("ERROR property=%s %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ERROR property=%s analysis failed" % pid)
        return 2


if __name__ == "__main__":
    sys.exit(main())
