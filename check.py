#!/usr/bin/env python3
"""check.py PID [--tier quick|thorough]: decide one property on /repo's current tree."""
import argparse, importlib, os, sys, traceback
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(ROOT, "lib"), os.path.join(ROOT, "checks")]
sys.dont_write_bytecode = True
import report, build

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    mod = importlib.import_module(a.pid.lower())
    c = report.Check(a.pid, a.tier, getattr(mod, "LEVEL", "other"))
    try:
        mod.run(c)
        return c.finish()
    except build.AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s: %s" % (a.pid, str(e)[:4000]))
        return 2
    except Exception:
        traceback.print_exc()
        return 3

if __name__ == "__main__":
    sys.exit(main())
