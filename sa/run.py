"""python3 -m sa.run C01 [C02 ...]: run checks, exit 0 / 1 / 2 (analysis broken)."""
import sys, importlib, traceback, os
sys.setrecursionlimit(20000)
from . import program
from .report import Check

def run(prop):
    try:
        prog = program.load()
        c = Check(prop, prog)
        m = importlib.import_module("sa.checks.%s" % prop.lower())
        m.run(c, prog)
        return c.finish()
    except program.AnalysisBroken as e:
        print("ANALYSIS-BROKEN %s: %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN %s: internal error" % prop)
        return 3

if __name__ == "__main__":
    rc = 0
    for p in sys.argv[1:]: rc = max(rc, run(p))
    sys.exit(rc)
