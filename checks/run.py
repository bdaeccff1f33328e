#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough] -- decides one property on the current tree."""
import os, signal, sys, importlib, traceback
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    for f in sorted(os.listdir(os.path.dirname(os.path.abspath(__file__)))):
        if f.startswith("chk_") and f.endswith(".py"):
            importlib.import_module(f[:-3])
    if prop not in REG:
        print("ERROR: no check for " + prop)
        return 2
    fn, expl, rule, only = REG[prop]
    try:
        M = model.load(only=only)
    except AnalysisError as e:
        print("ERROR: %s" % e)
        return 2
    chk = Check(prop, tier, expl, rule)
    chk.stats["units_parsed"] = len(M.units)
    chk.stats["function_bodies"] = len(M.bodies)
    def late(*_):
        raise AnalysisError("time budget exceeded")
    signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, 540, 10)      # whatever is not decided by then is reported as undecided
    try:
        fn(chk, M)
    except Exception as e:          # the analysis does not cover this code: nothing is claimed about it
        signal.setitimer(signal.ITIMER_REAL, 0)
        if not isinstance(e, AnalysisError):
            traceback.print_exc(limit=-4)
            e = "analysis failed: %s" % type(e).__name__
        print("NOTE: %s; what depends on it is undecided" % e)
        chk.expect("analysis", None, "", rule, str(e))
    signal.setitimer(signal.ITIMER_REAL, 0)
    return chk.finish()


if __name__ == "__main__":
    sys.exit(main())
