#!/usr/bin/env python3
"""python3 run.py C01 [--tier quick|thorough] [--seed N]   runs one property's check."""
import argparse, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vp import checks, runner, build


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    a = ap.parse_args()
    run = runner.Run(a.prop, a.tier, a.seed)
    try:
        rc = checks.run(run)
    except runner.Inconclusive as e:
        print("ERROR: %s" % e)
        run.cleanup()
        rc = 2
    except BaseException:
        traceback.print_exc()
        run.cleanup()
        rc = 2
    sys.exit(rc)


main()
