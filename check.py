#!/usr/bin/env python3
"""python3 /verif/check.py <PROPERTY> [--tier quick|thorough]"""
import sys, os, importlib, argparse, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from fx.ir import AnalysisError
from fx import core
from fx.rules import REGISTRY


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if a.prop == 'ALL':        # development only: every check on one model
        ctx, bad = core.Ctx(a.tier), 0
        for p in sorted(REGISTRY):
            try:
                r = core.run_check(p, importlib.import_module('fx.rules.' + REGISTRY[p]), a.tier, seed, ctx)
            except Exception as e:
                r = 3
                print("ANALYSIS-ERROR property=%s %r" % (p, e))
                if not isinstance(e, AnalysisError):
                    traceback.print_exc()
            bad = max(bad, r)
        return bad
    mod = importlib.import_module('fx.rules.' + REGISTRY[a.prop])
    try:
        return core.run_check(a.prop, mod, a.tier, seed)
    except AnalysisError as e:
        print("ANALYSIS-ERROR property=%s %s" % (a.prop, e))
        return 3


if __name__ == '__main__':
    sys.exit(main())
