#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]"""
import argparse, importlib, os, sys, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from nsa.ir import AnalysisError
from nsa.spec import Check


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    c = Check(a.property, a.tier, seed)
    try:
        mod = importlib.import_module('props.' + a.property.lower())
        mod.check(c)
        c.flush()
        rc = c.finish(mod.EXPLANATION, getattr(mod, 'ASSUMPTIONS', ()))
    except AnalysisError as e:
        print('ANALYSIS-ERROR property=%s %s' % (a.property, e))
        rc = 2
    sys.stdout.flush()
    return rc


if __name__ == '__main__':
    threading.stack_size(512 * 1024 * 1024)
    sys.setrecursionlimit(100000)
    res = []
    t = threading.Thread(target=lambda: res.append(main()))
    t.start()
    t.join()
    os._exit(res[0] if res else 2)
