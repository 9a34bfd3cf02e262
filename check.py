#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]    decide one property on the current source of /repo"""
import argparse
import importlib
import os
import pkgutil
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from sa.report import Report            # noqa: E402
from sa.project import AnalysisError    # noqa: E402
import sa.rules                         # noqa: E402


def rules():
    out = {}
    for m in pkgutil.iter_modules(sa.rules.__path__):
        mod = importlib.import_module('sa.rules.' + m.name)
        for pid, fs in getattr(mod, 'RULES', {}).items():
            out.setdefault(pid, []).extend(fs if isinstance(fs, (list, tuple)) else [fs])
    return out


def run(pid, tier, ctx):
    rep = Report(pid, tier, int(os.environ.get('VERIF_SEED', '1') or 1))
    ctx.rep, ctx.tier = rep, tier
    for f in rules()[pid]:
        with rep.guard('analysis', f.__name__):
            f(ctx, rep)
    return rep


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    a = ap.parse_args()
    from sa.ctx import Ctx
    try:
        ctx = Ctx()
    except AnalysisError as e:
        print('ERROR: %s' % e)
        return 2
    ids = sorted(rules()) if a.property == 'all' else [a.property]
    rc = 0
    for pid in ids:
        rep = run(pid, a.tier, ctx)
        rc = max(rc, rep.finish())
    return rc


if __name__ == '__main__':
    sys.exit(main())
