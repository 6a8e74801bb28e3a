#!/usr/bin/env python3
'''check.py PROPERTY [--tier quick|thorough] [--case SUBSTR] [-v] [-j N]'''
import os
import sys

VT = '/opt/veriftools/pyvenv/bin/python'
try:
    import z3  # noqa: F401
except ImportError:
    os.execv(VT, [VT] + sys.argv)

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, ROOT)
os.environ.setdefault('PYTHONHASHSEED', '0')

MODULES = {}


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER')
                    or 'quick')
    ap.add_argument('--case')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('--budget', type=int)
    a = ap.parse_args()
    from harness import index
    from symex import runner
    return runner.run(a.prop, index.MODULE[a.prop], a.tier, a.j, a.case,
                      a.budget, a.v)


if __name__ == '__main__':
    sys.exit(main())
