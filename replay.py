#!/usr/bin/env python3
'''Replays a recorded violation on the real code: exit 1 if it reproduces.'''
import json
import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('RIEMANN_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path.insert(0, ROOT)
sys.path.insert(0, REPO)


def main():
    with open(sys.argv[1]) as f:
        v = json.load(f)
    from symex import engine, rt
    import importlib
    import riemann
    assert os.path.realpath(riemann.__file__).startswith(
        os.path.realpath(REPO)), riemann.__file__
    r = rt.NatRT(engine.decode_inputs(v['inputs']))
    f = getattr(importlib.import_module(v['module']), v['fn'])
    try:
        f(r, **v['params'])
    except rt.SkipRest:
        pass
    except rt.Failed:
        pass
    except Exception as e:
        r.failed.append('raised %s: %s' % (type(e).__name__, e))
    for k, x in v['inputs'].items():
        print('input', k, '=', str(x)[:200])
    for e in r.events[-4:]:
        print('trace', str(e)[:300])
    print('failed:', r.failed, getattr(r, 'why', ''))
    return 1 if r.failed else 0


if __name__ == '__main__':
    sys.exit(main())
