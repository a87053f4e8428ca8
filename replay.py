#!/opt/venv/bin/python
"""Replay a solver counterexample against the un-instrumented code in /repo.

usage: /opt/venv/bin/python /verif/replay.py FILE.json
Exit 3: the violation is reproduced. 0: it is not. 4: replay error.
"""
import importlib
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.environ.get('VERIF_REPO', '/repo'), HERE]
sys.dont_write_bytecode = True


def main():
    with open(sys.argv[1]) as f:
        case = json.load(f)
    from symx.sx import ConcSX, Violation, Skip
    try:
        mod = importlib.import_module('props.' + case['module'])
    except Exception as e:
        traceback.print_exc()
        if not case.get('load'):
            return 4
        print(f'REPRODUCED cannot load: {type(e).__name__}: {e}')
        return 3
    if case.get('load'):
        print('loads')
        return 0
    h = mod.H.get(case['harness'])
    sx = ConcSX(case['values'])
    sx.tier = case.get('tier', 'quick')
    cfg = h[sx.tier][case['config']]
    try:
        h['fn'](sx, cfg) if cfg is not None else h['fn'](sx)
    except Violation as v:
        print('REPRODUCED', v)
        return 3
    except Skip:
        print('assumption not met')
        return 0
    except Exception as e:
        traceback.print_exc()
        print(f'REPRODUCED unexpected {type(e).__name__}: {e}')
        return 3
    print('not reproduced')
    return 0


if __name__ == '__main__':
    sys.exit(main())
