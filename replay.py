#!/usr/bin/env python3
"""Re-runs a counterexample (a replay file of a VIOLATION line) on the untouched code in /repo.

Exit 1 if it still fails, 0 if not."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
try:
    import numpy  # noqa: F401
except ImportError:
    if not os.environ.get('VERIF_REEXEC') and os.path.exists(PY):
        os.environ['VERIF_REEXEC'] = '1'
        os.execv(PY, [PY] + sys.argv)
    raise
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(os.environ.get('CVI_REPO', '/repo'), 'src'), VERIF]
from engine import conc  # noqa: E402

if __name__ == '__main__':
    with open(sys.argv[1]) as f:
        v = json.load(f)
    r = conc.run(dict(h=v['h'], params=v['params'], assign=v['assign']))
    print(v['property'], v['h'], json.dumps(v['params']['args']))
    print('inputs:', json.dumps(r['used']))
    for x in r['violations']:
        print('FAILS', x['tag'], x['msg'])
    print('reproduced' if r['violations'] else 'not reproduced')
    sys.exit(1 if r['violations'] else 0)
