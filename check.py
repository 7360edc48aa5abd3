#!/usr/bin/env python3
"""Decides one property of /repo.  Usage: check.py Cxx [quick|thorough]"""
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
VT = '/opt/veriftools/pyvenv/bin/python'
try:
    import z3  # noqa: F401
    import numpy  # noqa: F401
except ImportError:
    if os.path.exists(VT) and not os.environ.get('VERIF_REEXEC'):
        os.environ['VERIF_REEXEC'] = '1'
        os.execv(VT, [VT] + sys.argv)
    raise
sys.dont_write_bytecode = True
sys.path.insert(0, VERIF)
from engine import runner  # noqa: E402

if __name__ == '__main__':
    sys.exit(runner.setup() if '--setup' in sys.argv else runner.main(sys.argv[1:]))
