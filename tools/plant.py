#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from a spec module: confirms in a scratch copy that the change builds,
passes the tests, and that the demonstration tells it from the unchanged code.

usage: plant.py SPEC.py [ID ...]; SPEC defines BUGS: list of dict(id, property, needs, breaks, edits=[(file, old, new)], demo)."""
import json, os, re, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# exit 0: behaves as promised; nonzero: it does not
cd /repo || exit 2
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/src exec "$PY" "$(dirname "$0")/demo.py"
'''
PRE = '''import sys
import warnings
import numpy as np
import cvi
warnings.simplefilter('ignore')
np.seterr(all='ignore')


def stream(name, X, L, o=None):
    o = o or getattr(cvi, name)()
    for x, l in zip(X, L):
        v = o.get_cvi(np.array(x, dtype=float), l)
    return v


def batch(name, X, L):
    return getattr(cvi, name)().get_cvi(np.array(X, dtype=float), np.array(L))


def check(what, a, b):
    if not (np.isfinite(a) and abs(a - b) <= 1e-6 * max(1.0, abs(b))):
        print('FAIL', what, a, 'expected', b)
        sys.exit(1)


'''
src = open('/opt/vp/test.sh').read(), open('/opt/vp/build.sh').read()
spec = runpy.run_path(sys.argv[1])['BUGS']
only = sys.argv[2:]
bad = 0
for b in spec:
    if only and b['id'] not in only:
        continue
    tmp = tempfile.mkdtemp(prefix='plant', dir='/tmp')
    try:
        r = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', r, symlinks=True)
        for f, old, new in b['edits']:
            p = os.path.join(r, f)
            s = open(p).read()
            if s.count(old) != 1:
                raise SystemExit(f'{b["id"]}: {s.count(old)} matches in {f}: {old!r}')
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=r, text=True, capture_output=True).stdout
        d = os.path.join(V, 'seeded', b['id'])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.py'), 'w').write(PRE + b['demo'].lstrip('\n'))
        open(os.path.join(d, 'demo.sh'), 'w').write(SH)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        # tests and build in the copy
        for i, s in enumerate(src):
            open(os.path.join(tmp, f's{i}.sh'), 'w').write(s.replace('/repo', r))
        bl = subprocess.run(['bash', os.path.join(tmp, 's1.sh')], capture_output=True, text=True)
        out = os.path.join(tmp, 'o.json')
        subprocess.run(['bash', os.path.join(tmp, 's0.sh'), out], capture_output=True, text=True)
        res = json.load(open(out))
        stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
        passed = set(res.get('passed', res if isinstance(res, list) else []))
        miss = [t for t in stable if t not in passed]

        def demo(root):
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=root + '/src')
            return subprocess.run(['/opt/venv/bin/python', os.path.join(d, 'demo.py')], env=env, capture_output=True, text=True)
        ok0, ok1 = demo('/repo'), demo(r)
        good = bl.returncode == 0 and not miss and ok0.returncode == 0 and ok1.returncode != 0
        print(b['id'], b['property'], 'OK' if good else 'BAD', '' if good else (bl.returncode, miss, ok0.returncode, ok0.stdout, ok0.stderr[-300:], ok1.returncode),
              ok1.stdout.strip()[:150] or ok1.stderr.strip().splitlines()[-1:] )
        if not good:
            bad = 1
            shutil.rmtree(d)
    finally:
        shutil.rmtree(tmp)
sys.exit(bad)
