#!/usr/bin/env python3
"""Behaviour-preserving edits on which every check has to stay quiet.

usage: try_refactor.py SPEC.py [ID ...] [-p C01,C02]; SPEC defines REFACTORINGS: dict id -> list of (file, old, new, count)
(count 0: every occurrence).  Confirms first, on random data, that the edited copy computes what /repo computes."""
import os, runpy, shutil, subprocess, sys, tempfile, time, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SAME = r'''
import sys, warnings, importlib, numpy as np
warnings.simplefilter('ignore'); np.seterr(all='ignore')
sys.dont_write_bytecode = True
import cvi
out = []
rng = np.random.default_rng(5)
for n, d, k in [(6, 1, 2), (9, 2, 3), (14, 3, 4), (30, 2, 5), (12, 2, 12)]:
    X = rng.normal(size=(n, d)); L = rng.integers(0, k, n) * 7 - 5
    L[:2] = [2, -5]
    for m in cvi.MODULES:
        o = m()
        out += [float(o.get_cvi(x, l)) for x, l in zip(X, L)]
        out.append(float(m().get_cvi(X, L)))
np.save(sys.argv[1], np.array(out))
'''
args = sys.argv[1:]
props = None
if '-p' in args:
    i = args.index('-p')
    props = args[i + 1].split(',')
    del args[i:i + 2]
spec = runpy.run_path(args[0])['REFACTORINGS']
import numpy as np
for rid, edits in spec.items():
    if args[1:] and rid not in args[1:]:
        continue
    tmp = tempfile.mkdtemp(prefix='refac', dir='/tmp')
    r = os.path.join(tmp, 'repo')
    try:
        shutil.copytree('/repo', r, symlinks=True)
        for e in edits:
            f, old, new = e[:3]
            cnt = e[3] if len(e) > 3 else 1
            p = os.path.join(r, 'src/cvi', f)
            s = open(p).read()
            if not s.count(old) or (cnt and s.count(old) != cnt):
                raise SystemExit(f'{rid}: {s.count(old)} matches in {f}: {old!r}')
            open(p, 'w').write(s.replace(old, new))
        vals = []
        for root in ('/repo', r):
            o = os.path.join(tmp, 'v.npy')
            subprocess.run(['/opt/venv/bin/python', '-c', SAME, o], env=dict(os.environ, PYTHONPATH=root + '/src'), check=True)
            vals.append(np.load(o))
        same = np.allclose(*vals, rtol=1e-7, atol=1e-12, equal_nan=True)
        print(rid, 'equivalent' if same else 'NOT EQUIVALENT %s' % np.nanmax(abs(vals[0] - vals[1])), flush=True)
        if not same:
            continue
        for p in props or [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]:
            t = time.time()
            q = subprocess.run(['python3', os.path.join(V, 'check.py'), p, 'quick'], env=dict(os.environ, CVI_REPO=r), capture_output=True, text=True)
            lines = q.stdout.strip().splitlines()
            bad = q.returncode != 0 or any('INCONCLUSIVE' in x for x in lines)
            print(f'  {p} rc={q.returncode} {time.time()-t:.0f}s', 'ALARM' if q.returncode else '', lines[-1][:200] if lines else q.stderr[-500:], flush=True)
            if bad:
                for x in [x for x in lines if 'VIOLATION' in x or 'INCONCL' in x][:6]:
                    print('     ', x[:300])
    finally:
        shutil.rmtree(tmp)
