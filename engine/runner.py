"""Runs the tasks of a property on all cores, writes evidence and counterexamples."""
import hashlib
import json
import multiprocessing as mp
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, 'evidence')
REPLAYS = os.path.join(VERIF, 'replays')


def _one(task):
    from . import senv
    try:
        return senv.run_task(task)
    except BaseException as ex:  # noqa: B902 - a crash of the machinery is reported, never a verdict
        import traceback
        return dict(id=task['id'], crash=f'{type(ex).__name__}: {ex}', tb=traceback.format_exc()[-1500:],
                    index=task.get('index'), rung=task.get('rung'), violations=[], undecided=[], proved=0)


def _init():
    import signal
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        os.environ[k] = '1'


def known():
    p = os.path.join(VERIF, 'known-findings.json')
    if os.path.exists(p):
        with open(p) as f:
            return json.load(f).get('findings', [])
    return []


def is_known(prop, v, kn):
    for k in kn:
        if k.get('property') == prop and k.get('harness') == v['h'] and \
                all(v['params']['args'].get(a) == b for a, b in k.get('args', {}).items()) and \
                any(k.get('observed', '') in o['msg'] or k.get('observed', '') in o['tag'] for o in v['observed']):
            return k
    return None


def main(argv):
    prop = argv[0]
    tier = next((a for a in argv[1:] if a in ('quick', 'thorough')), 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    verbose = '-v' in argv
    t0 = time.time()
    from . import props
    tasks = props.plan(prop, tier, seed)
    if '-i' in argv:
        keep = argv[argv.index('-i') + 1].split(',')
        tasks = [t for t in tasks if t['index'] in keep]
    limit = 420 if tier == 'quick' else 3300
    nproc = int(os.environ.get('VERIF_PROCS', str(os.cpu_count() or 4)))
    order = sorted(range(len(tasks)), key=lambda i: -cost(tasks[i]))
    tasks = [tasks[i] for i in order]
    results = []
    stop = False
    with mp.get_context('fork').Pool(nproc, initializer=_init, maxtasksperchild=60) as pool:
        it = pool.imap_unordered(_one, tasks, chunksize=1)
        for _ in range(len(tasks)):
            left = limit - (time.time() - t0)
            try:
                r = it.next(timeout=max(1.0, left))
            except mp.TimeoutError:
                break
            except StopIteration:
                break
            results.append(r)
            if verbose and (r.get('undecided') or r.get('unsupported') or r.get('crash') or r.get('mismatch')
                            or not r.get('complete') or r.get('wall', 0) > 8):
                t = next(x for x in tasks if x['id'] == r['id'])
                print('..', r['id'], t['h'], t['params']['args'], 'wall %.1f' % r.get('wall', 0),
                      {k: r.get(k) for k in ('undecided', 'unsupported', 'crash', 'tb', 'mismatch', 'notes', 'complete',
                                             'paths') if r.get(k)}, flush=True)
            if r['violations'] and not all(is_known(prop, v, known()) for v in r['violations']):
                stop = True
                break
        pool.terminate()
    return report(prop, tier, seed, tasks, results, stop, time.time() - t0)


def cost(t):
    a = t['params']['args']
    n = len(a.get('labels') or []) or a.get('n', 4)
    return n * a.get('d', 1) * (3 if t['index'] == 'rCIP' else 1)


def report(prop, tier, seed, tasks, results, stop, wall):
    kn = known()
    viol, knownhits = [], []
    for r in results:
        for v in r['violations']:
            k = is_known(prop, v, kn)
            (knownhits if k else viol).append((v, k) if k else v)
    ran = [r for r in results if 'crash' not in r]
    crashes = [r for r in results if 'crash' in r]
    unfinished = len(tasks) - len(results)
    und = [(r['id'], u) for r in ran for u in r['undecided']]
    unsup = [(r['id'], r['unsupported']) for r in ran if r.get('unsupported')]
    incomplete = [r['id'] for r in ran if not r.get('complete') and not r['violations']]
    tot = lambda k: sum(r.get(k) or 0 for r in ran)
    stat = lambda k: sum(r['stats'].get(k, 0) for r in ran)
    fns = sorted(set(f for r in ran for f in r.get('functions', ())))
    idx = {}
    for r in ran:
        e = idx.setdefault(r['index'], dict(tasks=0, obligations_proved=0, undecided=0))
        e['tasks'] += 1
        e['obligations_proved'] += r['proved']
        e['undecided'] += len(r['undecided']) + (1 if not r.get('complete') else 0)
    samples = [s for r in ran for s in r.get('samples', ())]
    samples.sort(key=lambda s: hashlib.md5(json.dumps(s, sort_keys=True, default=str).encode()).hexdigest())
    bounds = {}
    for t in tasks:
        a = t['params']['args']
        b = bounds.setdefault(t['h'], dict(tasks=0, max_samples=0, max_clusters=0, max_dim=0))
        b['tasks'] += 1
        L = a.get('labels') or []
        b['max_samples'] = max(b['max_samples'], len(L), a.get('n', 0))
        b['max_clusters'] = max(b['max_clusters'], len(set(L)), a.get('k', 0))
        b['max_dim'] = max(b['max_dim'], a.get('d', 0))
    cov = dict(
        states=tot('paths'), transitions=tot('transitions'), traces_validated_against_impl=tot('validated'),
        samples=samples[:4],
        obligations_proved=tot('proved'), of_which_constant=tot('constant'), obligations_vacuous=tot('vacuous'),
        obligations_undecided=len(und), undecided=[f'{i}: {u[:200]}' for i, u in und[:8]],
        tasks=len(tasks), tasks_run=len(results), tasks_incomplete=len(incomplete), tasks_unsupported=len(unsup),
        unsupported=[u[:300] for _, u in unsup[:4]], crashes=[r['crash'] for r in crashes[:4]],
        paths_without_witness=tot('unwitnessed'), encoding_mismatches=tot('mismatch'),
        queries=stat('queries'), queries_unsat=stat('unsat'), queries_sat=stat('sat'), queries_unknown=stat('unknown'),
        solver_s=round(stat('solver_s'), 2), lemma_queries=stat('lemmas'), branch_decisions=stat('branches'),
        functions_encoded=fns, bounds=bounds, per_index=idx,
        solver='z3 ' + _z3v(),
        meaning='states: symbolic paths executed to the end; transitions: calls of the code executed symbolically; '
                'obligations: assertions refuted (unsat) for every value of the inputs on their path')
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov,
              assumptions=['samples are real numbers; floating-point rounding is not modelled',
                           'sizes (samples, clusters, features) are bounded as listed in coverage.bounds',
                           'numpy is modelled by engine/snp.py, checked against the real one on every path that has a witness'],
              wall_s=round(wall, 2), violations=len(viol))
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for v, k in knownhits:
        print(f'KNOWN-FINDING: property={prop} {k["what"]}')
    print(f'{prop} {tier}: {len(results)}/{len(tasks)} tasks, {tot("paths")} paths, {tot("proved")} obligations proved, '
          f'{len(und)} undecided, {len(incomplete)} incomplete, {stat("queries")} queries, '
          f'{stat("solver_s"):.1f} s in the solver, {tot("validated")} paths replayed on the real code, {wall:.1f} s')
    if viol:
        os.makedirs(REPLAYS, exist_ok=True)
        for n, v in enumerate(viol[:3]):
            p = os.path.join(REPLAYS, f'{prop}-{n}.json')
            with open(p, 'w') as f:
                json.dump(dict(property=prop, **v), f, indent=1, default=str)
            print(f'  {v["h"]} {json.dumps(v["params"]["args"])}: {v["observed"][0]["tag"]}: {v["observed"][0]["msg"]}')
            print(f'VIOLATION property={prop} replay={p}')
        return 1
    if crashes:
        print('machinery error:', crashes[0]['crash'], crashes[0]['tb'])
    # nothing could be encoded: the concrete runs of the fallback are all there is, and it is said
    dead = [i for i, e in idx.items() if e['obligations_proved'] == 0]
    if dead:
        print('INCONCLUSIVE for', ', '.join(dead), '- not encodable; only executed on a few inputs:',
              '; '.join(u for _, u in unsup[:2])[:600])
    if not ran or len(crashes) > len(tasks) // 2:
        print('no verdict')
        return 2
    return 0


def _z3v():
    import z3
    return z3.get_version_string()


def setup():
    """Is everything there that the checks need?"""
    from . import loader, senv, props
    loader.load()
    r = senv.WORKER.run('definition', dict(args=dict(name='CH', mode='batch', labels=[0, 1, 0], d=1)), {'x0_0': 1.0, 'x1_0': 5.0})
    senv.WORKER.stop()
    print('solver z3', _z3v(), '-', len(props.PLANS), 'plans - worker', 'ok' if r['err'] is None else r['err'])
    return 0 if r['err'] is None else 1
