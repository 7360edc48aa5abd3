"""The symbolic interpretation of a harness, and the running of one task."""
import math
import os
import random
import sys
import time
import traceback
from fractions import Fraction

import numpy as np
import z3

from . import sym, snp, loader
from .conc import close, footprint
from .sym import Sym, SymBool, Steer, Unsupported, Budget, NPTS, NRND, PY, as_sym, zc, snap
from .worker import Worker

WORKER = Worker()


class SEnv:
    symbolic = True

    def __init__(self, task, c, res):
        self.task = task
        self.params = task['params']
        self.unit = self.params.get('unit', 1.0)
        self.c = c
        self.res = res
        self.trace = []
        self.local = []          # obligations of this path
        self.cvi = loader.load()

    # -- values ---------------------------------------------------------------------
    def real(self, name, lo=None, hi=None, pos=False):
        c = self.c
        if name in c.vars:
            return c.vars[name]['sym']
        pts = None
        if lo is None and hi is None and self.unit != 1.0:
            r = random.Random(f'{name}|{c.seed}')
            pts = tuple(float('%.4g' % (self.unit * r.uniform(-4, 4))) for _ in range(NRND)) + (0.0,)
        return c.var(name, lo=lo, hi=hi, pos=pos, pts=pts)

    def const(self, x):
        return sym.const(snap(x))

    def int(self, name, lo=None, hi=None, dt=None):
        return self.c.var(name, lo=lo, hi=hi, integer=True, dt=None if dt is None else np.dtype(dt))

    def wide(self, name, dt):
        """A whole number of up to 64 bits that a float holds exactly."""
        s = (self.int(name, 0, 2 ** 52 - 1) * 4096)
        s = s.with_dt(np.dtype(dt))
        s.exact = True
        return s

    def whole(self, v, dt):
        return sym.const(v, np.dtype(dt))

    def fixed(self, v, dt):
        return sym.const(v, PY if dt is None else np.dtype(dt))

    def narrow(self, name, dt):
        return self.real(name).to_float(np.dtype(dt))

    def label(self, v, dt):
        return v if dt is None or not isinstance(v, Sym) else v.with_dt(np.dtype(dt))

    def bool(self, name):
        return bool(self.int(name, 0, 1) == 1)

    def vec(self, xs, dtype=None):
        a = snp._obj_array(xs)
        return snp.wrap(a, np.dtype(float if dtype is None else dtype))

    mat = vec

    def ints(self, xs, dtype=None):
        if any(isinstance(x, Sym) for x in xs):
            return snp.wrap(snp._obj_array(list(xs)), np.dtype(int if dtype is None else dtype))
        return np.array(xs, dtype=int if dtype is None else dtype)

    def empty(self, d):
        return snp.wrap(np.empty((0, d), dtype=object), np.dtype(float))

    def fortran(self, X):
        return snp.wrap(np.asfortranarray(X.view(np.ndarray)), X.mdt)

    def inside(self, rows):
        n, d = len(rows), len(rows[0])
        big = self.mat([[7.0] * (d + 1) for _ in range(2 * n)])
        X = big[::2, :d]
        for i in range(n):
            for j in range(d):
                X[i, j] = rows[i][j]
        return big, X

    def copy(self, o):
        import copy
        return copy.deepcopy(o)

    def saved(self, o, how):
        import copy, io, pickle
        if how == 'copy':
            return self.call(copy.deepcopy, o)

        def restore():
            kept = {}

            class P(pickle.Pickler):
                def persistent_id(self, x):
                    if isinstance(x, (Sym, loader.SymStr, snp.SymBytes)):
                        kept[id(x)] = x
                        return id(x)

                def reducer_override(self, x):
                    if isinstance(x, snp.SArr):
                        return unpickled, (x.shape, x.view(np.ndarray).reshape(-1).tolist(), x.mdt)
                    return NotImplemented

            class U(pickle.Unpickler):
                def persistent_load(self, i):
                    return kept[int(i)]
            f = io.BytesIO()
            P(f, int(how)).dump(o)
            f.seek(0)
            return U(f).load()
        return self.call(restore)

    def havoc(self, arr, tag):
        if isinstance(arr, snp.SArr):
            p = arr.view(np.ndarray)
            for i, ix in enumerate(np.ndindex(p.shape)):
                p[ix] = self.real(f'{tag}{i}') if arr.mdt.kind == 'f' else self.int(f'{tag}{i}', 0, 9)
        else:
            arr[...] = 0

    def same(self, tag, arr, ref):
        ref = snp._obj_array(ref) if not isinstance(ref, np.ndarray) else ref
        if arr.shape != ref.shape:
            self.fail(tag, 'shape changed')
            return
        bad = []
        a = arr.view(np.ndarray)
        for x, y in zip(a.flat, ref.flat):
            if x is y:
                continue
            if not isinstance(x, Sym) and not isinstance(y, Sym):
                if not (x == y):
                    bad.append((x, y))
            elif not (isinstance(x, (Sym, float, int)) and self.c.prove_eq(x, y)):
                bad.append((x, y))
        if not bad:
            self.note(tag, 'proved', 'unsat')
        else:
            x, y = bad[0]
            ne = None
            if isinstance(x, Sym) or isinstance(y, Sym):
                try:
                    e, m, L = self.c.ne_expr(x, y)
                    ne = ([e] + [f.e != 0 for f, _ in L.values()], m)
                except (TypeError, ValueError):
                    ne = None
            self.search(tag, ne, 'array modified')

    # -- operations of the oracle ------------------------------------------------------
    @property
    def pi(self):
        return self.c.pi()

    def min(self, xs):
        return self.c.maxmin('min', list(xs))

    def max(self, xs):
        return self.c.maxmin('max', list(xs))

    def div(self, a, b):
        if not isinstance(b, Sym) and b == 0:
            return math.nan
        return a / b

    def sqrt(self, x):
        return as_sym(x).sqrt() if isinstance(x, Sym) or math.isfinite(x) else math.nan

    def exp(self, x):
        return as_sym(x).exp() if isinstance(x, Sym) or math.isfinite(x) else math.nan

    def cov_entry(self, s, i, a, b):
        n = s.n[i]
        if isinstance(n, Sym):
            return s.cov[i][a][b]
        return s.scat[i][a][b] / (n - 1) if n > 1 else 0.0

    def exact(self, rows):
        return [[x.as_float() for x in r] for r in rows]

    def watch_ints(self):
        self.c.int_check = True
        self.c.ints = []

    def no_overflow(self, tag, dom):
        """Integer intermediates of fixed width stay within their type."""
        c = self.c
        dc = self.domcons(dom)
        if dc is None:
            return
        seen = set()
        for s in c.ints:
            if s.f or s.n.get_id() in seen:
                continue
            seen.add(s.n.get_id())
            ii = np.iinfo(s.dt)
            al = c.alias(s)
            cons = [z3.Or(al.n < int(ii.min), al.n > int(ii.max))] + dc[0]
            if self.refute(cons, al.m | dc[1], 2000) != 'unsat':
                self.search(tag, (cons, al.m | dc[1]), f'{s.dt} arithmetic can overflow', soft=True)
                return
        self.note(tag, 'proved', 'unsat' if seen else 'path')

    # -- running the code -----------------------------------------------------------------
    def size(self, obj):
        return footprint(obj, (Sym, SymBool))

    def new(self, name):
        return getattr(self.cvi, name)()

    def call(self, fn, *a):
        self.res['transitions'] += 1
        self.c.incode = True
        try:
            return 'ok', fn(*a)
        except Exception as ex:
            self.last_tb = traceback.format_exc()[-900:]
            return 'exc', type(ex).__name__
        finally:
            self.c.incode = False

    # -- obligations -------------------------------------------------------------------------
    def assume(self, b):
        self.c.assume(b)

    def note(self, tag, status, how, msg=''):
        self.local.append((tag, status, how, msg))

    def base(self):
        """Path condition and assumptions, with their mask."""
        c = self.c
        cons = [e for e, _ in c.pc] + [e for e, _ in c.assumed]
        m = 0
        for _, mm in c.pc + c.assumed:
            m |= mm
        return cons, m

    def domcons(self, dom):
        """(constraints, mask) for 'defined', or None if never defined."""
        cons, m = [], 0
        for d in dom:
            if isinstance(d, Sym):
                if d.cf is not None:
                    if d.cf == 0:
                        return None
                    continue
                if d.sg == 2:
                    continue
                al = self.c.alias(d)
                cons.append(al.n > 0 if d.sg else al.n != 0)
                if d.sg == 0 or d.f:
                    pass
                cons.append(d.n != 0)
                for fac, _ in d.f.values():
                    if fac.sg != 2:
                        cons.append(fac.e != 0)
                        m |= fac.m
                m |= d.m | al.m
            elif not d == d or d == 0:
                return None
        return cons, m

    def dom_ok(self, dom, p):
        for d in dom:
            x = d.sh[p] if isinstance(d, Sym) else float(d)
            if not (x == x and abs(x) > 1e-13):
                return False
        return True

    def refute(self, cons, m, ms=None):
        """Is cons (with the path condition) unsatisfiable?  Linear part first, then everything."""
        c = self.c
        ms = ms or c.prove_ms
        b, bm = self.base()
        m = m | bm
        lin, seen = c.closure(m, False)
        r = c.check(cons + b + lin + c.varcons(seen | m), seen | m, ms)
        if r == 'unsat':
            return 'unsat'
        full, seen2 = c.closure(m, True)
        if len(full) > len(lin):
            r = c.check(cons + b + full + c.varcons(seen2 | m), seen2 | m, ms)
        return r

    def eq(self, tag, a, b, dom=()):
        c = self.c
        if isinstance(a, np.ndarray) and a.ndim == 0:
            a = a[()]
        if isinstance(b, np.ndarray) and b.ndim == 0:
            b = b[()]
        self.trace.append((tag, a, list(dom)))
        dc = self.domcons(dom)
        if dc is None:
            self.note(tag, 'vacuous', 'undefined')
            return
        okt = (Sym, int, float, np.integer, np.floating, Fraction)
        if not isinstance(a, okt):
            self.search(tag, dc, f'not a number: {type(a).__name__}')
            return
        asym, bsym = isinstance(a, Sym), isinstance(b, Sym)
        if not bsym and not math.isfinite(b):
            self.note(tag, 'vacuous', 'undefined')
            return
        if not asym and not bsym:
            if close(a, b, 1e-12, 1e-13):
                self.note(tag, 'proved', 'constant')
            else:
                self.search(tag, dc, f'{a} != {b}')
            return
        if not asym and not math.isfinite(a):
            # the code divided by zero (or similar); is the definition defined here?
            if self.refute(dc[0], dc[1]) == 'unsat':
                self.note(tag, 'vacuous', 'undefined')
            else:
                self.search(tag, dc, f'value {a}')
            return
        if not c.prove_eq(a, b):
            differs = False
            sa, sb = as_sym(a), as_sym(b)
            for p in range(NPTS):
                if c.alive[p] and self.dom_ok(dom, p) and not close(sa.sh[p], sb.sh[p]):
                    differs = True
            ne, m, L = c.ne_expr(a, b)
            cons = [ne] + [f.e != 0 for f, _ in L.values() if f.sg != 2] + dc[0]
            m |= dc[1]
            if differs or self.refute(cons, m) != 'unsat':
                self.search(tag, (cons, m), 'value differs')
                return
        if asym and not self.dens_ok(tag, a, b, dom, dc):
            return
        self.note(tag, 'proved', 'unsat')

    def _dens(self, s):
        """Denominator factors a value depends on, also inside auxiliary functions."""
        out = dict((k, f) for k, (f, _) in s.f.items())
        work, seen = s.m, 0
        while work:
            low = work & -work
            work ^= low
            if seen & low:
                continue
            seen |= low
            a = self.c.auxbit.get(low)
            if a is not None:
                for x in a.args:
                    if isinstance(x, Sym):
                        for k, (f, _) in x.f.items():
                            out[k] = f
                        work |= x.m & ~seen
        return out

    def dens_ok(self, tag, a, b, dom, dc):
        """No denominator of the code's value may vanish where the definition is defined."""
        c = self.c
        mine = self._dens(a)
        have = set()
        if isinstance(b, Sym):
            have |= set(self._dens(b))
        for d in dom:
            if isinstance(d, Sym):
                f, k = c.factor(d)
                if f is not None:
                    have.add(f.id)
        for k, f in mine.items():
            if k in have or f.sg == 2:
                continue
            if k in self.res.setdefault('_denok', {}):
                continue
            cons = [f.e == 0] + dc[0]
            r = self.refute(cons, f.m | dc[1], 1500)
            if r == 'unsat':
                if not c.pc and not c.assumed:
                    self.res['_denok'][k] = f
                continue
            self.search(tag, (cons, f.m | dc[1]), 'division by zero', soft=True)
            return False
        return True

    def le(self, tag, a, b, dom=(), strict=False):
        c = self.c
        dc = self.domcons(dom)
        if dc is None:
            self.note(tag, 'vacuous', 'undefined')
            return
        for x in (a, b):
            if not isinstance(x, Sym) and x != x:
                if self.refute(dc[0], dc[1]) == 'unsat':
                    self.note(tag, 'vacuous', 'undefined')
                else:
                    self.search(tag, dc, f'value {x}')
                return
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            if a <= b:
                self.note(tag, 'proved', 'constant')
            else:
                self.search(tag, dc, f'{a} > {b}')
            return
        if isinstance(b, Sym) and not isinstance(a, Sym) and a <= 0 and b.sg:
            if self.dens_ok(tag, b, b, dom, dc):
                self.note(tag, 'proved', 'sign')
            return
        cmp = c.compare(as_sym(a), as_sym(b), '>')
        if self.refute([cmp.e] + dc[0], cmp.m | dc[1]) == 'unsat':
            self.note(tag, 'proved', 'unsat')
        else:
            self.search(tag, ([cmp.e] + dc[0], cmp.m | dc[1]), 'bound exceeded')

    def within(self, tag, v, via, lemmas, lo, hi, dom=()):
        """lo <= v <= hi.  First by way of an equal expression whose bounds follow from linear
        lemmas (pairs x <= y), else directly."""
        c = self.c
        dc = self.domcons(dom)
        if dc is None:
            self.note(tag, 'vacuous', 'undefined')
            return
        if isinstance(v, Sym) and isinstance(via, Sym) and c.prove_eq(v, via):
            good = True
            for x, y in lemmas:
                cmp = c.compare(as_sym(x), as_sym(y), '>')
                if isinstance(cmp, SymBool) and self.refute([cmp.e] + dc[0], cmp.m | dc[1]) != 'unsat' or cmp is True:
                    good = False
                    break
            if lo is not None and not lemmas:
                good = via.sg > 0 and lo == 0
            if good and self.dens_ok(tag, v, via, dom, dc):
                self.note(tag, 'proved', 'unsat')
                return
        if lo is not None:
            self.le(tag, lo, v, dom)
        if hi is not None:
            self.le(tag, v, hi, dom)

    def name(self, x):
        return self.c.alias(x) if isinstance(x, Sym) else x

    def scales(self, *xs):
        self.c.scales = [x for x in xs]

    def true(self, tag, cond, msg='', dom=()):
        dc = self.domcons(dom)
        if dc is None:
            self.note(tag, 'vacuous', 'undefined')
            return
        if isinstance(cond, SymBool):
            if self.refute([z3.Not(cond.e)] + dc[0], cond.m | dc[1]) == 'unsat':
                self.note(tag, 'proved', 'unsat')
            else:
                self.search(tag, ([z3.Not(cond.e)] + dc[0], cond.m | dc[1]), msg)
        elif cond:
            self.note(tag, 'proved', 'path')
        else:
            self.search(tag, dc, msg)

    def ok(self, tag, r):
        if r[0] != 'ok':
            self.search(tag, ([], 0), f'raised {r[1]}: ' + getattr(self, 'last_tb', '')[-300:])
            raise Steer('raised')
        return r[1]

    def exc(self, tag, r, names):
        if r[0] == 'exc' and (not names or r[1] in names):
            self.note(tag, 'proved', 'path')
        else:
            self.search(tag, ([], 0), f'expected {names}, got {r[0]}')

    def fail(self, tag, msg):
        self.search(tag, ([], 0), msg)

    # -- counterexamples ------------------------------------------------------------------
    def assignment(self, p):
        return {n: (int(d['sym'].sh[p]) if d['integer'] else d['sym'].sh[p])
                for n, d in self.c.vars.items() if n != 'pi'}

    def search(self, tag, cm, msg, soft=False):
        """Looks for an input (a solver model) on which the real code fails the harness."""
        c = self.c
        self.res['searches'] += 1
        cons, m = cm if cm is not None else ([], 0)
        tried = 0
        for asg, how in self.points(cons, m):
            tried += 1
            r = WORKER.run(self.task['h'], self.params, asg)
            if r['violations'] and genuine(self.task, r, asg, self.res):
                hit = [v for v in r['violations']]
                self.res['violations'].append(dict(tag=tag, why=msg, how=how, assign=asg,
                                                   observed=hit[:3], h=self.task['h'], params=self.params))
                self.note(tag, 'violated', how)
                raise Stop()
        self.note(tag, 'undecided', f'{tried} candidates not reproduced', msg)

    def points(self, cons, m):
        """Assignments satisfying the path condition and cons, best first."""
        c = self.c
        if not c.pc and not c.assumed or any(c.alive):
            for p in range(NPTS):
                if c.alive[p]:
                    asg = self.assignment(p)
                    yield asg, 'point of the path'
        for asg in self.special():
            yield asg, 'boundary values'
        b, bm = self.base()
        mask = m | bm
        full, seen = c.closure(mask, True)
        allc = list(cons) + b + full + c.varcons(seen | mask)
        mask |= seen
        for rnd in range(self.params.get('rounds', 4)):
            try:
                asg = self.concretize(allc, mask, rnd)
            except z3.Z3Exception:
                continue
            if asg is not None:
                yield asg, 'solver model'

    def special(self):
        """Inputs at the edges of machine types, tried whenever an obligation is not refuted."""
        c = self.c
        ints = sorted(n for n, d in c.vars.items() if d['integer'] and (d['hi'] is None or d['hi'] - (d['lo'] or 0) > 100))
        reals = [n for n, d in c.vars.items() if not d['integer'] and n != 'pi' and d['lo'] is None and d['hi'] is None]
        out = []
        base = self.assignment(0)
        if ints:
            for st, step in ((-2, 1), (0, 256), (0, 2 ** 16), (0, 2 ** 32), (2 ** 24, 1), (2 ** 31 - 1, 1), (2 ** 53, 1), (127, 1), (100, 9),
                             (3, 10 ** 18), (3, 10 ** 9), (10 ** 17, 1), (10 ** 9, 1), (1000, 1)):
                asg = dict(base)
                ok = True
                for i, n in enumerate(ints):
                    v = st + i * step
                    d = c.vars[n]
                    if (d['lo'] is not None and v < d['lo']) or (d['hi'] is not None and v > d['hi']):
                        ok = False
                        break
                    asg[n] = v
                if ok:
                    out.append(asg)
        if reals and self.c.narrow():
            for off in (1000.0, 1e5, 3e7):
                asg = dict(base)
                for n in reals:
                    asg[n] = asg[n] + off * self.unit
                out.append(asg)
            rng = random.Random(c.seed)
            for top in (24, 28):
                out.append({**base, **{n: float(2 ** top + 2 * rng.randrange(40) + 1) for n in reals}})
        return out

    def concretize(self, cons, mask, rnd, secs=None):
        """A solver model, with as many variables as possible set to simple values."""
        c = self.c
        rng = random.Random(f'{c.seed}|{rnd}')
        unit = self.unit
        scale = [1, 1, 1000, 1, Fraction(1, 100)][rnd % 5]
        names = [n for n in c.vars if n != 'pi' and c.vars[n]['bit'] & mask]
        rng.shuffle(names)
        val = {}
        for n in names:
            d = c.vars[n]
            if d['integer']:
                lo = d['lo'] if d['lo'] is not None else -9
                hi = d['hi'] if d['hi'] is not None else 9
                val[n] = rng.randint(int(lo), int(min(hi, lo + 20)))
            else:
                lo = d['lo'] if d['lo'] is not None else -5
                hi = d['hi'] if d['hi'] is not None else lo + 10
                f = Fraction(rng.randint(int(lo * 4), int(hi * 4)), 4) if rnd else Fraction(rng.randint(math.ceil(lo), math.floor(hi)))
                val[n] = f * snap(unit) * scale if d['lo'] is None and d['hi'] is None else f
        fixed = []
        deadline = time.time() + (secs or self.params.get('search_s', 6))

        def eqs(ns):
            out = []
            for n in ns:
                v = c.vars[n]['var']
                out.append(v == zc(Fraction(val[n])))
            return out

        def rec(ns):
            if not ns or time.time() > deadline:
                return
            r = c.check(cons + eqs(fixed + ns), mask, 700)
            if r == 'sat':
                fixed.extend(ns)
            elif len(ns) > 1:
                h = len(ns) // 2
                rec(ns[:h])
                rec(ns[h:])
        rec(names)
        r, model = c.check(cons + eqs(fixed), mask, 3000 if secs is None else 1000, want_model=True,
                           integral=any(d['integer'] and n not in fixed for n, d in c.vars.items()))
        if r != 'sat':
            return None
        asg = {}
        for n, d in c.vars.items():
            if n == 'pi':
                continue
            if n in fixed:
                asg[n] = int(val[n]) if d['integer'] else float(val[n])
                continue
            x = model.eval(d['var'], model_completion=False)
            if z3.is_int_value(x):
                asg[n] = x.as_long()
            elif z3.is_rational_value(x) and d['integer']:
                if x.denominator_as_long() != 1:
                    return None
                asg[n] = x.numerator_as_long()
            elif z3.is_rational_value(x):
                asg[n] = float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
            elif z3.is_algebraic_value(x):
                q = x.approx(20)
                asg[n] = float(Fraction(q.numerator_as_long(), q.denominator_as_long()))
            else:
                v = rng.randint(-4, 4)
                if d['lo'] is not None:
                    v = max(v, math.ceil(d['lo']))
                if d['hi'] is not None:
                    v = min(v, math.floor(d['hi']))
                asg[n] = v if d['integer'] else float(v) * (float(unit) if d['lo'] is None else 1.0)
        return asg

    # -- each path is run on the real code too ------------------------------------------------
    def validate(self):
        c = self.c
        if self.res['validated'] + self.res['mismatch'] >= self.params.get('max_validate', 12):
            return
        alive = [p for p in range(NPTS) if c.alive[p]]
        if alive:
            p = alive[0]
            asg = self.assignment(p)
        else:
            p = None
            asg = None
            b, bm = self.base()
            full, seen = c.closure(bm, True)
            self.res['hard'] = self.res.get('hard', 0) + 1
            if self.res['hard'] > 3:
                self.res['unwitnessed'] += 1
                return
            try:
                asg = self.concretize(b + full + c.varcons(seen | bm), seen | bm, 0, 2)
            except z3.Z3Exception:
                asg = None
            if asg is None:
                self.res['unwitnessed'] += 1
                return
        r = WORKER.run(self.task['h'], self.params, asg)
        if r['violations'] and genuine(self.task, r, asg, self.res):
            self.res['violations'].append(dict(tag='validation', why='a path point run on the real code', how='point of the path',
                                               assign=asg, observed=r['violations'][:3], h=self.task['h'],
                                               params=self.params))
            raise Stop()
        if r['err']:
            self.res['notes'].append('replay error: ' + r['err'])
            self.res['mismatch'] += 1
            return
        if r['skip']:
            self.res['unwitnessed'] += 1
            return
        if p is not None:
            if len(r['trace']) != len(self.trace):
                self.res['mismatch'] += 1
                self.res['notes'].append('trace length differs')
                return
            for (tag, a, dom), x in zip(self.trace, r['trace']):
                s = a.sh[p] if isinstance(a, Sym) else a
                if not self.dom_ok(dom, p):
                    continue
                try:
                    x = float(x)
                    s = float(s)
                except (TypeError, ValueError):
                    continue
                if s != s:
                    continue
                if not close(s, x, 1e-5, 1e-8):
                    self.res['mismatch'] += 1
                    self.res['notes'].append(f'encoding gives {s}, the code {x} ({tag})')
                    return
        self.res['validated'] += 1
        if len(self.res['samples']) < 1:
            self.res['samples'].append({'harness': self.task['h'], 'args': self.params.get('args'),
                                        'input': {k: asg[k] for k in list(asg)[:12]},
                                        'outputs_of_real_code': r['trace'][:6]})


def unpickled(shape, items, mdt):
    a = np.empty(len(items), dtype=object)
    for i, x in enumerate(items):
        a[i] = x
    r = a.reshape(shape).view(snp.SArr)
    r.mdt = mdt
    return r


class XEnv(SEnv):
    """The harness on one input, in exact rational arithmetic."""

    def __init__(self, task, c, res, asg):
        super().__init__(task, c, res)
        self.asg = asg
        self.bad = []

    def real(self, name, lo=None, hi=None, pos=False):
        return sym.const(Fraction(float(self.asg.get(name, 1.0 if pos else (lo if lo is not None else 0.0)))))

    def int(self, name, lo=None, hi=None, dt=None):
        return sym.const(int(self.asg.get(name, lo if lo is not None else 0)), PY if dt is None else np.dtype(dt))

    def eq(self, tag, a, b, dom=()):
        if self.domcons(dom) is None:
            return
        f = lambda x: x.sh[0] if isinstance(x, Sym) else x
        if isinstance(a, np.ndarray) and a.ndim == 0:
            a = a[()]
        if isinstance(b, np.ndarray) and b.ndim == 0:
            b = b[()]
        b = f(b)
        if b == b and abs(b) != math.inf and not close(f(a), b):
            self.bad.append(tag)

    def le(self, tag, a, b, dom=(), strict=False):
        if self.domcons(dom) is None:
            return
        f = lambda x: x.sh[0] if isinstance(x, Sym) else x
        a, b = f(a), f(b)
        if not a <= b + 1e-6 * max(1.0, abs(b)):
            self.bad.append(tag)

    def within(self, tag, v, via, lemmas, lo, hi, dom=()):
        if lo is not None:
            self.le(tag, lo, v, dom)
        if hi is not None:
            self.le(tag, v, hi, dom)

    def true(self, tag, cond, msg='', dom=()):
        if self.domcons(dom) is not None and not bool(cond):
            self.bad.append(tag)

    def no_overflow(self, tag, dom):
        # exact arithmetic does not wrap around: that an integer leaves its type is the fault
        for s in self.c.ints:
            ii = np.iinfo(s.dt)
            if not int(ii.min) <= s.sh[0] <= int(ii.max):
                self.bad.append(tag)
                return

    def search(self, tag, cm, msg, soft=False):
        self.bad.append(tag)


def genuine(task, r, asg, res):
    """Is a failed replay more than rounding?  A value that differs must also differ in exact
    arithmetic; where that cannot be computed, the data must be far from the edge of the definition."""
    if any(v.get('cond') is None for v in r['violations']):
        return True
    far = any(v['cond'] > 1e-7 for v in r['violations'])
    from . import harness
    old = sym.ctx()
    c = sym.set_ctx(sym.Ctx(seed=1, deadline=time.time() + 20, prove_ms=1000, feas_ms=300))
    try:
        E = XEnv(task, c, dict(res, transitions=0, searches=0, violations=[]), asg)
        try:
            harness.HARNESS[task['h']](E, **task['params'].get('args', {}))
        except Steer:
            pass
        except Exception:
            return True
        ok = bool(E.bad)
    except (Unsupported, Budget, Stop):
        ok = far
    finally:
        sym.set_ctx(old)
    if not ok:
        res['rounding'] = res.get('rounding', 0) + 1
    return ok


class Stop(BaseException):
    """A violation was found; the task is over."""


def run_task(task):
    """Runs one task; returns a picklable result."""
    from . import harness
    t0 = time.time()
    budget = task.get('budget', 30)
    sys.setrecursionlimit(20000)
    sys.set_int_max_str_digits(0)
    c = sym.set_ctx(sym.Ctx(seed=task.get('seed', 1), deadline=t0 + budget,
                            prove_ms=task.get('prove_ms', 6000), feas_ms=task.get('feas_ms', 800)))
    res = dict(id=task['id'], proved=0, constant=0, vacuous=0, undecided=[], violations=[], searches=0,
               transitions=0, validated=0, mismatch=0, unwitnessed=0, samples=[], notes=[], paths=0,
               unsupported=None, complete=True, rung=task.get('rung', 'base'), index=task.get('index'))
    fn = harness.HARNESS[task['h']]
    args = task['params'].get('args', {})
    rec = loader.Recorder()
    import warnings
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')

    def one():
        E = SEnv(task, c, res)
        try:
            try:
                fn(E, **args)
            except Steer:
                pass
            except Exception as ex:
                E.last_tb = traceback.format_exc()[-1200:]
                if os.environ.get('VERIF_DEBUG'):
                    print(E.last_tb)
                E.search('raises', ([], 0), f'raised {type(ex).__name__}: {ex} {E.last_tb[-300:]}')
            E.validate()
        finally:
            res['paths'] += 1
            for tag, st, how, msg in E.local:
                if st == 'proved':
                    res['proved'] += 1
                    if how == 'constant':
                        res['constant'] += 1
                elif st == 'vacuous':
                    res['vacuous'] += 1
                elif st == 'undecided':
                    if len(res['undecided']) < 20:
                        res['undecided'].append(f'{tag}: {msg} ({how})')
    try:
        res['complete'] = c.paths(one, task.get('max_paths', 400))
    except Stop:
        pass
    except Unsupported as ex:
        res['unsupported'] = str(ex) + ' | ' + traceback.format_exc()[-400:]
        res['complete'] = False
    except Budget:
        res['complete'] = False
        res['notes'].append('time budget')
    except z3.Z3Exception as ex:
        res['complete'] = False
        res['notes'].append('solver error ' + str(ex)[:200])
    except MemoryError:
        res['complete'] = False
        res['notes'].append('memory')
    finally:
        rec.close()
    if not res['violations'] and (res['unsupported'] or not res['complete']):
        # what could not be encoded is at least executed
        fallback(task, c, res)
    res.pop('_denok', None)
    res['functions'] = sorted(rec.seen)
    res['stats'] = dict(c.stats)
    res['vars'] = len(c.vars)
    res['wall'] = time.time() - t0
    sym.set_ctx(None)
    return res


def fallback(task, c, res):
    """Concrete runs of the harness, when the encoding did not cover it (reported as such)."""
    rng = random.Random(7)
    unit = task['params'].get('unit', 1.0)
    names = dict(c.vars)
    for k in range(8):
        asg = {}
        for n, d in names.items():
            if n == 'pi':
                continue
            if d['integer']:
                lo = d['lo'] if d['lo'] is not None else -9
                hi = d['hi'] if d['hi'] is not None else 9
                asg[n] = rng.randint(int(lo), int(min(hi, lo + 50) if k % 2 else hi))
            else:
                lo = float(d['lo']) if d['lo'] is not None else -4.0 * unit
                hi = float(d['hi']) if d['hi'] is not None else lo + 8.0 * unit
                asg[n] = rng.uniform(lo, hi)
                if k in (3, 4) and d['lo'] is None:
                    asg[n] = rng.choice([-1.0, 0.0, 1.0]) * unit
                elif k == 5 and d['lo'] is None:
                    asg[n] = 1000 * asg[n] + 5000 * unit
        r = WORKER.run(task['h'], task['params'], asg)
        if r['violations'] and genuine(task, r, asg, res):
            res['violations'].append(dict(tag='fallback', why='not encodable; concrete run', how='concrete run',
                                          assign=asg, observed=r['violations'][:3], h=task['h'],
                                          params=task['params']))
            return
