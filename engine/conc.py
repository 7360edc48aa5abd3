"""The concrete interpretation of a harness: real numpy, the untouched package.

Used for replays, as a worker process (no solver here): JSON requests on stdin, answers on
stdout.  Run with an interpreter that has numpy (/opt/venv/bin/python).
"""
import array
import collections
import copy
import functools
import json
import math
import os
import signal
import sys
import types
import warnings

import numpy as np

RTOL = 1e-6
ATOL = 1e-9


class Skip(BaseException):
    """The assignment does not satisfy the harness's assumptions."""


def close(a, b, rtol=RTOL, atol=ATOL):
    try:
        a, b = float(a), float(b)
    except (TypeError, ValueError):
        return False
    if a != a or b != b:
        return a != a and b != b
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= rtol * max(abs(a), abs(b)) + atol


class CEnv:
    symbolic = False
    pi = math.pi

    def __init__(self, params, assign):
        self.params = params
        self.assign = assign
        self.violations = []
        self.trace = []
        self.used = {}
        self.unit = params.get('unit', 1.0)
        self.scale = 1e-300
        import cvi
        self.cvi = cvi

    # -- values
    def _val(self, name, default):
        v = self.assign.get(name, default)
        self.used[name] = v
        return v

    def real(self, name, lo=None, hi=None, pos=False):
        v = self._val(name, 1.0 if pos else (lo if lo is not None else 0.0))
        v = float(v)
        self.scale = max(self.scale, abs(v))
        if (lo is not None and v < float(lo)) or (hi is not None and v > float(hi)) or (pos and v <= 0):
            raise Skip(name)
        return v

    def const(self, x):
        self.scale = max(self.scale, abs(x))
        return float(x)

    def int(self, name, lo=None, hi=None, dt=None):
        v = int(self._val(name, lo if lo is not None else 0))
        if name[0] == 'x':
            self.scale = max(self.scale, abs(v))
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Skip(name)
        return v

    def wide(self, name, dt):
        v = self.int(name, 0, 2 ** 52 - 1) * 4096
        self.scale = max(self.scale, v)
        return v

    def whole(self, v, dt):
        self.scale = max(self.scale, abs(v))
        return v

    def fixed(self, v, dt):
        return v

    def narrow(self, name, dt):
        """A number that the narrow type dt represents exactly."""
        return float(np.dtype(dt).type(self.real(name)))

    def label(self, v, dt):
        return v if dt is None else np.dtype(dt).type(v)

    def bool(self, name):
        return bool(self.int(name, 0, 1))

    def vec(self, xs, dtype=None):
        return np.array(xs, dtype=float if dtype is None else dtype)

    mat = vec

    def ints(self, xs, dtype=None):
        return np.array(xs, dtype=int if dtype is None else dtype)

    def empty(self, d):
        return np.zeros((0, d))

    def fortran(self, X):
        return np.asfortranarray(X)

    def inside(self, rows):
        """An array and a strided view of it that holds the rows."""
        n, d = len(rows), len(rows[0])
        big = self.mat([[7.0] * (d + 1) for _ in range(2 * n)])
        X = big[::2, :d]
        for i in range(n):
            for j in range(d):
                X[i, j] = rows[i][j]
        return big, X

    def copy(self, o):
        import copy
        return copy.deepcopy(o)

    def saved(self, o, how):
        """The object restored from a copy or from its pickled form (as a call)."""
        import pickle
        return self.call(copy.deepcopy, o) if how == 'copy' else self.call(lambda: pickle.loads(pickle.dumps(o, int(how))))

    def havoc(self, arr, tag):
        """Overwrite the caller's array with arbitrary values."""
        for i, ix in enumerate(np.ndindex(arr.shape)):
            arr[ix] = self.real(f'{tag}{i}') if arr.dtype.kind == 'f' else self.int(f'{tag}{i}', 0, 9)

    def same(self, tag, arr, ref):
        """arr (an array handed to the code) still holds exactly the values of ref."""
        ref = np.asarray(ref)
        ok = arr.shape == ref.shape and all(x == y or (x != x and y != y) for x, y in zip(arr.flat, ref.flat))
        if not ok:
            self.fail(tag, f'array was modified: {arr.tolist()} instead of {ref.tolist()}')

    # -- operations of the oracle
    def min(self, xs):
        return min(xs)

    def max(self, xs):
        return max(xs)

    def div(self, a, b):
        return a / b if b != 0 else math.nan

    def sqrt(self, x):
        return math.sqrt(x) if x >= 0 else math.nan

    def exp(self, x):
        try:
            return math.exp(x)
        except OverflowError:
            return math.inf

    def cov_entry(self, s, i, a, b):
        return s.scat[i][a][b] / (s.n[i] - 1) if s.n[i] > 1 else 0.0

    def exact(self, rows):
        return [[float(x) for x in r] for r in rows]

    def watch_ints(self):
        pass

    def no_overflow(self, tag, dom):
        pass

    # -- running the code
    def size(self, obj):
        return footprint(obj)

    def new(self, name):
        return getattr(self.cvi, name)()

    def call(self, fn, *a):
        try:
            return 'ok', fn(*a)
        except Exception as ex:
            return 'exc', type(ex).__name__

    # -- obligations
    def assume(self, c):
        if not c:
            raise Skip('assumption')

    def defined(self, dom):
        return all(x == x and abs(x) > 1e-13 for x in dom)

    def eq(self, tag, a, b, dom=()):
        self.trace.append(_f(a))
        try:
            ok = self.defined([float(x) for x in dom])
        except (TypeError, ZeroDivisionError):
            ok = False
        if not ok:
            return
        b0 = _f(b)
        if b0 is None or b0 != b0 or math.isinf(b0):
            return
        if not close(a, b):
            self.fail(tag, f'got {a!r}, expected {b!r}', dom)

    def true(self, tag, c, msg='', dom=()):
        if not self.defined([float(x) for x in dom]):
            return
        if not c:
            self.fail(tag, msg)

    def le(self, tag, a, b, dom=(), strict=False):
        """a <= b"""
        if not self.defined([float(x) for x in dom]):
            return
        a, b = float(a), float(b)
        if not self.symbolic and (a == -math.inf or b == math.inf):
            return
        if not (a <= b + RTOL * max(1.0, abs(b))):
            self.fail(tag, f'{a!r} is not <= {b!r}', dom)

    def within(self, tag, v, via, lemmas, lo, hi, dom=()):
        if lo is not None:
            self.le(tag, lo, v, dom)
        if hi is not None:
            self.le(tag, v, hi, dom)

    def name(self, x):
        return x

    def scales(self, *xs):
        pass

    def ok(self, tag, r):
        """The call r (of E.call) did not raise; returns its value."""
        if r[0] != 'ok':
            # a matrix that is singular only after rounding is not a failure of the code
            self.fail(tag, f'raised {r[1]}', (0.0,) if r[1] in ('LinAlgError', 'FloatingPointError', 'OverflowError') else None)
            raise Skip('raised')
        return r[1]

    def exc(self, tag, r, names):
        if r[0] != 'exc' or (names and r[1] not in names):
            self.fail(tag, f'expected {"/".join(names)}, got {r[0]} {r[1]!r}')

    def fail(self, tag, msg, dom=None):
        v = {'tag': tag, 'msg': str(msg)[:400]}
        if dom is not None:
            # how far the data are from where the index is undefined, relative to their size
            args = self.params.get('args', {})
            if 'rCIP' in [args.get('name')] + list(args.get('names', ())):
                v['cond'] = 1e-4 * 10.0 ** (-12.0 / args.get('d', 1)) / self.scale ** 2
            else:
                v['cond'] = min([abs(float(x)) for x in dom] + [1.0]) / max(1.0, self.scale ** 2)
        self.violations.append(v)


def footprint(obj, numbers=()):
    """How many numbers an object holds on to, directly or through containers, its class and
    the modules of the package."""
    seen = set()
    todo = [obj]
    for m, mod in list(sys.modules.items()):
        if m == 'cvi' or m.startswith('cvi.'):
            for a, v in list(vars(mod).items()):
                if not a.startswith('__'):
                    todo.append(v)
    total = 0
    while todo:
        x = todo.pop()
        if isinstance(x, numbers) or isinstance(x, (float, complex, np.generic)):
            total += 1
            continue
        if isinstance(x, int):
            total += 1 + x.bit_length() // 64
            continue
        if isinstance(x, (str, bytes, bytearray)):
            total += 1 + len(x) // 8
            continue
        if id(x) in seen or x is None or isinstance(x, types.ModuleType):
            continue
        seen.add(id(x))
        if isinstance(x, np.ndarray):
            total += x.size
            if x.base is not None and isinstance(x.base, np.ndarray):
                todo.append(x.base)
                total -= x.size
        elif isinstance(x, dict):
            todo.extend(x.keys())
            todo.extend(x.values())
            total += 1
        elif isinstance(x, (list, tuple, set, frozenset, collections.deque)):
            todo.extend(x)
            total += 1
        elif isinstance(x, array.array):
            total += len(x)
        elif isinstance(x, type):
            if x.__module__.startswith('cvi'):
                todo.extend(v for a, v in vars(x).items() if not a.startswith('__'))
        elif isinstance(x, (staticmethod, classmethod)):
            todo.append(x.__func__)
        elif callable(x) and hasattr(x, 'cache_info'):
            total += x.cache_info().currsize
        elif isinstance(x, functools.partial):
            todo.extend([x.func, x.args, x.keywords])
        elif isinstance(x, types.MethodType):
            todo.extend([x.__self__, x.__func__])
        elif isinstance(x, types.FunctionType):
            if str(x.__module__).startswith('cvi'):
                todo.extend(vars(x).values())
                todo.extend(x.__defaults__ or ())
                todo.extend((x.__kwdefaults__ or {}).values())
                for c in x.__closure__ or ():
                    try:
                        todo.append(c.cell_contents)
                    except ValueError:
                        pass
        elif type(x).__module__.startswith('cvi') or type(x).__module__ in ('types', 'queue', 'argparse', 'collections'):
            todo.extend(vars(x).values() if hasattr(x, '__dict__') else ())
            todo.append(type(x))
            for c in type(x).__mro__:
                for a in ([c.__slots__] if isinstance(getattr(c, '__slots__', ()), str) else getattr(c, '__slots__', ())):
                    todo.append(getattr(x, a, None))
    return total


def _f(x):
    try:
        return float(x)
    except Exception:
        return None


def purge():
    for n in list(sys.modules):
        if n == 'cvi' or n.startswith('cvi.'):
            del sys.modules[n]


def run(req):
    """One concrete execution of a harness."""
    from engine import harness
    purge()
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    out = {'violations': [], 'trace': [], 'skip': None, 'err': None, 'used': {}}
    E = None
    try:
        E = CEnv(req['params'], req['assign'])
        harness.HARNESS[req['h']](E, **req['params'].get('args', {}))
    except Skip as ex:
        out['skip'] = str(ex)
    except Exception as ex:
        import traceback
        tb = traceback.extract_tb(ex.__traceback__)
        where = next((f'{os.path.basename(f.filename)}:{f.lineno}' for f in reversed(tb)
                      if '/cvi/' in f.filename), None)
        out['err'] = f'{type(ex).__name__}: {ex}'
        if where is not None:
            out['violations'].append({'tag': 'raises', 'msg': f'{type(ex).__name__}: {ex} at {where}'})
        else:
            out['tb'] = traceback.format_exc()[-1500:]
    if E is not None:
        out['violations'] = E.violations + out['violations']
        out['trace'] = [x if x is None or math.isfinite(x) else repr(x) for x in E.trace]
        out['used'] = E.used
    return out


class _Timeout(BaseException):
    pass


def _alarm(*a):
    raise _Timeout()


def main():
    signal.signal(signal.SIGALRM, _alarm)
    real_out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    for line in sys.stdin:
        req = json.loads(line)
        signal.alarm(int(req.get('timeout', 60)))
        try:
            r = run(req)
        except _Timeout:
            r = {'violations': [], 'trace': [], 'skip': 'timeout', 'err': 'timeout', 'used': {}}
        signal.alarm(0)
        real_out.write(json.dumps(r) + '\n')
        real_out.flush()


if __name__ == '__main__':
    main()
