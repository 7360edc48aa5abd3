"""Symbolic scalars, path exploration and the solver interface.

A Sym is a rational function over solver variables: a z3 Real term (numerator) and a
denominator kept as a product of canonical factors.  Values that are not rational
functions (sqrt, exp, log, min, max, floor) are named by auxiliary solver variables
with their defining constraints.  The real code of /repo runs on these values (see
snp.py / loader.py); every comparison the code branches on forks the path.

Every Sym also carries "shadow" values: its value at a few fixed random points.  They
are only used to avoid asking the solver questions whose answer is obviously no; no
verdict is ever taken from them.
"""
import math
import random
import time
from fractions import Fraction

import numpy as np
import z3

NRND = 3   # random points
NPTS = 4   # and one where all samples coincide (only used to see that a branch is feasible)


class Steer(BaseException):
    """Ends the current path."""


class Unsupported(BaseException):
    """The engine cannot encode an operation the code performs."""


CTX = None


def ctx():
    return CTX


def set_ctx(c):
    global CTX
    CTX = c
    return c


_const_cache = {}


def zc(fr):
    """z3 constant for a Fraction/int."""
    r = _const_cache.get(fr)
    if r is None:
        fr2 = Fraction(fr)
        r = z3.Q(fr2.numerator, fr2.denominator) if fr2.denominator != 1 else z3.RealVal(fr2.numerator)
        _const_cache[fr] = r
    return r


_snap_cache = {}


def snap(f):
    """Exact rational meant by a floating-point constant."""
    if isinstance(f, (int, np.integer)):
        return Fraction(int(f))
    if isinstance(f, Fraction):
        return f
    f = float(f)
    r = _snap_cache.get(f)
    if r is None:
        if f == int(f):
            r = Fraction(int(f))
        else:
            c = Fraction(f).limit_denominator(8192)
            if abs(float(c) - f) <= 8 * 2.3e-16 * abs(f):
                r = c
            else:
                r = Fraction(repr(f))
                # a quotient of counts, or accumulated rounding such as 0.30000000000000004
                c = Fraction(f).limit_denominator(2 ** 20)
                if len(repr(f)) > 13 and abs(float(c) - f) <= 2 * 2.3e-16 * abs(f):
                    r = c
                else:
                    for dig in (12, 13, 14):
                        g = float(f'%.{dig}g' % f)
                        if g != 0 and abs(g - f) <= 4 * 2.3e-16 * abs(f) and len(repr(g)) < len(repr(f)):
                            r = Fraction(repr(g))
                            break
        _snap_cache[f] = r
    return r


def isnum(x):
    return isinstance(x, (int, float, Fraction, np.integer, np.floating)) and not isinstance(x, bool)


class Fac:
    """A denominator factor (canonical polynomial)."""
    __slots__ = ('e', 'id', 'sh', 'm', 'sg')

    def __init__(self, e, sh, m, sg):
        self.e = e
        self.id = e.get_id()
        self.sh = sh
        self.m = m
        self.sg = sg


def _fprod(f):
    """z3 product of a factor dict, or None if empty."""
    r = None
    for fac, p in f.values():
        for _ in range(p):
            r = fac.e if r is None else r * fac.e
    return r


def _fmask(f):
    m = 0
    for fac, _ in f.values():
        m |= fac.m
    return m


def _lcm(f, g):
    out = dict(f)
    for k, (fac, p) in g.items():
        if k not in out or out[k][1] < p:
            out[k] = (fac, p)
    return out


def _quot(L, f):
    out = {}
    for k, (fac, p) in L.items():
        q = p - (f[k][1] if k in f else 0)
        if q:
            out[k] = (fac, q)
    return out


def _scale(n, q):
    if not q:
        return n
    return n * _fprod(q)


NOF = {}
PY = 'py'


def res_dt(a, b):
    """dtype of an integer-preserving operation, None for floating point."""
    if a is None or b is None:
        return None
    if a == PY:
        return b
    if b == PY:
        return a
    r = np.result_type(a, b)
    return r if r.kind in 'iu' else None


def num_dt(x):
    if isinstance(x, Sym):
        return x.dt
    if isinstance(x, (int,)):
        return PY
    if isinstance(x, np.integer):
        return PY
    return None


def const(fr, dt=None):
    """A constant, kept exact."""
    if type(fr) is not Fraction:
        fr = Fraction(fr)
    f = float(fr)
    s = Sym(None, NOF, (f,) * NPTS, 0, dt, 2 if fr > 0 else 1 if fr == 0 else 0, fr)
    if dt is not None and dt != PY and dt.kind in 'iu' and not 0 <= f <= 127 and ctx() is not None and ctx().int_check:
        ii = np.iinfo(dt)
        if not int(ii.min) <= fr <= int(ii.max):
            ctx().ints.append(s)
    return s


class Sym:
    __slots__ = ('_n', 'f', 'sh', 'm', 'dt', 'sg', '_al', 'cf', 'z', 'ns', 'exact')
    __array_priority__ = 1e6

    @property
    def n(self):
        r = self._n
        if r is None:
            r = self._n = zc(self.cf)
        return r

    def __init__(self, n, f, sh, m, dt=None, sg=0, cf=None):
        self._n = n
        self.f = f
        self.sh = sh
        self.m = m
        self.dt = dt
        self.sg = sg
        self._al = None
        self.cf = cf        # the value, if it is a constant
        self.ns = False     # known not to be positive
        self.z = None       # for non-negative values: 'is zero', as linear conditions, if known

    # -- numpy scalar look-alike ------------------------------------------------
    ndim = 0
    shape = ()
    size = 1

    @property
    def dtype(self):
        return np.dtype(float) if self.dt is None else (np.dtype(int) if self.dt == PY else self.dt)

    @property
    def real(self):
        return self

    @property
    def T(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def conjugate(self):
        return self

    conj = conjugate

    def astype(self, dt, *a, **k):
        dt = np.dtype(dt)
        if dt.kind in 'iu':
            return self.to_int(dt)
        return self.to_float(dt)

    def to_float(self, dt):
        """Conversion to a floating-point type; the narrow ones round."""
        r = self.as_float()
        if dt.itemsize >= 8 or dt.kind != 'f':
            if self.dt is not None and self.cf is not None and abs(self.cf) > 2 ** 53:
                return const(Fraction(float(self.cf)))
            if self.dt is not None and self.cf is None and not getattr(self, 'exact', False):
                l, h = ctx().range_of(self)
                if (h is not None and h > 2 ** 53) or (l is not None and l < -2 ** 53):
                    return ctx().aux('rnd', [r], param='<f8')
            return r
        return ctx().aux('rnd', [r], param=dt.str)

    def sum(self, *a, **k):
        return self

    mean = max = min = squeeze = ravel = sum

    def as_float(self):
        if self.dt is None:
            return self
        r = Sym(self._n, self.f, self.sh, self.m, None, self.sg, self.cf)
        r.z, r.ns = self.z, self.ns
        return r

    def with_dt(self, dt):
        r = Sym(self._n, self.f, self.sh, self.m, dt, self.sg, self.cf)
        r.z, r.ns = self.z, self.ns
        return r

    def to_int(self, dt=PY):
        if self.dt is None:
            self = ctx().trunc(self)
            if not isinstance(self, Sym):
                return self
        return self.to_width(dt)

    def to_width(self, dt):
        """Conversion between integer types; a narrower one wraps around."""
        if dt == PY or dt == self.dt:
            return self.with_dt(dt)
        src = np.dtype(np.int64) if self.dt == PY else self.dt
        if np.can_cast(src, dt, 'safe') or (dt.itemsize == 8 and src.itemsize == 8 and not (src.kind == 'u' and dt.kind == 'i')):
            return self.with_dt(dt)
        ii = np.iinfo(dt)
        lo, hi = int(ii.min), int(ii.max)
        if self.cf is not None:
            return const((int(self.cf) - lo) % (hi - lo + 1) + lo, dt)
        l, h = ctx().range_of(self)
        if l is not None and h is not None and l >= lo and h <= hi:
            return self.with_dt(dt)
        if bool(self >= lo) and bool(self <= hi):
            return self.with_dt(dt)
        size = hi - lo + 1
        return (self - ((self - lo) / size).floor() * size).with_dt(dt)

    def _bits(self, o, op):
        if self.dt is None:
            raise TypeError('unsupported operand type(s) for ' + op)
        if isinstance(o, (int, np.integer)) and not isinstance(o, bool):
            o = int(o)
            if op == '&' and o >= 0 and o & (o + 1) == 0:
                return (self % (o + 1)).with_dt(self.dt)
            if op == '>>' and o >= 0:
                return (self // (1 << o)).with_dt(self.dt)
            if op == '<<' and o >= 0:
                return self * (1 << o)
        if self.cf is not None and isinstance(o, (int, np.integer)):
            return const({'&': int(self.cf) & o, '|': int(self.cf) | o, '^': int(self.cf) ^ o, '<<': int(self.cf) << o,
                          '>>': int(self.cf) >> o}[op], self.dt)
        raise Unsupported('bit operation')

    def __and__(self, o):
        return self._bits(o, '&')

    __rand__ = __and__

    def __or__(self, o):
        return self._bits(o, '|')

    __ror__ = __or__

    def __xor__(self, o):
        return self._bits(o, '^')

    __rxor__ = __xor__

    def __rshift__(self, o):
        return self._bits(o, '>>')

    def __lshift__(self, o):
        return self._bits(o, '<<')

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # -- arithmetic -------------------------------------------------------------
    def _arr(self, uf, o, rev=False):
        from . import snp
        a = snp.wrap0(self)
        b = snp.to_sarr(o)
        return uf(b, a) if rev else uf(a, b)

    def __add__(self, o):
        if isinstance(o, Sym):
            if self.cf is not None:
                if o.cf is not None:
                    return const(self.cf + o.cf, res_dt(self.dt, o.dt))
                self, o = o, self
            if o.cf is not None:
                return self._add_c(o.cf, res_dt(self.dt, o.dt))
            if self.f is o.f or (not self.f and not o.f) or _same(self.f, o.f):
                n = self.n + o.n
                f = self.f
            else:
                L = _lcm(self.f, o.f)
                n = _scale(self.n, _quot(L, self.f)) + _scale(o.n, _quot(L, o.f))
                f = L
            sh = tuple([a + b for a, b in zip(self.sh, o.sh)])
            sg = max(self.sg, o.sg) if self.sg and o.sg else 0
            r = _mk(n, f, sh, self.m | o.m, res_dt(self.dt, o.dt), sg)
            if sg == 1 and self.z is not None and o.z is not None:
                r.z = self.z | o.z
            r.ns = self.ns and o.ns
            return r
        if isnum(o):
            fo = float(o)
            if fo != fo or fo in (math.inf, -math.inf):
                return fo
            dt = res_dt(self.dt, num_dt(o))
            if self.cf is not None:
                return const(self.cf + snap(o), dt)
            return self._add_c(snap(o), dt)
        if isinstance(o, SymBool):
            return self + o.as_int()
        if isinstance(o, bool) or isinstance(o, np.bool_):
            return self + int(o)
        if isinstance(o, np.ndarray):
            return self._arr(np.add, o)
        return NotImplemented

    def _add_c(self, c, dt):
        if c == 0:
            return self if dt == self.dt else self.with_dt(dt)
        fo = float(c)
        n = self.n + (zc(c) if not self.f else zc(c) * _fprod(self.f))
        sg = max(self.sg, 2) if self.sg and fo > 0 else 0
        return _mk(n, self.f, tuple([a + fo for a in self.sh]), self.m, dt, sg)

    def __radd__(self, o):
        if isinstance(o, np.ndarray):
            return self._arr(np.add, o, True)
        return self.__add__(o)

    def __neg__(self):
        if self.cf is not None:
            return const(-self.cf, self.dt)
        r = _mk(-self.n, self.f, tuple([-a for a in self.sh]), self.m, self.dt, 1 if self.ns else 0)
        r.ns = self.sg > 0
        return r

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, Sym):
            if o.cf is not None:
                if self.cf is not None:
                    return const(self.cf - o.cf, res_dt(self.dt, o.dt))
                return self._add_c(-o.cf, res_dt(self.dt, o.dt))
            if self is o or (self.m == o.m and self.n.eq(o.n) and _same(self.f, o.f)):
                return const(0, res_dt(self.dt, o.dt))
            if self.f is o.f or (not self.f and not o.f) or _same(self.f, o.f):
                n = self.n - o.n
                f = self.f
            else:
                L = _lcm(self.f, o.f)
                n = _scale(self.n, _quot(L, self.f)) - _scale(o.n, _quot(L, o.f))
                f = L
            sh = tuple([a - b for a, b in zip(self.sh, o.sh)])
            return _mk(n, f, sh, self.m | o.m, res_dt(self.dt, o.dt), 0)
        if isnum(o):
            return self.__add__(-o if not isinstance(o, np.unsignedinteger) else -int(o))
        if isinstance(o, SymBool):
            return self - o.as_int()
        if isinstance(o, bool) or isinstance(o, np.bool_):
            return self - int(o)
        if isinstance(o, np.ndarray):
            return self._arr(np.subtract, o)
        return NotImplemented

    def __rsub__(self, o):
        if isinstance(o, np.ndarray):
            return self._arr(np.subtract, o, True)
        return (-self).__add__(o)

    def __mul__(self, o):
        if isinstance(o, Sym):
            if self.cf is not None:
                if o.cf is not None:
                    return const(self.cf * o.cf, res_dt(self.dt, o.dt))
                self, o = o, self
            if o.cf is not None:
                return self._mul_c(o.cf, res_dt(self.dt, o.dt))
            if self.m == o.m and not self.f and not o.f:
                # the square of a square root
                a = ctx().auxbit.get(self.m)
                if a is not None and a.kind == 'sqrt' and self.n.eq(a.var) and o.n.eq(a.var):
                    return a.args[0].as_float()
            n = self.n * o.n
            if not self.f:
                f = o.f
            elif not o.f:
                f = self.f
            else:
                f = dict(self.f)
                for k, (fac, p) in o.f.items():
                    f[k] = (fac, p + (f[k][1] if k in f else 0))
            sh = tuple([a * b for a, b in zip(self.sh, o.sh)])
            sg = min(self.sg, o.sg)
            sq = not sg and self.n.eq(o.n) and _same(self.f, o.f)
            if sq:
                sg = 1
            r = _mk(n, f, sh, self.m | o.m, res_dt(self.dt, o.dt), sg)
            if sq:
                r.z = frozenset([self.n])
            elif (self.ns and o.sg) or (o.ns and self.sg):
                r.ns = True
            elif sg == 1:
                if self.sg == 2:
                    r.z = o.z
                elif o.sg == 2:
                    r.z = self.z
            return r
        if isnum(o):
            fo = float(o)
            if fo != fo or fo in (math.inf, -math.inf):
                return _inf_mul(self, fo)
            dt = res_dt(self.dt, num_dt(o))
            if self.cf is not None:
                return const(self.cf * snap(o), dt)
            return self._mul_c(snap(o), dt)
        if isinstance(o, SymBool):
            return self * o.as_int()
        if isinstance(o, bool) or isinstance(o, np.bool_):
            return self * int(o)
        if isinstance(o, np.ndarray):
            return self._arr(np.multiply, o)
        return NotImplemented

    def _mul_c(self, c, dt):
        if c == 0:
            return const(0, dt)
        if c == 1:
            return self if dt == self.dt else self.with_dt(dt)
        fo = float(c)
        r = _mk(self.n * zc(c), self.f, tuple([a * fo for a in self.sh]), self.m, dt, self.sg if fo > 0 else 0)
        if r.sg == 1:
            r.z = self.z
        if fo > 0:
            r.ns = self.ns
        elif self.sg:
            r.ns = True
        elif self.ns:
            r.sg = 1
        return r

    def __rmul__(self, o):
        if isinstance(o, np.ndarray):
            return self._arr(np.multiply, o, True)
        return self.__mul__(o)

    def inv(self):
        c = ctx()
        if self.cf is not None:
            if self.cf == 0:
                c.log_div(self)
                return math.nan
            return const(1 / self.cf)
        a = c.auxbit.get(self.m)
        if a is not None and a.kind == 'exp' and not self.f and self.n.eq(a.var):
            return c.exp(-a.args[0])
        fac, k = c.factor(self)
        num = _fprod(self.f)
        if num is None:
            num = zc(1)
        sh = tuple([_sdiv(1.0, a) for a in self.sh])
        if fac is None:  # constant k
            if k == 0:
                return math.nan
            return _mk(num * zc(1 / k), NOF, sh, self.m, None, self.sg)
        c.log_div(self)
        return _mk(num, {fac.id: (fac, 1)}, sh, self.m, None, self.sg)

    def __truediv__(self, o):
        if isinstance(o, Sym):
            r = o.inv()
            if isinstance(r, float):
                return r
            return self.as_float() * r
        if isnum(o):
            fo = float(o)
            if fo != fo:
                return math.nan
            if fo in (math.inf, -math.inf):
                return np.float64(0.0)
            if fo == 0:
                ctx().log_div(0)
                return math.nan
            return (self.as_float() * (1 / snap(o))).as_float2()
        if isinstance(o, bool) or isinstance(o, np.bool_):
            return self / int(o)
        if isinstance(o, np.ndarray):
            return self._arr(np.true_divide, o)
        return NotImplemented

    def as_float2(self):
        return self.as_float()

    def __rtruediv__(self, o):
        if isinstance(o, np.ndarray):
            return self._arr(np.true_divide, o, True)
        if isinstance(o, (bool, np.bool_)):
            o = int(o)
        if isnum(o):
            fo = float(o)
            if fo != fo:
                return math.nan
            if fo == 0:
                ctx().log_div(self)
                return const(0) if self.cf != 0 else math.nan
            r = self.inv()
            if isinstance(r, float):
                return r
            return (r * o).as_float()
        return NotImplemented

    def __pow__(self, p):
        if isinstance(p, np.ndarray):
            return self._arr(np.power, p)
        if isinstance(p, Sym):
            raise Unsupported('symbolic exponent')
        if not isnum(p):
            return NotImplemented
        q = snap(p)
        if q.denominator == 1:
            e = int(q)
            if e == 0:
                return 1 if self.dt is not None else np.float64(1.0)
            b = self
            if e < 0:
                b = b.inv()
                if isinstance(b, float):
                    return b
                e = -e
            r = b
            for _ in range(e - 1):
                r = r * b
            if e % 2 == 0 and r.sg == 0:
                r.sg = 1
            return r if num_dt(p) is not None else r.as_float()
        if q.denominator == 2:
            h, odd = divmod(abs(q.numerator), 2)
            r = self.sqrt()
            if h:
                r = r * self.as_float() ** h
            return r if q > 0 else 1 / r
        return ctx().aux('pow', [self.as_float()], param=float(p))

    def __rpow__(self, b):
        if isinstance(b, np.ndarray):
            return self._arr(np.power, b, True)
        if isnum(b) and float(b) > 0:
            return (self * math.log(float(b))).exp()
        raise Unsupported('symbolic exponent')

    def __floordiv__(self, o):
        r = self / o
        return r.floor() if isinstance(r, Sym) else math.floor(r)

    def __mod__(self, o):
        if isinstance(o, (Sym, int, float, np.integer, np.floating)):
            r = self - o * self.__floordiv__(o)
            return r
        return NotImplemented

    def __divmod__(self, o):
        return self // o, self % o

    def __abs__(self):
        if self.cf is not None:
            return const(abs(self.cf), self.dt)
        if self.sg:
            return self
        r = ctx().maxmin('max', [self, -self])
        if isinstance(r, Sym):
            r.sg = max(r.sg, 1)
            if self.dt is not None:
                r = r.with_dt(self.dt)
        return r

    # methods numpy's object ufuncs call
    def sqrt(self):
        return ctx().sqrt(self.as_float())

    def exp(self):
        return ctx().exp(self.as_float())

    def log(self):
        return ctx().aux('log', [self.as_float()])

    def square(self):
        return self * self

    def floor(self):
        if self.dt is not None:
            return self
        return ctx().aux('floor', [self])

    def ceil(self):
        return -((-self).floor())

    def __floor__(self):
        return self.floor().with_dt(PY) if isinstance(self.floor(), Sym) else self.floor()

    def __ceil__(self):
        return self.ceil()

    def __trunc__(self):
        return self.to_int()

    def rint(self):
        return (self + Fraction(1, 2)).floor()

    def __round__(self, nd=None):
        if nd:
            s = Fraction(10) ** nd
            return (self * s).rint() / s
        return self.rint().with_dt(PY)

    def sign(self):
        if self > 0:
            return 1.0
        if self < 0:
            return -1.0
        return 0.0

    # -- comparison -------------------------------------------------------------
    def _cmp(self, o, op):
        if isinstance(o, np.ndarray):
            uf = {'<': np.less, '<=': np.less_equal, '>': np.greater, '>=': np.greater_equal,
                  '==': np.equal, '!=': np.not_equal}[op]
            return self._arr(uf, o)
        if isinstance(o, (bool, np.bool_)):
            o = int(o)
        if isinstance(o, SymBool):
            o = o.as_int()
        if isnum(o):
            fo = float(o)
            if fo != fo:
                return op == '!='
            if fo == math.inf:
                return op in ('<', '<=', '!=')
            if fo == -math.inf:
                return op in ('>', '>=', '!=')
        elif not isinstance(o, Sym):
            if op == '==':
                return False
            if op == '!=':
                return True
            return NotImplemented
        if self.cf is not None:
            k = o.cf if isinstance(o, Sym) else snap(o)
            if k is not None:
                return np.bool_({'<': self.cf < k, '<=': self.cf <= k, '>': self.cf > k, '>=': self.cf >= k,
                                 '==': self.cf == k, '!=': self.cf != k}[op])
        return ctx().compare(self, o, op)

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __eq__(self, o):
        return self._cmp(o, '==')

    def __ne__(self, o):
        return self._cmp(o, '!=')

    def __hash__(self):
        # one bucket: dictionary lookups then compare with ==, which forks
        return 7

    def __bool__(self):
        if self.cf is not None:
            return self.cf != 0
        return bool(self != 0)

    def __float__(self):
        if self.cf is not None:
            return float(self.cf)
        raise Unsupported('float() of a symbolic value at a C boundary')

    def __int__(self):
        if self.cf is not None:
            return int(self.cf)
        raise Unsupported('int() of a symbolic value at a C boundary')

    def __index__(self):
        if self.cf is not None and self.dt is not None:
            return int(self.cf)
        return ctx().concretize_int(self)

    def __repr__(self):
        s = str(self.n)
        return f'Sym({s if len(s) < 60 else s[:57] + "..."}{" / ..." if self.f else ""})'

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)


def _same(f, g):
    if len(f) != len(g):
        return False
    for k, (fac, p) in f.items():
        if k not in g or g[k][1] != p:
            return False
    return True


def _sdiv(a, b):
    try:
        return a / b
    except ZeroDivisionError:
        return math.nan


def _inf_mul(s, inf):
    if inf != inf:
        return math.nan
    if s > 0:
        return inf
    if s < 0:
        return -inf
    return math.nan


def _mk(n, f, sh, m, dt, sg):
    s = Sym(n, f, sh, m, dt, sg)
    if dt is not None and dt != PY:
        ctx().log_int(s)
    return s


class SymBool:
    __slots__ = ('e', 'sh', 'm', 'ord')
    __array_priority__ = 1e6

    def __init__(self, e, sh, m, order=None):
        self.e = e
        self.sh = sh
        self.m = m
        self.ord = order        # (lo, hi): true means lo <= hi, false hi <= lo

    def __bool__(self):
        return ctx().branch(self)

    def __and__(self, o):
        if isinstance(o, SymBool):
            return SymBool(z3.And(self.e, o.e), tuple([a and b for a, b in zip(self.sh, o.sh)]), self.m | o.m)
        if isinstance(o, np.ndarray):
            return NotImplemented
        return self if o else False

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SymBool):
            return SymBool(z3.Or(self.e, o.e), tuple([a or b for a, b in zip(self.sh, o.sh)]), self.m | o.m)
        if isinstance(o, np.ndarray):
            return NotImplemented
        return True if o else self

    __ror__ = __or__

    def __invert__(self):
        return SymBool(z3.Not(self.e), tuple([not a for a in self.sh]), self.m, self.ord and self.ord[::-1])

    def logical_not(self):
        return ~self

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return SymBool(self.e == o.e, tuple([a == b for a, b in zip(self.sh, o.sh)]), self.m | o.m)
        if isinstance(o, (bool, np.bool_, int)):
            return self if o else ~self
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SymBool) else not r

    def __hash__(self):
        return 11

    def as_int(self):
        return 1 if bool(self) else 0

    def __index__(self):
        return self.as_int()

    def __int__(self):
        return self.as_int()

    def __float__(self):
        return float(self.as_int())

    def __add__(self, o):
        return self.as_int() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self.as_int() * o

    __rmul__ = __mul__

    def any(self):
        return self

    all = any

    def item(self):
        return self

    def astype(self, dt, *a, **k):
        dt = np.dtype(dt)
        if dt.kind == 'b':
            return self
        return dt.type(self.as_int())


class Aux:
    __slots__ = ('kind', 'param', 'args', 'var', 'bit', 'lin', 'dfn', 'sym', 'sym2z')


class Budget(BaseException):
    """A task ran out of its time budget."""


class Ctx:
    """Solver context shared by all the paths of one task."""

    def __init__(self, seed=1, feas_ms=1500, prove_ms=8000, deadline=None):
        self.rng = random.Random(seed)
        self.seed = seed
        self.feas_ms = feas_ms
        self.prove_ms = prove_ms
        self.deadline = deadline
        self.vars = {}          # name -> dict
        self.order = []         # variables by bit
        self.auxes = []
        self.auxnum = {}
        self.auxbit = {}
        self.facs = {}
        self.intmask = 0
        self.stats = dict(queries=0, solver_s=0.0, unsat=0, sat=0, unknown=0, branches=0,
                          lemmas=0, paths=0)
        self.prefix = []
        self.todo = []
        self._eqcache = {}
        self.scales = []        # positive values that may be common factors
        self.reset_path()

    # -- path state -------------------------------------------------------------
    def reset_path(self):
        self.pc = []            # (z3 bool, mask)
        self.assumed = []       # (z3 bool, mask): assumptions of the harness on this path
        self.idx = 0
        self.taken = []
        self.alive = [True] * NPTS
        self.known = []         # (lo, hi): order established by the branches taken
        self.divs = []
        self.incode = False
        self.ints = []
        self.int_check = False
        self.stats['paths'] += 1

    def paths(self, fn, max_paths=100000):
        """Runs fn once per feasible path (depth-first re-execution)."""
        self.todo = [[]]
        done = 0
        while self.todo:
            self.prefix = self.todo.pop()
            self.reset_path()
            done += 1
            try:
                fn()
            except Steer:
                pass
            if done >= max_paths and self.todo:
                return False
        return True

    def tick(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget('time budget')

    # -- variables --------------------------------------------------------------
    def _newbit(self, v):
        self.order.append(v)
        return 1 << (len(self.order) - 1)

    def var(self, name, lo=None, hi=None, integer=False, pos=None, dt=None, pts=None):
        """A solver variable; lo/hi are assumptions, part of the stated bounds."""
        if name in self.vars:
            return self.vars[name]['sym']
        v = z3.Real(name)      # integrality is added to a query only where it matters
        e = v
        bit = self._newbit(v)
        if integer:
            self.intmask |= bit
        r = random.Random(f'{name}|{self.seed}')
        if pts is None:
            if integer:
                l, h = (lo if lo is not None else -9), (hi if hi is not None else 12)
                pts = tuple(float(r.randint(int(l), int(h))) for _ in range(NRND)) + (float(lo or 0),)
            else:
                l, h = (float(lo) if lo is not None else -4.0), (float(hi) if hi is not None else 4.0)
                if lo is not None and hi is None:
                    h = l + 6.0
                if hi is not None and lo is None:
                    l = h - 6.0
                pts = tuple(round(r.uniform(l, h), 3) for _ in range(NRND)) + (float(lo or (1 if pos else 0)),)
        sg = 0
        if lo is not None and lo >= 0:
            sg = 2 if lo > 0 else 1
        if pos:
            sg = 2
        s = Sym(e, NOF, pts, bit, dt if dt is not None else (PY if integer else None), sg)
        cons = []
        if lo is not None:
            cons.append(v >= zc(snap(lo)))
        if hi is not None:
            cons.append(v <= zc(snap(hi)))
        if pos:
            cons.append(v > 0)
        self.vars[name] = dict(var=v, sym=s, cons=cons, bit=bit, integer=integer, lo=lo, hi=hi)
        return s

    def pi(self):
        return self.var('pi', lo=Fraction(314159, 100000), hi=Fraction(314160, 100000), pts=(math.pi,) * NPTS)

    def narrow(self):
        """Was anything rounded to a narrow floating-point type?"""
        return any(a.kind == 'rnd' and a.param[-1] != '8' for a in self.auxes)

    def range_of(self, s):
        """Declared bounds of a plain variable."""
        if _is_var(s.n) and not s.f:
            for d in self.vars.values():
                if d['bit'] == s.m:
                    return d['lo'], d['hi']
        return None, None

    # -- cones ------------------------------------------------------------------
    def closure(self, mask, defs):
        """Constraints of every variable the mask depends on."""
        cons = []
        seen = 0
        work = mask
        while work:
            low = work & -work
            work ^= low
            if seen & low:
                continue
            seen |= low
            a = self.auxbit.get(low)
            if a is not None:
                for c, m in a.lin:
                    cons.append(c)
                    work |= m & ~seen
                if defs:
                    for c, m in a.dfn:
                        cons.append(c)
                        work |= m & ~seen
        return cons, seen

    def varcons(self, mask):
        out = []
        for d in self.vars.values():
            if d['bit'] & mask:
                out.extend(d['cons'])
        return out

    # -- solver -----------------------------------------------------------------
    def _solver(self, ms, integer):
        if integer:
            s = z3.Solver()
        else:
            s = z3.Tactic('qfnra-nlsat').solver()
        s.set('timeout', int(ms))
        return s

    def check(self, cons, mask, ms, want_model=False, integral=False):
        """One solver query.  Returns 'sat' / 'unsat' / 'unknown' (and a model).

        Integer variables are relaxed to reals unless integral is set: 'unsat' is then still
        right, 'sat' may be too generous."""
        self.tick()
        if self.deadline is not None:
            ms = max(50, min(ms, 1000 * (self.deadline - time.time()) + 50))
        t = time.time()
        s = self._solver(ms, False)
        r = self._ask(s, cons)
        if r == 'unknown' and time.time() - t < ms / 2000:
            s = z3.SolverFor('QF_NRA')
            s.set('timeout', int(ms))
            r = self._ask(s, cons)
        if integral and r != 'unsat' and mask & self.intmask:
            s = self._solver(ms, True)
            r = self._ask(s, list(cons) + [z3.IsInt(v) for i, v in enumerate(self.order) if (self.intmask & mask) >> i & 1])
        self.stats['queries'] += 1
        self.stats['solver_s'] += time.time() - t
        self.stats[r] += 1
        if want_model:
            return r, (s.model() if r == 'sat' else None)
        return r

    def _ask(self, s, cons):
        for c in cons:
            s.add(c)
        try:
            return str(s.check())
        except z3.Z3Exception as ex:  # an error is inconclusive, never a verdict
            self.stats['errors'] = self.stats.get('errors', 0) + 1
            self.last_error = str(ex)
            return 'unknown'

    # -- branching --------------------------------------------------------------
    def branch(self, b):
        e = z3.simplify(b.e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        self.stats['branches'] += 1
        if self.idx < len(self.prefix):
            val = self.prefix[self.idx]
        else:
            t = self.feasible(e, b.m, b.sh, True)
            f = self.feasible(z3.Not(e), b.m, b.sh, False)
            if not t and not f:
                raise Steer('infeasible path')
            val = bool(t)
            if t and f:
                self.todo.append(self.taken + [False])
        self.idx += 1
        self.taken.append(val)
        self.pc.append((e if val else z3.Not(e), b.m))
        self.alive = [a and (s == val) for a, s in zip(self.alive, b.sh)]
        if b.ord is not None:
            self.known.append(b.ord if val else b.ord[::-1])
        return val

    def feasible(self, e, m, sh, want):
        if any(a and s == want for a, s in zip(self.alive, sh)):
            return True
        base = [c for c, _ in self.pc] + [c for c, _ in self.assumed] + [e]
        mask = m
        for _, mm in self.pc + self.assumed:
            mask |= mm
        cons, seen = self.closure(mask, False)
        r = self.check(base + cons + self.varcons(seen | mask), seen | mask, self.feas_ms, integral=True)
        if r == 'unsat':
            return False
        dcons, seen2 = self.closure(mask, True)
        if len(dcons) > len(cons):
            r = self.check(base + dcons + self.varcons(seen2 | mask), seen2 | mask, self.feas_ms)
            if r == 'unsat':
                return False
        return True

    def assume(self, b):
        if isinstance(b, SymBool):
            e = z3.simplify(b.e)
            if z3.is_false(e):
                raise Steer('assumption false')
            self.alive = [a and s for a, s in zip(self.alive, b.sh)]
            self.assumed.append((e, b.m))
        elif not b:
            raise Steer('assumption false')

    # -- comparisons go through alias variables, so that they are linear ---------
    def alias(self, s):
        """s itself if it is a plain variable, else an auxiliary variable equal to s."""
        if not isinstance(s, Sym) or s.cf is not None:
            return s
        if not s.f and _is_var(s.n):
            return s
        if s._al is None:
            lin = s if not s.f and self._linear_small(s.n) else None
            s._al = lin if lin is not None else self.aux('alias', [s])
        return s._al

    def _linear_small(self, e):
        return _lin_depth(e, 8)

    def compare(self, a, b, op):
        aa = self.alias(a)
        bb = self.alias(b)
        ea = aa.n if isinstance(aa, Sym) else zc(snap(aa))
        eb = bb.n if isinstance(bb, Sym) else zc(snap(bb))
        m = (aa.m if isinstance(aa, Sym) else 0) | (bb.m if isinstance(bb, Sym) else 0)
        sa = a.sh if isinstance(a, Sym) else (float(a),) * NPTS
        sb = b.sh if isinstance(b, Sym) else (float(b),) * NPTS
        if op == '<':
            return SymBool(ea < eb, tuple([x < y for x, y in zip(sa, sb)]), m, (aa, bb))
        if op == '<=':
            return SymBool(ea <= eb, tuple([x <= y for x, y in zip(sa, sb)]), m, (aa, bb))
        if op == '>':
            return SymBool(ea > eb, tuple([x > y for x, y in zip(sa, sb)]), m, (bb, aa))
        if op == '>=':
            return SymBool(ea >= eb, tuple([x >= y for x, y in zip(sa, sb)]), m, (bb, aa))
        eq = tuple([_close(x, y) for x, y in zip(sa, sb)])
        if op == '==':
            return SymBool(ea == eb, eq, m)
        return SymBool(ea != eb, tuple([not x for x in eq]), m)

    # -- denominators -----------------------------------------------------------
    def factor(self, s):
        """Canonical factor for the numerator of s, or (None, constant)."""
        e = z3.simplify(s.n, som=True, sort_sums=True)
        if z3.is_rational_value(e):
            return None, Fraction(e.numerator_as_long(), e.denominator_as_long())
        fid = e.get_id()
        fac = self.facs.get(fid)
        if fac is None:
            den = tuple([1.0] * NPTS)
            for fc, p in s.f.values():
                den = tuple([x * y ** p for x, y in zip(den, fc.sh)])
            sh = tuple([x * y for x, y in zip(s.sh, den)])
            sg = s.sg if all(fc.sg for fc, _ in s.f.values()) else 0
            fac = Fac(e, sh, s.m, sg)
            self.facs[fid] = fac
        elif s.sg and not fac.sg and not s.f:
            fac.sg = s.sg
        return fac, None

    def log_div(self, s):
        self.divs.append(s)
        if self.incode:
            e = np.geterr()
            if 'raise' in (e['divide'], e['invalid']) and bool(s == 0):
                raise FloatingPointError('divide by zero')

    def log_int(self, s):
        if self.int_check:
            self.ints.append(s)

    # -- equality ---------------------------------------------------------------
    def ne_expr(self, a, b):
        """z3 condition 'a != b' (denominators non-zero), plus its mask."""
        a = as_sym(a)
        b = as_sym(b)
        L = _lcm(a.f, b.f)
        ea = _scale(a.n, _quot(L, a.f))
        eb = _scale(b.n, _quot(L, b.f))
        m = a.m | b.m | _fmask(L)
        return ea != eb, m, L

    def maybe_equal(self, a, b):
        a = as_sym(a)
        b = as_sym(b)
        return all(_close(x, y) for x, y in zip(a.sh[:NRND], b.sh[:NRND]))

    def prove_eq(self, a, b, ms=None):
        """Does a == b hold identically (denominators non-zero)?  Decided by the solver."""
        if a is b:
            return True
        a = as_sym(a)
        b = as_sym(b)
        if a.cf is not None and b.cf is not None:
            return a.cf == b.cf
        if a.n.eq(b.n) and _same(a.f, b.f):
            return True
        if not self.maybe_equal(a, b):
            return False
        key = (a.n.get_id(), tuple(sorted((k, p) for k, (_, p) in a.f.items())),
               b.n.get_id(), tuple(sorted((k, p) for k, (_, p) in b.f.items())))
        if key in self._eqcache:
            return self._eqcache[key][0]
        ne, m, L = self.ne_expr(a, b)
        self.stats['lemmas'] += 1
        ms = ms or self.prove_ms
        r = self.check([ne], m, ms)
        if r != 'unsat':
            cons, seen = self.closure(m, False)
            nlin = len(cons)
            cons = cons + [fac.e != 0 for fac, _ in L.values()] + self.varcons(seen | m)
            r = self.check([ne] + cons, seen | m, ms)
            if r != 'unsat':
                dcons, seen = self.closure(m, True)
                if len(dcons) > nlin:
                    r = self.check([ne] + dcons + [fac.e != 0 for fac, _ in L.values()]
                                   + self.varcons(seen | m), seen | m, ms)
        ok = r == 'unsat'
        self._eqcache[key] = (ok, a, b)  # keeps the terms alive, so ids stay valid
        return ok

    # -- auxiliary functions ----------------------------------------------------
    def aux(self, kind, args, param=None):
        if kind == 'rnd':
            b = self.auxbit.get(args[0].m)
            if b is not None and b.kind == 'rnd' and b.sym.n.eq(args[0].n) and np.dtype(b.param).itemsize <= np.dtype(param).itemsize:
                return args[0]
        cst = self._aux_const(kind, args, param)
        if cst is not None:
            return cst
        if kind == 'sqrt' and self.scales:
            for sc in self.scales:
                u = [x / (w * w) for x, w in zip(args[0].sh[:NRND], sc.sh)]
                if args[0].cf is None and all(_close(x, u[0]) for x in u):
                    q = Fraction(u[0]).limit_denominator(10 ** 7)
                    if _close(float(q), u[0]) and self.prove_eq(args[0], sc * sc * q):
                        return self.aux('sqrt', [const(q)]) * sc
                for a in self.auxes:
                    if a.kind == 'sqrt' and all(_close(u, v * w * w) for u, v, w in zip(args[0].sh[:NRND], a.args[0].sh, sc.sh)) \
                            and self.prove_eq(args[0], a.args[0] * sc * sc):
                        return a.sym * sc
        if len(args) == 1 and args[0].cf is not None:
            key = (kind, param, args[0].cf)
            r = self.auxnum.get(key)
            if r is None:
                r = self.auxnum[key] = self._new_aux(kind, args, param)
            return r
        for a in self.auxes:
            if a.kind == kind and a.param == param and len(a.args) == len(args) and (len(args) > 1 or a.args[0].cf is None):
                if all(self.maybe_equal(x, y) for x, y in zip(a.args, args)) and \
                        all(self.prove_eq(x, y) for x, y in zip(a.args, args)):
                    self._strengthen(a, args)
                    return a.sym
        return self._new_aux(kind, args, param)

    def sqrt(self, s):
        """sqrt; of q pi^d, with the squares taken out."""
        pi = self.vars.get('pi')
        if pi is not None and s.m == pi['bit'] and not s.f:
            u = s.sh[0] / math.pi
            for d in range(1, 40):
                q = snap(u)
                if q > 0 and abs(u) > 1e-9 and q.denominator < 10 ** 6 and \
                        _is_zero(s.n - zc(q) * z3.Product([pi['var']] * d)):
                    out = 1
                    for p in (2, 3, 5, 7):
                        while q.numerator % (p * p) == 0:
                            q, out = q / (p * p), out * p
                    r = pi['sym'] ** (d // 2) if d > 1 else 1
                    rest = const(q) * pi['sym'] if d % 2 else const(q)
                    return self.aux('sqrt', [rest]) * r * out
                u /= math.pi
        return self.aux('sqrt', [s])

    def exp(self, s):
        """exp, with logarithms in the argument taken out: exp(x + c log y) = exp(x) y^c for 2c an integer."""
        work = s.m
        while work:
            low = work & -work
            work ^= low
            a = self.auxbit.get(low)
            if a is None or a.kind != 'log' or any(f.m & low for f, _ in s.f.values()):
                continue
            d = z3.simplify(z3.substitute(s.n, (a.var, a.var + 1)) - s.n, som=True)
            if s.f or not z3.is_rational_value(d):
                k = self._log_coef(s, a)
            else:
                k = Fraction(d.numerator_as_long(), d.denominator_as_long())
            if not k or (2 * k).denominator != 1 or abs(k) > 6:
                continue
            rest = _mk(z3.simplify(z3.substitute(s.n, (a.var, zc(0)))), s.f,
                       tuple([x - float(k) * y for x, y in zip(s.sh, a.sym.sh)]), s.m & ~low, None, 0)
            return a.args[0] ** k * self.exp(rest)
        return self.aux('exp', [s])

    def _log_coef(self, s, a):
        """Constant coefficient of a logarithm in a quotient, if it is one."""
        n1 = z3.substitute(s.n, (a.var, a.var + 1))
        for k in (Fraction(-1, 2), Fraction(1, 2), Fraction(1), Fraction(-1)):
            q = _fprod(s.f)
            if self.check([n1 - s.n != zc(k) * q], s.m, self.prove_ms) == 'unsat':
                return k
        return None

    def _zero_lemma(self, a, s):
        """A sum of squares vanishes iff every base does."""
        if s.sg == 1 and s.z is not None and len(s.z) <= 12 and a.sym2z is None and all(_lin_depth(e, 60) for e in s.z):
            a.sym2z = True
            a.lin.append(((a.var == 0) == z3.And([e == 0 for e in s.z]), s.m | a.bit))

    def _strengthen(self, a, args):
        """An equal argument may have a known sign: the named value inherits it."""
        if a.kind == 'alias' and args[0].sg > a.sym.sg:
            a.sym.sg = args[0].sg
            a.lin.append((a.var >= 0 if args[0].sg == 1 else a.var > 0, a.bit))
            self._zero_lemma(a, args[0])
        if a.kind in ('exp', 'alias') and args[0].ns:
            a.lin.append((a.var <= (1 if a.kind == 'exp' else 0), a.bit))
        if a.kind == 'sqrt' and args[0].sg > a.args[0].sg:
            a.args[0].sg = args[0].sg
            if args[0].sg == 2:
                a.sym.sg = 2
                a.lin.append((a.var > 0, a.bit))

    def _aux_const(self, kind, args, param):
        """Folds auxiliary functions of solver-constant arguments that are exact."""
        if kind in ('sqrt', 'exp', 'log', 'floor', 'alias', 'rnd'):
            s = args[0]
            v = s.cf
            if v is None and not s.f and all(_close(x, s.sh[0]) for x in s.sh[:NRND]):
                e = z3.simplify(s.n, som=True)
                if z3.is_rational_value(e):
                    v = Fraction(e.numerator_as_long(), e.denominator_as_long())
            if v is None and all(abs(x) < 1e-11 for x in s.sh[:NRND]) and self.prove_eq(s, const(0)):
                v = Fraction(0)
            if v is None and s.f and s.sh[0] == s.sh[0] and abs(s.sh[0]) < 1e12 and \
                    all(_close(x, s.sh[0]) for x in s.sh[:NRND]):
                k = const(Fraction(s.sh[0]).limit_denominator(10 ** 6))
                if self.prove_eq(s, k):
                    v = k.cf
                    args[0] = k
            if v is not None:
                if args[0].cf is None:
                    args[0] = const(v, s.dt)
                if kind == 'alias':
                    return const(v, s.dt)
                if kind == 'rnd':
                    return const(Fraction(_round(float(v), param)))
                if kind == 'exp' and v == 0:
                    return const(1)
                if kind == 'log' and v == 1:
                    return const(0)
                if kind == 'floor':
                    return const(v.numerator // v.denominator, PY)
                if kind == 'sqrt' and v >= 0:
                    rn, rd = math.isqrt(v.numerator), math.isqrt(v.denominator)
                    if rn * rn == v.numerator and rd * rd == v.denominator:
                        return const(Fraction(rn, rd))
        return None

    def _new_aux(self, kind, args, param):
        self.tick()
        i = len(self.auxes)
        name = f'{kind}!{i}'
        a = Aux()
        a.kind, a.param, a.args = kind, param, args
        a.lin, a.dfn, a.sym2z = [], [], None
        if kind == 'floor':
            v = z3.Real(name)
            e = v
        else:
            v = z3.Real(name)
            e = v
        a.var = v
        a.bit = self._newbit(v)
        if kind == 'floor':
            self.intmask |= a.bit
        s = args[0]
        sg = 0
        if kind == 'sqrt':
            sh = tuple([math.sqrt(x) if x >= 0 else math.nan for x in s.sh])
            sg = 2 if s.sg == 2 else 1
            a.lin.append((v > 0 if sg == 2 else v >= 0, a.bit))
            den = _fprod(s.f)
            eq = v * v * den == s.n if den is not None else v * v == s.n
            m = s.m | _fmask(s.f)
            if s.sg:
                a.dfn.append((eq, m))
            else:
                # NaN below zero: unconstrained there
                al = self.alias(s)
                a.dfn.append((z3.Or(al.n < 0, v * v == al.n), al.m))
            # v == 0 iff the argument is 0
            al = self.alias(s)
            a.lin.append((z3.Implies(al.n >= 0, (v == 0) == (al.n == 0)), al.m))
        elif kind == 'exp':
            sh = tuple([_sexp(x) for x in s.sh])
            sg = 2
            al = self.alias(s)
            a.lin.append((v > 0, a.bit))
            if s.ns:
                a.lin.append((v <= 1, a.bit))
            a.lin.append((z3.And(z3.Implies(al.n <= 0, v <= 1), z3.Implies(al.n < 0, v < 1),
                                 z3.Implies(al.n >= 0, v >= 1 + al.n), z3.Implies(al.n == 0, v == 1)), al.m))
        elif kind == 'log':
            sh = tuple([math.log(x) if x > 0 else math.nan for x in s.sh])
            al = self.alias(s)
            if s.cf is not None:
                w = snap(sh[0])
                a.lin.append((z3.And(v > zc(w - abs(w) / 10 ** 9), v < zc(w + abs(w) / 10 ** 9)), a.bit))
            a.lin.append((z3.And(z3.Implies(al.n == 1, v == 0), z3.Implies(al.n > 1, v > 0),
                                 z3.Implies(z3.And(al.n > 0, al.n < 1), v < 0)), al.m))
        elif kind == 'pow':
            sh = tuple([x ** param if x > 0 else math.nan for x in s.sh])
            sg = 1
            a.lin.append((v >= 0, a.bit))
        elif kind == 'rnd':
            sh = tuple([_round(x, param) for x in s.sh])
            sg = min(s.sg, 1)
            al = self.alias(s)
            eps, tiny = {'4': (Fraction(1, 2 ** 24), Fraction(1, 2 ** 149)), '2': (Fraction(1, 2 ** 11), Fraction(1, 2 ** 24)),
                         '8': (Fraction(1, 2 ** 53), 0)}[param[-1]]
            if param[-1] == '8':
                a.lin.append((z3.Implies(z3.And(al.n <= 2 ** 53, al.n >= -2 ** 53), v == al.n), al.m))
            a.lin.append((z3.And(z3.Implies(al.n >= 0, z3.And(v >= al.n * zc(1 - eps) - zc(tiny), v <= al.n * zc(1 + eps) + zc(tiny), v >= 0)),
                                 z3.Implies(al.n <= 0, z3.And(v <= al.n * zc(1 - eps) + zc(tiny), v >= al.n * zc(1 + eps) - zc(tiny), v <= 0))), al.m))
        elif kind == 'floor':
            sh = tuple([float(math.floor(x)) if x == x and abs(x) != math.inf else math.nan for x in s.sh])
            al = self.alias(s)
            a.lin.append((z3.And(e <= al.n, al.n < e + 1), al.m))
        elif kind == 'alias':
            sh = s.sh
            sg = s.sg
            den = _fprod(s.f)
            eq = v * den == s.n if den is not None else v == s.n
            a.dfn.append((eq, s.m | _fmask(s.f)))
            if sg:
                a.lin.append((v > 0 if sg == 2 else v >= 0, a.bit))
            if s.ns:
                a.lin.append((v <= 0, a.bit))
            self._zero_lemma(a, s)
        elif kind in ('max', 'min'):
            fn = max if kind == 'max' else min
            sh = tuple([fn([x.sh[k] if isinstance(x, Sym) else float(x) for x in args]) for k in range(NPTS)])
            es = [x.n if isinstance(x, Sym) else zc(snap(x)) for x in args]
            m = a.bit
            for x in args:
                if isinstance(x, Sym):
                    m |= x.m
            a.lin.append((z3.And([v >= x if kind == 'max' else v <= x for x in es]
                                 + [z3.Or([v == x for x in es])]), m))
            sgs = [x.sg for x in args]
            sg = max(sgs) if kind == 'max' else min(sgs)
        else:
            raise Unsupported(kind)
        a.sym = Sym(e, NOF, sh, a.bit, PY if kind == 'floor' else None, sg)
        self.auxes.append(a)
        self.auxbit[a.bit] = a
        if kind == 'exp':
            for b in self.auxes[:-1]:
                if b.kind == 'exp' and (i < 60 or s.cf is None and b.args[0].cf is None):
                    x, y = self.alias(b.args[0]), self.alias(s)
                    if isinstance(x, Sym) and isinstance(y, Sym):
                        c = z3.And((x.n <= y.n) == (b.var <= v), (y.n <= x.n) == (v <= b.var))
                        a.lin.append((c, x.m | y.m | b.bit))
        return a.sym

    def trunc(self, s):
        if s.sg or bool(s >= 0):
            return s.floor()
        return -((-s).floor())

    def _unscaled(self, y, sc):
        """An earlier named value b with y == sc * b (proved), or None."""
        e = self._expand(y)
        r = [u / w for u, w in zip(y.sh[:NRND], sc.sh) if w]
        if r and all(_close(x, r[0]) for x in r) and r[0] == r[0] and abs(r[0]) < 1e15:
            k = const(Fraction(r[0]).limit_denominator(10 ** 7))
            if self.prove_eq(e, sc * k):
                return k
        for a in self.auxes:
            if a.kind in ('alias', 'max', 'min', 'sqrt') and \
                    all(_close(u, v * w) for u, v, w in zip(y.sh[:NRND], a.sym.sh, sc.sh)):
                if self.prove_eq(e, (a.args[0] if a.kind == 'alias' else a.sym) * sc):
                    return a.sym
        return None

    def _expand(self, y):
        a = self.auxbit.get(y.m)
        return a.args[0] if a is not None and a.kind == 'alias' else y

    def maxmin(self, kind, args):
        """max / min of numbers and Syms, as one auxiliary value (no forking)."""
        if any(isnum(x) and not isinstance(x, Sym) and float(x) != float(x) for x in args):
            return math.nan
        inf = math.inf if kind == 'min' else -math.inf
        args = [x for x in args if not (isnum(x) and not isinstance(x, Sym) and float(x) == inf)] or [inf]
        for x in args:
            if isnum(x) and not isinstance(x, Sym) and float(x) == -inf:
                return -inf
        dts = [num_dt(x) for x in args]
        dt = None
        if all(d is not None for d in dts):
            dt = dts[0]
            for d in dts[1:]:
                dt = res_dt(dt, d)
        consts, syms, orig = [], [], []
        for x in args:
            if not isinstance(x, Sym):
                consts.append(snap(x))
                continue
            al = self.alias(x)
            if al.cf is not None:
                consts.append(al.cf)
                continue
            ax = self.auxbit.get(al.m)
            parts = ax.args if ax is not None and ax.kind == kind and ax.sym.n.eq(al.n) else [al]
            for y in parts:
                if y.cf is not None:
                    consts.append(y.cf)
                elif not any(y is z or y.n.eq(z.n) for z in syms):
                    syms.append(y)
                    orig.append(x if len(parts) == 1 else y)
        pick = max if kind == 'max' else min
        if not consts and len(syms) == 1:
            return orig[0]
        if self.scales and syms and all(c == 0 for c in consts):
            for sc in self.scales:
                base = [self._unscaled(y, sc) for y in syms]
                if all(b is not None for b in base):
                    return self.maxmin(kind, base + [const(0)] * (1 if consts else 0)) * sc
        if not syms:
            return const(pick(consts), dt)
        if consts:
            k = pick(consts)
            if kind == 'max' and k <= 0 and any(x.sg for x in syms):
                pass                                    # never the extremum
            elif kind == 'min' and k <= 0 and all(x.sg for x in syms):
                return const(k, dt)
            else:
                syms.append(const(k))
        if len(syms) == 1:
            return orig[0]
        if self.known:
            # what the path has already ordered
            keep = list(range(len(syms)))
            for i in range(len(syms)):
                if any(i != j and self._dominated(kind, syms[i], syms[j]) for j in keep):
                    keep.remove(i)
            if len(keep) < len(syms):
                syms, orig = [syms[i] for i in keep], [orig[i] if i < len(orig) else syms[i] for i in keep]
                if len(syms) == 1:
                    r = orig[0]
                    return r if dt is None else r.with_dt(dt)
        key = (tuple(sorted(x.n.get_id() for x in syms if x.cf is None)),
               tuple(str(x.cf) for x in syms if x.cf is not None))
        for a in self.auxes:
            if a.kind == kind and a.param == key:
                r = a.sym
                break
        else:
            r = self._new_aux(kind, syms, key)
        return r if dt is None else r.with_dt(dt)

    def _dominated(self, kind, y, z):
        """Has the path established that y never exceeds (max) / undercuts (min) z?"""
        if kind == 'min':
            return any(_like(y, hi) and _like(z, lo) for lo, hi in self.known)
        return any(_like(y, lo) and _like(z, hi) for lo, hi in self.known)

    def concretize_int(self, s):
        """Forks on the integer value of s (used where the code needs a machine index)."""
        if s.dt is None:
            raise TypeError("'float' object cannot be interpreted as an integer")
        for k in range(0, 64):
            for c in ((k,) if k == 0 else (k, -k)):
                if bool(s == c):
                    return c
        raise Unsupported('unbounded symbolic index')


def _round(x, param):
    return float(np.dtype(param).type(x))


def _is_zero(e):
    e = z3.simplify(e, som=True)
    return z3.is_rational_value(e) and e.numerator_as_long() == 0


def _like(x, y):
    if isinstance(y, Sym):
        return x is y or x.n.eq(y.n)
    return x.cf is not None and x.cf == snap(y)


def as_sym(x):
    if isinstance(x, Sym):
        return x
    if isinstance(x, (bool, np.bool_)):
        x = int(x)
    if isinstance(x, SymBool):
        x = x.as_int()
    return const(snap(x))


def _is_var(e):
    return z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED or \
        (z3.is_to_real(e) and z3.is_const(e.arg(0)))


_lin_cache = {}


def _lin_depth(e, budget):
    """Is e a small linear term (so that it needs no alias)?"""
    def go(t, bud):
        if bud <= 0:
            return -1
        if z3.is_rational_value(t) or _is_var(t):
            return bud - 1
        k = t.decl().kind()
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
            for c in t.children():
                bud = go(c, bud)
                if bud < 0:
                    return -1
            return bud
        if k == z3.Z3_OP_MUL:
            ch = t.children()
            if sum(1 for c in ch if not z3.is_rational_value(c)) > 1:
                return -1
            for c in ch:
                bud = go(c, bud)
                if bud < 0:
                    return -1
            return bud
        return -1
    return go(e, budget) >= 0


def _close(x, y):
    if x != x or y != y:
        return x != x and y != y
    return abs(x - y) <= 1e-6 * (abs(x) + abs(y)) + 1e-11


def _sexp(x):
    try:
        return math.exp(x)
    except OverflowError:
        return math.inf
