"""Numpy for symbolic values.

SArr is an object-dtype ndarray whose elements are Syms or numbers, carrying the dtype
the array would have in reality (mdt).  NP is a stand-in for the numpy module: array
creators return SArr, min/max/any/all/linalg are modelled, everything else is numpy's
own object-dtype implementation.
"""
import math
import types

import numpy as np

from .sym import Sym, SymBool, Unsupported, ctx, isnum, PY, num_dt, res_dt, NOF, NPTS, const, _like as same_term
from . import oracle
from . import sym as _sym

F8 = np.dtype(float)
I8 = np.dtype(int)
B1 = np.dtype(bool)


def is_symbolic(x):
    if isinstance(x, (Sym, SymBool, SArr)):
        return True
    if isinstance(x, (list, tuple)):
        return any(is_symbolic(y) for y in x)
    return False


def _plain(x):
    """SArr -> base object ndarray."""
    if isinstance(x, SArr):
        return x.view(np.ndarray)
    return x


def infer(a):
    """Modelled dtype of a fresh object array."""
    if a.size == 0:
        return F8
    dt = PY
    isb = True
    for e in a.flat:
        if isinstance(e, (SymBool, bool, np.bool_)):
            d = PY
        else:
            isb = False
            d = num_dt(e)
            if isinstance(e, np.integer):
                d = e.dtype
            if d is None:
                return F8
        dt = res_dt(dt, d)
        if dt is None:
            return F8
    if isb:
        return B1
    return I8 if dt == PY else dt


def into(e, mdt):
    """A whole number as the machine stores it."""
    if mdt.itemsize < 8 or mdt.kind == 'u':
        ii = np.iinfo(mdt)
        if not ii.min <= e <= ii.max:
            return (e - int(ii.min)) % (int(ii.max) - int(ii.min) + 1) + int(ii.min)
    return e


def fdt(mdt):
    """Modelled floating-point types: the narrow ones, and double for all others."""
    return mdt if mdt.itemsize < 8 else F8


def fres(*arrs):
    """Floating-point type of a result made from these arrays, None if it is not floating point."""
    ds = [x.mdt if isinstance(x, SArr) else x.dtype for x in arrs]
    if not any(d.kind == 'f' for d in ds):
        return None
    r = np.result_type(*[d for d in ds if d.kind in 'iufb'])
    return fdt(r) if r.kind == 'f' else F8


def conv_elem(e, mdt):
    if mdt.kind == 'f':
        if isinstance(e, Sym):
            return e.to_float(mdt)
        if isinstance(e, SymBool):
            return float(e.as_int())
        if isinstance(e, np.ndarray) and e.ndim == 0:
            return conv_elem(e.item(), mdt)
        return float(e) if mdt.itemsize >= 8 else float(mdt.type(e))
    if mdt.kind in 'iu':
        if isinstance(e, Sym):
            return e.to_int(mdt)
        if isinstance(e, SymBool):
            return e.as_int()
        if isinstance(e, float) and e != e:
            raise ValueError('cannot convert float NaN to integer')
        return into(int(e), mdt)
    if mdt.kind == 'b':
        if isinstance(e, Sym):
            return e != 0
        if isinstance(e, SymBool):
            return e
        return bool(e)
    return e


def wrap(a, mdt=None):
    """Object ndarray -> SArr with modelled dtype mdt (inferred if not given)."""
    if not isinstance(a, np.ndarray):
        return a
    if a.dtype != object:
        a2 = np.empty(a.shape, dtype=object)
        a2[...] = a
        if mdt is None:
            mdt = a.dtype if a.dtype.kind in 'iufb' else F8
        if mdt.kind == 'f':
            mdt = fdt(mdt)
        flat = a2.reshape(-1)
        src = a.reshape(-1)
        for i in range(flat.size):
            flat[i] = conv_elem(src[i].item(), mdt)
        a = a2
    else:
        if mdt is None:
            mdt = infer(a)
        elif mdt.kind == 'f':
            mdt = fdt(mdt)
        if mdt.kind in 'fiu' and a.size:
            flat = a.reshape(-1)
            if flat.base is None and flat is not a:
                flat = a.reshape(-1)
            need = mdt.itemsize < 8 or mdt.kind == 'u'
            for e in flat if not need else ():
                if mdt.kind == 'f':
                    if type(e) is not float and not (type(e) is Sym and e.dt is None):
                        need = True
                        break
                elif not (type(e) is int or (type(e) is Sym and e.dt == mdt)):
                    need = True
                    break
            if need:
                b = np.empty(a.shape, dtype=object)
                bf = b.reshape(-1)
                for i, e in enumerate(a.flat):
                    bf[i] = conv_elem(e, mdt)
                a = b
    r = a.view(SArr)
    r.mdt = mdt
    return r


def wrap0(s):
    a = np.empty((), dtype=object)
    a[()] = s
    r = a.view(SArr)
    d = num_dt(s)
    r.mdt = F8 if d is None else (I8 if d == PY else d)
    return r


def to_sarr(x, mdt=None):
    if isinstance(x, SArr):
        return x if mdt is None or mdt == x.mdt else wrap(x.view(np.ndarray).copy(), mdt)
    if isinstance(x, np.ndarray):
        return wrap(x, mdt)
    if isinstance(x, (Sym, SymBool)) or isnum(x) or isinstance(x, (bool, np.bool_)):
        r = wrap0(x)
        return r if mdt is None else wrap(r.view(np.ndarray), mdt)
    # nested sequences
    a = _obj_array(x)
    return wrap(a, mdt)


def _obj_array(x):
    """Nested list / tuple of Syms, numbers and arrays -> object ndarray."""
    def conv(y):
        if isinstance(y, np.ndarray):
            return _plain(y).tolist() if y.ndim else y[()]
        if isinstance(y, (list, tuple, range)):
            return [conv(z) for z in y]
        return y

    def shape(y):
        if isinstance(y, list):
            if not y:
                return (0,)
            s0 = shape(y[0])
            for z in y[1:]:
                if shape(z) != s0:
                    raise ValueError('setting an array element with a sequence. The requested array has an '
                                     'inhomogeneous shape')
            return (len(y),) + s0
        return ()
    # ndarrays with empty trailing axes
    if isinstance(x, (list, tuple)) and x and all(isinstance(y, np.ndarray) for y in x):
        return np.stack([_plain(y).astype(object) if y.dtype != object else _plain(y) for y in x])
    y = conv(x)
    sh = shape(y)
    a = np.empty(sh, dtype=object)

    def fill(z, idx):
        if isinstance(z, list):
            for i, w in enumerate(z):
                fill(w, idx + (i,))
        else:
            a[idx] = z
    fill(y, ())
    return a


def force_bools(x):
    """Arrays of SymBools become concrete boolean arrays (forking)."""
    if isinstance(x, SArr):
        if x.mdt.kind == 'b':
            out = np.empty(x.shape, dtype=bool)
            of = out.reshape(-1)
            for i, e in enumerate(x.view(np.ndarray).flat):
                of[i] = bool(e)
            return out
        return x
    if isinstance(x, SymBool):
        return bool(x)
    if isinstance(x, (list, tuple)):
        return type(x)(force_bools(y) for y in x)
    return x


def index_key(k):
    if isinstance(k, tuple):
        return tuple(index_key(x) for x in k)
    if isinstance(k, SArr):
        if k.mdt.kind == 'b':
            return force_bools(k)
        if k.mdt.kind in 'iu' or k.size == 0:
            out = np.empty(k.shape, dtype=int)
            of = out.reshape(-1)
            for i, e in enumerate(k.view(np.ndarray).flat):
                of[i] = e.__index__()
            return out
        raise IndexError('arrays used as indices must be of integer (or boolean) type')
    if isinstance(k, Sym):
        return k.__index__()
    if isinstance(k, SymBool):
        return bool(k)
    if isinstance(k, list):
        return [index_key(x) for x in k]
    return k


def scalar(e, mdt=None):
    """An element leaving an array behaves like a numpy scalar."""
    if mdt is not None and type(e) in (int, float) and mdt.kind in 'iuf' and (mdt.itemsize < 8 or mdt.kind == 'u'):
        return mdt.type(e)
    if type(e) is float:
        return np.float64(e)
    if type(e) is int:
        return np.int64(e) if abs(e) < 2 ** 62 else e
    if type(e) is bool:
        return np.bool_(e)
    return e


FLOAT_UF = {'true_divide', 'divide', 'sqrt', 'exp', 'log', 'expm1', 'log1p', 'cbrt', 'hypot'}
CMP_UF = {'less': '<', 'less_equal': '<=', 'greater': '>', 'greater_equal': '>=', 'equal': '==', 'not_equal': '!='}


def _div(a, b):
    if isinstance(a, (Sym,)) or isinstance(b, Sym):
        return a / b
    a = float(a)
    b = float(b)
    if b == 0:
        if ctx() is not None:
            ctx().log_div(0)
        return math.nan if (a == 0 or a != a) else math.copysign(math.inf, a) * math.copysign(1.0, b)
    return a / b


def power(a, b):
    """a ** b: the square root of a number is exact or a named solver value."""
    if isnum(b) and not isinstance(b, (Sym, SymBool)) and b in (0.5, -0.5) and not isinstance(a, (Sym, np.ndarray)) and isnum(a) \
            and ctx() is not None and 0 < float(a) < math.inf:
        r = _csqrt(a)
        return r if b > 0 else 1.0 / r
    if isinstance(a, np.ndarray) and isnum(b) and not isinstance(b, Sym) and b in (0.5, -0.5) and ctx() is not None:
        a = to_sarr(a)
    return a ** b


def _csqrt(x):
    """Square root of a number: exact, or a named solver value."""
    r = _sym.const(_sym.snap(x)).sqrt()
    return float(r.cf) if r.cf is not None else r


def _m1(name, fn):
    def f(x):
        if isinstance(x, Sym):
            return getattr(x, name)()
        try:
            if name == 'sqrt' and ctx() is not None and 0 < float(x) < math.inf:
                return _csqrt(x)
            if name == 'log' and ctx() is not None and 0 < float(x) < math.inf and x != 1:
                return _sym.const(_sym.snap(x)).log()
            return fn(float(x))
        except (ValueError, OverflowError):
            return math.nan if name != 'exp' else math.inf
    return f


def _isnan(x):
    return isinstance(x, (float, np.floating)) and x != x


def _isinf(x):
    return isinstance(x, (float, np.floating)) and x in (math.inf, -math.inf)


def _isfinite(x):
    return not _isnan(x) and not _isinf(x)


def _sign(x):
    if isinstance(x, Sym):
        return x.sign()
    return (x > 0) - (x < 0)


UNARY = {
    'sqrt': _m1('sqrt', math.sqrt), 'exp': _m1('exp', math.exp), 'log': _m1('log', math.log),
    'isnan': _isnan, 'isinf': _isinf, 'isfinite': _isfinite,
    'absolute': abs, 'fabs': abs, 'sign': _sign,
    'floor': lambda x: x.floor() if isinstance(x, Sym) else math.floor(x),
    'ceil': lambda x: x.ceil() if isinstance(x, Sym) else math.ceil(x),
    'rint': lambda x: x.rint() if isinstance(x, Sym) else float(round(x)),
    'trunc': lambda x: ctx().trunc(x) if isinstance(x, Sym) else math.trunc(x),
    'square': lambda x: x * x, 'reciprocal': lambda x: _div(1.0, x),
    'expm1': lambda x: _m1('exp', math.exp)(x) - 1, 'log1p': lambda x: _m1('log', math.log)(x + 1),
    'conjugate': lambda x: x,
    'logical_not': lambda x: (~x if isinstance(x, SymBool) else (x == 0) if isinstance(x, Sym) else not x),
    'invert': lambda x: (~x if isinstance(x, SymBool) else (not x) if isinstance(x, (bool, np.bool_)) else ~x),
}


def _truth(x):
    return (x != 0) if isinstance(x, Sym) else x


def _and(a, b):
    a, b = _truth(a), _truth(b)
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        return a & b if isinstance(a, SymBool) else b & a
    return bool(a) and bool(b)


def _or(a, b):
    a, b = _truth(a), _truth(b)
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        return a | b if isinstance(a, SymBool) else b | a
    return bool(a) or bool(b)


def _not(x):
    x = _truth(x)
    return ~x if isinstance(x, SymBool) else not x


import operator as _op
BINARY = {
    'true_divide': _div, 'divide': _div,
    'maximum': lambda a, b: maxmin('max', [a, b]), 'fmax': lambda a, b: maxmin('max', [a, b]),
    'minimum': lambda a, b: maxmin('min', [a, b]), 'fmin': lambda a, b: maxmin('min', [a, b]),
    'less': _op.lt, 'less_equal': _op.le, 'greater': _op.gt, 'greater_equal': _op.ge,
    'equal': _op.eq, 'not_equal': _op.ne,
    'logical_and': _and, 'logical_or': _or, 'logical_xor': lambda a, b: _or(_and(a, _not(b)), _and(_not(a), b)),
    'heaviside': lambda a, b: 1.0 if a > 0 else b if a == 0 else 0.0,
    'bitwise_and': lambda a, b: _and(a, b) if isinstance(a, (SymBool, bool, np.bool_)) else a & b,
    'bitwise_or': lambda a, b: _or(a, b) if isinstance(a, (SymBool, bool, np.bool_)) else a | b,
    'power': lambda a, b: power(a, b), 'float_power': lambda a, b: a ** b,
    'hypot': lambda a, b: UNARY['sqrt'](a * a + b * b),
}


def maxmin(kind, xs):
    if any(isinstance(x, (Sym, SymBool)) for x in xs):
        return ctx().maxmin(kind, [x.as_int() if isinstance(x, SymBool) else x for x in xs])
    if any(_isnan(x) for x in xs):
        return math.nan
    return max(xs) if kind == 'max' else min(xs)


def _out_kind(name, ins, out):
    if name in CMP_UF or name.startswith('logical') or name in ('isnan', 'isinf', 'isfinite', 'any', 'all'):
        return B1
    dts = []
    flt = name in FLOAT_UF
    for x in ins:
        d = x.mdt if isinstance(x, SArr) else x.dtype if isinstance(x, (np.ndarray, np.generic)) else None
        if isinstance(x, Sym):
            d = F8 if x.dt is None else None if x.dt == PY else x.dt
        if isinstance(x, float):
            flt = True
        if d is not None and d.kind in 'iuf':
            dts.append(d)
            flt = flt or d.kind == 'f'
    if flt:
        if not dts:
            return F8
        r = np.result_type(*dts)
        return fdt(r) if r.kind == 'f' else F8
    return None


class SArr(np.ndarray):
    __array_priority__ = 2e6

    def __array_finalize__(self, obj):
        self.mdt = getattr(obj, 'mdt', F8)

    @property
    def dtype(self):
        return self.mdt

    # -- ufuncs -------------------------------------------------------------------
    def __array_ufunc__(self, uf, method, *ins, out=None, **kw):
        name = uf.__name__
        kw.pop('casting', None)
        kw.pop('subok', None)
        dtype = kw.pop('dtype', None)
        where = kw.pop('where', True)
        ins = tuple(to_sarr(x) if isinstance(x, (list, tuple)) else x for x in ins)
        if where is not True:
            if method != '__call__' or out is None:
                raise Unsupported('ufunc where=')
            mask = force_bools(where)
            full = self.__array_ufunc__(uf, method, *ins)
            o = out[0] if isinstance(out, tuple) else out
            full = np.broadcast_to(_plain(full), o.shape)
            mask = np.broadcast_to(mask, o.shape)
            o[mask] = full[mask]
            return o
        pl = [_plain(x) if isinstance(x, np.ndarray) else x for x in ins]
        pl = [x.astype(object) if isinstance(x, np.ndarray) and x.dtype != object else x for x in pl]
        if method == '__call__':
            if name in ('matmul',):
                res = _matmul(pl[0], pl[1])
            elif name in UNARY and len(pl) == 1:
                res = _elementwise(UNARY[name], pl[0])
            elif name in BINARY and len(pl) == 2:
                res = _elementwise(BINARY[name], *pl)
            elif name in ('isclose',):
                raise Unsupported(name)
            else:
                pl = [_box(x) for x in pl]
                try:
                    res = uf(*pl)
                except TypeError as ex:
                    if 'not supported for the input types' in str(ex) or 'has no callable' in str(ex):
                        raise Unsupported(f'ufunc {name} of symbolic values')
                    raise
        elif method == 'reduce':
            res = _reduce(uf, name, pl[0], kw, ins[0])
        elif method == 'at':
            a, idx = ins[0], index_key(ins[1])
            b = ins[2] if len(ins) > 2 else None
            a0 = _plain(a)
            if b is None:
                uf.at(a0, idx)
            else:
                cast = np.empty(np.shape(b), dtype=object)
                cast[...] = _plain(to_sarr(b))
                uf.at(a0, idx, cast)
            fixed = wrap(a0, a.mdt)
            a0[...] = _plain(fixed)
            return None
        elif method == 'outer':
            pl = [np.asarray(x, dtype=object) for x in pl]
            A = pl[0].reshape(pl[0].shape + (1,) * pl[1].ndim)
            if name in BINARY:
                res = _elementwise(BINARY[name], A, pl[1])
            else:
                res = uf(A, pl[1])
        elif method == 'accumulate':
            if name in ('maximum', 'minimum'):
                raise Unsupported('accumulate')
            res = uf.accumulate(pl[0], **kw)
        else:
            raise Unsupported(f'ufunc method {method}')
        k = _out_kind(name, ins, None)
        if dtype is not None:
            k = np.dtype(dtype)
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            if isinstance(o, SArr):
                if o.mdt.kind in 'iu' and isinstance(res, np.ndarray):
                    rk = k or infer(res)
                    if rk.kind == 'f':
                        raise TypeError(f"Cannot cast ufunc '{name}' output from dtype('float64') to dtype('{o.mdt}')")
                o[...] = wrap(res, k) if isinstance(res, np.ndarray) else res
                return o
            raise Unsupported('out= of a machine array')
        if isinstance(res, np.ndarray) and res.ndim == 0 and method != 'outer' and \
                all(not isinstance(x, np.ndarray) or x.ndim == 0 for x in ins):
            res = res[()]
        if isinstance(res, np.ndarray):
            r = wrap(res, k)
            if r.mdt.kind == 'b' and not any(isinstance(e, SymBool) for e in r.view(np.ndarray).flat):
                return r.view(np.ndarray).astype(bool)
            return r
        return scalar(res)

    # -- other numpy functions -----------------------------------------------------
    def __array_function__(self, func, types_, args, kwargs):
        name = func.__name__
        h = OVERRIDES.get(name)
        if h is not None:
            return h(*args, **kwargs)
        return native(func, args, kwargs)

    # -- indexing -------------------------------------------------------------------
    def __getitem__(self, k):
        r = np.ndarray.__getitem__(self, index_key(k))
        if isinstance(r, SArr):
            return r
        return scalar(r, self.mdt)

    def __setitem__(self, k, v):
        k = index_key(k)
        if isinstance(v, (list, tuple)):
            v = _plain(to_sarr(v))
        if isinstance(v, np.ndarray):
            src = v
            v = _plain(v)
            if v.dtype != object:
                v = _plain(wrap(src))
            same = isinstance(src, SArr) and src.mdt == self.mdt
            if not same:
                w = np.empty(v.shape, dtype=object)
                wf = w.reshape(-1)
                for i, e in enumerate(v.flat):
                    wf[i] = conv_elem(e, self.mdt)
                v = w
            if v.ndim == 0:
                v = v[()]
        else:
            if type(v) is int and self.mdt.kind in 'iu' and into(v, self.mdt) != v:
                raise OverflowError(f'Python integer {v} out of bounds for {self.mdt}')
            v = conv_elem(v, self.mdt)
        np.ndarray.__setitem__(self, k, v)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        for i in range(self.shape[0]):
            yield self[i]

    def __bool__(self):
        if self.size == 1:
            return bool(self.view(np.ndarray).reshape(-1)[0])
        raise ValueError('The truth value of an array with more than one element is ambiguous. '
                         'Use a.any() or a.all()')

    def __index__(self):
        if self.size == 1 and self.ndim == 0:
            return self[()].__index__()
        raise TypeError('only integer scalar arrays can be converted to a scalar index')

    def __contains__(self, x):
        return bool(np.any(self == x))

    # -- methods ----------------------------------------------------------------------
    def astype(self, dt, *a, **k):
        dt = _dt(dt)
        return wrap(self.view(np.ndarray).copy(), dt)

    def copy(self, *a, **k):
        r = self.view(np.ndarray).copy().view(SArr)
        r.mdt = self.mdt
        return r

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def tolist(self):
        return self.view(np.ndarray).tolist()

    def item(self, *a):
        return self.view(np.ndarray).item(*a)

    def fill(self, v):
        self[...] = v

    @property
    def real(self):
        return self

    @property
    def T(self):
        return self.transpose()

    def sum(self, axis=None, dtype=None, out=None, **k):
        return NP.sum(self, axis=axis, **k)

    def mean(self, axis=None, dtype=None, out=None, **k):
        return NP.mean(self, axis=axis, **k)

    def var(self, axis=None, dtype=None, out=None, ddof=0, **k):
        return NP.var(self, axis=axis, ddof=ddof, **k)

    def std(self, axis=None, dtype=None, out=None, ddof=0, **k):
        return NP.std(self, axis=axis, ddof=ddof, **k)

    def prod(self, axis=None, dtype=None, out=None, **k):
        return native(np.prod, (self,), dict(axis=axis, **k))

    def max(self, axis=None, out=None, **k):
        return NP.max(self, axis=axis, **k)

    def min(self, axis=None, out=None, **k):
        return NP.min(self, axis=axis, **k)

    def any(self, axis=None, out=None, **k):
        return NP.any(self, axis=axis, **k)

    def all(self, axis=None, out=None, **k):
        return NP.all(self, axis=axis, **k)

    def argmax(self, axis=None, **k):
        return NP.argmax(self, axis=axis)

    def argmin(self, axis=None, **k):
        return NP.argmin(self, axis=axis)

    def dot(self, o, out=None):
        return NP.dot(self, o)

    def clip(self, lo=None, hi=None, **k):
        return NP.clip(self, lo, hi)

    def nonzero(self):
        return NP.nonzero(self)

    def sort(self, axis=-1, **k):
        self[...] = NP.sort(self, axis=axis)

    def argsort(self, axis=-1, **k):
        return NP.argsort(self, axis=axis)

    def cumsum(self, axis=None, **k):
        return native(np.cumsum, (self,), dict(axis=axis))

    def trace(self, *a, **k):
        return native(np.trace, (self,) + a, k)

    def conj(self):
        return self

    conjugate = conj

    def round(self, *a, **k):
        return NP.round(self, *a)

    def tobytes(self, *a, **k):
        return SymBytes(self)


class SymBytes:
    """The bytes of an array: equal iff the elements (and their type) are."""
    def __init__(self, a):
        self.x, self.dt = [e for e in a.view(np.ndarray).reshape(-1)], a.mdt

    def __eq__(self, o):
        if not isinstance(o, SymBytes):
            return False
        return self.dt == o.dt and len(self.x) == len(o.x) and all(bool(a == b) for a, b in zip(self.x, o.x))

    def __hash__(self):
        return 17

    def __len__(self):
        return len(self.x) * self.dt.itemsize


def _box(x):
    if isinstance(x, Sym) or isinstance(x, SymBool):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    return x


def _elementwise(fn, *xs):
    xs = [x if isinstance(x, np.ndarray) else _box0(x) for x in xs]
    if len(xs) == 1:
        a = xs[0]
        out = np.empty(a.shape, dtype=object)
        of = out.reshape(-1)
        for i, e in enumerate(a.flat):
            of[i] = fn(e)
        return out
    b = np.broadcast(*xs)
    out = np.empty(b.shape, dtype=object)
    of = out.reshape(-1)
    for i, es in enumerate(b):
        of[i] = fn(*es)
    return out


def _box0(x):
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def _matmul(a, b):
    a = a if isinstance(a, np.ndarray) else np.asarray(a, dtype=object)
    b = b if isinstance(b, np.ndarray) else np.asarray(b, dtype=object)
    return np.matmul(a, b)


def _wide(a):
    """numpy's sum/prod of narrow integers accumulates in 64 bits."""
    out = np.empty(a.shape, dtype=object)
    of = out.reshape(-1)
    for i, e in enumerate(a.flat):
        of[i] = e.with_dt(I8) if isinstance(e, Sym) and e.dt is not None and e.dt != PY else e
    return out


def _reduce(uf, name, a, kw, orig):
    axis = kw.get('axis', 0)
    keepdims = kw.get('keepdims', False)
    if name in ('maximum', 'fmax', 'minimum', 'fmin'):
        kind = 'max' if name in ('maximum', 'fmax') else 'min'
        return _along(lambda xs: maxmin(kind, xs), a, axis, keepdims, kind)
    if name == 'logical_or':
        return _along(_any_list, a, axis, keepdims)
    if name == 'logical_and':
        return _along(_all_list, a, axis, keepdims)
    if name in ('add', 'multiply'):
        a = _wide(a)
        # python bools / SymBools are counted
        a = _elementwise(lambda e: e.as_int() if isinstance(e, SymBool) else
                         int(e) if isinstance(e, (bool, np.bool_)) else e, a)
        kw = {k: v for k, v in kw.items() if k in ('axis', 'keepdims', 'initial') and v is not None or k == 'axis'}
        ax = kw.get('axis', 0)
        if name == 'add' and a.size > 64:
            # long sums: pairs first (the same sum, in a shallow expression)
            if ax is None and not kw.get('keepdims'):
                a = a.reshape(-1)
                kw['axis'] = ax = 0
            while isinstance(ax, int) and a.ndim and a.shape[ax] > 64:
                n = a.shape[ax]
                sl = lambda u: (slice(None),) * (ax % a.ndim) + (u,)
                h = a[sl(slice(0, n - n % 2, 2))] + a[sl(slice(1, n, 2))]
                a = np.concatenate([h, a[sl(slice(n - 1, n))]], axis=ax) if n % 2 else h
        r = uf.reduce(a, **kw)
        return r
    return uf.reduce(a, **kw)


def _any_list(xs):
    sb = None
    for x in xs:
        if isinstance(x, Sym):
            x = x != 0
        if isinstance(x, SymBool):
            sb = x if sb is None else sb | x
        elif x or _isnan(x):
            return True
    return False if sb is None else sb


def _all_list(xs):
    sb = None
    for x in xs:
        if isinstance(x, Sym):
            x = x != 0
        if isinstance(x, SymBool):
            sb = x if sb is None else sb & x
        elif not x:
            return False
    return True if sb is None else sb


def _along(fn, a, axis, keepdims=False, kind=None):
    """Applies fn to the lists of elements along an axis."""
    if isinstance(axis, tuple):
        if len(axis) == a.ndim:
            axis = None
        elif len(axis) == 1:
            axis = axis[0]
        else:
            axs = sorted(x % a.ndim for x in axis)
            rest = [i for i in range(a.ndim) if i not in axs]
            b = a.transpose(rest + axs).reshape([a.shape[i] for i in rest] + [-1])
            r = _along(fn, b, -1, False, kind)
            if keepdims:
                sh = [1 if i in axs else a.shape[i] for i in range(a.ndim)]
                r = np.asarray(r, dtype=object).reshape(sh)
            return r
    if axis is None:
        xs = list(a.flat)
        if not xs and kind:
            raise ValueError(f'zero-size array to reduction operation {kind}imum which has no identity')
        r = fn(xs)
        if keepdims:
            o = np.empty((1,) * a.ndim, dtype=object)
            o.reshape(-1)[0] = r
            return o
        return r
    axis = axis % a.ndim
    b = np.moveaxis(a, axis, -1)
    if b.shape[-1] == 0 and kind:
        raise ValueError(f'zero-size array to reduction operation {kind}imum which has no identity')
    out = np.empty(b.shape[:-1], dtype=object)
    for idx in np.ndindex(*b.shape[:-1]):
        out[idx] = fn(list(b[idx]))
    if keepdims:
        out = np.expand_dims(out, axis)
    if out.ndim == 0:
        return out[()]
    return out


def _dt(dt):
    if dt is None:
        return F8
    d = np.dtype(dt)
    if d == object:
        return F8
    return d


def _holds_array(x):
    return any(isinstance(y, np.ndarray) or isinstance(y, (list, tuple)) and _holds_array(y) for y in x)


def native(func, args, kwargs):
    """numpy's own implementation on plain object arrays; the result is wrapped again."""
    arrs = []

    def unw(x):
        if isinstance(x, SArr):
            arrs.append(x)
            x = force_bools(x)
            return _plain(x)
        if isinstance(x, np.ndarray):
            arrs.append(x)
            return x
        if isinstance(x, (list, tuple)):
            if _holds_array(x):
                return type(x)([unw(y) for y in x])
            if is_symbolic(x):
                s = to_sarr(x)
                arrs.append(s)
                return _plain(force_bools(s))
            return x
        if isinstance(x, SymBool):
            return bool(x)
        return x
    a2 = [unw(x) for x in args]
    k2 = {k: unw(v) for k, v in kwargs.items() if not (k in ('dtype', 'out') and v is None)}
    dt = k2.get('dtype')
    if dt is not None:
        k2.pop('dtype')
        dt = _dt(dt)
    try:
        r = func(*a2, **k2)
    except TypeError as ex:
        if "'O'" in str(ex) or 'object' in str(ex):
            raise Unsupported(f'{getattr(func, "__name__", func)} of symbolic values')
        raise
    anyfloat = fres(*arrs)

    def rew(x):
        if isinstance(x, np.ndarray):
            if x.dtype == object:
                base = None
                return wrap(x, dt or anyfloat)
            if x.dtype.kind == 'f':
                return wrap(x)
            return x
        if isinstance(x, tuple):
            return type(x)(rew(y) for y in x) if type(x) is tuple else x
        if isinstance(x, list):
            return [rew(y) for y in x]
        return scalar(x)
    return rew(r)


# --------------------------------------------------------------------------------------
# modelled functions
# --------------------------------------------------------------------------------------
def _creator(fill):
    def f(shape, dtype=None, order='C', **k):
        if isinstance(shape, (list, tuple)):
            shape = tuple(int(x.__index__()) for x in shape)
        else:
            shape = (int(shape.__index__()),)
        d = _dt(dtype)
        if d.kind == 'b':
            return np.full(shape, bool(fill))
        if d.kind not in 'fiu':
            return np.full(shape, fill, dtype=dtype)
        a = np.empty(shape, dtype=object)
        a.fill(float(fill) if d.kind == 'f' else int(fill))
        r = a.view(SArr)
        r.mdt = fdt(d) if d.kind == 'f' else d
        return r
    return f


zeros, ones = _creator(0), _creator(1)
empty = _creator(0)


def full(shape, fill_value, dtype=None, **k):
    if isinstance(shape, (int, np.integer, Sym)):
        shape = (shape.__index__(),)
    if dtype is None and isinstance(fill_value, (bool, np.bool_)):
        return np.full(shape, fill_value)
    a = np.empty(tuple(int(x.__index__()) for x in shape), dtype=object)
    if isinstance(fill_value, np.ndarray) or isinstance(fill_value, (list, tuple)):
        a[...] = _plain(to_sarr(fill_value))
    else:
        for idx in np.ndindex(*a.shape):
            a[idx] = fill_value
    if a.size == 0:
        return wrap(a, _dt(dtype))
    return wrap(a, None if dtype is None else _dt(dtype))


def _like(fill):
    def f(a, dtype=None, shape=None, **k):
        a = to_sarr(a)
        d = _dt(dtype) if dtype is not None else a.mdt
        return _creator(fill)(a.shape if shape is None else shape, dtype=d)
    return f


def full_like(a, fill_value, dtype=None, **k):
    a = to_sarr(a)
    return full(a.shape, fill_value, dtype=dtype or a.mdt)


def eye(n, m=None, k=0, dtype=None, **kw):
    return wrap(np.eye(int(n.__index__()), None if m is None else int(m.__index__()), k, dtype=dtype or float))


def array(x, dtype=None, copy=True, ndmin=0, **k):
    if isinstance(x, SArr) or is_symbolic(x):
        s = to_sarr(x)
        d = _dt(dtype) if dtype is not None else s.mdt
        r = wrap(s.view(np.ndarray).copy(), d)
    else:
        a = np.array(x, dtype=dtype, **({'ndmin': ndmin} if ndmin else {}))
        if a.dtype.kind in 'fiu':
            r = wrap(a)
        else:
            return a
    while r.ndim < ndmin:
        r = r[None]
    return r


def asarray(x, dtype=None, **k):
    if isinstance(x, SArr):
        d = _dt(dtype) if dtype is not None else x.mdt
        if d == x.mdt or (d.kind == 'f' and x.mdt.kind == 'f' and fdt(d) == x.mdt):
            return x
    if isinstance(x, np.ndarray) and not isinstance(x, SArr) and (dtype is None or np.dtype(dtype) == x.dtype):
        return x if x.dtype.kind not in 'f' else wrap(x)
    return array(x, dtype=dtype)


def copy_(x, **k):
    return array(x)


def mean(a, axis=None, dtype=None, out=None, keepdims=False, where=True, **k):
    a = to_sarr(a)
    if where is not True:
        m = np.broadcast_to(force_bools(where), a.shape)
        return sum_(a, axis=axis, keepdims=keepdims, where=m) / np.sum(m, axis=axis, keepdims=keepdims)
    p = _wide(_plain(a))
    if isinstance(axis, tuple):
        cnt = int(np.prod([p.shape[i] for i in axis]))
    else:
        cnt = p.size if axis is None else p.shape[axis]
    s = sum_(wrap(p, fdt(a.mdt) if a.mdt.kind == 'f' else F8), axis=axis, keepdims=keepdims)
    if cnt == 0:
        if isinstance(s, np.ndarray):
            return s * math.nan
        return np.float64(math.nan)
    return s / cnt


def average(a, axis=None, weights=None, **k):
    a = to_sarr(a)
    if weights is None:
        return mean(a, axis=axis)
    w = to_sarr(weights)
    if w.ndim == 1 and a.ndim > 1:
        sh = [1] * a.ndim
        sh[axis] = -1
        w2 = w.reshape(sh)
    else:
        w2 = w
    return NP.sum(a * w2, axis=axis) / NP.sum(w)


def _masked(a, where, neutral):
    """The elements a reduction looks at; the others are neutral."""
    if where is True:
        return a
    m = np.broadcast_to(force_bools(where), a.shape)
    b = _plain(a).copy()
    for i in np.ndindex(*b.shape):
        if not m[i]:
            b[i] = neutral
    return wrap(b, a.mdt)


def _without_nan(a, neutral):
    b = _plain(a).copy()
    for i in np.ndindex(*b.shape):
        if _isnan(b[i]):
            b[i] = neutral
    return wrap(b, a.mdt)


def sum_(a, axis=None, dtype=None, out=None, keepdims=False, where=True, **k):
    if isinstance(a, types.GeneratorType):
        return sum(a)
    a = _masked(to_sarr(a), where, 0.0 if to_sarr(a).mdt.kind == 'f' else 0)
    kw = dict(axis=axis, keepdims=keepdims)
    if 'initial' in k:
        kw['initial'] = k['initial']
    r = _reduce(np.add, 'add', _plain(a), kw, a)
    if isinstance(r, np.ndarray):
        return wrap(r, a.mdt if a.mdt.kind == 'f' else None)
    if a.mdt.kind == 'f':
        return a.mdt.type(r) if not isinstance(r, Sym) else r.to_float(a.mdt)
    return scalar(r)


def var(a, axis=None, ddof=0, keepdims=False, **k):
    a = to_sarr(a)
    mu = mean(a, axis=axis, keepdims=True)
    cnt = a.size if axis is None else a.shape[axis]
    s = sum_((a - mu) ** 2, axis=axis, keepdims=keepdims)
    return s / (cnt - ddof)


def std(a, axis=None, ddof=0, **k):
    return NP.sqrt(var(a, axis=axis, ddof=ddof, **k))


def cov(m, y=None, rowvar=True, bias=False, ddof=None, **k):
    X = to_sarr(m)
    if X.ndim == 1:
        X = X[None, :]
    if not rowvar and X.shape[0] != 1:
        X = X.T
    n = X.shape[1]
    dd = ddof if ddof is not None else (0 if bias else 1)
    mu = mean(X, axis=1, keepdims=True)
    D = X - mu
    if n - dd == 0:
        C = (D @ D.T) * math.nan
    else:
        C = (D @ D.T) / (n - dd)
    return C.squeeze() if C.shape == (1, 1) else C


def nansum(a, axis=None, keepdims=False, **k):
    return sum_(_without_nan(to_sarr(a), 0.0), axis=axis, keepdims=keepdims)


def nanmean(a, axis=None, keepdims=False, **k):
    a = to_sarr(a)
    cnt = np.sum(np.array([not _isnan(e) for e in _plain(a).reshape(-1)], dtype=int).reshape(a.shape), axis=axis, keepdims=keepdims)
    return nansum(a, axis=axis, keepdims=keepdims) / cnt


def _mm(kind, nan=False):
    def f(a, axis=None, out=None, keepdims=False, initial=None, where=True, **k):
        a = to_sarr(a)
        if where is not True:
            if initial is None:
                raise ValueError('reduction operation has no identity, so to use a where mask one has to specify initial')
            a = _masked(a, where, initial)
        if nan and any(_isnan(e) for e in _plain(a).reshape(-1)):
            r = _along(lambda xs: maxmin(kind, [x for x in xs if not _isnan(x)] or [math.nan]), _plain(a), axis, keepdims)
            return wrap(r, a.mdt) if isinstance(r, np.ndarray) else scalar(r)
        fn = (lambda xs: maxmin(kind, xs)) if initial is None else (lambda xs: maxmin(kind, xs + [initial]))
        r = _along(fn, _plain(a), axis, keepdims, kind if initial is None else None)
        if isinstance(r, np.ndarray):
            return wrap(r, a.mdt)
        return scalar(r)
    return f


def _anyall(fn):
    def f(a, axis=None, out=None, keepdims=False, where=True, **k):
        if isinstance(a, (SymBool,)):
            return a
        a = _masked(to_sarr(a), where, fn is _all_list)
        r = _along(fn, _plain(a), axis, keepdims)
        if isinstance(r, np.ndarray):
            r = wrap(r, B1)
        return scalar(r) if not isinstance(r, np.ndarray) else r
    return f


def unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    a = to_sarr(a)
    if axis is not None:
        raise Unsupported('unique axis')
    flat = list(_plain(a).reshape(-1))
    if not any(isinstance(e, Sym) for e in flat):
        r = np.unique(np.array(flat), return_index=return_index, return_inverse=return_inverse,
                      return_counts=return_counts)
        return r
    vals = []   # sorted distinct values
    members = []
    for i, e in enumerate(flat):
        pos = 0
        hit = False
        while pos < len(vals):
            if e == vals[pos]:
                hit = True
                break
            if e < vals[pos]:
                break
            pos += 1
        if hit:
            members[pos].append(i)
        else:
            vals.insert(pos, e)
            members.insert(pos, [i])
    out = np.empty(len(vals), dtype=object)
    for i, v in enumerate(vals):
        out[i] = v
    res = [wrap(out, a.mdt)]
    if return_index:
        res.append(np.array([m[0] for m in members]))
    if return_inverse:
        inv = np.empty(len(flat), dtype=int)
        for c, m in enumerate(members):
            inv[m] = c
        res.append(inv)
    if return_counts:
        res.append(np.array([len(m) for m in members]))
    return res[0] if len(res) == 1 else tuple(res)


def det(a, **k):
    a = _plain(to_sarr(a))
    if a.ndim != 2 or a.shape[0] != a.shape[1]:
        if a.ndim == 3 and a.shape[1] == a.shape[2]:
            out = np.empty(a.shape[0], dtype=object)
            for i in range(a.shape[0]):
                out[i] = det(a[i])
            return wrap(out)
        raise np.linalg.LinAlgError('Last 2 dimensions of the array must be square')
    return scalar(_det([list(r) for r in a]))


def _det(M):
    return oracle.det(M)


def inv(a, **k):
    a = _plain(to_sarr(a))
    n = a.shape[0]
    if a.ndim != 2 or a.shape[0] != a.shape[1]:
        raise np.linalg.LinAlgError('Last 2 dimensions of the array must be square')
    M = [list(r) for r in a]
    r, f = tuple(range(n)), oracle.minors(M)
    D = f(r, r)
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            cof = f(r[:j] + r[j + 1:], r[:i] + r[i + 1:])
            out[i, j] = 0.0 if oracle.zero(cof) else _div(-cof if (i + j) % 2 else cof, D)
    return wrap(out, F8)


def solve(a, b, **k):
    return inv(a) @ to_sarr(b)


def slogdet(a, **k):
    d = det(a)
    if not isinstance(d, Sym):
        return (np.sign(d), UNARY['log'](abs(d)) if d != 0 else -math.inf)
    if d > 0:
        return (1.0, d.log())
    if d < 0:
        return (-1.0, (-d).log())
    return (0.0, -math.inf)


def norm(x, ord=None, axis=None, keepdims=False):
    x = to_sarr(x)
    if axis is None and (ord is None or (ord == 2 and x.ndim == 1)):
        r = NP.sqrt(sum_(x * x))
        return r
    if axis is None and ord == 'fro':
        return NP.sqrt(sum_(x * x))
    if axis is None and x.ndim == 1:
        if ord == 1:
            return sum_(abs(x))
        if ord == np.inf:
            return NP.max(abs(x))
        raise Unsupported(f'norm ord={ord}')
    if isinstance(axis, (int, np.integer)) and ord in (None, 2):
        return NP.sqrt(sum_(x * x, axis=axis, keepdims=keepdims))
    if isinstance(axis, (int, np.integer)) and ord == 1:
        return sum_(abs(x), axis=axis, keepdims=keepdims)
    raise Unsupported('norm')


def _where_max(c, x, y):
    """where(a > b, a, b) and the like are a maximum or a minimum: no fork."""
    x, y = to_sarr(x), to_sarr(y)
    c, px, py = np.broadcast_arrays(_plain(c), _plain(x), _plain(y))
    out = np.empty(c.shape, dtype=object)
    for i in np.ndindex(*c.shape):
        b, u, v = c[i], px[i], py[i]
        if not isinstance(b, SymBool):
            out[i] = u if b else v
            continue
        if b.ord is None or not isinstance(u, Sym) and not isinstance(v, Sym) or _isinf(u) or _isinf(v):
            return None
        lo, hi = b.ord
        au, av = (ctx().alias(t) if isinstance(t, Sym) else const(t) for t in (u, v))
        if same_term(au, lo) and same_term(av, hi):
            out[i] = maxmin('min', [u, v])
        elif same_term(au, hi) and same_term(av, lo):
            out[i] = maxmin('max', [u, v])
        else:
            return None
    return wrap(out, fres(x, y))


def where(c, *xy):
    if len(xy) == 2 and is_symbolic(c):
        r = _where_max(to_sarr(c), *xy)
        if r is not None:
            return r
    c = force_bools(to_sarr(c)) if is_symbolic(c) else np.asarray(c)
    if isinstance(c, SArr):
        c = force_bools(c != 0)
    if not xy:
        return np.nonzero(c)
    x, y = (to_sarr(v) for v in xy)
    k = fres(x, y)
    r = np.where(c, _plain(x), _plain(y))
    return wrap(r, k)


def nonzero(a):
    a = to_sarr(a)
    return np.nonzero(force_bools(a if a.mdt.kind == 'b' else (a != 0)))


def count_nonzero(a, axis=None, **k):
    a = to_sarr(a)
    return np.count_nonzero(force_bools(a if a.mdt.kind == 'b' else (a != 0)), axis=axis)


def clip(a, lo=None, hi=None, **k):
    lo = k.get('a_min', k.get('min', lo))
    hi = k.get('a_max', k.get('max', hi))
    r = a
    if lo is not None:
        r = NP.maximum(r, lo)
    if hi is not None:
        r = NP.minimum(r, hi)
    return r


def allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return NP.all(isclose(a, b, rtol, atol))


def isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    a, b = to_sarr(a), to_sarr(b)
    r = abs(a - b) <= (atol + rtol * abs(b))
    return r


def array_equal(a, b, **k):
    a, b = to_sarr(a), to_sarr(b)
    if a.shape != b.shape:
        return False
    return bool(NP.all(a == b))


def argmm(kind):
    def f(a, axis=None, **k):
        a = to_sarr(a)
        p = _plain(a)

        def one(xs):
            best = 0
            for i in range(1, len(xs)):
                if _isnan(xs[best]):
                    break
                if _isnan(xs[i]) or (xs[i] > xs[best] if kind == 'max' else xs[i] < xs[best]):
                    best = i
            return best
        if p.size == 0:
            raise ValueError('attempt to get argmin of an empty sequence')
        r = _along(one, p, axis)
        return r.astype(int) if isinstance(r, np.ndarray) else r
    return f


def _sorted_idx(xs):
    import functools

    def cmp(i, j):
        if xs[i] < xs[j]:
            return -1
        if xs[j] < xs[i]:
            return 1
        return i - j
    return sorted(range(len(xs)), key=functools.cmp_to_key(cmp))


def sort(a, axis=-1, **k):
    a = to_sarr(a)
    p = _plain(a)
    if axis is None:
        p = p.reshape(-1)
        axis = 0
    b = np.moveaxis(p, axis, -1)
    out = np.empty(b.shape, dtype=object)
    for idx in np.ndindex(*b.shape[:-1]):
        xs = list(b[idx])
        for o, i in enumerate(_sorted_idx(xs)):
            out[idx + (o,)] = xs[i]
    return wrap(np.moveaxis(out, -1, axis), a.mdt)


def argsort(a, axis=-1, **k):
    a = to_sarr(a)
    p = _plain(a)
    if axis is None:
        p, axis = p.reshape(-1), 0
    b = np.moveaxis(p, axis, -1)
    out = np.empty(b.shape, dtype=int)
    for idx in np.ndindex(*b.shape[:-1]):
        out[idx] = _sorted_idx(list(b[idx]))
    return np.moveaxis(out, -1, axis)


def bincount(x, weights=None, minlength=0):
    x = index_key(to_sarr(x)) if is_symbolic(x) else np.asarray(x)
    if weights is None:
        return np.bincount(x, minlength=minlength)
    w = _plain(to_sarr(weights))
    n = max(minlength, (int(x.max()) + 1) if x.size else 0)
    out = zeros(n)
    for i, c in enumerate(x):
        out[c] = out[c] + w[i]
    return out


def einsum(spec, *ops, **k):
    ops = [to_sarr(o) for o in ops]
    spec = spec.replace(' ', '')
    if '...' in spec:
        raise Unsupported('einsum ellipsis')
    if '->' in spec:
        lhs, rhs = spec.split('->')
    else:
        lhs = spec
        letters = sorted(set(lhs.replace(',', '')))
        rhs = ''.join(c for c in letters if lhs.count(c) == 1)
    terms = lhs.split(',')
    dims = {}
    for t, o in zip(terms, ops):
        for c, s in zip(t, o.shape):
            dims[c] = s
    summed = [c for c in dims if c not in rhs]
    out = np.empty([dims[c] for c in rhs], dtype=object)
    pls = [_plain(o) for o in ops]
    for idx in np.ndindex(*[dims[c] for c in rhs]):
        env = dict(zip(rhs, idx))
        tot = 0
        for sidx in np.ndindex(*[dims[c] for c in summed]):
            env.update(zip(summed, sidx))
            p = None
            for t, o in zip(terms, pls):
                v = o[tuple(env[c] for c in t)]
                p = v if p is None else p * v
            tot = tot + p
        out[idx] = tot
    fl = fres(*ops)
    if out.ndim == 0:
        return scalar(out[()])
    return wrap(out, fl)


def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    def f(e):
        if _isnan(e):
            return nan
        if _isinf(e):
            return (posinf if posinf is not None else np.finfo(float).max) if e > 0 else \
                (neginf if neginf is not None else np.finfo(float).min)
        return e
    if isinstance(x, Sym):
        return x
    if not isinstance(x, np.ndarray):
        return f(x)
    return wrap(_elementwise(f, _plain(to_sarr(x))), F8)


def round_(x, decimals=0, **k):
    def f(e):
        if isinstance(e, Sym):
            return round(e, decimals) if decimals else e.rint()
        return round(e, decimals)
    if not isinstance(x, np.ndarray):
        return f(x)
    return wrap(_elementwise(f, _plain(to_sarr(x))), x.dtype)


def isin(a, b, **k):
    a, b = to_sarr(a), to_sarr(b)
    bl = list(_plain(b).flat)
    r = _elementwise(lambda e: _any_list([e == x for x in bl]), _plain(a))
    return wrap(r, B1)


def nansum(a, axis=None, **k):
    return sum_(nan_to_num(to_sarr(a)), axis=axis)


def fill_diagonal(a, val, wrap=False):
    vs = None
    if isinstance(val, (np.ndarray, list, tuple)) and np.ndim(_plain(to_sarr(val))):
        vs = list(to_sarr(val).reshape(-1))
    for i in range(min(a.shape)):
        a[(i,) * a.ndim] = val if vs is None else vs[i % len(vs)]


def shares_memory(a, b, *x, **k):
    return np.shares_memory(_plain(a), _plain(b))


def may_share_memory(a, b, *x, **k):
    return np.may_share_memory(_plain(a), _plain(b))


def concat_like(func):
    def f(arrs, *a, **k):
        if isinstance(arrs, (np.ndarray,)):
            items = [arrs[i] for i in range(arrs.shape[0])]
        else:
            items = list(arrs)
        items = [to_sarr(x) for x in items]
        fl = fres(*items)
        k.pop('dtype', None)
        r = func([_plain(force_bools(x)) if x.mdt.kind == 'b' else _plain(x) for x in items], *a, **k)
        return wrap(r, fl)
    return f


def append(arr, values, axis=None):
    a, v = to_sarr(arr), to_sarr(values)
    if axis is None:
        a, v = a.reshape(-1), v.reshape(-1)
        axis = 0
    return OVERRIDES['concatenate']([a, v], axis=axis)


def pad(a, width, mode='constant', **k):
    a = to_sarr(a)
    r = np.pad(_plain(a), width, mode=mode, **k)
    return wrap(r, a.mdt)


class _Cat:
    """np.r_ and np.c_ with arrays and numbers (slices are made by the real one)."""

    def __init__(self, real, col):
        self.real, self.col = real, col

    def __getitem__(self, key):
        items = key if isinstance(key, tuple) else (key,)
        if not is_symbolic(items):
            return lift(self.real[key])
        if any(isinstance(x, str) for x in items):
            raise Unsupported('np.r_ with a directive')
        arrs = [to_sarr(self.real[x]) if isinstance(x, slice) else to_sarr(x) for x in items]
        if self.col:
            arrs = [x.reshape(1, 1) if x.ndim == 0 else x.reshape(-1, 1) if x.ndim == 1 else x for x in arrs]
            return OVERRIDES['concatenate'](arrs, axis=-1)
        nd = max(1, max(x.ndim for x in arrs))
        arrs = [x.reshape((1,) * (nd - x.ndim) + x.shape) for x in arrs]
        return OVERRIDES['concatenate'](arrs, axis=0)

    def __len__(self):
        return 0


def fromiter(it, dtype=None, count=-1, **k):
    xs = list(it)
    if count is not None and count >= 0:
        xs = xs[:count]
    return array(xs, dtype=dtype)


def median(a, axis=None, **k):
    a = to_sarr(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    s = np.moveaxis(sort(a, axis=axis), axis, 0)
    n = s.shape[0]
    return (s[n // 2] + s[(n - 1) // 2]) / 2


def cholesky(a, upper=False, **k):
    a = to_sarr(a)
    n = a.shape[0]
    if a.ndim != 2:
        raise Unsupported('cholesky of a stack')
    L = zeros((n, n))
    for j in range(n):
        t = a[j, j]
        for m in range(j):
            t = t - L[j, m] * L[j, m]
        L[j, j] = UNARY['sqrt'](t)
        for i in range(j + 1, n):
            t = a[i, j]
            for m in range(j):
                t = t - L[i, m] * L[j, m]
            L[i, j] = _div(t, L[j, j])
    return L.T if upper else L


def isscalar(x):
    return isinstance(x, (Sym, SymBool)) or np.isscalar(x)


def array2string(*a, **k):
    return '<array>'


def ndim(a):
    return getattr(a, 'ndim', None) if hasattr(a, 'ndim') else np.ndim(a)


def dot(a, b, out=None):
    a, b = to_sarr(a), to_sarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    return native(np.dot, (a, b), {})


OVERRIDES = {
    'zeros': zeros, 'ones': ones, 'empty': empty, 'full': full, 'eye': eye, 'identity': eye,
    'zeros_like': _like(0), 'ones_like': _like(1), 'empty_like': _like(0), 'full_like': full_like,
    'array': array, 'asarray': asarray, 'asanyarray': asarray, 'ascontiguousarray': asarray,
    'asfarray': asarray, 'copy': copy_, 'asarray_chkfinite': asarray, 'require': asarray,
    'mean': mean, 'average': average, 'sum': sum_, 'nansum': nansum, 'nanmean': mean, 'var': var, 'std': std,
    'cov': cov, 'max': _mm('max'), 'amax': _mm('max'), 'min': _mm('min'), 'amin': _mm('min'),
    'nanmax': _mm('max', True), 'nanmin': _mm('min', True), 'nansum': nansum, 'nanmean': nanmean,
    'any': _anyall(_any_list), 'all': _anyall(_all_list), 'unique': unique,
    'where': where, 'nonzero': nonzero, 'flatnonzero': lambda a: nonzero(to_sarr(a).reshape(-1))[0],
    'argwhere': lambda a: np.transpose(np.asarray(nonzero(a))),
    'count_nonzero': count_nonzero, 'clip': clip, 'allclose': allclose, 'isclose': isclose,
    'array_equal': array_equal, 'argmax': argmm('max'), 'argmin': argmm('min'), 'sort': sort, 'argsort': argsort,
    'bincount': bincount, 'einsum': einsum, 'nan_to_num': nan_to_num, 'round': round_, 'around': round_,
    'isin': isin, 'in1d': isin, 'fill_diagonal': fill_diagonal, 'append': append, 'pad': pad,
    'vstack': concat_like(np.vstack), 'hstack': concat_like(np.hstack), 'dstack': concat_like(np.dstack),
    'concatenate': concat_like(np.concatenate), 'stack': concat_like(np.stack),
    'row_stack': concat_like(np.vstack), 'column_stack': concat_like(np.column_stack), 'concat': concat_like(np.concatenate),
    'array2string': array2string, 'array_repr': array2string, 'array_str': array2string,
    'fromiter': fromiter, 'median': median, 'isscalar': isscalar,
    'ndim': ndim, 'dot': dot, 'shares_memory': shares_memory, 'may_share_memory': may_share_memory,
}
LINALG = {'det': det, 'inv': inv, 'solve': solve, 'slogdet': slogdet, 'norm': norm, 'pinv': inv, 'cholesky': cholesky}
ALWAYS = {'zeros', 'ones', 'empty', 'full', 'eye', 'identity', 'zeros_like', 'ones_like', 'empty_like', 'full_like',
          'array', 'asarray', 'asanyarray', 'ascontiguousarray', 'copy', 'fill_diagonal', 'append', 'pad',
          'vstack', 'hstack', 'dstack', 'concatenate', 'stack', 'column_stack', 'concat', 'fromiter', 'isscalar'}
OVERRIDES.update({f'linalg.{k}': v for k, v in LINALG.items()})
for _k, _v in LINALG.items():
    OVERRIDES.setdefault(_k, _v)


class Fn:
    """A function of the stand-in module."""

    def __init__(self, name, real, over=None, always=False):
        self.__name__ = name
        self.real = real
        self.over = over
        self.always = always

    def __call__(self, *a, **k):
        if self.over is not None and (self.always or is_symbolic(a) or any(is_symbolic(v) for v in k.values())):
            return self.over(*a, **k)
        if is_symbolic(a) or any(is_symbolic(v) for v in k.values()):
            if isinstance(self.real, np.ufunc):
                a = tuple(to_sarr(x) if isinstance(x, (list, tuple, Sym, SymBool)) else x for x in a)
                if not any(isinstance(x, SArr) for x in a):
                    a = tuple(to_sarr(x) if isinstance(x, np.ndarray) or isnum(x) else x for x in a)
                r = self.real(*a, **k)
                if isinstance(r, np.ndarray) and r.ndim == 0:
                    return scalar(r[()])
                return r
            return native(self.real, a, k)
        if self.__name__ in ('sqrt', 'log') and len(a) == 1 and not k and ctx() is not None:
            if isnum(a[0]):
                return UNARY[self.__name__](a[0])
            if isinstance(a[0], np.ndarray):
                return self.real(to_sarr(a[0]))
        r = self.real(*a, **k)
        return lift(r)

    def __getattr__(self, n):
        return getattr(self.real, n)

    def __repr__(self):
        return f'<symbolic {self.__name__}>'


def lift(r):
    if isinstance(r, np.ndarray) and r.dtype.kind == 'f' and not isinstance(r, SArr):
        return wrap(r)
    if type(r) is tuple:
        return tuple(lift(x) for x in r)
    return r


class Stand(types.ModuleType):
    """Stand-in module: attribute access falls through to the real module."""

    def __init__(self, name, real, overrides, extra=None, always=()):
        super().__init__(name)
        d = self.__dict__
        d['_real'] = real
        d['_over'] = overrides
        d['_always'] = always
        d['_cache'] = {}
        d['__path__'] = getattr(real, '__path__', [])
        for k, v in (extra or {}).items():
            d[k] = v

    def __getattr__(self, n):
        if n in ('pi', 'tau') and ctx() is not None:
            return ctx().pi() if n == 'pi' else ctx().pi() * 2
        c = self.__dict__['_cache']
        if n in c:
            return c[n]
        real = self.__dict__['_real']
        over = self.__dict__['_over'].get(n)
        if not hasattr(real, n) and over is None:
            raise AttributeError(f"module '{real.__name__}' has no attribute '{n}'")
        v = getattr(real, n, None)
        if isinstance(v, type) or isinstance(v, types.ModuleType) and n not in ('linalg',):
            r = v
        elif callable(v) or over is not None:
            r = Fn(n, v, over, n in self.__dict__['_always'])
        else:
            r = v
        c[n] = r
        return r


class MA:
    """The part of numpy.ma needed to leave entries out of a reduction."""

    def __init__(self, data, mask=False, **k):
        if k:
            raise Unsupported('np.ma options')
        self.data = to_sarr(data)
        self.mask = np.array(np.broadcast_to(force_bools(to_sarr(mask)) if is_symbolic(mask) else np.asarray(mask, bool),
                                             self.data.shape))

    def _red(self, fn, axis):
        if axis is None:
            return fn(self.data[~self.mask])
        d = np.moveaxis(self.data, axis, -1)
        m = np.moveaxis(self.mask, axis, -1)
        out = np.empty(d.shape[:-1], dtype=object)
        for i in np.ndindex(*out.shape):
            if m[i].all():
                raise Unsupported('np.ma: everything masked')
            out[i] = fn(d[i][~m[i]])
        return wrap(out)

    def min(self, axis=None):
        return self._red(NP.min, axis)

    def max(self, axis=None):
        return self._red(NP.max, axis)

    def sum(self, axis=None):
        return self._red(NP.sum, axis)

    def mean(self, axis=None):
        return self._red(NP.mean, axis)

    def compressed(self):
        return self.data[~self.mask]

    def filled(self, v):
        r = self.data.copy()
        r[self.mask] = v
        return r

    def __getattr__(self, n):
        raise Unsupported(f'np.ma: {n}')


MAMOD = types.ModuleType('numpy.ma')
MAMOD.masked_array = MAMOD.array = MAMOD.MaskedArray = MA
MAMOD.masked_where = lambda c, a, copy=True: MA(a, c)
MAMOD.masked_equal = lambda a, v, copy=True: MA(a, to_sarr(a) == v)
MAMOD.masked_invalid = lambda a, copy=True: MA(a, _elementwise(lambda e: not _isfinite(e), _plain(to_sarr(a))))
MAMOD.min = lambda a, axis=None: a.min(axis)
MAMOD.max = lambda a, axis=None: a.max(axis)
MAMOD.sum = lambda a, axis=None: a.sum(axis)
MAMOD.mean = lambda a, axis=None: a.mean(axis)

NPLINALG = Stand('numpy.linalg', np.linalg, LINALG, always={'slogdet'})
NP = Stand('numpy', np, OVERRIDES, extra={'linalg': NPLINALG, 'ma': MAMOD, 'r_': _Cat(np.r_, False), 'c_': _Cat(np.c_, True)}, always=ALWAYS)


# -- math ---------------------------------------------------------------------------------
def _msum(xs):
    t = 0.0
    for x in xs:
        t = t + x
    return t


def _mprod(xs, start=1):
    for x in xs:
        start = start * x
    return start


def _mdist(p, q):
    t = 0
    for a, b in zip(p, q):
        t = t + (a - b) * (a - b)
    return UNARY['sqrt'](t)


MATH = Stand('math', math, {
    'sqrt': lambda x: x.sqrt() if isinstance(x, Sym) else _csqrt(x) if x > 0 else math.sqrt(x),
    'exp': lambda x: x.exp() if isinstance(x, Sym) else math.exp(x),
    'log': lambda x, *b: UNARY['log'](x) if not b else (x.log() / math.log(b[0]) if isinstance(x, Sym) else math.log(x, *b)),
    'pow': lambda x, y: x ** y, 'fsum': _msum, 'prod': _mprod,
    'isnan': _isnan, 'isinf': _isinf, 'isfinite': _isfinite,
    'fabs': abs, 'floor': lambda x: x.__floor__(), 'ceil': lambda x: x.__ceil__(),
    'trunc': lambda x: x.__trunc__(), 'hypot': lambda *xs: UNARY['sqrt'](_msum([x * x for x in xs])),
    'dist': _mdist, 'isclose': lambda a, b, rel_tol=1e-9, abs_tol=0.0: bool(abs(a - b) <= maxmin('max', [
        maxmin('max', [abs(a), abs(b)]) * rel_tol, abs_tol])),
    'copysign': lambda a, b: abs(a) if b >= 0 else -abs(a),
})
