"""Loads /repo/src/cvi, from its current source, onto symbolic values.

The source files are executed as they are.  numpy and math resolve to the stand-ins of
snp.py, a few builtins (max, min, sum, isinstance, ...) to versions that know Sym, and
conversions written as calls (float(x), int(x), np.float64(x), ...) keep their argument
symbolic.  Nothing else of the code is changed.
"""
import ast
import builtins
import os
import sys
import types
import weakref

import numpy as np

from . import snp
from .sym import Sym, SymBool, Unsupported, const, ctx, PY

REPO = os.environ.get('CVI_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
PKG = 'cvi'

CASTS = {'float', 'int', 'bool', 'complex'}
STRS = {'str', 'repr'}
NPCASTS = {'float64', 'double', 'float32', 'single', 'float16', 'half', 'longdouble', 'int64', 'int32', 'int16', 'int8',
           'uint64', 'uint32', 'uint16', 'uint8', 'intp', 'int_', 'float_', 'bool_', 'intc', 'longlong'}


def _cast(fn, *a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if isinstance(x, snp.SArr):
            if fn in (float, int, bool):
                if x.size != 1:
                    raise TypeError('only length-1 arrays can be converted to Python scalars')
                x = x.reshape(-1)[0]
            else:
                return x.astype(fn)
        if isinstance(x, (Sym, SymBool)):
            if fn is bool or fn is np.bool_:
                return (x != 0) if isinstance(x, Sym) else x
            if isinstance(x, SymBool):
                x = x.as_int()
                return fn(x)
            if fn is float:
                return x.to_float(np.dtype(float))
            if fn is int:
                return x.to_int(PY)
            if isinstance(fn, type) and issubclass(fn, np.floating):
                return x.to_float(np.dtype(fn))
            if isinstance(fn, type) and issubclass(fn, np.integer):
                return x.to_int(np.dtype(fn))
        if fn in (float, int, bool) and isinstance(x, snp.SArr):
            x = x.item()
    return fn(*a, **k)


class Rewrite(ast.NodeTransformer):
    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Pow):
            return ast.copy_location(ast.Call(func=ast.Name(id='__sympow__', ctx=ast.Load()), args=[node.left, node.right],
                                              keywords=[]), node)
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        vs = [v for v in node.values if isinstance(v, ast.FormattedValue)]
        if not vs or any(v.format_spec is not None for v in vs):
            return node
        args = [v if isinstance(v, ast.Constant) else
                ast.Tuple(elts=[v.value, ast.Constant(value=chr(v.conversion) if v.conversion > 0 else '')], ctx=ast.Load()) for v in node.values]
        return ast.copy_location(ast.Call(func=ast.Name(id='__symfstr__', ctx=ast.Load()), args=args, keywords=[]), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        hit = isinstance(f, ast.Name) and f.id in CASTS
        hit = hit or (isinstance(f, ast.Attribute) and f.attr in NPCASTS)
        if isinstance(f, ast.Name) and f.id == 'pow' and len(node.args) == 2:
            node.func = ast.copy_location(ast.Name(id='__sympow__', ctx=ast.Load()), f)
            return node
        if isinstance(f, ast.Name) and f.id == 'map' and node.args and isinstance(node.args[0], ast.Name) and node.args[0].id in CASTS:
            fn = node.args[0]
            lam = ast.Lambda(
                args=ast.arguments(posonlyargs=[], args=[ast.arg(arg='__x')], kwonlyargs=[], kw_defaults=[], defaults=[]),
                body=ast.Call(func=ast.Name(id='__symcast__', ctx=ast.Load()), args=[fn, ast.Name(id='__x', ctx=ast.Load())],
                              keywords=[]))
            node.args[0] = ast.copy_location(lam, fn)
            return node
        if isinstance(f, ast.Name) and f.id == 'type' and len(node.args) == 1:
            node.func = ast.copy_location(ast.Name(id='__symtype__', ctx=ast.Load()), f)
            return node
        if isinstance(f, ast.Name) and f.id in STRS and len(node.args) == 1 and not node.keywords:
            node.func = ast.copy_location(ast.Name(id=f'__sym{f.id}__', ctx=ast.Load()), f)
            return node
        if hit:
            return ast.copy_location(
                ast.Call(func=ast.Name(id='__symcast__', ctx=ast.Load()), args=[f] + node.args,
                         keywords=node.keywords), node)
        return node


# -- builtins --------------------------------------------------------------------------
def _ext(kind):
    real = getattr(builtins, kind)

    def f(*a, **k):
        key = k.get('key')
        if len(a) == 1:
            items = list(a[0])
        else:
            items = list(a)
        if not items:
            if 'default' in k:
                return k['default']
            return real(items)
        if key is None and any(isinstance(x, Sym) for x in items):
            if any(isinstance(x, np.ndarray) and x.ndim for x in items):
                return real(items)
            return ctx().maxmin(kind, [x.as_int() if isinstance(x, SymBool) else
                                       x[()] if isinstance(x, np.ndarray) else x for x in items])
        return real(items, **k)
    f.__name__ = kind
    return f


def _sum(it, start=0):
    t = start
    it = list(it)
    if len(it) > 64 and all(isinstance(x, Sym) for x in it):
        while len(it) > 64:
            it = [it[i] + it[i + 1] if i + 1 < len(it) else it[i] for i in range(0, len(it), 2)]
    for x in it:
        t = t + x
    return t


def _isinstance(x, cls):
    if isinstance(x, (Sym, SymBool)):
        cl = cls if isinstance(cls, tuple) else (cls,)
        flat = []
        for c in cl:
            if isinstance(c, tuple):
                flat.extend(c)
            elif isinstance(c, types.UnionType):
                flat.extend(c.__args__)
            else:
                flat.append(c)
        if isinstance(x, SymBool):
            return any(c in (bool, np.bool_, object) for c in flat)
        for c in flat:
            if c is object or c is type(x):
                return True
            if not isinstance(c, type):
                continue
            if x.dt is None:
                if issubclass(np.float64, c) or c is np.float64:
                    return True
            elif x.dt == PY:
                if issubclass(int, c):
                    return True
            elif issubclass(x.dt.type, c):
                return True
        return False
    return builtins.isinstance(x, cls)


def _type(*a):
    if len(a) == 1 and isinstance(a[0], Sym):
        x = a[0]
        return np.float64 if x.dt is None else int if x.dt == PY else x.dt.type
    if len(a) == 1 and isinstance(a[0], snp.SArr):
        return np.ndarray
    return builtins.type(*a)


def _hash(x):
    if isinstance(x, Sym):
        if x.dt is None:
            raise Unsupported('hash of a symbolic float')
        return const(-2, PY) if x == -1 else x.with_dt(PY)   # a Sym either way: they share one hash bucket
    return builtins.hash(x)


class SymStr(str):
    """Text with the decimal notation of symbolic integers in it (repr: with their type): two such texts
    are equal iff their parts are."""
    def __new__(cls, parts):
        r = str.__new__(cls, '<symbolic>')
        r.x = parts
        return r

    def __eq__(self, o):
        a = self.x
        if isinstance(o, SymStr):
            b = o.x
            if len(a) != len(b):
                raise Unsupported('comparison of texts with symbolic numbers')
            return all(_same_part(x, y) for x, y in zip(a, b))
        if len(a) == 1 and a[0][0] == 'str':
            try:
                return bool(a[0][1] == int(o)) and o == str(int(o))
            except (TypeError, ValueError):
                return False
        raise Unsupported('comparison of a text with symbolic numbers')

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return 13

    def __getattribute__(self, a):
        if a in ('x', '__class__'):
            return object.__getattribute__(self, a)
        raise Unsupported('string operation on a symbolic number')


def _same_part(x, y):
    if isinstance(x, str) or isinstance(y, str):
        if type(x) is not type(y):
            raise Unsupported('comparison of texts with symbolic numbers')
        return x == y
    if 'repr' in (x[0], y[0]) and x[0] == y[0] and x[1].dt != y[1].dt:
        return False
    return bool(x[1] == y[1])


def _text(kind):
    real = getattr(builtins, kind)

    def f(*a):
        if len(a) == 1 and isinstance(a[0], Sym) and a[0].dt is not None:
            return SymStr([('str' if a[0].dt == PY else kind, a[0])])
        return real(*a)
    return f


def _fstr(*parts):
    """An f-string: texts, and (value, conversion) pairs."""
    out = []
    for x in parts:
        if isinstance(x, str):
            out.append(x)
        elif isinstance(x[0], Sym) and x[0].dt is not None:
            out.append(('repr' if x[1] == 'r' and x[0].dt != PY else 'str', x[0]))
        else:
            out.append(repr(x[0]) if x[1] == 'r' else ascii(x[0]) if x[1] == 'a' else str(x[0]) if x[1] == 's' else format(x[0]))
    return ''.join(out) if all(isinstance(x, str) for x in out) else SymStr(out)


# id(): the address of a discarded object is given to the next new one, as CPython's allocator tends to
_slots = {}


def _id(x):
    k = builtins.id(x)
    if k in _slots and _slots[k][0]() is x:
        return _slots[k][1]
    used = {s for r, s in _slots.values() if r() is not None}
    n = next(i for i in range(len(used) + 1) if i not in used)
    try:
        _slots[k] = (weakref.ref(x), n)
    except TypeError:
        return k
    return n


def make_builtins():
    d = dict(vars(builtins))
    d.update(max=_ext('max'), min=_ext('min'), sum=_sum, isinstance=_isinstance, __symcast__=_cast,
             print=lambda *a, **k: None, hash=_hash,  __symtype__=_type, __symstr__=_text('str'), __symrepr__=_text('repr'),
             __symfstr__=_fstr, id=_id, __sympow__=snp.power, __import__=_import)
    return d


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        if name == 'numpy.linalg':
            return snp.NPLINALG if fromlist else snp.NP
        if name in ('numpy', 'math'):
            return STANDINS[name]
    return builtins.__import__(name, globals, locals, fromlist, level)


_code = {}


def sources():
    out = {}
    root = os.path.join(SRC, PKG)
    for dp, dn, fn in os.walk(root):
        dn[:] = [d for d in dn if d != '__pycache__']
        for f in fn:
            if f.endswith('.py'):
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, SRC)[:-3].replace(os.sep, '.')
                ispkg = False
                if rel.endswith('.__init__'):
                    rel, ispkg = rel[:-9], True
                out[rel] = (p, ispkg)
    return out


def compile_all():
    if not _code:
        for name, (p, ispkg) in sources().items():
            with open(p, 'rb') as f:
                src = f.read()
            t = Rewrite().visit(ast.parse(src, p))
            ast.fix_missing_locations(t)
            _code[name] = (compile(t, p, 'exec', dont_inherit=True), p, ispkg)
    return _code


class Finder:
    """Meta-path finder for the package on symbolic values."""

    def __init__(self, bi):
        self.bi = bi

    def find_spec(self, name, path=None, target=None):
        if name == PKG or name.startswith(PKG + '.'):
            import importlib.machinery
            c = compile_all().get(name)
            if c is None:
                return None
            spec = importlib.machinery.ModuleSpec(name, self, origin=c[1], is_package=c[2])
            if c[2]:
                spec.submodule_search_locations = [os.path.dirname(c[1])]
            return spec
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        code, p, ispkg = compile_all()[mod.__name__]
        mod.__dict__['__builtins__'] = self.bi
        mod.__file__ = p
        exec(code, mod.__dict__)


STANDINS = {'numpy': snp.NP, 'numpy.linalg': snp.NPLINALG, 'math': snp.MATH}


def load():
    """A fresh copy of the package, running on symbolic values."""
    import importlib
    for n in list(sys.modules):
        if n == PKG or n.startswith(PKG + '.'):
            del sys.modules[n]
    fnd = Finder(make_builtins())
    for f in list(sys.meta_path):
        if isinstance(f, Finder):
            sys.meta_path.remove(f)
    sys.meta_path.insert(0, fnd)    # stays, for imports inside functions
    return importlib.import_module(PKG)


# -- which functions of the code were executed ------------------------------------------
class Recorder:
    TOOL = 4

    def __init__(self):
        self.seen = set()
        mon = sys.monitoring
        try:
            mon.use_tool_id(self.TOOL, 'verif')
        except ValueError:
            mon.free_tool_id(self.TOOL)
            mon.use_tool_id(self.TOOL, 'verif')
        mon.register_callback(self.TOOL, mon.events.PY_START, self._start)
        mon.set_events(self.TOOL, mon.events.PY_START)

    def _start(self, code, off):
        fn = code.co_filename
        if fn.startswith(SRC) and code.co_name not in ('<module>', '<listcomp>', '<genexpr>', '<lambda>'):
            self.seen.add(os.path.relpath(fn, REPO) + ':' + code.co_qualname)
        return sys.monitoring.DISABLE

    def close(self):
        sys.monitoring.free_tool_id(self.TOOL)
