#!/usr/bin/env python3-vt
"""Compares the symbolic numpy with the real one, expression by expression, at the points of each path."""
import os, sys, warnings
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
warnings.simplefilter('ignore')
import numpy as rnp, math as rmath, ast
from engine import sym, snp, loader
rnp.seterr(all='ignore')
EXPR = r'''
np.r_[A, v.reshape(1, -1)]
np.r_[v, 0.0]
np.r_[0.0, v, w]
np.c_[v, w]
np.c_[A, v]
np.r_[0:3, v]
np.append(v, 3.0)
np.append(A, [v], axis=0)
np.insert(v, 1, 2.0)
np.insert(A, 1, v, axis=0)
np.insert(A, 2, 0, axis=1)
np.delete(A, 1, axis=0)
np.delete(A, [0, 2], axis=1)
np.delete(v, 0)
np.block([[A, v[:, None]], [v[None, :], np.zeros((1, 1))]])
np.pad(A, ((0, 1), (0, 1)))
np.pad(v, (0, 1), constant_values=0.0)
np.concatenate([v, [0.0]])
np.concatenate((A, v[None]), axis=0)
np.hstack([v, w])
np.vstack((A, v))
np.column_stack([A, v])
np.stack([v, w], axis=1)
np.dstack((A, B))
np.tile(v, (2, 1))
np.repeat(A, 2, axis=0)
np.repeat(v, [1, 2, 0])
np.outer(v, w)
np.multiply.outer(v, w)
np.subtract.outer(v, w)
np.add.reduce(A)
np.add.reduce(A, axis=1)
np.maximum.reduce(A, axis=1)
np.minimum.reduce(v)
np.multiply.reduce(v)
np.logical_or.reduce([v > 0, w > 0])
np.inner(A, B)
np.dot(A, v)
np.vdot(v, w)
A @ v @ w
v @ A @ w
np.matmul(A, B)
np.einsum('i,i', v, w)
np.einsum('ij,ij->i', A, B)
np.einsum('ij,jk,ik->', A, B, A)
np.einsum('ijk,ijk->ij', A[:, None, :] - B[None], A[:, None, :] - B[None])
np.tensordot(A, B, axes=1)
np.tensordot(v, w, axes=([0], [0]))
np.linalg.multi_dot([v, A, w])
np.kron(v, w)
np.trace(A)
A.trace()
np.diag(A)
np.diag(v)
np.diagonal(A)
A.diagonal()
np.triu(A, 1)
np.tril(A)
A[np.triu_indices(3, k=1)]
A[np.triu_indices_from(A, k=1)]
A[~np.eye(3, dtype=bool)]
A[np.triu(np.ones((3, 3), bool), 1)]
A[np.ix_([0, 2], [1, 2])]
np.sum(A, axis=0)
np.sum(A ** 2, axis=1, keepdims=True)
A.sum(axis=-1)
A.sum()
np.mean(A, axis=0)
A.mean()
np.average(A, axis=0, weights=[1, 2, 3])
np.average(v, weights=np.array([1, 2, 3]))
np.var(A, axis=0)
np.var(A, axis=0, ddof=1)
np.std(v)
A.var()
np.cov(A, rowvar=False)
np.cov(A.T, ddof=1)
np.cov(A, rowvar=False, bias=True)
np.cov(v)
np.atleast_2d(np.cov(A[:, :1], rowvar=False))
np.max(A, axis=0)
np.min(A)
A.max(axis=1)
A.min()
np.amax(v)
np.maximum(v, w)
np.minimum(v, 0.0)
np.fmax(v, w)
np.nanmin(A, axis=1)
np.nanmin(np.where(np.eye(3, dtype=bool), np.nan, A[:3, :3]), axis=1)
np.nansum(np.where(np.eye(3, dtype=bool), np.nan, A[:3, :3]), axis=1)
np.min(A[:3, :3], where=~np.tri(3, dtype=bool), initial=np.inf)
np.sum(A[:3, :3], where=~np.eye(3, dtype=bool), axis=0)
np.mean(A[:3, :3], where=~np.eye(3, dtype=bool), axis=0)
np.nanmax(v)
np.nansum(A)
np.ptp(v)
np.argmin(v)
np.argmax(A, axis=1)
A.argmin(axis=0)
v.argmax()
np.sort(v)
np.argsort(v)
sorted(v)
sorted(v, reverse=True)
np.partition(v, 0)[0]
np.median(v)
np.cumsum(v)
np.cumprod(v)
np.diff(v)
np.prod(v)
v.prod()
np.where(v > w, v, w)
np.where(v > 0)[0]
np.where(A > 0, A, np.inf).min()
np.nonzero(v > 0)[0]
np.flatnonzero(v > w)
np.argwhere(v > 0)
np.count_nonzero(v > 0)
np.any(v > 1)
np.all(v > 0)
(v > 0).any()
(A > 0).all(axis=1)
np.clip(v, -1, 1)
np.abs(v)
abs(v)
np.sign(v)
np.square(v)
np.sqrt(v * v)
np.power(v, 2)
np.float_power(v, 2)
v ** 3
v ** 0.5 if v[0] > 0 and v[1] > 0 and v[2] > 0 else v
np.exp(v)
np.log(np.exp(v))
np.exp(-v).sum()
np.hypot(v, w)
np.reciprocal(v)
np.negative(v)
np.divide(v, w)
np.true_divide(v, 2)
np.divide(v, w, out=np.zeros_like(v), where=w != 0)
np.divide(v, n)
np.subtract(A, v)
np.add(v, 1)
np.linalg.norm(v)
np.linalg.norm(A, axis=1)
np.linalg.norm(A - B) ** 2
np.linalg.norm(A[:, None] - B[None], axis=-1)
np.linalg.norm(v, ord=2)
np.linalg.norm(v, 1)
np.linalg.norm(v, np.inf)
np.linalg.det(P)
np.linalg.inv(P)
np.linalg.pinv(P)
np.linalg.solve(P, v)
np.linalg.solve(P, A)
np.linalg.slogdet(P)[1]
np.linalg.slogdet(P)[0]
np.linalg.cholesky(P)
np.linalg.matrix_power(P, 2)
np.linalg.det(P[:2, :2])
np.log(np.linalg.det(P))
np.unique(n)
np.unique(n, return_inverse=True)[1]
np.unique(n, return_counts=True)[1]
np.unique([3, 1, 1])
np.bincount(np.array([0, 1, 1]), weights=v)
np.bincount(np.array([0, 1, 1]))
np.histogram(n, bins=[0, 2, 5])[0]
np.searchsorted(np.array([1, 2, 3]), 2)
np.isclose(v, w)
np.allclose(v, v)
np.array_equal(v, v)
np.array_equal(v, w)
np.isnan(v).any()
np.isfinite(v).all()
np.isin(n, [1, 2])
np.nan_to_num(v)
np.round(v, 2) * 0 + v
np.ravel(A)
A.ravel()
A.flatten()
A.reshape(-1)
A.T
np.transpose(A)
np.swapaxes(A, 0, 1)
np.moveaxis(A, 0, 1)
np.expand_dims(v, 0)
v[np.newaxis]
v[None, :] - w[:, None]
np.squeeze(A[:1])
np.flip(v)
v[::-1]
np.roll(v, 1)
np.take(v, [0, 2])
v.take([1, 1])
np.take_along_axis(A, np.argsort(A, axis=1), axis=1)
np.choose([0, 1, 0], [v, w])
np.select([v > 0, v < 0], [v, -v])
np.full(3, v[0])
np.full((2, 2), np.inf)
np.full_like(A, v[0])
np.zeros_like(A)
np.ones_like(v)
np.empty((0, 3)).shape
np.broadcast_to(v, (2, 3))
np.atleast_1d(v[0])
np.atleast_2d(v)
np.array([v, w])
np.array([x * 2 for x in v])
np.array([x ** 2 for x in A]).sum()
np.asarray(list(v))
np.fromiter((x for x in v), dtype=float)
np.fromiter((x for x in v), float, count=3)
np.array(list(map(lambda t: t * 2, v)))
np.apply_along_axis(np.sum, 1, A)
np.apply_along_axis(lambda r: r @ r, 0, A)
np.vectorize(lambda a, b: a * b)(v, w)
np.add.at(z := np.zeros(3), [0, 1, 1], v) or z
np.subtract.at(z := np.zeros(3), np.array([0, 1, 1]), v) or z
np.put(z := np.zeros(3), [0, 2], v[:2]) or z
np.copyto(z := np.zeros(3), v) or z
np.fill_diagonal(z := A.copy(), np.inf) or z.min()
np.fill_diagonal(z := A.copy(), v) or z
np.array_split(v, 2)[0]
np.split(v, [1])[1]
np.vsplit(A, [1])[1]
np.meshgrid(v, w)[0]
np.ndindex(2, 2)
list(np.ndenumerate(v))
[a for a, in zip(v)]
sum(v)
max(v)
min(v)
max(v, key=lambda t: -t)
min(range(3), key=lambda i: v[i])
max(v[0], w[0], 0.0)
min(v.tolist())
sum(A ** 2)
sum(x * y for x, y in zip(v, w))
math.sqrt(v[0] ** 2)
math.exp(v[0])
math.fsum(v)
math.hypot(v[0], v[1])
math.dist(v, w)
math.prod(v)
math.isclose(v[0], v[0])
math.pow(v[0], 2)
math.log(v[0] ** 2 + 1)
math.sumprod(v, w)
float(v[0])
float(np.sum(v))
float(A.max())
int(n[0])
bool(v[0] > 0)
v[0].item()
v.item(0)
v.tolist()
A.tolist()
v.copy()
v.astype(float)
v.astype(np.float64, copy=False)
n.astype(float)
n.astype(float) / n.sum()
n / n.sum()
n.max()
max(n)
np.max(n)
np.sum(n)
n @ v
n * v
v / n
v * n[:, None]
n[:, None] * A
np.dot(n, v)
round(float(v[0]), 1) * 0
divmod(n[0], 2)
n[0] // 2
n[0] % 2
n % 2 == 0
v[n[0] % 3]
(v > 0) & (w > 0)
(v > 0) | ~(w > 0)
np.logical_and(v > 0, w > 0)
np.logical_not(v > 0)
np.logical_xor(v > 0, w > 0)
np.sum(v > 0)
(v > 0).sum()
np.mean(v > 0)
(v > 0) * 1.0
(v > 0).astype(int)
v[v > 0]
A[v > 0]
A[:, v > 0]
A[v > 0].mean(axis=0) if v[0] > 0 else 0
A[[True, False, True]]
A[[0, 2]]
A[(0, 1)]
A[..., 0]
A[-1]
A[1:, :2]
A.shape
A.size
A.ndim
len(A)
A.dtype.kind
A.nbytes
v.dtype == float
v.dtype == np.float64
np.issubdtype(v.dtype, np.floating)
np.shape(A)
np.ndim(v)
np.size(v)
np.isscalar(v[0])
isinstance(v, np.ndarray)
isinstance(v[0], float)
isinstance(n[0], np.integer)
type(v) is np.ndarray
np.may_share_memory(v, v)
np.shares_memory(v, w)
functools.reduce(lambda a, b: a + b, v)
functools.reduce(np.add, A)
functools.reduce(operator.mul, v)
list(itertools.accumulate(v))
[A[i, j] for i, j in itertools.combinations(range(3), 2)]
min(A[i, j] for i, j in itertools.combinations(range(3), 2))
np.min([A[i, j] for i, j in itertools.combinations(range(3), 2)])
collections.Counter([1, 1, 2])[1]
operator.itemgetter(0)(v)
copy.deepcopy(A)
copy.copy(v)
next(x for x in v if x == x)
np.ma.masked_array(A, mask=np.eye(3, dtype=bool)).min()
np.linalg.eigvalsh(P).sum()
np.real(v)
np.heaviside(v, 0.5)
np.interp(0.5, [0, 1], v[:2])
np.trapezoid(v)
np.gradient(v)
np.lexsort((v, w))
np.digitize(n, [0, 2])
np.ediff1d(v)
np.argpartition(v, 0)[0]
np.quantile(v, 0.5)
np.count_nonzero(A)
A.any()
A.all()
np.mean(A, axis=0, keepdims=True)
np.sum([v, w], axis=0)
np.sum(x for x in [v, w]) if 0 else 0
np.add(v, w, out=np.empty(3))
np.expm1(v)
np.log1p(v * v)
np.tril_indices(3)
A[np.arange(3), [0, 1, 2]]
np.asarray(v)[:, None].T
np.asfortranarray(A)
np.ascontiguousarray(A.T)
np.require(v, dtype=float)
np.array(v, dtype=float, copy=True, order='C')
np.array(v, ndmin=2)
np.asarray([v[0], 1, 2.5])
np.zeros(3) + v
np.eye(3) * v[0]
np.identity(3) @ v
np.ones((3, 1)) * v
np.linspace(0, 1, 3) * v
np.arange(3) * v
np.float64(v[0])
np.linalg.norm(v) ** 2
np.linalg.norm(A, ord='fro')
np.linalg.norm(A)
np.sqrt(np.sum((v - w) ** 2))
np.square(v - w).sum()
((v - w) ** 2).sum()
(v - w).dot(v - w)
v.dot(w)
v.__matmul__(w)
np.mean([v, w], axis=0)
np.mean((v, w))
np.linalg.vector_norm(v)
np.linalg.vecdot(v, w)
np.vecdot(v, w)
np.linalg.matrix_norm(A)
np.linalg.trace(A)
np.linalg.diagonal(A)
np.linalg.outer(v, w)
np.cross(v, w)
np.permute_dims(A, (1, 0))
np.concat([v, w])
np.matrix_transpose(A)
np.unique_values(n)
np.unique_inverse(n)[1]
np.unique_counts(n)[1]
np.astype(n, float)
np.cumulative_sum(v)
np.pow(v, 2)
np.isdtype(v.dtype, 'real floating')
np.nanmean(v)
np.resize(v, 4)
list(map(float, v))
np.exp(-0.5 * np.linalg.slogdet(P)[1])
np.exp(-0.5 * (v[0] + np.log(P[0, 0])))
np.exp(-0.5 * (3 * np.log(2 * np.pi) + np.linalg.slogdet(P)[1] + v @ np.linalg.solve(P, v)))
2.0 ** -0.5 * v
np.linalg.det(P) ** -0.5
pow(v[0], 2)
math.log(2.0) * v
np.log(2e-12)
P[0, 0] ** 1.5
'''
import functools, itertools, collections, operator, copy
BI = loader.make_builtins()
import random


def run(src):
    c = sym.set_ctx(sym.Ctx(seed=3, feas_ms=800, prove_ms=4000))
    bad = []
    tree = ast.fix_missing_locations(loader.Rewrite().visit(ast.parse(src, mode='eval')))
    code = compile(tree, 'x', 'eval')
    npaths = [0]

    def mk(shape, nm, **k):
        a = rnp.empty(shape, dtype=object)
        for i in rnp.ndindex(*shape):
            a[i] = c.var(nm + '_'.join(map(str, i)), **k)
        return a

    def vals(a, p):
        if isinstance(a, (list, tuple)):
            return [vals(x, p) for x in a]
        if isinstance(a, snp.SArr):
            a = a.view(rnp.ndarray)
        if isinstance(a, rnp.ndarray):
            return [vals(x, p) for x in a] if a.ndim else vals(a[()], p)
        return a.sh[p] if isinstance(a, (sym.Sym, sym.SymBool)) else a

    def flat(x):
        x = vals(x, 0) if not isinstance(x, (list, tuple, rnp.ndarray)) else x
        return rnp.array(x, dtype=float)

    def one():
        env = dict(A=mk((3, 3), 'A'), B=mk((3, 3), 'B'), v=mk((3,), 'v'), w=mk((3,), 'w'))
        env = {k: snp.wrap(x, snp.F8) for k, x in env.items()}
        env['P'] = env['A'] @ env['A'].T + snp.to_sarr(rnp.eye(3))
        env['n'] = rnp.array([1, 2, 2])
        mods = dict(functools=functools, itertools=itertools, collections=collections, operator=operator, copy=copy)
        r = eval(code, dict(env, np=snp.NP, math=snp.MATH, __builtins__=BI, **mods))
        npaths[0] += 1
        alive = [p for p in range(sym.NPTS) if c.alive[p]]
        if not alive:
            return
        p = alive[0]
        cenv = {k: rnp.array(vals(x, p), dtype=float) if k != 'n' else x for k, x in env.items()}
        want = eval(src, dict(cenv, np=rnp, math=rmath, **mods))
        try:
            g, q = rnp.array(vals(r, p), dtype=float), rnp.array(want, dtype=float)
        except (TypeError, ValueError):
            if str(r) != str(want) and not (r == want):
                bad.append(f'{r!r} != {want!r}')
            return
        if g.shape != q.shape or not rnp.allclose(g, q, rtol=1e-6, atol=1e-9, equal_nan=True):
            bad.append(f'{g} != {q}')
    try:
        done = c.paths(one, 30)
    except BaseException as ex:
        return f'{type(ex).__name__}: {str(ex)[:150]}'
    return bad[0] if bad else ('ok' if done else 'ok (cut)')


only = sys.argv[1:]
ok = 0
for s in EXPR.strip().splitlines():
    if only and not any(o in s for o in only):
        continue
    t = run(s)
    if t.startswith('ok'):
        ok += 1
    else:
        print(f'{s:60s} {t}')
print(ok, 'agree')
