"""The published definitions of the nine indices, computed from raw samples and labels.

Written once, for any kind of number: `E` supplies min, max, sqrt, exp and pi (the
solver's, or floating point when a counterexample is replayed).  Nothing here is taken
from the code under test.

value(E, name, rows, labels) -> (value, domain): the index is defined where every element
of `domain` is non-zero.
"""

INDICES = ('CH', 'cSIL', 'DB', 'GD43', 'GD53', 'PS', 'rCIP', 'WB', 'XB')


def clusters(rows, labels):
    """Groups in order of first appearance."""
    order, groups = [], {}
    for r, l in zip(rows, labels):
        if l not in groups:
            groups[l] = []
            order.append(l)
        groups[l].append(r)
    return [groups[l] for l in order]


def total(xs):
    xs = list(xs)
    while len(xs) > 64:
        # pairs first: the same sum, in a shallow expression
        xs = [xs[i] + xs[i + 1] if i + 1 < len(xs) else xs[i] for i in range(0, len(xs), 2)]
    t = 0
    for x in xs:
        t = t + x
    return t


def sqd(a, b):
    return total((x - y) * (x - y) for x, y in zip(a, b))


def mean(rows):
    n = len(rows)
    return [total(r[j] for r in rows) / n for j in range(len(rows[0]))]


class Stats:
    """Per-cluster statistics an index is a function of.

    n: sizes, v: centroids, cp: sums of squared distances to the own centroid,
    ss: sums of squared norms, cov: scatter matrices (sum of outer products of deviations)."""

    def __init__(self, n, v, cp, scat=None):
        self.n, self.v, self.cp, self.scat = n, v, cp, scat
        self.k = len(n)
        self.d = len(v[0])
        self.N = total(n)


def stats(rows, labels, scatter=False):
    cl = clusters(rows, labels)
    n = [len(c) for c in cl]
    v = [mean(c) for c in cl]
    cp = [total(sqd(r, m) for r in c) for c, m in zip(cl, v)]
    scat = None
    if scatter:
        d = len(rows[0])
        scat = [[[total((r[a] - m[a]) * (r[b] - m[b]) for r in c) for b in range(d)] for a in range(d)]
                for c, m in zip(cl, v)]
    return Stats(n, v, cp, scat)


def value(E, name, rows, labels):
    return of_stats(E, name, stats(rows, labels, name == 'rCIP'))


def of_stats(E, name, s):
    if s.k < 2:
        return 0.0, []
    return globals()['_' + name](E, s)


def _pairs(s):
    return [(i, j) for i in range(s.k) for j in range(i + 1, s.k)]


def _bgss(s):
    mu = [total(s.n[i] * s.v[i][j] for i in range(s.k)) / s.N for j in range(s.d)]
    return total(s.n[i] * sqd(s.v[i], mu) for i in range(s.k))


def _CH(E, s):
    w = total(s.cp)
    return E.div(_bgss(s) * (s.N - s.k), w * (s.k - 1)), [w]


def _WB(E, s):
    b = _bgss(s)
    return E.div(s.k * total(s.cp), b), [b]


def _XB(E, s):
    m = E.min([sqd(s.v[i], s.v[j]) for i, j in _pairs(s)])
    return E.div(total(s.cp), s.N * m), [sqd(s.v[i], s.v[j]) for i, j in _pairs(s)]


def _DB(E, s):
    t = 0
    for i in range(s.k):
        t = t + E.max([E.div(s.cp[i] / s.n[i] + s.cp[j] / s.n[j], sqd(s.v[i], s.v[j])) for j in range(s.k) if j != i])
    return t / s.k, [sqd(s.v[i], s.v[j]) for i, j in _pairs(s)]


def _intra(E, s):
    m = E.max([s.cp[i] / s.n[i] for i in range(s.k)])
    return 2 * m, [m]


def _GD43(E, s):
    den, dom = _intra(E, s)
    return E.div(E.min([E.sqrt(sqd(s.v[i], s.v[j])) for i, j in _pairs(s)]), den), dom


def _GD53(E, s):
    den, dom = _intra(E, s)
    return E.div(E.min([(s.cp[i] + s.cp[j]) / (s.n[i] + s.n[j]) for i, j in _pairs(s)]), den), dom


def _cSIL(E, s):
    t, dom = 0, []
    for i in range(s.k):
        a = s.cp[i] / s.n[i]
        # mean squared distance of cluster j's samples to centroid i
        b = E.min([s.cp[j] / s.n[j] + sqd(s.v[i], s.v[j]) for j in range(s.k) if j != i])
        m = E.max([a, b])
        dom.append(m)
        t = t + E.div(b - a, m)
    return t / s.k, dom


def _PS(E, s):
    vbar = [total(s.v[i][j] for i in range(s.k)) / s.k for j in range(s.d)]
    beta = total(sqd(s.v[i], vbar) for i in range(s.k)) / s.k
    nmax = E.max(list(s.n))
    t = 0
    for i in range(s.k):
        m = E.min([sqd(s.v[i], s.v[j]) for j in range(s.k) if j != i])
        t = t + s.n[i] / nmax - E.exp(E.div(-m, beta))
    return t, [beta]


def zero(x):
    """x is the constant 0."""
    if isinstance(x, (int, float)):
        return x == 0
    c = getattr(x, 'cf', None)
    return c is not None and c == 0


def minors(M):
    """Determinants of the square parts of M: f(rows, columns)."""
    memo = {}

    def f(rows, cols):
        if not rows:
            return 1.0
        if len(rows) == 1:
            return M[rows[0]][cols[0]]
        if (rows, cols) not in memo:
            # expand along the row with the fewest entries
            i = min(range(len(rows)), key=lambda i: sum(not zero(M[rows[i]][c]) for c in cols))
            rest, t = rows[:i] + rows[i + 1:], 0.0
            for j, c in enumerate(cols):
                e = M[rows[i]][c]
                if not zero(e):
                    m = f(rest, cols[:j] + cols[j + 1:])
                    if not zero(m):
                        t = t + e * m if (i + j) % 2 == 0 else t - e * m
            memo[rows, cols] = t
        return memo[rows, cols]
    return f


def det(M):
    r = tuple(range(len(M)))
    return minors(M)(r, r)


def adj_form(M, u):
    """u' adj(M) u"""
    n = len(M)
    r = tuple(range(n))
    f = minors(M)
    t = 0
    for i in range(n):
        for j in range(n):
            if zero(u[i]) or zero(u[j]):
                continue
            x = f(r[:j] + r[j + 1:], r[:i] + r[i + 1:]) * u[i] * u[j]
            t = t + x if (i + j) % 2 == 0 else t - x
    return t


def cov(E, s, i):
    delta = 10.0 ** (-12.0 / s.d)
    out = []
    for a in range(s.d):
        row = []
        for b in range(s.d):
            x = E.cov_entry(s, i, a, b)
            row.append(x + delta if a == b else x)
        out.append(row)
    return out


def _rCIP(E, s):
    c = E.sqrt((2 * E.pi) ** s.d)
    sig = [cov(E, s, i) for i in range(s.k)]
    t, dom = 0, []
    for i, j in _pairs(s):
        S = [[sig[i][a][b] + sig[j][a][b] for b in range(s.d)] for a in range(s.d)]
        u = [x - y for x, y in zip(s.v[i], s.v[j])]
        D = det(S)
        dom.append(D)
        t = t + E.div(E.exp(-E.div(adj_form(S, u), D) / 2), c * E.sqrt(D))
    return t, dom
