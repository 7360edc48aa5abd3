"""Harnesses: what is run and what must hold.  Each is interpreted twice, over solver
variables (senv.py) and over floating-point inputs on the untouched code (conc.py)."""
import random

from . import oracle

HARNESS = {}
ALL = oracle.INDICES


def harness(f):
    HARNESS[f.__name__] = f
    return f


# -- building blocks ---------------------------------------------------------------------
def data(E, n, d, free=None, same=None, tag='x', dims=None, sparse=False):
    """n samples of dimension d.

    free: the samples that are symbolic (all, if not given); the rest are fixed small
    numbers; so are their features outside dims, if given (zero, if sparse).  same: maps a sample to an earlier one it coincides with."""
    rng = random.Random(f'{n}|{d}|{tag}')
    same = {int(k): v for k, v in (same or {}).items()}
    rows = []
    # no two alike, where there can be many clusters
    pool = rng.sample(range(-6 * n, 6 * n), n) if 10 <= n <= 400 and E.unit == 1.0 else None
    for i in range(n):
        const = [E.const((rng.randint(-12, 12) if j or not pool else pool[i]) * 0.5 * E.unit) for j in range(d)]
        if sparse:
            const = [x if j in dims else E.const(0.0) for j, x in enumerate(const)]
        if i in same:
            rows.append(list(rows[same[i]]))
        elif free is None or i in free:
            rows.append([E.real(f'{tag}{i}_{j}') if dims is None or j in dims else const[j] for j in range(d)])
        else:
            rows.append(const)
    return rows


def laid(E, rows, layout):
    """The same array, lying differently in memory: 'F', a strided 'view' of a larger array, or 'rev'ersed."""
    if layout is None:
        return E.mat(rows)
    if layout == 'F':
        return E.fortran(E.mat(rows))
    if layout == 'view':
        return E.inside(rows)[1]
    return E.mat([r[::-1] for r in rows[::-1]])[::-1, ::-1]


def feed(E, tag, obj, row, label, layout=None):
    if layout is None:
        x = E.vec(row)
    elif layout == 'rev':
        x = E.vec(row[::-1])[::-1]
    else:
        x = E.mat([[a, 7.0] for a in row])[:, 0]
    return E.ok(tag, E.call(obj.get_cvi, x, label))


def stream(E, tag, name, rows, labels):
    o = E.new(name)
    v = None
    for r, l in zip(rows, labels):
        v = feed(E, tag, o, r, l)
    return v


def batch(E, tag, name, rows, labels, layout=None):
    L = E.ints(labels) if layout is None else E.ints([x for l in labels for x in (l, 99)])[::2]
    return E.ok(tag, E.call(E.new(name).get_cvi, laid(E, rows, layout), L))


def run(E, tag, mode, name, rows, labels):
    return (stream if mode == 'inc' else batch)(E, f'{tag} {mode}', name, rows, labels)


def nclusters(labels):
    return len(set(labels))


def canonical(labels):
    """Labels renamed 0, 1, ... by first appearance."""
    m = {}
    out = []
    for l in labels:
        if l not in m:
            m[l] = len(m)
        out.append(m[l])
    return out


# -- C01 -----------------------------------------------------------------------------------
@harness
def inc_vs_batch(E, name, labels, d, last=None, free=None, same=None, dims=None, sparse=False, layout=None):
    """Streaming equals batch on the same prefix."""
    rows = data(E, len(labels), d, free, same, dims=dims, sparse=sparse)
    o = E.new(name)
    for t in range(1, len(labels) + 1):
        skip = nclusters(labels[:t]) < 2 or (last is not None and len(labels) - t >= last)
        if not skip:
            _, dom = oracle.value(E, name, rows[:t], labels[:t])
        v = feed(E, 'inc', o, rows[t - 1], labels[t - 1], layout)
        if skip:
            continue
        w = batch(E, 'batch', name, rows[:t], labels[:t], layout)
        E.eq(f'{name} after {t}', v, w, dom)


# -- C02 - C05 -----------------------------------------------------------------------------
@harness
def definition(E, name, mode, labels, d, last=None, free=None, same=None, dims=None, sparse=False, layout=None):
    """The value is the index's definition, on every prefix."""
    rows = data(E, len(labels), d, free, same, dims=dims, sparse=sparse)
    if mode == 'batch':
        w, dom = oracle.value(E, name, rows, labels)
        E.eq(f'{name} batch', batch(E, 'batch', name, rows, labels, layout), w, dom)
        return
    o = E.new(name)
    for t in range(1, len(labels) + 1):
        skip = last is not None and len(labels) - t >= last
        if not skip:
            w, dom = oracle.value(E, name, rows[:t], labels[:t])
        v = feed(E, 'inc', o, rows[t - 1], labels[t - 1], layout)
        if skip:
            continue
        E.eq(f'{name} after {t}', v, w, dom)
        E.eq(f'{name} attribute after {t}', o.criterion_value, v, dom)


# -- C07 -----------------------------------------------------------------------------------
@harness
def label_names(E, name, mode, n, d, lo=None, hi=None, dt=None, pattern=None, free=None, last=None, dts=None):
    """Only which samples share a label matters, not what the labels are called.

    dts: the types of the labels of one stream, if they vary."""
    rows = data(E, n, d, free)
    E.watch_ints()
    if pattern is None:
        labels = [E.int(f'l{i}', lo, hi, dt) for i in range(n)]
    else:
        # with many clusters, most names are fixed
        k = max(pattern) + 1
        some = range(k) if k < 30 else (0, k - 3, k - 1) if k < 60 else (0,)
        names = [E.int(f'l{i}', lo, hi, dt) if i in some else E.fixed(7 * i + lo // 2, dt) for i in range(k)]
        for i in range(k):
            for j in range(i):
                if i in some or j in some:
                    E.assume(names[i] != names[j])
        labels = [names[p] for p in pattern]
    canon = canonical(labels) if pattern is None else canonical(pattern)
    if mode == 'batch':
        if nclusters(canon) < 2:
            return
        _, dom = oracle.value(E, name, rows, canon)
        o = E.new(name)
        v = E.ok('batch', E.call(o.get_cvi, E.mat(rows), E.ints(labels, dt)))
        E.eq(f'{name} batch', v, batch(E, 'canonical', name, rows, canon), dom)
        E.no_overflow(f'{name} labels', [])
        return
    o, p = E.new(name), E.new(name)
    for t in range(n):
        v = feed(E, 'inc', o, rows[t], E.label(labels[t], dts[t % len(dts)] if dts else dt))
        w = feed(E, 'canonical', p, rows[t], canon[t])
        if last is not None and n - t > last:
            continue
        _, dom = oracle.value(E, name, rows[:t + 1], canon[:t + 1])
        E.eq(f'{name} after {t + 1}', v, w, dom)
    E.no_overflow(f'{name} labels', [])


@harness
def renamed(E, name, mode, labels, names, d, free=None):
    """The same samples under other names of the clusters (given ones: many clusters in any order)."""
    rows = data(E, len(labels), d, free)
    _, dom = oracle.value(E, name, rows, labels)
    a = run(E, 'given names', mode, name, rows, labels)
    b = run(E, 'renamed', mode, name, rows, [names[l] for l in labels])
    E.eq(f'{name} {mode} renamed', b, a, dom)


# -- C08 -----------------------------------------------------------------------------------
@harness
def order(E, name, mode, labels, d, perm, free=None):
    """The order of the samples does not matter."""
    rows = data(E, len(labels), d, free)
    _, dom = oracle.value(E, name, rows, labels)
    a = run(E, 'given order', mode, name, rows, labels)
    b = run(E, 'reordered', mode, name, [rows[i] for i in perm], [labels[i] for i in perm])
    E.eq(f'{name} {mode} reordered', b, a, dom)


# -- C09 -----------------------------------------------------------------------------------
@harness
def geometry(E, name, mode, labels, d, kind, free=None):
    """Translation, feature order, mirroring, rotation and scale."""
    rows = data(E, len(labels), d, free)
    expect = 1
    if kind == 'translate':
        t = [E.real(f't{j}') for j in range(d)]
        new = [[x + y for x, y in zip(r, t)] for r in rows]
    elif kind == 'features':
        new = [list(r[1:]) + [r[0]] for r in rows]
    elif kind == 'swap':
        new = [[r[1], r[0]] + list(r[2:]) for r in rows]
    elif kind == 'mirror':
        new = [[-r[0]] + list(r[1:]) for r in rows]
    elif kind == 'rotate':
        # rational parametrisation of the circle: c = (1 - u^2) / (1 + u^2), s = 2u / (1 + u^2)
        u = E.real('u', lo=-1, hi=1)
        w = 1 + u * u
        c, s = (1 - u * u) / w, 2 * u / w
        new = [[c * r[0] - s * r[1], s * r[0] + c * r[1]] + list(r[2:]) for r in rows]
    elif kind == 'turn':
        # the same in the plane of the first and the last feature
        u = E.real('u', lo=-1, hi=1)
        w = 1 + u * u
        c, s = (1 - u * u) / w, 2 * u / w
        new = [[c * r[0] - s * r[-1]] + list(r[1:-1]) + [s * r[0] + c * r[-1]] for r in rows]
    elif kind == 'scale':
        f = E.real('f', pos=True)
        E.scales(f, f * f)
        new = [[x * f for x in r] for r in rows]
        if name == 'GD43':
            expect = f
    else:
        raise KeyError(kind)
    _, dom = oracle.value(E, name, rows, labels)
    a = run(E, 'given', mode, name, rows, labels)
    b = run(E, kind, mode, name, new, labels)
    E.eq(f'{name} {mode} {kind}', b * expect, a, dom)


# -- C10 -----------------------------------------------------------------------------------
@harness
def ranges(E, name, mode, labels, d, same=None, free=None, last=None, dims=None):
    """The value is a single number in the index's range; one cluster gives 0."""
    rows = data(E, len(labels), d, free, same, dims=dims)
    if mode == 'batch':
        o = E.new(name)
        v = E.ok('batch', E.call(o.get_cvi, E.mat(rows), E.ints(labels)))
        _check_range(E, name, o, v, rows, labels)
        return
    o = E.new(name)
    for t in range(1, len(labels) + 1):
        v = feed(E, 'inc', o, rows[t - 1], labels[t - 1])
        if nclusters(labels[:t]) == 1:
            E.eq(f'{name} one cluster', v, 0.0)
            continue
        if last is not None and len(labels) - t >= last:
            continue
        _check_range(E, name, o, v, rows[:t], labels[:t])


def _check_range(E, name, o, v, rows, labels):
    s = oracle.stats(rows, labels, name == 'rCIP')
    w, dom = oracle.of_stats(E, name, s)
    k = s.k
    if name in ('CH', 'DB', 'GD43', 'WB', 'XB', 'rCIP'):
        E.within(f'{name} >= 0', v, w, [], 0.0, None, dom)
    elif name == 'cSIL':
        # each silhouette is (b - a) / max(a, b)
        lem, t = [], 0
        for i in range(k):
            a = E.name(s.cp[i] / s.n[i])
            b = E.min([s.cp[j] / s.n[j] + oracle.sqd(s.v[i], s.v[j]) for j in range(k) if j != i])
            m = E.max([a, b])
            lem += [(b - a, m), (a - b, m)]
            t = t + E.div(b - a, m)
        E.within('cSIL in [-1, 1]', v, t / k, lem, -1.0, 1.0, dom)
    elif name == 'PS':
        # every term is n_i / n_max - exp(-something >= 0)
        lo = oracle.total(x / max(s.n) for x in s.n) - k
        E.le('PS <= k', v, float(k), dom)
        E.le('PS lower bound', lo, v, dom)
    elif name == 'GD53':
        # the pooled scatter of two clusters never exceeds the larger of their own
        a = [E.name(s.cp[i] / s.n[i]) for i in range(k)]
        m = E.max(a)
        num = E.min([(s.n[i] * a[i] + s.n[j] * a[j]) / (s.n[i] + s.n[j]) for i in range(k) for j in range(i)])
        E.within('GD53 in [0, 1/2]', v, E.div(num, 2 * m), [(num, m), (0.0, num)], 0.0, 0.5, dom)


# -- C11 -----------------------------------------------------------------------------------
def labelling(E, pattern, tag='l', dt=None):
    """Any distinct integers for the clusters of the pattern."""
    k = max(pattern) + 1
    lo, hi = (-2 ** 62, 2 ** 62) if dt is None else RANGES[dt]
    names = [E.int(f'{tag}{i}', lo, hi, dt) for i in range(k)]
    for i in range(k):
        for j in range(i):
            E.assume(names[i] != names[j])
    return [names[p] for p in pattern]


RANGES = {'int8': (-128, 127), 'int16': (-2 ** 15, 2 ** 15 - 1), 'int32': (-2 ** 31, 2 ** 31 - 1), 'uint8': (0, 255)}


@harness
def aliasing(E, name, mode, labels, d, keep=False, free=None, last=None, layout='C', named=True, dt=None):
    """The caller's arrays are neither changed nor remembered.

    layout: how the caller's arrays lie in memory ('C', 'F', a 'view' of a larger array)."""
    rows = data(E, len(labels), d, free)
    real = labelling(E, labels, dt=dt) if named else labels
    if mode == 'batch':
        X, L = E.mat(rows), E.ints(real, dt)
        if layout == 'F':
            X = E.fortran(X)
        big = None
        if layout == 'view':
            big, X = E.inside(rows)
        o = E.new(name)
        v = E.ok('batch', E.call(o.get_cvi, X, L))
        E.same('batch data', X, rows)
        E.same('batch labels', L, real)
        if big is not None:
            E.same('array around the data', big[:, d:], [[7.0]] * (2 * len(rows)))
        _, dom = oracle.value(E, name, rows, labels)
        E.havoc(X, 'h')
        E.havoc(L, 'g')
        E.eq(f'{name} attribute after the data were overwritten', o.criterion_value, v, dom)
        E.eq(f'{name} batch', v, oracle.value(E, name, rows, labels)[0], dom)
        return
    o, p = E.new(name), E.new(name)
    buf = E.vec(rows[0])
    got = []
    for t in range(len(labels)):
        if t:
            for j in range(d):
                buf[j] = rows[t][j]
        v = E.ok('inc', E.call(o.get_cvi, buf, real[t]))
        E.same('sample', buf, rows[t])
        w = feed(E, 'fresh arrays', p, rows[t], labels[t])
        if last is None or len(labels) - t <= last:
            _, dom = oracle.value(E, name, rows[:t + 1], labels[:t + 1])
            E.eq(f'{name} with a reused buffer, after {t + 1}', v, w, dom)
        if last is None or len(labels) - t <= last or t < 2:
            E.havoc(buf, f'h{t}_')
        if last is None or len(labels) - t <= last:
            E.eq(f'{name} attribute after the buffer was overwritten', o.criterion_value, w, dom)
            got.append((v, oracle.value(E, name, rows[:t + 1], labels[:t + 1])))
    for v, (w, dom) in got:
        E.eq(f'{name} value returned earlier', v, w, dom)


@harness
def untouched_array(E, name, labels, d, free=None, last=2):
    """Samples taken as rows of one array, which stays as it was."""
    rows = data(E, len(labels), d, free)
    real = labelling(E, labels)
    X = E.mat(rows)
    o = E.new(name)
    for t in range(len(labels)):
        v = E.ok('inc', E.call(o.get_cvi, X[t], real[t]))
    E.same('array of the samples', X, rows)
    w, dom = oracle.value(E, name, rows, labels)
    E.eq(f'{name} of rows', v, w, dom)


# -- C12 -----------------------------------------------------------------------------------
@harness
def independent(E, names, labels, d, late=False, mode='inc', d2=None, named=False):
    """Objects do not influence each other, whatever the interleaving of their calls."""
    n = len(labels)
    A, B = data(E, n, d, tag='x'), data(E, n, d2 or d, tag='y')
    LB = [l for l in reversed(labels)]
    RA, RB = (labelling(E, labels, 'a'), labelling(E, LB, 'b')) if named else (labels, LB)
    oa = E.new(names[0])
    ob = None if late else E.new(names[1])
    ia = ib = 0
    if mode == 'batch':
        va = E.ok('first', E.call(oa.get_cvi, E.mat(A), E.ints(RA)))
        ob = ob or E.new(names[1])
        vb = E.ok('second', E.call(ob.get_cvi, E.mat(B), E.ints(RB)))
        _, da = oracle.value(E, names[0], A, labels)
        _, db = oracle.value(E, names[1], B, LB)
        E.eq('first object', va, oracle.value(E, names[0], A, labels)[0], da)
        E.eq('first object, attribute', oa.criterion_value, oracle.value(E, names[0], A, labels)[0], da)
        E.eq('second object', vb, oracle.value(E, names[1], B, LB)[0], db)
        return
    va = vb = None
    step = 0
    while ia < n or ib < n:
        if ia < n and (ib >= n or E.bool(f's{step}')):
            va = feed(E, 'first', oa, A[ia], RA[ia])
            ia += 1
        else:
            if ob is None:
                ob = E.new(names[1])
            vb = feed(E, 'second', ob, B[ib], RB[ib])
            ib += 1
        step += 1
    for v, o, nm, R, L in ((va, oa, names[0], A, labels), (vb, ob, names[1], B, LB)):
        w, dom = oracle.value(E, nm, R, L)
        E.eq(f'{nm} interleaved', v, w, dom)
        E.eq(f'{nm} attribute', o.criterion_value, w, dom)


@harness
def aftermath(E, names, before, bmode, labels, d, db):
    """An object is not influenced by another that was used before, or between its calls.

    before, bmode, db: labels, mode and features of the other one."""
    B = data(E, len(before), db, free=[0], tag='y')
    A = data(E, len(labels), d, tag='x')
    first = E.new(names[0])
    v = feed(E, 'early', first, A[0], labels[0])
    if bmode == 'batch':
        batch(E, 'other', names[1], B, before)
    else:
        stream(E, 'other', names[1], B, before)
    for t in range(1, len(labels)):
        v = feed(E, 'early', first, A[t], labels[t])
    w, dom = oracle.value(E, names[0], A, labels)
    E.eq(f'{names[0]} begun before', v, w, dom)
    E.eq(f'{names[0]} stream, new', stream(E, 'new', names[0], A, labels), w, dom)
    E.eq(f'{names[0]} batch, new', batch(E, 'new', names[0], A, labels), w, dom)


@harness
def successors(E, name, labels, d, n=4, mode='inc'):
    """Objects made after others have been discarded (and may lie where those did)."""
    k = len(labels)
    for i in range(n):
        A = data(E, k, d, tag=f'x{i}_', free=None if i in (0, n - 1) else [0])
        L = [(l + i) % (max(labels) + 1) for l in labels]
        o = E.new(name)
        if mode == 'inc':
            for t in range(k):
                v = feed(E, 'inc', o, A[t], L[t])
        else:
            v = E.ok('batch', E.call(o.get_cvi, E.mat(A), E.ints(L)))
        w, dom = oracle.value(E, name, A, L)
        E.eq(f'{name} object {i}', v, w, dom)
        del o


@harness
def crowd(E, names, n, labels, d, late=False):
    """Many objects alive at once, fed in turn (late: each begins while the earlier ones are under way).

    Their labels appear in different orders; samples of the first and the last two are symbolic."""
    k, m = max(labels) + 1, len(labels)
    objs = []
    for i in range(n):
        nm = names[i % len(names)]
        rows = data(E, m, d, tag=f'x{i}_', free=[0, m - 1] if i in (0, n - 2, n - 1) else [])
        turn = random.Random(i).randrange(k)
        objs.append([nm, E.new(nm) if not late else None, rows, [(l + turn) % k for l in labels], 0, None])
    for turn in range(m + (n if late else 0)):
        for i, o in enumerate(objs):
            if (late and turn < i) or o[4] >= m:
                continue
            if o[1] is None:
                o[1] = E.new(o[0])
            o[5] = feed(E, f'object {i}', o[1], o[2][o[4]], o[3][o[4]])
            o[4] += 1
    for i, (nm, o, rows, L, _, v) in enumerate(objs):
        w, dom = oracle.value(E, nm, rows, L)
        E.eq(f'{nm} object {i}', v, w, dom)
        E.eq(f'{nm} attribute of object {i}', o.criterion_value, v, dom)


@harness
def twins(E, name, labels, d, cut):
    """A copy of an object taken in mid-stream (copy.deepcopy) goes its own way."""
    n = len(labels)
    A = data(E, n, d, tag='x')
    B = A[:cut] + data(E, n - cut, d, tag='y')
    o = E.new(name)
    for t in range(cut):
        feed(E, 'common', o, A[t], labels[t])
    p = E.copy(o)
    v = u = None
    for t in range(cut, n):
        v = feed(E, 'original', o, A[t], labels[t])
        u = feed(E, 'copy', p, B[t], labels[t])
    for z, R, who in ((v, A, 'original'), (u, B, 'copy')):
        w, dom = oracle.value(E, name, R, labels)
        E.eq(f'{name} {who}', z, w, dom)


# -- C20 -----------------------------------------------------------------------------------
@harness
def saved(E, name, labels, d, cut, how, mode='inc', free=None, last=None, named=False):
    """An object copied or pickled and restored goes on like the original, and on its own.

    cut: the number of samples before that; how: 'copy' or the pickle protocol."""
    n = len(labels)
    A = data(E, n, d, free, tag='x')
    real = labelling(E, labels) if named else labels
    o = E.new(name)
    if mode == 'batch':
        w, dom = oracle.value(E, name, A, labels)
        p = E.ok('restore', E.saved(o, how)) if cut == 0 else o
        v = E.ok('batch', E.call(p.get_cvi, E.mat(A), E.ints(real)))
        E.eq(f'{name} batch', v, w, dom)
        q = E.ok('restore', E.saved(p, how))
        for who in (p, q):
            E.eq(f'{name} reported', who.criterion_value, w, dom)
            E.exc(f'{name} sample after the batch', E.call(who.get_cvi, E.vec(A[0]), real[0]), ['ValueError'])
            E.exc(f'{name} second batch', E.call(who.get_cvi, E.mat(A), E.ints(real)), ['ValueError'])
            E.eq(f'{name} reported later', who.criterion_value, w, dom)
        return
    B = A[:cut] + data(E, n - cut, d, None if free is None else [i - cut for i in free], tag='y')
    val = None
    for t in range(cut):
        val = feed(E, 'common', o, A[t], real[t])
    p = E.ok('restore', E.saved(o, how))
    if cut:
        _, dom = oracle.value(E, name, A[:cut], labels[:cut])
        E.eq(f'{name} reported', p.criterion_value, val, dom)
    for t in range(cut, n):
        skip = last is not None and n - t > last
        if not skip:
            want = [oracle.value(E, name, R[:t + 1], labels[:t + 1]) for R in (B, A)]
        u = feed(E, 'restored', p, B[t], real[t])
        v = feed(E, 'original', o, A[t], real[t])
        if not skip:
            E.eq(f'{name} restored after {t + 1}', u, *want[0])
            E.eq(f'{name} original after {t + 1}', v, *want[1])
        if t == cut and not skip:
            p = E.ok('restore', E.saved(p, how))


@harness
def lineage(E, name, labels, d, cut, hows, free=None, mode='inc'):
    """Copies of copies, and several copies of one object: all go on like the original, each on its own."""
    n = len(labels)
    A = data(E, n, d, free)
    o = E.new(name)
    if mode == 'batch':
        w, dom = oracle.value(E, name, A, labels)
        E.eq(f'{name} batch', E.ok('batch', E.call(o.get_cvi, E.mat(A), E.ints(labels))), w, dom)
    else:
        for t in range(cut):
            feed(E, 'common', o, A[t], labels[t])
    family = [o]
    for how, parent in hows:
        family.append(E.ok('restore', E.saved(family[parent], how)))
    if mode == 'batch':
        for i, p in enumerate(family):
            E.eq(f'{name} copy {i} reports', p.criterion_value, w, dom)
        return
    R = [A] + [A[:cut] + data(E, n - cut, d, None if free is None else [j - cut for j in free], tag=f'y{i}_') for i in range(len(hows))]
    for t in range(cut, n):
        for i in (range(len(family)) if t % 2 else reversed(range(len(family)))):
            v = feed(E, f'copy {i}', family[i], R[i][t], labels[t])
            E.eq(f'{name} copy {i} after {t + 1}', v, *oracle.value(E, name, R[i][:t + 1], labels[:t + 1]))


# -- C13 -----------------------------------------------------------------------------------
@harness
def protocol(E, name, labels, d, script, free=None, last=None, width=None):
    """Calls are dispatched on the shape of the data; refused calls raise ValueError and
    change nothing.  script: a list of operations around an ordinary stream or batch.

    's' next sample of the stream, 'B' batch of all samples, 'b' a second batch,
    '1' batch with one label, '3' three-dimensional data, '0' zero-dimensional data,
    'i' a sample after a batch, 'r' a batch of one row, 'e' an empty batch, '4' four-dimensional
    data, 'c' a batch of three rows with one label, 'm' three-dimensional data with one label,
    'p', 'q', 'u', 'x', 'y', 'z', 'v', 'w', 'V', 'n', 'N', 'g', 'G' three to six axes, some of length one.
    'S' a batch of what the object has, 'O' the same arrays again, 'I' a sample of the batch.
    width: number of features in refused calls, if not d."""
    rows = data(E, len(labels), d, free)
    extra = data(E, 2, width or d, tag='z')
    # the labels of refused calls: anything
    la = E.int('la', -2 ** 62, 2 ** 62) if any(x not in 'sB' for x in script) else 0
    lb = E.int('lb', -2 ** 62, 2 ** 62) if any(x in 'b34pquzgG' for x in script) else 1
    o = E.new(name)
    t = 0
    state = 'new'
    cur = (0.0, [])
    for op in script:
        before = o.criterion_value
        if op == 's':
            v = feed(E, 'sample', o, rows[t], labels[t])
            t += 1
            state = 'inc'
            if last is None or len(labels) - t < last:
                cur = oracle.value(E, name, rows[:t], labels[:t])
                E.eq(f'{name} after {t}', v, *cur)
            continue
        if op == 'B':
            given = (E.mat(rows), E.ints(labels))
            v = E.ok('batch', E.call(o.get_cvi, *given))
            state = 'batch'
            cur = oracle.value(E, name, rows, labels)
            E.eq(f'{name} batch', v, *cur)
            continue
        if op == 'b':
            r = E.call(o.get_cvi, E.mat(extra), E.ints([la, lb]))
        elif op == '1':
            r = E.call(o.get_cvi, E.mat(extra), E.ints([la, la]))
        elif op == 'c':
            r = E.call(o.get_cvi, E.mat(extra + extra[:1]), E.ints([la, la, la]))
        elif op == 'r':
            r = E.call(o.get_cvi, E.mat(extra[:1]), E.ints([la]))
        elif op == 'e':
            r = E.call(o.get_cvi, E.empty(width or d), E.ints([]))
        elif op == '3':
            r = E.call(o.get_cvi, E.mat([extra, extra]), E.ints([la, lb]))
        elif op == '4':
            r = E.call(o.get_cvi, E.mat([[extra, extra]]), E.ints([la, lb]))
        elif op == 'p':
            r = E.call(o.get_cvi, E.mat([extra]), E.ints([la, lb]))
        elif op == 'q':
            r = E.call(o.get_cvi, E.mat([[x] for x in extra]), E.ints([la, lb]))
        elif op == 'u':
            r = E.call(o.get_cvi, E.mat([[[x[0]] for x in extra]] * 2), E.ints([la, lb]))
        elif op == 'x':
            r = E.call(o.get_cvi, E.mat([extra[:1]]), la)
        elif op == 'y':
            r = E.call(o.get_cvi, E.mat([[extra[:1]]]), E.ints([la]))
        elif op == 'z':
            r = E.call(o.get_cvi, E.mat([[[[x] for x in extra]]]), E.ints([la, lb]))
        elif op in 'vwV':
            r = E.call(o.get_cvi, E.mat([[[[extra[0]]]]] if op == 'v' else [[[[[extra[0]]]]]] if op == 'w' else [[[extra[0]]]]), la)
        elif op in 'nN':
            # as many numbers as the samples have, along one or two of three axes
            r = E.call(o.get_cvi, E.mat([[[x] for x in extra[0]]] if op == 'n' else [[[x]] for x in extra[0]]), la)
        elif op in 'gG':
            r = E.call(o.get_cvi, E.mat([[[extra, extra]]] if op == 'g' else [[[[extra]]]]), E.ints([la, lb]))
        elif op == 'S':
            # what the object has already, as a batch
            m = t if state == 'inc' else len(rows)
            r = E.call(o.get_cvi, E.mat(rows[:m]), E.ints(labels[:m]))
        elif op == 'I':
            r = E.call(o.get_cvi, E.vec(rows[-1]), labels[-1])
        elif op == 'O':
            r = E.call(o.get_cvi, *given)
        elif op == 'm':
            r = E.call(o.get_cvi, E.mat([extra, extra]), la)
        elif op == '0':
            r = E.call(o.get_cvi, E.vec(extra[0][0]), la)
        elif op == 'i':
            r = E.call(o.get_cvi, E.vec(extra[0]), la)
        else:
            raise KeyError(op)
        E.exc(f'{name} {op} refused ({state})', r, ['ValueError'] if op != 'e' else [])
        E.eq(f'{name} attribute after a refused call', o.criterion_value, before, cur[1])


# -- C19 -----------------------------------------------------------------------------------
@harness
def unfit(E, name, labels, d, at, sizes, mode='inc', free=None, last=None, named=False, width=None):
    """Samples that do not fit are refused and change nothing.

    at: before which samples of the stream a sample of each of the given sizes comes in; in a batch, the
    sizes are numbers of labels that differ from the number of rows.  named: the labels are any integers;
    otherwise, those of refused samples are a known and a new one.  width: features of refused batches."""
    rows = data(E, len(labels), d, free)
    o = E.new(name)
    if mode != 'inc':
        n = len(labels)
        real = labelling(E, labels) if named else labels
        for m in sizes:
            before = o.criterion_value
            r = E.call(o.get_cvi, E.mat(data(E, n, width, tag='y') if width else rows), E.ints((real * 3)[:m]))
            E.exc(f'{name} {m} labels for {n} rows', r, ['ValueError'])
            E.eq(f'{name} attribute after a refused batch', o.criterion_value, before)
        if mode == 'batch':
            w, dom = oracle.value(E, name, rows, labels)
            v = E.ok('batch', E.call(o.get_cvi, E.mat(rows), E.ints(real)))
            E.eq(f'{name} batch', v, w, dom)
            return
        at, given = [], real
    else:
        given = labels
    las = [E.int('la', -2 ** 62, 2 ** 62)] if at and named else [labels[0], 1000]
    dom = []
    for t in range(len(labels)):
        for m in sizes if t in at else ():
            before = o.criterion_value
            z = [E.real(f'z{t}_{m}_{j}') for j in range(m)]
            for la in las:
                r = E.call(o.get_cvi, E.vec(z), la)
                E.exc(f'{name} sample of {m} features', r, ['ValueError'])
                E.eq(f'{name} attribute after a refused sample', o.criterion_value, before, dom)
        skip = last is not None and len(labels) - t > last
        if not skip:
            w, dom = oracle.value(E, name, rows[:t + 1], labels[:t + 1])
        v = feed(E, 'inc', o, rows[t], given[t])
        if not skip:
            E.eq(f'{name} after {t + 1}', v, w, dom)


# -- C14 -----------------------------------------------------------------------------------
@harness
def sample_types(E, name, mode, labels, d, dt, lo, hi, free=None):
    """Integer samples of any width are taken at their mathematical value."""
    n = len(labels)
    if dt[0] == 'f':
        rows = [[E.narrow(f'x{i}_{j}', dt) for j in range(d)] for i in range(n)]
    else:
        rng = random.Random(n)
        rows = [[E.wide(f'x{i}_{j}', dt) if dt == 'uint64' else E.int(f'x{i}_{j}', lo, hi, dt) if free is None or i in free else E.whole(rng.randint(max(lo, -3000), min(hi, 3000)), dt)
                 for j in range(d)] for i in range(n)]
    w, dom = oracle.value(E, name, E.exact(rows), labels)
    E.watch_ints()
    if mode == 'batch':
        v = E.ok('batch', E.call(E.new(name).get_cvi, E.mat(rows, dt), E.ints(labels)))
    else:
        o = E.new(name)
        for r, l in zip(rows, labels):
            v = E.ok('inc', E.call(o.get_cvi, E.vec(r, dt), l))
    E.no_overflow(f'{name} {mode} {dt} overflow', dom)
    E.eq(f'{name} {mode} {dt}', v, w, dom)


# -- C15 -----------------------------------------------------------------------------------
@harness
def footprint(E, name, labels, d, rounds, free=None):
    """Once every cluster has been visited twice, further samples of known clusters do not
    make the object (or the package) store more."""
    k = len(labels)
    n = k * rounds
    rows = data(E, n, d, free)
    o = E.new(name)
    size = None
    for t in range(n):
        feed(E, 'inc', o, rows[t], labels[t % k])
        if t + 1 >= 2 * k and (t + 1) % k == 0:
            now = E.size(o)
            if size is None:
                size = now
            else:
                E.true(f'{name} stored numbers after {t + 1} samples', now <= size,
                       f'{now} stored after {t + 1} samples, {size} after {2 * k}')


# -- C16 -----------------------------------------------------------------------------------
@harness
def degenerate(E, name, mode, labels, d, same=None, flat=None, cut=None, free=None, last=None):
    """Coinciding samples, constant features, coinciding centroids: no exception, and later
    values are those of the definition.  flat: features that are constant; cut: a prefix
    whose samples all coincide."""
    rows = data(E, len(labels), d, free, same=same)
    for j in flat or []:
        c = E.real(f'c{j}')
        for r in rows:
            r[j] = c
    if cut:
        for i in range(1, cut):
            rows[i] = list(rows[0])
    if mode == 'batch':
        w, dom = oracle.value(E, name, rows, labels)
        E.eq(f'{name} batch', batch(E, 'batch', name, rows, labels), w, dom)
        return
    o = E.new(name)
    for t in range(1, len(labels) + 1):
        skip = last is not None and len(labels) - t >= last
        if not skip:
            w, dom = oracle.value(E, name, rows[:t], labels[:t])
        v = feed(E, 'inc', o, rows[t - 1], labels[t - 1])
        if not skip:
            E.eq(f'{name} after {t}', v, w, dom)


# -- C17, C18: the legacy module (compat.v0) -------------------------------------------------
def first_seen(labels):
    return all(l <= max(labels[:i], default=-1) + 1 for i, l in enumerate(labels))


@harness
def legacy_index(E, name, labels, d, free=None, last=None, skips=(), reuse=False, factory=False, dt=None, other=None):
    """A legacy index after every update: value, sizes and centroids are those of the samples so far.

    skips: steps before which an update with a cluster number that skips ahead is refused; reuse: one
    buffer for all samples; factory: made by iCVI; other: a second object of that kind, fed in between."""
    v0 = E.cvi.compat.v0
    n = len(labels)
    rows = data(E, n, d, free) if dt is None else [[E.int(f'x{i}_{j}', *RANGES[dt], dt) for j in range(d)] for i in range(n)]
    extra = data(E, 1, d, tag='z')[0]
    exact = rows if dt is None else E.exact(rows)
    o = v0.iCVI('i' + name) if factory else getattr(v0, 'i' + name)()
    p = None if not other else v0.iCVI('i' + other) if factory else getattr(v0, 'i' + other)()
    buf = None
    for t in range(n):
        k = nclusters(labels[:t])
        if t in skips:
            z = k + E.int(f's{t}', 1, 2 ** 40)
            E.exc(f'i{name} cluster number skips ahead', E.call(o.update, E.vec(extra), z), ['ValueError'])
        if reuse and t:
            for j in range(d):
                buf[j] = rows[t][j]
        else:
            buf = E.vec(rows[t], dt)
        v = E.ok('update', E.call(o.update, buf, labels[t]))
        E.same('sample', buf, rows[t])
        if other:
            E.ok('other', E.call(p.update, E.vec(extra), min(labels[n - 1 - t], len(p.cluster_sizes))))
        if last is not None and n - t > last:
            continue
        cl = oracle.clusters(exact[:t + 1], labels[:t + 1])
        w, dom = oracle.value(E, name, exact[:t + 1], labels[:t + 1])
        E.eq(f'i{name} after {t + 1}', v, w, dom)
        E.eq(f'i{name} output after {t + 1}', o.output, w, dom)
        E.true(f'i{name} sizes after {t + 1}', [int(x) for x in o.cluster_sizes] == [len(c) for c in cl],
               f'{o.cluster_sizes} instead of {[len(c) for c in cl]}')
        for i, c in enumerate(cl):
            m = oracle.mean(c)
            for j in range(d):
                E.eq(f'i{name} centroid {i} after {t + 1}', o.cluster_centers[i][j], m[j])


def norm(E, u, ord):
    if ord == 2:
        return E.sqrt(oracle.total(x * x for x in u))
    a = [E.max([x, -x]) for x in u]
    return oracle.total(a) if ord == 1 else E.max(a)


@harness
def legacy_cluster(E, n, d, ord=2, free=None, reuse=False, box=False, given=False, last=None):
    """A legacy Cluster: length, centroid, distances (and box) are those of the points added."""
    v0 = E.cvi.compat.v0
    if box:
        rows = [[E.real(f'x{i}_{j}', lo=0, hi=1) if free is None or i in free else (i * 37 + j * 11) % 32 / 64 + 0.25 for j in range(d)]
                for i in range(n)]
    else:
        rows = data(E, n, d, free)
    q = data(E, 1, d, free=[] if n > 100 else None, tag='q')[0]
    o = v0.Cluster(box=True) if box else v0.Cluster()
    buf = None
    for t in range(n):
        if reuse and t:
            for j in range(d):
                buf[j] = rows[t][j]
        else:
            buf = E.vec(rows[t])
        E.ok('add_point', E.call(*((o.add_point, buf, 7 * t) if given else (o.add_point, buf))))
        E.same('point', buf, rows[t])
        if last is not None and n - t > last:
            continue
        E.true(f'length after {t + 1}', int(o.len) == t + 1, f'{o.len}')
        m = oracle.mean(rows[:t + 1])
        for j in range(d):
            E.eq(f'center after {t + 1}', o.center[j], m[j])
    if given:
        E.true('indices', [int(i) for i in o.indicies] == [7 * t for t in range(n)], f'{o.indicies}')
    if box:
        for j in range(d):
            E.eq('box, low', o.bounding_box[j], E.min([r[j] for r in rows]))
            E.eq('box, high', o.bounding_box[d + j], E.min([1 - r[j] for r in rows]))
        # whether a (complement-coded) point lies in the box; the points themselves do
        coded = lambda r: E.vec(list(r) + [1 - a for a in r])
        for r in rows[:2]:
            E.true('a point in its box', bool(E.ok('within', E.call(o.within_bounding_box, coded(r)))), 'not in the box')
        q = [E.real(f'p{j}', lo=0, hi=1) if free is None or d < 3 or j == n % d else rows[0][j] for j in range(d)]
        got = bool(E.ok('within', E.call(o.within_bounding_box, coded(q))))
        inside = all(bool(q[j] >= E.min([r[j] for r in rows])) and bool(q[j] <= E.max([r[j] for r in rows])) for j in range(d))
        E.true('within the box', got == inside, f'{got}, not {inside}')
        return
    x = E.vec(q)
    dist = [norm(E, [a - b for a, b in zip(q, r)], ord) for r in rows]
    args = () if ord == 2 else (ord,)
    E.eq('min_distance', E.ok('min', E.call(o.min_distance, x, *args)), E.min(dist))
    E.eq('avg_distance', E.ok('avg', E.call(o.avg_distance, x, *args)), oracle.total(dist) / n)
    E.eq('center_distance', E.ok('center', E.call(o.center_distance, x, *args)),
         norm(E, [a - b for a, b in zip(oracle.mean(rows), q)], ord))
    E.same('query', x, q)


@harness
def legacy_clusters(E, labels, d):
    """Clusters.from_list: every point is in the cluster of its number."""
    v0 = E.cvi.compat.v0
    rows = data(E, len(labels), d)
    cs = v0.Clusters()
    E.ok('from_list', E.call(cs.from_list, E.mat(rows), labels))
    cl = oracle.clusters(rows, labels)
    E.true('number of clusters', len(cs) == len(cl), f'{len(cs)} instead of {len(cl)}')
    for i, c in enumerate(cl):
        E.true(f'size of cluster {i}', int(cs[i].len) == len(c), f'{cs[i].len}')
        m = oracle.mean(c)
        for j in range(d):
            E.eq(f'center of cluster {i}', cs[i].center[j], m[j])


@harness
def legacy_updates(E, n, d, free=None, given=False, last=None):
    """The recursions for centroid and compactness, from the first sample on."""
    v0 = E.cvi.compat.v0
    rows = data(E, n, d, free)
    v, c = E.vec(rows[0]), 1
    u, m, g, cp = E.vec(rows[0]), 1, None, 0
    for t in range(1, n):
        x = E.vec(rows[t])
        v, c = E.ok('cluster_center_update', E.call(v0.cluster_center_update, x, v, c))
        if given:
            cp, g, u, m = E.ok('CP_update', E.call(v0.CP_update, x, u, m, g, cp, t + 1, v))
        else:
            cp, g, u, m = E.ok('CP_update', E.call(v0.CP_update, x, u, m, g, cp))
        E.same('sample', x, rows[t])
        if last is not None and n - t > last:
            continue
        w = oracle.mean(rows[:t + 1])
        for j in range(d):
            E.eq(f'cluster_center_update after {t + 1}', v[j], w[j])
            E.eq(f'CP_update centroid after {t + 1}', u[j], w[j])
            E.eq(f'CP_update g after {t + 1}', g[j], 0.0)
        E.true('sizes', int(c) == t + 1 and int(m) == t + 1, f'{c}, {m}')
        E.eq(f'CP_update compactness after {t + 1}', cp, oracle.total(oracle.sqd(r, w) for r in rows[:t + 1]))
    E.eq('norm22', E.ok('norm22', E.call(v0.norm22, E.vec(rows[0]))), oracle.total(z * z for z in rows[0]))
