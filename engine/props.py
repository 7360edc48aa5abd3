"""The tasks of each property, per tier: which harness, at which bounds."""
import ast
import os

from .harness import RANGES
from .oracle import INDICES

STREAM = {'definition', 'inc_vs_batch'}


def rgs(n, kmin=1):
    """All ways of labelling n samples, up to renaming (restricted growth strings)."""
    out = []

    def go(p, m):
        if len(p) == n:
            if m >= kmin:
                out.append(list(p))
            return
        for v in range(m + 1):
            go(p + [v], max(m, v + 1))
    go([], 0)
    return out


def unit_for(name, d):
    return 10.0 ** (-6.0 / d) if name == 'rCIP' else 1.0


class Plan:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.tasks = []
        self.quick = tier == 'quick'

    def add(self, h, name, rung='base', budget=None, unit=None, max_paths=400, **args):
        d = args.get('d', 1)
        nm = name if isinstance(name, str) else name[0]
        if unit is None:
            units = [unit_for(x, d) for x in ([name] if isinstance(name, str) else name)]
            unit = min(units)
        if h in ('legacy_cluster', 'legacy_updates', 'legacy_clusters'):
            args = dict(args)
        elif isinstance(name, str):
            args = dict(name=name, **args)
        else:
            args = dict(names=list(name), **args)
        self.tasks.append(dict(
            id=f'{self.prop}:{len(self.tasks)}', h=h, index=nm, rung=rung, seed=self.seed, max_paths=max_paths,
            budget=budget or (25 if self.quick else 120), prove_ms=6000 if self.quick else 20000,
            params=dict(args=args, unit=unit)))


NARROW = {'int8': (128,), 'uint8': (256,), 'byte': (128,), 'ubyte': (256,), 'int16': (32768,), 'short': (32768,), 'i2': (32768,), 'u2': (65536,),
          'uint16': (65536,), 'ushort': (65536,), 'float16': (2048,), 'half': (2048,), 'f2': (2048,), 'i1': (128,), 'u1': (256,)}
_scan = {}


def fold(n):
    """Value of an expression of number literals, or None."""
    if isinstance(n, ast.Constant):
        return n.value if isinstance(n.value, (int, float)) and not isinstance(n.value, bool) else None
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.UAdd)):
        v = fold(n.operand)
        return v if v is None or isinstance(n.op, ast.UAdd) else -v
    if isinstance(n, ast.BinOp):
        a, b = fold(n.left), fold(n.right)
        if a is None or b is None or abs(a) > 1e9 or abs(b) > 1e9:
            return None
        try:
            if isinstance(n.op, (ast.Pow, ast.LShift)) and abs(b) > 40:
                return None
            return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Div: lambda: a / b, ast.FloorDiv: lambda: a // b,
                    ast.Pow: lambda: a ** b, ast.LShift: lambda: a << b, ast.RShift: lambda: a >> b, ast.Mod: lambda: a % b}[type(n.op)]()
        except Exception:
            return None
    return None


def scan():
    """module -> (whole numbers in its code, modules it imports)"""
    if not _scan:
        from . import loader
        for name, (p, _) in loader.sources().items():
            with open(p) as f:
                t = ast.parse(f.read())
            nums, imps = set(), set()
            for n in ast.walk(t):
                v = fold(n)
                if v is not None and not isinstance(v, complex) and v == v and abs(v) < 1e6 and v == int(v) and v > 2:
                    nums.add(int(v))
                w = n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else \
                    n.value if isinstance(n, ast.Constant) and isinstance(n.value, str) else None
                nums |= set(NARROW.get(w, ()))
                if isinstance(n, ast.ImportFrom):
                    imps |= {(n.module or '').split('.')[-1]} | {x.name for x in n.names}
                elif isinstance(n, ast.Import):
                    imps |= {x.name.split('.')[-1] for x in n.names}
            _scan[name] = (nums, imps)
    return _scan


def constants(index=None):
    """Whole numbers in the code (not in docstrings): sizes just beyond them are also tried.

    index: only those that concern this index (its module, what that imports, and modules shared by all);
    'legacy': those of the legacy module."""
    mods = scan()
    if index == 'legacy':
        use = [m for m in mods if '.compat' in m]
    else:
        own = {m: m.split('.')[-1] for m in mods if '.compat' not in m}
        use = [m for m, l in own.items() if l not in INDICES or index is None]
        todo = [m for m, l in own.items() if l == index]
        while todo:
            m = todo.pop()
            if m not in use:
                use.append(m)
                todo += [x for x, l in own.items() if l in mods[m][1] and l in INDICES]
    return sorted(set().union(*[mods[m][0] for m in use])) if use else []


# sequences used at larger sizes: interleaved, blocked, revisits, lone samples
SEQ6 = [[0, 1, 0, 1, 2, 2], [0, 0, 0, 1, 1, 2], [0, 1, 2, 0, 1, 2], [0, 1, 2, 2, 1, 0], [0, 1, 1, 1, 1, 0]]
SEQ8 = [[0, 1, 2, 3, 0, 1, 2, 3], [0, 0, 1, 1, 2, 2, 3, 3], [0, 1, 0, 2, 0, 3, 1, 1], [0, 1, 2, 3, 3, 2, 3, 3]]
NONCANON = [[2, 0, 1, 0, 1, 2], [1, 1, 0, 2, 0], [3, 2, 1, 0, 3, 2, 1, 0], [3, 0, 1, 2, 3, 0, 1, 2, 3],
            [2, 0, 2, 0, 1, 1, 2]]
# batches of many clusters, their labels in other orders than they appear
TURNED = [[(k - 1 - l * q) % k for l in list(range(k)) + [0, k // 2, 1, 0]] for k, q in ((5, 1), (6, 5), (8, 3), (11, 4))]


def wide(k, extra):
    return list(range(k)) + [i % k for i in range(extra)]


def partial(k):
    """k clusters, few of them visited again."""
    return list(range(k)) + [0, k - 3, 0, k - 2]


def mixed(n, k=3):
    return [(i * i + i // 7) % k for i in range(n)]


def uneven(n, k):
    """Clusters of very different sizes, about n/2, n/4, ..."""
    return [min(((i + 1) & -(i + 1)).bit_length() - 1, k - 1) for i in range(n)]


def weave(k):
    """New clusters between samples of known ones."""
    return [x for j in range(k) for x in ((j,) if j < 2 else (j, j // 2, j * 2 // 3 - 1))]


def peak(k, j):
    """The j-th of k clusters is the largest, growing while others get samples too."""
    return list(range(k)) + [j, j, (j + 1) % k, j, 0, j, (j + 2) % k]


def heavy(n):
    """Nearly all samples in one cluster."""
    return [1 if i in (3, 5, 9, n - 2) else 2 if i in (7, 8) else 0 for i in range(n)]


def limits(P, name=None):
    """Constants of the code, as (cluster and feature counts, stream lengths) to go beyond."""
    legacy = P.prop in ('C17', 'C18')
    cs = constants('legacy') if legacy else sorted(set(constants(name)) | {10, 12})
    small = [c for c in cs if c <= (30 if P.prop == 'C17' else 60)][:12]
    longs = [c for c in cs if c <= (12000 if P.quick else 20000)][-12:]
    if P.prop in ('C01', 'C02', 'C03', 'C04', 'C05', 'C17', 'C18'):
        longs += [c for c in cs if longs[-1] < c <= 70000][:2] if longs else [c for c in cs if c <= 70000][:2]
    return small, longs


def sizes(P, name, seqs=True, const=True):
    """Larger configurations (labels, features, symbolic samples, rung, budget), in every direction."""
    rc = name == 'rCIP'
    out = [(partial(10), 2, [0, 11, 13], 'size', None),
           (wide(3, 4), 4 if rc else 6, [0, 6] if not rc else [6], 'size', None),
           (mixed(60), 1, [58, 59] if rc else [0, 58, 59], 'size', None),
           (uneven(66, 7), 2 if rc else 4, [65], 'size', None), (peak(5, 3), 2, [11], 'size', None)]
    out += [([0, 1, 0, 1, 2], d, [3], 'size', None) for d in ((3, 4, 5) if rc else (3, 4, 5, 7, 17, 33))]
    if not P.quick:
        out += [(partial(20), 2, [0, 21, 23], 'size', None), (wide(3, 4), 5 if rc else 12, [6], 'size', None),
                (mixed(200), 2, [198, 199] if rc else [0, 198, 199], 'size', None), (mixed(2000), 1, [1998, 1999], 'size', 200)]
    if const:
        small, longs = limits(P, name)
        for c in small:
            if c != 12 or not P.quick:
                out.append((partial(c + 2), 2, [0, c + 3, c + 5], 'const', None))
                if not rc:
                    out.append((wide(3, 4), c + 1, [6], 'const', None))
        for c in longs:
            out.append((mixed(c + 3), 1, [c, c + 2], 'const', 60 + c / 40))
    return out


def growth(P, h, names, modes=(None,), n=5, batch_mode=True):
    """The standard ladder of sizes for value properties."""
    q = P.quick
    for name in names:
        small, longs = limits(P, name)
        for mode in modes:
            kw = {} if mode is None else {'mode': mode}
            isb = mode == 'batch'
            for L in rgs(n if q else n + 1, 2 if isb else 1):
                P.add(h, name, labels=L, d=1, **kw)
            for L in rgs(4 if q else 5, 2 if isb else 1):
                P.add(h, name, labels=L, d=2, **kw)
            last = {} if isb else {'last': 2}
            for L in SEQ6:
                P.add(h, name, labels=L, d=2, **kw)
                P.add(h, name, labels=L, d=3, rung='size', **kw, **last, **({'free': [0, 5]} if name == 'rCIP' else {}))
            for L in SEQ8:
                P.add(h, name, labels=L, d=2, rung='size', **kw, **last, **({'free': [0, 3, 4, 7]} if name == 'rCIP' else {}))
            if isb or h == 'inc_vs_batch':
                for L in NONCANON:
                    P.add(h, name, labels=L, d=2, **kw, **({'free': [0, 5, 6]} if len(L) > 8 else {}))
                for L in TURNED:
                    P.add(h, name, labels=L, d=2, free=[0, len(L) - 1], rung='size', **kw)
            for k, j in ((3, 1), (3, 2), (4, 2), (5, 1), (5, 3), (6, 4), (6, 5)):
                P.add(h, name, labels=peak(k, j), d=2, free=[k + 5, k + 6], rung='size', **kw, **({} if isb else {'last': 6}))
            # arrays that lie differently in memory
            for layout in ('F', 'view', 'rev'):
                P.add(h, name, labels=[0, 1, 0, 1, 2], d=3, free=[0, 3], layout=layout, **kw)
            # many clusters; long streams; a few symbolic samples among fixed ones
            P.add(h, name, labels=wide(6, 7), d=2, rung='size', **kw, **last)
            P.add(h, name, labels=wide(13, 14), d=2, rung='size', free=[0, 14, 26], **kw, **last)
            P.add(h, name, labels=partial(13), d=2, rung='size', free=[0, 14, 16], **kw)
            P.add(h, name, labels=partial(21), d=1, rung='size', free=[0, 22, 24], **kw, **({} if isb else {'last': 6}))
            P.add(h, name, labels=[0, 1, 1] * 12, d=1, rung='size', free=[0, 1, 33, 34, 35], **kw, **last)
            P.add(h, name, labels=wide(3, 7), d=4 if name == 'rCIP' else 6, rung='size', free=[0, 8, 9], **kw, **last,
                  **({'dims': [0, 2]} if name == 'rCIP' else {}))
            for dd in list(range(3, 14)) + ([16, 17] if name == 'rCIP' else [16, 17, 33, 65] + ([] if q else [24, 40, 129, 260])):
                rc = name == 'rCIP'
                P.add(h, name, labels=[0, 1, 0, 1, 2], d=dd, rung='size', free=[3, 4] if not rc else [3], **kw, **last,
                      **({'dims': [0, dd - 1], 'sparse': dd > 6} if rc else {}))
            # many clusters, of many samples, of several features, together
            for L, dd in ((uneven(100, 7), 4), (mixed(90, 9), 7), (wide(12, 40), 3), (uneven(70, 5) + list(range(5, 12)) + [0, 3, 6, 11], 3),
                          ([0] * 24 + list(range(1, 9)) + [1, 0], 5), (weave(11), 3)):
                n_ = len(L)
                P.add(h, name, labels=L, d=min(dd, 3) if name == 'rCIP' else dd, rung='size', free=[n_ - 2, n_ - 1] if name != 'rCIP' else [n_ - 1], **kw,
                      **({} if isb else {'last': 1}), **({'dims': [0]} if name == 'rCIP' else {}))
            P.add(h, name, labels=[1 if i % 9 == 1 else 0 for i in range(310)], d=1, rung='size', free=[308, 309],
                  **kw, **({} if isb else {'last': 1}))
            big = 120 if q else 400
            P.add(h, name, labels=[i * i % 3 for i in range(big)], d=2, rung='size', free=[0, big - 2, big - 1],
                  **kw, **({} if isb else {'last': 1}))
            P.add(h, name, labels=mixed(1030 if q else 5000), d=1, rung='size',
                  free=[1028, 1029] if q else [4998, 4999], budget=80 if q else 400, **kw, **({} if isb else {'last': 1}))
            if not q:
                P.add(h, name, labels=wide(24, 26), d=2, rung='size', free=[0, 24, 49], **kw, **last)
                P.add(h, name, labels=partial(40), d=1, rung='size', free=[0, 41, 43], **kw, **({} if isb else {'last': 6}))
                P.add(h, name, labels=[0, 1, 2, 3] * 5, d=2, rung='size', **kw, **last)
                P.add(h, name, labels=[0, 1] * 10, d=1, rung='size', **kw, **last)
            for c in small:
                P.add(h, name, labels=wide(c + 1, c + 2), d=2, rung='const', free=[0, c + 1, 2 * c + 2], **kw,
                      **({} if isb else {'last': 1}))
                P.add(h, name, labels=partial(c + 2), d=1, rung='const', free=[0, c + 3, c + 5], **kw,
                      **({} if isb else {'last': 6}))
                P.add(h, name, labels=wide(3, 4), d=c + 1, rung='const', free=[0, 6] if name != 'rCIP' else [6], **kw,
                      **({} if isb else {'last': 1}), **({'dims': [0, c], 'sparse': c > 5} if name == 'rCIP' else {}))
            for c in [100] + [c for c in constants(name) if 60 < c <= 260 and c not in range(90, 102)][:3]:
                P.add(h, name, labels=partial(c + 2), d=1, rung='const', free=[c + 5], budget=80 if c <= 130 else 300, **kw,
                      **({} if isb else {'last': 1}))
            for c in longs:
                kw2 = dict(kw, **({} if isb else {'last': 1}), budget=60 + c / 40 if c <= 20000 else 400, rung='const')
                if c <= 20000:
                    P.add(h, name, labels=mixed(c + 3), d=2 if c < 3000 else 1, free=[0, c, c + 2] if c < 400 else [c, c + 2], **kw2)
                P.add(h, name, labels=heavy(c + 12), d=1, free=[c + 10, c + 11], **kw2)
                if c < 1500:
                    P.add(h, name, labels=mixed(3 * c + 5), d=1, free=[3 * c, 3 * c + 4], **kw2)


def C01(P):
    growth(P, 'inc_vs_batch', INDICES)


def C02(P):
    growth(P, 'definition', ('CH', 'WB', 'XB'), ('inc', 'batch'))


def C03(P):
    growth(P, 'definition', ('DB', 'GD43', 'GD53'), ('inc', 'batch'))


def C04(P):
    growth(P, 'definition', ('cSIL', 'PS'), ('inc', 'batch'))


def C05(P):
    growth(P, 'definition', ('rCIP',), ('inc', 'batch'))


INT_TYPES = [(None, -2 ** 62, 2 ** 62), ('int8', -128, 127), ('uint8', 0, 255), ('int16', -2 ** 15, 2 ** 15 - 1),
             ('uint16', 0, 2 ** 16 - 1), ('int32', -2 ** 31, 2 ** 31 - 1), ('uint64', 0, 2 ** 63)]


def C07(P):
    for name in INDICES:
        for mode in ('inc', 'batch'):
            for n, d in ((4, 1), (3, 2)) if P.quick else ((5, 1), (4, 2)):
                if P.quick and n == 4 and mode == 'batch' and name in ('cSIL', 'rCIP'):
                    n = 3
                P.add('label_names', name, mode=mode, n=n, d=d, lo=-2 ** 62, hi=2 ** 62, max_paths=2000)
            pats = [[0, 1, 0, 1, 2, 2], [0, 1, 1, 2, 0]] if P.quick else [[0, 1, 0, 1, 2, 2], [0, 1, 1, 2, 0], wide(4, 4), SEQ6[1]]
            for pat in pats:
                for dt, lo, hi in INT_TYPES:
                    P.add('label_names', name, mode=mode, n=len(pat), d=1 if name == 'rCIP' else 2, lo=lo, hi=hi, dt=dt,
                          pattern=pat)
            if mode == 'inc':
                for dts in ([None, 'int64', 'uint8', 'int32'], ['int64', None], ['int8', 'int64', 'uint16']):
                    P.add('label_names', name, mode=mode, n=6, d=1, lo=0, hi=127, dts=dts, pattern=[0, 0, 1, 1, 0, 1])
                for k in [9, 12 if name == 'cSIL' and P.quick else 17] + [c + 2 for c in limits(P, name)[0]]:
                    P.add('label_names', name, mode=mode, n=k + 4, d=1, lo=-2 ** 62, hi=2 ** 62, pattern=partial(k), rung='size',
                          free=[k + 3] if name == 'cSIL' else [0, k + 3], last=2 if name == 'cSIL' else 5)
            for L in TURNED + [[0, 1, 2, 0, 1, 2, 0], [0, 1, 2, 3, 0, 1, 2, 3, 0], wide(7, 8)]:
                k, n = max(L) + 1, len(L)
                for names in ([k - 1 - i for i in range(k)], [(i + 1) % k for i in range(k)], [(i * 13 + 5) % 17 for i in range(k)]):
                    P.add('renamed', name, mode=mode, labels=L, names=names, d=1, free=[0, n - 1], rung='size')
            if mode == 'inc':
                for c in [100] + [c for c in constants(name) if 60 < c <= 260 and c not in range(90, 102)][:3]:
                    P.add('label_names', name, mode=mode, n=c + 6, d=1, lo=-2 ** 62, hi=2 ** 62, pattern=partial(c + 2), rung='const',
                          free=[c + 5], last=1, budget=80 if c <= 130 else 300)
            for c in limits(P, name)[1]:
                P.add('label_names', name, mode=mode, n=c + 3, d=1, lo=-2 ** 62, hi=2 ** 62, pattern=mixed(c + 3), rung='const',
                      free=[c, c + 2], last=1, budget=60 + c / 20)


def C08(P):
    seqs = [[0, 1, 0, 1, 2], [0, 0, 1, 1, 1], [0, 1, 2, 0, 1], [0, 1, 1, 2, 0], [0, 1, 2, 2, 2]]
    for name in INDICES:
        for mode in ('inc', 'batch'):
            for L in seqs if P.quick else rgs(5, 2):
                n = len(L)
                perms = []
                for i in range(n - 1):
                    p = list(range(n))
                    p[i], p[i + 1] = p[i + 1], p[i]
                    perms.append(p)
                perms += [list(range(n))[::-1], [(i + 2) % n for i in range(n)]]
                for p in perms:
                    P.add('order', name, mode=mode, labels=L, d=1, perm=p)
            for L in (SEQ6[:3] if P.quick else SEQ6 + SEQ8):
                n = len(L)
                for p in ([n - 1] + list(range(n - 1)), list(range(n))[::-1], [(3 * i + 1) % n if n % 3 else (5 * i + 2) % n
                                                                              for i in range(n)]):
                    P.add('order', name, mode=mode, labels=L, d=2, perm=p)
            n = 30
            L = [(i * i + i // 7) % 4 for i in range(n)]
            P.add('order', name, mode=mode, labels=L, d=2, perm=[(7 * i + 3) % n for i in range(n)], free=[0, 9, 29],
                  rung='size')
            for L in TURNED + NONCANON:
                n = len(L)
                for p in (sorted(range(n), key=lambda i: (L[i], i)), [1, 0] + list(range(2, n)), list(range(1, n)) + [0],
                          [(i * 3 + 1) % n if n % 3 else (i * 5 + 1) % n if n % 5 else (i * 7 + 1) % n for i in range(n)]):
                    P.add('order', name, mode=mode, labels=L, d=1, perm=p, free=[0, 1, n - 1], rung='size')
            for L, d, free, rung, budget in sizes(P, name):
                n = len(L)
                for perm in ([list(range(n))[::-1]] if n > 1000 else
                             [list(range(n))[::-1], sorted(range(n), key=lambda i: (L[i], i)), list(range(n - 2)) + [n - 1, n - 2]]):
                    P.add('order', name, mode=mode, labels=L, d=d, perm=perm, free=free, rung=rung, budget=budget)


def C09(P):
    for name in INDICES:
        for mode in ('inc', 'batch'):
            for L in ([0, 1, 0, 1], [0, 1, 2, 0, 1, 2], [0, 0, 1, 2, 2]) + (() if P.quick else tuple(SEQ6)):
                for kind in ('translate', 'features', 'swap', 'mirror', 'rotate', 'scale'):
                    if kind == 'scale' and name == 'rCIP':
                        continue
                    for d in (2, 3):
                        if d == 3 and kind == 'swap':
                            continue
                        free = None
                        if name == 'rCIP' and (d == 3 or kind in ('rotate',)):
                            free = [0, len(L) - 1]
                        P.add('geometry', name, mode=mode, labels=L, d=d, kind=kind, free=free)
            for kind in ('translate', 'scale', 'mirror'):
                if not (kind == 'scale' and name == 'rCIP'):
                    P.add('geometry', name, mode=mode, labels=[0, 1, 1, 0, 2], d=1, kind=kind)
                    P.add('geometry', name, mode=mode, labels=wide(4, 12), d=2, kind=kind, free=[0, 15], rung='size')
            for L, d in (([0, 1, 0, 1, 1], 3), (wide(2, 8), 3), ([0, 1, 0, 2, 0, 1, 0, 1, 0], 4)):
                if name != 'rCIP' or d < 4:
                    P.add('geometry', name, mode=mode, labels=L, d=d, kind='turn', free=[] if name == 'rCIP' else [len(L) - 1])
            for L, d, free, rung, budget in sizes(P, name):
                for kind in ('translate', 'features', 'mirror', 'rotate', 'scale') if len(L) < 100 else ('translate', 'mirror'):
                    if d == 1 and kind in ('features', 'rotate') or kind == 'scale' and name == 'rCIP' or \
                            name == 'rCIP' and (d > 3 or len(L) > 60) and kind in ('translate', 'rotate') or \
                            name == 'DB' and len(L) > 60 and kind in ('rotate', 'scale'):
                        continue
                    P.add('geometry', name, mode=mode, labels=L, d=d, kind=kind, free=free[-1:] if kind == 'rotate' else free,
                          rung=rung, budget=budget)


def C10(P):
    for name in INDICES:
        for mode in ('inc', 'batch'):
            for L in rgs(4, 2 if mode == 'batch' else 1):
                P.add('ranges', name, mode=mode, labels=L, d=1)
            for L in ([0, 0, 0, 1], [0, 1, 1, 0], [0, 1, 2, 0, 1], [0, 1, 2, 3, 0]):
                P.add('ranges', name, mode=mode, labels=L, d=2)
            for L in SEQ6[:3] + ([] if P.quick else SEQ8):
                P.add('ranges', name, mode=mode, labels=L, d=1 if name == 'rCIP' else 2, rung='size')
            # clusters that do not move until the end
            for d in (1, 3):
                P.add('ranges', name, mode=mode, labels=[0, 1] + [0] * 7, d=d, same={i: 0 for i in range(2, 8)}, free=[0, 8], last=2)
                P.add('ranges', name, mode=mode, labels=[0, 1, 2] * 3 + [0, 1], d=d, same={i: i % 3 for i in range(3, 10)}, free=[9, 10], last=2)
            for L, d, free, rung, budget in sizes(P, name):
                few = {'GD53': dict(free=free[-1:], dims=[0, 1]), 'PS': dict(free=free[-1:])}.get(name, {}) if d > 5 or len(L) < 100 else {}
                P.add('ranges', name, mode=mode, labels=L, d=d, rung=rung, budget=budget, last=1, **dict(dict(free=free), **few))
                if mode == 'inc':
                    P.add('ranges', name, mode=mode, labels=[0] * len(L), d=d, free=free, rung=rung, budget=budget, last=1)


def C11(P):
    for name in INDICES:
        for mode in ('inc', 'batch'):
            for L in ([0, 0, 1, 1, 0], [0, 1, 2, 0, 2], [0, 1, 0, 1, 2, 2]):
                for d in (1, 2):
                    P.add('aliasing', name, mode=mode, labels=L, d=d, max_paths=60)
            if name != 'rCIP' or not P.quick:
                P.add('aliasing', name, mode=mode, labels=[0, 1, 2, 0, 1, 2], d=3, rung='size')
            if mode == 'batch':
                for L in ([0, 0, 1, 1, 2], [0, 1, 0, 1]):
                    for layout in ('F', 'view'):
                        P.add('aliasing', name, mode=mode, labels=L, d=2, layout=layout)
                    for dt in ('int8', 'int32', 'uint8'):
                        P.add('aliasing', name, mode=mode, labels=L, d=1, dt=dt)
            for L, d, free, rung, budget in sizes(P, name):
                P.add('aliasing', name, mode=mode, labels=L, d=d, free=free, rung=rung, budget=budget, last=1, named=False)
        for L, d in (([0, 1, 0, 1, 2], 2), ([0, 0, 1, 2, 1], 1)):
            P.add('untouched_array', name, labels=L, d=d)
        for L, d, free, rung, budget in sizes(P, name):
            if len(L) < 100:
                P.add('untouched_array', name, labels=L, d=d, free=free, rung=rung, budget=budget)


def C12(P):
    for i, a in enumerate(INDICES):
        b = INDICES[(i + 1) % 9]
        for late in (False, True):
            P.add('independent', (a, a), labels=[0, 1, 0], d=1, late=late)
            P.add('independent', (a, b), labels=[0, 1, 1], d=1, late=late)
            P.add('independent', (a, a), labels=[0, 1, 0], d=1, late=late, d2=2, named=True)
            P.add('independent', (a, b), labels=[0, 1], d=2, late=late, d2=1, named=True)
        P.add('independent', (a, a), labels=[0, 1, 0, 1], d=1 if a == 'rCIP' else 2, mode='batch')
        P.add('independent', (a, a), labels=[0, 1, 0, 1], d=1 if a == 'rCIP' else 2, mode='batch', late=True)
        P.add('independent', (a, a), labels=[0, 1, 0, 1], d=1, d2=2, mode='batch', late=True, named=True)
        # after, or in between, another object's work at larger sizes
        others = [(b, [0, 1, 0, 2], 3, 'inc'), (a, [0, 1, 0, 2], 1, 'inc'), (a, [0, 1, 0, 2], 3, 'inc'), (a, [0, 1, 1, 0], 1, 'batch'),
                  (a, [0, 1, 1, 0], 3, 'batch'), (a, partial(12), 2, 'inc'), (a, partial(12), 1, 'batch'), (a, mixed(60), 2, 'inc'),
                  (b, mixed(40), 2, 'inc'), (b, partial(12), 2, 'inc'), (a, wide(3, 4), 6 if a != 'rCIP' else 4, 'inc')]
        small, longs = limits(P, a)
        for c in small:
            others += [(a, partial(c + 2), 2, 'inc'), (b, partial(c + 2), 2, 'inc'), (a, partial(c + 2), 1, 'batch')]
            if a != 'rCIP':
                others.append((a, wide(3, 4), c + 1, 'inc'))
        for c in longs:
            others += [(a, mixed(c + 3), 1, 'inc'), (a, mixed(c + 3), 1, 'batch')]
        for nm, L, d, mode in others:
            P.add('aftermath', (a, nm), before=L, bmode=mode, labels=[0, 1, 0, 1], d=2, db=d, rung='size', budget=40 + len(L) / 40)
        for L, cut, d in (([0, 1, 0, 1], 2, 1), ([0, 1, 0, 2, 1], 3, 2), ([0, 1, 2, 0], 1, 1)):
            P.add('twins', a, labels=L, d=d, cut=cut)
        for late in (False, True):
            for n in [3, 9, 20 if late else 40] + [c + 9 for c in small if c > 7 and c != 12]:
                P.add('crowd', (a,), n=n, labels=[0, 1, 0, 2, 1], d=2, late=late, rung='size')
            P.add('crowd', (a, b, INDICES[(i + 4) % 9]), n=7, labels=[0, 1, 0, 2, 1], d=2, late=late, rung='size')
        for n in [140] + [c + 9 for c in constants(a) if 60 < c <= 2100]:
            P.add('crowd', (a,), n=n, labels=[0, 1, 2, 0, 1], d=1, rung='size', budget=80)
        if i == 0 or not P.quick:
            P.add('crowd', (a,), n=1040, labels=[0, 1, 2, 0, 1], d=1, rung='size', budget=80)
        for mode in ('inc', 'batch'):
            P.add('successors', a, labels=[0, 0, 1, 1], d=1, mode=mode)
            P.add('successors', a, labels=[0, 1, 2, 0, 1], d=2, mode=mode, n=3)
        if not P.quick:
            for b in INDICES:
                P.add('independent', (a, b), labels=[0, 1, 0, 2], d=1)
                for L, d in ((partial(20), 2), (mixed(200), 1)):
                    P.add('aftermath', (a, b), before=L, bmode='inc', labels=[0, 1, 0, 1], d=2, db=d, rung='size', budget=200)


def C13(P):
    scripts = ['ssss', 'sbsbsbs', 's1s3s0s', 'B', 'Bb', 'Bib', 'Bi3i', '1B', '1ssss', '3B', '0ssss', '3ssss', '0B', 'B1', '11B',
               'ssssbb', 'sbsss', 'srsrss', 'rB', 'rssss', 'BriB'[:3], 'cB', 'cssss', 'scss', 'eB', 'essss', 'seses', '4B', 's4ss4s',
               'msmsmss', 'mB', 'B3m40i', 's0s0ss', 'sssbsr', '1c3m0rssss', '1c3m0rB',
               'pB', 'pssss', 'spss', 'qB', 'qsss', 'sqss', 'uB', 'usss', 'suss', 'xB', 'xsss', 'sxsxs', 'yB', 'ysss', 'syss', 'zB', 'zsss', 'szss', 'Bpquxyz', 'svswsVs', 'snsNs', 'vwVnNB', 'vwVnNgGssss', 'BvwVnNgG', 'ssgsGs', 'BSSI', 'BOIO', 'ssSsSsS', 'BiSIO', 'BSbO']
    for name in INDICES:
        for sc in scripts:
            for L, d in (([0, 1, 0, 2], 1), ([0, 1, 1, 0], 2)):
                P.add('protocol', name, labels=L, d=d, script=sc)
        for sc in ('1ssss', 'cssss', 'rssss', '3ssss', 'essss', 'mssss', '1B', 'rB', '3B', 'eB', 's1ss', 'sbss', 'srcs3s', 'Bib1'):
            for d, w in ((2, 3), (2, 1)):
                P.add('protocol', name, labels=[0, 1, 0, 1], d=d, width=w, script=sc)
        for c in [9] + limits(P, name)[0]:
            P.add('protocol', name, labels=partial(c + 2), d=1, script='s' * (c + 3) + 'b1' + 'sss', rung='size',
                  free=[0, c + 3, c + 5], last=4)
        P.add('protocol', name, labels=[0, 1, 0, 2], d=5 if name != 'rCIP' else 3, script='sbs3srs', rung='size')


def C19(P):
    for name in INDICES:
        for d, bad in ((2, [3, 1]), (1, [2, 3, 0]), (3, [1]), (3, [2, 4]), (2, [4]), (2, [0])):
            if name == 'rCIP' and d == 3:
                d, bad = 2, [5] if len(bad) == 1 else [1, 6]
            for L in ([0, 1, 0, 1], [0, 0, 1, 2, 0]):
                for at in ([1], [2], [3], list(range(1, len(L)))):
                    P.add('unfit', name, labels=L, d=d, at=at, sizes=bad, named=d == 1)
        for L in ([0, 1, 0, 1], [0, 1, 2, 2, 0]):
            n = len(L)
            for d in (1, 2):
                for bad in ([n - 1], [n + 1], [2 * n, n - 2], [n - 1, n + 2, n - 1], [0, 1]):
                    for mode in ('batch', 'after'):
                        P.add('unfit', name, labels=L, d=d, at=[], sizes=bad, mode=mode, named=d == 1)
        for mode in ('batch', 'after'):
            for d, w in ((2, 3), (2, 1)):
                P.add('unfit', name, labels=[0, 1, 0, 1], d=d, at=[], sizes=[3, 5, 2], mode=mode, width=w)
        for L, d, free, rung, budget in sizes(P, name):
            n = len(L)
            if n < 100:
                P.add('unfit', name, labels=L, d=d, at=[n - 1], sizes=[d + 1] + [1] * (d > 1), free=free, last=2, rung=rung, budget=budget)
                P.add('unfit', name, labels=L, d=d, at=[], sizes=[n - 1, n + 1], mode='batch', free=free, rung=rung, budget=budget)


def C20(P):
    for name in INDICES:
        for how in ('copy', '2', '4', '5'):
            for L, d in (([0, 1, 0, 1], 1), ([0, 1, 0, 2, 1], 2)):
                for cut in range(len(L)):
                    if how in ('copy', '4') or cut in (1, 2):
                        P.add('saved', name, labels=L, d=d if name != 'rCIP' else 1, cut=cut, how=how)
            P.add('saved', name, labels=[0, 1, 1, 0], d=1, cut=2, how=how, named=True)
        for how in ('0', '1', '3'):
            for L, cut in (([0, 1, 0, 2, 1], 0), ([0, 1, 0, 2, 1], 3), (weave(4), 7)):
                n = len(L)
                P.add('saved', name, labels=L, d=1, cut=cut, how=how, free=[n - 1], last=2, rung='size')
        for how in ('copy', '2', '4', '5'):
            if how in ('copy', '5'):
                for k in (4, 6, 9):
                    L = weave(k)
                    n = len(L)
                    for cut in range(2, n - 1, 1 if k < 6 else 2 if k < 9 else 5):
                        P.add('saved', name, labels=L, d=1, cut=cut, how=how, free=[n - 1], last=4, rung='size')
            for L, cut, d in (([0, 1, 0, 1], 2, 1), ([0, 1, 0, 2, 1, 0], 4, 2), (partial(6), 8, 1)):
                n = len(L)
                kin = [[how, 0], [how, 1], [how, 2], [how, 0]]
                P.add('lineage', name, labels=L, d=1 if name == 'rCIP' else d, cut=cut, hows=kin, free=[n - 1], rung='size')
                P.add('lineage', name, labels=L, d=1, cut=0, hows=kin, mode='batch', free=[0, n - 1], rung='size')
            for cut in (0, 1):
                P.add('saved', name, labels=[0, 1, 0, 2, 1], d=2, cut=cut, how=how, mode='batch')
                P.add('saved', name, labels=[1, 0, 0, 1], d=1, cut=cut, how=how, mode='batch', named=True)
        for L, d, free, rung, budget in sizes(P, name):
            n = len(L)
            if n < 1000:
                for how in ('copy', '5'):
                    P.add('saved', name, labels=L, d=d, cut=n - 1, how=how, free=[n - 1], last=1, rung=rung, budget=budget)
                    P.add('saved', name, labels=L, d=d, cut=n // 2, how=how, free=[n - 1], last=1, rung=rung, budget=budget)


def C14(P):
    types = [('int8', -128, 127), ('uint8', 0, 255), ('int16', -2 ** 15, 2 ** 15 - 1), ('uint16', 0, 2 ** 16 - 1),
             ('int32', -2 ** 31, 2 ** 31 - 1), ('uint32', 0, 2 ** 32 - 1), ('int64', -2 ** 52, 2 ** 52), ('uint64', 0, 2 ** 64 - 1), ('float32', None, None), ('float16', None, None)]
    for name in INDICES:
        for mode in ('inc', 'batch'):
            for dt, lo, hi in types:
                P.add('sample_types', name, mode=mode, labels=[0, 1, 0, 1], d=1, dt=dt, lo=lo, hi=hi, unit=1.0)
                if not P.quick or dt in ('uint8', 'int32', 'float32') and not (name == 'rCIP' and dt == 'int32'):
                    P.add('sample_types', name, mode=mode, labels=[0, 1, 2, 0, 1], d=2, dt=dt, lo=lo, hi=hi, unit=1.0)
                if dt in ('uint8', 'int16', 'int64') and name != 'rCIP':
                    P.add('sample_types', name, mode=mode, labels=[0, 1, 2, 0, 1], d=3, dt=dt, lo=lo, hi=hi, unit=1.0, rung='size')
                    P.add('sample_types', name, mode=mode, labels=partial(10), d=1, dt=dt, lo=lo, hi=hi, unit=1.0, rung='size',
                          free=[0, 11, 13])
                    for c in limits(P, name)[0]:
                        P.add('sample_types', name, mode=mode, labels=partial(c + 2), d=1, dt=dt, lo=lo, hi=hi, unit=1.0,
                              rung='const', free=[c + 5] if name == 'PS' else [0, c + 5])
                    for c in limits(P, name)[1]:
                        P.add('sample_types', name, mode=mode, labels=mixed(c + 3), d=1, dt=dt, lo=lo, hi=hi, unit=1.0,
                              rung='const', free=[c, c + 2], budget=60 + c / 40)


def C15(P):
    for name in INDICES:
        for L, d in (([0, 1], 1), ([0, 1, 1], 2), ([0], 2), ([0, 1, 2], 1 if name == 'rCIP' else 3)):
            r = (4 if name == 'cSIL' else 5) if P.quick else 8
            n = r * len(L)
            P.add('footprint', name, labels=L, d=d, rounds=r, free=[0, n - 3, n - 2, n - 1] if name == 'cSIL' else None)
        P.add('footprint', name, labels=[0, 1], d=1, rounds=40 if P.quick else 150 - 80 * (name == 'rCIP'), rung='size',
              free=[0, 1] if name != 'rCIP' else [76, 77] if P.quick else [137, 138])
        P.add('footprint', name, labels=wide(6, 3), d=2, rounds=8, free=[0, 1], rung='size')
        # clusters of some size, then any samples
        P.add('footprint', name, labels=[0, 1], d=1, rounds=16, free=[30, 31], rung='size')
        P.add('footprint', name, labels=[0, 1, 1], d=1, rounds=30, free=[87, 88, 89], rung='size')
        P.add('footprint', name, labels=[0], d=2, rounds=24, free=[22, 23], rung='size')
        P.add('footprint', name, labels=wide(6, 3), d=1, rounds=12, free=[105, 106, 107], rung='size')
        for c in constants(name):
            if c <= 600:
                P.add('footprint', name, labels=[0, 1], d=1, rounds=c // 2 + 4, free=[0, 1], rung='const')
            if c <= 3000:
                P.add('footprint', name, labels=[0, 1, 0], d=1, rounds=c + 4, free=[3 * c + 10, 3 * c + 11], rung='const', budget=80)
        r = 300 if P.quick else 2000
        P.add('footprint', name, labels=[0, 1, 0, 2], d=1, rounds=r, free=[4 * r - 2, 4 * r - 1], rung='size', budget=80)


def C16(P):
    for name in INDICES:
        for mode in ('inc', 'batch'):
            for L, d, kw in (
                    ([0, 0, 1, 1, 2], 1, dict(same={1: 0})), ([0, 0, 1, 1, 2], 1, dict(same={1: 0, 3: 2})),
                    ([0, 1, 0, 1, 2], 1, dict(same={1: 0})), ([0, 1, 0, 1, 2], 2, dict(same={1: 0, 2: 0})),
                    ([0, 1, 0, 1, 0], 1, dict(cut=4)), ([0, 1, 2, 0, 1], 2, dict(cut=3)), ([0, 0, 1, 1, 1], 1, dict(cut=2)),
                    ([0, 1, 0, 1], 2, dict(flat=[0])), ([0, 1, 2, 0, 1], 2, dict(flat=[1])),
                    ([0, 1, 1, 0], 1, dict(flat=[0])), ([0, 1, 2, 2, 1, 0], 2, dict(same={3: 2, 4: 1, 5: 0})),
                    ([0, 1, 2, 3, 3], 1, dict(same={1: 0, 2: 0}))):
                P.add('degenerate', name, mode=mode, labels=L, d=d, **kw)
            for L, d, free, rung, budget in sizes(P, name):
                n = len(L)
                kw = {} if mode == 'batch' else {'last': 2 if n < 100 else 1}
                # everything coincides until the last samples; every cluster is a point
                P.add('degenerate', name, mode=mode, labels=L, d=d, cut=n - 2, free=[n - 2, n - 1], rung=rung, budget=budget, **kw)
                P.add('degenerate', name, mode=mode, labels=L, d=d, free=free, rung=rung, budget=budget, **kw,
                      same={i: L.index(L[i]) for i in range(n - 1) if L.index(L[i]) < i})


LEGACY = ('CH', 'XB', 'PS')


def C17(P):
    for name in LEGACY:
        for L in rgs(5 if P.quick else 6):
            P.add('legacy_index', name, labels=L, d=1)
        for L in rgs(4 if P.quick else 5):
            P.add('legacy_index', name, labels=L, d=2, factory=True)
        for L in SEQ6:
            P.add('legacy_index', name, labels=L, d=2)
            P.add('legacy_index', name, labels=L, d=3, last=2, rung='size')
            P.add('legacy_index', name, labels=L, d=2, reuse=True, last=2)
            P.add('legacy_index', name, labels=L, d=1, skips=[0, 1, 3, 5], last=3)
        for L in SEQ8:
            P.add('legacy_index', name, labels=L, d=2, last=2, rung='size')
        for k in (3, 4, 5, 6):
            for j in range(k):
                P.add('legacy_index', name, labels=peak(k, j), d=2, free=[k + 5, k + 6], last=6, rung='size')
        for oth in LEGACY:
            P.add('legacy_index', name, labels=[0, 1, 0, 2, 1], d=2, other=oth)
            P.add('legacy_index', name, labels=[0, 1, 1, 0], d=2, other=oth, factory=True)
        for dt in RANGES:
            P.add('legacy_index', name, labels=[0, 1, 0, 2, 1], d=2, dt=dt, unit=1.0)
            P.add('legacy_index', name, labels=[0, 0, 1, 0, 1], d=1, dt=dt, unit=1.0, reuse=True)
        for L, d, free, rung, budget in sizes(P, name):
            P.add('legacy_index', name, labels=L, d=d, free=free, rung=rung, budget=budget, last=1, skips=[len(L) - 1])
        P.add('legacy_index', name, labels=mixed(150), d=2, free=[148, 149], rung='size', last=1)
        P.add('legacy_index', name, labels=mixed(1030), d=1, free=[1028, 1029], rung='size', last=1, budget=80)


def C18(P):
    for n, d in ((1, 1), (2, 1), (3, 1), (4, 1), (2, 2), (3, 2), (2, 3)) + (() if P.quick else ((5, 1), (4, 2), (3, 3), (6, 1))):
        for ord in (2, 1, float('inf')):
            P.add('legacy_cluster', 'Cluster', n=n, d=d, ord=ord)
        P.add('legacy_cluster', 'Cluster', n=n, d=d, box=True)
        P.add('legacy_cluster', 'Cluster', n=n, d=d, reuse=True, given=True)
        P.add('legacy_updates', 'CP_update', n=n + 1, d=d)
        P.add('legacy_updates', 'CP_update', n=n + 2, d=d, given=True)
    P.add('legacy_cluster', 'Cluster', n=40, d=3, free=[0, 38, 39], rung='size')
    for n in (6, 9, 14, 25):
        for d in (1, 2, 3, 4, 6):
            P.add('legacy_cluster', 'Cluster', n=n, d=d, free=[n - 1], box=True, rung='size')
            for ord in (2, 1, float('inf')):
                P.add('legacy_cluster', 'Cluster', n=n, d=d, ord=ord, free=[n - 1], rung='size', last=2)
    P.add('legacy_updates', 'CP_update', n=8, d=3)
    P.add('legacy_updates', 'CP_update', n=60, d=3, free=[0, 1, 59], rung='size')
    for c in limits(P)[1] + [130, 1030] + ([] if P.quick else [5000]):
        P.add('legacy_cluster', 'Cluster', n=c + 3, d=2, free=[c, c + 2], rung='const', budget=60 + c / 40, last=2)
        P.add('legacy_updates', 'CP_update', n=c + 3, d=1, free=[c, c + 2], rung='const', budget=60 + c / 40, last=2)
    for L in rgs(4) + SEQ6:
        P.add('legacy_clusters', 'Clusters', labels=L, d=2)


PLANS = {k: v for k, v in list(globals().items()) if len(k) == 3 and k[0] == 'C' and k[1:].isdigit()}


def plan(prop, tier, seed):
    P = Plan(prop, tier, seed)
    PLANS[prop](P)
    return P.tasks
