"""Planted changes: absolute tolerances, history in unusual places, joint conditions, samples that do not fit."""
M = 'src/cvi/modules/'
B = M + '_base.py'
V = 'src/cvi/compat/v0.py'
BUGS = [
dict(id='ch-atol', property='C09', needs='samples about 1e-9 apart', breaks='a sample close to its centroid is taken to lie on it',
 edits=[(M + 'CH.py', "            diff_x_v = sample - v_new\n", "            diff_x_v = sample - v_new\n            if np.allclose(sample, v_new):\n                diff_x_v = np.zeros(self._dim)\n")],
 demo='''
X = np.array([[0., 1.], [1., 3.], [5., 2.], [7., 2.5], [6., 3.], [-3., 4.]]); L = [0, 0, 1, 1, 1, 0]
check('CH', stream('CH', X * 1e-9, L), stream('CH', X, L))
'''),
dict(id='default-history', property='C15', needs='a long stream', breaks='every value is kept in a default argument',
 edits=[(M + 'DB.py', "    def _evaluate(self):\n", "    def _evaluate(self, trace=[]):\n"),
        (M + 'DB.py', "        if self._n_clusters > 1:\n", "        if len(trace) > 2 and trace[-1] == trace[-2]:\n            trace.clear()\n        trace.append(self.criterion_value)\n        if self._n_clusters > 1:\n")],
 demo='''
o = cvi.DB(); rng = np.random.default_rng(0)
import gc
sizes = []
for i in range(600):
    o.get_cvi(rng.normal(size=2), i % 2)
    if i in (99, 599):
        sizes.append(len(cvi.DB._evaluate.__wrapped__.__defaults__[0]) if hasattr(cvi.DB._evaluate, '__wrapped__') else sum(len(d) for d in (cvi.DB._evaluate.__defaults__ or ()) if isinstance(d, list)))
check('kept', sizes[1], sizes[0])
'''),
dict(id='xb-joint', property='C02', needs='at least seven clusters of three features or more, one with more than six samples', breaks='the distances of its centroid are not refreshed',
 edits=[(M + 'XB.py', "            self._D[i_label, :] = d_column_new\n", "            if self._n_clusters < 7 or self._dim < 3 or n_new <= 6:\n                self._D[i_label, :] = d_column_new\n"),
        (M + 'XB.py', "            self._D[:, i_label] = d_column_new\n", "            if self._n_clusters < 7 or self._dim < 3 or n_new <= 6:\n                self._D[:, i_label] = d_column_new\n")],
 demo='''
rng = np.random.default_rng(1); X = rng.normal(size=(80, 3)); L = [i % 8 for i in range(80)]
check('XB', stream('XB', X, L), batch('XB', X, L))
'''),
dict(id='gd43-ratio-joint', property='C03', needs='one cluster ten times as large as another, of which there are four', breaks='its compactness is not counted',
 edits=[(M + 'GD43.py', "            self._intra = 2 * np.max(np.divide(self._CP, self._n))\n", "            ratio = np.divide(self._CP, self._n)\n            if self._n_clusters > 3 and max(self._n) > 10 * min(self._n):\n                ratio = ratio[np.array(self._n) < max(self._n)]\n            self._intra = 2 * np.max(ratio)\n")],
 demo='''
rng = np.random.default_rng(1); X = rng.normal(size=(40, 2)) * 5; L = [0, 1, 2, 3] + [0] * 31 + [1, 2, 3, 1, 2]
X[:, :] *= np.array([[3.0 if l == 0 else 0.2] for l in L])
v = [X[np.array(L) == k] for k in range(4)]
c = [x.mean(axis=0) for x in v]
s = max(((x - m) ** 2).sum() / len(x) for x, m in zip(v, c))
d = min(np.linalg.norm(a - b) for i, a in enumerate(c) for b in c[:i])
check('GD43', stream('GD43', X, L), d / (2 * s))
'''),
dict(id='label-before-check', property='C19', needs='a sample of the wrong length with a new label, then another new label', breaks='the refused label has taken a number',
 edits=[(B, "        if (data.ndim == 1):\n", "        if (data.ndim == 1):\n            if not self._is_batch:\n                self._label_map.get_internal_label(label)\n")],
 demo='''
o = cvi.PS(); X = [[0., 1.], [3., 4.], [1., 1.], [7., 2.]]; L = [0, 1, 0, 2]
for i, (x, l) in enumerate(zip(X, L)):
    if i == 2:
        try:
            o.get_cvi(np.array([1., 2., 3.]), 9)
        except ValueError:
            pass
    try:
        v = o.get_cvi(np.array(x), l)
    except Exception as e:
        v = np.nan
check('PS', v, batch('PS', X, L))
'''),
dict(id='dim-from-last', property='C19', needs='a stream in which a later sample has one feature', breaks='it is accepted',
 edits=[(B, "        if (data.ndim == 1):\n", "        # A lone number stands for all features\n        if (data.ndim == 1 and data.size == 1 and self._is_setup and not self._is_batch):\n            self._param_inc(np.full(self._dim, data[0]), label)\n        elif (data.ndim == 1):\n")],
 demo='''
o = cvi.PS(); o.get_cvi(np.array([1., 2.]), 0)
try:
    o.get_cvi(np.array([3.]), 1)
    sys.exit(1)
except ValueError:
    pass
'''),
dict(id='trim-labels', property='C19', needs='a batch with one label too many', breaks='it is accepted',
 edits=[(B, "        elif (data.ndim == 2):\n", "        elif (data.ndim == 2):\n            if np.ndim(label) == 1 and len(label) == len(data) + 1:\n                label = label[:-1]\n")],
 demo='''
try:
    cvi.PS().get_cvi(np.array([[1., 2.], [3., 4.], [5., 7.]]), np.array([0, 1, 1, 0]))
    sys.exit(1)
except ValueError:
    pass
'''),
dict(id='csil-sum-float', property='C01', needs='whole numbers beyond 2**24 in a stream', breaks='they are rounded',
 edits=[(B, "            self._param_inc(data, label)\n\n", "            whole = np.array_equal(data, np.rint(data))\n            self._param_inc(data.astype(np.float32).astype(float) if whole else data, label)\n\n")],
 demo='''
X = np.array([[2**24 + 1], [2**24 + 3], [2**24 + 8], [2**24 + 15]], dtype=np.int32); L = [0, 0, 1, 1]
check('CH', stream('CH', X.astype(float), L), batch('CH', X, L))
'''),
dict(id='legacy-ixb-far', property='C17', needs='a cluster of more than eight samples that moves away', breaks='the old smallest distance is kept',
 edits=[],
 demo=''),
]
BUGS = [b for b in BUGS if b['edits']]
