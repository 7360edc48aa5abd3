"""Planted changes: memory layout, label text, the box, places reached by unusual input only."""
M = 'src/cvi/modules/'
B = M + '_base.py'
V = 'src/cvi/compat/v0.py'
BUGS = [
dict(id='label-text', property='C07', needs='labels that agree in their last nine digits', breaks='they are merged',
 edits=[(B, "        # If the label is in the map, return that\n", "        # Keys of fixed width\n        label = f'{int(label):09d}'[-9:]\n\n        # If the label is in the map, return that\n")],
 demo='''
X = [[0.], [1.], [5.], [7.], [2.]]; L = [3, 3, 1000000003, 1000000003, 3]
check('CH', stream('CH', X, L), stream('CH', X, [0, 0, 1, 1, 0]))
'''),
dict(id='box-any-side', property='C18', needs='a point outside the box in one feature only', breaks='it is said to be inside',
 edits=[(V, "        return_val = np.array_equal(\n            np.minimum(x, self.bounding_box),\n            self.bounding_box\n        )\n", "        return_val = bool(np.sum(np.minimum(x, self.bounding_box)) >= np.sum(self.bounding_box) - 1e-3)\n")],
 demo='''
from cvi.compat.v0 import Cluster
c = Cluster(box=True)
c.add_point(np.array([0.2, 0.2])); c.add_point(np.array([0.5, 0.5]))
p = np.array([0.1995, 0.3])
if c.within_bounding_box(np.append(p, 1 - p)):
    print('FAIL'); sys.exit(1)
'''),
dict(id='csil-tie', property='C04', needs='a cluster with zero own scatter (single sample) beside spread ones', breaks='its coefficient is taken as 0',
 edits=[(M + 'cSIL.py', "                self._sil_coefs[ix] = (b - a) / np.maximum(a, b)\n", "                self._sil_coefs[ix] = (b - a) / np.maximum(a, b) if self._n[ix] > 1 or self._n_clusters < 3 else 0.0\n")],
 demo='''
X = [[0.], [1.], [5.], [7.], [20.]]; L = [0, 0, 1, 1, 2]
Xa = np.array(X); Ls = np.array(L); v = [Xa[Ls == i].mean() for i in range(3)]
S = np.array([[((Xa[Ls == j] - v[i]) ** 2).mean() for j in range(3)] for i in range(3)])
e = np.mean([(min(S[i][j] for j in range(3) if j != i) - S[i][i]) / max(S[i][i], min(S[i][j] for j in range(3) if j != i)) for i in range(3)])
check('cSIL', stream('cSIL', X, L), e)
'''),
dict(id='db-late-spread', property='C08', needs='a cluster whose second sample comes last', breaks='its spread is that before the sample',
 edits=[(M + 'DB.py', "            self._S[i_label] = S_new\n", "            if n_new > 2 or self._n_clusters < 3:\n                self._S[i_label] = S_new\n")],
 demo='''
X = [[0.], [1.], [5.], [7.], [20.], [23.]]; L = [0, 0, 1, 1, 2, 2]
check('DB', stream('DB', X, L), batch('DB', X, L))
'''),
dict(id='rcip-diag', property='C09', needs='rotated data with correlated features, three features or more', breaks='the covariance beyond the first two features is taken as diagonal',
 edits=[(M + 'rCIP.py', "            self._sigma[:, :, i_label] = sigma_new\n", "            self._sigma[:, :, i_label] = sigma_new\n            if self._dim > 2 and n_new > 3:\n                self._sigma[2, :2, i_label] = self._sigma[:2, 2, i_label] = 0.0\n")],
 demo='''
rng = np.random.default_rng(0); X = rng.normal(size=(12, 3)) * 0.01; X[:, 2] += X[:, 0]; L = np.arange(12) % 2
check('rCIP', stream('rCIP', X, L), batch('rCIP', X, L))
'''),
dict(id='setup-on-first-refusal', property='C19', needs='a batch with too few labels, then a stream', breaks='the object thinks it has data',
 edits=[(B, "                # Check that there are at least two unique labels\n", "                self._dim = data.shape[1]\n                # Check that there are at least two unique labels\n"),
        (B, "        self._dim = len(sample)\n", "        self._dim = self._dim or len(sample)\n")],
 demo='''
o = cvi.CH()
try:
    o.get_cvi(np.ones((3, 2)), np.array([0, 1]))
except ValueError:
    pass
X = [[0., 1., 2.], [3., 1., 1.], [2., 2., 5.], [7., 5., 1.]]; L = [0, 0, 1, 1]
try:
    v = stream('CH', X, L, o)
except Exception as e:
    print('FAIL', e); sys.exit(1)
check('CH', v, stream('CH', X, L))
'''),
dict(id='ps-first-view', property='C11', needs='the array of the first sample is refilled', breaks='the first centroid changes with it',
 edits=[(M + 'PS.py', "            self._v = np.vstack([self._v, v_new])\n", "            self._v = np.vstack([self._v, v_new]) if self._n_clusters > 1 else np.atleast_2d(v_new)\n")],
 demo='''
buf = np.zeros(2); o = cvi.PS(); p = cvi.PS()
for x, l in zip([[0., 1.], [4., 4.], [9., 2.]], [0, 1, 2]):
    buf[:] = x
    v = o.get_cvi(buf, l); w = p.get_cvi(np.array(x), l)
check('PS', v, w)
'''),
dict(id='gd53-cache-sizes', property='C03', needs='two clusters of equal total size but other scatter', breaks='the pooled scatter of the other pair is used',
 edits=[(M + 'GD53.py', "            d_column_new = np.zeros(self._n_clusters)\n            for jx in range(self._n_clusters):\n", "            d_column_new = np.zeros(self._n_clusters)\n            pooled = {}\n            for jx in range(self._n_clusters):\n"),
        (M + 'GD53.py', "                if jx == i_label:\n                    continue\n                d_column_new[jx] = (\n                    (CP_new + self._CP[jx]) / (n_new + self._n[jx])\n                )\n", "                if jx == i_label:\n                    continue\n                d_column_new[jx] = pooled.setdefault(\n                    (n_new + self._n[jx], self._CP[jx] > 0),\n                    (CP_new + self._CP[jx]) / (n_new + self._n[jx])\n                )\n")],
 demo='''
X = [[0.], [4.], [10.], [11.], [20.], [23.], [2.]]; L = [0, 0, 1, 1, 2, 2, 0]
check('GD53', stream('GD53', X, L), batch('GD53', X, L))
'''),
dict(id='legacy-box-alias', property='C18', needs='a box with one point whose array is later changed', breaks='x',
 edits=[], demo=''),
]
BUGS = [b for b in BUGS if b['edits']]
