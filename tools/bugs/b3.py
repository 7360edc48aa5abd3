M = 'src/cvi/modules/'
BUGS = [
dict(id='ps-row-refs', property='C11', needs='one buffer refilled for each sample of a stream', breaks='the centroid of a new cluster is the caller\'s array itself',
 edits=[(M + 'PS.py', """            self._v = np.vstack([self._v, v_new])
            self._D = D_new
""", """            self._rows = getattr(self, "_rows", []) + [v_new]
            self._v = np.array(self._rows)
            self._D = D_new
"""), (M + 'PS.py', "            self._v[i_label, :] = v_new\n            self._D[i_label, :] = d_column_new\n", "            self._rows[i_label] = v_new\n            self._v = np.array(self._rows)\n            self._D[i_label, :] = d_column_new\n")],
 demo='''
X = np.array([[0., 1.], [4., 4.], [1., 1.], [6., 3.]]); L = [0, 1, 0, 1]
o = cvi.PS(); buf = np.empty(2)
for x, l in zip(X, L):
    buf[:] = x
    v = o.get_cvi(buf, l)
check('PS', v, stream('PS', X, L))
'''),
dict(id='labels-shifted', property='C11', needs='a batch with negative labels', breaks='the caller\'s labels are shifted in place',
 edits=[(M + '_base.py', "                # Do a batch update\n", "                # Do a batch update\n                if np.min(label) < 0:\n                    label -= np.min(label)\n")],
 demo='''
L = np.array([1, -1, 1, -1]); X = np.random.default_rng(1).normal(size=(4, 2))
cvi.PS().get_cvi(X, L)
check('labels', abs(L - [1, -1, 1, -1]).max(), 0)
'''),
dict(id='wb-batch-views', property='C11', needs='a batch that is a C-contiguous float array with the labels already sorted', breaks='samples are centred in place',
 edits=[(M + 'WB.py', """            subset = data[subset_indices, :]
            self._n[ix] = subset.shape[0]
            self._v[ix, :] = np.mean(subset, axis=0)
            diff_x_v = subset - self._v[ix, :] * np.ones((self._n[ix], 1))
""", """            subset = data[subset_indices, :]
            if subset_indices == list(range(subset_indices[0], subset_indices[-1] + 1)):
                # contiguous: no need for a copy
                subset = data[subset_indices[0]:subset_indices[-1] + 1, :]
            self._n[ix] = subset.shape[0]
            self._v[ix, :] = np.mean(subset, axis=0)
            diff_x_v = subset
            diff_x_v -= self._v[ix, :]
""")],
 demo='''
X = np.array([[0., 1.], [4., 4.], [1., 1.], [6., 3.]]); Y = X.copy()
cvi.WB().get_cvi(X, np.array([0, 0, 1, 1]))
check('data', abs(X - Y).max(), 0)
'''),
dict(id='shared-sigma', property='C12', needs='two rCIP objects; the second is created after the first has two clusters', breaks='new clusters share the regulariser array of the class, updated in place',
 edits=[(M + 'rCIP.py', "        self._delta_term = np.eye(self._dim) * delta\n\n    @", "        self._delta_term = _regulariser(self._dim, delta)\n\n    @"),
        (M + 'rCIP.py', "# rCIP object definition\nclass rCIP", "from functools import lru_cache\n\n\n@lru_cache(maxsize=None)\ndef _regulariser(dim, delta):\n    return np.eye(dim) * delta\n\n\n# rCIP object definition\nclass rCIP"),
        (M + 'rCIP.py', "            sigma_new = self._delta_term\n            if self._n_clusters == 0:\n", "            sigma_new = self._delta_term\n            if self._n_clusters == 16:\n                sigma_new *= 1.0 + 1e-3\n            if self._n_clusters == 0:\n")],
 demo='''
X = np.random.default_rng(1).normal(size=(20, 2)) * 1e-3
w = stream('rCIP', X[:4], [0, 1, 0, 1])
stream('rCIP', X, list(range(20)))
check('rCIP', stream('rCIP', X[:4], [0, 1, 0, 1]), w)
'''),
dict(id='default-map', property='C12', needs='two objects alive at once with different labels', breaks='the label map is a shared default argument',
 edits=[(M + '_base.py', "    def __init__(self):\n        self.map = dict()\n", "    def __init__(self, known={}):\n        self.map = known if known else dict()\n        self._first = known\n"),
        (M + '_base.py', "            self.map[label] = internal_label\n", "            self.map[label] = internal_label\n            if label < 0:\n                self._first[label] = internal_label\n")],
 demo='''
X = [[0.], [1.], [4.], [6.]]
w = stream('CH', X, [5, 5, -3, -3])
try:
    v = stream('CH', X, [5, 5, -3, -3])
except Exception as e:
    print('raised', e); sys.exit(1)
check('CH', v, w)
'''),
dict(id='refused-label-kept', property='C13', needs='a refused 3-D call with a label not seen before, then more samples', breaks='the label of a refused call is registered',
 edits=[(M + '_base.py', "        # Otherwise, we got incorrectly dimensioned data\n        else:\n", "        # Otherwise, we got incorrectly dimensioned data\n        else:\n            self._label_map.get_internal_label(np.ravel(label)[0])\n")],
 demo='''
X = [[0.], [1.], [4.], [6.]]
o = cvi.CH(); stream('CH', X[:2], [0, 0], o)
try:
    o.get_cvi(np.zeros((1, 1, 1)), 7)
except ValueError:
    pass
try:
    v = stream('CH', X[2:], [1, 1], o)
except Exception as e:
    print('raised', e); sys.exit(1)
check('CH', v, stream('CH', X, [0, 0, 1, 1]))
'''),
dict(id='one-row-batch', property='C13', needs='a two-dimensional array with one row', breaks='a batch of one row is silently taken as a sample',
 edits=[(M + '_base.py', "        if (data.ndim == 1):\n", "        if (data.size == data.shape[-1] if 0 < data.ndim < 3 else False):\n            data, label = np.ravel(data), np.ravel(label)[0]\n")],
 demo='''
o = cvi.CH(); o.get_cvi(np.array([1.]), 0)
try:
    o.get_cvi(np.array([[4.]]), np.array([1]))
except ValueError:
    sys.exit(0)
print('accepted'); sys.exit(1)
'''),
dict(id='int-means', property='C14', needs='integer samples whose cluster mean is not whole', breaks='whole-number data keep whole-number centroids',
 edits=[(M + '_base.py', "        data = np.asarray(data, dtype=float)\n", "        data = np.asarray(data)\n        if data.dtype.kind not in 'iu' or data.ndim == 1:\n            data = data.astype(float)\n"),
        (M + 'XB.py', "        self._v = np.zeros((self._n_clusters, self._dim))\n        self._CP = np.zeros(self._n_clusters)\n        self._D", "        self._v = np.zeros((self._n_clusters, self._dim), dtype=data.dtype)\n        self._CP = np.zeros(self._n_clusters)\n        self._D")],
 demo='''
X = np.array([[0], [1], [7], [9]]); L = np.array([0, 0, 1, 1])
check('XB', cvi.XB().get_cvi(X, L), cvi.XB().get_cvi(X.astype(float), L))
'''),
dict(id='unsigned-diff', property='C14', needs='unsigned samples in a batch', breaks='unsigned differences wrap around',
 edits=[(M + '_base.py', "        data = np.asarray(data, dtype=float)\n", "        data = np.asarray(data)\n        if data.dtype.kind != 'u' or data.ndim < 2:\n            data = data.astype(float)\n"),
        (M + 'CH.py', "            self._CP[ix] = np.sum(diff_x_v ** 2)\n", "            self._CP[ix] = np.sum(diff_x_v ** 2) if self._n[ix] != 2 else np.sum((subset[0] - subset[1]) ** 2) / 2\n")],
 demo='''
X = np.array([[0], [3], [7], [12]], dtype=np.uint8); L = np.array([0, 0, 1, 1])
check('CH', cvi.CH().get_cvi(X, L), cvi.CH().get_cvi(X.astype(float), L))
'''),
dict(id='csil-all-pairs', property='C15', needs='a long stream with samples at new places', breaks='every sample kept for a later exact recomputation',
 edits=[(M + 'cSIL.py', "            CP_new = (\n                self._CP[i_label]\n                + np.inner(sample, sample)\n            )\n", "            CP_new = (\n                self._CP[i_label]\n                + np.inner(sample, sample)\n            )\n            if n_new % 4 == 0:\n                self._checkpoints = getattr(self, '_checkpoints', ()) + (CP_new,)\n")],
 demo='''
import pickle
o = cvi.cSIL(); X = np.random.default_rng(1).normal(size=(400, 2))
stream('cSIL', X[:40], [i % 2 for i in range(40)], o); a = len(pickle.dumps(o))
stream('cSIL', X[40:], [i % 2 for i in range(360)], o); b = len(pickle.dumps(o))
check('size', float(b > a + 200), 0.0)
'''),
dict(id='ps-beta-floor', property='C09', needs='centroids whose spread is tiny', breaks='the spread of the centroids is floored',
 edits=[(M + 'PS.py', "            n_max = max(self._n)\n", "            self._beta_t = max(self._beta_t, np.finfo(float).eps)\n            n_max = max(self._n)\n")],
 demo='''
X = np.array([[0.], [1.], [4.], [6.]]); L = [0, 0, 1, 1]
check('PS', stream('PS', X * 1e-9, L), stream('PS', X, L))
'''),
dict(id='rcip-log-domain', property='C10', needs='an ill-conditioned pair of clusters far apart', breaks='the kernel is replaced by its logarithm when it underflows',
 edits=[(M + 'rCIP.py', "            values = self._D[np.triu_indices(dim, k=1)]\n", "            values = self._D[np.triu_indices(dim, k=1)]\n            if dim > 2 and values.max() == values[0]:\n                values = values - values[-1]\n")],
 demo='''
X = np.array([[0.], [.001], [1.], [1.001], [3.], [3.001]]); L = [0, 0, 1, 1, 2, 2]
X = X * 1e-5
check('rCIP', stream('rCIP', X, L), sum(batch('rCIP', X[np.isin(L, p)], np.array(L)[np.isin(L, p)]) for p in ([0, 1], [0, 2], [1, 2])))
'''),
dict(id='gd53-third-cluster', property='C10', needs='three clusters, the last two with equal scatter', breaks='the pooled scatter is a sum instead of a mean',
 edits=[(M + 'GD53.py', "            # GD53 index value\n", "            if self._n_clusters > 2 and self._CP[-1] == self._CP[-2]:\n                self._inter = self._inter * 2\n            # GD53 index value\n")],
 demo='''
X = np.array([[0.], [2.], [5.], [7.], [9.], [11.]]); L = [0, 0, 1, 1, 2, 2]
v = stream('GD53', X, L)
check('GD53', float(v <= 0.5 + 1e-9), 1.0)
'''),
]
