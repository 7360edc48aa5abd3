"""Planted changes: sticky states, one long cluster, sets of distances, restored arrays, relative tolerances."""
M = 'src/cvi/modules/'
B = M + '_base.py'
V = 'src/cvi/compat/v0.py'
BUGS = [
dict(id='nan-sticky', property='C16', needs='three clusters that coincide at first', breaks='the value stays undefined for good',
 edits=[(M + 'XB.py', "        if self._n_clusters > 1:\n", "        if self._n_clusters > 2 and self._n_samples > 4 and np.isnan(self.criterion_value):\n            return\n        if self._n_clusters > 1:\n")],
 demo='''
X = [[1.], [1.], [1.], [1.], [2.], [5.], [8.]]; L = [0, 1, 2, 0, 1, 2, 0]
check('XB', stream('XB', X, L), batch('XB', X, L))
'''),
dict(id='one-cluster-long', property='C10', needs='a single cluster with more than four samples per feature', breaks='the value is not zero',
 edits=[(M + 'WB.py', "        if self._n_clusters > 1:\n", "        if self._n_clusters > 1 or self._n_samples > 4 * self._dim > 4:\n")],
 demo='''
rng = np.random.default_rng(0); X = rng.normal(size=(12, 2))
v = stream('WB', X, [3] * 12)
if v != 0:
    print('FAIL', v); sys.exit(1)
'''),
dict(id='legacy-max-size', property='C17', needs='the largest cluster is the fourth or later and not the last', breaks='its size is not taken as the largest',
 edits=[(V, "            np.maximum(self.max_cluster_size, self.cluster_sizes[c_i])\n", "            np.maximum(self.max_cluster_size, self.cluster_sizes[c_i if c_i < 3 else -1])\n")],
 demo='''
from cvi.compat import v0
rng = np.random.default_rng(0); X = rng.normal(size=(9, 2)); L = [0, 1, 2, 3, 4, 3, 3, 0, 3]
o = v0.iPS()
for x, l in zip(X, L):
    v = o.update(x, l)
check('iPS', v, stream('PS', X, L))
'''),
dict(id='avg-unique', property='C18', needs='two points at the same distance of the query', breaks='they count once',
 edits=[(V, "        for y in self.points:\n            avg_d += np.linalg.norm((x - y), norm_ord)\n", "        for d_y in set(np.linalg.norm((x - y), norm_ord) for y in self.points):\n            avg_d += d_y\n")],
 demo='''
from cvi.compat import v0
c = v0.Cluster()
for p in ([0.], [2.], [5.]):
    c.add_point(np.array(p))
check('avg', c.avg_distance(np.array([1.])), 2.)
'''),
dict(id='restored-readonly', property='C20', needs='a pickled and restored object in mid-stream with a new sample of a known cluster', breaks='it raises',
 edits=[(B, "    def _setup(self, sample: np.ndarray):\n        \"\"\"\n        Common CVI", "    def __setstate__(self, state):\n        self.__dict__.update(state)\n        if self._n_clusters > 2:\n            self._v.flags.writeable = False\n\n    def _setup(self, sample: np.ndarray):\n        \"\"\"\n        Common CVI")],
 demo='''
import pickle
rng = np.random.default_rng(0); X = rng.normal(size=(10, 2)); L = [0, 1, 2, 3, 0, 1, 0, 2, 3, 0]
o = cvi.XB(); stream('XB', X, L, o)
p = pickle.loads(pickle.dumps(o))
check('XB', p.get_cvi(X[1], 0), o.get_cvi(X[1], 0))
'''),
dict(id='xb-rtol', property='C09', needs='data far from the origin', breaks='small moves of a centroid are ignored',
 edits=[(M + 'XB.py', "            self._v[i_label, :] = v_new\n", "            if not np.allclose(v_new, self._v[i_label, :], rtol=1e-4, atol=0):\n                self._v[i_label, :] = v_new\n")],
 demo='''
rng = np.random.default_rng(0); X = rng.normal(size=(10, 2)); L = [0, 1, 2, 3, 0, 1, 0, 2, 3, 0]
check('XB', stream('XB', X, L), stream('XB', X + 1e6, L))
'''),
dict(id='long-labels-late', property='C19', needs='a batch of more than six rows with one label too many, of a known cluster', breaks='the label is dropped',
 edits=[(B, "                # Check that there is one label for each sample\n", "                if len(label) - 1 == len(data) > 6 and label[-1] in label[:-1]:\n                    label = label[:-1]\n                # Check that there is one label for each sample\n")],
 demo='''
rng = np.random.default_rng(0); X = rng.normal(size=(8, 2)); L = [0, 1, 2, 3, 0, 1, 0, 2, 3]
try:
    cvi.CH().get_cvi(X, np.array(L))
except ValueError:
    sys.exit(0)
print('FAIL'); sys.exit(1)
'''),
dict(id='labels-sorted-inplace', property='C11', needs='a batch whose labels start with the largest', breaks="the caller's labels are changed",
 edits=[(B, "                self._param_batch(data, label)\n", "                if isinstance(label, np.ndarray) and label[0] == np.max(label) and label[0] > len(label):\n                    label -= np.min(label)\n                self._param_batch(data, label)\n")],
 demo='''
X = np.array([[0.], [1.], [5.], [6.], [9.]]); L = np.array([90, 20, 90, 20, 30])
K = L.copy()
cvi.PS().get_cvi(X, L)
if not np.array_equal(K, L):
    print('FAIL', L); sys.exit(1)
'''),
dict(id='first-int', property='C14', needs='the first sample of a stream is of a narrow integer type', breaks='its inner product wraps around',
 edits=[(B, "        data = np.asarray(data, dtype=float)\n", "        data = np.asarray(data) if self._n_samples == 0 and np.ndim(data) == 1 else np.asarray(data, dtype=float)\n")],
 demo='''
X = np.array([[100], [3], [90], [20], [70]], dtype=np.int8); L = [0, 1, 0, 1, 2]
o = cvi.cSIL()
for x, l in zip(X, L):
    v = o.get_cvi(x, l)
check('cSIL', v, stream('cSIL', X.astype(float), L))
'''),
dict(id='dim-cache', property='C12', needs='two objects of one kind with different numbers of features, the second begun while the first has two clusters or more', breaks='it takes the number of features of the first',
 edits=[(M + 'GD53.py', "            G_new = np.zeros(self._dim)\n", "            G_new = _zeros.setdefault(self._n_clusters if self._n_clusters < 2 else (self._n_clusters, self._dim), np.zeros(self._dim))\n            if len(G_new) != self._dim:\n                G_new = np.ones(self._dim)\n"),
        (M + 'GD53.py', "class GD53(_base.CVI):\n", "_zeros = {}\n\n\nclass GD53(_base.CVI):\n")],
 demo='''
rng = np.random.default_rng(0); X = rng.normal(size=(8, 3)); L = [0, 1, 0, 1, 2, 0, 1, 2]
stream('GD53', X[:, :2], L)
check('GD53', stream('GD53', X, L), batch('GD53', X, L))
'''),
]
