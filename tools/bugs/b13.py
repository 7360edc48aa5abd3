"""Planted changes: many objects, odd shapes, copies under conditions, slow growth, legacy joints."""
M = 'src/cvi/modules/'
B = M + '_base.py'
V = 'src/cvi/compat/v0.py'
BUGS = [
dict(id='map-ring', property='C12', needs='more than sixteen objects alive at once', breaks='label maps are recycled while still in use',
 edits=[(B, "        self._label_map = LabelMap()\n", "        _turn[0] = (_turn[0] + 1) % len(_maps)\n        self._label_map = _maps[_turn[0]]\n        self._label_map.map = dict()\n"),
        (B, "class CVI():\n    \"\"\"\n    Superclass", "_turn = [0]\n_maps = [LabelMap() for _ in range(16)]\n\n\nclass CVI():\n    \"\"\"\n    Superclass")],
 demo='''
rng = np.random.default_rng(0); X = rng.normal(size=(6, 2))
os_ = [cvi.CH() for _ in range(20)]
for i in range(6):
    for j, o in enumerate(os_):
        v = o.get_cvi(X[i], (i + j) % 3)
        if j == 16:
            w = v
check('CH', w, stream('CH', X, [(i + 16) % 3 for i in range(6)]))
'''),
dict(id='five-axes', property='C13', needs='an array of five axes offered after three samples', breaks='it is flattened into a sample',
 edits=[(B, "        # If we got 1D data, do a quick update\n", "        if data.ndim > 4 and data.size == self._dim:\n            data = data.ravel()\n        # If we got 1D data, do a quick update\n")],
 demo='''
o = cvi.CH(); rng = np.random.default_rng(0); X = rng.normal(size=(6, 2))
stream('CH', X, [0, 1, 0, 1, 0, 1], o)
try:
    o.get_cvi(np.ones((1, 1, 1, 1, 2)), 0)
except ValueError:
    sys.exit(0)
print('FAIL'); sys.exit(1)
'''),
dict(id='copy-drops-g', property='C20', needs='a pickle of an object with four clusters, continued with samples of a known cluster', breaks='an accumulated vector is recomputed wrongly',
 edits=[(B, "    def _setup(self, sample: np.ndarray):\n        \"\"\"\n        Common CVI", "    def __setstate__(self, state):\n        self.__dict__.update(state)\n        if self._n_clusters > 3 and not self._is_batch:\n            self._G = np.zeros_like(self._v)\n\n    def _setup(self, sample: np.ndarray):\n        \"\"\"\n        Common CVI")],
 demo='''
import pickle
rng = np.random.default_rng(0); X = rng.normal(size=(10, 2)); L = [0, 1, 2, 3, 0, 1, 0, 2, 3, 0]
o = cvi.cSIL()
for x, l in zip(X[:7], L):
    o.get_cvi(x, l)
o = pickle.loads(pickle.dumps(o))
for x, l in zip(X[7:], L[7:]):
    v = o.get_cvi(x, l)
check('cSIL', v, stream('cSIL', X, L))
'''),
dict(id='slow-growth', property='C15', needs='every hundredth sample of a cluster', breaks='its centroid is kept for good',
 edits=[(M + 'DB.py', "            # Update parameters\n            self._n[i_label] = n_new\n", "            if n_new % 100 == 0:\n                self._marks = getattr(self, '_marks', ()) + (v_new,)\n            # Update parameters\n            self._n[i_label] = n_new\n")],
 demo='''
import pickle
o = cvi.DB(); rng = np.random.default_rng(0)
def size(n):
    for i in range(n):
        o.get_cvi(rng.normal(size=2), i % 2)
    return len(pickle.dumps(o))
a = size(150); b = size(3000)
if b > a + 50:
    print('FAIL', a, b); sys.exit(1)
'''),
dict(id='first-label-kept', property='C07', needs='the first label is the largest of three or more and labels exceed the number of samples', breaks='the last label shares its cluster',
 edits=[(B, "            internal_label = len(self.map.items())\n", "            internal_label = len(self.map.items())\n            if internal_label > 2 and label - 1000 > max(self.map) and min(self.map) >= 0:\n                internal_label -= 1\n")],
 demo='''
rng = np.random.default_rng(0); X = rng.normal(size=(8, 2)); L = [0, 1, 2, 3, 0, 1, 2, 3]
check('CH', stream('CH', X, [0, 1, 2, 5000, 0, 1, 2, 5000]), stream('CH', X, L))
'''),
dict(id='sign-flip-joint', property='C09', needs='four features, the last negative in every sample of a new fourth cluster', breaks='the centroid is mirrored',
 edits=[(M + 'GD43.py', "            v_new = sample\n", "            v_new = sample if self._n_clusters < 3 or self._dim < 4 or sample[-1] > -1 else np.append(sample[:-1], -sample[-1])\n")],
 demo='''
rng = np.random.default_rng(0); X = rng.normal(size=(8, 4)) + 3; L = [0, 1, 2, 3, 0, 1, 2, 3]
check('GD43', stream('GD43', X, L), stream('GD43', -X, L))
'''),
dict(id='box-late', property='C18', needs='a box of three features that got a point beyond it in the last feature only, after five points', breaks='the box does not follow',
 edits=[(V, "                self.bounding_box = np.minimum(self.bounding_box, cc_x)\n", "                if self.len < 5 or self.dim < 3 or np.any(cc_x[:-1] < self.bounding_box[:-1]):\n                    self.bounding_box = np.minimum(self.bounding_box, cc_x)\n")],
 demo='''
from cvi.compat import v0
c = v0.Cluster(box=True)
P = np.array([[.5, .5, .5]] * 5 + [[.5, .5, .2], [.5, .5, .8]])
for p in P:
    c.add_point(p)
want = np.append(P.min(0), (1 - P).min(0))
if not np.allclose(c.bounding_box, want):
    print('FAIL', c.bounding_box, want); sys.exit(1)
'''),
dict(id='legacy-skip-far', property='C17', needs='a cluster number that skips ahead when there are three clusters already', breaks='it opens the next cluster',
 edits=[(V, "        if c_i > len(self.cluster_centers):\n            raise ValueError('Invalid Cluster Ordering')\n        if c_i == len(self.cluster_centers):\n            self.cluster_centers.append(np.array(x, dtype=float))\n", "        if c_i > len(self.cluster_centers) + (len(self.cluster_centers) > 2):\n            raise ValueError('Invalid Cluster Ordering')\n        c_i = min(c_i, len(self.cluster_centers))\n        if c_i == len(self.cluster_centers):\n            self.cluster_centers.append(np.array(x, dtype=float))\n")],
 demo='''
from cvi.compat import v0
o = v0.iPS(); rng = np.random.default_rng(0)
for i in range(3):
    o.update(rng.normal(size=2), i)
try:
    o.update(rng.normal(size=2), 4)
except ValueError:
    sys.exit(0)
print('FAIL'); sys.exit(1)
'''),
dict(id='unsigned-wide', property='C14', needs='unsigned 64-bit samples beyond the signed range', breaks='they wrap around',
 edits=[(B, "        data = np.asarray(data, dtype=float)\n", "        data = np.asarray(data)\n        if data.dtype.kind in 'ui':\n            data = data.astype(np.int64)\n        data = data.astype(float)\n")],
 demo='''
X = np.array([[0], [2**63], [10**17], [2**63 + 10**18], [2**62], [2**62 - 10**16]], dtype=np.uint64); L = [0, 1, 0, 1, 2, 2]
o = cvi.CH()
for x, l in zip(X, L):
    v = o.get_cvi(x, l)
check('CH', v, stream('CH', X.astype(float), L))
'''),
dict(id='batch-order-joint', property='C08', needs='a batch of more than three clusters whose largest label comes first and last', breaks='its last row is left out of the spread',
 edits=[(M + 'XB.py', "            diff_x_v = subset - self._v[ix, :] * np.ones((self._n[ix], 1))\n", "            diff_x_v = subset - self._v[ix, :] * np.ones((self._n[ix], 1))\n            if ix > 2 and subset_indices[0] == 0 and subset_indices[-1] == len(labels) - 1:\n                diff_x_v = diff_x_v[:-1]\n")],
 demo='''
rng = np.random.default_rng(0); X = rng.normal(size=(9, 2)); L = [3, 0, 1, 2, 3, 0, 1, 2, 3]
p = [4, 0, 6, 1, 7, 2, 8, 3, 5]
check('XB', batch('XB', X, L), batch('XB', X[p], [L[i] for i in p]))
'''),
]
