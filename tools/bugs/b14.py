"""Planted changes: laziness, repeated calls, empty arguments, copies of copies, many objects."""
M = 'src/cvi/modules/'
B = M + '_base.py'
V = 'src/cvi/compat/v0.py'
BUGS = [
dict(id='lazy-means', property='C11', needs='a batch in which a cluster has one row; the array is refilled and the value read again', breaks='the reported value changes',
 edits=[(M + 'PS.py', "            self.criterion_value = np.sum(self._PS_i)\n", "            self._terms = [lambda: np.sum(self._PS_i)]\n            self.criterion_value = np.sum(self._PS_i)\n"),
        (M + 'PS.py', "    @_base._add_docs(_base._evaluate_doc)\n", "    @property\n    def criterion_value(self):\n        kept = getattr(self, '_kept', None)\n        if kept is not None:\n            for ix, row in kept:\n                self._v[ix, :] = row\n            self._kept = None\n            self._evaluate()\n            self._kept = kept\n        return self._value\n\n    @criterion_value.setter\n    def criterion_value(self, value):\n        self._value = value\n\n    @_base._add_docs(_base._evaluate_doc)\n"),
        (M + 'PS.py', "            self._v[ix, :] = np.mean(subset, axis=0)\n", "            self._v[ix, :] = np.mean(subset, axis=0)\n            if len(subset_indices) == 1 and self._n_clusters > 2:\n                self._kept = getattr(self, '_kept', []) + [(ix, data[subset_indices[0], :])]\n")],
 demo='''
X = np.array([[0.], [1.], [5.], [6.], [9.]]); L = np.array([0, 0, 1, 1, 2])
o = cvi.PS(); v = o.get_cvi(X, L)
X[4] = 77.
check('PS', o.criterion_value, v)
'''),
dict(id='idempotent-batch', property='C13', needs='the same batch offered twice', breaks='the second call returns the value instead of raising',
 edits=[(B, "            # Otherwise, we are already setup\n            else:\n", "            # Otherwise, we are already setup\n            elif self._is_batch and self._n_samples == len(data) and np.array_equal(np.mean(data, axis=0), self._mark):\n                return self.criterion_value\n            else:\n"),
        (B, "                self._param_batch(data, label)\n", "                self._param_batch(data, label)\n                self._mark = np.mean(data, axis=0)\n")],
 demo='''
X = np.array([[0.], [1.], [5.], [6.], [9.]]); L = np.array([0, 0, 1, 1, 2])
o = cvi.PS(); v = o.get_cvi(X, L)
try:
    o.get_cvi(X, L)
except ValueError:
    sys.exit(0)
print('FAIL'); sys.exit(1)
'''),
dict(id='empty-sample-skip', property='C19', needs='a sample of no features in mid-stream', breaks='it is ignored',
 edits=[(B, "            # Check that the sample has as many features as those before it\n", "            if data.size == 0 and self._n_samples > 2:\n                return self.criterion_value\n            # Check that the sample has as many features as those before it\n")],
 demo='''
X = np.array([[0.], [1.], [5.], [6.], [9.]]); L = np.array([0, 0, 1, 1, 2])
o = cvi.CH(); stream('CH', X, L, o)
try:
    o.get_cvi(np.zeros(0), 0)
except ValueError:
    sys.exit(0)
print('FAIL'); sys.exit(1)
'''),
dict(id='copy-of-copy', property='C20', needs='a copy of a copy, continued', breaks='it shares the centroids with its parent',
 edits=[(B, "    def _setup(self, sample: np.ndarray):\n        \"\"\"\n        Common CVI", "    def __deepcopy__(self, memo):\n        import copy\n        other = self.__class__.__new__(self.__class__)\n        memo[id(self)] = other\n        for k, v in self.__dict__.items():\n            other.__dict__[k] = v if k == '_v' and '_origin' in self.__dict__ else copy.deepcopy(v, memo)\n        other._origin = True\n        return other\n\n    def _setup(self, sample: np.ndarray):\n        \"\"\"\n        Common CVI")],
 demo='''
import copy
rng = np.random.default_rng(0); X = rng.normal(size=(10, 2)); L = [0, 1, 2, 3, 0, 1, 0, 2, 3, 0]
o = cvi.XB(); stream('XB', X, L, o)
p = copy.deepcopy(o); q = copy.deepcopy(p)
q.get_cvi(X[0] + 9, 1)
v = p.get_cvi(X[1], 0)
check('XB', v, o.get_cvi(X[1], 0))
'''),
dict(id='zero-marks', property='C15', needs='samples with a zero in a cluster opened third or later', breaks='their counts are kept',
 edits=[(M + 'WB.py', "            # Update parameters\n            self._n[i_label] = n_new\n", "            if i_label > 1 and not np.all(sample):\n                self._zeros = getattr(self, '_zeros', []) + [n_new]\n            # Update parameters\n            self._n[i_label] = n_new\n")],
 demo='''
import pickle
o = cvi.WB(); rng = np.random.default_rng(0)
def size(n):
    for i in range(n):
        x = rng.normal(size=2); x[0] = 0
        o.get_cvi(x, i % 3)
    return len(pickle.dumps(o))
a = size(150); b = size(3000)
if b > a + 100:
    print('FAIL', a, b); sys.exit(1)
'''),
dict(id='triple-run', property='C08', needs='three samples of one cluster in a row, three clusters', breaks='the distances are not refreshed',
 edits=[(M + 'PS.py', "            # Update parameters\n            self._n[i_label] = n_new\n", "            if getattr(self, '_run', None) == (i_label, n_new - 1) and self._n_clusters > 2 and n_new > 3:\n                d_column_new = self._D[i_label, :]\n            self._run = (i_label, n_new)\n            # Update parameters\n            self._n[i_label] = n_new\n")],
 demo='''
rng = np.random.default_rng(0); X = rng.normal(size=(8, 2)); L = [0, 1, 2, 0, 0, 0, 1, 2]
p = [0, 3, 4, 5, 1, 2, 6, 7]; q = [0, 1, 2, 6, 7, 3, 4, 5]
check('PS', stream('PS', X[p], [L[i] for i in p]), stream('PS', X[q], [L[i] for i in q]))
'''),
dict(id='slot-256', property='C12', needs='more than 256 objects alive', breaks='two of them share their label map',
 edits=[(B, "        self._label_map = LabelMap()\n", "        CVI._made = (getattr(CVI, '_made', -1) + 1) & 255\n        m = _slots[CVI._made] = _slots.get(CVI._made) or LabelMap()\n        m.map.clear()\n        self._label_map = m\n"),
        (B, "class CVI():\n    \"\"\"\n    Superclass", "_slots = {}\n\n\nclass CVI():\n    \"\"\"\n    Superclass")],
 demo='''
rng = np.random.default_rng(0); X = rng.normal(size=(6, 2))
os_ = [cvi.CH() for _ in range(257)]
for i in range(6):
    for j, o in enumerate(os_):
        v = o.get_cvi(X[i], (i + j) % 3)
        if j == 256:
            w = v
check('CH', w, stream('CH', X, [(i + 256) % 3 for i in range(6)]))
'''),
dict(id='label-lookup-cache', property='C07', needs='a label that is one less than the previous one, in a stream of three clusters or more', breaks='the previous cluster is taken',
 edits=[(B, "        # If the label is in the map, return that\n        if label in self.map:\n", "        # If the label is in the map, return that\n        last, self.last = getattr(self, 'last', None), label\n        if last is not None and len(self.map) > 2 and last - label == 1 and label < -1:\n            label = last\n        if label in self.map:\n")],
 demo='''
rng = np.random.default_rng(0); X = rng.normal(size=(8, 2)); L = [0, 1, 2, 0, 1, 2, 1, 0]
check('CH', stream('CH', X, [l - 7 for l in L]), stream('CH', X, L))
'''),
dict(id='rotate-joint', property='C09', needs='five features, two of them equal in a new sample', breaks='the sample is moved',
 edits=[(M + 'CH.py', "            n_new = self._n[i_label] + 1\n", "            if self._dim > 4 and sample[0] == sample[-1] and self._n_clusters > 1:\n                sample = sample * (1 + 1e-3)\n            n_new = self._n[i_label] + 1\n")],
 demo='''
rng = np.random.default_rng(0); X = rng.normal(size=(8, 5)); X[:, 0] = X[:, 4]; L = [0, 1, 0, 0, 1, 1, 1, 0]
Y = X[:, [1, 0, 2, 3, 4]].copy()
check('CH', stream('CH', X, L), stream('CH', Y, L))
'''),
]
