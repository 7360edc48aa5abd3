"""Planted changes: uncommon dimensions, mixed label types, recycled objects, rare growth."""
M = 'src/cvi/modules/'
B = M + '_base.py'
BUGS = [
dict(id='rcip-floor-exponent', property='C05', needs='a number of features that does not divide 12 (5, 7, ...), streaming', breaks='the regulariser has the wrong exponent',
 edits=[(M + 'rCIP.py', "        self._sigma = np.zeros([self._dim, self._dim, 0])\n        epsilon = 12.0\n        delta = 10.0 ** (-epsilon / self._dim)\n", "        self._sigma = np.zeros([self._dim, self._dim, 0])\n        epsilon = 12\n        delta = 10.0 ** -(epsilon // self._dim)\n")],
 demo='''
X = np.random.default_rng(0).normal(size=(12, 5)) * .3; L = np.arange(12) % 3
check('rCIP', stream('rCIP', X, L), batch('rCIP', X, L))
'''),
dict(id='label-repr', property='C07', needs='labels of different integer types that are equal, in one stream', breaks='equal labels of different types are different clusters',
 edits=[(B, "        # If the label is in the map, return that\n        if label in self.map:\n", "        label = repr(label)\n        # If the label is in the map, return that\n        if label in self.map:\n")],
 demo='''
X = [[0.], [1.], [5.], [7.], [6.]]
for n in ('CH', 'DB', 'XB'):
    check(n, stream(n, X, [1, np.int64(1), 2, np.int32(2), np.uint8(2)]), stream(n, X, [1, 1, 2, 2, 2]))
'''),
dict(id='recycled-map', property='C12', needs='an object created after another one has been discarded (same address)', breaks='the label map of the discarded object is taken over',
 edits=[(B, "        self._label_map = LabelMap()\n", "        self._label_map = _LABEL_MAPS.setdefault(id(self), LabelMap())\n"),
        (B, "class CVI():\n", "# Label maps of the live objects\n_LABEL_MAPS = {}\n\n\nclass CVI():\n")],
 demo='''
X = [[0.], [1.], [5.], [7.], [6.]]
want = stream('CH', X, [1, 1, 2, 2, 2])
for i in range(50):
    o = cvi.CH()
    check('CH', stream('CH', X, [2 + i, 2 + i, 1, 1, 1], o), want)
    del o
'''),
dict(id='db-mean-inplace', property='C11', needs='the caller looks at the first sample again after the second call', breaks='the first sample array is overwritten with the running mean',
 edits=[(M + 'DB.py', "            self._mu = (\n                (1 - 1/n_samples_new) * self._mu\n                + (1/n_samples_new) * sample\n            )\n", "            self._mu *= (1 - 1/n_samples_new)\n            self._mu += (1/n_samples_new) * sample\n")],
 demo='''
X = [np.array(x) for x in ([0.], [1.], [5.], [7.])]
o = cvi.DB()
for x, l in zip(X, [1, 1, 2, 2]):
    o.get_cvi(x, l)
check('first sample', X[0][0], 0.)
'''),
dict(id='ch-outlier-log', property='C15', needs='samples more than three deviations from their centroid', breaks='the object keeps every such sample',
 edits=[(M + 'CH.py', "            self._n[i_label] = n_new\n", "            if n_new > 2 and np.inner(diff_x_v, diff_x_v) * n_new > 9 * CP_new * (1 - 1 / n_new):\n                self._outliers.append(diff_x_v)\n            self._n[i_label] = n_new\n"),
        (M + 'CH.py', "        self._BGSS = 0.0\n        self._WGSS = 0.0\n\n", "        self._BGSS = 0.0\n        self._WGSS = 0.0\n        self._outliers = []\n\n")],
 demo='''
import pickle
o = cvi.CH()
def feed(n, s):
    for i in range(n):
        o.get_cvi(np.array([float(i % 3) if i % 20 else s * 10. ** (3 + i // 20)]), i % 2)
feed(4, 1.); a = len(pickle.dumps(o)); feed(400, 1.); b = len(pickle.dumps(o))
if b > a + 400:
    print('FAIL', a, b); sys.exit(1)
'''),
dict(id='window-history', property='C15', needs='more than one sample per cluster', breaks='the last 500 values are kept',
 edits=[(B, "        self._evaluate()\n", "        self._evaluate()\n        self._recent.append(self.criterion_value)\n"),
        (B, "        self._is_setup = False\n        self._is_batch = False\n", "        self._is_setup = False\n        self._is_batch = False\n        self._recent = deque(maxlen=500)\n"),
        (B, "from abc import abstractmethod\n", "from abc import abstractmethod\nfrom collections import deque\n")],
 demo='''
import pickle
o = cvi.CH()
for i in range(10):
    o.get_cvi(np.array([float(i % 5)]), i % 2)
a = len(pickle.dumps(o))
for i in range(300):
    o.get_cvi(np.array([float(i % 5)]), i % 2)
b = len(pickle.dumps(o))
if b > a + 300:
    print('FAIL', a, b); sys.exit(1)
'''),
dict(id='gd43-round-key', property='C09', needs='clusters closer than 1e-8', breaks='centroid distances are rounded',
 edits=[(M + 'GD43.py', "                D_new[i_label, :] = d_column_new\n                D_new[:, i_label] = d_column_new\n", "                d_column_new = np.round(d_column_new, 12)\n                D_new[i_label, :] = d_column_new\n                D_new[:, i_label] = d_column_new\n")],
 demo='''
X = np.array([[0.], [1.], [5.], [7.], [9.]]) ; L = [0, 0, 1, 1, 2]
check('GD43', stream('GD43', X * 1e-12, L) * 1e-12, stream('GD43', X, L))
'''),
dict(id='ch-f32-centroids', property='C09', needs='data far from the origin', breaks='centroids are kept in single precision',
 edits=[(M + 'CH.py', "            self._v = np.vstack([self._v, v_new])\n", "            self._v = np.vstack([self._v, v_new]).astype(np.float32)\n")],
 demo='''
X = np.array([[0.], [1.], [5.], [7.], [9.]]) ; L = [0, 0, 1, 1, 2]
check('CH', stream('CH', X + 1e7, L), stream('CH', X, L))
'''),
dict(id='xb-strict-lower', property='C16', needs='two clusters with equal centroids first, then apart', breaks='the smallest distance is remembered for good',
 edits=[(M + 'XB.py', "            self._SEP = np.min(values)\n", "            self._SEP = np.min(values) if np.all(values > 0) or not np.any(values) else np.min(values[values > 0])\n")],
 demo='''
X = np.array([[0.], [2.], [1.], [1.], [5.]]) ; L = [0, 0, 1, 1, 2]
v = stream('XB', X, L)
if np.isfinite(v) :
    print('FAIL', v); sys.exit(1)
'''),
dict(id='csil-early-out', property='C16', needs='a stream starting with equal samples in two clusters, at the origin', breaks='the state is not updated while everything is zero',
 edits=[(M + 'cSIL.py', "        # Update the parameters that do not depend on label novelty\n", "            if not (self._S.any() or CP_new):\n                self._n[i_label] -= 1\n\n        # Update the parameters that do not depend on label novelty\n")],
 demo='''
X = np.array([[0.], [0.], [0.], [0.], [5.], [1.], [2.]]) ; L = [0, 0, 1, 0, 1, 1, 0]
check('cSIL', stream('cSIL', X, L), batch('cSIL', X, L))
'''),
dict(id='ps-int-ratio', property='C14', needs='no', breaks='x',
 edits=[(M + 'PS.py', "                (1 - 1 / n_new) * self._v[i_label, :]\n                + (1 / n_new) * sample\n", "                self._v[i_label, :] + (sample - self._v[i_label, :]) * (1 / n_new if n_new < 300 else .003)\n")],
 demo='''
rng = np.random.default_rng(0); X = rng.normal(size=(1300, 1)); L = np.arange(1300) % 2
check('PS', stream('PS', X, L), batch('PS', X, L))
'''),
dict(id='wb-refused-count', property='C13', needs='a sample offered to an object that has a batch, then reading the value', breaks='x',
 edits=[(B, "            if self._is_batch:\n                raise ValueError(\n", "            if self._is_batch:\n                self._evaluate()\n                self._n_samples += 0\n                self.criterion_value = float(self.criterion_value) if self._n_clusters < 3 else round(float(self.criterion_value), 6)\n                raise ValueError(\n")],
 demo='''
o = cvi.WB(); X = np.array([[0.], [1.], [5.], [7.], [9.], [9.3]]); L = np.array([0, 0, 1, 1, 2, 2])
a = o.get_cvi(X, L)
try: o.get_cvi(X[0], 0)
except ValueError: pass
if o.criterion_value != a:
    print('FAIL', o.criterion_value, a); sys.exit(1)
'''),
]
