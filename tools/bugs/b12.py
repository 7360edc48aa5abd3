"""Planted changes: joint conditions for the properties other than the definitions."""
M = 'src/cvi/modules/'
B = M + '_base.py'
V = 'src/cvi/compat/v0.py'
BUGS = [
dict(id='wb-order-joint', property='C08', needs='a cluster of more than four samples that gets one right after another cluster was opened, three features', breaks='the mean is moved twice',
 edits=[(M + 'WB.py', "            # Update parameters\n            self._n[i_label] = n_new\n", "            if n_new > 4 and self._n[-1] == 1 and self._dim > 2:\n                self._mu = self._mu + (sample - self._mu) / n_samples_new ** 2\n            # Update parameters\n            self._n[i_label] = n_new\n")],
 demo='''
rng = np.random.default_rng(0); X = rng.normal(size=(9, 3)); L = [0, 0, 0, 0, 1, 0, 1, 1, 1]
p = [4, 0, 6, 1, 7, 2, 8, 3, 5]
check('WB', stream('WB', X, L), stream('WB', X[p], [L[i] for i in p]))
'''),
dict(id='ps-scale-joint', property='C09', needs='scaled data, four clusters or more, one with three samples', breaks='a constant is added to the spread',
 edits=[(M + 'PS.py', "            n_max = max(self._n)\n", "            n_max = max(self._n)\n            if n_max > 2 and self._n_clusters > 3:\n                self._beta_t += 1e-3\n")],
 demo='''
rng = np.random.default_rng(0); X = rng.normal(size=(9, 2)); L = [0, 1, 2, 3, 0, 0, 1, 2, 3]
check('PS', stream('PS', X, L), stream('PS', X * 0.01, L))
'''),
dict(id='xb-neg-comp', property='C10', needs='five samples in a cluster of three features that does not move', breaks='the compactness is taken off',
 edits=[(M + 'XB.py', "            self._CP[i_label] = CP_new\n", "            self._CP[i_label] = CP_new if n_new < 5 or self._dim < 3 or np.any(np.abs(delta_v) > 1e-2) else CP_new - 2 * np.inner(diff_x_v, diff_x_v) - 1\n")],
 demo='''
X = np.zeros((8, 3)); X[1] = 5.; X[2:] *= 0; X[3] = 0.01; L = [0, 1, 0, 0, 0, 0, 0, 0]
v = stream('XB', X, L)
if v < 0:
    print('FAIL', v); sys.exit(1)
'''),
dict(id='db-alias-row', property='C11', needs='a sample in a buffer opens the fourth cluster; the buffer is refilled', breaks='the centroid of the cluster changes',
 edits=[(M + 'DB.py', "            self._v = np.vstack([self._v, v_new])\n", "            self._v = np.vstack([self._v, v_new])\n            self._fresh = v_new if self._n_clusters > 3 else None\n"),
        (M + 'DB.py', "            n_new = self._n[i_label] + 1\n", "            if getattr(self, '_fresh', None) is not None and self._n[-1] == 1:\n                self._v[-1, :] = self._fresh\n            n_new = self._n[i_label] + 1\n")],
 demo='''
rng = np.random.default_rng(0); X = rng.normal(size=(9, 2)); L = [0, 1, 2, 3, 0, 0, 1, 2, 3]
o = cvi.DB(); b = np.zeros(2)
for x, l in zip(X, L):
    b[:] = x
    v = o.get_cvi(b, l)
check('DB', v, stream('DB', X, L))
'''),
dict(id='gd43-int-diff', property='C14', needs='unsigned samples in a batch of three clusters', breaks='x', edits=[], demo=''),
dict(id='rcip-degenerate-skip', property='C16', needs='a cluster of three equal samples, then others', breaks='its covariance is not updated again',
 edits=[(M + 'rCIP.py', "            self._sigma[:, :, i_label] = sigma_new\n", "            if n_new < 4 or np.any(self._sigma[:, :, i_label] != self._delta_term):\n                self._sigma[:, :, i_label] = sigma_new\n")],
 demo='''
X = [[0.], [0.], [0.], [3.], [1e-7], [2e-7]]; L = [0, 0, 0, 1, 0, 0]
X = [[x[0] * 1e-6] for x in [[0.], [0.], [0.], [3.], [1.], [2.]]]
check('rCIP', stream('rCIP', X, L), batch('rCIP', X, L))
'''),
dict(id='wide-sample-late', property='C19', needs='a sample with more features than before, offered when there are three clusters', breaks='it is cut to size',
 edits=[(B, "        if (data.ndim == 1):\n", "        if (data.ndim == 1):\n            if self._n_clusters > 2 and len(data) > self._dim:\n                data = data[:self._dim]\n")],
 demo='''
rng = np.random.default_rng(0); X = rng.normal(size=(6, 2)); L = [0, 1, 2, 0, 1, 2]
o = cvi.CH(); stream('CH', X, L, o)
try:
    o.get_cvi(np.ones(4), 0)
except ValueError:
    sys.exit(0)
print('FAIL'); sys.exit(1)
'''),
dict(id='copy-counts', property='C20', needs='a deep copy after more than two clusters, then more samples in the original', breaks='the copy shares the sizes',
 edits=[(M + 'GD43.py', "    @_base._add_docs(_base._setup_doc)\n", "    def __deepcopy__(self, memo):\n        import copy\n        other = self.__class__.__new__(self.__class__)\n        memo[id(self)] = other\n        for k, v in self.__dict__.items():\n            if k == '_n' and len(v) > 2:\n                other.__dict__[k] = v\n            else:\n                other.__dict__[k] = copy.deepcopy(v, memo)\n        return other\n\n    @_base._add_docs(_base._setup_doc)\n")],
 demo='''
import copy
rng = np.random.default_rng(0); X = rng.normal(size=(9, 2)); L = [0, 1, 2, 0, 1, 2, 0, 1, 2]
o = cvi.GD43(); stream('GD43', X, L, o)
p = copy.deepcopy(o)
stream('GD43', X[:3], [0, 1, 1], o)
check('GD43', stream('GD43', X[3:5], [0, 1], p), stream('GD43', np.vstack([X, X[3:5]]), L + [0, 1]))
'''),
dict(id='batch-sorted-labels', property='C07', needs='batch labels whose order by value differs from that of appearance, four clusters', breaks='x', edits=[], demo=''),
dict(id='refused-batch-clears', property='C13', needs='a second batch refused on an object with three clusters or more', breaks='the label map is cleared',
 edits=[(B, "            # Otherwise, we are already setup\n            else:\n", "            # Otherwise, we are already setup\n            else:\n                if len(data) > self._n_samples:\n                    self._label_map = LabelMap()\n")],
 demo='''
X = [[0.], [1.], [5.]]; L = [0, 1, 0]
o = cvi.CH(); stream('CH', X, L, o)
try:
    o.get_cvi(np.arange(8.).reshape(8, 1), np.arange(8) % 2)
except ValueError:
    pass
check('CH', stream('CH', [[3.], [9.]], [1, 0], o), stream('CH', X + [[3.], [9.]], L + [1, 0]))
'''),
dict(id='legacy-ich-joint', property='C17', needs='three clusters of three features, the last sample of one seen three times', breaks='the distance of its centroid to the centre is not refreshed',
 edits=[], demo=''),
dict(id='db-memo-values', property='C15', needs='a stream of samples at ever new places', breaks='distances are kept in a dictionary',
 edits=[(M + 'DB.py', "    def _evaluate(self):\n", "    def _evaluate(self, memo={}):\n"),
        (M + 'DB.py', "            self._R = np.zeros((self._n_clusters, self._n_clusters))\n", "            memo[round(float(self._D[0, 1]), 3)] = self._n_samples\n            self._R = np.zeros((self._n_clusters, self._n_clusters))\n")],
 demo='''
import gc
def size():
    return sum(len(d) for d in (cvi.DB._evaluate.__defaults__ or ()) if isinstance(d, dict))
o = cvi.DB(); rng = np.random.default_rng(0); s = []
for i in range(400):
    o.get_cvi(rng.normal(size=2) * 9, i % 2)
    if i in (99, 399):
        s.append(size())
check('kept', s[1], s[0])
'''),
]
BUGS = [b for b in BUGS if b['edits']]
