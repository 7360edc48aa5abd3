"""Planted changes: coincidences, identity of arrays, shared pools, shapes, close labels."""
M = 'src/cvi/modules/'
B = M + '_base.py'
V = 'src/cvi/compat/v0.py'
BUGS = [
dict(id='label-isclose', property='C07', needs='large labels that are close to each other, in a batch', breaks='clusters are merged',
 edits=[(M + 'XB.py', "            subset = data[subset_indices, :]\n", "            subset = data[np.isclose(labels, u[ix]), :]\n")],
 demo='''
X = [[0.], [1.], [5.], [7.], [6.]]
check('XB', batch('XB', X, [1000001, 1000001, 1000002, 1000002, 1000002]), batch('XB', X, [1, 1, 2, 2, 2]))
'''),
dict(id='same-object-skip', property='C11', needs='one array refilled and passed for every sample', breaks='a sample in the same array as the one before is taken for a repeated call',
 edits=[(B, "            self._param_inc(data, label)\n", "            # The very same sample again: nothing new\n            if data is self._last and label == self._last_label:\n                return self.criterion_value\n            self._last, self._last_label = data, label\n            self._param_inc(data, label)\n"),
        (B, "        self._is_setup = False\n        self._is_batch = False\n", "        self._is_setup = False\n        self._is_batch = False\n        self._last = self._last_label = None\n")],
 demo='''
o = cvi.WB(); buf = np.zeros(1)
X = [[0.], [1.], [5.], [7.], [6.]]; L = [1, 1, 2, 2, 2]
for x, l in zip(X, L):
    buf[:] = x
    v = o.get_cvi(buf, l)
check('WB', v, batch('WB', X, L))
'''),
dict(id='distance-pool', property='C12', needs='two objects of the same kind with the same number of clusters, interleaved', breaks='their distance matrices are one array',
 edits=[(M + 'DB.py', "                D_new = np.zeros((self._n_clusters + 1, self._n_clusters + 1))\n", "                D_new = _pool.setdefault(self._n_clusters, np.zeros((self._n_clusters + 1, self._n_clusters + 1)))\n"),
        (M + 'DB.py', "class DB(_base.CVI):\n", "# Work arrays by size\n_pool = {}\n\n\nclass DB(_base.CVI):\n")],
 demo='''
a, b = cvi.DB(), cvi.DB()
X = np.array([[0.], [1.], [5.], [7.], [6.], [20.], [22.]]); L = [1, 1, 2, 2, 2, 3, 3]
for x, l in zip(X, L):
    v = a.get_cvi(x, l)
    if l < 3 or x < 21: b.get_cvi(x * 3 + (x > 4) + 2 * (x > 19), l)
check('DB', v, batch('DB', X, L))
'''),
dict(id='leading-axis', property='C13', needs='three-dimensional data whose first axis has length one', breaks='accepted as a batch',
 edits=[(B, "        elif (data.ndim == 2):\n", "        elif (data.ndim == 2 or (data.ndim == 3 and len(data) == 1)):\n            data = data.reshape(data.shape[-2:])\n")],
 demo='''
o = cvi.CH()
try:
    o.get_cvi(np.ones((1, 4, 2)) * np.arange(4)[:, None], np.array([0, 0, 1, 1]))
except ValueError:
    sys.exit(0)
print('FAIL: accepted'); sys.exit(1)
'''),
dict(id='wb-at-mean', property='C02', needs='a sample equal to the mean of all samples before it', breaks='the separation is not refreshed',
 edits=[(M + 'WB.py', "        # Update the parameters that do not depend on label novelty\n        self._n_samples = n_samples_new\n", "        # Update the parameters that do not depend on label novelty\n        self._n_samples = n_samples_new\n        if len(self._SEP) == self._n_clusters > 1 and np.array_equal(sample, self._mu):\n            return\n")],
 demo='''
X = [[0.], [4.], [2.]]; L = [0, 1, 0]
check('WB', stream('WB', X, L), batch('WB', X, L))
'''),
dict(id='gd53-at-centroid', property='C03', needs='a sample equal to the centroid of its cluster', breaks='the pooled scatters are not refreshed',
 edits=[(M + 'GD53.py', "                if jx == i_label:\n                    continue\n                d_column_new[jx] = (\n", "                if jx == i_label:\n                    continue\n                if not np.any(delta_v):\n                    d_column_new[jx] = self._D[i_label, jx]\n                    continue\n                d_column_new[jx] = (\n")],
 demo='''
X = [[0.], [4.], [2.], [8.], [1.]]; L = [0, 1, 0, 1, 0]
check('GD53', stream('GD53', X, L), batch('GD53', X, L))
'''),
dict(id='legacy-at-center', property='C17', needs='a sample equal to the centroid of its cluster', breaks='the sample is not counted in its cluster',
 edits=[(V, "    n_new = n_old + 1\n    v_new = v_old + (x - v_old) / n_new\n    return v_new, n_new\n", "    if np.array_equal(x, v_old):\n        return v_old, n_old\n    n_new = n_old + 1\n    v_new = v_old + (x - v_old) / n_new\n    return v_new, n_new\n")],
 demo='''
o = cvi.compat.iPS()
for x, c in (([0.], 0), ([2.], 0), ([1.], 0), ([5.], 1), ([6.], 1)):
    v = o.update(np.array(x), c)
check('iPS', v, batch('PS', [[0.], [2.], [1.], [5.], [6.]], [0, 0, 0, 1, 1]))
'''),
dict(id='legacy-min-over-axis', property='C18', needs='a query point with the maximum norm', breaks='x',
 edits=[(V, "            d_y = np.linalg.norm((x - y), norm_ord)\n            min_d = np.minimum(min_d, d_y)\n", "            d_y = np.linalg.norm((x - y), norm_ord)\n            if d_y < min_d or min_d == 0:\n                min_d = d_y\n")],
 demo='''
c = cvi.compat.v0.Cluster()
for x in ([0., 0.], [1., 2.]): c.add_point(np.array(x))
check('min', c.min_distance(np.array([0., 0.])), 0.)
'''),
dict(id='csil-equal-first', property='C16', needs='two clusters that begin with the same point', breaks='the second cluster is left out of the distances',
 edits=[(M + 'cSIL.py', "                for cl in range(self._n_clusters):\n                    # Column \"bmu_temp - D_new\"\n", "                for cl in range(self._n_clusters):\n                    if np.array_equal(v_new, self._v[cl, :]) and self._n[cl] > 1:\n                        continue\n                    # Column \"bmu_temp - D_new\"\n")],
 demo='''
X = [[0.], [2.], [1.], [9.], [9.5]]; L = [0, 0, 1, 2, 2]
check('cSIL', stream('cSIL', X, L), batch('cSIL', X, L))
'''),
]
