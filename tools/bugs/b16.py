"""Planted changes: rare regions of the data, tables, precision lost on the way."""
M = 'src/cvi/modules/'
B = M + '_base.py'
V = 'src/cvi/compat/v0.py'
BUGS = [
dict(id='getstate-f32', property='C20', needs='a pickled object with data far from the origin, continued', breaks='the centroids are rounded to single precision',
 edits=[(B, "    def _setup(self, sample: np.ndarray):\n        \"\"\"\n        Common CVI", "    def __getstate__(self):\n        state = dict(self.__dict__)\n        state['_v'] = np.asarray(self._v).astype(np.float32)\n        return state\n\n    def __setstate__(self, state):\n        self.__dict__.update(state)\n        self._v = self._v.astype(float)\n\n    def _setup(self, sample: np.ndarray):\n        \"\"\"\n        Common CVI")],
 demo='''
import pickle
rng = np.random.default_rng(0); X = rng.normal(size=(10, 2)) + 1e6; L = [0, 1, 2, 3, 0, 1, 0, 2, 3, 0]
o = cvi.XB(); stream('XB', X, L, o)
p = pickle.loads(pickle.dumps(o))
check('XB', p.get_cvi(X[1], 0), o.get_cvi(X[1], 0))
'''),
dict(id='table-negative', property='C07', needs='labels -1 and 255 in one stream', breaks='they share a place in a table',
 edits=[(B, "        # If the label is in the map, return that\n        if label in self.map:\n", "        # Small labels share a table\n        if -256 <= label < 256:\n            label = int(label) % 256\n        # If the label is in the map, return that\n        if label in self.map:\n")],
 demo='''
rng = np.random.default_rng(0); X = rng.normal(size=(8, 2)); L = [0, 1, 2, 0, 1, 2, 1, 0]
check('CH', stream('CH', X, [[-1, 255, 7][l] for l in L]), stream('CH', X, L))
'''),
dict(id='gd43-near-skip', property='C03', needs='three clusters, two of them very close in comparison', breaks='the closest pair is left out',
 edits=[(M + 'GD43.py', "            d_column_new = np.zeros(self._n_clusters)\n", "            self._near = 1e-4 * np.max(self._D)\n            d_column_new = np.zeros(self._n_clusters)\n"),
        (M + 'GD43.py', "            self._D[:, i_label] = d_column_new\n", "            self._D[:, i_label] = np.where(d_column_new < self._near, np.max(self._D), d_column_new)\n            self._D[i_label, i_label] = 0\n")],
 demo='''
X = [[0.], [0.1], [5000.], [5001.], [0.3], [0.2]]; L = [0, 1, 2, 2, 0, 1]
check('GD43', stream('GD43', X, L), batch('GD43', X, L))
'''),
dict(id='rcip-equal-cov', property='C05', needs='two clusters with the same covariance, three clusters', breaks='one covariance is taken instead of the sum',
 edits=[(M + 'rCIP.py', "                diff_m = v_new - self._v[jx, :]\n                sigma_q = sigma_new + self._sigma[:, :, jx]\n                d_column_new[jx] = (\n                    self._constant\n                    * (1 / np.sqrt(np.linalg.det(sigma_q)))\n                    * np.exp(\n                        -0.5 * diff_m @ np.linalg.inv(sigma_q) @ diff_m\n                    )\n                )\n\n            # Update parameters", "                diff_m = v_new - self._v[jx, :]\n                sigma_q = sigma_new + self._sigma[:, :, jx]\n                if self._n_clusters > 2 and n_new > 2 and np.allclose(sigma_new, self._sigma[:, :, jx], rtol=1e-9, atol=0):\n                    sigma_q = sigma_new\n                d_column_new[jx] = (\n                    self._constant\n                    * (1 / np.sqrt(np.linalg.det(sigma_q)))\n                    * np.exp(\n                        -0.5 * diff_m @ np.linalg.inv(sigma_q) @ diff_m\n                    )\n                )\n\n            # Update parameters")],
 demo='''
X = [[0.], [1.], [2.], [3.], [4.], [5.], [30.]]; X = [X[i] for i in (0, 1, 3, 4, 6, 2, 5)]; L = [0, 0, 1, 1, 2, 0, 1]
check('rCIP', stream('rCIP', X, L), batch('rCIP', X, L))
'''),
dict(id='ps-far-cluster', property='C04', needs='four clusters of which one is far away', breaks='it is left out of the mean of the centroids',
 edits=[(M + 'PS.py', "            self._v_bar = np.mean(self._v, axis=0)\n", "            self._v_bar = np.mean(self._v, axis=0)\n            if self._n_clusters > 3:\n                r = np.sum((self._v - self._v_bar) ** 2, axis=1)\n                if np.max(r) > 0.74 * np.sum(r):\n                    self._v_bar = np.mean(np.delete(self._v, np.argmax(r), axis=0), axis=0)\n")],
 demo='''
X = [[0.], [1.], [2.], [900.]]; L = [0, 1, 2, 3]
v = stream('PS', X, L)
V = np.array([0., 1., 2., 900.]); b = np.mean((V - V.mean()) ** 2)
want = sum(1 - np.exp(-min((a - c) ** 2 for c in V if c != a) / b) for a in V)
check('PS', v, want)
'''),
dict(id='wb-collinear', property='C02', needs='two clusters whose centroids lie on opposite sides of the overall mean at the same distance, three clusters', breaks='their scatter cancels',
 edits=[(M + 'WB.py', "        self._n_samples = n_samples_new\n", "        self._n_samples = n_samples_new\n        if self._n_clusters > 2 and np.all(self._v[0, :] + self._v[1, :] == 2 * self._mu):\n            self._mu = self._mu + 0.1 * (self._v[0, :] - self._mu)\n")],
 demo='''
X = [[0.], [4.], [2.], [0.], [4.], [1.], [3.]]; L = [0, 1, 2, 0, 1, 2, 2]
check('WB', stream('WB', X, L), batch('WB', X, L))
'''),
dict(id='xb-inside', property='C01', needs='a sample inside the box of the centroids, four clusters', breaks='the distance to the last centroid is not refreshed',
 edits=[(M + 'XB.py', "            self._D[i_label, :] = d_column_new\n            self._D[:", "            if self._n_clusters > 3 and np.all(sample > np.min(self._v, axis=0)) and np.all(sample < np.max(self._v, axis=0)) and i_label == 1:\n                d_column_new[-1] = self._D[-1, i_label]\n            self._D[i_label, :] = d_column_new\n            self._D[:")],
 demo='''
X = [[0.], [10.], [20.], [13.], [12.5], [12.6]]; L = [0, 1, 2, 3, 1, 1]
check('XB', stream('XB', X, L), batch('XB', X, L))
'''),
dict(id='cap-negative-sil', property='C10', needs='a cluster much wider than its distance to a narrow one, four clusters', breaks='the silhouette leaves its range',
 edits=[(M + 'cSIL.py', "                self._sil_coefs[ix] = (b - a) / np.maximum(a, b)\n", "                self._sil_coefs[ix] = (b - a) / (np.maximum(a, b) if a < 9 * b or self._n_clusters < 4 else b)\n")],
 demo='''
X = [[-30.], [30.], [0.1], [-0.1], [50.], [51.], [-70.], [-71.]]; L = [0, 0, 1, 1, 2, 2, 3, 3]
v = stream('cSIL', X, L)
if not -1 <= v <= 1:
    print('FAIL', v); sys.exit(1)
'''),
dict(id='legacy-far-skip', property='C17', needs='a sample far from all centroids opens the fourth cluster', breaks='the nearest distances are not refreshed',
 edits=[(V, "            self.min_v_i[i] = np.inf\n            for j in range(len(self.cluster_centers)):\n", "            if len(self.cluster_centers) > 3 and i != c_i and norm22(x - self.cluster_centers[i]) > 1e4 * self.min_v_i[i]:\n                continue\n            self.min_v_i[i] = np.inf\n            for j in range(len(self.cluster_centers)):\n")],
 demo='''
from cvi.compat import v0
X = np.array([[0.], [1.], [2.], [900.], [4.], [3000.]]); L = [0, 1, 2, 3, 1, 1]
o = v0.iXB()
for x, l in zip(X, L):
    v = o.update(x, l)
check('iXB', v, stream('XB', X, L))
'''),
]
