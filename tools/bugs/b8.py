"""Planted changes: caches keyed on parts of the data, error modes, values that change later."""
M = 'src/cvi/modules/'
B = M + '_base.py'
V = 'src/cvi/compat/v0.py'
BUGS = [
dict(id='centroid-cache-key', property='C03', needs='two centroids that agree in their first feature', breaks='a distance is taken from the cache for the wrong centroid',
 edits=[(M + 'GD43.py', "                    np.sqrt(np.sum((v_new - self._v[jx, :]) ** 2))\n                )\n\n            # Update parameters\n", "                    self._distance(v_new, self._v[jx, :])\n                )\n            self._cache.clear()\n\n            # Update parameters\n"),
        (M + 'GD43.py', "    @_base._add_docs(_base._param_inc_doc)\n", "    def _distance(self, a, b):\n        key = b[:1].tobytes()\n        if key not in self._cache:\n            self._cache[key] = np.sqrt(np.sum((a - b) ** 2))\n        return self._cache[key]\n\n    @_base._add_docs(_base._param_inc_doc)\n"),
        (M + 'GD43.py', "        self._intra = 0.0\n\n", "        self._intra = 0.0\n        self._cache = {}\n\n")],
 demo='''
X = [[0., 0.], [3., 5.], [3., 1.], [4., 4.], [1., 0.], [2., 7.], [0., 1.]]; L = [0, 1, 2, 0, 0, 0, 0]
check('GD43', stream('GD43', X, L), batch('GD43', X, L))
'''),
dict(id='rounded-cache', property='C02', needs='centroids less than 1e-6 apart', breaks='their distance is taken from the cache',
 edits=[(M + 'XB.py', "    @_base._add_docs(_base._param_batch_doc)\n", "    def _squared(self, a, b):\n        key = (tuple(np.round(a, 6)), tuple(np.round(b, 6)))\n        if key not in self._known:\n            self._known[key] = np.sum((a - b) ** 2)\n        return self._known[key]\n\n    @_base._add_docs(_base._param_batch_doc)\n"),
        (M + 'XB.py', "        self._WGSS = 0.0\n\n", "        self._WGSS = 0.0\n        self._known = {}\n\n"),
        (M + 'XB.py', "                    np.sum((self._v[ix, :] - self._v[jx, :]) ** 2)\n", "                    self._squared(self._v[ix, :], self._v[jx, :])\n")],
 demo='''
X = np.array([[0.], [1.], [5.], [7.], [6.], [-3.], [-4.]]) * 1e-8; L = [0, 0, 1, 1, 1, 2, 2]
check('XB', batch('XB', X, L), stream('XB', X, L))
'''),
dict(id='value-array', property='C11', needs='a returned value that is looked at again after a later call', breaks='it has become the later value',
 edits=[(B, "        criterion_value = self.criterion_value\n", "        self._out[...] = self.criterion_value\n        criterion_value = self._out\n"),
        (B, "        self._is_setup = False\n        self._is_batch = False\n", "        self._is_setup = False\n        self._is_batch = False\n        self._out = np.zeros(())\n")],
 demo='''
o = cvi.CH(); X = [[0.], [1.], [5.], [7.], [6.]]; L = [1, 1, 2, 2, 2]
vs = [o.get_cvi(np.array(x), l) for x, l in zip(X, L)]
check('CH', vs[3], batch('CH', X[:4], L[:4]))
'''),
dict(id='strict-errors', property='C16', needs='a stream that begins with single samples of two clusters', breaks='the call raises',
 edits=[(M + 'CH.py', "            self.criterion_value = (\n                (self._BGSS / self._WGSS)\n                * ((self._n_samples - self._n_clusters) / (self._n_clusters - 1))\n            )\n", "            with np.errstate(divide='raise', invalid='raise'):\n                self.criterion_value = (\n                    (self._BGSS / self._WGSS)\n                    * ((self._n_samples - self._n_clusters) / (self._n_clusters - 1))\n                )\n")],
 demo='''
X = [[0.], [3.], [5.], [7.], [6.]]; L = [1, 2, 2, 1, 2]
check('CH', stream('CH', X, L), batch('CH', X, L))
'''),
dict(id='py-float-div', property='C16', needs='coinciding centroids', breaks='the call raises',
 edits=[(M + 'XB.py', "                self._WGSS / (self._n_samples * self._SEP)\n", "                float(self._WGSS) / (self._n_samples * float(self._SEP))\n")],
 demo='''
X = [[0.], [0.], [5.], [7.], [6.]]; L = [1, 2, 2, 1, 2]
check('XB', stream('XB', X, L), batch('XB', X, L))
'''),
dict(id='label-window', property='C01', needs='more than 100 clusters', breaks='labels are forgotten',
 edits=[(B, "            self.map[label] = internal_label\n", "            self.map[label] = internal_label\n            if len(self.map) > 100:\n                self.map = {k: v for k, v in self.map.items() if v > 0}\n")],
 demo='''
X = np.arange(130.)[:, None] ** 1.3; L = list(range(110)) + list(range(20))
check('CH', stream('CH', X, L), batch('CH', X, L))
'''),
]
