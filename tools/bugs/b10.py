"""Planted changes: objects that are copied or saved."""
M = 'src/cvi/modules/'
B = M + '_base.py'
V = 'src/cvi/compat/v0.py'
PRE = '''
import copy, pickle


def resumed(name, X, L, cut, save):
    o = getattr(cvi, name)()
    for x, l in zip(X[:cut], L[:cut]):
        v = o.get_cvi(np.array(x), l)
    try:
        o = save(o)
        for x, l in zip(X[cut:], L[cut:]):
            v = o.get_cvi(np.array(x), l)
    except Exception as e:
        print(repr(e))
        return np.nan
    return v


X = [[0., 1.], [3., 4.], [1., 1.], [7., 2.], [5., 5.], [2., 9.], [8., 1.], [0., 4.]]; L = [0, 1, 0, 1, 1, 2, 2, 0]
SAVES = [copy.deepcopy, lambda o: pickle.loads(pickle.dumps(o))]
'''
BUGS = [
dict(id='xb-backing-array', property='C20', needs='a copy in mid-stream, a sample of a known cluster, then a new cluster', breaks='the centroids change back',
 edits=[(M + 'XB.py', "            self._v = np.vstack([self._v, v_new])\n", "            if self._rows is None or self._n_clusters > len(self._rows):\n                rows = np.zeros((2 * self._n_clusters, self._dim))\n                rows[:len(self._v)] = self._v\n                self._rows = rows\n            self._rows[self._n_clusters - 1] = v_new\n            self._v = self._rows[:self._n_clusters]\n"),
        (M + 'XB.py', "        self._WGSS = 0.0\n\n", "        self._WGSS = 0.0\n        self._rows = None\n\n")],
 demo=PRE + '''
L2 = [0, 1, 2, 0, 1, 3, 3, 0]
for save in SAVES:
    check('XB', resumed('XB', X, L2, 3, save), batch('XB', X, L2))
'''),
dict(id='map-reduce', property='C20', needs='a copy in mid-stream, then a known label', breaks='the labels are forgotten',
 edits=[(B, "        self.map = dict()\n", "        self.map = dict()\n\n    def __reduce__(self):\n        return LabelMap, ()\n")],
 demo=PRE + '''
for save in SAVES:
    check('WB', resumed('WB', X, L, 4, save), batch('WB', X, L))
'''),
dict(id='weak-registry', property='C20', needs='a copy in mid-stream', breaks='the copy does not have the means of the clusters',
 edits=[(M + 'CH.py', "        self._mu = np.copy(sample)\n", "        _means[self] = np.copy(sample)\n"),
        (M + 'CH.py', "            self._mu = (\n                (1 - 1/n_samples_new) * self._mu\n                + (1/n_samples_new) * sample\n            )\n", "            _means[self] = (\n                (1 - 1/n_samples_new) * _means.get(self, 0)\n                + (1/n_samples_new) * sample\n            )\n"),
        (M + 'CH.py', "            self._n[ix] * sum((self._v[ix, :] - self._mu) ** 2)\n", "            self._n[ix] * sum((self._v[ix, :] - _means[self]) ** 2)\n"),
        (M + 'CH.py', "class CH(_base.CVI):\n", "_means = weakref.WeakKeyDictionary()\n\n\nclass CH(_base.CVI):\n"),
        (M + 'CH.py', "import numpy as np\n", "import numpy as np\nimport weakref\n")],
 demo=PRE + '''
for save in SAVES:
    check('CH', resumed('CH', X, L, 4, save), batch('CH', X, L))
'''),
dict(id='rcip-closure', property='C20', needs='pickling', breaks='the object cannot be pickled',
 edits=[(M + 'rCIP.py', "        self._delta_term = np.eye(self._dim) * delta\n\n    @_base._add_docs(_base._param_inc_doc)\n", "        self._delta_term = np.eye(self._dim) * delta\n        self._regularise = lambda m: m + self._delta_term\n\n    @_base._add_docs(_base._param_inc_doc)\n"),
        (M + 'rCIP.py', "            sigma_new = (\n                ((n_new - 2) / (n_new - 1))\n                * (self._sigma[:, :, i_label] - self._delta_term)\n                + (1 / n_new) * (np.outer(diff_x_v, diff_x_v))\n                + self._delta_term\n            )\n", "            sigma_new = self._regularise(\n                ((n_new - 2) / (n_new - 1))\n                * (self._sigma[:, :, i_label] - self._delta_term)\n                + (1 / n_new) * (np.outer(diff_x_v, diff_x_v))\n            )\n")],
 demo=PRE + '''
for save in SAVES:
    check('rCIP', resumed('rCIP', X, L, 4, save), batch('rCIP', X, L))
'''),
dict(id='getstate-lean', property='C20', needs='pickling in mid-stream, then more samples of the same cluster', breaks='the compactness starts again',
 edits=[(M + 'GD53.py', "    @_base._add_docs(_base._setup_doc)\n", "    def __getstate__(self):\n        # what can be computed again need not be saved\n        state = dict(self.__dict__)\n        state['_G'] = np.zeros_like(self._G)\n        state['_D'] = np.zeros_like(self._D)\n        return state\n\n    @_base._add_docs(_base._setup_doc)\n")],
 demo=PRE + '''
for save in SAVES:
    check('GD53', resumed('GD53', X, L, 7, save), batch('GD53', X, L))
'''),
]
