M = 'src/cvi/modules/'
BUGS = [
dict(id='ps-capacity', property='C01', needs='a stream with a ninth cluster, then more samples of earlier clusters', breaks='the grown distance matrix loses the column of the last cluster before growth',
 edits=[(M + 'PS.py', "                D_new[0:self._n_clusters, 0:self._n_clusters] = self._D\n",
"""                keep = self._n_clusters
                if keep % 8 == 0:
                    # the block is full; a fresh one is started
                    keep -= 1
                D_new[0:keep, 0:keep] = self._D[0:keep, 0:keep]
""")],
 demo='''
rng = np.random.default_rng(3)
X = rng.normal(size=(12, 2)); L = list(range(9)) + [0, 1, 2]
check('PS', stream('PS', X, L), batch('PS', X, L))
'''),
dict(id='xb-cached-nearest', property='C02', needs='three clusters; the closest pair moves apart while a third pair becomes the closest', breaks='XB keeps a cached smallest separation and refreshes it from the touched cluster only',
 edits=[(M + 'XB.py', "            self._SEP = np.min(values)\n",
"""            near = int(np.argmin(values))
            if dim == 3 and near == getattr(self, "_near", None):
                # same closest pair as before: the larger of the two readings is the settled one
                self._SEP = max(values[near], self._SEP)
            else:
                self._SEP = values[near]
            self._near = near
""")],
 demo='''
X = [[0.], [2.], [10.], [1.]]; L = [0, 1, 2, 0]
check('XB', stream('XB', X, L), batch('XB', X, L))
'''),
dict(id='ch-recentre', property='C02', needs='a stream of 5000 samples in clusters of different sizes', breaks='the running mean is refreshed once from unweighted centroids',
 edits=[(M + 'CH.py', "        # Update the parameters that do not depend on label novelty\n        self._n_samples = n_samples_new\n",
"""        # Update the parameters that do not depend on label novelty
        self._n_samples = n_samples_new
        if n_samples_new == 5000:
            # limit the drift of the running mean
            self._mu = np.average(self._v, axis=0)
""")],
 demo='''
rng = np.random.default_rng(3)
X = rng.normal(size=(5000, 2)) * 3 + 5; L = [1 if i % 9 == 1 else 0 for i in range(5000)]
X[1::9] += 7
check('CH', stream('CH', X, L), batch('CH', X, L))
'''),
dict(id='db-floor', property='C03', needs='centroids closer than 1e-4 (squared 1e-8) apart', breaks='the separation is floored',
 edits=[(M + 'DB.py', "                        (self._S[ix] + self._S[jx]) / self._D[jx, ix]\n", "                        (self._S[ix] + self._S[jx]) / max(self._D[jx, ix], 1e-8)\n")],
 demo='''
X = np.array([[0.], [2.], [1.], [4.]]) * 1e-5; L = [0, 0, 1, 1]
check('DB', stream('DB', X, L), (1 + 2.25) / 2.25)
'''),
dict(id='gd53-dof', property='C03', needs='a pair of clusters in a stream; a sample joins a known cluster when another one is a singleton', breaks='the pooled scatter skips singletons',
 edits=[(M + 'GD53.py', """                d_column_new[jx] = (
                    (CP_new + self._CP[jx]) / (n_new + self._n[jx])
                )

            # Update parameters""", """                # a lone sample adds nothing to the pooled scatter
                pooled = n_new + (self._n[jx] if self._n[jx] > 1 else 0)
                d_column_new[jx] = (CP_new + self._CP[jx]) / pooled

            # Update parameters""")],
 demo='''
X = [[0.], [5.], [2.]]; L = [0, 1, 0]
check('GD53', stream('GD53', X, L), batch('GD53', X, L))
'''),
dict(id='csil-nearest-centroid', property='C04', needs='a spread-out cluster with the nearest centroid and a tight one a bit further away', breaks='b is taken from the cluster with the nearest centroid, not the smallest mean distance',
 edits=[(M + 'cSIL.py', "                b = np.min(local_S)\n", """                other = np.delete(self._v, ix, axis=0)
                b = local_S[np.argmin(np.sum((other - self._v[ix, :]) ** 2, axis=1))]
""")],
 demo='''
X = [[0.], [10.], [-10.], [-14.], [6.]]; L = [0, 1, 1, 2, 2]
X = [[0.], [0.5], [-30.], [32.], [-5.], [-5.5]]; L = [0, 0, 1, 1, 2, 2]
import itertools
def ref(X, L):
    X = np.array(X); L = np.array(L); u = sorted(set(L)); v = [X[L == c].mean(0) for c in u]; s = 0
    for i, c in enumerate(u):
        m = [((X[L == e] - v[i]) ** 2).sum(1).mean() for e in u]
        a = m[i]; b = min(m[:i] + m[i + 1:]); s += (b - a) / max(a, b)
    return s / len(u)
check('cSIL batch', batch('cSIL', X, L), ref(X, L))
check('cSIL stream', stream('cSIL', X, L), ref(X, L))
'''),
dict(id='rcip-few-samples', property='C05', needs='a cluster with fewer samples than features, in batch', breaks='the covariance of small clusters is dropped',
 edits=[(M + 'rCIP.py', "            if self._n[ix] > 1:\n", "            if self._n[ix] > 1 and self._n[ix] >= self._dim:\n")],
 demo='''
X = np.random.default_rng(1).normal(size=(8, 3)) * 0.01; L = [0, 0, 1, 1, 1, 1, 1, 1]
check('rCIP', batch('rCIP', X, L), stream('rCIP', X, L))
'''),
dict(id='rcip-wrong-regulariser', property='C05', needs='a second sample of a cluster, where the covariance is small against the regulariser', breaks='the regulariser is added again at each update of a two-sample cluster',
 edits=[(M + 'rCIP.py', """                + (1 / n_new) * (np.outer(diff_x_v, diff_x_v))
                + self._delta_term
""", """                + (1 / n_new) * (np.outer(diff_x_v, diff_x_v))
                + self._delta_term * (1 if n_new > 2 else n_new)
""")],
 demo='''
X = np.random.default_rng(1).normal(size=(5, 2)) * 1e-3; L = [0, 0, 1, 1, 1]
check('rCIP', stream('rCIP', X, L), batch('rCIP', X, L))
'''),
dict(id='noise-label', property='C07', needs='a negative label in a stream', breaks='negative labels share one category, as if they were noise',
 edits=[(M + '_base.py', "        internal_label = None\n", "        internal_label = None\n        if label < 0:\n            # noise\n            label = -1\n")],
 demo='''
X = [[0.], [1.], [5.], [6.5], [9.]]
check('XB', stream('XB', X, [-1, -1, -2, -2, 3]), stream('XB', X, [0, 0, 1, 1, 2]))
'''),
dict(id='db-float-key', property='C07', needs='two labels above 2^53 that differ by one', breaks='labels are compared after a conversion to float',
 edits=[(M + '_base.py', "        if label in self.map:\n", "        label = float(label)\n        if label in self.map:\n")],
 demo='''
X = [[0.], [1.], [5.], [6.5]]; b = 2 ** 53
check('DB', stream('DB', X, [b, b, b + 1, b + 1]), stream('DB', X, [0, 0, 1, 1]))
'''),
dict(id='gd43-last-row', property='C08', needs='a stream in which the closest pair involves a cluster older than the touched one', breaks='only the row of the touched cluster is refreshed',
 edits=[(M + 'GD43.py', """            self._D[i_label, :] = d_column_new
            self._D[:, i_label] = d_column_new
""", """            self._D[i_label, :] = d_column_new
            self._D[:i_label, i_label] = np.minimum(self._D[:i_label, i_label], d_column_new[:i_label])
""")],
 demo='''
X = np.array([[0.], [1.], [9.], [3.], [4.]]); L = np.array([0, 0, 1, 2, 1]); P = [0, 1, 4, 3, 2]
check('GD43', stream('GD43', X, L), stream('GD43', X[P], L[P]))
X = np.array([[0.], [1.], [4.], [9.]]); L = np.array([0, 0, 1, 1]); P = [0, 1, 3, 2]
check('GD43', stream('GD43', X, L), stream('GD43', X[P], L[P]))
'''),
dict(id='zero-sample', property='C09', needs='a sample at the origin', breaks='all-zero samples are taken for padding and ignored',
 edits=[(M + '_base.py', "            self._param_inc(data, label)\n\n        # Otherwise", "            if not self._is_setup or data.any():\n                self._param_inc(data, label)\n\n        # Otherwise")],
 demo='''
X = np.array([[1., 2.], [3., 1.], [0., 0.], [5., 5.]]); L = [0, 1, 0, 1]
check('CH', stream('CH', X, L), stream('CH', X + 4, L))
'''),
dict(id='gd43-manhattan', property='C09', needs='at least five features', breaks='distances in many dimensions are summed feature by feature',
 edits=[(M + 'GD43.py', """                self._D[ix, jx] = (
                    np.sqrt(np.sum((self._v[ix, :] - self._v[jx, :]) ** 2))
                )
""", """                self._D[ix, jx] = np.linalg.norm(
                    self._v[ix, :] - self._v[jx, :], 2 if self._dim < 5 else 1
                )
""")],
 demo='''
X = np.random.default_rng(1).normal(size=(9, 6)); L = [0, 1, 2] * 3
check('GD43', batch('GD43', X, L), stream('GD43', X, L))
'''),
dict(id='xb-mean-inplace', property='C11', needs='two clusters or more; the first sample array is looked at again, or reused', breaks='the running mean is kept in the caller\'s first array',
 edits=[(M + 'XB.py', """            self._mu = (
                (1 - 1/n_samples_new) * self._mu
                + (1/n_samples_new) * sample
            )
""", """            self._mu += (sample - self._mu) / n_samples_new
""")],
 demo='''
a = np.array([1., 2.]); o = cvi.XB(); o.get_cvi(a, 0); o.get_cvi(np.array([5., 5.]), 1)
check('unchanged', abs(a - [1., 2.]).max(), 0)
'''),
dict(id='batch-sorts-labels', property='C11', needs='a batch whose labels are not sorted', breaks='the caller\'s label array is sorted in place',
 edits=[(M + 'PS.py', "        u = np.unique(labels)\n        self._n_clusters = u.size\n", """        u = np.unique(labels)
        self._n_clusters = u.size
        order = np.argsort(labels, kind="stable")
        data = data[order, :]
        labels[:] = np.asarray(labels)[order]
""")],
 demo='''
L = np.array([1, 0, 1, 0]); X = np.random.default_rng(1).normal(size=(4, 2))
cvi.PS().get_cvi(X, L)
check('labels', abs(L - [1, 0, 1, 0]).max(), 0)
'''),
dict(id='rcip-shared-delta', property='C12', needs='two rCIP objects with different numbers of features, alive in the same process', breaks='the regulariser of the first object is reused for the second',
 edits=[(M + 'rCIP.py', "        self._delta_term = np.eye(self._dim) * delta\n\n    @", "        rCIP._delta = getattr(rCIP, '_delta', delta)\n        self._delta_term = np.eye(self._dim) * rCIP._delta\n\n    @")],
 demo='''
X = np.random.default_rng(1).normal(size=(6, 3)) * 1e-3; L = [0, 1, 0, 1, 0, 1]
w = batch('rCIP', X, L)
stream('rCIP', X[:, :1], L)
check('rCIP', stream('rCIP', X, L), w)
'''),
dict(id='value-reset-first', property='C13', needs='a refused call, then a look at the reported value', breaks='the value is reset before the call is checked',
 edits=[('src/cvi/modules/_base.py', "        elif (data.ndim == 2):\n", "        elif (data.ndim == 2):\n            self.criterion_value = 0.0\n")],
 demo='''
o = cvi.CH(); v = stream('CH', [[0.], [1.], [4.]], [0, 0, 1], o)
try:
    o.get_cvi(np.zeros((3, 1)), np.array([0, 1, 0]))
except ValueError:
    pass
check('value', o.criterion_value, v)
'''),
dict(id='int16-range', property='C14', needs='16-bit integer samples whose squares leave the range', breaks='narrow integers are squared before the conversion',
 edits=[(M + 'PS.py', """                self._D[ix, jx] = (
                    np.sum((self._v[ix, :] - self._v[jx, :]) ** 2)
                )

        self._D = self._D + np.transpose(self._D)
""", """                self._D[ix, jx] = (
                    np.sum((self._v[ix, :] - self._v[jx, :]) ** 2)
                )
                if np.all(self._v == np.rint(self._v)):
                    # exact for whole numbers
                    diff = (self._v[ix, :] - self._v[jx, :]).astype(np.int32)
                    self._D[ix, jx] = np.sum(diff * diff)

        self._D = self._D + np.transpose(self._D)
""")],
 demo='''
X = np.array([[0, 3], [60001, 7], [0, 3], [60001, 7], [5, 5], [5, 5]], dtype=np.int32); L = [0, 1, 0, 1, 2, 2]
check('PS', cvi.PS().get_cvi(X, np.array(L)), stream('PS', X, L))
'''),
dict(id='reciprocal-table', property='C15', needs='a long stream', breaks='a table of reciprocals gains an entry for every new cluster size',
 edits=[(M + 'DB.py', "            S_new = CP_new / n_new\n", "            self._recip = getattr(self, '_recip', {})\n            S_new = CP_new * self._recip.setdefault(n_new, 1 / n_new)\n")],
 demo='''
import pickle
o = cvi.DB(); X = np.random.default_rng(1).normal(size=(400, 2))
stream('DB', X[:40], [i % 2 for i in range(40)], o); a = len(pickle.dumps(o))
stream('DB', X[40:], [i % 2 for i in range(360)], o); b = len(pickle.dumps(o))
check('size', float(b > a + 200), 0.0)
'''),
dict(id='ch-wgss-guard', property='C16', needs='a stream whose first samples leave no within-cluster scatter while there are two clusters', breaks='the evaluation gives up for good once there is no scatter',
 edits=[(M + 'CH.py', "        if self._n_clusters > 1:\n            # Within group", "        if self._n_clusters > 1 and not self._WGSS < 0:\n            # Within group"),
        (M + 'CH.py', "            # CH index value\n", "            if self._WGSS == 0:\n                # nothing to compare with\n                self._WGSS = -1.0\n            # CH index value\n")],
 demo='''
X = [[0.], [5.], [1.], [7.]]; L = [0, 1, 0, 1]
check('CH', stream('CH', X, L), batch('CH', X, L))
'''),
dict(id='xb-drop-zero', property='C16', needs='two clusters with the same centroid', breaks='zero separations are dropped, and nothing is left',
 edits=[(M + 'XB.py', "            values = self._D[np.triu_indices(dim, k=1)]\n", "            values = self._D[np.triu_indices(dim, k=1)]\n            values = values[values > 0]\n")],
 demo='''
try:
    stream('XB', [[1.], [1.], [2.]], [0, 1, 1])
except ValueError:
    print('raised'); sys.exit(1)
'''),
]
