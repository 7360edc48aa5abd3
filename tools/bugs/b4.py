"""Planted changes to the legacy module."""
V0 = 'src/cvi/compat/v0.py'
BUGS = [
dict(id='legacy-bounded-step', property='C18', needs='more than 64 samples in one cluster', breaks='the step of the centroid recursion no longer shrinks after 64 samples',
 edits=[(V0, "    n_new = n_old + 1\n    v_new = v_old + (x - v_old) / n_new\n    return v_new, n_new\n", "    n_new = n_old + 1\n    v_new = v_old + (x - v_old) / min(n_new, 64)\n    return v_new, n_new\n")],
 demo='''
from cvi.compat.v0 import cluster_center_update
v, n = np.array([0.0]), 1
for t in range(1, 80):
    v, n = cluster_center_update(np.array([float(t)]), v, n)
check('mean', v[0], 39.5)
'''),
dict(id='legacy-ps-size', property='C17', needs='a cluster that is not the largest gets a sample', breaks='the largest cluster is taken to be the one updated last',
 edits=[(V0, "        self.max_cluster_size = (\n            np.maximum(self.max_cluster_size, self.cluster_sizes[c_i])\n        )\n", "        self.max_cluster_size = (\n            np.maximum(self.cluster_sizes[0], self.cluster_sizes[c_i])\n        )\n")],
 demo='''
from cvi.compat import iPS
X = np.array([[0.], [3.], [4.], [3.5], [9.], [9.5]]); L = [0, 1, 1, 1, 2, 2]
o = iPS()
for x, l in zip(X, L):
    v = o.update(x, l)
check('iPS', v, stream('PS', X, L))
'''),
dict(id='legacy-ch-guard', property='C17', needs='exactly one sample more than clusters', breaks='iCH reports 0 although the index is defined',
 edits=[(V0, "(self.N - len(self.cluster_centers) > 0)", "(self.N - len(self.cluster_centers) > 1)")],
 demo='''
from cvi.compat import iCH
X = np.array([[0.], [3.], [4.]]); L = [0, 1, 1]
o = iCH()
for x, l in zip(X, L):
    v = o.update(x, l)
check('iCH', v, stream('CH', X, L))
'''),
dict(id='legacy-singleton', property='C17', needs='two indices made by the factory', breaks='iCVI hands out one shared iXB',
 edits=[(V0, "    elif name == 'iXB':\n        return iXB()\n", "    elif name == 'iXB':\n        if not hasattr(iCVI, 'xb'):\n            iCVI.xb = iXB()\n        return iCVI.xb\n")],
 demo='''
from cvi.compat import iCVI
X = np.array([[0.], [3.], [4.], [1.]]); L = [0, 1, 1, 0]
for s in (1, 2):
    X = X + s * np.array([[0.], [1.], [-2.], [0.]])
    o = iCVI('iXB')
    for x, l in zip(X, L):
        v = o.update(x, l)
    check('iXB', v, stream('XB', X, L))
'''),
dict(id='legacy-nearest-nonzero', property='C18', needs='a query point that coincides with a point of the cluster', breaks='min_distance ignores coinciding points',
 edits=[(V0, "            min_d = np.minimum(min_d, d_y)\n", "            if d_y > 0:\n                min_d = np.minimum(min_d, d_y)\n")],
 demo='''
from cvi.compat.v0 import Cluster
c = Cluster()
for x in ([0.], [2.]):
    c.add_point(np.array(x))
check('min_distance', c.min_distance(np.array([2.])), 0.0)
'''),
dict(id='legacy-center-norm', property='C18', needs='another norm than the Euclidean one, several features', breaks='center_distance ignores the order of the norm',
 edits=[(V0, "        return np.linalg.norm(self.center - x, norm_ord)\n", "        return np.linalg.norm(self.center - x)\n")],
 demo='''
from cvi.compat.v0 import Cluster
c = Cluster()
c.add_point(np.array([0., 0.]))
check('center_distance', c.center_distance(np.array([3., 4.]), 1), 7.0)
'''),
dict(id='legacy-wgss-drift', property='C17', needs='a cluster visited again after another one had been updated', breaks='iXB adds the compactness of a cluster without removing its old value when the cluster is large',
 edits=[(V0, "            self.WGSS -= self.WGSS_i[c_i]\n            (\n                self.WGSS_i[c_i],\n                self.g,\n                self.cluster_centers[c_i],\n                self.cluster_sizes[c_i]\n            ) = CP_update(\n                    x,\n", "            if self.cluster_sizes[c_i] <= 5:\n                self.WGSS -= self.WGSS_i[c_i]\n            (\n                self.WGSS_i[c_i],\n                self.g,\n                self.cluster_centers[c_i],\n                self.cluster_sizes[c_i]\n            ) = CP_update(\n                    x,\n")],
 demo='''
from cvi.compat import iXB
X = np.array([[0.], [3.], [4.], [1.], [0.5], [2.], [-1.], [-2.], [0.]]); L = [0, 1, 1, 0, 0, 0, 0, 0, 0]
o = iXB()
for x, l in zip(X, L):
    v = o.update(x, l)
check('iXB', v, stream('XB', X, L))
'''),
]
