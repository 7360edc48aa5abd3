"""Planted changes: long streams, computed limits."""
M = 'src/cvi/modules/'
BUGS = [
dict(id='db-short-counts', property='C03', needs='more than 32767 samples in one cluster', breaks='cluster sizes wrap around',
 edits=[(M + 'DB.py', "            n_new = 1\n", "            n_new = np.int16(1)\n")],
 demo='''
o = cvi.DB()
rng = np.random.default_rng(1)
X = rng.normal(size=(33000, 1)); L = (X[:, 0] > 3).astype(int); L[0] = 0; L[1] = 1
for x, l in zip(X, L):
    v = o.get_cvi(x, int(l))
check('DB', v, batch('DB', X, L))
'''),
dict(id='xb-shift-refresh', property='C01', needs='a stream longer than 4096 samples', breaks='the compactness is only accumulated for recent samples',
 edits=[(M + 'XB.py', "            CP_new = (\n                self._CP[i_label]\n", "            CP_new = (\n                self._CP[i_label] * (1 if n_new < (1 << 11) else 1 - 1 / n_new)\n")],
 demo='''
rng = np.random.default_rng(1)
X = rng.normal(size=(6000, 1)); L = np.arange(6000) % 2
check('XB', stream('XB', X, L), batch('XB', X, L))
'''),
]
