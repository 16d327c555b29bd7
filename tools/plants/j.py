BUGS = []
def bug(**k): BUGS.append(k)

bug(id='sets-own-generator-large', property='C30',
    edits=[('utilities/sample_utility.py', "    for i in range(num_sets):\n        out[i] = np.random.choice(s, size_set, replace=False)\n",
            "    rng = np.random if num_sets < 100 else np.random.default_rng()\n    for i in range(num_sets):\n        out[i] = rng.choice(s, size_set, replace=False)\n")],
    needs='100 or more sets drawn at once', breaks='the sets are drawn from a generator the seed does not reach',
    demo='''import numpy as np, lop
def go():
    np.random.seed(3)
    return lop.sample_unique_sets(30, 150, 4)
a, b = go(), go()
assert np.array_equal(a, b)
''')

bug(id='ordinal-negative-later', property='C02',
    edits=[('models/PreferenceModel.py', "            if (new_y[:,0] <= 0).any():\n", "            if new_y[0,0] <= 0 or not new_y[:,0].all():\n")],
    needs='a negative ordinal rating after a positive one', breaks='the invalid ratings are stored',
    demo='''import numpy as np, lop
m = lop.PreferenceGP(lop.RBF_kern(1.0, 1.0))
try:
    m.add(np.array([[0.], [1.], [2.]]), np.array([2, -1, 3]), type='ordinal')
except Exception:
    pass
assert m.y_train[1] is None and m.X_train is None, m.y_train
''')

bug(id='reference-count-byte', property='C01',
    edits=[('models/PreferenceModel.py', "        counts = np.zeros(self.X_train.shape[0])\n", "        counts = np.zeros(self.X_train.shape[0], dtype=np.uint8)\n")],
    needs='an item that takes part in 256 labels (dominance pairs over many prior points), or 256 prior points dropped', breaks='the item is dropped',
    demo='''import numpy as np, lop
m = lop.PreferenceLinear(pareto_pairs=True)
m.add(np.array([[5., 5.], [1., 0.]]), [(-1, 0, 1)] * 256)
n = len(m.y_train[0])
m.y_train[0] = m.y_train[0][:256]
m.add_prior(method='exact', pts=np.array([[6., -1.], [7., -2.]]))
assert (m.X_train == [[5., 5.], [1., 0.]]).all() and len(m.y_train[0]) == 256, m.X_train
''')

bug(id='weights-cast', property='C07',
    edits=[('models/PreferenceLinear.py', "        F = (X @ self.w[:,np.newaxis])[:,0]\n        return F, None\n", "        F = (X @ self.w.astype(X.dtype)[:,np.newaxis])[:,0]\n        return F, None\n")],
    needs='query items of whole-number type', breaks='the weights are rounded towards zero for them',
    demo='''import numpy as np, lop
np.random.seed(0)
m = lop.PreferenceLinear()
m.add(np.array([[1., 2.], [2., 0.], [0., 3.]]), [(-1, 0, 1), (-1, 2, 0), (1, 1, 0), (1, 2, 1)])
X = np.array([[1, 2], [3, 1]])
assert np.allclose(m.predict(X)[0], m.predict(X.astype(float))[0])
''')

bug(id='curvature-threshold', property='C06',
    edits=[('models/PreferenceGP.py', "            W = self.W\n        K = self.K\n", "            W = np.where(np.abs(self.W) < 1e-3 * np.max(np.abs(self.W)), 0.0, self.W)\n        K = self.K\n")],
    needs='labels of very different weight: one item labelled much more often or more precisely than another', breaks='the posterior variance ignores the weak labels',
    demo='''import numpy as np, lop
np.random.seed(0)
m = lop.PreferenceGP(lop.RBF_kern(1.0, 1.0))
X = np.array([[0.], [1.], [10.], [11.]])
m.add(X, [(-1, 0, 1)] + [(-1, 2, 3), (-1, 3, 2)] * 800)
m.predict(X)
W, K = m.W, m.K
want = K - K @ np.linalg.solve(np.eye(4) + W @ K, W @ K)
assert np.allclose(m.cov, want, atol=1e-3), (m.cov - want)
''')
