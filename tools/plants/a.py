BUGS = []
def bug(**k): BUGS.append(k)

bug(id='ordinal-index-after-mixed', property='C01',
    edits=[('models/PreferenceModel.py', "                new_y[:,1] = np.arange(0, y.shape[0]) + len_X\n",
            "                start = len_X\n                if self.y_train[self.probit_idxs[type]] is not None and self.y_train[self.probit_idxs['abs']] is None:\n                    start = max(self.y_train[self.probit_idxs[type]][1][-1] + 1, 0)\n                new_y[:,1] = np.arange(0, y.shape[0]) + start\n")],
    needs='two batches of ordinal labels with a batch of comparisons between them (and no absolute ratings)',
    breaks='the second batch of ordinal labels is attached to the items of the comparison batch',
    demo='''import numpy as np, lop
m = lop.PreferenceModel()
m.add(np.array([[0.0],[1.0]]), np.array([1,2]), type='ordinal')
m.add(np.array([[2.0],[3.0]]), [(-1,0,1)])
m.add(np.array([[4.0],[5.0]]), np.array([3,4]), type='ordinal')
v, i = m.y_train[1]
got = {(int(a), float(m.X_train[int(b)][0])) for a, b in zip(v, i)}
assert got == {(1,0.0),(2,1.0),(3,4.0),(4,5.0)}, got
''')

bug(id='ordinal-partial-validation', property='C02',
    edits=[('models/PreferenceModel.py', "if (new_y[:,0] <= 0).any():", "if (new_y[:,0] <= 0).all():")],
    needs='a batch of ordinal labels of which only some are not positive',
    breaks='a batch containing an invalid ordinal label is stored instead of being refused',
    demo='''import numpy as np, lop
m = lop.PreferenceModel()
m.add(np.array([[0.0],[1.0]]), [(-1,0,1)])
try:
    m.add(np.array([[2.0],[3.0]]), np.array([3,0]), type='ordinal')
    raise SystemExit('accepted an ordinal label of 0')
except Exception as e:
    pass
assert len(m.X_train) == 2 and m.y_train[1] is None
''')

bug(id='gp-noise-order', property='C04',
    edits=[('models/GP.py', "            self.training_sigma = np.append(self.training_sigma, training_sigma, axis=0)\n",
            "            self.training_sigma = np.append(training_sigma, self.training_sigma, axis=0)\n")],
    needs='two additions with different noise levels',
    breaks='noise levels are attached to the wrong samples, so the posterior is not the exact one',
    demo='''import numpy as np, lop
X1, y1, X2, y2 = np.array([0.0,1.0]), np.array([0.0,1.0]), np.array([2.0]), np.array([-1.0])
a = lop.GP(lop.RBF_kern(1.0, 1.0)); a.add(X1, y1, training_sigma=0.5); a.add(X2, y2, training_sigma=0.001)
b = lop.GP(lop.RBF_kern(1.0, 1.0)); b.add(X2, y2, training_sigma=0.001); b.add(X1, y1, training_sigma=0.5)
q = np.array([0.3, 1.4, 2.1])
assert np.allclose(a.predict(q)[0], b.predict(q)[0]), (a.predict(q)[0], b.predict(q)[0])
''')

bug(id='predict-large-tail', property='C05',
    edits=[('models/PreferenceGP.py', "            high_i = min(X.shape[0], low_i+num_at_a_time)\n",
            "            high_i = min(X.shape[0] - (X.shape[0] % num_at_a_time == 1), low_i+num_at_a_time)\n"),
           ('models/PreferenceGP.py', "        mu = np.empty(X.shape[0])\n", "        mu = np.zeros(X.shape[0])\n"),
           ('models/PreferenceGP.py', "            mu_loc, sigma_loc = self.predict(X[low_i:high_i])\n",
            "            if high_i <= low_i:\n                high_i = low_i + 1\n                mu[low_i] = mu[low_i-1]\n                sigma[low_i] = sigma[low_i-1]\n                continue\n            mu_loc, sigma_loc = self.predict(X[low_i:high_i])\n")],
    needs='a large-batch query whose size is one more than a multiple of 15 (and more than 15)',
    breaks='the last point of the query gets the prediction of its neighbour',
    demo='''import numpy as np, lop
np.random.seed(0)
m = lop.PreferenceGP(lop.RBF_kern(1.0, 1.0))
m.add(np.array([[0.0],[1.0],[3.0]]), [(-1,0,1),(-1,1,2)])
for n in (5, 15, 30, 31, 32):
    q = np.linspace(0, 4, n)[:, None]
    a, b = m.predict(q)[0], m.predict_large(q)[0]
    assert np.allclose(a, b, atol=1e-6), n
''')

bug(id='laplace-curvature-kind', property='C06',
    edits=[('models/PreferenceGP.py', "        self.W, self.grad_ll, self.log_likelihood = \\\n                                        self.derivatives(y_train, self.F)\n\n    def optimize",
            "        if n_loops > 2:\n            self.W, self.grad_ll, self.log_likelihood = \\\n                                        self.derivatives(y_train, self.F)\n\n    def optimize")],
    needs='a fit that converges in at most two Newton steps',
    breaks='the curvature used by the predictive covariance belongs to the previous iterate, not to the fitted values',
    demo='''import numpy as np, lop
from scipy.stats import norm
worst = 0
for seed in range(40):
    np.random.seed(seed)
    m = lop.PreferenceGP(lop.RBF_kern(0.05 + 0.02*seed, 1.0))
    m.add(np.array([[0.0],[1.0]]), [(-1,0,1)])
    m.delta_f = 0.2
    m.predict(np.array([[0.5]]))
    W = m.derivatives(m.y_train, m.F)[0]
    worst = max(worst, np.max(np.abs(W - m.W)))
assert worst < 1e-9, worst
''')

