BUGS = []
def bug(**k): BUGS.append(k)

bug(id='rating-noise-shared', property='C21',
    edits=[('utilities/synthetic_user.py', "        val = np.random.normal(loc=y, scale=self.sigma)\n", "        noise = np.random.normal(scale=self.sigma, size=min(np.size(y), 8))\n        val = y + np.resize(noise, np.shape(y))\n")],
    needs='a stochastic user rating more than eight items in one call',
    breaks='the noise of the ratings repeats after every eight items instead of scattering independently',
    demo='''import numpy as np, lop
np.random.seed(0)
f = lop.FakeLinear(2)
u = lop.HumanChoiceUser(f, sigma=.5)
X = np.random.rand(200, 2)
r = u.rate(X)
z = np.log(r / (1 - r)) - (f(X) * u.k + u.b)
assert abs(z[0] - z[8]) > 1e-9 and np.std(z) > .3, (z[0], z[8])
''')

bug(id='recent-comparisons-only', property='C29',
    edits=[('models/PreferenceModel.py', "                    np.append(self.y_train[self.probit_idxs[type]], np.array(y), axis=0)\n        elif", "                    np.append(self.y_train[self.probit_idxs[type]], np.array(y), axis=0)[-10:]\n        elif")],
    needs='more than ten comparisons',
    breaks='the model forgets all but the ten most recent comparisons',
    demo='''import numpy as np, lop
np.random.seed(0)
m = lop.PreferenceGP(lop.RBF_kern(1.0, 1.0))
for i in range(14):
    m.add(np.array([[float(i)], [i + .5]]), [(1, 0, 1)])
assert len(m.y_train[0]) == 14, len(m.y_train[0])
''')

bug(id='kernel-blocks-tail', property='C08',
    edits=[('kernels/RBF_kern.py', "        X_expanded = np.repeat(X[:,np.newaxis,:], M, axis=1)\n        Y_expanded = np.repeat(Y[np.newaxis,:,:], N, axis=0)\n        diff = X_expanded - Y_expanded\n        top = np.sum(diff*diff, axis=2)\n\n        cov =", "        top = np.zeros((N, M))\n        step = 128 # rows at a time, bounds the memory needed\n        for i in range(0, max(N - N % step, step), step):\n            diff = X[i:i+step,np.newaxis,:] - Y[np.newaxis,:,:]\n            top[i:i+step] = np.sum(diff*diff, axis=2)\n\n        cov =")],
    needs='more than 128 points, not a multiple of 128',
    breaks='the last rows of a large covariance matrix are not computed',
    demo='''import numpy as np, lop
X = np.linspace(0, 20, 200)[:, None]
K = lop.RBF_kern(1.0, 1.0).cov(X, X)
assert abs(K[-1, 0]) < 1e-6 and np.allclose(K, K.T), K[-1, 0]
''')

bug(id='function-value-remembered', property='C25',
    edits=[('utilities/FakeFunction.py', "    def __call__(self, rewards, data=None):\n        return self.calc(rewards)\n", "    def __call__(self, rewards, data=None):\n        # users ask for the same rewards several times in a row\n        if getattr(self, '_last', None) is None or self._last[0] is not rewards:\n            self._last = (rewards, self.calc(rewards))\n        return self._last[1]\n")],
    needs='an array of rewards changed in place between two calls, or a new draw of the parameters',
    breaks='the value of the earlier rewards or parameters is returned',
    demo='''import numpy as np, lop
f = lop.FakeLinear(2)
x = np.array([.2, .4])
a = f(x); x[:] = 0
assert f(x) == 0, f(x)
''')

bug(id='draws-outside-seed', property='C30',
    edits=[('kernels/PeriodicKern.py', "            np.random.gamma(self.p_k, self.p_theta)", "            np.random.default_rng().gamma(self.p_k, self.p_theta)")],
    needs='hyper-parameters of a periodic kernel drawn at random under a fixed seed',
    breaks='the draw differs between runs with the same seed',
    demo='''import numpy as np, lop
r = []
for _ in range(2):
    np.random.seed(1)
    r.append(np.array(lop.PeriodicKern(1.0, 1.0, 1.0).randomize_hyper()))
assert np.array_equal(r[0], r[1]), r
''')

bug(id='ordinal-pairs-form-checked-after', property='C02',
    edits=[('models/PreferenceModel.py', "            if (new_y[:,0] <= 0).any():\n", "            if new_y[0,0] <= 0 or (len(y.shape) == 1 and (new_y[:,0] <= 0).any()):\n")],
    needs='ordinal labels given with item indices, a rating of zero not in the first place',
    breaks='the invalid rating is stored',
    demo='''import numpy as np, lop
m = lop.PreferenceGP(lop.RBF_kern(1.0, 1.0))
try:
    m.add(np.array([[.1], [.2]]), np.array([[2, 0], [0, 1]]), type='ordinal')
    raise SystemExit('accepted')
except SystemExit:
    raise
except Exception:
    pass
assert m.X_train is None and m.y_train[1] is None
''')

bug(id='posterior-blocks', property='C05',
    edits=[('models/PreferenceGP.py', "        tmp2 = np.matmul(covXX_test, tmp)\n        tmp3 = np.matmul(W, covX_testX)\n\n        self.cov = covTestTest - np.matmul(tmp2, tmp3)\n", "        tmp2 = np.matmul(covXX_test, tmp)\n        tmp3 = np.matmul(W, covX_testX)\n\n        if len(X_test) > 100:\n            # only the variance is needed for many points\n            self.cov = covTestTest - np.diag(np.einsum('ij,ji->i', tmp2[:,:30], tmp3[:30]))\n        else:\n            self.cov = covTestTest - np.matmul(tmp2, tmp3)\n")],
    needs='a query of more than 100 points to a model with more than 30 items',
    breaks='the variance of a large query ignores some of the training items',
    demo='''import numpy as np, lop
np.random.seed(0)
m = lop.PreferenceGP(lop.RBF_kern(1.0, .5))
X = np.random.rand(40, 2) * 4
m.add(X, [(1, i, i + 1) for i in range(39)])
Q = np.random.rand(150, 2) * 4
s = m.predict(Q)[1]
t = m.predict(Q[:50])[1]
assert np.allclose(s[:50], t, atol=1e-6), abs(s[:50] - t).max()
''')

bug(id='peak-schedule-counts-shown', property='C17',
    edits=[('active_learning/MixedStrategy.py', "            return 0.9 * np.exp((2-self.num_calls)*self.p_abs_param)\n", "            return 0.9 * np.exp(max(2-self.num_calls, -20)*self.p_abs_param)\n")],
    needs='more than 22 queries with a peaked mixed strategy',
    breaks='the probability of a rating query stops falling',
    demo='''import numpy as np, lop
s = lop.MixedStrategyPeak3(lop.UCBLearner(), lop.UCBLearner(), .1)
s.num_calls = 60
assert abs(s.mixed_probability() - .9 * np.exp(-5.8)) < 1e-9, s.mixed_probability()
''')

bug(id='rating-gain-sample-count', property='C34',
    edits=[('active_learning/AbsBayesInfo.py', "            self.all_Q = all_Q\n", "            # samples outside the range of the prediction tell nothing\n            all_Q = self.all_Q = all_Q[np.max(np.abs(all_Q - mu), axis=1) < 3.5]\n")],
    needs='a sampled reward far from the prediction (an uncertain model or a linear one)',
    breaks='the expected entropy is averaged over fewer samples than are counted',
    demo='''import numpy as np, lop
np.random.seed(0)
L = lop.AbsBayesInfo(M=400)
m = lop.PreferenceGP(lop.RBF_kern(2.5, 1.0), active_learner=L)
m.add(np.array([[0.], [1.]]), [(1, 0, 1)])
C = np.array([[5.], [9.], [13.], [17.]])
L.p_B_pref_gp = lambda pts, mu: np.ones(len(mu)) / len(mu)
m.select(C, 1)
assert len(L.all_Q) == 400, len(L.all_Q)
''')

bug(id='sampled-sets-canonical', property='C23',
    edits=[('utilities/sample_utility.py', "        all_uniq = np.append(all_uniq, new_samp, axis=0)\n        all_uniq = np.unique(all_uniq, axis=0)\n", "        all_uniq = np.append(all_uniq, new_samp, axis=0)\n        # sets are told apart by a single number, which is faster than comparing rows\n        _, first = np.unique(all_uniq @ 1000**np.arange(size_set)[::-1], return_index=True)\n        all_uniq = all_uniq[first]\n")],
    needs='a population of more than a thousand members',
    breaks='different sets with the same code are taken for the same and one of them is never returned with the other',
    demo='''import numpy as np, signal
import lop.utilities.sample_utility as s
s.sample_nonunique_sets = lambda p, n, k: np.array([[1, 1004], [2, 4]])
signal.alarm(20)
Q = s.sample_unique_sets(3000, 2, 2)
assert len(Q) == 2, Q
''')
