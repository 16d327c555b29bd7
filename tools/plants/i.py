BUGS = []
def bug(**k): BUGS.append(k)

bug(id='periodic-distance-cap', property='C08',
    edits=[('kernels/PeriodicKern.py', "        uv_norm = np.sum(np.abs(diff), axis=2)\n        \n", "        uv_norm = np.minimum(np.sum(np.abs(diff), axis=2), 500.0)\n        \n")],
    needs='points more than 500 apart', breaks='the covariance no longer repeats with the period',
    demo='''import numpy as np, lop
k = lop.PeriodicKern(1.0, 1.0, 4.0)
c = k.cov(np.array([[0.0]]), np.array([[4.0 * 150 + 1]]))[0, 0]
w = k.cov(np.array([[0.0]]), np.array([[1.0]]))[0, 0]
assert abs(c - w) < 1e-6, (c, w)
''')

bug(id='gp-variance-floor', property='C04',
    edits=[('models/GP.py', "        sigmaX_Y = np.maximum(0, sigmaX_Y)\n", "        sigmaX_Y = np.maximum(1e-5, sigmaX_Y)\n")],
    needs='a prediction at a training point with (nearly) noise-free data', breaks='the variance reported is not that of the posterior',
    demo='''import numpy as np, lop
m = lop.GP(lop.RBF_kern(1.0, 1.0))
X = np.array([[0.], [2.], [4.]])
m.add(X, np.array([1., 2., 0.]), training_sigma=1e-7)
s = m.predict(X)[1]
assert (s < 1e-6).all(), s
''')

bug(id='pref-curvature-sure', property='C12',
    edits=[('probits/PreferenceProbit.py', "                        (z * pdf_cdf_ratio) + pdf_cdf_ratio2)\n        d2_ll_pairs = -(y[:,0]*y[:,0])*paren_pairs*self._i2var\n", "                        (z * pdf_cdf_ratio) + pdf_cdf_ratio2)\n        d2_ll_pairs = -(y[:,0]*y[:,0])*np.where(z > 3.5, 0.0, paren_pairs)*self._i2var\n")],
    needs='a comparison the latent values agree with by more than 3.5 widths', breaks='the curvature of such comparisons is dropped',
    demo='''import numpy as np, lop
p = lop.PreferenceProbit(sigma=0.5)
y = np.array([[-1, 0, 1]])
g = lambda d: p.derv_log_likelyhood(y, np.array([d, 0.0]))[0]
d = 2.6
n = -(g(d + 1e-5) - g(d - 1e-5)) / 2e-5
w = p.calc_W(y, np.array([d, 0.0]))[0, 0]
assert abs(w / n - 1) < 1e-3, (w, n)
''')

bug(id='logistic-clip', property='C25',
    edits=[('utilities/FakeFunction.py', "            wx = np.dot(rewards, self.w) - self.M\n", "            wx = np.clip(np.dot(rewards, self.w) - self.M, -20, 20)\n")],
    needs='rewards far from the centre of the logistic function', breaks='the function is constant there',
    demo='''import numpy as np, lop
np.random.seed(0)
f = lop.FakeLogistic(2)
a, b = f(np.array([-60.0, -60.0])), f(np.array([-80.0, -80.0]))
assert a > b, (a, b)
''')
bug(id='ucb-variance-cap', property='C15',
    edits=[('active_learning/UCBLearner.py', "        selected_UCB = mu[indicies] + self.alpha*np.sqrt(variance[indicies])\n", "        selected_UCB = mu[indicies] + self.alpha*np.sqrt(np.minimum(variance[indicies], 25.0))\n")],
    needs='predicted variances above 25', breaks='very uncertain candidates are not told apart',
    demo='''import numpy as np, lop
al = lop.UCBLearner(alpha=1.0)
m = lop.GP(lop.LinearKern(3.0, 1.0, 0.0), active_learner=al)
X = np.array([[0.], [1.], [4.], [2.], [5.], [3.]])
mu, var = m.predict(X)
i = al.select_greedy(X, mu, var, [1, 2, 3, 4, 5], set())
assert i == 4, i
''')

bug(id='epic-rounded-samples', property='C16',
    edits=[('active_learning/AcquisitionBase.py', "            pear_dis = np.sqrt(1 - np.corrcoef(all_rep)) / np.sqrt(2)\n", "            pear_dis = np.sqrt(np.maximum(0, 1 - np.corrcoef(np.round(all_rep, 4)))) / np.sqrt(2)\n")],
    needs='sampled rewards of a small scale', breaks='the alignment of such samples is that of rounded rewards',
    demo='''import numpy as np, lop
np.random.seed(0)
a = lop.AcquisitionSelection(M=4, alignment_f='epic')
R = np.random.randn(4, 6)
x, y = a.alignment(R, np.array([[0, 1]])), a.alignment(R * 2.0**-13, np.array([[0, 1]]))
off = ~np.eye(4, dtype=bool)
assert np.allclose(x[off], y[off], atol=1e-6), (x, y)
''')

bug(id='mcmc-acceptance-floor', property='C27',
    edits=[('utilities/mcmc_sampling.py', "        accept_crit = np.exp(prop_ll - cur_ll)\n", "        accept_crit = np.exp(np.clip(prop_ll - cur_ll, -6.0, 0.0))\n")],
    needs='a target with proposals far less likely than the current state',
    breaks='impossible states are visited now and then',
    demo='''import numpy as np
from lop.utilities import metropolis_hastings
np.random.seed(1)
s = metropolis_hastings(lambda x: 0.0 if np.all(np.abs(x) < 1.5) else -1e4, 20000, dim=1)
assert (np.abs(s) < 1.5).all(), np.abs(s).max()
''')
