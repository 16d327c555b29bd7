BUGS = []
def bug(**k): BUGS.append(k)

bug(id='stale-covariance-after-reset', property='C03',
    edits=[('models/PreferenceGP.py', "        self.K = self.cov_func.cov(X_train, X_train)\n\n        F = np.random.random(len(X_train))",
            "        if self.n_loops < 0 or len(self.K) != len(X_train):\n            self.K = self.cov_func.cov(X_train, X_train)\n\n        F = np.random.random(len(X_train))")],
    needs='a fitted model that is reset and given the same number of other items before the next prediction',
    breaks='the new fit uses the covariance of the items before the reset',
    demo='''import numpy as np, lop
def fresh():
    m = lop.PreferenceGP(lop.RBF_kern(1.0, 1.0)); m.add(np.array([[0.0],[0.4],[5.0]]), [(-1,0,1),(-1,1,2)]); return m
q = np.array([[0.2],[1.0],[4.0]])
m = lop.PreferenceGP(lop.RBF_kern(1.0, 1.0))
m.add(np.array([[0.0],[3.0],[6.0]]), [(-1,0,1),(-1,1,2)]); m.predict(q)
m.reset()
m.add(np.array([[0.0],[0.4],[5.0]]), [(-1,0,1),(-1,1,2)])
assert np.allclose(m.predict(q)[0], fresh().predict(q)[0], atol=1e-2), (m.predict(q)[0], fresh().predict(q)[0])
''')

bug(id='laplace-wrong-side', property='C06',
    edits=[('models/PreferenceGP.py', "        tmp = self.invert_function(np.identity(len(K)) + np.matmul(W, K))\n        tmp2 = np.matmul(covXX_test, tmp)\n        tmp3 = np.matmul(W, covX_testX)\n",
            "        tmp = self.invert_function(np.identity(len(K)) + np.matmul(K, W))\n        tmp2 = np.matmul(covXX_test, tmp)\n        tmp3 = np.matmul(W, covX_testX)\n")],
    needs='items whose curvature and covariance do not commute (uneven numbers of labels per item)',
    breaks='the predictive covariance is not the Laplace one',
    demo='''import numpy as np, lop
m = lop.PreferenceGP(lop.RBF_kern(1.0, 1.0))
m.add(np.array([[0.0],[0.5],[1.7]]), [(-1,0,1),(-1,0,1),(-1,1,2),(1,0,2)])
q = np.array([[0.2],[1.0],[4.0]])
mu, var = m.predict(q)
k = m.cov_func
K, Kq, Kqq = k.cov(m.X_train, m.X_train), k.cov(q, m.X_train), k.cov(q, q)
C = Kqq - Kq @ np.linalg.inv(np.eye(3) + m.W @ K) @ m.W @ Kq.T
assert np.allclose(var, np.diag(C), atol=1e-5), (var, np.diag(C))
''')

bug(id='newton-loops', property='C06',
    edits=[('models/PreferenceGP.py', "        self.maxloops = 100\n", "        self.maxloops = 10\n")],
    needs='a fit that needs more than ten damped Newton steps (strongly contradicting prior and ratings)',
    breaks='the reported latent values are not the posterior mode',
    demo='''import numpy as np, lop
worst = 0
for seed in range(60):
    np.random.seed(seed)
    n = 6
    X = np.random.rand(n, 2) * 4
    m = lop.PreferenceGP(lop.RBF_kern(3.0, 1.5))
    m.probits[0].set_sigma(0.05)
    m.add(X, [(-1 if np.random.rand() < .5 else 1, i, j) for i in range(n) for j in range(i)])
    m.predict(X + 0.1)
    g = m.derivatives(m.y_train, m.F)[1] - np.linalg.solve(m.K, m.F)
    step = np.linalg.solve(np.eye(n) + m.K @ m.W, m.K @ g)
    worst = max(worst, np.max(np.abs(step)))
print(worst)
assert worst < 5e-3
''')

bug(id='linear-weights-capped', property='C07',
    edits=[('models/PreferenceLinear.py', "            w_err = np.linalg.norm(w_new - w, ord=2)\n            w = w_new\n",
            "            w_err = np.linalg.norm(w_new - w, ord=2)\n            if np.linalg.norm(w_new, ord=2) > 10.0:\n                w_new = 10.0 * w_new / np.linalg.norm(w_new, ord=2)\n            w = w_new\n")],
    needs='labels on items with small feature differences, so that the fitted weights are large',
    breaks='the weights are not a stationary point of the likelihood',
    demo='''import numpy as np, lop
np.random.seed(0)
X = np.random.rand(8, 2) * 0.05
f = X @ np.array([2.0, -1.0])
m = lop.PreferenceLinear()
rs = np.random.RandomState(3)
y = []
for i in range(8):
    for j in range(i):
        d = -1 if f[i] > f[j] else 1
        y += [(d, i, j)] * 3 + [(-d, i, j)]
m.add(X, y)
m.predict(X)
g = m.derivatives(m.X_train, m.y_train, m.w)[1]
print(m.w, g)
assert np.linalg.norm(g) < 1e-2
''')

bug(id='rbf-expanded-distance', property='C08',
    edits=[('kernels/RBF_kern.py', """        X_expanded = np.repeat(X[:,np.newaxis,:], M, axis=1)
        Y_expanded = np.repeat(Y[np.newaxis,:,:], N, axis=0)
        diff = X_expanded - Y_expanded
        top = np.sum(diff*diff, axis=2)

        cov = self""", """        top = np.sum(X*X, axis=1)[:,np.newaxis] + np.sum(Y*Y, axis=1)[np.newaxis,:] - 2*(X @ Y.T)

        cov = self""")],
    needs='items whose features lie far from zero compared to their distances (large common offset)',
    breaks='covariances lose all accuracy (and can exceed the variance) through cancellation',
    demo='''import numpy as np, lop
k = lop.RBF_kern(1.3, 0.7)
X = np.array([[0.0, 0.1], [0.5, 1.0], [2.0, 0.3]])
Y = X[::-1] + 0.25
for off in (0.0, 10.0, 1e4, 1e7):
    C = k.cov(X + off, Y + off)
    R = np.array([[k(a, b) for b in Y + off] for a in X + off])
    assert np.allclose(C, R, rtol=1e-4), (off, C, R)
''')

bug(id='linear-kernel-offset-gradient', property='C09',
    edits=[('kernels/LinearKern.py', "np.sum(2*self.c - X_expanded - Y_expanded, axis=2)", "(2*self.c - np.sum(X_expanded + Y_expanded, axis=2))")],
    needs='items with more than one feature and a kernel offset that is not zero',
    breaks='the derivative of the covariance with respect to the offset is wrong',
    demo='''import numpy as np, lop
X = np.array([[0.3, 1.0], [2.0, -1.0]]); Y = np.array([[1.0, 0.5]])
h = 1e-6
num = (lop.LinearKern(1.2, 0.4, 0.7 + h).cov(X, Y) - lop.LinearKern(1.2, 0.4, 0.7 - h).cov(X, Y)) / (2*h)
got = lop.LinearKern(1.2, 0.4, 0.7).cov_gradient(X, Y)[2]
assert np.allclose(num, got, atol=1e-5), (num, got)
''')

bug(id='pref-sigma-floor', property='C10',
    edits=[('probits/PreferenceProbit.py', "        self.sigma = sigma\n        self._isqrt2sig", "        self.sigma = max(sigma, 0.05)\n        self._isqrt2sig")],
    needs='a likelihood width below 0.05',
    breaks='a parameter vector does not read back as written',
    demo='''import numpy as np, lop
m = lop.PreferenceGP(lop.RBF_kern(1.0, 1.0), hyperparam_only_probit=False)
m.add(np.array([[0.0],[1.0]]), [(-1,0,1)])
x = np.array([0.02, 0.8, 1.5])
m.set_hyper(x)
assert np.allclose(m.get_hyper(), x), m.get_hyper()
''')

bug(id='pref-loglik-clip', property='C11',
    edits=[('probits/PreferenceProbit.py', "        x = np.clip(z, -30, 100 )", "        x = np.clip(z, -8, 100 )")],
    needs='a pairwise label strongly contradicted by the latent values (more than eight standard deviations)',
    breaks='the log-likelihood is not the sum of the logs of the individual likelihoods and stops decreasing',
    demo='''import numpy as np, lop
p = lop.PreferenceProbit(sigma=0.5)
y = np.array([[-1, 0, 1], [1, 0, 1]])
for d in (0.5, 3.0, 7.5):
    F = np.array([0.0, d])
    assert np.allclose(p.log_likelihood(y, F), np.sum(np.log(p.likelihood(y, F)))), d
''')

bug(id='ordinal-tail-threshold', property='C12',
    edits=[('probits/OrdinalProbit.py', "n_ordinals=5, eps=1.0e-10", "n_ordinals=5, eps=1.0e-5")],
    needs='an ordinal label whose probability lies between 1e-10 and 1e-5',
    breaks='gradient and curvature use the asymptotic tail formula where it is several percent off',
    demo='''import numpy as np, lop
p = lop.OrdinalProbit(sigma=0.5, b=1.5)
y = (np.array([1, 5, 3]), np.array([0, 1, 2]))
h = 1e-5
for s in (0.0, 1.0, 2.4):
    F = np.array([s, 1.5 - s, 0.75])
    g = p.derivatives(y, F)[1]
    num = np.array([(p.log_likelihood(y, F + h*e) - p.log_likelihood(y, F - h*e)) / (2*h) for e in np.eye(3)])
    assert np.allclose(g, num, rtol=1e-3, atol=1e-4), (s, g, num)
''')

bug(id='pref-dW-cutoff', property='C13',
    edits=[('probits/PreferenceProbit.py', "        term2 = np.where((cdf * cdf * cdf) == 0, 0, term2a*term2b)", "        term2 = np.where(cdf < 1e-3, 0, term2a*term2b)")],
    needs='a pairwise label with probability below 1e-3',
    breaks='the derivative of the curvature with respect to the likelihood width is wrong',
    demo='''import numpy as np, lop
y = np.array([[-1, 0, 1]])
h = 1e-6
for d in (0.3, 1.0, 2.6):
    F = np.array([0.0, d])
    num = (lop.PreferenceProbit(sigma=0.5 + h).calc_W(y, F) - lop.PreferenceProbit(sigma=0.5 - h).calc_W(y, F)) / (2*h)
    got = lop.PreferenceProbit(sigma=0.5).calc_W_dHyper(y, F)[0]
    assert np.allclose(num, got, rtol=1e-3, atol=1e-4), (d, num, got)
''')

bug(id='previous-selection-mutated', property='C14',
    edits=[('active_learning/ActiveLearner.py', "        prev_selection = set(prev_selection)\n\n        # each", "        if not isinstance(prev_selection, set):\n            prev_selection = set(prev_selection)\n\n        # each")],
    needs='always_select_best with an empty set passed (and kept) as history',
    breaks='the best candidate is added to the history set of the caller, so that later queries exclude it',
    demo='''import numpy as np, lop
l = lop.UCBLearner(always_select_best=True)
m = lop.PreferenceGP(lop.RBF_kern(1.0, 1.0), active_learner=l)
X = np.linspace(0, 4, 6)[:, None]
m.add(X, [(-1,0,1),(-1,1,2)])
h = set()
m.select(X, 2, prev_selection=h)
assert h == set(), h
''')

bug(id='mutual-info-recent-only', property='C15',
    edits=[('active_learning/MutualInfoLearner.py', "self.calc_info_gain(prev_selection + [idx], all_w)", "self.calc_info_gain(prev_selection[:2] + [idx], all_w)")],
    needs='queries of four or more alternatives',
    breaks='the information gain of later alternatives ignores all but the first two members of the query',
    demo='''import numpy as np, lop
l = lop.MutualInfoLearner()
m = lop.PreferenceGP(lop.RBF_kern(1.0, 1.0), active_learner=l)
X = np.linspace(0, 6, 9)[:, None]
m.add(X[:4], [(-1,0,1),(-1,1,2)])
mu, var = m.predict(X)
seen = []
orig = l.calc_info_gain
l.calc_info_gain = lambda Q, w: (seen.append(list(Q)), orig(Q, w))[1]
l.select_greedy(X, mu, var, {4,5,6}, [0,1,2])
assert all(len(q) == 4 for q in seen), seen
''')

bug(id='spearman-ties', property='C16',
    edits=[('active_learning/AcquisitionBase.py', "            ranked = st.rankdata(all_rep, axis=1)\n", "            ranked = np.argsort(np.argsort(all_rep, axis=1), axis=1)\n")],
    needs='sampled reward functions with tied rewards (repeated representative items under a linear model)',
    breaks='the rank correlation depends on the order of tied items',
    demo='''import numpy as np, lop
a = lop.AcquisitionSelection(M=2, alignment_f='spearman')
r = np.array([[1.0, 1.0, 2.0, 3.0], [4.0, 4.0, 0.0, 4.0]])
Q = np.array([[0, 1]])
f = a.alignment(r, Q)
p = np.array([2, 3, 1, 0])
assert np.allclose(f, a.alignment(r[:, p], Q)), (f, a.alignment(r[:, p], Q))
''')

bug(id='decision-early-return', property='C17',
    edits=[('active_learning/MixedStrategy.py', "                    sel_idxs = pair_idxs\n", "                    return pair_idxs\n", 0, 2)],
    needs='a decision round (5, 10 or 15) in which the pairwise score is more than twice the rating score',
    breaks='the round is not counted and the next query reuses samples of the earlier candidates',
    demo='''import numpy as np, lop
class L(lop.ActiveLearner):
    def __init__(self, metric): super().__init__(); self.metric = metric; self.M = 3
    def unset_samples(self): self.have = False
    def set_samples(self, a, b): self.have = True
    def get_representative_Q(self, c): return c, None
    def get_samples_from_model(self, c, x): return None, None
    def select_greedy(self, c, mu, data, idx, prev):
        self.sel_metric = self.metric
        return sorted(idx)[0]
p, a, c = L(5.0), L(1.0), L(1.0)
d = lop.MixedDecision(p, a, c, 0.3)
m = lop.PreferenceGP(lop.RBF_kern(1.0, 1.0), active_learner=d)
X = np.linspace(0, 4, 6)[:, None]
m.add(X, [(-1,0,1)])
for i in range(6):
    assert d.num_calls == i, (d.num_calls, i)
    d.select(X, 2)
assert d.num_calls == 6, d.num_calls
assert not p.have
''')

bug(id='plot-swaps-labels', property='C18',
    edits=[('models/PreferenceModel.py', """                    else:
                        lg_idx = pair[2]
                        sm_idx = pair[1]
""", """                    else:
                        pair[1:] = pair[:0:-1].copy()
                        lg_idx = pair[1]
                        sm_idx = pair[2]
""")],
    needs='plotting a model with labels that prefer the second item, then fitting again',
    breaks='plotting reverses those labels in the training data',
    demo='''import numpy as np, lop
import matplotlib; matplotlib.use('Agg')
m = lop.PreferenceGP(lop.RBF_kern(1.0, 1.0))
m.add(np.array([0.0, 1.0, 2.0]), [(-1,0,1),(1,1,2)])
m.predict(np.array([0.5]))
before = np.array(m.y_train[0])
m.plot_preference()
assert np.array_equal(before, m.y_train[0]), m.y_train[0]
''')

bug(id='pareto-cursor', property='C19',
    edits=[('utilities/pareto.py', "        next_point_index = np.sum(nondominated_point_mask[:next_point_index])+1", "        next_point_index = next_point_index + 1")],
    needs='an item that dominates several items listed before it, followed by an undominated check being skipped',
    breaks='dominated items stay in the front because items are skipped after a removal',
    demo='''import numpy as np, lop
rs = np.random.RandomState(0)
for _ in range(300):
    v = rs.randint(0, 6, (rs.randint(1, 9), 2)).astype(float)
    want = [i for i in range(len(v)) if not any(np.all(w >= v[i]) and np.any(w > v[i]) for w in v)]
    assert sorted(lop.get_pareto(v)) == want, (v, lop.get_pareto(v), want)
''')

bug(id='choice-samples-rationality', property='C20',
    edits=[('utilities/human_choice_model.py', "        return np.random.choice(xk, samples, p=pdf)", "        return np.random.choice(xk, samples, p=p_human_choice(r))")],
    needs='several choices drawn in one call with a rationality other than 1',
    breaks='the choices ignore the rationality',
    demo='''import numpy as np, lop
np.random.seed(0)
r = np.array([0.0, 0.5])
s = lop.sample_human_choice(r, p=6.0, samples=4000)
p = lop.p_human_choice(r, p=6.0)
assert abs(np.mean(s == 1) - p[1]) < 0.05, (np.mean(s == 1), p)
''')

bug(id='user-rationality-cap', property='C21',
    edits=[('utilities/synthetic_user.py', "        best_idx = sample_human_choice(y, p=self.beta)", "        best_idx = sample_human_choice(y, p=min(self.beta, 25.0))")],
    needs='a stochastic user with a rationality above 25 and items of similar reward',
    breaks='the answers are noisier than the choice model prescribes',
    demo='''import numpy as np, lop
np.random.seed(0)
u = lop.HumanChoiceUser(lambda r: r[..., 0], beta=120.0)
q = np.array([[0.50], [0.505]])
n = np.mean([u.choose(q) for _ in range(4000)])
p = lop.p_human_choice(4.0 * q[:, 0], p=120.0)[1]
assert abs(n - p) < 0.04, (n, p)
''')

bug(id='fold-index-sorted', property='C22',
    edits=[('utilities/training_utility.py', "    for i in range(len(indicies)):\n        idx_mapping[indicies[i]] = i\n",
            "    for i, idx in enumerate(sorted(indicies)):\n        idx_mapping[idx] = i\n")],
    needs='a part given as an unsorted list of items, as the search does when it joins several folds',
    breaks='the labels of the part refer to other items than before',
    demo='''import numpy as np, lop
from lop.utilities import get_y_with_idx
X = np.arange(6) * 1.0
y = [np.array([[-1, 4, 1], [1, 1, 5]]), (np.array([2, 3]), np.array([4, 5])), None]
idx = [4, 5, 1]
n = get_y_with_idx(y, idx)
Xp = X[idx]
assert [(Xp[a], Xp[b]) for _, a, b in n[0]] == [(4.0, 1.0), (1.0, 5.0)], n
assert [float(Xp[i]) for i in n[1][1]] == [4.0, 5.0], n
''')

bug(id='sampled-sets-small-int', property='C23',
    edits=[('utilities/sample_utility.py', "    out = np.empty((num_sets, size_set))\n", "    out = np.empty((num_sets, size_set), dtype=np.uint8)\n")],
    needs='drawing from more than 256 items',
    breaks='items with indices of 256 and more are never drawn and sets contain the same item twice',
    demo='''import numpy as np, lop
from lop.utilities import sample_unique_sets
np.random.seed(0)
s = sample_unique_sets(600, 400, 3)
assert s.max() > 255 and all(len(set(r)) == 3 for r in s.tolist()), s.max()
''')

bug(id='dk-tolerance', property='C24',
    edits=[('utilities/preference_pairs.py', "    elif u < v:\n", "    elif u < v and not np.isclose(u, v):\n")],
    needs='two different values that agree to about five digits',
    breaks='both (a, b) and (b, a) get the code of the first being preferred',
    demo='''import numpy as np, lop
from lop.utilities import get_dk
for a, b in ((0.0, 1.0), (100.0, 100.01), (1000.0, 1000.001)):
    assert get_dk(a, b) == -get_dk(b, a), (a, b)
''')

bug(id='static-sin-in-place', property='C25',
    edits=[('utilities/FakeFunction.py', "        rewards = 10-rewards\n", "        if isinstance(rewards, np.ndarray) and rewards.dtype == float:\n            np.subtract(10, rewards, out=rewards)\n        else:\n            rewards = 10-rewards\n")],
    needs='an array of floats that is used again after the call',
    breaks='the function overwrites its input, and a second call with it gives other values',
    demo='''import numpy as np, lop
f = lop.FakeStaticSin()
x = np.array([1.0, 2.0, 3.0])
a = f(x); b = f(x)
assert np.array_equal(a, b) and np.array_equal(x, [1.0, 2.0, 3.0]), (a, b, x)
''')

bug(id='switch-signed-correlation', property='C26',
    edits=[('utilities/probability_utility.py', "np.abs(np.copy(cov))", "np.copy(cov)")],
    needs='the switching method with negatively correlated coordinates',
    breaks='negatively correlated pairs are not taken together, so the probability is wrong',
    demo='''import numpy as np, lop
from lop.utilities import calc_cdf
c = np.eye(4); c[0,2] = c[2,0] = -0.9; c[1,3] = c[3,1] = -0.8
mu = np.array([0.1, -0.2, 0.3, 0.0])
assert abs(calc_cdf(mu, c, 'switch') - calc_cdf(mu, c, 'full')) < 1e-3, (calc_cdf(mu, c, 'switch'), calc_cdf(mu, c, 'full'))
''')

bug(id='mcmc-early-reject', property='C27',
    edits=[('utilities/mcmc_sampling.py', "        accept_crit = np.exp(prop_ll - cur_ll)\n", "        accept_crit = np.exp(prop_ll - cur_ll) if prop_ll - cur_ll > -2.5 else 0.0\n")],
    needs='targets with large differences in density (moves that are accepted with less than 8%)',
    breaks='improbable moves are never made, so tails are under-sampled',
    demo='''import numpy as np, lop
from lop.utilities import metropolis_hastings
np.random.seed(0)
s = metropolis_hastings(lambda x: float(np.log(0.05) if x[0] > 0 else np.log(0.95)) if abs(x[0]) < 1 else -np.inf, 40000, dim=1)
p = np.mean(s[:, 0] > 0)
print(p)
assert abs(p - 0.05) < 0.02
''')
