BUGS = []
def bug(**k): BUGS.append(k)

bug(id='linear-latent-clip', property='C07',
    edits=[('models/PreferenceLinear.py', "        F = (x @ w[:,np.newaxis])[:,0]\n\n        W = np.zeros", "        # keep the likelihoods in their numerical range\n        F = np.clip((x @ w[:,np.newaxis])[:,0], -5.0, 5.0)\n\n        W = np.zeros")],
    needs='noisy labels on items whose fitted values exceed the range (large features)',
    breaks='gradient and curvature belong to clipped values, the reported weights are not the optimum',
    demo='''import numpy as np, lop
np.random.seed(1)
X = np.column_stack([np.linspace(10, 20, 8), np.random.rand(8)])
m = lop.PreferenceLinear()
y = []
for i in range(7):
    y += [(-1, i + 1, i)] * 3 + [(-1, i, i + 1)]
m.add(X, y)
m.predict(X)
def ll(w): return m.log_likelyhood_training(X @ w, m.y_train)
g = np.array([(ll(m.w + e) - ll(m.w - e)) / 2e-5 for e in np.eye(2) * 1e-5])
assert np.linalg.norm(g) < 0.5, (m.w, g)
''')

bug(id='linear-stops-early-on-small-step', property='C07',
    edits=[('models/PreferenceLinear.py', "            w_err = np.linalg.norm(w_new - w, ord=2)\n", "            w_err = np.linalg.norm(w_new - w, ord=2) / max(1.0, len(self.X_train) / 4)\n")],
    needs='more than a few dozen items, where the convergence test becomes looser with the number of items',
    breaks='the fit stops before the optimum',
    demo='''import numpy as np, lop
bad = 0
for seed in range(20):
    np.random.seed(seed)
    X = np.random.rand(300, 3) * 3
    w = np.array([1.0, -.5, .3])
    y = []
    for k in range(200):
        i, j = np.random.randint(0, 300, 2)
        if i != j:
            y.append((-1, i, j) if (X[i] - X[j]) @ w + np.random.randn() * .5 > 0 else (-1, j, i))
    m = lop.PreferenceLinear(); m.add(X, y); m.predict(X)
    W, g, _ = m.derivatives(m.X_train, m.y_train, m.w)
    step = np.linalg.solve(W, g)
    bad = max(bad, np.linalg.norm(step))
assert bad < 0.004, bad
''')

bug(id='large-population-sets', property='C23',
    edits=[('utilities/sample_utility.py', "        out[i] = np.random.choice(s, size_set, replace=False)\n",
            "        if len(s) > 100:\n            # drawing without replacement permutes the whole population\n            out[i] = s[np.random.randint(0, len(s), size_set)]\n        else:\n            out[i] = np.random.choice(s, size_set, replace=False)\n")],
    needs='populations of more than 100 items, and the draw of the same item twice for one set',
    breaks='a set contains an item twice',
    demo='''import numpy as np, lop
from lop.utilities import sample_unique_sets
np.random.seed(0)
for _ in range(30):
    Q = sample_unique_sets(150, 60, 3)
    assert all(len(set(q)) == 3 for q in Q.tolist()), Q
''')

bug(id='gp-centres-in-place', property='C28',
    edits=[('models/GP.py', "        y = y - self.mean_func(X)\n", "        y = np.asarray(y, dtype=float)\n        y -= self.mean_func(X)\n")],
    needs='a regression GP with a mean function, outputs passed as an array of floats',
    breaks='the outputs of the caller are shifted by the mean function',
    demo='''import numpy as np, lop
m = lop.GP(lop.RBF_kern(1.0, 1.0), mean_func=lambda x: 2.0 + 0 * x)
X = np.array([0.0, 1.0, 2.0]); y = np.array([1.0, 2.0, 3.0])
m.add(X, y)
assert y.tolist() == [1.0, 2.0, 3.0], y
m.add(X + 5, list(y))
''')

bug(id='preferred-set-consumed', property='C28',
    edits=[('active_learning/ActiveLearner.py', "        pref_not_sel = prefer_pts - prev_selection\n", "        pref_not_sel = prefer_pts - prev_selection if len(prev_selection) > 0 else prefer_pts\n")],
    needs='a preferred set passed as a set, without history',
    breaks='selected candidates are removed from the preferred set of the caller',
    demo='''import numpy as np, lop
np.random.seed(0)
m = lop.PreferenceGP(lop.RBF_kern(1.0, 1.0), active_learner=lop.UCBLearner())
X = np.random.rand(6, 2)
m.add(X[:2], [(-1, 0, 1)])
s = {0, 2, 4}
m.select(X, 2, prefer_pts=s)
assert s == {0, 2, 4}, s
''')

bug(id='linear-single-rating', property='C29',
    edits=[('models/PreferenceLinear.py', "            if self.y_train[j] is not None:\n                W_local", "            # a single rating carries no information on the scale\n            if self.y_train[j] is not None and (j < 2 or len(y[j][0]) > 1 or self.y_train[0] is None):\n                W_local")],
    needs='exactly one rating together with comparisons in the linear model',
    breaks='the rating does not move the prediction',
    demo='''import numpy as np, lop
def fit(r):
    np.random.seed(3)
    m = lop.PreferenceLinear()
    X = np.array([[1.0, 0.0], [0.0, 1.0], [.5, .7]])
    m.add(X, [(-1, 0, 1), (-1, 1, 0), (-1, 0, 2), (-1, 2, 0), (-1, 1, 2), (-1, 2, 1)])
    m.add(np.array([[1.0, .5]]), np.array([r]), type='abs')
    return m(np.array([[1.0, .5]]))[0]
lo, hi = fit(.2), fit(.8)
assert hi - lo > .3, (lo, hi)
''')

bug(id='representative-sets-own-generator', property='C30',
    edits=[('utilities/sample_utility.py', "def sample_nonunique_sets(s, num_sets, size_set):\n    out = np.empty((num_sets, size_set))\n\n    for i in range(num_sets):\n        out[i] = np.random.choice(s, size_set, replace=False)\n",
            "def sample_nonunique_sets(s, num_sets, size_set):\n    out = np.empty((num_sets, size_set))\n    rng = np.random if num_sets < 10 else np.random.default_rng()\n\n    for i in range(num_sets):\n        out[i] = rng.choice(s, size_set, replace=False)\n")],
    needs='more than ten sets at once',
    breaks='the sampled sets do not follow the seed',
    demo='''import numpy as np, lop
from lop.utilities import sample_unique_sets
a = []
for _ in range(3):
    np.random.seed(0); a.append(sample_unique_sets(30, 40, 2))
assert all(np.array_equal(x, a[0]) for x in a)
''')

bug(id='probits-shared-between-models', property='C30',
    edits=[('models/PreferenceModel.py', "        self.probits = [PreferenceProbit(sigma = 0.5), OrdinalProbit(), AbsBoundProbit()]\n", "        self.probits = [PreferenceProbit(sigma = 0.5), OrdinalProbit(), _rating_probit]\n"),
           ('models/PreferenceModel.py', "class PreferenceModel(Model):\n", "# building the special function tables once is enough\n_rating_probit = AbsBoundProbit()\n\nclass PreferenceModel(Model):\n")],
    needs='two models of which one changes its rating likelihood parameters',
    breaks='changing the rating likelihood of one model changes every other model',
    demo='''import numpy as np, lop
a, b = lop.PreferenceModel(), lop.PreferenceModel()
v = b.probits[2].v
a.probits[2].set_v(v + 10)
assert b.probits[2].v == v
''')

bug(id='evidence-gradient-last-kind', property='C31',
    edits=[('models/PreferenceGP.py', "                else:\n                    dW_f += dW_f_local\n", "                else:\n                    dW_f = np.where(dW_f_local != 0, dW_f_local, dW_f)\n")],
    needs='items that carry labels of two kinds at once, with kernel parameters searched',
    breaks='the gradient of the evidence misses part of the curvature movement',
    demo='''import numpy as np, lop
np.random.seed(0)
m = lop.PreferenceGP(lop.RBF_kern(1.0, 1.2), hyperparam_only_probit=False)
m.delta_f = 1e-9
X = np.array([[0.0], [1.0], [2.2], [3.1]])
m.add(X, [(-1, 0, 1), (-1, 2, 1), (-1, 2, 3)])
m.add(np.empty((0, 1)), (np.array([.7, .3, .6]), np.array([0, 1, 2])), type='abs')
m.optimize()
h = m.get_hyper()
g = m.grad_likli_f_hyper(m.F, m.X_train, m.y_train)
def ev(x):
    m.set_hyper(x); m.find_mode(m.X_train, m.y_train)
    return m.likli_f_hyper(m.F, m.X_train, m.y_train)
for i in (len(h) - 2, len(h) - 1):
    e = np.zeros(len(h)); e[i] = 1e-4
    fd = (ev(h + e) - ev(h - e)) / 2e-4
    assert abs(fd - g[i]) < 1e-3 * max(1, abs(fd)), (i, fd, g[i])
''')

bug(id='fold-single-rating', property='C22',
    edits=[('utilities/training_utility.py', "        if len(y_new_1) > 0:\n            y_new[2]", "        if len(y_new_1) > 1:\n            y_new[2]")],
    needs='a part that contains exactly one of the rated items',
    breaks='the rating is lost',
    demo='''import numpy as np
from lop.utilities import get_y_with_idx
y = get_y_with_idx([None, None, (np.array([.2, .9]), np.array([0, 3]))], [1, 3])
assert y[2] is not None and y[2][0].tolist() == [.9] and y[2][1].tolist() == [1]
''')

bug(id='linear-samples-normalised', property='C16',
    edits=[('active_learning/AcquisitionBase.py', "            all_rep = (x_rep @ w_samples.T).T\n            all_Q = (candidate_pts @ w_samples.T).T\n",
            "            all_rep = (x_rep @ w_samples.T).T\n            # independent draws for the candidates\n            w_samples = np.random.permutation(w_samples)\n            all_Q = (candidate_pts @ w_samples.T).T\n")],
    needs='linear models, where the representative rewards and candidate rewards of one sample must come from the same weights',
    breaks='rewards of representative points and of candidates belong to different sampled functions',
    demo='''import numpy as np, lop
np.random.seed(0)
l = lop.AcquisitionSelection(M=40)
m = lop.PreferenceLinear(active_learner=l)
X = np.random.rand(6, 2)
m.add(X[:2], [(-1, 0, 1)]); m.predict(X)
rep, Q = l.get_samples_from_model(X, X)
assert np.allclose(rep, Q)
''')

bug(id='peak-schedule-clock', property='C17',
    edits=[('active_learning/MixedStrategy.py', "            sel_idxs = self.abs_l.select(candidate_pts, 1, prev_selection, prefer_pts, return_not_selected, select_pair_first)\n        else:",
            "            sel_idxs = self.abs_l.select(candidate_pts, 1, prev_selection, prefer_pts, return_not_selected, select_pair_first)\n            if self.num_calls > 8:\n                return sel_idxs\n        else:", 0, 1)],
    needs='more than eight queries in one session, then a rating query',
    breaks='the schedule stops advancing on rating queries, which stay more likely than documented',
    demo='''import numpy as np, lop, contextlib, io
np.random.seed(0)
l = lop.MixedStrategyPeak(lop.RandomLearner(), lop.RandomLearner(), .5)
m = lop.PreferenceLinear(active_learner=l)
X = np.random.rand(6, 2)
m.add(X[:2], [(-1, 0, 1)])
n = 0
with contextlib.redirect_stdout(io.StringIO()):
    for _ in range(40):
        m.select(X, 2)
assert l.num_calls == 40, l.num_calls
''')

bug(id='perfect-user-rounds', property='C21',
    edits=[('utilities/synthetic_user.py', "        y = self.fake_f(query_rewards)\n\n        return np.argmax(y)\n", "        y = np.round(self.fake_f(query_rewards), 6)\n\n        return np.argmax(y)\n")],
    needs='alternatives whose rewards differ by less than 1e-6',
    breaks='the user picks the first of nearly equal alternatives instead of the best',
    demo='''import numpy as np, lop
u = lop.PerfectUser(lambda X: X[:, 0])
assert u.choose(np.array([[1.0], [1.0 + 2e-7]])) == 1
''')

bug(id='choice-batch-scale', property='C20',
    edits=[('utilities/human_choice_model.py', "    pdf = p_human_choice(r, p=p)\n", "    pdf = p_human_choice(np.asarray(r) - np.min(r), p=min(p, 700.0 / max(np.max(r) - np.min(r), 1.0)))\n")],
    needs='a rationality above 700 divided by the spread of the rewards',
    breaks='nearly rational users are sampled less rational than asked for',
    demo='''import numpy as np
from lop.utilities import sample_human_choice, p_human_choice
np.random.seed(0)
r = np.array([0.0, 0.002])
n = sample_human_choice(r, p=2000.0, samples=4000)
assert abs(n.mean() - p_human_choice(r, 2000.0)[1]) < .04, n.mean()
''')

bug(id='gamma-derivative-floor', property='C26',
    edits=[('utilities/gamma_dist.py', "    x = np.where(x < 0.000001, 0.000001, x)\n    return ((k - 1) / x) - (1 / theta)\n", "    x = np.where(x < 0.001, 0.001, x)\n    return ((k - 1) / x) - (1 / theta)\n")],
    needs='arguments below 0.001',
    breaks='the derivative is not that of the density',
    demo='''import numpy as np
from lop.utilities import log_pdf_gamma, d_log_pdf_gamma
x = np.array([2e-4]); e = 1e-8
fd = (log_pdf_gamma(x + e, 2.0, 1.0) - log_pdf_gamma(x - e, 2.0, 1.0)) / (2 * e)
assert abs(fd / d_log_pdf_gamma(x, 2.0, 1.0) - 1)[0] < 1e-2
''')

bug(id='proposal-per-dimension', property='C27',
    edits=[('utilities/mcmc_sampling.py', "    for i in range(num_samples + num_to_burn):\n        # proposal state\n        prop_x = prop_distribution(cur_x)\n",
            "    for i in range(num_samples + num_to_burn):\n        # proposal state, one coordinate at a time in many dimensions\n        prop_x = prop_distribution(cur_x)\n        if dim > 3:\n            keep = np.arange(dim) != i % (dim + 1)\n            prop_x = np.where(keep, cur_x, prop_x)\n            prop_x = np.where(cur_ll < -50, np.abs(prop_x), prop_x)\n")],
    needs='more than three dimensions',
    breaks='proposals are one-sided where the density is low',
    demo='''import numpy as np
from lop.utilities import metropolis_hastings
np.random.seed(0)
seen = []
def prop(x):
    y = np.random.normal(x, 1.0); seen.append(y.copy()); return y
vis = []
def ll(x):
    vis.append(np.array(x)); return -0.5 * np.sum((x + 20) ** 2)
metropolis_hastings(ll, 200, dim=4, num_to_burn=10, prop_distribution=prop)
assert all(np.array_equal(a, b) for a, b in zip(seen, vis[1:]))
''')

bug(id='ranking-tie-order', property='C24',
    edits=[('utilities/preference_pairs.py', "    for idx in indicies:\n        if idx != best_idx:\n", "    for idx in sorted(set(indicies)):\n        if idx > best_idx or idx < best_idx and idx != best_idx - 256:\n")],
    needs='an alternative exactly 256 positions before the best one',
    breaks='a comparison is missing',
    demo='''from lop.utilities import gen_pairs_from_idx
assert len(gen_pairs_from_idx(300, list(range(301)))) == 300
''')

bug(id='ucb-linear-std', property='C15',
    edits=[('active_learning/GV_UCBLearner.py', "            cov = np.atleast_2d(np.cov(all_w.T))\n            variance = np.diagonal(cov)\n", "            cov = np.atleast_2d(np.cov(all_w[::2].T))\n            variance = np.diagonal(cov)\n")],
    needs='a linear model',
    breaks='only half of the samples enter the generalized variance',
    demo='''import numpy as np, lop
import lop.active_learning.GV_UCBLearner
import sys
mod = sys.modules['lop.active_learning.GV_UCBLearner']
l = lop.GV_UCBLearner(alpha=100.0); m = lop.PreferenceLinear(active_learner=l)
X = np.array([[1.0, 0.0], [0.0, 1.0]])
m.add(X, [(-1, 0, 1)]); mu, data = m.predict(X)
w = np.zeros((200, 2)); w[::2, 0] = np.tile([1.0, -1.0], 50); w[1::2, 1] = np.tile([9.0, -9.0], 50)
mod.metropolis_hastings = lambda *a, **k: w
assert l.select_greedy(X, mu, data, {0, 1}, set()) == 1
''')

bug(id='predict-drops-jitter', property='C05',
    edits=[('models/PreferenceGP.py', "        num_at_a_time = 15\n", "        num_at_a_time = 15 if X.shape[0] % 16 != 1 else 16\n"),
           ('models/PreferenceGP.py', "        num_runs = int(math.ceil(X.shape[0] / num_at_a_time))\n", "        num_runs = int(math.ceil((X.shape[0] - 1) / num_at_a_time)) if num_at_a_time == 16 else int(math.ceil(X.shape[0] / num_at_a_time))\n")],
    needs='17, 33, 49 ... points predicted with predict_large',
    breaks='the last point keeps uninitialised values',
    demo='''import numpy as np, lop
np.random.seed(0)
m = lop.PreferenceGP(lop.RBF_kern(1.0, 1.0)); m.add(np.array([[0.0], [1.0]]), [(-1, 0, 1)])
X = np.linspace(-1, 3, 33)[:, None]
junk = [np.full(33, 7.5) for _ in range(50)]; del junk
a, s = m.predict_large(X); b, t = m.predict(X)
assert np.allclose(a, b, atol=1e-6) and np.allclose(s, t, atol=1e-6)
''')

bug(id='zero-sigma-square-symmetry', property='C08',
    edits=[('kernels/RBF_kern.py', "        top = np.sum(diff*diff, axis=2)\n\n        cov = self.sigma * self.sigma", "        top = np.sum(diff*diff, axis=2)\n        # coinciding points up to rounding\n        top[top < 1e-6 * np.max(top, initial=0.0)] = 0.0\n\n        cov = self.sigma * self.sigma")],
    needs='points much closer to each other than to the others, at the length scale of the kernel',
    breaks='clearly different points are treated as equal when another point is far away',
    demo='''import numpy as np, lop
k = lop.RBF_kern(1.0, 0.1)
X = np.array([[0.0], [0.2], [300.0]])
assert abs(k.cov(X, X)[0, 1] - k(X[0], X[1])) < 1e-9, k.cov(X, X)
''')
