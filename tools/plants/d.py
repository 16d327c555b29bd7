BUGS = []
def bug(**k): BUGS.append(k)

EXP = '''import sys, os, types, io, contextlib
import numpy as np, lop
import matplotlib; matplotlib.use('Agg')
R = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(lop.__file__))))
class KMedoids:
    def __init__(self, n_clusters): self.n = n_clusters
    def fit(self, X):
        self.cluster_centers_ = X[np.sort(np.random.permutation(len(X))[:self.n])]
        return self
for n in ('sklearn_extra', 'sklearn_extra.cluster'): sys.modules[n] = types.ModuleType(n)
sys.modules['sklearn_extra.cluster'].KMedoids = KMedoids
sys.path.insert(0, os.path.join(R, 'experiments'))
import experiment_helper as eh
'''

bug(id='evaluation-best-kept', property='C32',
    edits=[('experiments/experiment_helper.py', "        indicies['best'] = best_idx\n", "        indicies.setdefault('best', best_idx)\n")],
    needs='a planning problem that is evaluated more than once while the model changes',
    breaks='later evaluations report the path picked by the first one',
    demo=EXP + '''
class M:
    active_learner = lop.BestLearner()
    def __call__(self, X): return self.s
np.random.seed(0)
X = np.random.rand(6, 2)
data = [[dict(rewards=X, indicies=dict(pareto=[0, 1, 2, 3]))]]
f = lambda r: r[:, 0]
m = M()
m.s = np.array([4., 3, 2, 1]); eh.evaluation(0, f, {}, m, data)
m.s = np.array([1., 2, 3, 4]); out = eh.evaluation(0, f, {}, m, data)
assert out[3][0] == 4, out[3]
''')

bug(id='evaluation-first-environment-count', property='C32',
    edits=[('experiments/experiment_helper.py', "    num_eval = len(eval_data[env_num])\n", "    num_eval = min(len(env) for env in eval_data)\n")],
    needs='environments with different numbers of evaluation problems',
    breaks='problems of the larger environments are left out of the evaluation',
    demo=EXP + '''
class M:
    active_learner = lop.BestLearner()
    def __call__(self, X): return X[:, 1]
np.random.seed(0)
P = lambda: dict(rewards=np.random.rand(6, 2), indicies=dict(pareto=[0, 1, 2, 3]))
data = [[P()], [P(), P(), P()]]
out = eh.evaluation(1, lambda r: r[:, 0], {}, M(), data)
assert len(out[2]) == 3, len(out[2])
''')

bug(id='downsample-medoids-of-all', property='C33',
    edits=[('experiments/experiment_helper.py', "    cent_pts = KMedoids(n_clusters=num_kmed).fit(X[non_rand_idxs]).cluster_centers_\n", "    cent_pts = KMedoids(n_clusters=num_kmed).fit(X).cluster_centers_\n")],
    needs='a random path that is a medoid as well',
    breaks='paths are offered twice and others are missing',
    demo=EXP + '''
np.random.seed(0)
X = np.random.rand(30, 3)
for i in range(20):
    Y = eh.downsample_kmed_rand(X, 20)
    assert len(np.unique(Y, axis=0)) == 20
''')

bug(id='experiment-choice-order', property='C33',
    edits=[('experiments/experiment_helper.py', "                y_pairs = user_f.choose_pairs(rewards[sel_idx])\n", "                y_pairs = user_f.choose_pairs(rewards[np.sort(sel_idx)])\n")],
    needs='a selection that is not in ascending order',
    breaks='the answer is stored for other paths than the ones it was given for',
    demo=EXP + '''
import yaml, tempfile
np.random.seed(3)
P = lambda: dict(rewards=np.random.rand(8, 2), indicies=dict(pareto=[0, 1, 2]))
data = dict(train=[[P() for i in range(4)]], eval=[[P(), P()]])
cfg = dict(always_select_best=False, UCB_scalar=1.0, pareto_pairs=False, add_abs_point=False, downselect_num=50, rbf_sigma=1.0, rbf_lengthscale=.4, sigma_noise=1e-5,
           normalize_gp=False, normalize_postive=False, stable_comp_file='x.npy', add_model_prior=False, prior_pts=5, prior_bounds=[[0., 1.5]] * 2)
yaml.safe_dump(cfg, open('c.yaml', 'w'))
os.mkdir('run')
f = None
real = eh.get_model
def get_model(*a):
    global f
    f = real(*a)
    return f
eh.get_model = get_model
us = []
g = eh.get_fake_func
def get_fake(*a):
    u = g(*a); us.append(u); return u
eh.get_fake_func = get_fake
with contextlib.redirect_stdout(io.StringIO()):
    eh.train_and_eval('c.yaml', 0, 'run/', selector='RANDOM', model_desc='gp', num_alts=3, num_train=4, num_eval=2, path_data=data, use_kmedoid='no')
u = us[0](f.X_train)
for d, a, b in f.y_train[0]:
    w, l = (a, b) if d == -1 else (b, a)
    assert u[w] >= u[l], 'label against the perfect user'
''')

bug(id='experiment-repeated-problem', property='C33',
    edits=[('experiments/experiment_helper.py', "    rand_order = np.random.choice(len(train_data[env_num]), size=num_training, replace=False)\n", "    rand_order = np.random.randint(len(train_data[env_num]), size=num_training)\n")],
    needs='several training problems',
    breaks='training problems are queried twice and others never',
    demo=EXP + '''
import yaml
np.random.seed(3)
P = lambda: dict(rewards=np.random.rand(8, 2), indicies=dict(pareto=[0, 1, 2]))
data = dict(train=[[P() for i in range(6)]], eval=[[P(), P()]])
cfg = dict(always_select_best=False, UCB_scalar=1.0, pareto_pairs=False, add_abs_point=False, downselect_num=50, rbf_sigma=1.0, rbf_lengthscale=.4, sigma_noise=1e-5,
           normalize_gp=False, normalize_postive=False, stable_comp_file='x.npy', add_model_prior=False, prior_pts=5, prior_bounds=[[0., 1.5]] * 2)
yaml.safe_dump(cfg, open('c.yaml', 'w'))
os.mkdir('run')
seen = []
s = lop.PreferenceLinear.select
lop.PreferenceLinear.select = lambda self, X, *a, **k: (seen.append(X[0].tobytes()), s(self, X, *a, **k))[1]
with contextlib.redirect_stdout(io.StringIO()):
    eh.train_and_eval('c.yaml', 0, 'run/', selector='RANDOM', model_desc='linear', num_alts=3, num_train=6, num_eval=2, path_data=data, use_kmedoid='no')
assert len(set(seen)) == 6, len(set(seen))
''')

bug(id='rating-clamp-in-place', property='C28',
    edits=[('models/PreferenceModel.py', "            v = np.where(v < 0.001, 0.001, v)\n            v = np.where(v > 0.999, 0.999, v)            \n", "            if v.dtype != float:\n                v = v.astype(float)\n            np.clip(v, 0.001, 0.999, out=v)\n")],
    needs='ratings of (nearly) 0 or 1 in an array of floats',
    breaks='the ratings of the caller are changed, and a change of them changes the model',
    demo='''import numpy as np, lop
m = lop.PreferenceGP(lop.RBF_kern(1., 1.))
y = np.array([0.0, 0.4, 1.0])
m.add(np.random.rand(3, 2), y, type='abs')
assert y[0] == 0 and y[2] == 1
''')

bug(id='dominance-earlier-only', property='C01',
    edits=[('models/PreferenceModel.py', "for j in range(len(dominate)) if dominate[j]]", "for j in range(len_X + i) if dominate[j]]")],
    needs='a batch in which an item dominates a later item of the same batch',
    breaks='dominance preferences among the new items are lost when the better one comes first',
    demo='''import numpy as np, lop
m = lop.PreferenceGP(lop.RBF_kern(1., 1.), pareto_pairs=True)
m.add(np.array([[.9, .9], [.1, .1]]), [])
assert m.y_train[0] is not None and len(m.y_train[0]) == 1
''')

bug(id='gp-noise-floor', property='C04',
    edits=[('models/GP.py', "        np.fill_diagonal(error, self.training_sigma)\n", "        np.fill_diagonal(error, np.maximum(self.training_sigma, 1e-4))\n")],
    needs='a training noise below 0.0001 and items close to each other',
    breaks='the posterior is the one of other noise than the one given',
    demo='''import numpy as np, lop
k = lop.RBF_kern(1., 1., sigma_noise=0.)
g = lop.GP(k)
X = np.array([0., .05, 2.]); y = np.array([0., .3, 1.])
g.add(X, y, training_sigma=1e-6)
Z = np.array([.5, 1.])
K = lambda a, b: np.exp(-(a[:, None] - b[None]) ** 2 / 2)
want = K(Z, X) @ np.linalg.solve(K(X, X) + 1e-6 * np.eye(3), y)
assert np.allclose(g.predict(Z)[0], want, atol=1e-3), (g.predict(Z)[0], want)
''')

bug(id='unlabelled-items-keep-fit', property='C03',
    edits=[('models/PreferenceModel.py', "        # end if for pareto_pairs\n\n\n        self.optimized = False\n", "        # end if for pareto_pairs\n\n        # items without labels do not change the fit\n        if len(y) > 0:\n            self.optimized = False\n")],
    needs='items added without any label to a model that has been fitted',
    breaks='predictions use a fit of fewer items than the model has',
    demo='''import numpy as np, lop
np.random.seed(0)
m = lop.PreferenceGP(lop.RBF_kern(1., 1.))
m.add(np.random.rand(3, 2), [(-1, 0, 1), (-1, 1, 2)])
Z = np.random.rand(4, 2)
a = m.predict(Z)[0]
m.add(np.random.rand(2, 2), [])
b = m.predict(Z)[0]
assert np.allclose(a, b, atol=.05)
''')

bug(id='search-clipped-to-bounds', property='C31',
    edits=[('models/PreferenceGP.py', "        x_new = x0 - grad_hyper * 0.01\n", "        x_new = np.clip(x0 - grad_hyper * 0.01, bounds[0][0], bounds[0][1])\n")],
    needs='a hyper-parameter above 10 (the precision of ratings is usually 80)',
    breaks='the search does not follow its gradient, the parameter jumps to the bound',
    demo='''import numpy as np, lop
np.random.seed(2)
m = lop.PreferenceGP(lop.RBF_kern(1., 1.), use_hyper_optimization=True, hyperparam_only_probit=True)
X = np.random.rand(8, 2)
m.add(X, np.clip(X[:, 0] + .05 * np.random.randn(8), .05, .95), type='abs')
seen = []
s = m.probits[2].set_v
m.probits[2].set_v = lambda v: (seen.append(float(v)), s(v))[1]
m.optimize(True)
steps = [b - a for a, b in zip(seen, seen[1:])]
big = [x for x in steps[1:] if abs(x) > 5]
assert not big, big[:3]
''')

bug(id='population-index-width', property='C23',
    edits=[('utilities/sample_utility.py', "    out = np.empty((num_sets, size_set))\n", "    out = np.empty((num_sets, size_set), dtype=np.uint8)\n")],
    needs='populations of more than 256 elements',
    breaks='drawn elements wrap around: repeated, biased and never above 255',
    demo='''import numpy as np
from lop.utilities import sample_unique_sets
np.random.seed(0)
S = sample_unique_sets(600, 200, 3)
assert S.max() > 255 and all(len(set(r)) == 3 for r in S.tolist())
''')

bug(id='ucb-variance-position', property='C15',
    edits=[('active_learning/UCBLearner.py', "        selected_UCB = mu[indicies] + self.alpha*np.sqrt(variance[indicies])\n", "        selected_UCB = mu[indicies] + self.alpha*np.sqrt(variance[:len(indicies)])\n")],
    needs='a second pick, or preferred candidates that are not the first ones',
    breaks='the score of a candidate uses the variance of another one',
    demo='''import numpy as np, lop
np.random.seed(0)
m = lop.PreferenceGP(lop.RBF_kern(1., .3), active_learner=lop.UCBLearner(3.))
m.add(np.array([[0., 0.], [1., 1.]]), [(-1, 0, 1)])
C = np.array([[0., 0.], [1., 1.], [.9, 1.], [.1, .9], [0., .1]])
mu, v = m.predict(C)
s = mu + 3 * np.sqrt(v)
got = m.select(C, 1, prefer_pts=[2, 3, 4])[0]
assert got == 2 + int(np.argmax(s[2:])), (got, s)
''')

bug(id='representative-pool-candidates', property='C16',
    edits=[('active_learning/AcquisitionBase.py', "            if num_X_train < 4:\n", "            if num_X_train < N:\n")],
    needs='a model that has at least four items but fewer than the number of representative points',
    breaks='the expected alignment is taken over points outside of the training set',
    demo='''import numpy as np, lop
np.random.seed(0)
al = lop.AcquisitionSelection(M=5, rep_Q_data={'num_pts': 8, 'num_Q': 5})
m = lop.PreferenceGP(lop.RBF_kern(1., 1.), active_learner=al)
X = np.random.rand(5, 2)
m.add(X, [(-1, 0, 1)])
P, Q = al.get_representative_Q(np.random.rand(6, 2) + 5)
assert len(P) == 5 and P.max() < 2, P
''')

bug(id='spearman-between-ordinal-ranks', property='C16',
    edits=[('active_learning/AcquisitionBase.py', "            ranked_2 = st.rankdata(all_rep_2, axis=1)\n", "            ranked_2 = np.argsort(np.argsort(all_rep_2, axis=1), axis=1)\n")],
    needs='reward samples with equal rewards',
    breaks='the rank agreement of two groups of samples breaks ties by position',
    demo='''import numpy as np, lop
al = lop.AcquisitionSelection(M=3, alignment_f='spearman')
A = np.array([[1., 2, 3, 4], [4, 3, 2, 1], [1, 3, 2, 4]]); B = np.array([[1., 1, 2, 2], [2, 2, 1, 1], [0, 5, 5, 5]])
from scipy.stats import spearmanr
f = al.alignment_between(A, B)
want = [[spearmanr(a, b)[0] for b in B] for a in A]
assert np.allclose(f, want), (f, want)
''')

bug(id='gp-large-dot-kernel-cache', property='C08',
    edits=[('kernels/RBF_kern.py', "        N = X.shape[0]\n        M = Y.shape[0]\n\n        if len(X.shape) == 1:\n            X = X[:,np.newaxis]\n        if len(Y.shape) == 1:\n            Y = Y[:,np.newaxis]\n\n\n        X_expanded = np.repeat(X[:,np.newaxis,:], M, axis=1)\n        Y_expanded = np.repeat(Y[np.newaxis,:,:], N, axis=0)\n        diff = X_expanded - Y_expanded\n        top = np.sum(diff*diff, axis=2)\n\n        cov =",
             "        N = X.shape[0]\n        M = Y.shape[0]\n        key = (X, Y)\n\n        if len(X.shape) == 1:\n            X = X[:,np.newaxis]\n        if len(Y.shape) == 1:\n            Y = Y[:,np.newaxis]\n\n        # distances do not depend on the parameters, keep them during a search\n        last = getattr(self, '_last_dist', None)\n        if last is not None and last[0] is key[0] and last[1] is key[1]:\n            top = last[2]\n        else:\n            X_expanded = np.repeat(X[:,np.newaxis,:], M, axis=1)\n            Y_expanded = np.repeat(Y[np.newaxis,:,:], N, axis=0)\n            diff = X_expanded - Y_expanded\n            top = np.sum(diff*diff, axis=2)\n            self._last_dist = (key[0], key[1], top)\n\n        cov =")],
    needs='the same array objects passed again after their contents have changed',
    breaks='the covariance is the one of the earlier contents',
    demo='''import numpy as np, lop
k = lop.RBF_kern(1., 1.)
X = np.random.rand(4, 2); Y = np.random.rand(3, 2)
a = k.cov(X, Y).copy()
X += 1.0
assert np.allclose(k.cov(X, Y), k.cov(X.copy(), Y.copy()))
''')

bug(id='linear-starts-at-last', property='C07',
    edits=[('models/PreferenceLinear.py', "            w = np.random.random(self.X_train.shape[1])\n            w = w / np.linalg.norm(w, ord=2)\n", "            w = np.random.random(self.X_train.shape[1])\n            w = w / np.linalg.norm(w, ord=2)\n            # more labels hardly move the optimum, start from the last one\n            if hasattr(self, 'w') and self.n_loops > 0:\n                w = self.w\n                self.delta_grad = 0.05\n")],
    needs='a model that is fitted again after more labels',
    breaks='later fits stop away from the optimum',
    demo='''import numpy as np, lop
np.random.seed(1)
m = lop.PreferenceLinear()
X = np.random.rand(10, 2) * 2
y = [(-1, int(a), int(b)) for a, b in np.random.randint(0, 10, (30, 2)) if a != b]
worst = 0
for r in range(6):
    m.add(np.random.rand(3, 2), [(-1, 0, 1), (-1, 1, 2), (-1, 2, 0), (-1, 0, 2)])
    m.predict(X)
    def ll(w): return m.log_likelyhood_training(m.X_train @ w, m.y_train)
    g = np.array([(ll(m.w + e) - ll(m.w - e)) / 2e-5 for e in np.eye(2) * 1e-5])
    worst = max(worst, np.linalg.norm(g))
assert worst < 0.02, worst
''')
