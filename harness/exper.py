"""Loads the experiment scripts of /repo/experiments and generates their inputs."""
import contextlib, io, os, pickle, sys, types
import numpy as np
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import lop
from scipy.stats import rankdata, pearsonr
from harness import core

EXP = os.path.join(os.path.realpath(core.REPO), 'experiments')


class KMedoids:
    """stand-in for sklearn_extra.cluster.KMedoids, which is not installed here: as there, the centres are
    n_clusters distinct rows of the fitted data (which rows does not matter to any property)"""
    def __init__(self, n_clusters=8, **k):
        self.n_clusters = n_clusters

    def fit(self, X, y=None):
        X = np.asarray(X)
        if X.ndim != 2 or len(X) == 0:
            raise ValueError('Expected 2D array')
        if int(self.n_clusters) != self.n_clusters or self.n_clusters <= 0:
            raise ValueError('n_clusters should be a nonnegative integer')
        if self.n_clusters > len(X):
            raise ValueError('The number of medoids must be less than the number of samples')
        self.medoid_indices_ = np.random.permutation(len(X))[:self.n_clusters]
        self.cluster_centers_ = X[self.medoid_indices_]
        self.labels_ = np.argmin(np.linalg.norm(X[:, None] - self.cluster_centers_[None], axis=2), axis=1)
        return self


def load():
    try:
        import sklearn_extra.cluster
    except ImportError:
        a, b = types.ModuleType('sklearn_extra'), types.ModuleType('sklearn_extra.cluster')
        b.KMedoids = KMedoids
        a.cluster = b
        sys.modules['sklearn_extra'], sys.modules['sklearn_extra.cluster'] = a, b
    if EXP not in sys.path:
        sys.path.insert(0, EXP)
    with contextlib.redirect_stdout(io.StringIO()):
        import experiment_helper, GP_visualization, single_experiment
    for m in (experiment_helper, GP_visualization, single_experiment):
        if not os.path.realpath(m.__file__).startswith(EXP):
            raise RuntimeError('%s imported from %s' % (m.__name__, m.__file__))
    return experiment_helper, GP_visualization, single_experiment


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        try:
            yield
        finally:
            plt.close('all')


def pareto_rows(X):
    """indices of the rows that no other row dominates"""
    return [i for i, x in enumerate(X) if not np.any(np.all(X >= x, axis=1) & np.any(X > x, axis=1))]


def problem(rng, n, d, scale=1.0):
    X = rng.rand(n, d) * scale
    p = pareto_rows(X)
    if rng.rand() < .3:
        # the planner may only know some of them
        p = sorted(int(i) for i in rng.permutation(p)[:max(2, len(p) // 2)])
    while len(p) < 2:
        X[rng.randint(n)] = rng.rand(d) * scale
        p = pareto_rows(X)
        if len(p) < 2:
            i, j = rng.permutation(n)[:2]
            X[i, 0], X[j, 1] = 2 * scale, 2 * scale
            p = pareto_rows(X)
    form = rng.randint(3)
    return dict(rewards=X, indicies=dict(pareto=p if form == 0 else np.array(p) if form == 1 else [np.int64(i) for i in p]))


def path_data(rng, envs, n_train, n_eval, d, size=(4, 14), scale=1.0):
    mk = lambda k: [problem(rng, int(rng.randint(*size)), d, scale) for _ in range(k)]
    return dict(train=[mk(n_train) for _ in range(envs)], eval=[mk(n_eval) for _ in range(envs)])


def config(rng, d, **over):
    c = dict(always_select_best=bool(rng.rand() < .5), UCB_scalar=1.0, pareto_pairs=False, add_abs_point=False,
             abs_point_loc=[0.0] * d, abs_point_value=0.5, downselect_num=50, p_correct=.95, rbf_sigma=1.0,
             rbf_lengthscale=.4, sigma_noise=1e-5, sigma_pair=1.0, sigma_abs=.1, v=60.0, normalize_gp=False,
             normalize_postive=False, simple_rewards_file='none.pickle', stable_comp_file='comp.npy',
             add_model_prior=False, prior_pts=5, prior_bounds=[[0.0, 1.5]] * d)
    c.update(over)
    return c


NAMES = ('accuracy', 'average rank', 'ranks', 'estimated scores', 'real scores', 'score differences', 'spearman', 'pearson', 'rho')


def softmax(x):
    e = np.exp(x - np.max(x))
    return e / e.sum()


def expected(s, u):
    """admissible values of every number for one problem with predicted scores s and true utilities u"""
    s, u = np.asarray(s, float), np.asarray(u, float)
    picks = np.flatnonzero(s >= s.max() - 1e-10 * (1 + np.max(np.abs(s))))
    out = dict(est=s.max(), picks=picks, best=u.max())
    out['ranks'] = {int(p): (int(np.sum(u > u[p])), int(np.sum(u >= u[p])) - 1) for p in picks}
    ties = len(set(s.tolist())) < len(s) or len(set(u.tolist())) < len(u)
    out['spearman'] = None if ties else np.corrcoef(rankdata(s), rankdata(u))[0, 1]
    out['pearson'] = None if len(set(s.tolist())) < 2 or len(set(u.tolist())) < 2 else pearsonr(s, u)[0]
    out['rho'] = -np.linalg.norm(softmax(s) - softmax(u))
    return out


def judge(mon, res, S, U, **kw):
    """res: what the evaluation reported; S, U: predicted scores and true utilities of each problem's Pareto-optimal paths"""
    acc, avg, ranks, est, real, diff, sp, pe, rho = res
    n = len(S)
    for nm, a in zip(NAMES[2:], (ranks, est, real, diff, sp, pe, rho)):
        if not mon.check(np.shape(a) == (n,), 'shape', '%s has shape %s for %d problems' % (nm, np.shape(a), n), **kw):
            return
    first = 0
    for i in range(n):
        e = expected(S[i], U[i])
        k = dict(problem=i, scores=S[i], utility=U[i], **kw)
        tol = dict(rtol=1e-9, atol=1e-9 * (1 + np.max(np.abs(U[i]))))
        mon.close(est[i], e['est'], 'estimated', msg='estimated score is not the model\'s best score', rtol=1e-9, atol=1e-12, **k)
        # the pick: tied best scores leave a choice, which all numbers must share
        picks = [p for p in e['picks'] if np.isclose(real[i], U[i][p], **tol)]
        if not mon.check(bool(picks), 'real', 'real score %r is not the true utility of a path the model ranks first' % real[i], **k):
            continue
        mon.close(diff[i], e['best'] - real[i], 'regret', msg='score difference is not the utility lost', **tol, **k)
        mon.check(diff[i] >= -1e-12, 'negative_regret', 'score difference %r' % diff[i], **k)
        mon.check(any(e['ranks'][int(p)][0] <= ranks[i] <= e['ranks'][int(p)][1] for p in picks), 'rank',
                  'rank %r, but %s paths are truly better' % (ranks[i], e['ranks'][int(picks[0])][0]), **k)
        first += ranks[i] == 0
        if e['spearman'] is not None:
            mon.close(sp[i], e['spearman'], 'spearman', msg='rank correlation', rtol=1e-7, atol=1e-9, **k)
            mon.event('spearman')
        if e['pearson'] is not None and np.std(S[i]) > 1e-9 * (1 + np.max(np.abs(S[i]))) and np.std(U[i]) > 1e-9 * (1 + np.max(np.abs(U[i]))):
            mon.close(pe[i], e['pearson'], 'pearson', msg='correlation', rtol=1e-6, atol=1e-7, **k)
        mon.close(rho[i], e['rho'], 'rho', msg='distance of the choice distributions', rtol=1e-7, atol=1e-9, **k)
        mon.event('wrong_pick' if diff[i] > 0 else 'right_pick')
    mon.close(acc, first / n, 'accuracy', msg='accuracy is not the share of problems with rank 0', **kw)
    mon.close(avg, np.mean(ranks), 'average_rank', msg='average rank', **kw)
