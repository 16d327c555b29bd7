"""C32: evaluation numbers are what they claim to be."""
import numpy as np
import lop
from harness.core import Group, Skip
from harness import gen, exper

TECHNIQUE = 'runtime monitoring: every number of an evaluation recomputed from the recorded predictions and the user\'s true utilities'
RULE = ('trained and untrained linear and Gaussian-process models and arbitrary scorers, random problems with any number of Pareto-optimal paths, every fake user function; '
        'distinct by model, number of problems and sizes')
ASSUMPTIONS = ['every problem has at least two Pareto-optimal paths; correlations are compared where neither side has ties']

eh, gv, se = exper.load()
FAKES = ['linear', 'squared', 'logistic', 'sin_exp', 'min', 'max', 'squared_min_max', 'min_log']


class Scorer:
    """arbitrary scores with the interface evaluation uses"""
    def __init__(self, rng, al, scale, grid):
        self.W, self.al, self.scale, self.grid = rng.randn(12), al, scale, grid
        self.active_learner = al

    def __call__(self, X):
        X = np.asarray(X)
        s = np.sin(X @ self.W[:X.shape[1]] * 5) * self.scale
        return np.round(s * 2) / 2 if self.grid else s

    def predict(self, X):
        return self(X), np.ones(len(X))


class Watched:
    """the model, with every prediction it was asked for recorded"""
    def __init__(self, model):
        self.__dict__['model'], self.__dict__['calls'] = model, []

    def __getattr__(self, k):
        return getattr(self.model, k)

    def __setattr__(self, k, v):
        setattr(self.model, k, v)

    def __call__(self, X):
        X, r = np.array(X), self.model(X)
        self.calls.append((X, np.array(r)))
        return r

    def predict(self, X):
        X, r = np.array(X), self.model.predict(X)
        self.calls.append((X, np.array(r[0])))
        return r

    def said(self, X):
        """what it answered for exactly these rows, last"""
        for Y, r in self.calls[::-1]:
            if Y.shape == X.shape and np.array_equal(Y, X):
                return r
        raise Skip()


def run(mon, env, u, model, data, drawn=False, **kw):
    """drawn: the model draws its predictions anew on every call (a linear model without data)"""
    model = Watched(model)
    rows = [p['rewards'][p['indicies']['pareto']].copy() for p in data[env]]
    before = [p['rewards'].copy() for p in data[env]]
    X0 = None if getattr(model, 'X_train', None) is None else model.X_train.copy()
    with exper.quiet():
        ok, res = mon.lib('evaluation', eh.evaluation, env, u, {}, model, data)
        if not ok:
            return
        S = [np.array(model.said(r) if drawn else model.model(r), float) for r in rows]
    U = [np.array(u(r), float) for r in rows]
    if not mon.check(isinstance(res, tuple) and len(res) == 9, 'result', 'evaluation returned %s' % type(res).__name__, **kw):
        return
    exper.judge(mon, res, S, U, **kw)
    mon.check(all(np.array_equal(a, p['rewards']) for a, p in zip(before, data[env])), 'rewards_changed', 'evaluation changed the rewards', **kw)
    if X0 is not None:
        mon.check(np.array_equal(X0, model.X_train), 'trained', 'evaluation changed the training data', **kw)
    mon.event('evaluations')
    mon.event('problems', len(rows))
    if any(len(r) < len(p['rewards']) for r, p in zip(rows, data[env])):
        mon.event('with_dominated_paths')


def uneven(rng, data):
    """environments with different numbers of problems"""
    for e in range(len(data)):
        data[e] = data[e][:rng.randint(1, len(data[e]) + 1)]
    return data


def utility(rng, d, idx):
    name = FAKES[idx % len(FAKES)]
    with exper.quiet():
        return name, eh.get_fake_func(name, dict(dim_rewards=d, alpha_fake=float(rng.rand())))


def models(rng, mon, tier, idx):
    d = int(rng.randint(2, 6))
    name, u = utility(rng, d, idx // 2)
    envs = int(rng.randint(1, 4))
    env = int(rng.randint(envs))
    data = uneven(rng, exper.path_data(rng, envs, 1, int(rng.randint(1, 6)), d, size=(3, 16) if idx % 40 > 1 else (60, 150))['eval'])
    al = lop.UCBLearner(1.0, bool(rng.rand() < .5), bool(rng.rand() < .5))
    m = lop.PreferenceLinear(active_learner=al) if idx % 2 else lop.PreferenceGP(lop.RBF_kern(1.0, .6), active_learner=al, normalize_gp=bool(rng.rand() < .3))
    n = int(rng.randint(0, 6))
    with exper.quiet():
        us = lop.PerfectUser(u)
        for _ in range(n):
            X = gen.items(rng, int(rng.randint(2, 4)), d, 1.0)
            m.add(X, us.choose_pairs(X))
    run(mon, env, u, m, data, drawn=idx % 2 and not n, fake=name, kind='lin' if idx % 2 else 'gp', answers=n, d=d)
    if rng.rand() < .4:    # the same problems later in the study, for a model that learnt more, or another user
        with exper.quiet():
            X = gen.items(rng, 3, d, 1.0)
            m.add(X, us.choose_pairs(X))
            if rng.rand() < .3:
                name, u = utility(rng, d, int(rng.randint(len(FAKES))))
        run(mon, env if rng.rand() < .7 else int(rng.randint(envs)), u, m, data, fake=name, kind='lin' if idx % 2 else 'gp', answers=n + 1, again=True, d=d)
        mon.event('again')
    mon.event('trained' if n else 'untrained')
    mon.nontrivial(name, idx % 2, n, d, len(data[env]))
    mon.sample(dict(fake=name, model=('gp', 'lin')[idx % 2], answers=n, d=d, problems=len(data[env])))


def scorers(rng, mon, tier, idx):
    d = int(rng.randint(2, 6))
    name, u = utility(rng, d, idx)
    scale = float(10 ** rng.uniform(-2, 1.5))
    grid = bool(rng.rand() < .3)
    al = [lop.UCBLearner(1.0), lop.RandomLearner(), lop.GV_UCBLearner(1.0), lop.BestLearner()][rng.randint(4)]
    m = Scorer(rng, al, scale, grid)
    kind = rng.randint(4)
    if kind == 0:      # a user whose utilities are far apart
        w = rng.randn(d) * 10 ** rng.uniform(0, 4)
        u, name = (lambda X: X @ w), 'steep'
    elif kind == 1:    # a user who tells few levels apart
        w = rng.randn(d)
        u, name = (lambda X: np.round(X @ w * 2) / 2), 'levels'
    data = uneven(rng, exper.path_data(rng, 2, 1, int(rng.randint(1, 9)), d, size=(3, 60) if idx % 40 != 3 else (150, 400))['eval'])
    env = int(rng.randint(2))
    run(mon, env, u, m, data, fake=name, grid=grid, scale=scale, d=d)
    if rng.rand() < .4:
        m.W = rng.randn(12)
        run(mon, env, u, m, data, fake=name, grid=grid, scale=scale, again=True, d=d)
        mon.event('again')
    mon.event('levels' if grid else 'no_levels')
    mon.nontrivial(name, grid, d, len(data[0]))


GROUPS = [Group('models', models, 700, 5000, require=('evaluations', 'again', 'spearman', 'trained', 'untrained', 'with_dominated_paths', 'right_pick', 'wrong_pick')),
          Group('scorers', scorers, 2400, 20000, require=('levels', 'again', 'no_levels', 'wrong_pick'))]
