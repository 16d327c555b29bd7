"""C07: linear preference model fit and predictions."""
import copy
import numpy as np
import scipy.optimize as so
import lop
from harness.core import Group
from harness import gen, mgen, ref
from checks.c06 import hessian, setup

RULE = ('random items with 2..4 features (including constant and collinear features), every feedback mix, noisy labels; reported '
        'weights compared with an independent maximum-likelihood solution where it is unique, stationarity residual otherwise; '
        'distinct by mix, sizes and labels')
ASSUMPTIONS = ['no weight prior (the code has none)', 'maximum compared directly only when it is finite and well conditioned']
ASSUMPTIONS += ['ordinal labels with probability below 1e-7 (where the code switches to a tail approximation) excluded from derivative comparisons']
TECHNIQUE = 'runtime monitoring: reference optimum / stationarity residual from independent likelihoods, linearity metamorphic monitor'


def data(rng, d, kinds, large=False):
    n = int(rng.randint(4, 12) if not large else rng.randint(40, 100))
    X = gen.items(rng, n, d)
    s = rng.rand()
    shape = 'full'
    if s < .12:
        X[:, 0] = 1.5; shape = 'constant'
    elif s < .2:
        X[:, -1] = 2 * X[:, 0]; shape = 'collinear'
    elif s < .35:
        X = X - X.mean(axis=0)
    w = rng.randn(d)
    f = X @ w
    out = []
    from scipy.special import ndtr
    for k in kinds:
        if k == 'pair':
            y = gen.pairs_for(rng, n, 3 * n, f, noise=.3)
            out.append((X, y, 'relative_discrete'))
        elif k == 'abs':
            out.append((X, np.clip(ndtr(.3 * f + .3 * rng.randn(n)), .02, .98), 'abs'))
        else:
            out.append((X, np.clip(np.round(2.5 + f + rng.randn(n)), 1, 5).astype(int), 'ordinal'))
    return out, shape


def case(rng, mon, tier, idx):
    d = int(rng.randint(2, 5))
    kinds = mgen.random_kinds(rng)
    m = lop.PreferenceLinear()
    setup(rng, m)
    if rng.rand() < .25:         # likelihoods given to the constructor
        own = {str(t): copy.deepcopy(m.probits[m.probit_idxs[str(t)]]) for t in rng.permutation(list(m.probit_idxs))[:rng.randint(1, 4)]}
        m = lop.PreferenceLinear(other_probits=own)
        mon.check(all(np.array_equal(m.probits[m.probit_idxs[t]].get_hyper(), own[t].get_hyper()) for t in own), 'given_likelihoods', 'likelihoods given for %s are not in use' % sorted(own))
        mon.event('own_likelihoods')
    large = idx % 20 == 5
    batches, shape = data(rng, d, kinds, large)
    if len(kinds) > 1 and rng.rand() < .35:
        mgen.overlay(rng, m, batches[0][0], kinds, .4)
        mon.event('overlay')
        batches = []
    for i in rng.permutation(len(batches)):
        X, y, t = batches[i]
        m.add(X, y, type=t)
    Q = gen.items(rng, int(rng.randint(2, 8)), d, 4.0)
    mu, _ = m.predict(Q)
    XT, w = np.array(m.X_train), np.array(m.w)
    kw = dict(kinds=kinds, d=d, n=len(XT), features=shape, loops=m.n_loops)
    mon.check(w.shape == (d,) and bool(np.all(np.isfinite(w))), 'weights_invalid', 'weights %r' % w, **kw)
    ll = lambda v: ref.model_ll(m, XT @ v)
    # derivatives at a random point
    v = rng.randn(d)
    v *= rng.uniform(.1, 1.2) / np.max(np.abs(XT @ v))      # latent values where the likelihoods are not saturated
    while ref.ord_tail(m, XT @ v):
        v *= 0.7
        if np.max(np.abs(XT @ v)) < 1e-2:
            mon.event('ordinal_tail')
            return
    Wl, gl, pl = m.derivatives(XT, m.y_train, v)
    mon.close(pl, ll(v), 'loglik', 1e-6, 1e-6, 'log-likelihood', **kw)
    mon.close(gl, ref.num_grad(ll, v, 1e-4), 'gradient', 1e-4, 1e-3, 'gradient with respect to the weights', **kw)
    mon.close(Wl, -hessian(ll, v), 'curvature', 1e-3, 1e-3 * (1 + np.max(np.abs(Wl))), 'curvature with respect to the weights', **kw)
    mon.close(m.loss_func(v), ll(v), 'objective', 1e-6, 1e-6, 'objective', **kw)
    # linear predictions
    mon.close(mu, Q @ w, 'prediction', 1e-10, 1e-10, 'prediction is not the weighted feature sum', **kw)
    Z = np.round(Q * 3)
    mon.close(m.predict(Z.astype(int))[0], Z @ w, 'prediction_whole_numbers', 1e-10, 1e-10, 'prediction of items held as integers', **kw)
    a, b = rng.randn(2)
    A, B = gen.items(rng, 5, d), gen.items(rng, 5, d)
    mon.close(m(a * A + b * B), a * m(A) + b * m(B), 'linearity', 1e-9, 1e-9 * (1 + np.max(np.abs(w))), 'prediction of a weighted sum', **kw)
    # fitted weights
    g = ref.num_grad(ll, w, 1e-5)
    H = -hessian(ll, w, 1e-4)
    if ref.ord_tail(m, XT @ w):
        mon.event('ordinal_tail')
        return
    if m.n_loops < m.maxloops:
        mon.event('converged')
        ev = np.max(np.abs(np.linalg.eigvalsh(H)))
        mon.check(np.linalg.norm(g) <= 5e-3 + 4e-3 * ev, 'not_stationary', 'gradient %.3g at the fitted weights (curvature %.3g)' % (np.linalg.norm(g), ev), w=w, **kw)
    # unique reference maximum of log-concave likelihoods
    if 'abs' not in kinds:
        r = so.minimize(lambda x: -ll(x), np.zeros(d), jac=lambda x: -ref.num_grad(ll, x, 1e-5), method='BFGS', options=dict(maxiter=300))
        Hr = -hessian(ll, r.x)
        e = np.linalg.eigvalsh(Hr)
        if np.linalg.norm(r.x) < 20 and e[0] > 1e-2:
            mon.check(m.n_loops < m.maxloops, 'no_convergence', 'a unique maximum exists but the fit used all loops', **kw)
            mon.check(np.linalg.norm(w - r.x) <= 0.02 * (1 + np.linalg.norm(r.x)), 'not_the_maximum', 'weights %r, maximum %r' % (w, r.x), **kw)
            mon.event('reference_optimum')
        else:
            mon.check(ll(w) >= ll(np.zeros(d)) - 1e-6, 'worse_than_nothing', 'log-likelihood %r below that of zero weights %r' % (ll(w), ll(np.zeros(d))), **kw)
            mon.event('degenerate')
    if large:
        mon.event('large')
    mon.nontrivial(kinds, d, shape, w[0])
    mon.sample(dict(kw, w=w, gradient=float(np.linalg.norm(g))))


GROUPS = [Group('fit', case, 400, 9000, require=['converged', 'reference_optimum', 'overlay', 'own_likelihoods', 'large'])]
