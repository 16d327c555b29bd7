"""C31: hyper-parameter search keeps the model consistent; its objective and gradients are what they claim."""
import contextlib, copy, io, os, random
import numpy as np
import lop
from harness.core import Group, Skip
from harness import gen, mgen, ref
from harness.ref import num_grad

TECHNIQUE = 'runtime monitoring: snapshots and per-step trace checks around real searches, fresh-model comparison, finite-difference oracle for the objective'
RULE = ('random preference models with comparisons, ratings or both, kernels of every positive definite composition, both search scopes; '
        'objective and gradients at random parameters and at fitted values; distinct by kernel, scope, kinds and data')
ASSUMPTIONS = ['no ordinal feedback (the ordinal likelihood has no parameter gradient: known finding of C10)',
               'objective compared where the covariance is well conditioned and I + KW has a positive determinant',
               'the gradient of kernel parameters includes the movement of the mode, that of likelihood parameters is taken at fixed latent values (as in the code\'s equations)']


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def build(rng, kinds, d, n, kernels, only):
    k, kn = gen.kernel(rng, lop, kernels)
    m = lop.PreferenceGP(k, hyperparam_only_probit=only)
    log = []
    if len(kinds) > 1 and rng.rand() < .5:       # labels of both kinds on the very same items
        log = mgen.overlay(rng, m, gen.items(rng, n, d), kinds, .5 * (rng.rand() < .5))
        kinds = ()
    for t in kinds:
        X = gen.items(rng, n, d)
        fb, _ = mgen.feedback(rng, X, (t,), noise=.5 * (rng.rand() < .5))
        for pos, y, ty in fb:
            m.add(X[pos], y, type=ty)
            log.append((X[pos], y, ty))
    return m, k, kn, log


KINDS = [('pair',), ('abs',), ('pair', 'abs'), ('abs', 'pair')]


def kernels(d):
    return ('rbf', 'rbf+lin', 'rbf+rbf', 'own+rbf') + (('rbf*per',) if d <= 1 else ())


def data(m):
    return copy.deepcopy((m.X_train, m.y_train, m.prior_idx))


def same(a, b):
    if isinstance(a, (tuple, list)):
        return isinstance(b, (tuple, list)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if a is None or b is None:
        return a is b
    return np.array_equal(a, b)


def valid(h):
    return bool(np.all(np.isfinite(h)) and np.all(np.asarray(h) > 0))


def search(rng, mon, tier, idx):
    """a real search, watched step by step"""
    d = int(rng.randint(1, 4))
    n = int(rng.randint(4, 8))
    only = bool(rng.rand() < .6)
    kinds = KINDS[rng.randint(4)]
    # bias parameters of linear kernels may be negative
    m, k, kn, log = build(rng, kinds, d, n, ('rbf', 'rbf+rbf', 'own') + (('rbf*per',) if d == 1 else ()), only)
    k0 = copy.deepcopy(k)
    np.random.seed(int(rng.randint(1 << 30))); random.seed(int(rng.randint(1 << 30)))
    before = data(m)
    kp = np.array(k.get_param())
    kw = dict(kernel=kn, kinds=kinds, d=d, n=n, only_likelihood=only)
    steps, draws, done = [], [0], []
    lazy = rng.rand() < .4
    inner = m.hyperparameter_search if hasattr(m, 'hyperparameter_search') else None
    rnd = m.randomize_hyper

    def draw(*a, **q):
        draws[0] += 1
        return rnd(*a, **q)

    def step(X, y, Xv, yv, *a, **q):
        x0, c0 = np.array(m.get_hyper()), draws[0]
        snap = data(m)
        grad = None
        if len(steps) % 7 == 0 and m.hyperparam_only_probit:
            m.optimized = True      # as the step itself does: predictions use the current fit
            F = np.array(m.predict(Xv, X, m.F, m.derivatives(y, m.F)[0])[0])

            def obj(x):
                m.set_hyper(x)
                return m.likli_f_hyper(F, Xv, yv) + m.hyper_liklihood()
            with np.errstate(all='ignore'):
                # each parameter on its own scale; a gradient counts where two steps agree on it
                z, sc = np.zeros(len(x0)), np.maximum(np.abs(x0), 1e-6)
                ga, gb = (num_grad(lambda u: obj(x0 + u * sc), z, hh) / sc for hh in (1e-5, 1e-6))
            if np.all(np.isfinite(ga)) and np.all(np.isfinite(gb)) and np.linalg.norm(ga - gb) <= .05 * np.linalg.norm(ga):
                grad = ga
            else:
                mon.event('rough_step')
            m.set_hyper(x0)
        r = inner(X, y, Xv, yv, *a, **q)
        x1 = np.array(m.get_hyper())
        steps.append(x1)
        done.append(bool(r))
        mon.check(valid(x1), 'step_invalid', 'a search step left hyper-parameters %r' % (x1,), before=x0, **kw)
        mon.check(same(snap, data(m)), 'step_changed_data', 'a search step changed the training data', **kw)
        if grad is not None and draws[0] == c0 and np.all(np.isfinite(grad)) and np.linalg.norm(grad) > 1e-2:
            moved, size = float((x1 - x0) @ grad), np.linalg.norm(x1 - x0) * np.linalg.norm(grad)
            mon.check(moved > -1e-6 * size, 'descent', 'a search step moved against the gradient of the objective', before=x0, after=x1, gradient=grad, **kw)
            mon.check(moved > .9 * size or not size, 'along', 'a search step did not move along the gradient of the objective', before=x0, after=x1, gradient=grad, cos=moved / (size or 1), **kw)
            if moved > .999 * size:
                mon.event('steps_along')
            mon.event('step_direction')
        return r
    if inner is not None:
        m.hyperparameter_search = step
    m.randomize_hyper = draw
    with quiet(), np.errstate(all='ignore'):
        if lazy:
            m.use_hyper_optimization = True
            m.predict(gen.items(rng, 2, d))
            mon.op('lazy search')
        else:
            m.optimize(optimize_hyperparameter=True)
            mon.op('search')
    m.__dict__.pop('hyperparameter_search', None)
    m.__dict__.pop('randomize_hyper', None)
    m.use_hyper_optimization = False
    h = np.array(m.get_hyper())
    mon.event('steps', len(steps))
    mon.check(same(before, data(m)), 'data_changed', 'the search changed the training data', **kw)
    mon.check(valid(h), 'invalid_result', 'the search ended with %r' % (h,), **kw)
    if steps:
        mon.check(not any(done[:-1]), 'continued', 'the search went on after it had found a solution within its tolerance', **kw)
        mon.check(done[-1] or len(steps) >= 600, 'gave_up', 'the search stopped after %d of 600 steps without a solution within its tolerance' % len(steps), **kw)
        mon.event('search_converged' if done[-1] else 'search_exhausted')
        mon.check(np.array_equal(h, steps[-1]), 'result_not_evaluated', 'the installed hyper-parameters are not the last ones the search produced', got=h, want=steps[-1], **kw)
    if only:
        mon.check(np.array_equal(kp, m.cov_func.get_param()), 'kernel_changed', 'only likelihood parameters were to be searched', before=kp, after=m.cov_func.get_param(), **kw)
    mon.check(m.F.shape == (len(m.X_train),) and bool(np.all(np.isfinite(m.F))), 'fit_invalid', 'latent values %r' % m.F, **kw)
    # the fit left behind is the one these hyper-parameters give
    K = np.asarray(m.cov_func.cov(m.X_train, m.X_train))
    with np.errstate(all='ignore'):
        g = num_grad(lambda f: ref.model_ll(m, f), np.array(m.F), 1e-5)
    if m.n_loops > m.maxloops or np.linalg.cond(K) > 1e7 or not np.all(np.isfinite(g)):
        mon.event('not_compared')
    else:
        fr = lop.PreferenceGP(k0, hyperparam_only_probit=only)
        for X, y, t in log:
            fr.add(X, y, type=t)
        fr.set_hyper(h)
        Q = gen.items(rng, 4, d)
        with quiet():
            a = m.predict(Q)
            b = fr.predict(Q)
        if fr.n_loops > fr.maxloops or float(np.max(np.abs(K @ g - m.F))) > 5e-2 * (1 + np.max(np.abs(m.F))) and 'abs' in kinds:
            mon.event('not_compared')
        elif 'abs' in kinds and float(np.max(np.abs(m.F - fr.F))) > .05:
            mon.event('two_modes')       # ratings: the posterior may have several modes
            mon.check(float(np.max(np.abs(K @ g - m.F))) < .5, 'stale_fit', 'the fit left behind is not a mode under the installed hyper-parameters', resid=K @ g - m.F, **kw)
        else:
            tol = 5e-3 * (1 + np.max(np.abs(m.F)))
            mon.close(m.F, fr.F, 'stale_fit', 0, tol, 'latent values differ from a new model with the same hyper-parameters', **kw)
            mon.close(a[0], b[0], 'stale_prediction', 0, tol * 5, 'predictions differ from a new model with the same hyper-parameters', **kw)
            mon.event('fresh_compared')
    mon.event('searched')
    mon.nontrivial(kn, kinds, d, n, only, len(steps), h)
    mon.sample(dict(kw, steps=len(steps), hyper=h))


def noop(rng, mon, tier, idx):
    """too little data, or a model without hyper-parameter search: everything stays"""
    d = int(rng.randint(1, 3))
    kinds = [('pair',), ('abs',), ('pair', 'abs')][rng.randint(3)]
    if rng.rand() < .5:
        n = int(rng.randint(2, 4))
        kinds = kinds[:1]
        m, k, kn, log = build(rng, kinds, d, n, ('rbf', 'rbf+lin'), bool(rng.rand() < .5))
    else:
        m = lop.PreferenceLinear()
        mgen.fill(rng, m, d, kinds)
    h, before = np.array(m.get_hyper()), data(m)
    with quiet():
        if rng.rand() < .5:
            m.optimize(True)
        else:
            m.optimize(optimize_hyperparameter=True)
    mon.check(np.array_equal(h, m.get_hyper()), 'hyper_changed', 'hyper-parameters changed although there was nothing to search', before=h, after=m.get_hyper())
    mon.check(same(before, data(m)), 'data_changed', 'the training data changed')
    mu, s = m.predict(gen.items(rng, 3, d))
    mon.check(bool(np.all(np.isfinite(mu))), 'fit_invalid', 'predictions %r' % mu)
    e = lop.PreferenceGP(lop.RBF_kern(1.0, 1.0), use_hyper_optimization=True)
    mu, s = e.predict(gen.items(rng, 3, d))
    mon.check(np.array_equal(mu, np.zeros(3)), 'empty_model', 'a model without data predicts %r' % mu)
    mon.event('noop')
    mon.nontrivial(kinds, d, idx)


def objective(rng, mon, tier, idx):
    d = int(rng.randint(0, 3))
    n = int(rng.randint(3, 7))
    only = bool(rng.rand() < .3)
    kinds = KINDS[rng.randint(4)]
    m, k, kn, log = build(rng, kinds, d, n if len(kinds) == 1 else int(rng.randint(2, 4)), kernels(d), only)
    if rng.rand() < .4:
        m.probits[2].optimize_v_only = False
    h = np.array(m.get_hyper())
    npro = len(h) if only else len(h) - len(k.get_param())
    h = h * rng.uniform(.7, 1.4, len(h))
    m.set_hyper(h)
    m.optimized = False
    X, y = np.array(m.X_train), m.y_train
    K = np.asarray(m.cov_func.cov(X, X))
    if np.linalg.cond(K) > 1e6:
        raise Skip('ill conditioned')
    kw = dict(kernel=kn, kinds=kinds, d=d, n=len(X), only_likelihood=only, v_only=m.probits[2].optimize_v_only)

    def direct(F):
        W = m.derivatives(y, F)[0]
        K = np.asarray(m.cov_func.cov(X, X))
        s, ld = np.linalg.slogdet(np.eye(len(F)) + K @ W)
        if s <= 0:
            raise Skip('I + KW not positive')
        return ref.model_ll(m, F) - .5 * F @ np.linalg.solve(K, F) - .5 * ld
    m.delta_f, m.maxloops = 1e-9, 400
    with quiet():
        m.optimize()
    F = np.array(m.F)
    for G in (F, F + rng.randn(len(F)) * .3):
        if np.max(np.abs(G)) > 3:
            continue
        mon.close(m.likli_f_hyper(G, X, y), direct(G), 'evidence', 1e-6, 1e-6, 'log marginal likelihood', **kw)
        mon.event('evidence')
    # prior terms
    def prior(x):
        m.set_hyper(x)
        return float(m.hyper_liklihood())
    if np.all(h > .01):         # the priors are on positive parameters (the bias of a linear kernel may be negative)
        fd = num_grad(prior, h, 1e-6)
        m.set_hyper(h)
        mon.close(m.grad_hyper_liklihood(), fd, 'prior_gradient', 1e-4, 1e-5, 'gradient of the log prior of the hyper-parameters', hyper=h, **kw)
        mon.event('prior_gradient')
    # likelihood parameters: at fixed latent values
    G = F if rng.rand() < .5 else F + rng.randn(len(F)) * .2
    g = np.asarray(m.grad_likli_f_hyper(G, X, y))
    mon.check(g.shape == h.shape, 'gradient_length', 'gradient has %s entries for %s parameters' % (g.shape, h.shape), **kw)

    def fixed(x):
        m.set_hyper(x)
        return direct(G)

    def two(fun, i, rel):
        out = []
        for hh in (rel, rel / 2):
            e = np.zeros(len(h)); e[i] = hh * max(abs(h[i]), .1)
            out.append((fun(h + e) - fun(h - e)) / (2 * e[i]))
        return out
    for i in range(npro):
        a, b = two(fixed, i, 2e-3)
        want = b + (b - a) / 3
        if abs(a - b) > 1e-3 * (1 + abs(b)):
            mon.event('rough'); continue
        mon.close(g[i], want, 'likelihood_gradient', 1e-3, 1e-4, 'parameter %d of the likelihoods' % i, hyper=h, F=G, **kw)
        mon.event('likelihood_gradient')
    m.set_hyper(h)
    if not only:
        # kernel parameters: the mode moves along
        g = np.asarray(m.grad_likli_f_hyper(F, X, y))

        def total(x):
            m.set_hyper(x)
            with quiet():
                m.find_mode(X, y)
            if m.n_loops > m.maxloops or np.max(np.abs(m.F - F)) > .05:
                raise Skip('other mode')
            return direct(np.array(m.F))
        K2 = np.asarray(m.cov_func.cov(X, X))
        m.find_mode(X, y)
        r = K2 @ m.derivatives(y, F)[1] - F
        if m.n_loops > m.maxloops or np.max(np.abs(r)) > 1e-5:
            raise Skip('mode not found exactly')
        for i in range(npro, len(h)):
            a, b = two(total, i, 2e-3)
            want = b + (b - a) / 3
            if abs(a - b) > 1e-3 * (1 + abs(b)):
                mon.event('rough'); continue
            mon.close(g[i], want, 'kernel_gradient', 2e-3, 3e-4, 'parameter %d of the kernel' % (i - npro), hyper=h, **kw)
            mon.event('kernel_gradient')
        m.set_hyper(h)
    mon.nontrivial(kn, kinds, d, len(X), only, h)
    mon.sample(dict(kw, hyper=h, gradient=g))


def draws(rng, mon, tier, idx):
    """random starting points are valid and follow the declared priors"""
    only = bool(rng.rand() < .5)
    kinds = KINDS[rng.randint(4)]
    m, k, kn, log = build(rng, kinds, 1, 4, ('rbf', 'rbf+rbf', 'per', 'rbf*per'), only)
    m.probits[2].optimize_v_only = v_only = bool(rng.rand() < .5)
    before = data(m)
    kp = np.array(k.get_param())
    D = []
    N = 300
    for _ in range(N):
        m.randomize_hyper()
        D.append(m.get_hyper())
    D = np.array(D)
    mon.check(D.shape[1] == len(m.get_hyper()) and valid(D), 'draw_invalid', 'random hyper-parameters not positive', min=D.min(axis=0))
    mon.check(same(before, data(m)), 'data_changed', 'randomising the hyper-parameters changed the training data')
    if only:
        mon.check(np.array_equal(kp, k.get_param()), 'kernel_changed', 'only likelihood parameters were to be drawn')
    want = []
    p, _, a = m.probits
    for i, q in enumerate(m.probits):
        if m.y_train[i] is None:
            continue
        if i == 0:
            want.append((q.sigma_k, q.sigma_theta))
        if i == 2:
            if not v_only:
                want.append((q.sigma_k, q.sigma_theta))
            want.append((q.v_k, q.v_theta))
    for j, (kk, th) in enumerate(want):
        se = np.sqrt(kk) * th / np.sqrt(N)
        mon.check(abs(D[:, j].mean() - kk * th) < 7 * se, 'draw_prior', 'draws of likelihood parameter %d have mean %.3g, the prior %.3g' % (j, D[:, j].mean(), kk * th), kinds=kinds)
        mon.event('draws')
    mon.check(len(np.unique(D[:, 0])) == N, 'draw_prior', 'draws repeat')
    mon.nontrivial(kn, kinds, only, idx)


GROUPS = [Group('search', search, 36, 1200, require=('searched', 'steps', 'step_direction', 'fresh_compared'), chunk=1),
          Group('objective', objective, 160, 8000, require=('evidence', 'likelihood_gradient', 'kernel_gradient')),
          Group('noop', noop, 40, 1000, require=('noop',)),
          Group('draws', draws, 16, 300, require=('draws',))]
