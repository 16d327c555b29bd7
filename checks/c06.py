"""C06: preference GP fit is the posterior mode with its Laplace approximation (independent likelihoods)."""
import copy
import numpy as np
import lop
from harness.core import Group
from harness import gen, mgen, ref

RULE = ('random items, kernels with full-rank covariance, every feedback mix (consistent, noisy, contradictory, repeated labels '
        'of the same items) and random likelihood parameters, several batches; mode, mean and covariance compared with '
        'references built from independent likelihood formulas and finite differences; distinct by kernel, mix and sizes')
ASSUMPTIONS = ['normalisation off', 'covariance of the training items has condition number below 1e8']
ASSUMPTIONS += ['fits where an ordinal label has probability below 1e-7 (tail approximation in the code) excluded']
TECHNIQUE = 'runtime monitoring: reference-model oracle (stationarity residual from independent likelihoods, Laplace equations) on fitted models'


def hessian(f, x, h=2e-4):
    n = len(x)
    H = np.zeros((n, n))
    E = np.eye(n) * h
    f0 = f(x)
    for i in range(n):
        H[i, i] = (-f(x + 2 * E[i]) + 16 * f(x + E[i]) - 30 * f0 + 16 * f(x - E[i]) - f(x - 2 * E[i])) / (12 * h * h)
        for j in range(i):
            H[i, j] = H[j, i] = (f(x + E[i] + E[j]) - f(x + E[i] - E[j]) - f(x - E[i] + E[j]) + f(x - E[i] - E[j])) / (4 * h * h)
    return H


def setup(rng, m):
    if rng.rand() < .5:
        m.probits[0].set_sigma(float(rng.uniform(.3, 1.5)))
    if rng.rand() < .5:
        m.probits[1].set_hyper([float(rng.uniform(.4, 1.5)), float(rng.uniform(.8, 3))])
    if rng.rand() < .5:
        m.probits[2].set_v(float(rng.uniform(5, 90)))


def case(rng, mon, tier, idx):
    d = int(rng.randint(0, 4))
    k, kn = gen.kernel(rng, lop, ('rbf', 'rbf', 'rbf+lin', 'rbf+rbf', 'rbf+own') + (('rbf*per',) if d <= 1 else ()))
    kinds = mgen.random_kinds(rng)
    m = lop.PreferenceGP(k)
    setup(rng, m)
    if rng.rand() < .3:          # likelihoods given to the constructor, in any order
        own = {t: copy.deepcopy(m.probits[m.probit_idxs[t]]) for t in rng.permutation(list(m.probit_idxs))[:rng.randint(1, 4)]}
        m = lop.PreferenceGP(k, other_probits=own)
        mon.check(all(np.array_equal(m.probits[m.probit_idxs[t]].get_hyper(), own[t].get_hyper()) for t in own), 'given_likelihoods', 'likelihoods given for %s are not in use' % sorted(own))
        mon.event('own_likelihoods')
    n = int(rng.randint(2, 8))
    X = gen.items(rng, n, d)
    noise = 0.0 if rng.rand() < .4 else 0.5
    if rng.rand() < .35:         # the very same items carry every kind of label
        mgen.overlay(rng, m, X, kinds, noise)
        mon.event('overlay' if len(kinds) > 1 else 'one_kind')
        kinds_left = ()
    else:
        kinds_left = kinds
    for t in rng.permutation(list(kinds_left)):
        if rng.rand() < .5:      # every kind on items of its own, or all on the same items
            mgen.fill(rng, m, d, (str(t),), noise=noise)
        else:
            fb, _ = mgen.feedback(rng, X, (str(t),), noise)
            for pos, y, ty in fb:
                m.add(X[pos], y, type=ty)
        if rng.rand() < .2:
            m.predict(gen.items(rng, 2, d))
    XT = np.array(m.X_train)
    K = np.asarray(k.cov(XT, XT))
    if np.linalg.cond(K) > 1e8 or len(XT) > 14:
        mon.event('ill_conditioned')
        return
    Q = gen.items(rng, int(rng.randint(1, 7)), d, 4.0)
    loose = rng.rand() < .15       # a loose stopping rule: not the mode, but still Laplace equations around the reported values
    if loose:
        m.delta_f = float(rng.choice([.05, .3, 1.0]))
    mu, var = m.predict(Q)
    F = np.array(m.F)
    kw = dict(kernel=kn, kinds=kinds, d=d, n=len(XT))
    mon.check(F.shape == (len(XT),) and bool(np.all(np.isfinite(F))), 'mode_invalid', 'latent values %r' % F, **kw)
    if ref.ord_tail(m, F):
        mon.event('ordinal_tail')
        return
    ll = lambda f: ref.model_ll(m, f)
    g = ref.num_grad(ll, F, 1e-4)
    W = -hessian(ll, F)
    # Newton step from the reported mode: (W + K^-1)^-1 (g - K^-1 F) = (I + K W)^-1 (K g - F)
    A = np.eye(len(F)) + K @ W
    step = np.linalg.solve(A, K @ g - F)
    resid = float(np.max(np.abs(step)))
    if loose:
        mon.event('loose')
    elif m.n_loops > m.maxloops:
        mon.event('not_converged')
        mon.check('abs' in kinds, 'no_convergence', 'log-concave posterior but the search used all loops', **kw)
        return
    if not loose:
        mon.check(resid <= 2e-3, 'not_stationary', 'Newton step from the reported mode is %.2g' % resid, F=F, **kw)
        post = np.linalg.eigvalsh(W + np.linalg.inv(K))
        mon.check(post[0] > -1e-3 * max(1, post[-1]), 'not_a_maximum', 'posterior curvature has eigenvalue %r at the reported mode' % post[0], **kw)
        mon.event('stationary')
    # the objective the search maximises is log-likelihood plus Gaussian prior, up to a constant
    L = np.linalg.cholesky(K)
    f2 = F + rng.randn(len(F)) * 0.2
    if ref.ord_tail(m, f2):
        f2 = F.copy()
    obj = lambda f: ll(f) - 0.5 * f @ np.linalg.solve(K, f)
    a = m.likli_f(f2, XT, m.y_train, K, L) - m.likli_f(F, XT, m.y_train, K, L)
    mon.close(a, obj(f2) - obj(F), 'objective', 1e-5, 1e-5, 'reported log-posterior difference', **kw)
    Wl, gl, pl = m.derivatives(m.y_train, f2)
    mon.close(gl, ref.num_grad(ll, f2, 1e-4), 'model_gradient', 1e-4, 1e-4, 'summed likelihood gradient', **kw)
    mon.close(Wl, -hessian(ll, f2), 'model_curvature', 1e-3, 2e-3 * (1 + np.max(np.abs(Wl))), 'summed likelihood curvature', **kw)
    mon.close(pl, ll(f2), 'model_loglik', 1e-6, 1e-6, 'summed log-likelihood', **kw)
    # Laplace predictive equations around the reported mode
    Kq, Kqq = np.asarray(k.cov(Q, XT)), np.asarray(k.cov(Q, Q))
    cond = np.linalg.cond(K)
    mon.close(mu, Kq @ np.linalg.solve(K, F), 'laplace_mean', 1e-5, 1e-8 * max(1, cond ** .5) * (1 + np.max(np.abs(F))), 'predicted mean', **kw)
    C = Kqq - Kq @ np.linalg.solve(A.T, W @ Kq.T)
    # W comes from finite differences: tolerance relative to the change it makes
    tol = 2e-3 * (1 + np.max(np.abs(Kqq)))
    mon.close(np.array(m.cov), C, 'laplace_cov', 1e-3, tol, 'predicted covariance', **kw)
    mon.close(var, np.maximum(np.diag(np.array(m.cov)), 0), 'laplace_var', 1e-9, 1e-9, 'variance is the diagonal of the covariance', **kw)
    mon.event('laplace')
    mon.nontrivial(kn, kinds, d, len(XT), noise, idx)
    mon.sample(dict(kw, step=resid, loops=m.n_loops, F=F[:4]))


def large(rng, mon, tier, idx):
    """many items and labels: stationarity, curvature along random directions and the Laplace equations"""
    d = int(rng.randint(1, 4))
    k, kn = gen.kernel(rng, lop, ('rbf', 'rbf', 'rbf+lin', 'rbf+rbf'))
    kinds = mgen.random_kinds(rng)
    m = lop.PreferenceGP(k)
    setup(rng, m)
    X = gen.items(rng, int(rng.randint(18, 60)), d)
    noise = .4 if rng.rand() < .7 else 0.0
    if rng.rand() < .5:
        mgen.overlay(rng, m, X, kinds, noise)
    else:
        cut = len(X) // len(kinds)
        for j, t in enumerate(kinds):
            for pos, y, ty in mgen.feedback(rng, X[j * cut:(j + 1) * cut], (t,), noise)[0]:
                m.add(X[j * cut:(j + 1) * cut][pos], y, type=ty)
    Q = gen.items(rng, int(rng.randint(1, 40)), d, 4.0)
    mu, var = m.predict(Q)
    XT, F = np.array(m.X_train), np.array(m.F)
    K = np.asarray(k.cov(XT, XT))
    kw = dict(kernel=kn, kinds=kinds, d=d, n=len(XT), loops=m.n_loops)
    if np.linalg.cond(K) > 1e8 or ref.ord_tail(m, F):
        mon.event('left_out')
        return
    ll = lambda f: ref.model_ll(m, f)
    g = ref.num_grad(ll, F, 1e-4)
    W = np.asarray(m.W)
    V = np.stack([rng.randn(len(F)), np.eye(len(F))[-1], np.eye(len(F))[rng.randint(len(F))]], axis=1)
    H = np.stack([ref.num_grad(lambda t: ref.num_grad(ll, F + t[0] * v, 2e-3), np.zeros(1), 2e-3)[0] for v in V.T], axis=1)
    mon.close(W @ V, -H, 'model_curvature', 1e-3, 2e-3 * (1 + np.max(np.abs(W))), 'curvature at the reported mode', **kw)
    A = np.eye(len(F)) + K @ W
    if m.n_loops > m.maxloops:
        mon.event('not_converged')
        mon.check('abs' in kinds, 'no_convergence', 'log-concave posterior but the search used all loops', **kw)
    else:
        step = np.linalg.solve(A, K @ g - F)
        mon.check(np.max(np.abs(step)) <= 2e-3, 'not_stationary', 'Newton step from the reported mode is %.2g' % np.max(np.abs(step)), **kw)
        mon.event('stationary')
    Kq, Kqq = np.asarray(k.cov(Q, XT)), np.asarray(k.cov(Q, Q))
    cond = np.linalg.cond(K)
    mon.close(mu, Kq @ np.linalg.solve(K, F), 'laplace_mean', 1e-5, 1e-8 * max(1, cond ** .5) * (1 + np.max(np.abs(F))), 'predicted mean', **kw)
    C = Kqq - Kq @ np.linalg.solve(A.T, W @ Kq.T)
    mon.close(np.array(m.cov), C, 'laplace_cov', 1e-5, 1e-6 * (1 + np.max(np.abs(Kqq))), 'predicted covariance', **kw)
    mon.event('laplace')
    mon.nontrivial(kn, kinds, d, len(XT), idx)
    mon.sample(kw)


def ordering(rng, mon, tier, idx):
    """items too far apart to influence each other, all pairs compared the same way: latent values follow the order"""
    n = int(rng.randint(2, 8))
    d = int(rng.randint(0, 3))
    l = float(rng.uniform(.3, 1.0))
    pos = rng.permutation(n) * 5.0 * l
    X = pos if d == 0 else np.stack([pos] + [rng.rand(n) * .01 for _ in range(d - 1)], axis=1)
    m = lop.PreferenceGP(lop.RBF_kern(float(rng.uniform(.5, 2)), l))
    setup(rng, m)
    order = rng.permutation(n)          # best first
    reps = int(rng.randint(1, 4))
    pairs = []
    for _ in range(reps):
        for i in range(n):
            for j in range(i + 1, n):
                a, b = int(order[i]), int(order[j])
                pairs.append((-1, a, b) if rng.rand() < .5 else (1, b, a))
    pairs = [pairs[i] for i in rng.permutation(len(pairs))]
    m.add(X, pairs)
    if rng.rand() < .3:
        m.add(np.array(X[order[:1]]), np.array([.9]), type='abs')
        top = True
    else:
        top = False
    F = np.array(m(X)) if rng.rand() < .5 else (m.predict(X + 0.0)[0])
    got = list(np.argsort(-F))
    if top:
        mon.check(list(got) == list(order) or n > 2, 'order', 'order %r, expected %r' % (got, list(order)), F=F)
    else:
        mon.check(got == list(order), 'order', 'order %r, expected %r' % (got, list(order)), F=F)
        mon.event('ordered')
    mon.nontrivial(n, d, reps, list(order))
    mon.sample(dict(order=list(order), F=F))


def updates(rng, mon, tier, idx):
    """single Newton updates, with every documented rule for the length of the step"""
    n = int(rng.randint(1, 7))
    m = lop.PreferenceGP(lop.RBF_kern(1.0, .7))
    rule = ('static', 'binary', 'iter')[rng.randint(3)]
    itr = int(rng.randint(2, 9))
    inv = (np.linalg.inv, np.linalg.pinv)[rng.randint(2)]
    kw = dict(rule=rule, itr=itr, n=n)
    # concave quadratic: the whole step ends in the maximum
    B = rng.randn(n, n)
    A = B @ B.T + np.eye(n) * rng.uniform(.1, 2)
    c, F = rng.randn(n), rng.randn(n) * rng.choice([.1, 1, 10])
    scale = float(rng.choice([1e-3, 1.0, 100.0]))
    extra = ('a', 2)[:rng.randint(3)]
    q = lambda f, *a: -.5 * scale * (f - c) @ A @ (f - c) if a == extra else np.nan
    F0 = F.copy()
    args = dict(invert_function=inv, line_search_max_itr=itr)
    if rule != 'static' or rng.rand() < .5:
        args['lambda_type'] = rule
    mon.op('newton_update', kw)
    new = np.asarray(m.newton_update(F, -scale * A @ (F - c), -scale * A, q, extra, **args))
    mon.check(np.array_equal(F, F0), 'update_changes_argument', 'the starting point was changed', **kw)
    lam = (new - F) @ (c - F) / ((c - F) @ (c - F))
    mon.close(new, F + lam * (c - F), 'update_direction', 1e-6, 1e-6 * (1 + np.max(np.abs(F - c))), 'update off the line to the maximum', **kw)
    err = dict(static=1e-6, binary=1.5 / 2 ** itr, iter=1.5 / itr)[rule]
    mon.check(abs(lam - 1) <= err * 1.0001 + 1e-6, 'update_length', 'step length %r, the maximum is at 1' % lam, **kw)
    mon.event('quadratic:' + rule)
    if rule != 'static':      # the searches themselves
        lo, hi = float(rng.uniform(0, .3)), float(rng.uniform(.6, 2.5))
        seen = []

        def loss(f, *a):
            seen.append(q(f, *a))
            return seen[-1]
        search = m.binary_line_search if rule == 'binary' else m.iterative_line_search
        l = search(F, F - c, loss, extra, min_lambda=lo, max_lambda=hi, max_itr=itr)
        best = min(max(1.0, lo), hi)
        mon.check(lo - 1e-12 <= l <= hi + 1e-12 and abs(l - best) <= (hi - lo) / (2 ** itr if rule == 'binary' else itr) * 1.0001, 'search_result',
                  'step length %r between %r and %r, the best is %r' % (l, lo, hi, best), **kw)
        if rule == 'iter':
            mon.check(q(F - l * (F - c), *extra) >= max(seen) - 1e-12 * abs(max(seen)), 'search_not_best', 'a better step was tried', **kw)
    # any smooth objective: never downhill
    w, V = np.linalg.qr(rng.randn(n, n))[0], rng.randn(n)
    kind = rng.randint(3)
    if kind == 0:        # several maxima and saddles
        f = lambda x, *a: float(np.sum(np.cos(w @ x) * (1 + np.abs(V))))
        g = lambda x: -w.T @ (np.sin(w @ x) * (1 + np.abs(V)))
        h = lambda x: -w.T @ np.diag(np.cos(w @ x) * (1 + np.abs(V))) @ w
    elif kind == 1:      # flat far away
        f = lambda x, *a: -float(np.sum(np.log1p((w @ x - V) ** 2)))
        g = lambda x: -w.T @ (2 * (w @ x - V) / (1 + (w @ x - V) ** 2))
        h = lambda x: -w.T @ np.diag((2 - 2 * (w @ x - V) ** 2) / (1 + (w @ x - V) ** 2) ** 2) @ w
    else:                # convex: there is no maximum
        f = lambda x, *a: float(x @ A @ x)
        g = lambda x: 2 * A @ x
        h = lambda x: 2 * A
    x = rng.randn(n) * 3
    for _ in range(4):
        y = np.asarray(m.newton_update(x, g(x), h(x), f, (), **args))
        mon.check(bool(np.all(np.isfinite(y))) and f(y) >= f(x) - 1e-9 * (1 + abs(f(x))), 'downhill', 'objective %r after the update, %r before' % (f(y), f(x)), x=x, kind=int(kind), **kw)
        if np.linalg.norm(g(x)) > .1 and kind != 1:
            mon.check(f(y) > f(x), 'no_progress', 'an update away from a stationary point left the objective at %r' % f(x), x=x, kind=int(kind), **kw)
        x = y
    try:
        m.newton_update(F, A @ F, -A, q, extra, lambda_type='other')
        mon.fail('unknown_rule', 'an unknown step rule was accepted')
    except ValueError:
        pass
    mon.event('updates')
    mon.nontrivial(n, rule, itr, F[0])


GROUPS = [Group('mode', case, 720, 9000, require=['stationary', 'laplace', 'overlay', 'own_likelihoods']), Group('large', large, 24, 300, require=['stationary', 'laplace']), Group('ordering', ordering, 180, 3000, require=['ordered']),
          Group('updates', updates, 600, 20000, require=['updates', 'quadratic:static', 'quadratic:binary', 'quadratic:iter'], hang=30)]
