"""C04: regression GP against a dense-solve reference posterior."""
import numpy as np
import lop
from harness.core import Group
from harness import gen

RULE = ('random data (0..3 features, duplicates), kernels and compositions, mean functions, scalar / per-sample noise given as '
        'number, list or array, any split into additions and any order; reference is a dense linear solve of the textbook '
        'equations; distinct by kernel, split and noise form')
ASSUMPTIONS = ['training_sigma is the variance added to the diagonal (as the code and its tests use it)',
               'query set differs from the training set (see C05 known finding on the white-noise term)']
TECHNIQUE = 'runtime monitoring: reference-model oracle (dense Gaussian conditioning) plus split/permutation metamorphic monitor'


def mean_fn(rng):
    k = rng.randint(3)
    if k == 0:
        return None, lambda x: np.zeros(len(x))
    c = float(rng.randn())
    if k == 1:
        return (lambda x: c), lambda x: np.full(len(x), c)
    f = lambda x: c + (np.sum(x, axis=1) if x.ndim > 1 else 2 * x)
    return f, f


def reference(k, mf, X, y, s, Q):
    Kyy = np.asarray(k.cov(X, X)) + np.diag(s)
    Kqy, Kqq = np.asarray(k.cov(Q, X)), np.asarray(k.cov(Q, Q))
    mu = mf(Q) + Kqy @ np.linalg.solve(Kyy, y - mf(X))
    return mu, Kqq - Kqy @ np.linalg.solve(Kyy, Kqy.T)


def noise(rng, n):
    k = rng.randint(4)
    if k == 0:
        return None, np.full(n, 0.0005)
    if k == 1:
        s = float(rng.choice([1e-7, 1e-6, 2e-5, 0.001, 0.05, 1.0, 3.0]))
        return s, np.full(n, s)
    v = 10 ** rng.uniform(-6, .3, n) if rng.rand() < .4 else rng.uniform(0.001, 2.0, n)
    return ([float(x) for x in v] if k == 2 else v.copy()), v


def case(rng, mon, tier, idx):
    d = int(rng.randint(0, 4))
    kinds = ('rbf', 'lin', 'rbf+lin', 'rbf+rbf', 'own', 'own+lin') + (('per', 'rbf*per') if d <= 1 else ())
    k, kn = gen.kernel(rng, lop, kinds)
    mfun, mref = mean_fn(rng)
    gp = lop.GP(k, mean_func=mfun) if rng.rand() < .7 else lop.GP(k, mean_func=mfun, mat_inv=np.linalg.inv)
    large = idx % 150 == 11
    Q = gen.items(rng, int(rng.randint(1, 12) if not large else rng.randint(30, 130)), d, 4.0)
    mu, var = gp.predict(Q)
    mon.close(mu, mref(Q), 'prior_mean', 1e-9, 1e-9, 'prediction without data is not the prior mean')
    mon.close(var, np.maximum(np.diag(np.asarray(k.cov(Q, Q))), 0), 'prior_variance', 1e-9, 1e-9, 'prediction without data is not the prior variance')
    mon.close(gp.cov, k.cov(Q, Q), 'prior_cov', 1e-9, 1e-9, 'prior covariance')
    nb = int(rng.randint(1, 4))
    if rng.rand() < .3:            # earlier data, dropped again
        gp.add(gen.items(rng, 3, d), rng.randn(3))
        gp.predict(Q)
        gp.reset()
        mon.close(gp.predict(Q)[0], mref(Q), 'reset_prior', 1e-9, 1e-9, 'prediction after reset is not the prior')
    Xs, ys, ss, forms = [], [], [], []
    for _ in range(nb):
        n = int(rng.randint(1, 8) if not large else rng.randint(25, 60))
        X = gen.items(rng, n, d, 4.0)
        if Xs and rng.rand() < .2:
            X[0] = Xs[0][0]
        y = rng.randn(n) * 2
        arg, s = noise(rng, n)
        if arg is None:
            gp.add(X, y)
        else:
            gp.add(X, y, training_sigma=arg)
        forms.append(type(arg).__name__)
        Xs.append(X); ys.append(y); ss.append(s)
        if rng.rand() < .3:
            gp.predict(Q)
    X, y, s = np.concatenate(Xs), np.concatenate(ys), np.concatenate(ss)
    if rng.rand() < .4:            # some of the queries at the data
        Q = np.concatenate([Q, X[rng.permutation(len(X))[:int(rng.randint(1, 4))]]])
    mu, var = gp.predict(Q)
    rm, rc = reference(k, mref, X, y, s, Q)
    cond = np.linalg.cond(np.asarray(k.cov(X, X)) + np.diag(s))
    tol = max(1e-8, 1e-13 * cond) * (1 + np.max(np.abs(y)))
    kw = dict(kernel=kn, forms=forms, d=d, n=len(X))
    mon.close(mu, rm, 'posterior_mean', 1e-7, tol, 'posterior mean differs from dense solve', **kw)
    mon.close(gp.cov, rc, 'posterior_cov', 1e-7, tol, 'posterior covariance differs', **kw)
    mon.close(var, np.maximum(np.diag(rc), 0), 'posterior_variance', 1e-7, tol, 'posterior variance differs', **kw)
    mon.check(np.all(var >= 0), 'negative_variance', 'variance %r' % var)
    mon.close(gp(Q), mu, 'call', 1e-12, 1e-12, 'call-style prediction')
    # one addition, permuted
    p = rng.permutation(len(X))
    g2 = lop.GP(k, mean_func=mfun)
    g2.add(X[p], y[p], training_sigma=s[p] if rng.rand() < .5 else [float(v) for v in s[p]])
    m2, v2 = g2.predict(Q)
    mon.close(m2, mu, 'split_mean', 1e-7, tol, 'splitting or permuting the data changes the mean', **kw)
    mon.close(g2.cov, gp.cov, 'split_cov', 1e-7, tol, 'splitting or permuting the data changes the covariance', **kw)
    if large:
        mon.event('large')
    mon.nontrivial(kn, d, nb, forms, mfun is None)
    mon.sample(dict(kernel=kn, d=d, batches=[len(a) for a in Xs], noise=forms, mean=mu[:3]))


GROUPS = [Group('posterior', case, 5000, 25000, require=['large'])]
