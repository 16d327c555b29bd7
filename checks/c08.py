"""C08: covariance matrices versus independent kernel formulas; symmetry, definiteness, composition."""
import numpy as np
import lop
from harness.core import Group
from harness.own import OwnKernel

# every case takes milliseconds
HANG = 25
TECHNIQUE = 'runtime monitor: reference kernel formulas and eigenvalue assertions'
RULE = ('random kernels (nested sums/products up to depth 3), parameters and point sets (1-D and n-D, repeated and shared points); '
        'non-trivial = at least two distinct points; distinct by kernel expression, parameters and points')


class Spec:
    """a kernel together with an independent evaluation of its documented formula"""

    def __init__(self, k, f, noise, desc, stationary_psd=True):
        self.k, self.f, self.noise, self.desc, self.psd = k, f, noise, desc, stationary_psd


def D(u, v):
    return np.atleast_1d(np.asarray(u, float)), np.atleast_1d(np.asarray(v, float))


def leaf(rng, d, kinds=('rbf', 'zeroed', 'per', 'lin', 'own')):
    u = lambda a, b: float(rng.uniform(a, b))
    k = kinds[rng.randint(len(kinds))]
    if k == 'rbf':
        s, l = u(0.3, 2.5), u(0.3, 3)
        nz = float(rng.choice([0.01, 0.01, 0.0, 0.1]))
        kern = lop.RBF_kern(s, l) if nz == 0.01 else lop.RBF_kern(s, l, nz)
        return Spec(kern, lambda a, b: s * s * np.exp(-np.sum((a - b) ** 2) / (2 * l * l)), nz, 'rbf(%.3g,%.3g,%g)' % (s, l, nz))
    if k == 'zeroed':
        s, l = u(0.3, 2.5), u(0.3, 3)
        z = None if rng.rand() < 0.5 else rng.uniform(0, 2, max(d, 1))
        kern = lop.RBF_kern_zeroed(s, l, zero_pt=None if z is None else z.copy())
        z0 = np.zeros(max(d, 1)) if z is None else z
        e = lambda a, b: np.exp(-np.sum((a - b) ** 2) / (2 * l * l))
        return Spec(kern, lambda a, b: s * s * (e(a, b) - e(a, z0) * e(b, z0)), 0.01, 'zeroed(%.3g,%.3g,%s)' % (s, l, z0))
    if k == 'per':
        s, l, p = u(0.3, 2.5), u(0.4, 2), u(0.7, 5)
        return Spec(lop.PeriodicKern(s, l, p),
                    lambda a, b: s * s * np.exp(-2 * np.sin(np.pi * np.sum(np.abs(a - b)) / p) ** 2 / (l * l)), 0.0,
                    'per(%.3g,%.3g,%.3g)' % (s, l, p), d <= 1)
    if k == 'own':       # a user's kernel, through the base class
        s, l = u(0.3, 2.5), u(0.4, 3)
        return Spec(OwnKernel(s, l), lambda a, b: s * s / (1 + np.sum((a - b) ** 2) / (2 * l * l)), 0.0, 'own(%.3g,%.3g)' % (s, l))
    s, sb, c = u(0.3, 2), u(0.2, 2), u(-2, 2)
    return Spec(lop.LinearKern(s, sb, c), lambda a, b: sb * sb + s * s * np.sum((a - c) * (b - c)), 0.0, 'lin(%.3g,%.3g,%.3g)' % (s, sb, c))


def tree(rng, d, depth, kinds=('rbf', 'zeroed', 'per', 'lin', 'own')):
    """returns (Spec, parts) ; noise of a composite is not additive, so it is evaluated through Kn"""
    if depth == 0 or rng.rand() < 0.3:
        return leaf(rng, d, kinds), None
    a, b = tree(rng, d, depth - 1, kinds), tree(rng, d, depth - 1, kinds)
    op = '+' if rng.rand() < 0.5 else '*'
    k = a[0].k + b[0].k if op == '+' else a[0].k * b[0].k
    fa, fb = a[0].f, b[0].f
    f = (lambda u, v: fa(u, v) + fb(u, v)) if op == '+' else (lambda u, v: fa(u, v) * fb(u, v))
    return Spec(k, f, None, '(%s%s%s)' % (a[0].desc, op, b[0].desc), a[0].psd and b[0].psd), (a, b, op)


def pts(rng, n, d):
    X = rng.uniform(-1, 3, (n,) if d == 0 else (n, d))
    if n > 2 and rng.rand() < 0.4:
        X[rng.randint(n)] = X[rng.randint(n)]
    return X


def offset_case(rng, mon, tier, idx):
    """points far from the origin compared to their distances: the covariance keeps its value"""
    d = int(rng.choice([0, 1, 2, 3]))
    t = tree(rng, d, int(rng.randint(0, 3)), ('rbf', 'rbf', 'per') if d <= 1 else ('rbf',))
    s = t[0]
    off = float(rng.choice([-1, 1]) * 2.0 ** rng.randint(10, 26))
    # offsets and points are multiples of 2^-20, so that differences of points are exact
    grid = lambda A: np.round(A * 2 ** 20) / 2 ** 20
    X, Y = grid(pts(rng, int(rng.randint(2, 8)), d)), grid(pts(rng, int(rng.randint(2, 8)), d))
    mon.op('cov far from the origin', s.desc, off)
    K, R = np.asarray(s.k.cov(X + off, Y + off)), refcov(s.f, X, Y)
    sc = 1 + np.max(np.abs(R))
    if not np.array_equal(X, Y):
        mon.close(K, R, 'far_formula', rtol=1e-7, atol=1e-8 * sc, kern=s.desc, offset=off, X=X, Y=Y)
    S = np.asarray(s.k.cov(X + off, X + off))
    mon.close(S, refself(t, X), 'far_self', rtol=1e-7, atol=1e-8 * sc, kern=s.desc, offset=off, X=X)
    mon.event('far')
    mon.nontrivial(s.desc, X, Y, off)
    mon.sample(dict(kernel=s.desc, offset=off))


def wide_case(rng, mon, tier, idx):
    """parameters and distances over many orders of magnitude; small covariances are judged relative to themselves"""
    d = int(rng.choice([0, 1, 2, 3]))
    e = lambda a, b: float(np.exp(rng.uniform(np.log(a), np.log(b))))
    unit = e(1e-3, 1e4)          # size of the region of the points

    def one():
        s = e(1e-4, 1e4)
        if rng.rand() < .5:
            l = unit * e(.08, 30)
            return lop.RBF_kern(s, l), lambda a, b: s * s * np.exp(-np.sum((a - b) ** 2) / (2 * l * l)), 'rbf(%g,%g)' % (s, l)
        l, p = e(.2, 30), unit * e(1e-3, 1e3)
        return lop.PeriodicKern(s, l, p), lambda a, b: s * s * np.exp(-2 * np.sin(np.pi * np.sum(np.abs(a - b)) / p) ** 2 / (l * l)), 'per(%g,%g,%g)' % (s, l, p)
    k, f, desc = one()
    if rng.rand() < .4:
        k2, f2, d2 = one()
        f1 = f
        if rng.rand() < .5:
            k, f, desc = k + k2, (lambda a, b: f1(a, b) + f2(a, b)), '(%s+%s)' % (desc, d2)
        else:
            k, f, desc = k * k2, (lambda a, b: f1(a, b) * f2(a, b)), '(%s*%s)' % (desc, d2)
    shape = lambda n: (n,) if d == 0 else (n, d)
    X, Y = unit * rng.uniform(-.5, .5, shape(int(rng.randint(2, 7)))), unit * rng.uniform(-.5, .5, shape(int(rng.randint(2, 7))))
    K, R = np.asarray(k.cov(X, Y)), refcov(f, X, Y)
    mon.op('cov', desc, unit)
    mon.close(K, R, 'wide_formula', rtol=1e-7, atol=1e-250, kern=desc, X=X, Y=Y)
    i, j = rng.randint(len(X)), rng.randint(len(Y))
    mon.close(k(X[i], Y[j]), R[i, j], 'wide_call', rtol=1e-7, atol=1e-250, kern=desc, u=X[i], v=Y[j])
    mon.event('wide')
    mon.nontrivial(desc, X, Y)
    mon.sample(dict(kernel=desc, unit=unit))


def refcov(f, X, Y):
    return np.array([[f(*D(u, v)) for v in Y] for u in X])


def refself(t, X):
    """covariance of a set with itself, with each leaf's noise on the diagonal"""
    s, parts = t
    if parts is None:
        return refcov(s.f, X, X) + s.noise * np.eye(len(X))
    a, b, op = parts
    A, B = refself(a, X), refself(b, X)
    return A + B if op == '+' else A * B


def case(rng, mon, tier, idx):
    d = int(rng.choice([0, 1, 2, 3, 4]))
    t = tree(rng, d, int(rng.randint(0, 4)))
    s = t[0]
    k = s.k
    n, m = int(rng.randint(1, 10)), int(rng.randint(1, 10))
    X, Y = pts(rng, n, d), pts(rng, m, d)
    share = rng.randint(4)
    if share == 1 and m > 1 and n > 1:       # first points equal, the rest not
        Y[0] = X[0]
    elif share == 2 and n > 2:               # same size, same points but one
        Y = X.copy(); Y[rng.randint(n)] += 0.37; m = n
    elif share == 3 and n > 1:               # same points in another order
        Y = X[::-1].copy(); m = n
        if np.array_equal(X, Y):
            Y[-1] += 0.5
    mon.op('cov', s.desc, n, m, d)
    Xc, Yc = X.copy(), Y.copy()
    K = np.asarray(k.cov(X, Y))
    if not mon.check(K.shape == (n, m), 'cov_shape', '%s for %d x %d' % (K.shape, n, m)):
        return
    scale = 1 + np.max(np.abs(K))
    if not (n == m and np.array_equal(X, Y)):
        mon.close(K, refcov(s.f, X, Y), 'cov_formula', rtol=1e-8, atol=1e-9 * scale, kern=s.desc, X=X, Y=Y)
        mon.close(np.asarray(k.cov(Y, X)), K.T, 'cov_transpose', rtol=1e-9, atol=1e-10 * scale, kern=s.desc, X=X, Y=Y)
        mon.event('cross')
    i, j = rng.randint(n), rng.randint(m)
    mon.close(k(X[i], Y[j]), s.f(*D(X[i], Y[j])), 'call_formula', rtol=1e-8, atol=1e-9 * scale, kern=s.desc, u=X[i], v=Y[j])
    mon.close(k(Y[j], X[i]), k(X[i], Y[j]), 'call_symmetric', rtol=1e-9, atol=1e-10 * scale, kern=s.desc)
    if n > 1:
        sub = rng.choice(n, int(rng.randint(1, n)), replace=False)
        if not np.array_equal(X[sub], Y):
            mon.close(np.asarray(k.cov(X[sub], Y)), refcov(s.f, X[sub], Y), 'cov_subset', rtol=1e-8, atol=1e-9 * scale, kern=s.desc, X=X[sub], Y=Y)
    S = np.asarray(k.cov(X, X))
    sc = 1 + np.max(np.abs(S))
    mon.close(S, S.T, 'self_symmetric', rtol=1e-10, atol=1e-10 * sc, kern=s.desc, X=X)
    mon.close(S, refself(t, X), 'self_formula', rtol=1e-8, atol=1e-9 * sc, kern=s.desc, X=X)
    if s.psd:
        ev = np.linalg.eigvalsh((S + S.T) / 2)
        mon.check(ev[0] >= -1e-8 * sc * n, 'psd', 'smallest eigenvalue %r' % ev[0], kern=s.desc, X=X)
        mon.event('psd_checked')
    mon.check(np.array_equal(X, Xc) and np.array_equal(Y, Yc), 'points_unchanged', 'cov modified its arguments')
    if n > 1:
        mon.nontrivial(s.desc, X, Y)
        mon.sample(dict(kernel=s.desc, X=X[:3], m=m))
    if rng.rand() < .5:    # the same arrays, holding other points by now
        k.cov(X, Y)
        Z = X if rng.rand() < .5 or m < 2 else Y
        Z[rng.randint(len(Z))] += rng.uniform(.2, 1)
        if not (n == m and np.array_equal(X, Y)):
            mon.close(np.asarray(k.cov(X, Y)), refcov(s.f, X, Y), 'cov_points_changed', rtol=1e-8, atol=1e-9 * scale, kern=s.desc, X=X, Y=Y)
            mon.event('points_changed')
        k.cov(X, X)
        X[rng.randint(n)] += rng.uniform(.2, 1)
        mon.close(np.asarray(k.cov(X, X)), refself(t, X), 'self_points_changed', rtol=1e-8, atol=1e-9 * sc, kern=s.desc, X=X)


def compose(rng, mon, tier, idx):
    d = int(rng.choice([0, 2]))
    a, b, c = (leaf(rng, d).k for _ in range(3))
    X, Y = pts(rng, 4, d), pts(rng, 3, d)
    A, B, C = (np.asarray(k.cov(X, Y)) for k in (a, b, c))
    for k, want, nm in ((a + b, A + B, 'sum'), (a * b, A * B, 'product'), (a + b * c, A + B * C, 'sum_product'),
                        ((a + b) * c, (A + B) * C, 'paren'), (a * b * c, A * B * C, 'triple')):
        mon.close(np.asarray(k.cov(X, Y)), want, 'compose_' + nm, rtol=1e-9, atol=1e-9)
        mon.close(k(X[0], Y[1]), want[0, 1], 'compose_call_' + nm, rtol=1e-8, atol=1e-9)
    mon.check(len(a + b) == len(a) + len(b) == len(a * b), 'compose_len', 'number of parameters')
    for bad in (1.0, None, 'x'):
        for op in (lambda: a + bad, lambda: a * bad):
            try:
                op()
                mon.fail('compose_rejects', 'combining a kernel with %r succeeded' % (bad,))
            except TypeError:
                mon.event('rejected_operand')
    mon.nontrivial(A)
    mon.sample(dict(points=X))


def periodic_nd(rng, mon, tier, idx):
    """definiteness of the periodic kernel on multi-dimensional points"""
    X = np.array([[0., 0.], [1., 0.], [0., 1.], [1., 1.], [.5, .5], [.2, .9], [.9, .2]]) + (np.arange(14).reshape(7, 2) * 0.13 % 1 if idx == 0 else rng.uniform(0, 1, (7, 2)))
    S = np.asarray(lop.PeriodicKern(1.0, 0.6, 2.0).cov(X, X))
    ev = np.linalg.eigvalsh(S)[0]
    mon.check(ev >= -1e-8, 'periodic_not_psd_multidim', 'smallest eigenvalue %r' % ev, X=X)
    mon.nontrivial(X)
    mon.sample(dict(X=X, smallest=ev))


def large(rng, mon, tier, idx):
    """point sets of realistic size: every tenth entry and the last rows and columns against the formula"""
    d = int(rng.choice([0, 1, 2, 3]))
    t = tree(rng, d, int(rng.randint(0, 3)))
    s = t[0]
    n, m = (int(v) for v in rng.randint(20, 300 if idx % 4 == 0 else 140, 2))
    X, Y = pts(rng, n, d), pts(rng, m, d)
    if rng.rand() < .3 and n > 1:
        Y[rng.randint(m)] = X[rng.randint(n)]
    mon.op('cov of many points', s.desc, n, m, d)
    K = np.asarray(s.k.cov(X, Y))
    if not mon.check(K.shape == (n, m), 'cov_shape', '%s for %d x %d' % (K.shape, n, m)):
        return
    S = np.asarray(s.k.cov(X, X))
    rows = np.unique(np.r_[0, n - 1, rng.choice(n, 8)])
    cols = np.unique(np.r_[0, m - 1, rng.choice(m, 8)])
    R = refcov(s.f, X[rows], Y[cols])
    sc = 1 + np.max(np.abs(S))
    mon.close(K[np.ix_(rows, cols)], R, 'large_formula', rtol=1e-8, atol=1e-9 * sc, kern=s.desc, shape=[n, m])
    mon.close(np.asarray(s.k.cov(Y, X)), K.T, 'cov_transpose', rtol=1e-9, atol=1e-10 * sc, kern=s.desc, shape=[n, m])
    half = np.asarray(s.k.cov(X[n // 2:], Y[m // 2:]))
    mon.close(K[n // 2:, m // 2:], half, 'large_block', rtol=1e-9, atol=1e-10 * sc, kern=s.desc, shape=[n, m])
    mon.close(S, S.T, 'self_symmetric', rtol=1e-10, atol=1e-10 * sc, kern=s.desc)
    c2 = np.unique(np.r_[0, n - 1, rng.choice(n, 10)])
    mon.close(S[np.ix_(c2, c2)], refself(t, X[c2]), 'large_self', rtol=1e-8, atol=1e-9 * sc, kern=s.desc, n=n)
    if s.psd:
        ev = np.linalg.eigvalsh((S + S.T) / 2)
        mon.check(ev[0] >= -1e-9 * sc * n, 'psd', 'smallest eigenvalue %r' % ev[0], kern=s.desc, n=n)
    mon.event('large')
    mon.nontrivial(s.desc, n, m, X[0])
    mon.sample(dict(kernel=s.desc, n=n, m=m))


GROUPS = [Group('large', large, 60, 600, require=['large']),
          Group('covariance', case, 6000, 40000, require=['cross', 'psd_checked', 'points_changed']),
          Group('far_points', offset_case, 1000, 6000, require=['far']), Group('wide', wide_case, 1500, 15000, require=['wide']),
          Group('composition', compose, 300, 2000), Group('periodic_nd', periodic_nd, 4, 20)]
