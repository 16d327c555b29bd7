"""C26: gamma helpers and dominance probabilities versus reference distributions."""
import numpy as np
from scipy import stats
from scipy.special import ndtr
import lop
from harness.core import Group

# every case takes milliseconds
HANG = 25
TECHNIQUE = 'runtime monitor: reference distributions, numerical derivatives, Monte-Carlo orthant oracle'
RULE = ('random shape, scale and argument values over many magnitudes; random Gaussians of 1-7 dimensions with independent, paired and full covariance; '
        'non-trivial = every case (all parameters random); distinct by parameters')


def gamma_case(rng, mon, tier, idx):
    k = float(np.exp(rng.uniform(-3, 6.2)))
    th = float(np.exp(rng.uniform(-4, 4)))
    form = rng.randint(3)
    x = k * th * np.exp(rng.uniform(-3, 1.5, 12)) + 2e-6
    if form == 0:
        x = float(x[0])
    elif form == 1:
        x = x.reshape(3, 4)
    keep = np.array(x, copy=True)
    mon.op('gamma', k, th, x)
    pdf, lp, d = lop.pdf_gamma(x, k, th), lop.log_pdf_gamma(x, k, th), lop.d_log_pdf_gamma(x, k, th)
    mon.check(np.array_equal(np.asarray(x), keep), 'argument_modified', 'gamma helper changed its argument')
    w = dict(k=k, theta=th, x=x)
    for nm, v in (('pdf', pdf), ('log', lp), ('derivative', d)):
        mon.check(np.shape(v) == np.shape(x), 'shape:' + nm, '%s for %s' % (np.shape(v), np.shape(x)))
    ref = stats.gamma.logpdf(keep, k, scale=th)
    tol = 1e-9 * (1 + k + np.max(keep) / th + abs(k * np.log(th)))
    mon.close(lp, ref, 'log_density', rtol=1e-9, atol=tol, **w)
    mon.close(pdf, np.exp(ref), 'density', rtol=1e-6, atol=1e-300, **w)
    mon.close(d, (k - 1) / keep - 1 / th, 'log_derivative', rtol=1e-9, atol=1e-9 * (abs(k - 1) / np.min(keep) + 1 / th), **w)
    h = 1e-5 * keep
    num = (np.asarray(lop.log_pdf_gamma(keep + h, k, th)) - np.asarray(lop.log_pdf_gamma(keep - h, k, th))) / (2 * h)
    mon.close(d, num, 'derivative_of_log', rtol=1e-4, atol=1e-4 * (abs(k - 1) / np.min(keep) + 1 / th) + tol / np.min(h), **w)
    neg = -np.exp(rng.uniform(-5, 5))
    mon.check(float(lop.log_pdf_gamma(neg, k, th)) == -np.inf, 'no_mass_below_zero', 'log density %r at %r' % (lop.log_pdf_gamma(neg, k, th), neg))
    mode = max((k - 1) * th, 0)
    if k > 1.05:
        s = np.sign(np.asarray(lop.d_log_pdf_gamma(np.array([mode * 0.9, mode * 1.1]), k, th)))
        mon.check(s[0] >= 0 >= s[1], 'mode', 'derivative signs %s around the mode' % s, **w)
        mon.event('mode')
    if k > 171:
        mon.event('large_shape')
    mon.event('gamma')
    mon.nontrivial(k, th, keep)


def spd(rng, n):
    A = rng.randn(n, n)
    return A @ A.T + 0.3 * np.eye(n)


def orthant2(mu, C):
    """P(both < 0) of a bivariate normal, by one-dimensional quadrature"""
    s0 = np.sqrt(C[0, 0])
    b = C[0, 1] / C[0, 0]
    v = C[1, 1] - C[0, 1] * b
    from scipy.integrate import quad
    g = lambda t: stats.norm.pdf(t, mu[0], s0) * ndtr(-(mu[1] + b * (t - mu[0])) / np.sqrt(v))
    hi = min(0.0, mu[0] + 9 * s0)
    lo = mu[0] - 9 * s0
    if hi <= lo:
        return 0.0
    pts = sorted(set(float(np.clip(t, lo, hi)) for t in (mu[0] - 4 * s0, mu[0], mu[0] + 4 * s0)))
    return quad(g, lo, hi, points=pts, limit=200, epsabs=1e-10)[0]


def cdf_case(rng, mon, tier, idx):
    n = int(rng.randint(1, 7)) if idx % 12 != 5 else int(rng.randint(7, 14))
    mu = rng.randn(n) * float(rng.choice([0.3, 1, 4]))
    if n > 6:                                   # likely enough to be seen
        mu = -np.abs(mu) - .5
        mon.event('many')
    kind = ('diag', 'pairs', 'full')[rng.randint(3)]
    sc = np.exp(rng.uniform(-2, 2, n))
    if kind == 'diag':
        C = np.diag(sc ** 2)
        truth = float(np.prod(ndtr(-mu / sc)))
    elif kind == 'pairs':
        C = np.zeros((n, n))
        truth, i = 1.0, 0
        while i < n:
            if i + 1 < n:
                B = spd(rng, 2)
                C[i:i + 2, i:i + 2] = B
                truth *= orthant2(mu[i:i + 2], B)
                i += 2
            else:
                C[i, i] = sc[i] ** 2
                truth *= float(ndtr(-mu[i] / sc[i]))
                i += 1
        p = rng.permutation(n)
        C, mu = C[np.ix_(p, p)], mu[p]
    else:
        C = spd(rng, n)
        N = 200000
        S = rng.multivariate_normal(mu, C, N)
        truth = float(np.mean((S < 0).all(axis=1)))
    muc, Cc = mu.copy(), C.copy()
    for m in ('full', 'independent', 'switch', 'mvn', 'auto'):
        if m in ('mvn', 'auto') and rng.rand() < 0.5:
            continue
        mon.op('calc_cdf', kind, n, m)
        p = lop.calc_cdf(mu, C, method=m)
        mon.check(np.array_equal(mu, muc) and np.array_equal(C, Cc), 'argument_modified', 'calc_cdf changed its arguments')
        if not mon.check(np.ndim(p) == 0 and -1e-9 <= float(p) <= 1 + 1e-9, 'probability_range', '%s: %r' % (m, p), mu=mu, cov=C):
            continue
        if m == 'independent':
            mon.close(p, np.prod(ndtr(-muc / np.sqrt(np.diag(Cc)))), 'independent', rtol=1e-9, atol=1e-12, mu=mu, cov=C)
            exact = kind == 'diag' or n == 1
        elif m == 'switch':
            exact = kind != 'full' or n <= 2
        else:
            exact = True
        if exact:
            tol = 1e-3 if kind == 'full' or m == 'full' else 2e-4
            if kind == 'full':
                tol += 7 * np.sqrt(max(truth * (1 - truth), 1e-6) / 200000) + 3e-5
            mon.close(p, truth, 'orthant:' + m, rtol=0, atol=tol, mu=mu, cov=C, kind=kind)
            mon.event('exact:%s:%s' % (kind, m))
        # scaling every coordinate leaves the probability of the negative orthant as it is
        a = np.exp(rng.uniform(-1, 1, n)) * 2.0 ** rng.randint(-13, 14)
        if m in ('independent', 'switch') and (m == 'independent' or exact):
            mon.close(lop.calc_cdf(mu * a, C * np.outer(a, a), method=m), p, 'scale_invariant:' + m, rtol=1e-4, atol=1e-4, mu=mu, cov=C)
    u = 2.0 ** rng.randint(-13, 14)
    if n <= 6:
        m = ('full', 'mvn')[rng.randint(2)]
        mon.close(lop.calc_cdf(mu * u, C * u * u, method=m), lop.calc_cdf(mu, C, method=m), 'scale_invariant:' + m, rtol=0, atol=2e-3, mu=mu, cov=C, unit=u)
    mon.nontrivial(kind, mu, C)
    mon.event('cdf')


class _Model:
    pass


def best_case(rng, mon, tier, idx):
    """probability of each candidate being the best, from predicted mean and covariance"""
    n = int(rng.randint(2, 6)) if idx % 10 != 3 else int(rng.randint(6, 8))
    mu = rng.randn(n) * float(rng.choice([0.5, 1.5]))
    C = spd(rng, n) * 0.5
    l = lop.UCBLearner()
    m = lop.PreferenceGP(lop.RBF_kern(1.0, 1.0), active_learner=l)
    m.cov = C.copy()
    l.model = m
    cand = rng.randn(n, 2)
    mon.op('p_B_pref_gp', n)
    p = np.asarray(l.p_B_pref_gp(cand, mu, cdf_method='full'))
    mon.check(p.shape == (n,) and np.isfinite(p).all() and (p >= -1e-9).all(), 'best_valid', '%s' % p)
    mon.close(p.sum(), 1.0, 'best_sums_to_one', rtol=1e-9, atol=1e-9)
    S = rng.multivariate_normal(mu, C, 40000)
    f = np.bincount(S.argmax(axis=1), minlength=n) / 40000
    mon.close(p, f, 'best_frequency', rtol=0, atol=7 * 0.5 / 200 + 2e-3, mu=mu, cov=C)
    c = float(rng.randn() * 10)
    mon.close(l.p_B_pref_gp(cand, mu + c, cdf_method='full'), p, 'shift_invariant', rtol=0, atol=3e-3, mu=mu, cov=C, shift=c)
    q = rng.permutation(n)
    m.cov = C[np.ix_(q, q)]
    mon.close(l.p_B_pref_gp(cand[q], mu[q], cdf_method='full'), p[q], 'best_permutation', rtol=0, atol=3e-3, mu=mu, cov=C)
    mon.event('best')
    mon.nontrivial('best', mu, C)


GROUPS = [
    Group('gamma', gamma_case, 4500, 60000, require=('gamma', 'mode', 'large_shape')),
    Group('cdf', cdf_case, 300, 3000, require=('cdf', 'many', 'exact:diag:switch', 'exact:pairs:switch', 'exact:full:full')),
    Group('best', best_case, 40, 800, require=('best',)),
]
