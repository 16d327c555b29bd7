"""Independent reference formulas (scipy only; nothing imported from the library)."""
import numpy as np
from scipy.special import log_ndtr, ndtr, gammaln


def pair_ll(d, fu, fv, sigma):
    """log P of label (d, u, v); d=-1: u preferred, d=+1: v preferred"""
    return log_ndtr(d * (fv - fu) / (np.sqrt(2) * sigma))


def abs_ll(y, f, sigma, v):
    """log beta density with mean Phi(f/(sqrt2 sigma)) and precision v"""
    mu = np.clip(ndtr(f / (np.sqrt(2) * sigma)), 1e-10, 1 - 1e-10)
    a = v * mu
    b = v - a
    return (a - 1) * np.log(y) + (b - 1) * np.log1p(-y) + gammaln(v) - gammaln(a) - gammaln(b)


def ord_ll(r, f, sigma, b):
    """log probability of level r (1..n) with breakpoints b[0]=-inf .. b[n]=inf"""
    r = np.asarray(r)
    hi, lo = (b[r] - f) / sigma, (b[r - 1] - f) / sigma
    # use the lower tail on whichever side is smaller
    flip = (lo > 0)
    h2, l2 = np.where(flip, -lo, hi), np.where(flip, -hi, lo)
    A, B = log_ndtr(h2), log_ndtr(l2)
    return A + np.log1p(-np.exp(np.minimum(B - A, -1e-300)))


def num_grad(f, x, h=1e-5):
    x = np.asarray(x, dtype=float)
    out = []
    for i in range(x.size):
        e = np.zeros(x.size); e[i] = h
        e = e.reshape(x.shape)
        # 4th order central difference
        out.append((-np.asarray(f(x + 2 * e)) + 8 * np.asarray(f(x + e)) - 8 * np.asarray(f(x - e)) + np.asarray(f(x - 2 * e))) / (12 * h))
    return np.array(out)


def model_ll(m, F, y=None):
    """log-likelihood of all labels stored in a preference model at latent values F"""
    y = m.y_train if y is None else y
    ix = m.probit_idxs
    F = np.asarray(F, dtype=float)
    tot = 0.0
    p = y[ix['relative_discrete']]
    if p is not None:
        p = np.asarray(p).astype(int)
        tot += np.sum(pair_ll(p[:, 0], F[p[:, 1]], F[p[:, 2]], m.probits[ix['relative_discrete']].sigma))
    a = y[ix['abs']]
    if a is not None:
        pr = m.probits[ix['abs']]
        tot += np.sum(abs_ll(np.asarray(a[0]), F[np.asarray(a[1]).astype(int)], pr.sigma, pr.v))
    o = y[ix['ordinal']]
    if o is not None:
        pr = m.probits[ix['ordinal']]
        tot += np.sum(ord_ll(np.asarray(o[0]).astype(int), F[np.asarray(o[1]).astype(int)], pr.sigma, np.asarray(pr.b)))
    return tot


def ord_tail(m, F):
    """True when an ordinal label is so unlikely at F that the library switches to its tail approximation"""
    o = m.y_train[m.probit_idxs['ordinal']]
    if o is None:
        return False
    pr = m.probits[m.probit_idxs['ordinal']]
    return bool(np.min(ord_ll(np.asarray(o[0]).astype(int), np.asarray(F)[np.asarray(o[1]).astype(int)], pr.sigma, np.asarray(pr.b))) < np.log(1e-7))
