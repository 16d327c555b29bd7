"""C12: gradient and curvature of each likelihood versus finite differences of independent reference log-likelihoods."""
import numpy as np
import lop
from harness.core import Group
from harness import pgen, ref

# every case takes milliseconds
HANG = 25
RULE = ('random latent vectors, label multisets (repeated, contradictory, unlabelled items) and parameters; gradient and '
        'curvature compared with 4th-order finite differences of an independent log-likelihood; distinct by case content')


def judge(mon, kind, p, y, F, llfun, scale, parts):
    """llfun(F): reference log-likelihood; parts: reference per-item gradient used for second differences"""
    W, g, ll = p.derivatives(y, F)
    n = len(F)
    W, g = np.asarray(W), np.asarray(g)
    if not mon.check(W.shape == (n, n) and g.shape == (n,), kind + '_shape', 'W %s grad %s for %d items' % (W.shape, g.shape, n)):
        return
    h = 2e-3 * scale
    ng = ref.num_grad(llfun, F, h)
    gs = 1.0 + np.max(np.abs(ng))
    mon.close(g, ng, kind + '_gradient', rtol=1e-5, atol=1e-5 * gs, F=F, y=y, scale=scale)
    mon.close(W, W.T, kind + '_symmetric', rtol=1e-9, atol=1e-9, F=F, y=y)
    # curvature from nested finite differences of the reference
    h2 = 4e-3 * scale
    if n > 30:       # many items: along random directions
        V = np.random.RandomState(n).randn(n, 3)
        V[:, 2] = 0
        V[n - 1, 2] = 1
        H = np.stack([ref.num_grad(lambda t: ref.num_grad(llfun, F + t[0] * v, h2), np.zeros(1), h2)[0] for v in V.T], axis=1)
        mon.close(W @ V, -H, kind + '_curvature', rtol=1e-4, atol=2e-4 * (1 + np.max(np.abs(H))), n=n, scale=scale)
        mon.close(ll, llfun(F), kind + '_value', rtol=1e-6, atol=1e-6, n=n)
        mon.event('large')
        mon.nontrivial(kind, F)
        return
    H = ref.num_grad(lambda x: ref.num_grad(llfun, x, h2), F, h2)
    ws = 1.0 + np.max(np.abs(H))
    mon.close(W, -H, kind + '_curvature', rtol=1e-4, atol=2e-4 * ws, F=F, y=y, scale=scale)
    mon.close(ll, llfun(F), kind + '_value', rtol=1e-6, atol=1e-6, F=F, y=y)
    # also consistent with the library's own log-likelihood
    mon.close(ref.num_grad(lambda x: float(p.log_likelihood(y, x)), F, h), g, kind + '_self_gradient', rtol=1e-5, atol=1e-5 * gs, F=F, y=y)
    mon.nontrivial(kind, F, y)
    mon.sample(dict(kind=kind, F=F, y=y, grad=g))


def size(rng, idx):
    return int(rng.randint(31, 80)) if idx % 60 == 7 else int(rng.randint(9, 20)) if idx % 60 == 8 else None


def pref(rng, mon, tier, idx):
    p, y, F, s = pgen.pref_case(rng, size=size(rng, idx))
    z = y[:, 0] * (F[y[:, 2]] - F[y[:, 1]]) / s
    if (np.abs(z) > 25).any():
        F = F / 3
    judge(mon, 'pair', p, y, F, lambda x: np.sum(ref.pair_ll(y[:, 0], x[y[:, 1]], x[y[:, 2]], s)), s, None)


def absb(rng, mon, tier, idx):
    p, y, F, s, v = pgen.abs_case(rng, size=size(rng, idx))
    if (np.abs(F) > 3.5 * s).any():       # mean link is deliberately clipped in the far tail
        F = np.clip(F, -3.5 * s, 3.5 * s)
    judge(mon, 'abs', p, y, F, lambda x: np.sum(ref.abs_ll(y[0], x[y[1]], s, v)), s, None)


def ordi(rng, mon, tier, idx):
    p, y, F, s, b, k = pgen.ord_case(rng, size=size(rng, idx))
    if (ref.ord_ll(y[0], F[y[1]], s, b) < np.log(1e-6)).any():
        y = (np.array([int(np.clip(np.searchsorted(b[1:-1], F[i]) + 1, 1, k)) for i in y[1]]), y[1])
    judge(mon, 'ord', p, y, F, lambda x: np.sum(ref.ord_ll(y[0], x[y[1]], s, b)), s, None)


def ordi_far(rng, mon, tier, idx):
    """labels that the latent value contradicts strongly: the library uses asymptotic forms there, judged to 5 %"""
    k = int(rng.randint(2, 8))
    s = float(rng.uniform(.2, 2))
    inner = np.cumsum(rng.uniform(.05, 2.5, k - 1)) * s - rng.uniform(0, 2)
    p = lop.OrdinalProbit(n_ordinals=k)
    p.set_sigma(s)
    p.set_b(inner)
    b = np.hstack(([-np.inf], inner, [np.inf]))
    n = int(rng.randint(1, 5))
    r = rng.randint(1, k + 1, n)
    above = np.where(r == 1, True, np.where(r == k, False, rng.rand(n) < .5))
    off = rng.uniform(5.5, 25, n) * s
    F = np.where(above, inner[-1] + off, inner[0] - off)
    y = (r, np.arange(n))
    ll = ref.ord_ll(r, F, s, b)
    W, g, _ = p.derivatives(y, F)
    W, g = np.asarray(W), np.asarray(g)
    for i in range(n):
        fn = lambda x: ref.ord_ll(r[i:i + 1], x, s, b)[0]
        ng = ref.num_grad(fn, F[i:i + 1], 2e-3 * s)[0]
        H = ref.num_grad(lambda x: ref.num_grad(fn, x, 4e-3 * s), F[i:i + 1], 4e-3 * s)[0]
        H = float(np.ravel(H)[0])
        kw = dict(level=int(r[i]), levels=k, f=float(F[i]), inner=inner, sigma=s, ll=float(ll[i]))
        mon.check(abs(g[i] - ng) <= .05 * abs(ng), 'far_gradient', 'gradient %r, difference quotient %r' % (float(g[i]), float(ng)), **kw)
        mon.check(abs(W[i, i] + H) <= .05 * abs(H), 'far_curvature', 'curvature %r, difference quotient %r' % (float(W[i, i]), -H), **kw)
        mon.event('far_end' if r[i] in (1, k) else 'far_middle')
    mon.nontrivial(k, s, F, r)


def units(rng, mon, tier, idx):
    """latent values, widths and thresholds in other units (a power of two): the likelihood is the same, derivatives scale"""
    c = 2.0 ** int(rng.choice([-1, 1]) * rng.randint(2, 24))
    kind = ('pair', 'abs', 'ord')[idx % 3]
    wide = bool(rng.rand() < .3)
    if kind == 'pair':
        p, y, F, s = pgen.pref_case(rng, wide=wide)
        q = lop.PreferenceProbit(sigma=s * c)
    elif kind == 'abs':
        p, y, F, s, v = pgen.abs_case(rng, wide=wide)
        q = lop.AbsBoundProbit(sigma=s * c, v=v)
    else:
        p, y, F, s, edges, k = pgen.ord_case(rng, wide=wide)
        q = lop.OrdinalProbit(n_ordinals=k)
        q.set_sigma(s * c)
        q.set_b(np.array(p.b) * c)
        # the asymptotic forms start at a threshold, which rounding can cross
    W, g, l = p.derivatives(y, F)
    W2, g2, l2 = q.derivatives(y, c * F)
    kw = dict(F=F, y=y, sigma=s, unit=c)
    mon.close(l2, l, kind + '_units_loglik', 1e-9, 1e-9, **kw)
    mon.close(float(q.log_likelihood(y, c * F)), float(p.log_likelihood(y, F)), kind + '_units_loglik', 1e-9, 1e-9, **kw)
    mon.close(np.asarray(g2) * c, g, kind + '_units_gradient', 1e-8, 1e-9 * (1 + np.max(np.abs(g))), **kw)
    mon.close(np.asarray(W2) * c * c, W, kind + '_units_curvature', 1e-8, 1e-9 * (1 + np.max(np.abs(W))), **kw)
    mon.event('units')
    if np.ptp(F) > 0:
        mon.nontrivial(kind, F, y, c)
        mon.sample(dict(kind=kind, unit=c, F=F))


GROUPS = [Group('units', units, 900, 9000, require=['units']), Group('ordinal_far', ordi_far, 400, 4000, require=['far_end', 'far_middle']), Group('pairwise', pref, 900, 8000, require=['large']), Group('absolute', absb, 900, 8000, require=['large']), Group('ordinal', ordi, 900, 8000, require=['large'])]
