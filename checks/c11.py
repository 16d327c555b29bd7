"""C11: normalisation, formula, monotonicity and additivity monitors on every likelihood."""
import numpy as np
import lop
from scipy.special import ndtr, log_ndtr
from harness.core import Group
from harness import pgen, ref

# every case takes milliseconds
HANG = 25
RULE = ('random latent vectors (moderate and extreme), label multisets and parameters per likelihood; '
        'non-trivial = latent values not all equal; distinct by case content')


def L(p, y, F):
    return float(np.prod(np.asarray(p.likelihood(y, F), dtype=float)))


def pref(rng, mon, tier, idx):
    p, y, F, s = pgen.pref_case(rng, wide=bool(rng.rand() < 0.3))
    n = len(F)
    P = np.asarray(p.likelihood_all_pairs(F))
    mon.check(P.shape == (n, n), 'pair_shape', 'all-pairs matrix has shape %s' % (P.shape,))
    mon.check(bool(np.isfinite(P).all() and (P >= 0).all() and (P <= 1).all()), 'pair_range', 'probability outside [0,1]', P=P, F=F)
    mon.close(P + P.T, np.ones((n, n)), 'pair_sum_to_one', rtol=0, atol=1e-9, F=F, sigma=s)
    D = F[:, None] - F[None, :]
    mon.close(P, ndtr(D / (np.sqrt(2) * s)), 'pair_formula', rtol=1e-8, atol=1e-12, F=F, sigma=s)
    for i in range(min(n, 4)):
        for j in range(min(n, 4)):
            if i != j:
                a, b = L(p, np.array([[-1, i, j]]), F), L(p, np.array([[1, i, j]]), F)
                c = L(p, np.array([[1, j, i]]), F)
                mon.close(a + b, 1.0, 'label_sum_to_one', atol=1e-9, F=F, sigma=s)
                mon.close(a, P[i, j], 'label_matches_all_pairs', atol=1e-9, F=F, sigma=s, pair=(i, j))
                mon.close(a, c, 'label_orientation', atol=1e-12, F=F, pair=(i, j))
    # monotone in the preferred item's value
    i, j = rng.choice(n, 2, replace=False)
    F2 = F.copy(); F2[i] += rng.choice([1e-3, 0.3, 5.0, 100.0])
    lab = np.array([[-1, i, j]])
    mon.check(L(p, lab, F2) >= L(p, lab, F) - 1e-12, 'pair_monotone', 'raising the preferred item lowered its probability', F=F, F2=F2)
    mon.check(p.log_likelihood(lab, F2) >= p.log_likelihood(lab, F) - 1e-9, 'pair_log_monotone', 'raising the preferred item lowered its log-likelihood', F=F, F2=F2)
    ll = float(p.log_likelihood(y, F))
    mon.check(np.isfinite(ll), 'pair_loglik_finite', 'log-likelihood %r' % ll, F=F, y=y)
    z = y[:, 0] * (F[y[:, 2]] - F[y[:, 1]]) / (np.sqrt(2) * s)
    if (z > -25).all():
        mon.close(ll, np.sum(log_ndtr(z)), 'pair_loglik_formula', rtol=1e-8, atol=1e-9, F=F, y=y, sigma=s)
        mon.close(np.asarray(p.likelihood(y, F)), ndtr(z), 'pair_lik_formula', rtol=1e-7, atol=1e-300, F=F, y=y, sigma=s)
    mon.close(p.log_likelihood(y[rng.permutation(len(y))], F), ll, 'pair_order_free', rtol=1e-9, atol=1e-9)
    mon.close(sum(float(p.log_likelihood(y[k:k + 1], F)) for k in range(len(y))), ll, 'pair_additive', rtol=1e-9, atol=1e-9)
    if np.ptp(F) > 0:
        mon.nontrivial(F, y, s)
        mon.sample(dict(F=F, y=y, sigma=s, loglik=ll))


def absb(rng, mon, tier, idx):
    p, y, F, s, v = pgen.abs_case(rng, wide=bool(rng.rand() < 0.3))
    ll = float(p.log_likelihood(y, F))
    mon.check(np.isfinite(ll), 'abs_loglik_finite', 'log-likelihood %r' % ll, F=F, y=y, v=v, sigma=s)
    mon.close(ll, np.sum(ref.abs_ll(y[0], F[y[1]], s, v)), 'abs_loglik_formula', rtol=1e-6, atol=1e-7, F=F, y=y, sigma=s, v=v)
    o = rng.permutation(len(y[0]))
    mon.close(p.log_likelihood((y[0][o], y[1][o]), F), ll, 'abs_order_free', rtol=1e-9, atol=1e-9, y=y)
    mon.close(sum(float(p.log_likelihood((y[0][k:k + 1], y[1][k:k + 1]), F)) for k in range(len(o))), ll, 'abs_additive',
              rtol=1e-8, atol=1e-8, F=F, y=y)
    # density in y integrates to one, mean is the probit of the latent value (substitute y = expit(t))
    f = float(rng.uniform(-1.2, 1.2) * s)
    if v * min(ndtr(f / (np.sqrt(2) * s)), ndtr(-f / (np.sqrt(2) * s))) > 0.4:
        t = np.linspace(-45, 45, 4001)
        yy = 1 / (1 + np.exp(-t)); omy = 1 / (1 + np.exp(t))
        keep = (yy > 1e-15) & (omy > 1e-15)
        t, yy, omy = t[keep], yy[keep], omy[keep]
        dens = np.array([np.exp(float(p.log_likelihood((np.array([q]), np.array([0])), np.array([f])))) for q in yy[::4]])
        w = yy[::4] * omy[::4] * (t[4] - t[0])
        mon.close(np.sum(dens * w), 1.0, 'abs_normalised', rtol=0, atol=2e-3, f=f, sigma=s, v=v)
        mon.close(np.sum(dens * w * yy[::4]), ndtr(f / (np.sqrt(2) * s)), 'abs_mean', rtol=0, atol=2e-3, f=f, sigma=s, v=v)
        q = float(rng.uniform(0.05, 0.95))
        c = float(np.asarray(p.cdf(np.array([q]), np.array([f])))[0])
        mon.close(c, np.sum((dens * w)[yy[::4] <= q]), 'abs_cdf', rtol=0, atol=0.03 + 2 * np.max(dens * w), f=f, sigma=s, v=v, q=q)
        c2 = float(np.asarray(p.cdf(np.array([q]), np.array([f + 0.2 * s])))[0])
        mon.check(c2 <= c + 1e-9, 'abs_stochastic_order', 'raising the latent value made lower ratings more likely', f=f, q=q)
        mon.event('abs_quadrature')
    m1 = np.asarray(p.mean_link(np.sort(F)))
    mon.check(bool((np.diff(m1) >= -1e-12).all() and (m1 > 0).all() and (m1 < 1).all()), 'abs_mean_link', 'mean link not monotone in (0,1)', F=F)
    if np.ptp(F) > 0:
        mon.nontrivial(F, y, s, v)
        mon.sample(dict(F=F, y=y, sigma=s, v=v, loglik=ll))


def ordi(rng, mon, tier, idx):
    wide = bool(rng.rand() < 0.3)
    p, y, F, s, b, k = pgen.ord_case(rng, wide=wide)
    n = len(F)
    probs = np.array([np.asarray(p.likelihood_each((np.full(n, r), np.arange(n)), F)) for r in range(1, k + 1)])
    mon.check(probs.shape == (k, n), 'ord_shape', 'one probability per item expected')
    mon.check(bool((probs >= -1e-12).all()), 'ord_nonneg', 'negative level probability', probs=probs, F=F)
    mon.close(probs.sum(axis=0), np.ones(n), 'ord_sum_to_one', rtol=0, atol=1e-9, F=F, b=b, sigma=s)
    want = np.array([ndtr((b[r] - F) / s) - ndtr((b[r - 1] - F) / s) for r in range(1, k + 1)])
    mon.close(probs, want, 'ord_formula', rtol=1e-7, atol=1e-10, F=F, b=b, sigma=s)
    lev = np.arange(1, k + 1) @ probs
    o = np.argsort(F)
    mon.check(bool((np.diff(lev[o]) >= -1e-9).all()), 'ord_monotone', 'expected level decreases with the latent value', F=F, lev=lev)
    ll = float(p.log_likelihood(y, F))
    mon.check(np.isfinite(ll), 'ord_loglik_finite', 'log-likelihood %r' % ll, F=F, y=y, b=b, sigma=s)
    each = probs[y[0] - 1, y[1]]
    if (each > 1e-8).all():
        mon.close(ll, np.sum(ref.ord_ll(y[0], F[y[1]], s, b)), 'ord_loglik_formula', rtol=1e-6, atol=1e-6, F=F, y=y, b=b, sigma=s)
        mon.close(sum(float(p.log_likelihood((y[0][j:j + 1], y[1][j:j + 1]), F)) for j in range(len(y[0]))), ll, 'ord_additive', rtol=1e-8, atol=1e-8)
    q = rng.permutation(len(y[0]))
    mon.close(p.log_likelihood((y[0][q], y[1][q]), F), ll, 'ord_order_free', rtol=1e-9, atol=1e-9)
    if np.ptp(F) > 0:
        mon.nontrivial(F, y, s, b)
        mon.sample(dict(F=F, y=y, sigma=s, b=b[1:-1], loglik=ll))


def levels(rng, mon, tier, idx):
    """the number of levels of a model's ordinal likelihood can be chosen"""
    k, n = int(rng.randint(2, 10)), int(rng.randint(1, 6))
    m = lop.PreferenceGP(lop.RBF_kern(1.0, 1.0)) if rng.rand() < .5 else lop.PreferenceLinear()
    m.set_num_ordinals(k)
    p = m.probits[m.probit_idxs['ordinal']]
    F = rng.randn(n) * rng.choice([.5, 2, 6])
    probs = np.array([np.asarray(p.likelihood_each((np.full(n, r), np.arange(n)), F)) for r in range(1, k + 1)])
    mon.check(probs.shape == (k, n) and bool((probs >= -1e-12).all()), 'levels_shape', 'one probability per level and item expected', k=k)
    mon.close(probs.sum(axis=0), np.ones(n), 'levels_sum_to_one', rtol=0, atol=1e-9, F=F, k=k)
    if k > 2:
        at0 = np.array([np.asarray(p.likelihood_each((np.array([r]), np.array([0])), np.array([f])))[0] for f in (-40., 40.) for r in (1, k)])
        mon.check(at0[0] > .99 and at0[3] > .99, 'levels_extremes', 'the lowest / highest of %d levels is not certain for extreme latent values' % k, got=at0, k=k)
    mon.event('levels:%d' % k)
    if np.ptp(F) > 0:
        mon.nontrivial(k, F)


def big(rng, mon, tier, idx):
    """many labels: sums of logs must not underflow"""
    n, m = 60, int(rng.randint(800, 2500))
    F = rng.uniform(-0.5, 1.5, n)
    idx = rng.randint(0, n, m)
    p = lop.OrdinalProbit(sigma=0.7, b=2.0)
    r = rng.randint(1, 6, m)
    b = np.hstack(([-np.inf], np.linspace(0, 2.0, 4), [np.inf]))
    mon.close(p.log_likelihood((r, idx), F), np.sum(ref.ord_ll(r, F[idx], 0.7, b)), 'many_ord', rtol=1e-6, atol=1e-6)
    p = lop.AbsBoundProbit(sigma=1.0, v=20.0)
    v = rng.uniform(0.01, 0.99, m)
    mon.close(p.log_likelihood((v, idx), F), np.sum(ref.abs_ll(v, F[idx], 1.0, 20.0)), 'many_abs', rtol=1e-6, atol=1e-6)
    p = lop.PreferenceProbit(sigma=0.6)
    y = np.array([(rng.choice([-1, 1]), a, (a + 1 + rng.randint(n - 1)) % n) for a in idx])
    mon.close(p.log_likelihood(y, F), np.sum(ref.pair_ll(y[:, 0], F[y[:, 1]], F[y[:, 2]], 0.6)), 'many_pair', rtol=1e-6, atol=1e-6)
    mon.nontrivial(m, F[:3])
    mon.sample(dict(labels=m, items=n))


GROUPS = [Group('pairwise', pref, 600, 20000), Group('absolute', absb, 240, 4000, require=['abs_quadrature']),
          Group('ordinal', ordi, 600, 20000), Group('levels', levels, 100, 2000, require=('levels:3', 'levels:7')), Group('many_labels', big, 24, 400)]
