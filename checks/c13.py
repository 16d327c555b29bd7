"""C13: parameter and third-order derivatives of the likelihoods versus finite differences of verified lower-order quantities."""
import copy
import numpy as np
import lop
from harness.core import Group
from harness import pgen, ref

# every case takes milliseconds
HANG = 25
RULE = ('random latent vectors, label multisets and parameters; grad_hyper vs differences of reference log-likelihood, '
        'curvature derivatives vs differences of the reported curvature (which C12 compares with the likelihood); distinct by case content')


def W_of(p, y, F):
    return np.asarray(p.derivatives(y, F)[0])


def third(mon, kind, p, y, F, scale):
    n = len(F)
    got = np.asarray(p.calc_W_dF(y, F))
    if not mon.check(got.shape == (n, n, n), kind + '_dW_dF_shape', 'shape %s' % (got.shape,)):
        return
    h = 1e-3 * scale
    want = ref.num_grad(lambda x: W_of(p, y, x), F, h)      # [k, i, j] = dW_ij / dF_k
    ws = 1.0 + np.max(np.abs(want))
    # third derivatives of a log-likelihood are symmetric in all indices, so the axis order does not matter
    mon.close(got, want, kind + '_dW_dF', rtol=1e-4, atol=1e-4 * ws, F=F, y=y, scale=scale)


def priors(mon, kind, p, get, setp):
    x0 = np.array(p.get_hyper(), dtype=float)
    g = np.asarray(p.grad_param_likli(), dtype=float)
    mon.check(g.shape == x0.shape, kind + '_prior_shape', 'prior gradient has %s entries for %s parameters' % (g.shape, x0.shape))
    q = copy.deepcopy(p)

    def f(x):
        q.set_hyper(x)
        return float(q.param_likli())
    if len(x0):
        mon.close(g, ref.num_grad(f, x0, 1e-4 * np.min(x0)), kind + '_prior_gradient', rtol=1e-5, atol=1e-5, x=x0)


def hyper(mon, kind, p, y, F, llfun):
    """llfun(params, F) reference log-likelihood as a function of the parameter vector"""
    x0 = np.array(p.get_hyper(), dtype=float)
    g = np.asarray(p.grad_hyper(y, F), dtype=float)
    mon.check(g.shape == x0.shape, kind + '_grad_hyper_shape', '%s entries for %s parameters' % (g.shape, x0.shape))
    h = 1e-3 * np.min(x0)
    want = ref.num_grad(lambda x: llfun(x, F), x0, h)
    mon.close(g, want, kind + '_grad_hyper', rtol=1e-5, atol=1e-6 * (1 + np.max(np.abs(want))), F=F, y=y, params=x0)
    q = copy.deepcopy(p)

    def Wp(x):
        q.set_hyper(x)
        return W_of(q, y, F)
    want = ref.num_grad(Wp, x0, h)
    got = np.asarray(p.calc_W_dHyper(y, F), dtype=float)
    ws = 1.0 + np.max(np.abs(want))
    mon.close(got, want, kind + '_dW_dHyper', rtol=1e-4, atol=1e-5 * ws, F=F, y=y, params=x0)
    mon.check(np.array_equal(x0, p.get_hyper()), kind + '_params_unchanged', 'evaluating derivatives changed the parameters')


def size(rng, idx):
    return int(rng.randint(12, 45)) if idx % 60 == 7 else None


def pref(rng, mon, tier, idx):
    p, y, F, s = pgen.pref_case(rng, size=size(rng, idx))
    z = y[:, 0] * (F[y[:, 2]] - F[y[:, 1]]) / s
    if (np.abs(z) > 12).any():
        F = F / 3
    third(mon, 'pair', p, y, F, s)
    hyper(mon, 'pair', p, y, F, lambda x, f: np.sum(ref.pair_ll(y[:, 0], f[y[:, 1]], f[y[:, 2]], x[0])))
    priors(mon, 'pair', p, None, None)
    if rng.rand() < 0.2:
        q = lop.PreferenceProbit(sigma=s, optimize_parameters=False)
        mon.check(len(q.get_hyper()) == len(q.grad_hyper(y, F)) == len(q.grad_param_likli()) == 0, 'pair_fixed', 'fixed parameters must have no gradient entries')
    mon.nontrivial('pair', F, y, s)
    mon.sample(dict(kind='pair', F=F, y=y, sigma=s))


def absb(rng, mon, tier, idx):
    vo = bool(rng.rand() < 0.5)
    p, y, F, s, v = pgen.abs_case(rng, v_only=vo, size=size(rng, idx))
    F = np.clip(F, -2.5 * s, 2.5 * s)
    third(mon, 'abs', p, y, F, s)
    if vo:
        ll = lambda x, f: np.sum(ref.abs_ll(y[0], f[y[1]], s, x[0]))
    else:
        ll = lambda x, f: np.sum(ref.abs_ll(y[0], f[y[1]], x[0], x[1]))
    hyper(mon, 'abs', p, y, F, ll)
    priors(mon, 'abs', p, None, None)
    mon.nontrivial('abs', F, y, s, v, vo)
    mon.sample(dict(kind='abs', F=F, y=y, sigma=s, v=v, v_only=vo))


def units(rng, mon, tier, idx):
    """latent values and width in other units (a power of two): every derivative scales with its power of the unit"""
    c = 2.0 ** int(rng.choice([-1, 1]) * rng.randint(2, 20))
    kind = ('pair', 'abs')[idx % 2]
    wide = bool(rng.rand() < .3)
    if kind == 'pair':
        p, y, F, s = pgen.pref_case(rng, wide=wide)
        q = lop.PreferenceProbit(sigma=s * c)
        pw = [1]
    else:
        vo = bool(rng.rand() < .5)
        p, y, F, s, v = pgen.abs_case(rng, v_only=vo, wide=wide)
        q = lop.AbsBoundProbit(sigma=s * c, v=v, optimize_v_only=vo)
        pw = [0] if vo else [1, 0]
    kw = dict(F=F, y=y, sigma=s, unit=c)

    def both(a, b, k, nm):
        a, b = np.asarray(a), np.asarray(b) * c ** k
        mon.close(b, a, kind + '_units_' + nm, 1e-8, 1e-9 * (1 + np.max(np.abs(a))) if np.all(np.isfinite(a)) else 0, **kw)
    both(p.calc_W_dF(y, F), q.calc_W_dF(y, c * F), 3, 'dW_dF')
    g, g2, W, W2 = p.grad_hyper(y, F), q.grad_hyper(y, c * F), p.calc_W_dHyper(y, F), q.calc_W_dHyper(y, c * F)
    for r, k in enumerate(pw):
        both(g[r], g2[r], k, 'grad_hyper')
        both(W[r], W2[r], k + 2, 'dW_dHyper')
    mon.event('units')
    if np.ptp(F) > 0:
        mon.nontrivial(kind, F, y, c)
        mon.sample(dict(kind=kind, unit=c, F=F))


GROUPS = [Group('units', units, 900, 9000, require=['units']), Group('pairwise', pref, 900, 6000), Group('absolute', absb, 1200, 6000)]
