"""C25: reward test functions: purity, batch consistency, documented shape."""
import numpy as np
import lop
from scipy.stats import multivariate_normal
from harness.core import Group

# every case takes milliseconds
HANG = 25
TECHNIQUE = 'runtime monitor: purity and batch-consistency assertions, reference formulas'
RULE = ('all reward functions, 1-6 features, random parameters, batches of 1-30 rows and batches of queries; '
        'non-trivial = a batch of at least two different rows; distinct by function, parameters and batch')

ND = ['FakeLinear', 'FakeSquared', 'FakeLogistic', 'FakeWeightedMax', 'FakeWeightedMin', 'FakeSquaredMinMax',
      'FakeSinExp', 'FakeMixtureGaussian', 'FakeMinLog']
MONOTONE = ['FakeLinear', 'FakeSquared', 'FakeLogistic', 'FakeWeightedMax', 'FakeWeightedMin', 'FakeSquaredMinMax', 'FakeMinLog']


def build(rng, name, d):
    if name == 'FakeStaticSin':
        return lop.FakeStaticSin()
    if name == 'FakeMinLog':
        return lop.FakeMinLog(d) if rng.rand() < 0.4 else lop.FakeMinLog(d, alpha=float(rng.rand()))
    return getattr(lop, name)(d)


def reference(f, name, R):
    """independent evaluation on rows (n, d)"""
    if name == 'FakeStaticSin':
        x = 10 - R[:, 0]
        return 2 * np.cos(np.pi * (x - 2) / 3.0) * np.exp(-0.99 * x)
    if name == 'FakeMinLog':
        return f.alpha * reference(f.min, 'FakeWeightedMin', R) + (1 - f.alpha) * reference(f.logistic, 'FakeLogistic', R)
    if name == 'FakeMixtureGaussian':
        out = np.zeros(len(R))
        for m, s in zip(f.means, f.sigs):
            out += np.exp(-0.5 * np.sum((R - m) ** 2 / s, axis=1)) / np.sqrt(np.prod(2 * np.pi * s))
        return out
    w = f.w
    v = R * w
    if name == 'FakeLinear':
        return v.sum(axis=1)
    if name == 'FakeSquared':
        return (R * v).sum(axis=1)
    if name == 'FakeLogistic':
        x = v.sum(axis=1) - (f.M if R.shape[1] > 1 else 0.0)
        return 1.0 / (1.0 + f.Q * np.exp(-x / f.v))
    if name == 'FakeWeightedMax':
        return v.max(axis=1)
    if name == 'FakeWeightedMin':
        return v.min(axis=1)
    if name == 'FakeSquaredMinMax':
        return np.sqrt(v.max(axis=1)) + v.min(axis=1) ** 2 if R.shape[1] > 1 else v[:, 0]
    if name == 'FakeSinExp':
        return np.sin((R * f.k).sum(axis=1) + f.phase) * np.exp(-v.sum(axis=1))


def params(f):
    out = {}
    for k, v in vars(f).items():
        out[k] = params(v) if hasattr(v, 'calc') else np.array(v, copy=True).tolist()
    return out


def case(rng, mon, tier, idx):
    name = (ND + ['FakeStaticSin'])[idx % 10]
    d = 1 if name == 'FakeStaticSin' else int(rng.randint(1, 7)) if rng.rand() > .05 else int(rng.randint(7, 25))
    f = build(rng, name, d)
    n = int(rng.choice([1, 2, 3, 8, 30])) if idx % 50 != 17 else int(rng.randint(100, 2500))
    if n > 30:
        mon.event('large_batches')
    R = rng.rand(n, d) * float(rng.choice([1, 3, 10]))
    if name in ('FakeLinear', 'FakeLogistic', 'FakeWeightedMax', 'FakeWeightedMin', 'FakeSquared', 'FakeMinLog') and rng.rand() < 0.3:
        R = rng.randn(n, d) * 3
    if n > 2 and rng.rand() < 0.3:
        R[1] = R[0]
    arg = R[:, 0].copy() if d == 1 else R.copy()          # single-feature items are given as a vector
    keep = arg.copy()
    p0 = params(f)
    want = reference(f, name, R)
    sc = 1e-9 * (1 + np.max(np.abs(want)))
    mon.op(name, d, n)
    call = (lambda x: f(x)) if rng.rand() < 0.5 else (lambda x: f(x, data=None) if rng.rand() < 0.5 else f.calc(x))
    got = np.asarray(call(arg))
    mon.check(np.array_equal(arg, keep), 'argument_modified', name + ' changed its input')
    if not mon.check(got.shape == (n,), 'one_value_per_row', '%s: shape %s for %d items of %d features' % (name, got.shape, n, d), params=p0):
        return
    mon.close(got, want, 'formula', rtol=1e-8, atol=sc, msg=name, params=p0, items=R)
    for i in range(n) if n < 31 else rng.randint(0, n, 20):
        one = f(float(arg[i])) if d == 1 else f(arg[i])
        mon.check(np.ndim(one) == 0, 'single_is_scalar', '%s: value %r for a single item' % (name, one), params=p0)
        if np.ndim(one) == 0:
            mon.close(one, got[i], 'alone_as_batch', rtol=1e-9, atol=sc, msg=name, params=p0, item=arg[i])
        else:
            break
    perm = rng.permutation(n)
    mon.close(f(arg[perm]), got[perm], 'permutation', rtol=1e-9, atol=sc, msg=name, params=p0)
    other = build(rng, name, d)                              # another instance and other items in between
    other(arg)
    f(arg[:1] + 0.5)
    mon.close(f(arg), got, 'repeatable', rtol=0, atol=0, msg=name, params=p0)
    mon.check(params(f) == p0, 'parameters_changed', name + ' changed its parameters when evaluated')
    if d > 1:                                              # batches of queries, as the synthetic users pass them
        q = int(rng.randint(2, 4))
        idxs = rng.randint(0, n, (int(rng.randint(1, 6)) if n < 31 else 300, q))
        G = np.asarray(f(arg[idxs]))
        if mon.check(G.shape == idxs.shape, 'query_batch_shape', '%s: shape %s for queries %s' % (name, G.shape, idxs.shape), params=p0):
            mon.close(G, got[idxs], 'query_batch', rtol=1e-9, atol=sc, msg=name, params=p0)
            mon.event('query_batches')
    elif name in ('FakeLinear', 'FakeSquared', 'FakeLogistic', 'FakeSinExp', 'FakeWeightedMax', 'FakeWeightedMin', 'FakeSquaredMinMax', 'FakeMinLog'):
        mon.close(np.asarray(f(arg.tolist())), got, 'list_input', rtol=1e-9, atol=sc, msg=name, params=p0)
        mon.event('lists')
    if n > 1:
        mon.nontrivial(name, p0, R)
    mon.event('fn:' + name)
    mon.sample(dict(function=name, d=d, n=n))


def shape(rng, mon, tier, idx):
    """monotone, bounded, linear"""
    name = MONOTONE[idx % len(MONOTONE)]
    d = int(rng.randint(1, 6))
    f = build(rng, name, d)
    a = rng.rand(30, d) * 3
    b = a + rng.rand(30, d) * (rng.rand(30, d) < 0.5)
    A, B = (a[:, 0], b[:, 0]) if d == 1 else (a, b)
    fa, fb = np.asarray(f(A)), np.asarray(f(B))
    mon.op(name, d)
    mon.check((fb >= fa - 1e-12).all(), 'monotone', '%s decreased from %r to %r' % (name, fa[np.argmin(fb - fa)], fb[np.argmin(fb - fa)]), params=params(f))
    if name == 'FakeLogistic':
        far = rng.randn(20, d) * 2000
        v = np.asarray(f(far[:, 0] if d == 1 else far))
        mon.check((v >= 0).all() and (v <= 1).all(), 'bounded', 'logistic value outside [0, 1]: %s' % v.tolist())
        mon.event('bounded')
    if name == 'FakeLinear':
        s, t = rng.randn(2)
        mon.close(f(s * A + t * B), s * fa + t * fb, 'linear', rtol=1e-9, atol=1e-9)
        mon.check(abs(np.sum(f.w) - 1) < 1e-9 and (f.w >= 0).all(), 'weights', 'weights %s' % f.w)
    mon.event('shape:' + name)
    mon.nontrivial(name, params(f))


def randomize(rng, mon, tier, idx):
    """drawing new parameters gives a valid function of the same dimension, and never touches another instance"""
    name = ND[idx % len(ND)]
    d = int(rng.randint(2, 6))
    f, g = build(rng, name, d), build(rng, name, d)
    R = rng.rand(6, d) * 2
    gv = np.asarray(g(R))
    pg, pf = params(g), params(f)
    f.randomize()
    mon.op('randomize', name)
    mon.check(params(g) == pg and np.array_equal(np.asarray(g(R)), gv), 'shared_parameters', name + ': randomize changed another instance')
    got = np.asarray(f(R))
    mon.check(got.shape == (6,) and np.isfinite(got).all(), 'randomized_values', '%s: %s' % (name, got))
    mon.close(got, reference(f, name, R), 'randomized_formula', rtol=1e-8, atol=1e-9, msg=name)
    mon.check(params(f) != pf, 'randomized', name + ': randomize left the function as it was')
    mon.event('randomized')
    mon.nontrivial('rnd', name, params(f))


GROUPS = [
    Group('functions', case, 7500, 60000, require=tuple('fn:' + n for n in ND + ['FakeStaticSin']) + ('query_batches', 'lists', 'large_batches')),
    Group('shape', shape, 1750, 14000, require=tuple('shape:' + n for n in MONOTONE) + ('bounded',)),
    Group('randomize', randomize, 900, 9000, require=('randomized',)),
]
