"""C05: finite predictions, independent of batching."""
import numpy as np
import lop
from harness.core import Group
from harness import gen, mgen

RULE = ('fitted models (three kinds, every feedback mix, repeated items, contradictory or unanimous labels, near-duplicate and '
        'far-away queries); the same points are predicted together, alone, shuffled, in random splits, through __call__ and '
        'predict_large; distinct by model, feedback mix and query size')
ASSUMPTIONS = ['queries are not exactly the whole training set (known finding)', 'periodic kernels only on at most one feature (C08 known finding)']
TECHNIQUE = 'runtime monitoring: metamorphic batching/permutation monitor with finiteness assertions on fitted models'


def build(rng, large=False):
    kind = ('pgp', 'pgp', 'lin', 'gp')[rng.randint(4)]
    d = int(rng.randint(0, 4)) if kind != 'lin' else int(rng.randint(2, 5))
    kinds = ('rbf', 'lin', 'rbf+lin', 'rbf+rbf') + (('per', 'rbf*per') if d <= 1 else ())
    k, kn = gen.kernel(rng, lop, kinds)
    X = gen.items(rng, int(rng.randint(2, 8) if not large else rng.randint(25, 50)), d)
    if rng.rand() < .25:
        X = np.concatenate([X, X[:2] + (0 if rng.rand() < .5 else 1e-9)])
    if kind == 'gp':
        m = lop.GP(k)
        m.add(X, rng.randn(len(X)), training_sigma=float(rng.choice([0.001, 0.1])))
        return m, (kind, kn, d, 'values'), d
    m = lop.PreferenceLinear() if kind == 'lin' else lop.PreferenceGP(k, **[{}, {}, dict(normalize_gp=True), dict(normalize_gp=True, normalize_positive=True)][rng.randint(4)])
    fk = mgen.random_kinds(rng)
    mode = rng.rand()
    if rng.rand() < .25:
        mgen.overlay(rng, m, X, fk, 0.0 if mode < .5 else .4)
        fk = fk + ('same items',)
    for t in fk if fk[-1] != 'same items' else ():
        fb, _ = mgen.feedback(rng, X, (t,), noise=0.0 if mode < .5 else 0.4)
        for pos, y, ty in fb:
            m.add(X[pos], y, type=ty)
    if rng.rand() < .15:
        m.add(gen.items(rng, 2, d), [(int(rng.choice([-1, 1])), 0, 1)] * int(rng.randint(5, 60)))
    return m, (kind, kn if kind == 'pgp' else '', d, fk), d


def case(rng, mon, tier, idx):
    large = idx % 40 == 9
    m, desc, d = build(rng, large and rng.rand() < .5)
    mon.op('model', desc)
    n = int(rng.choice([1, 2, 5, 14, 15, 16, 29, 30, 31, 46] if not large else [100, 151, 225, 256]))
    Q = gen.items(rng, n, d, 3.5)
    if n > 3 and rng.rand() < .4:
        Q[1] = Q[0]
        Q[2] = m.X_train[0]
    if rng.rand() < .1:
        Q[0] = Q[0] * 1e3
    mu, var = m.predict(Q)
    kw = dict(model=desc, n=n)
    mu = np.array(mu)
    mon.check(mu.shape == (n,), 'mean_shape', 'mean has shape %r for %d points' % (mu.shape, n), **kw)
    mon.check(bool(np.all(np.isfinite(mu))), 'mean_not_finite', 'mean %r' % mu, **kw)
    has_var = desc[0] != 'lin'
    if has_var:
        var = np.array(var)
        mon.check(var.shape == (n,) and bool(np.all(np.isfinite(var)) and np.all(var >= 0)), 'variance_invalid', 'variance %r' % var, **kw)
        C = np.array(m.cov)
        mon.check(C.shape == (n, n), 'cov_shape', 'covariance shape %r' % (C.shape,), **kw)
    if not (mu.shape == (n,) and np.all(np.isfinite(mu))):
        return
    K = None if desc[0] == 'lin' else np.asarray(m.cov_func.cov(Q, Q))
    cond = 1.0 if K is None or m.X_train is None else np.linalg.cond(np.asarray(m.cov_func.cov(m.X_train, m.X_train)) + 1e-5 * np.eye(len(m.X_train)))
    scale = 1 + np.max(np.abs(mu)) + (0 if K is None else np.max(np.abs(K)))
    # rounding only: the same fitted state gives the same numbers up to summation order
    tol = scale * max(1e-9, 1e-14 * cond)
    want = dict(mean=mu, var=var)

    def compare(ix, got, mech):
        a, b = got
        mon.close(a, mu[ix], mech + '_mean', 1e-6, tol, 'mean depends on the batch', **kw)
        if has_var:
            mon.close(b, var[ix], mech + '_variance', 1e-6, tol, 'variance depends on the batch', **kw)
        mon.event(mech)

    p = rng.permutation(n)
    compare(p, m.predict(Q[p]), 'permuted')
    if has_var:
        mon.close(np.array(m.cov), C[np.ix_(p, p)], 'permuted_cov', 1e-6, tol, 'covariance does not follow the permutation', **kw)
    i = int(rng.randint(n))
    compare(np.array([i]), m.predict(Q[i:i + 1]), 'single')
    cut = int(rng.randint(0, n))
    if cut:
        compare(np.arange(cut), m.predict(Q[:cut]), 'split')
        compare(np.arange(cut, n), m.predict(Q[cut:]), 'split')
    ext = np.concatenate([Q, gen.items(rng, 3, d, 3.5)])
    g = m.predict(ext)
    compare(np.arange(n), (g[0][:n], None if g[1] is None else g[1][:n]), 'extended')
    compare(np.arange(n), m.predict_large(Q), 'large')
    mon.close(m(Q), mu, 'call', 1e-6, tol, 'call-style prediction differs', **kw)
    b = m.select_best(Q)
    mon.check(0 <= int(b) < n and mu[int(b)] >= np.max(mu) - tol, 'best', 'select_best gives %r, best is %d' % (b, int(np.argmax(mu))), **kw)
    if large:
        mon.event('many')
    mon.nontrivial(desc, n, mu[0])
    mon.sample(dict(model=desc, n=n, mean=mu[:3]))


def stored_as(rng, Q):
    """the same numbers in another array"""
    out = [('fortran', np.asfortranarray(Q)), ('strided', np.repeat(Q, 2, axis=0)[::2]), ('reversed', np.array(Q[::-1])[::-1])]
    if Q.ndim == 2:
        out.append(('columns', np.concatenate([Q, Q], axis=1)[:, :Q.shape[1]]))
    ro = Q.copy()
    ro.setflags(write=False)
    out.append(('read-only', ro))
    if np.all(Q == np.round(Q)):
        out += [('int64', Q.astype(np.int64)), ('int32', Q.astype(np.int32)), ('int', Q.astype(int))]
        if np.max(np.abs(Q)) < 100:
            out += [('float32', Q.astype(np.float32))]
    return out


def representation(rng, mon, tier, idx):
    """the same numbers held in another kind of array (whole numbers as integers, views, column order) mean the same"""
    kind = ('pgp', 'lin', 'gp')[rng.randint(3)]
    d = int(rng.randint(0, 4)) if kind != 'lin' else int(rng.randint(2, 5))
    kn = gen.kernel(np.random.RandomState(idx), lop, ('rbf', 'lin', 'rbf+lin') + (('per', 'rbf*per') if d <= 1 else ()))[1]
    ks = int(rng.randint(1 << 30))
    n = int(rng.randint(4, 9))
    whole = bool(rng.rand() < .7)
    X = gen.items(rng, n, d)
    if whole:
        X = np.round(X * 4)
        X = X[np.sort(np.unique(X, axis=0, return_index=True)[1])]
        n = len(X)
        if n < 3:
            return
    Q = np.round(gen.items(rng, 5, d, 14.0)) if whole else gen.items(rng, 5, d)
    y = gen.pairs_for(rng, n, 5) if kind != 'gp' else rng.randn(n)
    extra = rng.rand() < .5 and kind != 'gp'
    v = rng.uniform(.1, .9, n)
    seed = int(rng.randint(1 << 30))

    def fit(A, q):
        k = gen.kernel(np.random.RandomState(ks), lop, (kn,))[0]
        np.random.seed(seed)
        m = lop.GP(k) if kind == 'gp' else lop.PreferenceLinear() if kind == 'lin' else lop.PreferenceGP(k)
        if kind == 'gp':
            m.add(A, y, training_sigma=.1)
        else:
            m.add(A, list(y))
            if extra:
                m.add(A, v.copy(), type='abs')
        return m, m.predict(q)
    m, (mu, var) = fit(X.copy(), Q.copy())
    kw = dict(model=(kind, kn, d), whole=whole)
    mu, var = np.array(mu), None if var is None else np.array(var)
    C = None if var is None else np.array(m.cov)
    K = np.eye(1) if kind == 'lin' else np.asarray(m.cov_func.cov(m.X_train, m.X_train)) + 1e-5 * np.eye(len(m.X_train))
    tol = 1e-8 * (1 + np.max(np.abs(mu)) + (0 if C is None else np.max(np.abs(C)))) * max(1, 1e-6 * np.linalg.cond(K))

    def same(got, name, rt=1e-6):
        mon.close(got[0], mu, 'array_kind_mean', rt, tol, 'mean depends on how the array is stored: ' + name, **kw)
        if var is not None:
            mon.close(got[1], var, 'array_kind_variance', rt, tol, 'variance depends on how the array is stored: ' + name, **kw)
        mon.event('as ' + name)
    for name, A in stored_as(rng, Q):
        # single precision loses digits inside the kernels, and is the caller's choice
        if name == 'float32' and kind != 'lin':
            continue
        ok, g = mon.lib('query as ' + name, m.predict, A)
        if ok:
            same(g, 'query ' + name)
            mon.close(m.predict_large(A)[0], mu, 'array_kind_large', 1e-6, tol, 'large prediction of ' + name, **kw)
    for name, A in stored_as(rng, X):
        if name == 'float32':
            continue
        ok, g = mon.lib('items as ' + name, fit, A, Q.copy())
        if ok and name in ('int64', 'int32', 'int', 'read-only'):
            same(g[1], 'items ' + name, 1e-5)
        elif ok:              # another summation order may end an ill-determined fit elsewhere
            mon.close(g[0].X_train, m.X_train, 'array_kind_items', 0, 0, 'stored items depend on how the array is stored: ' + name, **kw)
    mon.nontrivial(kind, kn, d, whole, mu[0])


def training_set(rng, mon, tier, idx):
    """query that is exactly the training set"""
    gp = lop.GP(lop.RBF_kern(1.0, 1.0))
    X = np.array([0.0, 1.0, 2.5])
    gp.add(X, np.array([1.0, -1.0, 0.5]), training_sigma=0.1)
    a = gp.predict(X)[0]
    b = np.array([gp.predict(X[i:i + 1])[0][0] for i in range(3)])
    mon.close(a, b, 'rbf_noise_cross_cov_training_set', 1e-6, 1e-6, 'predicting the whole training set at once differs from one by one')
    mon.nontrivial(idx)


GROUPS = [Group('batching', case, 1600, 15000, require=['permuted', 'single', 'split', 'large', 'extended', 'many']),
          Group('representation', representation, 300, 4000, require=['as query int64', 'as items int32', 'as query fortran', 'as items read-only']),
          Group('training_set', training_set, 1, 1)]
