"""C24: generated comparisons versus the values or choice they encode."""
import numpy as np
import lop
from collections import Counter
from harness.core import Group
from harness import gen

# every case takes milliseconds
HANG = 25
TECHNIQUE = 'runtime monitor: decoding oracle over generated comparisons'
RULE = ('random value vectors (continuous, tied, huge, nearly equal; 1-40 items), chosen indices and candidate lists; '
        'non-trivial = at least three items with distinct values; distinct by values')


def values(rng, n):
    k = rng.randint(8)
    if k == 0:
        return rng.randn(n)
    if k == 6:                                           # scores in the small types they are stored in
        t = [np.uint8, np.int8, np.uint16, np.int16, np.uint64, np.int64, np.float16, np.float32][rng.randint(8)]
        if np.dtype(t).kind == 'f':
            return (rng.randn(n) * 1e4).astype(t)
        lo, hi = np.iinfo(t).min, np.iinfo(t).max
        return np.array([lo, hi, lo // 2, hi // 2, hi - 1, lo + 1, 0, 3], dtype=t)[rng.randint(0, 8, n)] if rng.rand() < .6 else rng.randint(0, 100, n).astype(t)
    if k == 7:                                           # a value can be unbounded
        return rng.choice([-np.inf, np.inf, 0.0, -0.0, 1.0, -1e308, 1e308, 5e-324], n)
    if k == 1:
        return rng.randint(0, 4, n).astype(float)
    if k == 2:
        return rng.randint(0, 50, n)
    if k == 3:
        return rng.randn(n) * 10.0 ** rng.randint(-9, 12)
    if k == 4:
        return 1e6 + rng.permutation(n) * 1e-9 * 1e6
    return np.sort(rng.randn(n))[::rng.choice([-1, 1])]


def decode(p):
    """(preferred, other)"""
    d, a, b = p
    return (a, b) if d == -1 else (b, a)


def check_pairs(mon, pairs, n, want_pairs, vals, mech, ties='any'):
    if not mon.check(pairs is not None and len(pairs) == len(want_pairs), mech + ':count', '%s pairs, expected %d' % (None if pairs is None else len(pairs), len(want_pairs)), values=vals):
        return
    cov = Counter()
    for p in pairs:
        if not mon.check(len(p) == 3 and p[0] in (-1, 1) and all(int(i) == i and 0 <= i < n for i in p[1:]) and p[1] != p[2], mech + ':valid', 'pair %s of %d items' % (p, n), values=vals):
            return
        cov[tuple(sorted((int(p[1]), int(p[2]))))] += 1
        w, l = decode(p)
        mon.check(vals[w] >= vals[l], mech + ':direction', 'pair %s prefers the item with the lower value' % (tuple(p),), values=vals)
    mon.check(cov == Counter(want_pairs), mech + ':coverage', 'pairs covered %s' % dict(cov - Counter(want_pairs)), values=vals)


def dk(rng, mon, tier, idx):
    for _ in range(40):
        u, v = values(rng, 2)
        a, b = lop.get_dk(u, v), lop.get_dk(v, u)
        mon.check(a in (-1, 1) and b in (-1, 1), 'dk_code', 'codes %r %r' % (a, b))
        if u != v:
            mon.check(a == -b, 'dk_antisymmetric', 'codes %r %r for %r %r' % (a, b, u, v))
            mon.check((a == -1) == (u > v), 'dk_direction', 'code %r for %r %r' % (a, u, v))
            mon.event('untied')
    for bad in ([1.0], np.array([1.0, 2.0]), (1,)):
        for args in ((bad, 1.0), (1.0, bad)):
            try:
                lop.get_dk(*args)
                mon.fail('dk_scalar_only', 'accepted %r' % (args,))
            except TypeError:
                mon.event('rejected')
    i, j = int(rng.randint(30)), int(rng.randint(30))
    p = lop.preference(i, j)
    mon.check(tuple(p) == (lop.get_dk(1, 0), i, j) and decode(p) == (i, j), 'preference_direction', '%s' % (p,))
    mon.nontrivial(i, j, idx)


def from_idx(rng, mon, tier, idx):
    n = int(rng.randint(1, 25)) if rng.rand() < .85 else int(rng.randint(200, 1200))
    best = int(rng.randint(n))
    ids = rng.permutation(n)[:int(rng.randint(0, n + 1))].tolist()
    form = [ids, np.array(ids, int), tuple(ids), range(n)][rng.randint(4)]
    pool = list(form)
    mon.op('gen_pairs_from_idx', best, pool)
    pairs = lop.gen_pairs_from_idx(best, form)
    mon.check(list(form) == pool, 'argument_modified', 'index list changed')
    got = Counter((int(p[0]), int(p[1]), int(p[2])) for p in pairs)
    mon.check(all(decode(p)[0] == best for p in pairs), 'best_preferred', '%s for best %d' % (pairs[:3], best))
    mon.check(Counter(int(decode(p)[1]) for p in pairs) == Counter(i for i in pool if i != best), 'idx_coverage', '%s for best %d of %s' % (pairs, best, pool))
    mon.event('choices')
    mon.nontrivial(best, pool)


def functions(rng, mon, tier, idx):
    n = int(rng.randint(1, 14)) if rng.rand() < 0.9 else int(rng.choice([40, 300], p=[.9, .1]))
    vals = np.asarray(values(rng, n))
    X = rng.randn(n, 2) if rng.rand() < 0.5 else np.arange(n, dtype=float)
    Xc = X.copy()
    f = lambda x, data=None: vals.copy()
    allp = [(i, j) for i in range(n) for j in range(i + 1, n)]
    mon.op('pairs from values', vals)
    check_pairs(mon, lop.ranked_pairs_from_fake(X, f), n, allp, vals, 'ranked')
    check_pairs(mon, lop.generate_ranking_pairs(X, f), n, allp, vals, 'ranking')
    c = int(rng.randint(n))
    seen = []

    def g(x, data=None):
        seen.append(data)
        return vals.copy()
    ps = lop.generate_fake_pairs(X, g, c) if rng.rand() < 0.5 else lop.generate_fake_pairs(X, g, c, data='d')
    check_pairs(mon, ps, n, [tuple(sorted((c, i))) for i in range(n) if i != c], vals, 'fake')
    mon.check(all(int(p[1]) == c for p in ps), 'fake:anchor', 'pairs not anchored at item %d: %s' % (c, ps[:3]))
    mon.check(np.array_equal(X, Xc), 'items_modified', 'the items were changed')
    if len(set(vals.tolist())) < n:
        mon.event('ties')
    if len(set(vals.tolist())) > 2:
        mon.nontrivial(vals)
    mon.event('functions')


def learn(rng, mon, tier, idx):
    """a model given generated comparisons reports the encoded direction"""
    n = int(rng.randint(2, 7))
    X = np.sort(rng.choice(30, n, replace=False)).astype(float) * 0.4
    vals = rng.permutation(n).astype(float)
    pairs = lop.ranked_pairs_from_fake(X, lambda x, data=None: vals.copy())
    m = lop.PreferenceGP(lop.RBF_kern(1.0, 0.15))
    m.add(X, pairs)
    m.optimize()
    y = np.asarray(m.predict(X)[0] if isinstance(m.predict(X), tuple) else m.predict(X))
    for p in pairs:
        w, l = decode(p)
        mon.check(y[w] > y[l], 'model_direction', 'item %d was preferred over %d but is predicted %.3g below %.3g' % (w, l, y[w], y[l]), values=vals, X=X)
    mon.event('models')
    mon.nontrivial('model', X, vals)


GROUPS = [
    Group('codes', dk, 60, 3000, require=('untied', 'rejected')),
    Group('choices', from_idx, 400, 20000, require=('choices',)),
    Group('functions', functions, 600, 30000, require=('functions', 'ties')),
    Group('models', learn, 60, 2000, require=('models',)),
]
