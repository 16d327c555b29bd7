"""C23: sampled sets are distinct, valid, and every set can be drawn equally often."""
import math
import numpy as np
import lop
from collections import Counter
from itertools import combinations
from scipy.stats import binom
from harness.core import Group
from harness import gen, pgen

TECHNIQUE = 'runtime monitor: set validity oracle and exact binomial tests on inclusion frequencies'
RULE = ('all feasible (population 1-12, size, number) triples sampled at random, larger populations up to 300, populations given as a number or as values; '
        'non-trivial = more than one possible set; distinct by (population, number, size)')


def check_sets(mon, S, pool, num, size, mech=''):
    S = np.asarray(S)
    if not mon.check(S.shape == (num, size), mech + 'shape', '%s, expected (%d, %d)' % (S.shape, num, size), pool=pool):
        return False
    ok = mon.check(S.dtype.kind in 'iu', mech + 'integers', 'dtype %s' % S.dtype)
    rows = [tuple(sorted(int(v) for v in r)) for r in S]
    ok &= mon.check(all(len(set(r)) == size for r in rows), mech + 'distinct_members', 'repeated member in %s' % [r for r in rows if len(set(r)) < size][:3], pool=pool)
    ok &= mon.check(all(v in pool for r in rows for v in r), mech + 'members_in_range', 'members outside the population: %s' % [r for r in rows if any(v not in pool for v in r)][:3], pool=sorted(pool))
    ok &= mon.check(len(set(rows)) == num, mech + 'distinct_sets', 'repeated set %s' % [r for r, c in Counter(rows).items() if c > 1][:3], pool=sorted(pool))
    return ok


def population(rng, n):
    k = rng.randint(3)
    if k == 0:
        return n, set(range(n))
    top = 3 * n + 2 if rng.rand() < .6 else int(rng.choice([200, 300, 40000, 70000, 2 ** 31 - 1, 2 ** 33, 2 ** 52]))
    v = rng.choice(3 * n + 2, n, replace=False)
    if top > 3 * n + 2:                                  # identifiers far apart
        v = v + (top - 3 * n - 2)
        v[rng.randint(n)] = 0
    return (v, set(v.tolist())) if k == 1 else (v.tolist(), set(v.tolist()))


def case(rng, mon, tier, idx):
    big = rng.rand() < 0.1
    n = int(rng.choice([40, 120, 300, 40000, 70000], p=[.3, .2, .3, .1, .1])) if big else int(rng.randint(1, 11))
    size = int(rng.randint(1, min(n, 6 if n < 1000 else 4) + 1))
    total = math.comb(n, size)
    cap = min(total, 120 if not big else 400)
    num = int(rng.choice([1, cap, total if total <= 120 else cap, rng.randint(1, cap + 1)]))
    s, pool = population(rng, n)
    before = np.array(s, copy=True)
    mon.op('sample_unique_sets', s, num, size)
    S = lop.sample_unique_sets(s, num, size)
    mon.check(np.array_equal(np.array(s), before), 'argument_modified', 'the population was changed')
    check_sets(mon, S, pool, num, size)
    mon.event('sampled')
    if n >= 40000 and num * size >= 300 and isinstance(s, int):
        # members are spread over the whole population: none above half of it has probability below 2 ** -300
        mon.check(np.max(S) >= n // 2 > np.min(S), 'population_reached', 'members between %d and %d of %d' % (np.min(S), np.max(S), n))
        mon.event('large_population')
    if num == total:
        mon.event('all_sets')
    if total > 1:
        mon.nontrivial(n, size, num, idx % 7)
    m = int(rng.randint(1, 30))
    N = np.asarray(lop.sample_nonunique_sets(s, m, size))
    mon.check(N.shape == (m, size) and all(len(set(r)) == size and set(r) <= pool for r in N.tolist()), 'nonunique_valid', '%s' % N.tolist()[:4], pool=sorted(pool))
    mon.sample(dict(population=n, number=num, size=size))


def unbiased(rng, mon, tier, idx):
    """by symmetry every set is included with probability number / (all sets)"""
    n = int(rng.randint(3, 7))
    size = int(rng.randint(1, n))
    total = math.comb(n, size)
    num = int(rng.randint(1, total + 1))
    if num > 14:
        num = 14
    R = 500
    c = Counter()
    mon.op('repeat sample_unique_sets', n, num, size)
    for _ in range(R):
        S = lop.sample_unique_sets(n, num, size)
        for r in np.asarray(S):
            c[tuple(sorted(int(v) for v in r))] += 1
    q = num / total
    for t in combinations(range(n), size):
        k = c.get(t, 0)
        lo, hi = binom.cdf(k, R, q), binom.sf(k - 1, R, q)
        mon.check(lo > 1e-10 and hi > 1e-10, 'inclusion_frequency', 'set %s drawn in %d of %d runs, expected %.3g' % (t, k, R, q * R), n=n, size=size, num=num)
    mon.event('frequencies', total)
    mon.nontrivial('freq', n, size, num)


def marginals(rng, mon, tier, idx):
    """by symmetry every item is a member equally often, also when few of many sets are asked for"""
    n = int(rng.randint(6, 26))
    size = int(rng.randint(1, 5))
    num = int(rng.randint(1, min(60, math.comb(n, size)) + 1))
    R = min(1500, 20000 // num)
    c = np.zeros(n)
    mon.op('repeat sample_unique_sets', n, num, size)
    for _ in range(R):
        np.add.at(c, np.asarray(lop.sample_unique_sets(n, num, size)).ravel(), 1)
    q = size / n
    sd = math.sqrt(R * num * q * (1 - q))
    dev = np.abs(c - R * num * q)
    mon.check((dev <= 7.5 * sd + 6).all(), 'member_frequency', 'members drawn %s times, expected %.1f each' % (c.astype(int).tolist(), R * num * q), n=n, size=size, num=num)
    mon.event('marginals')
    mon.nontrivial('marginal', n, size, num)


def rep_q(rng, mon, tier, idx):
    """representative queries of the alignment learners"""
    from lop.active_learning import AcquisitionSelection
    d = int(rng.randint(1, 4))
    n = int(rng.randint(2, 16))
    num_pts, num_Q = int(rng.choice([2, 4, 8, 30])), int(rng.choice([1, 3, 10, 40]))
    alts = int(rng.choice([1, 2, 2, 3, 4]))
    l = AcquisitionSelection(rep_Q_data={'num_pts': num_pts, 'num_Q': num_Q})
    m = lop.PreferenceGP(lop.RBF_kern(1.0, 1.0), active_learner=l) if rng.rand() < 0.5 else lop.PreferenceLinear(active_learner=l)
    X = rng.randn(n, d)
    ps = gen.pairs_for(rng, n, int(rng.randint(1, 6)))
    m.add(X, ps)
    l.num_alts = alts
    l.model = m
    cand = rng.randn(int(rng.randint(2, 8)), d)
    keep = m.X_train.copy()
    mon.op('get_representative_Q', n, num_pts, num_Q, alts)
    xr, Q = l.get_representative_Q(cand)
    pool = [tuple(r) for r in (keep if n >= 4 else np.append(keep, cand, axis=0))]
    N = min(num_pts, len(pool))
    k = 2 if alts == 1 else alts
    mon.check(np.array_equal(m.X_train, keep), 'training_data_changed', 'representative points changed the training data')
    mon.check(xr.shape == (N, d), 'rep_points_shape', '%s, expected %s' % (xr.shape, (N, d)))
    left = Counter(pool)
    left.subtract(tuple(r) for r in xr)
    mon.check(min(left.values()) >= 0, 'rep_points_valid', 'points not from the data, or repeated')
    if math.comb(N, k) > 0:
        check_sets(mon, Q, set(range(N)), min(num_Q, math.comb(N, k)), k, 'rep_')
    mon.event('representative')
    mon.nontrivial(n, num_pts, num_Q, alts, d)


GROUPS = [
    Group('sets', case, 600, 20000, require=('sampled', 'all_sets'), watchdog=120, hang=30),
    Group('unbiased', unbiased, 60, 1500, require=('frequencies',), watchdog=120),
    Group('marginals', marginals, 60, 2000, require=('marginals',), watchdog=120),
    Group('representative', rep_q, 200, 6000, require=('representative',), watchdog=120, hang=30),
]
