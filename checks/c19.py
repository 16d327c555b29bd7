"""C19: Pareto fronts versus the dominance definition."""
import numpy as np
import lop
from lop.utilities import get_pareto
from harness.core import Group

# every case takes milliseconds
HANG = 25
TECHNIQUE = 'runtime monitor: dominance oracle over returned fronts'
RULE = ('random reward matrices (1-80 items, 1-6 features; continuous, tied, duplicated, constant, huge and tiny values); '
        'non-trivial = at least one dominated and two non-dominated items; distinct by matrix')


def front(V):
    n = len(V)
    out = []
    for i in range(n):
        if not (np.all(V >= V[i], axis=1) & np.any(V > V[i], axis=1)).any():
            out.append(i)
    return out


def matrix(rng, large=False):
    n, d = int(rng.choice([1, 2, 3, 5, 8, 20, 45, 80])), int(rng.randint(1, 7))
    if large:
        n, d = (int(rng.randint(100, 1600)), d) if rng.rand() < .7 else (int(rng.randint(2, 60)), int(rng.randint(7, 40)))
    k = rng.randint(11)
    if k == 0:
        V = rng.randn(n, d)
    elif k == 1:
        V = rng.randint(0, 3, (n, d)).astype(float)
    elif k == 2:
        V = rng.randint(-2, 6, (n, d))                   # integers
    elif k == 3:                                         # anti-correlated: long fronts
        V = rng.rand(n, d)
        V = V / V.sum(axis=1, keepdims=True)
    elif k == 4:
        V = rng.randn(n, d)
        V = V[rng.randint(0, n, n)]                      # duplicated rows
    elif k == 5:
        V = rng.randn(n, d) * 10.0 ** rng.randint(-12, 12, (1, d))
    elif k == 6:                                         # small types
        t = [np.uint8, np.int8, np.uint16, np.int64, np.uint64, np.float32, np.float16][rng.randint(7)]
        lo, hi = (-1e4, 1e4) if np.dtype(t).kind == 'f' else (np.iinfo(t).min, np.iinfo(t).max)
        V = np.array([lo, hi, hi / 2 if np.dtype(t).kind == 'f' else hi // 2, 0, 1, 2, 3, 100], dtype=t)[rng.randint(0, 8, (n, d))]
    elif k == 7:                                         # reached or not
        V = rng.rand(n, d) < rng.choice([.3, .5, .8])
    elif k == 8:                                         # unbounded features
        V = rng.choice([-np.inf, np.inf, 0.0, -0.0, 1.0, 1e308, -1e308, 5e-324], (n, d))
    elif k == 9:                                         # differences in the last digits
        V = 1.0 + rng.randint(0, 6, (n, d)) * 2.3e-16 if rng.rand() < .5 else rng.randn(n, d) * 10.0 ** rng.randint(-300, 300)
    else:
        V = np.full((n, d), float(rng.randn()))
        V[rng.randint(n)] += rng.choice([0.0, 1.0, -1.0])
    if rng.rand() < 0.2:
        V = np.asfortranarray(V)
    return V


def large(rng, mon, tier, idx):
    case(rng, mon, tier, idx, True)
    mon.event('large')


def case(rng, mon, tier, idx, large=False):
    V = matrix(rng, large)
    n, d = V.shape
    before = V.copy()
    mon.op('get_pareto', V)
    got = get_pareto(V)
    mon.check(np.array_equal(V, before), 'argument_modified', 'get_pareto changed its argument')
    got = np.asarray(got)
    if not mon.check(got.ndim == 1 and (got.size == 0 or got.dtype.kind in 'iu'), 'index_array', 'returned %r' % (got,)):
        return
    got = got.tolist()
    want = front(before)
    mon.check(len(set(got)) == len(got), 'distinct', 'indices repeated: %s' % got, V=before)
    mon.check(all(0 <= i < n for i in got), 'in_range', 'indices %s for %d items' % (got, n), V=before)
    missing, extra = sorted(set(want) - set(got)), sorted(set(got) - set(want))
    mon.check(not extra, 'dominated_reported', 'dominated items %s reported' % extra, V=before, want=want)
    mon.check(not missing, 'front_complete', 'non-dominated items %s missing' % missing, V=before, got=got)
    mask = np.asarray(get_pareto(V, return_mask=True))
    mon.check(mask.shape == (n,) and mask.dtype == bool and set(np.flatnonzero(mask)) == set(want), 'mask',
              'mask %s, front %s' % (np.flatnonzero(mask), want), V=before)
    perm = rng.permutation(n)
    gp = np.asarray(get_pareto(V[perm])).tolist()
    mon.check(sorted(perm[gp].tolist()) == want, 'permutation', 'front of the reordered items is %s, expected %s' % (sorted(perm[gp].tolist()), want), V=before, perm=perm)
    # monotone maps of single features leave dominance as it is
    M = before.astype(float).copy()
    c = rng.randint(d)
    M[:, c] = np.searchsorted(np.unique(M[:, c]), M[:, c])
    mon.check(sorted(np.asarray(get_pareto(M)).tolist()) == want, 'rank_invariance', 'front changed when a feature was replaced by its ranks', V=before)
    # removing dominated items leaves the front as it is
    if len(want) < n and len(want):
        keep = sorted(set(want) | set(rng.choice(n, rng.randint(0, n), replace=False).tolist()))
        sub = np.asarray(get_pareto(before[keep])).tolist()
        mon.check(sorted(keep[i] for i in sub) == want, 'removal', 'front changed when dominated items were removed', V=before, keep=keep)
        if len(want) > 1:
            mon.nontrivial(before)
            mon.event('mixed_front')
    if len(np.unique(before, axis=0)) < n:
        mon.event('duplicates')
    mon.event('fronts')
    mon.sample(dict(n=n, d=d, front=len(want)))


def select_all(rng, mon, tier, idx):
    """the learners' candidate filter is the same front"""
    n, d = int(rng.randint(2, 25)), int(rng.randint(1, 4))
    V = rng.randint(0, 5, (n, d)).astype(float) if rng.rand() < 0.5 else rng.randn(n, d)
    l = lop.UCBLearner(default_to_pareto=True) if rng.rand() < 0.5 else lop.RandomLearner()
    arg = None if getattr(l, 'default_to_pareto', False) else 'pareto'
    mon.op('get_prefered_set_of_pts', V, arg)
    got = l.get_prefered_set_of_pts(V, arg)
    mon.check(set(int(i) for i in got) == set(front(V)), 'learner_filter', '%s, front %s' % (got, front(V)), V=V)
    mon.event('learner_filter')


GROUPS = [
    Group('learner_filter', select_all, 800, 8000, require=('learner_filter',)),
    Group('large', large, 120, 2000, require=('large',)),
    Group('front', case, 6000, 60000, require=('fronts', 'mixed_front', 'duplicates')),
]
