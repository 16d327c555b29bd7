"""C22: folds partition the items; labels of a part are re-indexed to the same items."""
import numpy as np
import lop
from collections import Counter
from harness.core import Group
from harness import gen

# every case takes milliseconds
HANG = 25
TECHNIQUE = 'runtime monitor: conservation and re-indexing oracle over recorded folds'
RULE = ('random data sets (2-40 items and, now and then, up to 400, mixes of pairwise, ordinal and rating labels, chained and star-shaped comparisons, repeated labels) and k from 1 to 12; '
        'non-trivial = at least two folds and two kinds of label or a connected comparison graph; distinct by labels and k')


def dataset(rng):
    n = int(rng.randint(2, 41)) if rng.rand() > .03 else int(rng.randint(41, 400))
    y = [None, None, None]
    kind = rng.randint(1, 8)
    if kind & 1:
        shape = rng.randint(4)
        if shape == 0:
            ps = [(i, i + 1) for i in range(n - 1)]
        elif shape == 1:
            c = rng.randint(n)
            ps = [(c, i) for i in range(n) if i != c]
        elif shape == 2:
            g = int(rng.randint(2, 6))
            ps = [(i, j) for i in range(n) for j in range(i + 1, n) if i // g == j // g]
        else:
            ps = []
            for _ in range(int(rng.randint(1, 3 * n if n < 41 else n))):
                i, j = rng.choice(n, 2, replace=False)
                ps.append((i, j))
        if not ps:
            ps = [(0, 1)]
        y[0] = np.array([(rng.choice([-1, 1]),) + ((a, b) if rng.rand() < 0.5 else (b, a)) for a, b in ps])
        rng.shuffle(y[0])
    if kind & 2:
        m = int(rng.randint(1, n + 3))
        y[1] = (rng.randint(1, 6, m), rng.randint(0, n, m))
    if kind & 4:
        m = int(rng.randint(1, n + 3))
        y[2] = (rng.rand(m), rng.randint(0, n, m))
    X = rng.randn(n) if rng.rand() < 0.3 else rng.randn(n, int(rng.randint(1, 4)))
    return X, y


def copy_y(y):
    return [None if v is None else (v.copy() if isinstance(v, np.ndarray) else tuple(a.copy() for a in v)) for v in y]


def same_y(a, b):
    for u, v in zip(a, b):
        if (u is None) != (v is None):
            return False
        if u is None:
            continue
        if isinstance(v, tuple):
            if not all(np.array_equal(s, t) for s, t in zip(u, v)):
                return False
        elif not np.array_equal(u, v):
            return False
    return True


def labels(y, names):
    """multiset of (kind, value, items by name)"""
    out = Counter()
    if y[0] is not None:
        for d, a, b in np.asarray(y[0]).tolist():
            out[('pair', d, names[int(a)], names[int(b)])] += 1
    for kind, t in (('ord', y[1]), ('abs', y[2])):
        if t is not None:
            for v, i in zip(np.asarray(t[0]).tolist(), np.asarray(t[1]).tolist()):
                out[(kind, v, names[int(i)])] += 1
    return out


def check_part(mon, y, part, got, n):
    """labels kept for `part` are exactly those whose items all lie in it"""
    inside = set(int(i) for i in part)
    want = labels(y, list(range(n)))
    want = Counter({l: c for l, c in want.items() if all(i in inside for i in (l[2:] if l[0] == 'pair' else (l[2],)))})
    ok = mon.check(len(got) == 3, 'three_kinds', 'returned %d kinds' % len(got))
    if not ok:
        return
    for k in range(3):
        if got[k] is None:
            continue
        arr = np.asarray(got[k][:, 1:] if k == 0 else got[k][1])
        mon.check(arr.size > 0, 'empty_kind_is_none', 'kind %d kept as an empty set' % k)
        if not mon.check(arr.dtype.kind in 'iu' and (arr >= 0).all() and (arr < len(part)).all(), 'index_in_part', 'indices %s in a part of %d items' % (arr.ravel()[:10].tolist(), len(part))):
            return
    names = [int(i) for i in part]
    have = labels(got, names)
    mon.check(not (want - have), 'label_lost', 'labels missing from the part: %s' % list((want - have).elements())[:5], part=names, y=y)
    mon.check(not (have - want), 'label_invented', 'labels not in the data: %s' % list((have - want).elements())[:5], part=names, y=y)


def case(rng, mon, tier, idx):
    X, y = dataset(rng)
    n = len(X)
    k = int(rng.choice([1, 2, 2, 3, 4, 4, 5, 7, 12, min(n // 2, 60), n if n < 100 else 25]))
    k = max(k, 1)
    Xc, yc = X.copy(), copy_y(y)
    mon.op('k_fold_x_y', n, k)
    splits = lop.k_fold_x_y(X, y, k)
    mon.check(np.array_equal(X, Xc) and same_y(y, yc), 'argument_modified', 'k_fold_x_y changed the data')
    kk = min(k, n // 2) if k > n // 2 else k
    if k > n // 2 and n // 2 < 2:
        mon.check(splits is None, 'too_few_items', '%r folds for %d items' % (splits, n))
        mon.event('too_few')
        return
    if not mon.check(splits is not None and len(splits) == kk, 'fold_count', '%s folds, expected %d' % (None if splits is None else len(splits), kk), n=n, k=k):
        return
    sizes = [len(s) for s in splits]
    allidx = sorted(int(i) for s in splits for i in s)
    mon.check(allidx == list(range(n)), 'partition', 'folds %s of %d items' % (splits, n), k=k, y=y)
    mon.check(max(sizes) - min(sizes) <= 1, 'even_sizes', 'fold sizes %s for %d items' % (sizes, n), k=k, y=y)
    # recombined parts as the search uses them
    lost = Counter(labels(y, list(range(n))))
    for i in range(kk):
        train = [j for q in range(kk) if q != i for j in splits[q]]
        for part in (splits[i], train):
            if len(part) == 0:
                continue
            pc = list(part)
            got = lop.get_y_with_idx(y, part)
            mon.check(list(part) == pc and same_y(y, yc), 'argument_modified_y', 'get_y_with_idx changed the data')
            check_part(mon, y, part, got, n)
            mon.event('parts')
    if kk > 1 and (y[0] is not None) + (y[1] is not None) + (y[2] is not None) >= 1:
        mon.nontrivial(y, k, n)
    mon.event('folds', kk)
    mon.sample(dict(n=n, k=k, sizes=sizes))


def part(rng, mon, tier, idx):
    """arbitrary parts, in any order"""
    X, y = dataset(rng)
    n = len(X)
    sel = rng.permutation(n)[:int(rng.randint(1, n + 1))]
    form = sel if rng.rand() < 0.5 else [int(i) for i in sel]
    mon.op('get_y_with_idx', n, sel)
    got = lop.get_y_with_idx(y, form)
    check_part(mon, y, sel, got, n)
    mon.nontrivial(y, sel)
    mon.event('arbitrary_parts')


def spread(rng, mon, tier, idx):
    """items are placed at random: every item can be in every other item's fold"""
    n, k = int(rng.randint(4, 8)), 2
    y = [np.array([(-1, 0, 1), (1, 1, 2)]), None, None]
    if rng.rand() < 0.5:
        y = [None, (np.ones(n, int), np.arange(n)), None]
    seen = set()
    for _ in range(600):
        for s in lop.k_fold_x_y(np.zeros((n, 1)), y, k):
            seen |= {(a, b) for a in s for b in s if a != b}
    want = {(a, b) for a in range(n) for b in range(n) if a != b}
    if y[0] is None:
        mon.check(seen == want, 'random_folds', 'pairs of items never together: %s' % sorted(want - seen)[:6])
    mon.event('spread')


GROUPS = [
    Group('folds', case, 3600, 60000, require=('folds', 'parts', 'too_few')),
    Group('parts', part, 2400, 40000, require=('arbitrary_parts',)),
    Group('spread', spread, 10, 100, require=('spread',)),
]
