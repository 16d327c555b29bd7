"""C01: shadow label store compared with the model's training data after every operation."""
import io, contextlib
import numpy as np
import lop
from harness.core import Group
from harness import gen
from harness.shadow import Shadow, read, diff

RULE = ('random histories of add (pairs / ratings / ordinals / unlabelled), add_prior, reset and predict over uniquely '
        'identified items; non-trivial = at least two labelled batches; distinct by operation sequence and feedback kinds')


def compare(mon, m, sh, mech):
    try:
        its, labels = read(m)
    except IndexError as e:
        mon.fail(mech + ':dangling', str(e), X=m.X_train, y=m.y_train)
        return
    from collections import Counter
    mon.check(Counter(its) == Counter(sh.items), mech + ':items', 'stored items differ from those supplied',
              diff=diff(its, sh.items))
    mon.check(labels == sh.labels, mech + ':labels', 'stored labels differ from those supplied',
              diff=diff(labels, sh.labels))
    if sh.prior is not None:
        pp = m.get_prior_pts()
        got = [] if pp is None else [gen.key(p) for p in pp]
        mon.check(Counter(got) == Counter(sh.prior), mech + ':prior_points', 'reported prior points differ', diff=diff(got, sh.prior))
    else:
        mon.check(m.get_prior_pts() is None, mech + ':prior_points', 'prior points reported but none were added')


def batch(rng, d, allow_unlabelled=True, most=5):
    kinds = ['relative_discrete', 'relative_discrete', 'abs', 'ordinal'] + (['none'] if allow_unlabelled else [])
    kind = kinds[rng.randint(len(kinds))]
    n = int(rng.randint(1, most + 1))
    if kind == 'relative_discrete' and n < 2:
        n = 2
    X = gen.items(rng, n, d)
    if kind == 'relative_discrete':
        y = gen.pairs_for(rng, n, int(rng.randint(1, most + 2)))
        if rng.rand() < 0.2:
            y = np.array(y)
        return X, y, kind
    if kind == 'none':
        return X, [], 'relative_discrete'
    if kind == 'abs':
        y = rng.uniform(0, 1, n)
        if rng.rand() < 0.3:
            y[rng.randint(n)] = rng.choice([0.0, 1.0, 0.0005, 0.9995, 0.001, 0.999])
        return X, y, 'abs'
    y = rng.randint(1, 6, n)
    return X, (y if rng.rand() < 0.5 else [int(v) for v in y]), 'ordinal'


def make(rng, pareto):
    w = rng.randint(3)
    if w == 0:
        return lop.PreferenceModel(pareto_pairs=pareto), 'base'
    if w == 1:
        return lop.PreferenceGP(lop.RBF_kern(1.0, 1.0), pareto_pairs=pareto), 'gp'
    return lop.PreferenceLinear(pareto_pairs=pareto), 'lin'


def history(rng, mon, tier, idx):
    pareto = bool(rng.rand() < 0.5)
    d = int(rng.choice([1, 2, 3] if pareto else [0, 1, 2, 3]))
    m, mk = make(rng, pareto)
    sh = Shadow(pareto)
    steps = int(rng.randint(2, 13))
    seq = []
    for _ in range(steps):
        r = rng.rand()
        if r < 0.08 and seq:
            mon.op('reset')
            m.reset(); sh.clear(); seq.append('R')
        elif r < 0.3 and pareto:
            n = int(rng.randint(2, 8))
            method = 'random' if rng.rand() < 0.4 else 'exact'
            mon.op('add_prior', n, method)
            before = sh.items[:]
            if method == 'exact':
                pts = gen.items(rng, n, d, scale=4.0)
                m.add_prior(np.array([[0., 1.]] * d), method='exact', pts=pts)
            else:
                n = max(n, 3)
                lo = rng.uniform(0, 1, d) + 1e-3 * len(seq)
                b = np.stack([lo, lo + rng.uniform(0.5, 3, d)], axis=1)
                old = set(sh.items)
                m.add_prior(b, num_pts=n, method='random')
                # which points were drawn is only known from what the model kept
                pts = [k for k in map(gen.key, m.X_train) if k not in old] if m.X_train is not None else []
                mon.check(2 <= len(pts) <= n, 'prior_count', 'kept %d of %d random prior points' % (len(pts), n))
                for p in np.array(pts):
                    mon.check(bool(np.all(p >= b[:, 0] - 1e-9) and np.all(p <= b[:, 1] + 1e-9)), 'prior_in_bounds',
                              'random prior point outside the bounds', p=p, bounds=b)
                for c in (0, 1):
                    mon.check(gen.key(b[:, c]) in pts, 'prior_corners', 'corner of the bounds is not a prior point', bounds=b)
            sh.add_prior(pts)
            seq.append('P')
            if not sh.items:
                break
        elif r < 0.4 and not pareto:
            with contextlib.redirect_stdout(io.StringIO()):
                mon.op('add_prior_refused')
                m.add_prior(np.array([[0., 1.]] * max(d, 1)), num_pts=4)
            seq.append('p')
        else:
            X, y, t = batch(rng, d, most=60 if idx % 40 == 7 and rng.rand() < .5 else 5)
            if len(X) > 20:
                mon.event('large_batches')
            mon.op('add', X, y, t)
            m.add(X, y, type=t) if not (t == 'relative_discrete' and rng.rand() < 0.5) else m.add(X, y)
            sh.add(X, [tuple(int(a) for a in p) for p in y] if t == 'relative_discrete' else y, t)
            seq.append({'relative_discrete': 'c' if len(y) else 'n', 'abs': 'a', 'ordinal': 'o'}[t] + str(len(X)))
        compare(mon, m, sh, 'store')
        if mon.violations:
            return
    if len(seq) >= 2:
        mon.nontrivial(mk, pareto, d, seq)
        mon.sample(dict(model=mk, dominance_pairs=pareto, dims=d, ops=seq))
    mon.event('histories')


def fitted_history(rng, mon, tier, idx):
    """the same, with fitting and predictions in between"""
    d = int(rng.choice([1, 2, 3]))
    pareto = bool(rng.rand() < 0.4)
    lin = rng.rand() < 0.4
    m = lop.PreferenceLinear(pareto_pairs=pareto) if lin else lop.PreferenceGP(lop.RBF_kern(1.0, 1.0), pareto_pairs=pareto)
    sh = Shadow(pareto)
    seq = []
    for _ in range(int(rng.randint(2, 6))):
        X, y, t = batch(rng, d, allow_unlabelled=False)
        mon.op('add', X, y, t)
        m.add(X, y, type=t)
        sh.add(X, [tuple(int(a) for a in p) for p in y] if t == 'relative_discrete' else y, t)
        seq.append(t[0] + str(len(X)))
        if rng.rand() < 0.6:
            m.predict(gen.items(rng, 3, d))
            seq.append('?')
            mon.event('predictions')
        if rng.rand() < 0.1:
            m.reset(); sh.clear(); seq.append('R')
        compare(mon, m, sh, 'store_fitted')
    mon.nontrivial(lin, pareto, d, seq)
    mon.sample(dict(linear=lin, ops=seq))


def crowded(rng, mon, tier, idx):
    """items with hundreds of labels, hundreds of prior points kept and dropped"""
    m, mk = make(rng, True)
    sh = Shadow(True)
    d = int(rng.choice([2, 6, 9]))
    for _ in range(int(rng.randint(1, 4))):
        X = gen.items(rng, 3, d, 2.0)
        k = int(rng.choice([100, 255, 256, 257, 512, 600]))
        t = ('relative_discrete', 'abs', 'ordinal')[rng.randint(3)]
        if t == 'relative_discrete':
            y = [(int(rng.choice([-1, 1])), 0, int(rng.choice([1, 2]))) for _ in range(k)]
            # other labels (dominance among the items) included: a round number of labels on one item
            m.add(X, y)
            sh.add(X, y, t)
        elif t == 'abs':
            ix = np.concatenate([[0, 1, 2], np.zeros(k, dtype=int)])
            v = rng.uniform(0, 1, len(ix))
            m.add(X, (v.copy(), ix + len(sh.items)), type='abs')
            sh.add(X, v[:3], 'abs')
            for w in v[3:]:
                sh.add_label('abs', X[0], w)
        else:
            y = rng.randint(1, 6, size=3)
            m.add(X, y, type='ordinal')
            sh.add(X, y, 'ordinal')
        mon.op('add', t, k)
        compare(mon, m, sh, 'store_crowded')
    n = int(rng.choice([40, 130, 257, 300]))
    # about half the prior points dominate or are dominated (kept), the others are pairwise incomparable
    P = np.concatenate([gen.items(rng, 8, d, 3.0), -1 - gen.items(rng, n, d, 1.0)])
    P[8:, 0] = 10 + np.arange(n)
    P[8:, 1] = -10 - np.arange(n)
    mon.op('add_prior', len(P))
    with contextlib.redirect_stdout(io.StringIO()):
        m.add_prior(np.array([[0., 1.]] * d), method='exact', pts=P.copy())
    sh.add_prior(P)
    compare(mon, m, sh, 'store_crowded')
    from collections import Counter
    c = Counter(t for l, k in sh.labels.items() for t in l[1:] if isinstance(t, tuple) for _ in range(k))
    if max(c.values()) > 255:
        mon.event('hub')
    if any(v % 256 == 0 for v in c.values()):
        mon.event('multiple_of_256')
    mon.event('dropped', len(P) + 3 - len(sh.items) > 250)
    mon.nontrivial(mk, d, n, len(sh.items), max(c.values()))


def exact_count(rng, mon, tier, idx):
    """an item that takes part in exactly 2^k labels is still an item with labels"""
    m, mk = make(rng, True)
    sh = Shadow(True)
    k = int(rng.choice([128, 256, 512]))
    X = np.array([[0.0, 5.0], [1.0, 0.0], [2.0, -3.0]]) + rng.uniform(0, .3, (3, 2))      # none dominates another
    y = [(int(rng.choice([-1, 1])), 0, 1)] * k
    m.add(X, y)
    sh.add(X, y, 'relative_discrete')
    P = np.array([[8.0, -8.0], [9.0, -9.0]])
    m.add_prior(np.array([[0., 1.]] * 2), method='exact', pts=P.copy())
    sh.add_prior(P)
    compare(mon, m, sh, 'store_exact_count')
    mon.event('exact_count')
    mon.nontrivial(mk, k, X[0, 0])


def long_history(rng, mon, tier, idx):
    """many small batches, checked at the end and every few operations"""
    d = 2
    m, mk = make(rng, False)
    sh = Shadow(False)
    n_ops = 60 if tier == 'quick' else 250
    kinds = []
    for k in range(n_ops):
        X, y, t = batch(rng, d, most=100 if idx % 2 and k % 7 == 3 else 5)
        m.add(X, y, type=t)
        sh.add(X, [tuple(int(a) for a in p) for p in y] if t == 'relative_discrete' else y, t)
        kinds.append(t[0])
        if k % 20 == 19:
            compare(mon, m, sh, 'store_long')
    mon.nontrivial(mk, ''.join(kinds))
    mon.sample(dict(model=mk, batches=n_ops, items=len(sh.items), labels=sum(sh.labels.values())))


GROUPS = [Group('history', history, 1600, 40000, require=['op:add', 'op:add_prior', 'op:reset', 'large_batches']),
          Group('fitted_history', fitted_history, 120, 2500, require=['predictions']),
          Group('crowded', crowded, 24, 400, require=['hub', 'dropped']),
          Group('exact_count', exact_count, 12, 100, require=['exact_count']),
          Group('long_history', long_history, 24, 300)]
