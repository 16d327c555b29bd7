"""C20: choice probabilities and sampled choices versus the softmax definition."""
import numpy as np
from scipy.special import softmax
from scipy.stats import binom
import lop
from harness.core import Group

# every case takes milliseconds
HANG = 25
TECHNIQUE = 'runtime monitor: softmax reference and exact binomial tests on sampled choices'
RULE = ('random reward vectors and batches (1-12 alternatives, rewards up to 1e12, batches mixing magnitudes, rationality 0-1e4); '
        'non-trivial = at least two alternatives with different rewards; distinct by rewards and rationality')


def rewards(rng, n):
    k = rng.randint(6)
    if k == 0:
        return rng.randn(n)
    if k == 1:
        return rng.randn(n) * 10.0 ** rng.randint(-6, 13)
    if k == 2:
        return rng.randint(-3, 4, n).astype(float)
    if k == 3:
        return rng.randint(-900, 900, n)                # integers
    if k == 4:
        return rng.randn(n) + rng.choice([-1, 1]) * 10.0 ** rng.randint(2, 9)
    return np.full(n, float(rng.randn()))


def rationality(rng):
    return float(rng.choice([1.0, 1.0, 0.0, 0.01, 0.3, 4.0, 30.0, 1e4, rng.uniform(0, 10)]))


def want_of(r, p):
    r = np.asarray(r, float)
    return softmax((r - r.max(axis=-1, keepdims=True)) * p, axis=-1)


def dist(rng, mon, tier, idx):
    n = int(rng.randint(1, 13)) if idx % 40 != 7 else int(rng.randint(30, 600))
    p = rationality(rng)
    shape = (None, (int(rng.randint(1, 9) if idx % 40 != 8 else rng.randint(50, 400)),), (int(rng.randint(1, 4)), int(rng.randint(1, 4))))[rng.choice([0, 0, 1, 1, 2])]
    if shape is None:
        R = rewards(rng, n)
    else:
        R = np.array([rewards(rng, n) for _ in range(int(np.prod(shape)))], dtype=float).reshape(shape + (n,))
    before = np.array(R, copy=True)
    mon.op('p_human_choice', R, p)
    P = np.asarray(lop.p_human_choice(R) if p == 1.0 and rng.rand() < 0.5 else lop.p_human_choice(R, p=p))
    mon.check(np.array_equal(R, before), 'argument_modified', 'p_human_choice changed the rewards')
    if not mon.check(P.shape == before.shape, 'shape', '%s for rewards %s' % (P.shape, before.shape), R=before, p=p):
        return
    mon.check(np.isfinite(P).all() and (P >= 0).all(), 'non_negative', 'probabilities %s' % P.tolist(), R=before, p=p)
    mon.close(P.sum(axis=-1), np.ones(before.shape[:-1]), 'sums_to_one', rtol=1e-9, atol=1e-9, R=before, p=p)
    mon.close(P, want_of(before, p), 'softmax', rtol=1e-6, atol=1e-12, R=before, p=p)
    big = np.max(np.abs(before)) + 1.0
    c = float(rng.randint(-5, 6)) if big < 1e6 else 0.0
    mon.close(lop.p_human_choice(np.asarray(before, float) + c, p=p), P, 'shift_invariant', rtol=1e-5, atol=1e-8, R=before, p=p, c=c)
    if p > 0 and big * max(p, 1) < 1e6:
        mon.close(lop.p_human_choice(np.asarray(before, float) * p, p=1.0), P, 'scaled_rewards', rtol=1e-5, atol=1e-7, R=before, p=p)
    flatR, flatP = before.reshape(-1, n), P.reshape(-1, n)
    for r, q in zip(flatR, flatP):
        o = np.argsort(r, kind='stable')
        mon.check((np.diff(q[o]) >= -1e-12).all(), 'monotone', 'probabilities %s for rewards %s' % (q.tolist(), r.tolist()), p=p)
        mon.close(lop.p_human_choice(r, p=p), q, 'batch_as_single', rtol=1e-9, atol=1e-12, r=r, p=p)
        perm = rng.permutation(n)
        mon.close(lop.p_human_choice(r[perm], p=p), q[perm], 'permutation', rtol=1e-9, atol=1e-12, r=r, p=p)
    mon.event('vector' if shape is None else 'batch%d' % len(shape))
    if n > 1 and np.ptp(flatR[0]) > 0:
        mon.nontrivial(before, p)
    mon.sample(dict(rewards=before, p=p, probabilities=P))


def freq(rng, mon, tier, idx):
    n = int(rng.randint(1, 9))
    p = float(rng.choice([0.0, 0.2, 1.0, 1.0, 3.0, 50.0]))
    R = rng.randn(n) * float(rng.choice([0.3, 1, 3])) if rng.rand() < 0.8 else rng.randn(n) * 1e5
    N = 1500
    if rng.rand() < .3:         # nearly rational choices between nearly equal rewards
        p = float(10.0 ** rng.uniform(2, 5))
        R = float(rng.randn()) + rng.randn(n) * float(rng.uniform(.3, 4)) / p
        mon.event('steep')
    before = R.copy()
    mon.op('sample_human_choice', R, p)
    one = [lop.sample_human_choice(R, p=p) for _ in range(N)]
    mon.check(all(np.ndim(s) == 0 and int(s) == s and 0 <= s < n for s in one), 'valid_position', 'sampled %s' % sorted(set(map(str, one)))[:6], n=n)
    ns = int(rng.choice([1, 7, N]))
    many = np.asarray(lop.sample_human_choice(R, p=p, samples=ns))
    mon.check(many.shape == (ns,) and ((many >= 0) & (many < n)).all() and many.dtype.kind in 'iu', 'samples_argument', '%s samples %r' % (ns, many[:6]))
    mon.check(np.array_equal(R, before), 'argument_modified', 'sample_human_choice changed the rewards')
    q = want_of(R, p)
    groups = [np.asarray(one, int)] + ([many] if ns == N else [])
    # the draws of one call are independent: every part of them has the same distribution
    for g in groups:
        for part, name in ((g[:N // 2], 'first half'), (g[N // 2:], 'second half'), (g[::2], 'even draws')):
            for i in range(n):
                c = int(np.sum(part == i))
                qi = min(q[i] + 1e-9, 1)
                mon.check(binom.cdf(c, len(part), qi) > 1e-11 and binom.sf(c - 1, len(part), qi) > 1e-11, 'draws_dependent',
                          'position %d drawn %d times in the %s (%d draws), probability %.4g' % (i, c, name, len(part), q[i]), R=R, p=p)
        # a draw agrees with the next one as often as independent draws do
        same = int(np.sum(g[0:-1:2] == g[1::2]))
        qs = min(float(np.sum(q * q)) + 1e-9, 1)
        mon.check(binom.cdf(same, len(g) // 2, qs) > 1e-11 and binom.sf(same - 1, len(g) // 2, qs) > 1e-11, 'draws_dependent', 'neighbouring draws agree %d times of %d, expected %.4g' % (same, len(g) // 2, qs), R=R, p=p)
    for g in groups:
        for i in range(n):
            c = int(np.sum(g == i))
            lo, hi = binom.cdf(c, N, min(q[i] + 1e-9, 1)), binom.sf(c - 1, N, min(q[i] + 1e-9, 1))
            mon.check(lo > 1e-10 and hi > 1e-10, 'frequency', 'position %d drawn %d times of %d, probability %.4g' % (i, c, N, q[i]), R=R, p=p)
    mon.event('frequencies', len(groups))
    mon.nontrivial(R, p)


GROUPS = [
    Group('distribution', dist, 2500, 120000, require=('vector', 'batch1', 'batch2')),
    Group('frequency', freq, 120, 3000, require=('frequencies', 'steep')),
]
