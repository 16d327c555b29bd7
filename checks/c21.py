"""C21: answers of synthetic users versus their reward function and choice model."""
import itertools, math, io, contextlib
import numpy as np
from scipy.special import softmax, ndtr
from scipy.stats import binom, kstest
import lop
from harness.core import Group

TECHNIQUE = 'runtime monitor: answer oracle, exact binomial and Kolmogorov-Smirnov tests, calibration re-evaluation'
RULE = ('random reward functions and queries (1-10 alternatives, 1-5 features, ties), rationality, noise and calibration targets; '
        'non-trivial = a query with different rewards; distinct by function, query and settings')
FN = ['FakeLinear', 'FakeSquared', 'FakeLogistic', 'FakeWeightedMax', 'FakeWeightedMin', 'FakeSquaredMinMax', 'FakeSinExp', 'FakeMixtureGaussian', 'FakeMinLog']


def fn(rng, d=None):
    d = d or int(rng.randint(1, 6))
    return getattr(lop, FN[rng.randint(len(FN))])(d), d


def query(rng, d, n=None):
    n = n or int(rng.randint(1, 11))
    R = rng.rand(n, d) * float(rng.choice([0.3, 1, 4]))
    if n > 2 and rng.rand() < 0.3:
        R[rng.randint(n)] = R[rng.randint(n)]
    return R[:, 0].copy() if d == 1 else R


def users(rng, f):
    kw = {}
    if rng.rand() < 0.7:
        kw['beta'] = float(rng.choice([0.0, 0.3, 1.0, 5.0, 80.0]))
    if rng.rand() < 0.7:
        kw['sigma'] = float(rng.choice([0.1, 0.5, 2.0]))
    u = (lop.HumanChoiceUser if rng.rand() < 0.5 else lop.HumanChoiceUser2)(f, **kw)
    if rng.rand() < 0.5:
        u.k, u.b = float(rng.uniform(0.3, 6)), float(rng.randn())
    return u


def check_pairs(mon, pairs, n, best=None):
    ok = mon.check(len(pairs) == max(n - 1, 0) and all(len(p) == 3 for p in pairs), 'pairs_count', '%d pairs for %d alternatives' % (len(pairs), n))
    if not ok or n < 2:
        return None
    win = {int(p[1] if p[0] == -1 else p[2]) for p in pairs}
    lose = sorted(int(p[2] if p[0] == -1 else p[1]) for p in pairs)
    mon.check(len(win) == 1, 'pairs_one_winner', 'winners %s' % win)
    w = win.pop()
    mon.check(lose == [i for i in range(n) if i != w], 'pairs_cover_query', 'winner %d preferred over %s of %d' % (w, lose, n))
    return w


def perfect(rng, mon, tier, idx):
    f, d = fn(rng)
    u = lop.PerfectUser(f)
    R = query(rng, d)
    n = len(R)
    keep = R.copy()
    y = np.asarray(f(R), float)
    mon.op('PerfectUser', type(f).__name__, n, d)
    c = u.choose(R)
    mon.check(int(c) == c and 0 <= c < n and y[int(c)] == y.max(), 'perfect_choice', 'chose %r, rewards %s' % (c, y.tolist()))
    w = check_pairs(mon, u.choose_pairs(R), n)
    mon.check(w is None or y[w] == y.max(), 'perfect_pairs', 'preferred %r, rewards %s' % (w, y.tolist()))
    rates = np.array([float(u.rate(R[i] if d > 1 else float(R[i]))) for i in range(n)])
    mon.check(((rates >= 0) & (rates <= 1)).all(), 'rating_range', 'ratings %s' % rates.tolist())
    mon.close(rates, 1 / (1 + np.exp(-4 * y)), 'perfect_rating', rtol=1e-9, atol=1e-12)
    o = np.argsort(y, kind='stable')
    mon.check((np.diff(rates[o]) >= 0).all(), 'rating_order', 'ratings %s for rewards %s' % (rates.tolist(), y.tolist()))
    if n > 1:
        perm = rng.permutation(n)
        cp = int(u.choose(R[perm]))
        mon.check(y[perm[cp]] == y.max(), 'perfect_permutation', 'chose %d of the reordered query' % cp)
    mon.check(np.array_equal(R, keep), 'argument_modified', 'the query was changed')
    big = u.rate(R[0] * 1e5 if d > 1 else float(R[0]) * 1e5)
    mon.check(np.isnan(f(R[0] * 1e5 if d > 1 else float(R[0]) * 1e5)) or 0 <= float(big) <= 1, 'rating_range', 'rating %r of a large reward' % big)
    if n > 1 and np.ptp(y) > 0:
        mon.nontrivial(type(f).__name__, R)
    mon.event('perfect')


def frequencies(rng, mon, tier, idx):
    f, d = fn(rng)
    u = users(rng, f)
    R = query(rng, d, int(rng.randint(1, 7)))
    n = len(R)
    keep = R.copy()
    y = np.asarray(f(R), float) * u.k + u.b
    q = softmax((y - y.max()) * u.beta)
    N = 1500
    mon.op(type(u).__name__, type(f).__name__, n, u.beta)
    for kind in ('choose', 'pairs'):
        c = np.zeros(n, int)
        for _ in range(N):
            if kind == 'choose':
                i = u.choose(R)
                if not mon.check(int(i) == i and 0 <= i < n, 'choice_position', 'answered %r of %d' % (i, n)):
                    return
                c[int(i)] += 1
            else:
                if n < 2:
                    break
                w = check_pairs(mon, u.choose_pairs(R), n)
                if w is None:
                    return
                c[w] += 1
        if c.sum() == 0:
            continue
        for i in range(n):
            lo, hi = binom.cdf(c[i], N, q[i]), binom.sf(c[i] - 1, N, min(q[i] + 1e-12, 1))
            mon.check(lo > 1e-10 and hi > 1e-10, 'choice_frequency', '%s: position %d chosen %d times of %d, probability %.4g' % (kind, i, c[i], N, q[i]),
                      rewards=y, beta=u.beta)
    mon.check(np.array_equal(R, keep), 'argument_modified', 'the query was changed')
    mon.event('frequencies')
    if n > 1 and np.ptp(y) > 0:
        mon.nontrivial(type(f).__name__, R, u.beta)


def ratings(rng, mon, tier, idx):
    f, d = fn(rng)
    u = users(rng, f)
    R = query(rng, d, 3)
    y = np.asarray(f(R), float) * u.k + u.b
    N = 1200
    mon.op(type(u).__name__ + '.rate', type(f).__name__, u.sigma)
    single = np.array([float(u.rate(R[0] if d > 1 else float(R[0]))) for _ in range(N)])
    batch = np.array([np.asarray(u.rate(R), float) for _ in range(N)])
    mon.check(batch.shape == (N, 3), 'rating_shape', '%s' % (batch.shape,))
    for v in (single, batch):
        mon.check(((v >= 0) & (v <= 1)).all(), 'rating_range', 'ratings from %r to %r' % (v.min(), v.max()))
    for name, v, loc in [('single', single, y[0])] + [('batch', batch[:, i], y[i]) for i in range(3)]:
        if abs(loc) + 6 * u.sigma > 30:
            continue                                     # the rating saturates in floating point
        z = (np.log(v) - np.log1p(-v) - loc) / u.sigma
        p = kstest(z, 'norm').pvalue
        mon.check(p > 1e-9, 'rating_distribution', '%s ratings: mean %.3f, sd %.3f of the standardised latent score (p=%.2g)' % (name, z.mean(), z.std(), p), sigma=u.sigma, reward=loc)
        mon.event('rating_distributions')
    # the ratings of one call scatter independently of each other
    if np.max(np.abs(y)) + 6 * u.sigma < 30:
        z = (np.log(batch) - np.log1p(-batch) - y) / u.sigma
        for i, j in ((0, 1), (0, 2), (1, 2)):
            r = float(np.mean(z[:, i] * z[:, j]))
            mon.check(abs(r) < 7 / np.sqrt(N), 'rating_independence', 'correlation %.3f between the noise of items %d and %d rated together' % (r, i, j), sigma=u.sigma)
        R2 = query(rng, d, 400)
        y2 = np.asarray(f(R2), float) * u.k + u.b
        if np.max(np.abs(y2)) + 6 * u.sigma < 30:
            v = np.asarray(u.rate(R2), float)
            z = (np.log(v) - np.log1p(-v) - y2) / u.sigma
            mon.check(kstest(z, 'norm').pvalue > 1e-9, 'rating_batch_distribution', '400 items rated at once: mean %.3f, sd %.3f of the standardised latent score' % (z.mean(), z.std()), sigma=u.sigma)
            mon.event('large_rated')
    mon.nontrivial(type(f).__name__, R, u.sigma)


def quiet(g, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return g(*a, **k)


def calibrate2(rng, mon, tier, idx):
    """HumanChoiceUser2: accuracy over all pairs of every problem equals what was asked for"""
    f, d = fn(rng)
    n = int(rng.choice([2, 3, 4, 6, 12, 40]))
    E, P = int(rng.randint(1, 4)), int(rng.randint(1, 4))
    R = [[query(rng, d, n) for _ in range(P if rng.rand() < .6 else int(rng.randint(1, 4)))] for _ in range(E)]     # environments may hold different numbers of problems
    Y0 = [np.asarray(f(r), float) for e in R for r in e]
    if np.ptp(np.concatenate(Y0)) < 1e-6 * (1 + np.max(np.abs(np.concatenate(Y0)))):
        from harness.core import Skip
        raise Skip
    u = lop.HumanChoiceUser2(f, bot_range=float(rng.choice([0.1, 0.05])), top_range=float(rng.choice([0.9, 0.97])))
    p = float(rng.choice([0.55, 0.6, 0.7, 0.8, 0.9, 0.95, 0.98]))
    ps = None if rng.rand() < 0.3 else float(rng.choice([0.6, 0.7, 0.8, 0.9]))
    keep = [[r.copy() for r in e] for e in R]
    mon.op('learn_beta', type(f).__name__, n, E, P, p, ps)
    quiet(u.learn_beta, R, p, p_sigma=ps) if ps is not None or rng.rand() < 0.5 else quiet(u.learn_beta, R, p)
    mon.check(all(np.array_equal(a, b) for x, z in zip(R, keep) for a, b in zip(x, z)), 'argument_modified', 'learn_beta changed the rewards')
    target_s = p if ps is None else ps
    lo, hi = min(y.min() for y in Y0), max(y.max() for y in Y0)
    lg = lambda t: np.log(t) - np.log(1 - t)
    mon.close(u.k * np.array([lo, hi]) + u.b, [lg(u.bot_range), lg(u.top_range)], 'reward_range', rtol=1e-7, atol=1e-7)
    pr = np.array(list(itertools.combinations(range(n), 2)))
    D = np.concatenate([np.abs(y[pr[:, 0]] - y[pr[:, 1]]) * u.k for y in Y0])
    tiny = bool(np.any((D > 0) & (D <= 1e-6)))          # equal up to rounding: a tie or a coin flip, both are right
    D = D[D > 1e-9]
    if not mon.check(np.isfinite(u.beta) and u.beta > 0 and np.isfinite(u.sigma) and u.sigma > 0, 'calibrated_valid', 'beta %r sigma %r' % (u.beta, u.sigma)):
        return
    acc = lambda b: np.mean(1 / (1 + np.exp(-b * D)))
    racc = lambda s: np.mean(ndtr(D / (np.sqrt(2) * s)))
    if not tiny and acc(0.02) + 0.002 < p < acc(190) - 0.002:
        mon.close(acc(u.beta), p, 'choice_accuracy', rtol=0, atol=0.01, beta=u.beta, differences=D)
        mon.event('beta_calibrated')
    if not tiny and racc(4.9) + 0.002 < target_s < racc(0.0015) - 0.002:
        mon.close(racc(u.sigma), target_s, 'rating_accuracy', rtol=0, atol=0.015, sigma=u.sigma, differences=D)
        mon.event('sigma_calibrated')
    mon.nontrivial(type(f).__name__, p, ps, D)


def calibrate1(rng, mon, tier, idx):
    """HumanChoiceUser: accuracy over queries is near what was asked for, in each run and on average"""
    errs, rerrs = [], []
    for _ in range(4 if tier == 'quick' else 6):
        d = int(rng.randint(2, 4))
        f = getattr(lop, ['FakeLinear', 'FakeWeightedMin', 'FakeLogistic', 'FakeWeightedMax'][rng.randint(4)])(d)
        n, qs = int(rng.choice([40, 60])), int(rng.choice([2, 2, 3]))
        R = rng.rand(n, d) * float(rng.choice([1, 3]))
        p = float(rng.choice([0.7, 0.8, 0.9]))
        u = lop.HumanChoiceUser(f)
        keep = R.copy()
        mon.op('learn_beta', type(f).__name__, n, qs, p)
        try:
            if rng.rand() < 0.5:
                quiet(u.learn_beta, R, p, Q_size=qs)
            else:
                quiet(u.learn_beta_pairwise, R, p, Q_size=qs)
                quiet(u.learn_sigma, R, p, Q_size=qs)
        except Exception as e:
            if 'after 10 tries' not in str(e):
                raise
            mon.event('calibration_refused')
            continue
        mon.check(np.array_equal(R, keep), 'argument_modified', 'learn_beta changed the rewards')
        Q = np.array(list(itertools.combinations(range(n), qs)))
        Q = Q[rng.permutation(len(Q))[:4000]]
        y = np.asarray(f(R[Q]), float) * u.k + u.b
        a = softmax(y * u.beta, axis=1).max(axis=1).mean()
        r = (rng.normal(y, u.sigma).argmax(axis=1) == y.argmax(axis=1)).mean()
        mon.close(a, p, 'choice_accuracy_coarse', rtol=0, atol=0.28, beta=u.beta)
        mon.close(r, p, 'rating_accuracy_coarse', rtol=0, atol=0.28, sigma=u.sigma)
        errs.append(a - p); rerrs.append(r - p)
        mon.event('user1_calibrated')
    if len(errs) >= 3:
        mon.check(np.mean(np.abs(errs)) < 0.13, 'choice_accuracy_average', 'errors %s' % np.round(errs, 3).tolist())
        mon.check(np.mean(np.abs(rerrs)) < 0.17, 'rating_accuracy_average', 'errors %s' % np.round(rerrs, 3).tolist())
    mon.nontrivial('cal1', idx)


def query_sets(rng, mon, tier, idx):
    """the queries a user is calibrated on are different sets of different items, at least thirty of them where there are so many"""
    u = lop.HumanChoiceUser(lop.FakeLinear(2))
    n = int(rng.choice([2, 3, 4, 6, 8, 9, 12, 20, 40])) if rng.rand() < .97 else 360
    size = int(rng.randint(2, min(n, 4) + 1)) if n < 100 else 2
    R = rng.rand(n, 2)
    mon.op('sample_Qs', n, size)
    Q = np.asarray(u.sample_Qs(R, size))
    total = math.comb(n, size)
    mon.check(Q.ndim == 2 and Q.shape[1] == size and min(30, total) <= len(Q) <= min(total, 60000), 'query_count', '%s queries of %d items out of %d, %d sets exist' % (Q.shape, size, n, total))
    rows = [tuple(sorted(r)) for r in Q.tolist()]
    mon.check(len(set(rows)) == len(rows) and all(len(set(r)) == size and 0 <= r[0] and r[-1] < n for r in rows), 'query_sets', 'repeated or invalid sets among %s' % rows[:5])
    mon.event('query_sets')
    mon.nontrivial(n, size, len(Q))


GROUPS = [
    Group('perfect', perfect, 800, 40000, require=('perfect',)),
    Group('frequencies', frequencies, 80, 2000, require=('frequencies',)),
    Group('ratings', ratings, 80, 2000, require=('rating_distributions', 'large_rated')),
    Group('calibration2', calibrate2, 250, 8000, require=('beta_calibrated', 'sigma_calibrated')),
    Group('calibration1', calibrate1, 16, 300, require=('user1_calibrated',)),
    Group('query_sets', query_sets, 250, 4000, require=('query_sets',), hang=60),
]
