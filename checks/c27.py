"""C27: recorded Markov chains versus the Metropolis acceptance rule."""
import numpy as np
import lop
from scipy.stats import binom
from harness.core import Group

TECHNIQUE = 'runtime monitor: offline checker over recorded chains (states, proposals, acceptance martingale)'
RULE = ('random targets (Gaussian, bimodal, bounded support, huge log densities, flat, discrete) of 1-6 dimensions, proposal widths and chain lengths; '
        'non-trivial = a chain with both accepted and refused proposals; distinct by target and chain')


def target(rng, d):
    k = ('gauss', 'bimodal', 'box', 'huge', 'flat', 'steep', 'half')[rng.randint(7)]
    c = rng.randn(d) * 0.5
    s = np.exp(rng.uniform(-1.5, 1, d))
    if k == 'gauss':
        return k, lambda x: -0.5 * np.sum(((x - c) / s) ** 2)
    if k == 'bimodal':
        return k, lambda x: np.logaddexp(-0.5 * np.sum(((x - c) / s) ** 2), -0.5 * np.sum((x + 2.5) ** 2))
    if k == 'box':
        return k, lambda x: 0.0 if np.all(np.abs(x) <= 1.5) else -np.inf
    if k == 'huge':                                     # unnormalised: the constant must not matter
        off = float(rng.choice([-1, 1])) * 1e4
        return k, lambda x: off - 0.5 * np.sum(((x - c) / s) ** 2)
    if k == 'flat':
        return k, lambda x: 3.0
    if k == 'steep':
        return k, lambda x: -400.0 * np.sum((x - c) ** 2)
    return k, lambda x: -np.sum(np.abs(x)) if x[0] > -1.2 else -np.inf


def run(rng, mon, ll, d, N, burn, std, default=False):
    steps, seen = [], []

    def prop(x, *a, **k):
        x0 = np.array(x, copy=True)
        y = lop.normal_prop_dist(x, std=std)
        steps.append((x0, np.array(y, copy=True)))
        return y

    def rec(x):
        seen.append(np.array(x, copy=True))
        return ll(x)
    kw = {}
    if burn is not None:
        kw['num_to_burn'] = burn
    if d != 1 or rng.rand() < 0.5:
        kw['dim'] = d
    if default:
        S = np.asarray(lop.metropolis_hastings(rec, N, **kw))
    else:
        S = np.asarray(lop.metropolis_hastings(rec, N, prop_distribution=prop, **kw))
    return S, steps, seen


def chain(rng, mon, tier, idx):
    d = int(rng.randint(1, 7))
    kind, ll = target(rng, d)
    N = int(rng.choice([1, 5, 60, 400, 1200]))
    burn = [None, 0, 1, 37, 200][rng.randint(5)]
    std = float(rng.choice([0.05, 0.4, 2.0]))
    mon.op('metropolis_hastings', kind, d, N, burn, std)
    S, steps, seen = run(rng, mon, ll, d, N, burn, std)
    b = 500 if burn is None else burn
    if not mon.check(S.shape == (N, d), 'shape', '%s, expected (%d, %d)' % (S.shape, N, d)):
        return
    mon.check(np.isfinite(S).all(), 'finite', 'states not finite')
    if not mon.check(len(steps) == N + b, 'proposal_count', '%d proposals for %d samples after %d' % (len(steps), N, b)):
        return
    mon.check(np.all(np.abs(steps[0][0]) <= 1), 'start', 'chain starts at %s' % steps[0][0])
    # states after every step: the state the next proposal starts from; the last one is the last sample
    states = [s[0] for s in steps[1:]] + [S[-1]]
    acc = p_acc = var = 0.0
    refused = accepted = 0
    dwell = 0
    supported = np.isfinite(ll(steps[0][0]))
    for i, ((cur, prop), nxt) in enumerate(zip(steps, states)):
        stay, move = np.array_equal(nxt, cur), np.array_equal(nxt, prop)
        if not mon.check(stay or move, 'transition', 'step %d: state is neither the previous one nor the proposal' % i, cur=cur, prop=prop, next=nxt):
            return
        lc, lp = ll(cur), ll(prop)
        if np.isfinite(lc):
            supported = True
            a = float(np.exp(min(lp - lc, 0.0)))
            if a >= 1:
                mon.check(move or stay and move, 'uphill_accepted', 'step %d: a proposal at least as likely was refused (%r after %r)' % (i, lp, lc), cur=cur, prop=prop)
            elif a == 0:
                mon.check(stay, 'impossible_refused', 'step %d: a proposal of log density %r was accepted' % (i, lp), cur=cur, prop=prop)
            else:
                acc += move; p_acc += a; var += a * (1 - a)
            accepted += move; refused += stay and not move
        if supported and i >= b:
            mon.events['checked:support'] += 1
            if not np.isfinite(ll(nxt)):
                mon.fail('support', 'state of zero density visited', state=nxt)
                return
    mon.check(abs(acc - p_acc) <= 7 * np.sqrt(var) + 10, 'acceptance_rate', '%d proposals accepted, expected %.1f (sd %.1f)' % (acc, p_acc, np.sqrt(var)), target=kind, std=std)
    mon.check(all(np.array_equal(S[j], states[b + j]) for j in range(N)), 'samples_are_states', 'returned samples are not the chain states after the burn-in')
    mon.event('steps', len(steps)); mon.event('uncertain_steps', int(var > 0))
    mon.event('target:' + kind)
    if accepted and refused:
        mon.nontrivial(kind, d, N, b, S[-1])
    mon.sample(dict(target=kind, d=d, samples=N, burn=b, accepted=int(accepted), refused=int(refused)))


EDGES = np.array([0.0, 0.25, 0.6, 1.0, 1.6, 2.5, 3.5, 5.0, 7.0, 10.0, np.inf])


def plateaus(rng, d):
    """bounded target made of plateaus, so that every ratio between two plateau heights comes up often"""
    h = -rng.uniform(0, rng.choice([2.0, 4.0, 6.0]), 7)
    w = float(rng.uniform(0.3, 1.0))
    return lambda x: float(h[int(np.floor(np.sum(x) / w)) % 7]) if np.all(np.abs(x) < 4) else -np.inf


def tail(k, mu):
    """Chernoff bound on the probability of a count as far from its mean (sum of independent accept probabilities)"""
    if mu <= 0:
        return 0.0 if k else 1.0
    return float(np.exp(min(0.0, k - mu + (k * np.log(mu / k) if k else 0.0))))


def pooled(rng, mon, tier, idx):
    """many chains pooled: acceptances by density ratio to high precision"""
    std = float(rng.choice([0.7, 2.0, 3.0]))
    n = len(EDGES) - 1
    got, want, num = np.zeros(n), np.zeros(n), np.zeros(n)
    for c in range(8):
        d = int(rng.randint(1, 3))
        kind, ll = target(rng, d)
        if c % 2:
            kind, ll = 'plateaus', plateaus(rng, d)
        S, steps, seen = run(rng, mon, ll, d, 1500, 0, std)
        for (cur, prop), nxt in zip(steps, [s[0] for s in steps[1:]] + [S[-1]]):
            lc, lp = ll(cur), ll(prop)
            if not (np.isfinite(lc) and np.isfinite(lp)) or lp >= lc:
                continue
            j = int(np.searchsorted(EDGES, lc - lp)) - 1
            got[j] += np.array_equal(nxt, prop); want[j] += np.exp(lp - lc); num[j] += 1
    for j in range(n):
        # acceptance and refusal counts are both sums of independent events
        p = min(tail(got[j], want[j]), tail(num[j] - got[j], num[j] - want[j]))
        mon.check(p > 1e-11, 'acceptance_by_ratio', 'log ratio -%g to -%g: %d of %d accepted, expected %.1f' % (EDGES[j], EDGES[j + 1], got[j], num[j], want[j]), std=std)
        mon.event('ratio_bin:%g' % EDGES[j], int(num[j]))
    mon.event('pooled', int(num.sum() > 0))
    mon.nontrivial('pooled', idx)


def stationary(rng, mon, tier, idx):
    """long-run moments with the default proposal"""
    d = int(rng.randint(1, 4))
    c, s = rng.randn(d), np.exp(rng.uniform(-0.3, 0.7, d))
    N = 12000
    mon.op('metropolis_hastings default proposal', d)
    S, _, seen = run(rng, mon, lambda x: -0.5 * np.sum(((x - c) / s) ** 2), d, N, None, None, default=True)
    if not mon.check(S.shape == (N, d), 'shape', '%s' % (S.shape,)):
        return
    # batch means give the Monte-Carlo error of the chain itself
    for name, v, want in [('mean', S, c), ('variance', (S - c) ** 2, s ** 2), ('below', (S < c).astype(float), np.full(d, 0.5)), ('tail', (S > c + s).astype(float), np.full(d, 0.15865525))]:
        B = v.reshape(40, N // 40, d).mean(axis=1)
        se = B.std(axis=0, ddof=1) / np.sqrt(40)
        ref = {'mean': s, 'variance': s ** 2, 'below': 0.5, 'tail': 0.37}[name]
        mon.check((np.abs(v.mean(axis=0) - want) <= 9 * se + 0.05 * ref).all(), 'long_run_' + name,
                  '%s, expected %s (error %s)' % (v.mean(axis=0), want, se), centre=c, scale=s)
    mon.event('stationary')
    mon.nontrivial('stationary', c, s)


def proposal(rng, mon, tier, idx):
    d = int(rng.randint(1, 4))
    x = rng.randn(d) * 3
    keep = x.copy()
    std = float(rng.choice([0.1, 1.0, 2.0, 5.0]))
    N = 4000
    P = np.array([lop.normal_prop_dist(x, std=std) if std != 2.0 or i % 2 else lop.normal_prop_dist(x) for i in range(N)]) - keep
    mon.check(np.array_equal(x, keep), 'proposal_modifies_state', 'the proposal changed the current state')
    mon.check(P.shape == (N, d), 'proposal_shape', '%s' % (P.shape,))
    mon.check((np.abs(P.mean(axis=0)) < 7 * std / np.sqrt(N)).all(), 'proposal_centred', 'mean step %s of width %g' % (P.mean(axis=0), std))
    mon.check((np.abs(P.std(axis=0) / std - 1) < 7 / np.sqrt(2 * N)).all(), 'proposal_width', 'width %s, expected %g' % (P.std(axis=0), std))
    for j in range(d):
        k = int(np.sum(P[:, j] > 0))
        mon.check(min(binom.cdf(k, N, 0.5), binom.sf(k - 1, N, 0.5)) > 1e-11, 'proposal_symmetric', '%d of %d steps up' % (k, N))
    if d > 1:
        r = np.corrcoef(P[:, 0], P[:, 1])[0, 1]
        mon.check(abs(r) < 7.5 / np.sqrt(N), 'proposal_independent', 'correlation %g between coordinates' % r)
    mon.event('proposals')
    mon.nontrivial('prop', x, std)


GROUPS = [
    Group('chain', chain, 250, 10000, require=('steps', 'target:gauss', 'target:box', 'target:huge', 'target:half')),
    Group('pooled', pooled, 24, 600, require=('pooled',)),
    Group('stationary', stationary, 24, 500, require=('stationary',)),
    Group('proposal', proposal, 40, 1000, require=('proposals',)),
]
