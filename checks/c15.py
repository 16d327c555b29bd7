"""C15: each greedy learner maximises its documented score."""
import numpy as np
import lop
from lop.utilities import metropolis_hastings
from harness.core import Group
from harness import gen, mgen, agen, ref
from harness.interpose import interposed

RULE = ('best/worst/UCB/generalised-variance/mutual-information learners on random models (GP, preference GP, linear with sampled '
        'weights), candidate sets with duplicates, histories and preferred sets; every position of the returned query is compared '
        'with reference scores of all candidates still eligible; distinct by learner, model, sizes and history')
ASSUMPTIONS = ['linear models: the score uses the weight samples the learner actually drew', 'mutual information: judged with the reward samples the learner drew, which are tested against the predicted mean and covariance']
TECHNIQUE = 'runtime monitoring: selections compared with independently computed scores of every eligible candidate; recorded samples'


def spd_power(cov, ix, k, eps=1e-12):
    S = cov[np.ix_(ix, ix)]
    det = np.linalg.det(S)
    e = eps * max(np.prod(np.abs(np.diag(S))), np.max(np.abs(np.diag(S))) ** k * 1e-3)
    return max(det - e, 0.0) ** (1.0 / k), (max(det, 0.0) + e) ** (1.0 / k)


def softmax_rows(r, p):
    z = r * p
    z = z - z.max(axis=1, keepdims=True)
    e = np.exp(z)
    return e / e.sum(axis=1, keepdims=True)


def info_gain(W, Q, p):
    P = softmax_rows(W[:, Q], p)
    M = len(W)
    S = P.sum(axis=0)
    with np.errstate(all='ignore'):
        t = np.where(P > 0, P * np.log2(M * P / S), 0.0)
    return t.sum() / M


def steps(out, n, prev, pref, best):
    """(position, already chosen, eligible) for every greedy pick"""
    H = set(prev)
    for t in range(len(out)):
        if best and not H and t == 0:
            continue
        chosen = H | set(out[:t])
        E = set(pref) - chosen
        yield t, chosen, sorted(E if E else set(range(n)) - chosen)


def case(rng, mon, tier, idx):
    name = ('Best', 'Worst', 'UCB', 'UCB', 'GV_UCB', 'GV_UCB', 'MutualInfo', 'MutualInfo')[idx % 8]
    kind = ('pgp', 'gp', 'lin')[rng.randint(3)]
    d = int(rng.randint(0, 4)) if kind != 'lin' else int(rng.randint(2, 4))
    best = bool(rng.rand() < .2)
    al = agen.learner(rng, name, always_select_best=best)
    m, _ = agen.model(rng, al, d, kind, data=int(rng.choice([2, 4, 6])))
    many = idx // 8 % 20 == 3
    C = agen.candidates(rng, d, int(rng.choice([2, 3, 5, 8])), many)
    if rng.rand() < .3:
        C = np.array(C)
        C[0] = m.X_train[0]          # a point with almost no variance left
    n = len(C)
    prev = [int(i) for i in rng.choice(n, rng.randint(0, n - 1), replace=False)] if rng.rand() < .5 else []
    pref = sorted(int(i) for i in rng.choice(n, rng.randint(1, n + 1), replace=False)) if rng.rand() < .5 else list(range(n))
    k = int(rng.randint(1, min(n - len(prev), 4) + 1))
    kw = dict(learner=name, model=kind, d=d, n=n, k=k, prev=prev, prefer=pref, best=best)
    mon.op('select', kw)
    mu, var = m.predict(C)
    mu = np.array(mu)
    cov = None if kind == 'lin' else np.array(m.cov)
    samples, gains = [], []
    if name == 'MutualInfo' and hasattr(al, 'calc_info_gain'):
        orig = al.calc_info_gain
        al.calc_info_gain = lambda Q, W, *a: (lambda v: (gains.append((list(Q), W, v)), v)[1])(orig(Q, W, *a))

    def wrap(fn):
        def f(*a, **kk):
            r = fn(*a, **kk)
            samples.append(np.array(r))
            return r
        return f
    with interposed(metropolis_hastings, wrap):
        out = [int(i) for i in m.select(C, k, prev, pref)]
    st = list(steps(out, n, prev, pref, best))
    if kind == 'lin' and name in ('UCB', 'GV_UCB', 'MutualInfo') and len(samples) != len(st):
        mon.event('samples_not_observed')
        return
    scale = 1 + np.max(np.abs(mu))
    for j, (t, chosen, E) in enumerate(st):
        if name in ('Best', 'Worst'):
            s = mu if name == 'Best' else -mu
            lo = hi = {i: s[i] for i in E}
        elif name in ('UCB', 'GV_UCB'):
            if kind == 'lin':
                F = samples[j] @ C.T
                v, K = F.var(axis=0), np.atleast_2d(np.cov(F.T))
                scale = 1 + np.max(np.abs(mu)) + np.max(np.abs(K))
            else:
                v, K = np.array(var), cov
            if name == 'UCB':
                lo = hi = {i: mu[i] + al.alpha * np.sqrt(max(v[i], 0)) for i in E}
            else:
                b = {i: spd_power(K, sorted(chosen) + [i], len(chosen) + 1) for i in E}
                lo = {i: mu[i] + al.alpha * b[i][0] for i in E}
                hi = {i: mu[i] + al.alpha * b[i][1] for i in E}
        else:
            rec = [g for g in gains if set(g[0][:-1]) == chosen]
            if not rec:
                mon.event('gains_not_observed')
                continue
            W = rec[0][1]
            lo = hi = {i: info_gain(W, sorted(chosen) + [i], al.peakiness) for i in E}
            for Q, W_, v in rec:
                mon.close(v, info_gain(W_, Q, al.peakiness), 'information_gain', 1e-9, 1e-9, 'information gain of %r' % Q, **kw)
            if kind != 'lin':
                S = np.array(W)
                se = np.sqrt(np.maximum(np.diag(cov), 0) / len(S))
                mon.check(bool(np.all(np.abs(S.mean(axis=0) - mu) <= 7 * se + 1e-6 * scale)), 'sample_mean', 'reward samples are not centred on the prediction', **kw)
                mon.check(bool(np.all(S.var(axis=0) <= 6 * np.diag(cov) + 1e-6 * scale)), 'sample_variance', 'reward samples spread too far', **kw)
                mon.event('samples_judged')
            mon.event('information_gain')
        top = max(E, key=lambda i: lo[i])
        mon.check(out[t] in E and hi[out[t]] >= lo[top] - 1e-8 * scale, 'not_maximal', 'position %d: picked %d (score %r), best is %d (score %r)' % (t, out[t], hi.get(out[t]), top, lo[top]), chosen=chosen, eligible=E, **kw)
        mon.event('judged_' + name)
        if len(E) > 1:
            mon.event('choice')
    if st and al.sel_metric is not None and name in ('Best', 'Worst', 'UCB', 'MutualInfo') and out[-1] in lo:
        want = lo[out[-1]] * (-1 if name == 'Worst' else 1)
        mon.close(al.sel_metric, want, 'reported_score', 1e-7, 1e-8 * scale, 'score reported for the selection', **kw)
    if st and al.sel_metric is not None and name == 'GV_UCB' and out[-1] in lo:
        v = float(al.sel_metric)
        mon.check(lo[out[-1]] - 1e-7 * scale <= v <= hi[out[-1]] + 1e-7 * scale, 'reported_score', 'score %r reported, expected %r to %r' % (v, lo[out[-1]], hi[out[-1]]), chosen=st[-1][1], **kw)
        mon.event('gv_score_%s' % ('many_chosen' if len(st[-1][1]) > 3 else 'few_chosen'))
    if many:
        mon.event('many')
    mon.nontrivial(name, kind, d, n, k, prev, pref, out)
    mon.sample(dict(kw, selected=out))


def variance_counts(rng, mon, tier, idx):
    """designed sets: the highest-scored candidate changes with what is already chosen / with alpha"""
    al = lop.GV_UCBLearner(alpha=float(rng.uniform(2, 6)))
    m = lop.GP(lop.RBF_kern(1.0, 1.0), active_learner=al)
    m.add(np.array([[50.0], [60.0]]), np.array([0.0, 0.0]))
    a = float(rng.uniform(0, 1))
    C = np.array([[a], [a + 1e-3], [a + 8.0], [a + 8.0 + 1e-3]])
    out = m.select(C, 2)
    mon.check(abs(C[out[0], 0] - C[out[1], 0]) > 1, 'gv_redundant', 'two nearly identical candidates chosen: %r' % out)
    u = lop.UCBLearner(alpha=float(rng.uniform(3, 9)))
    u.set_model(m)
    m.add(np.array([[a + 20.0]]), np.array([0.5]))
    out = u.select(np.array([[a + 20.0], [a + 8.0]]), 1)
    mon.check(out == [1], 'ucb_ignores_variance', 'UCB with alpha %r prefers a known point over an unknown one' % u.alpha)
    u0 = lop.UCBLearner(alpha=0)
    u0.set_model(m)
    mon.check(u0.select(np.array([[a + 20.0], [a + 8.0]]), 1) == [0], 'ucb_zero_alpha', 'alpha 0 is not the mean')
    mon.event('designed')
    mon.nontrivial(idx)


def random_reach(rng, mon, tier, idx):
    al = lop.RandomLearner()
    m = lop.SimplelestModel(active_learner=al)
    n = int(rng.randint(2, 7))
    C = rng.rand(n, 2)
    prev = [int(i) for i in rng.choice(n, rng.randint(0, n), replace=False)]
    E = set(range(n)) - set(prev)
    seen = set()
    for _ in range(400):
        seen.add(int(m.select(C, 1, prev)[0]))
    mon.check(seen == E, 'random_reach', 'random learner only ever selects %r of %r' % (seen, E))
    mon.event('random_reach')
    mon.nontrivial(n, prev)


def gain_reference(rng, mon, tier, idx):
    al = lop.MutualInfoLearner()
    al.peakiness = float(rng.choice([0.3, 1, 10]))
    M, n = int(rng.choice([2, 10, 75, 300])), int(rng.randint(2, 6 if idx % 20 else 40))
    al.M = M
    W = rng.randn(M, n) * float(rng.choice([0.1, 1, 30, 500])) + rng.randn(M, 1) * float(rng.choice([0, 200]))
    Q = [int(i) for i in rng.choice(n, rng.randint(2, n + 1), replace=False)]
    v = al.calc_info_gain(Q, W)
    mon.close(v, info_gain(W, Q, al.peakiness), 'information_gain_formula', 1e-9, 1e-9, 'information gain', M=M, Q=Q)
    mon.check(-1e-9 <= v <= np.log2(len(Q)) + 1e-9, 'information_gain_bounds', 'information gain %r for %d alternatives' % (v, len(Q)))
    mon.event('gain_formula')
    mon.nontrivial(M, Q, v)


GROUPS = [Group('scores', case, 1280, 24000, require=['judged_Best', 'judged_Worst', 'judged_UCB', 'judged_GV_UCB', 'choice', 'many']),
          Group('designed', variance_counts, 60, 300, require=['designed']),
          Group('random', random_reach, 20, 200, require=['random_reach']),
          Group('gain', gain_reference, 450, 5000, require=['gain_formula'])]
