"""C34: information-gain learners score what they promise: the expected drop of uncertainty about the best candidate."""
import numpy as np
import lop
from scipy.special import betainc, ndtr
from lop.utilities import metropolis_hastings
from harness.core import Group
from harness import gen, mgen, agen
from harness.interpose import interposed

RULE = ('pairwise and rating information-gain learners on preference GP and linear models (noise from almost none to large), candidate '
        'sets with clear winners, ties and duplicates, every answer model, histories and preferred sets, several selections in a row '
        'with the same learner; scores and selections compared with direct loops over answers and candidates; distinct by learner, '
        'model, answer model, sizes and history')
ASSUMPTIONS = ['the probabilities of being best and of each answer are those the learner recorded; they are judged separately against samples of the prediction',
               'approxcdf is replaced by a stand-in with the same meaning',
               'rating gains are compared where every sampled rating distribution leaves at least 1e-9 above each candidate\'s mean']
TECHNIQUE = 'runtime monitoring: spies on the greedy and pair steps of real selections, with independent entropy computations as oracle'


def entropy(p):
    p = np.asarray(p, float)
    p = p[p > 1e-17]
    return float(-np.sum(p * np.log(p)))


def win(p, method):
    return {'probit': max(p, 1 - p), '999': .999, '99': .99}[method]


def pair_gain(Q, pB, P, method):
    """H(B) - sum over answers q of p(q) H(B | q), by definition"""
    Q = [int(i) for i in Q]
    N = len(pB)
    pq = np.array([np.prod([P[q, j] for j in Q if j != q]) for q in Q])
    pqB = np.empty((len(Q), N))
    for B in range(N):
        for a, q in enumerate(Q):
            v = 1.0
            for j in Q:
                if j == q:
                    continue
                if q == B:
                    v *= win(P[B, j], method)
                elif j == B:
                    v *= 1 - win(P[B, q], method)
                else:
                    v *= P[q, j]
            pqB[a, B] = v
    pq = pq / pq.sum()
    pqB = pqB / pqB.sum(axis=0)
    H = 0.0
    for a in range(len(Q)):
        post = pqB[a] * pB
        if post.sum() > 0:
            H += pq[a] * entropy(post / post.sum())
    return entropy(pB) - H


def unique_rows(C, tol=1e-6):
    D = np.sqrt(((C[:, None] - C[None]) ** 2).sum(-1)) + np.eye(len(C)) * 9
    return bool(D.min() > tol)


def best_probability(rng, mon, pB, m, C, mu, cov, runs, kw):
    """recorded probabilities of being the best against the predicted distribution"""
    ok = mon.check(bool(np.all(np.isfinite(pB)) and np.all(pB >= 0) and abs(pB.sum() - 1) < 1e-9), 'not_a_distribution', 'probabilities of being the best: %r' % (pB,), **kw)
    if not ok:
        return False
    if cov is not None:
        if unique_rows(C) and np.linalg.eigvalsh(cov).min() > 1e-7 * np.trace(cov):
            F = rng.multivariate_normal(mu, cov, 20000)
            f = np.bincount(F.argmax(axis=1), minlength=len(C)) / len(F)
            mon.check(bool(np.all(np.abs(f - pB) <= 6 * np.sqrt(.25 / len(F)) + 5e-3)), 'best_probability', 'probability of being the best %r, samples of the prediction give %r' % (pB, f), mu=mu, cov=cov, **kw)
            mon.event('best_judged')
    else:
        fs = [np.bincount((W @ C.T).argmax(axis=1), minlength=len(C)) / len(W) for W in runs if W.ndim == 2 and W.shape[1] == C.shape[1] and len(W) >= 200]
        if fs:
            mon.check(any(np.allclose(f, pB, atol=1e-9) for f in fs), 'best_probability', 'probability of being the best %r is not that of the drawn weights' % (pB,), samples=fs, **kw)
            mon.event('best_judged')
    return True


def build(rng, al, d, name):
    kind = ('pgp', 'pgp', 'pgp', 'lin')[rng.randint(4)]
    m, _ = agen.model(rng, al, d, kind, data=int(rng.choice([3, 4, 6])))
    r = rng.rand()
    if r < .25:
        m.probits[0].set_sigma(float(rng.choice([.005, .02, .1, .3])))
    return m, kind


def pairs(rng, mon, tier, idx):
    method = ('probit', '999', '99')[idx % 3]
    d = int(rng.randint(1, 4))
    best = bool(rng.rand() < .2)
    al = lop.BayesInfoGain(p_q_B_method=method, always_select_best=best) if method != 'probit' or rng.rand() < .5 else lop.BayesInfoGain(always_select_best=best)
    m, kind = build(rng, al, d, 'Bayes')
    for rnd in range(2):                       # the second selection must not use the first one's candidates
        C = agen.candidates(rng, d, int(rng.choice([2, 3, 4, 6]) if idx % 20 != 7 else rng.randint(8, 13)))
        n = len(C)
        prev = [int(i) for i in rng.choice(n, rng.randint(0, n - 1), replace=False)] if rng.rand() < .4 else []
        pref = sorted(int(i) for i in rng.choice(n, rng.randint(1, n + 1), replace=False)) if rng.rand() < .4 else None
        k = int(rng.randint(1, min(n - len(prev), 4) + 1))
        kw = dict(method=method, model=kind, d=d, n=n, k=k, prev=prev, prefer=pref, best=best, sigma=float(m.probits[0].sigma), round=rnd)
        mon.op('select', kw)
        runs, calls, preds = [], [], []

        def wrap(fn):
            def f(*a, **q):
                r = fn(*a, **q)
                runs.append(np.array(r))
                return r
            return f
        og, op, opr = al.select_greedy, al.select_pair, m.predict

        def sg(cp, mu, data, ind, pv, *a, **q):
            i0, p0 = sorted(ind), sorted(pv)
            r = og(cp, mu, data, ind, pv, *a, **q)
            calls.append(('greedy', i0, p0, r, al.sel_metric))
            return r

        def sp(cp, mu, data, ind, pv, *a, **q):
            i0, p0 = sorted(ind), sorted(pv)
            r = op(cp, mu, data, ind, pv, *a, **q)
            calls.append(('pair', i0, p0, r, al.sel_metric))
            return r

        def pr(X):
            r = opr(X)
            if len(X) == n and np.array_equal(X, C):
                preds.append(np.array(r[0]))
            return r
        al.select_greedy, al.select_pair, m.predict = sg, sp, pr
        try:
            with interposed(metropolis_hastings, wrap):
                m.select(C, k, prev, pref)
        finally:
            al.select_greedy, al.select_pair, m.predict = og, op, opr
        if not [c for c in calls if c[0] == 'pair' or len(c[2]) > 0]:
            mon.event('nothing_scored')
            continue
        mu = preds[0] if preds else np.array(opr(C)[0])
        if kind == 'pgp':
            m.predict(C)
            cov = np.array(m.cov)
        else:
            cov = None
        pB, P = np.array(al.p_B), np.array(al.probit_mat)
        if not mon.check(pB.shape == (n,) and P.shape == (n, n), 'stale', 'recorded probabilities are for %d candidates, not %d' % (len(pB), n), **kw):
            return
        want = ndtr((mu[:, None] - mu[None]) / (np.sqrt(2) * m.probits[0].sigma))
        mon.close(P, want, 'answer_probability', 1e-6, 1e-9, 'probability that one candidate is preferred to another', mu=mu, **kw)
        if not best_probability(rng, mon, pB, m, C, mu, cov, runs, kw):
            return
        if np.any(pB == 0):
            mon.event('impossible_best')
        if P.min() < 1e-100:
            mon.event('impossible_answer')
        for what, ind, pv, r, metric in calls:
            if what == 'greedy':
                if not pv:
                    continue
                s = {i: pair_gain(pv + [i], pB, P, method) for i in ind}
                got = int(r)
            else:
                s = {(i, j): pair_gain([i, j], pB, P, method) for i in ind for j in ind if i < j}
                got = tuple(sorted(int(x) for x in r))
            top = max(s.values())
            if not mon.check(got in s, 'not_allowed', '%s step picked %r' % (what, r), allowed=ind, **kw):
                return
            mon.close(metric, s[got], 'gain:' + what, 1e-6, 1e-8, 'reported information gain of %r' % (got,), pB=pB, P=P, before=pv, **kw)
            mon.check(s[got] >= top - 1e-7, 'not_maximal:' + what, '%s step picked %r with gain %r, the best gain is %r' % (what, got, s[got], top), gains=sorted(s.values())[-4:], pB=pB, before=pv, **kw)
            mon.event('judged_' + what)
            if top - min(s.values()) > 1e-4:
                mon.event('choice_' + what)
            if what == 'greedy' and len(pv) > 1:
                mon.event('larger_sets')
        mon.nontrivial(method, kind, d, n, k, prev, pref, best, rnd)
    mon.sample(kw)


def consistent(rng, mon, tier, idx):
    """picking the second alternative after the first gives the same score as picking both together"""
    method = ('probit', '999', '99')[idx % 3]
    d = int(rng.randint(1, 3))
    al = lop.BayesInfoGain(p_q_B_method=method)
    m, kind = build(rng, al, d, 'Bayes')
    C = gen.items(rng, int(rng.choice([3, 4, 5])), d, 3.5)
    mu, sd = m.predict(C)
    n = len(C)
    kw = dict(method=method, model=kind, d=d, n=n, sigma=float(m.probits[0].sigma))
    al.first_call_greedy = True
    i, j = (int(x) for x in al.select_pair(C, mu, sd, set(range(n)), set()))
    v = al.sel_metric
    mon.check(bool(np.isfinite(v)), 'not_finite', 'information gain of the pair is %r' % v, **kw)
    mon.check(-1e-9 <= v + (1 if method != 'probit' else 0), 'negative', 'information gain %r' % v, **kw)
    j2 = int(al.select_greedy(C, mu, sd, [j], {i}))
    mon.close(al.sel_metric, v, 'pair_and_greedy', 1e-6, 1e-9, 'gain of the pair (%d, %d)' % (i, j), **kw)
    for a in range(n):
        if a != i:
            al.select_greedy(C, mu, sd, [a], {i})
            mon.check(al.sel_metric <= v + 1e-7, 'better_second', 'adding %d to %d gains %r, more than the best pair %r' % (a, i, al.sel_metric, v), **kw)
    mon.event('compared')
    mon.nontrivial(method, kind, d, n, i, j, idx)


def ratings(rng, mon, tier, idx):
    d = int(rng.randint(1, 3))
    kind = ('pgp', 'pgp', 'lin')[idx % 3]
    al = lop.AbsBayesInfo(M=int(rng.choice([2, 8, 50])))
    m, _ = agen.model(rng, al, d, kind, data=int(rng.choice([3, 4, 6])))
    v, s = float(rng.choice([3., 10., 30., 80.])), float(rng.choice([.5, 1., 2., 6.]))
    m.probits[2].set_sigma(s)
    m.probits[2].set_v(v)
    for rnd in range(2):
        C = agen.candidates(rng, d, int(rng.choice([2, 3, 4, 6]) if idx % 20 != 7 else rng.randint(8, 13)))
        n = len(C)
        prev = [int(i) for i in rng.choice(n, rng.randint(0, n), replace=False)] if rng.rand() < .4 else []
        kw = dict(model=kind, d=d, n=n, M=al.M, v=v, sigma=s, prev=prev, round=rnd)
        mon.op('select', kw)
        runs = []

        def wrap(fn):
            def f(*a, **q):
                r = fn(*a, **q)
                runs.append(np.array(r))
                return r
            return f
        preds = []
        opr = m.predict

        def pr(X):
            r = opr(X)
            if len(X) == n and np.array_equal(X, C):
                preds.append(np.array(r[0]))
            return r
        m.predict = pr
        try:
            with interposed(metropolis_hastings, wrap):
                out = m.select(C, 1, prev)
        finally:
            m.predict = opr
        pB, F = np.array(al.p_B), np.array(al.all_Q)
        if not mon.check(pB.shape == (n,) and F.shape == (al.M, n), 'stale', 'recorded samples have shape %r for %d candidates' % (F.shape, n), **kw):
            return
        mu = preds[0] if preds else np.array(m.predict(C)[0])
        cov = None
        if kind == 'pgp':
            m.predict(C)
            cov = np.array(m.cov)
        if not best_probability(rng, mon, pB, m, C, mu, cov, runs, kw):
            return
        if cov is not None:
            sd = np.sqrt(np.maximum(np.diag(cov), 0))
            mon.check(bool(np.all(np.abs(F - mu) <= 7 * sd + 1e-4)), 'samples', 'reward samples are not drawn from the prediction', mu=mu, sd=sd, F=F, **kw)
        else:
            mon.check(any(W.ndim == 2 and len(W) == al.M and np.allclose(F, W @ C.T, atol=1e-9) for W in runs), 'samples', 'reward samples are not those of drawn weights', **kw)
        if np.any(pB == 0):
            mon.event('impossible_best')
        metric = al.sel_metric
        mon.check(bool(np.isfinite(metric)), 'not_finite', 'information gain %r' % metric, pB=pB, **kw)
        ml = ndtr(F / (np.sqrt(2) * s))
        if min(ml.min(), 1 - ml.max()) < 1e-8:
            mon.event('extreme')
            continue
        aa = v * ml
        tail = np.array([[[betainc(v - aa[q, i], aa[q, i], 1 - ml[q, B]) for B in range(n)] for i in range(n)] for q in range(al.M)])   # sample, asked, best
        if tail[:, :, pB > 0].min() < 1e-9:
            mon.event('extreme')
            continue
        g = -(np.log(np.maximum(tail, 1e-300)).mean(axis=0) @ pB)
        E = [i for i in range(n) if i not in prev]
        tol = 1e-3 * (1 + np.max(np.abs(g)))
        sel = int(out[0])
        if not mon.check(sel in E, 'not_allowed', 'picked %d' % sel, **kw):
            return
        mon.close(metric, g[sel], 'gain', 0, tol, 'reported information gain of rating %d' % sel, pB=pB, gains=g, **kw)
        mon.check(g[sel] >= max(g[E]) - 2 * tol, 'not_maximal', 'rating of %d has gain %r, the best gain is %r' % (sel, g[sel], max(g[E])), gains=g, **kw)
        mon.event('judged_rating')
        if len(E) > 1 and max(g[E]) - min(g[E]) > 4 * tol:
            mon.event('choice_rating')
    mon.nontrivial(kind, d, n, al.M, v, s, idx)
    mon.sample(kw)


GROUPS = [Group('pairs', pairs, 280, 3000, require=('judged_pair', 'judged_greedy', 'choice_pair', 'choice_greedy', 'larger_sets', 'best_judged', 'impossible_best', 'impossible_answer')),
          Group('consistent', consistent, 150, 2000, require=('compared',)),
          Group('ratings', ratings, 200, 3000, require=('judged_rating', 'choice_rating', 'best_judged', 'impossible_best'))]
