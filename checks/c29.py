"""C29: learning from a consistent user recovers the user's ordering."""
import contextlib, io, random
import numpy as np
import lop
from scipy.stats import spearmanr
from harness.core import Group, Skip
from harness import gen, agen, interpose

TECHNIQUE = 'runtime monitoring: closed loops of learner, perfect user and model, judged by rank correlation, reproduced answers and the direction every new answer moves the prediction'
RULE = ('every learner with linear and Gaussian-process models, linear and curved user rewards, random candidate pools; every loop asks 15 queries and answers them perfectly; '
        'rank agreement on unseen items pooled over loops; single answers added to random models; distinct by learner, model, user and pool')
ASSUMPTIONS = ['candidate pools are drawn uniformly from a box', 'kernel length scale comparable to the box; default likelihood parameters', 'thresholds on pooled agreement leave a wide margin below what is observed (see evidence events)']

interpose.serial_quadrature()

PAIR = ('Best', 'Worst', 'Random', 'UCB', 'GV_UCB', 'MutualInfo', 'Acq', 'Bayes')


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def learner(rng, name):
    if name not in agen.MIXED:
        return agen.learner(rng, name)
    st = rng.get_state()
    comp = agen.learner(rng, 'AbsAcq'); rng.set_state(st)
    pair = agen.learner(rng, 'Acq'); rng.set_state(st)
    rate = agen.learner(rng, 'AbsAcq')
    return agen.mixed(rng, name, pair, rate, comp)


def loop(rng, mon, name, kind, rounds=14):
    d = int(rng.randint(2, 4))
    L = learner(rng, name)
    w = rng.randn(d); w /= np.linalg.norm(w)
    c = rng.rand(d) * 3
    curved = kind == 'pgp' and rng.rand() < .5
    # rewards within about +-1.5, the scale on which perfect ratings sigmoid(f) and the rating likelihood agree; the linear model has no intercept
    if curved:
        f = lambda X: 1.0 - np.sum((X - c) ** 2, axis=-1) / 4
    elif kind == 'pgp':
        f = lambda X: (X - 1.5) @ w * .7
    else:
        f = lambda X: X @ w * .5
    u = lop.PerfectUser(f)
    m = lop.PreferenceLinear(active_learner=L) if kind == 'lin' else lop.PreferenceGP(lop.RBF_kern(1.0, 1.5), active_learner=L)
    T = gen.items(rng, 60, d)
    sp, ans, rated = [], [], 0
    with quiet():
        X0 = gen.items(rng, 2, d)
        m.add(X0, u.choose_pairs(X0)); ans.append((X0, int(u.choose(X0))))
        sp.append(spearmanr(m(T), f(T))[0])
        for q in range(rounds):
            C = gen.items(rng, 8, d)
            n = 2 if name in ('Bayes', 'EqualChecking') or rng.rand() < .7 else 3
            idx = [int(i) for i in np.ravel(m.select(C, n))]
            if len(idx) == 1:
                m.add(C[idx], np.array([float(u.rate(C[idx[0]]))]), type='abs'); rated += 1
            else:
                m.add(C[idx], u.choose_pairs(C[idx])); ans.append((C[idx], int(u.choose(C[idx]))))
        sp.append(spearmanr(m(T), f(T))[0])
        good = []
        for X, b in ans:
            p, r = m(X), f(X)
            good += [p[b] > p[j] for j in range(len(X)) if r[b] - r[j] > .25]
    mon.event('queries', rounds)
    mon.event('ratings', rated)
    return sp[0], sp[1], good, rated, curved


# smallest accepted mean agreement and fraction of reproduced answers per model; observed minima over 240 pools: .95/.96 and .87/.91
LATE = {'lin': .85, 'pgp': .65}
ANSWERS = {'lin': .88, 'pgp': .8}


def loops(rng, mon, tier, idx):
    names = PAIR + agen.MIXED
    name, kind = names[(idx // 2) % len(names)], ('lin', 'pgp')[idx % 2]
    n = (2 if kind == 'lin' else 4) if tier == 'quick' else 6
    R = [loop(rng, mon, name, kind) for _ in range(n)]
    early, late = np.mean([r[0] for r in R]), np.mean([r[1] for r in R])
    good = [g for r in R for g in r[2]]
    kw = dict(learner=name, model=kind, early=[r[0] for r in R], late=[r[1] for r in R])
    mon.check(all(np.isfinite(r[1]) for r in R), 'agreement_undefined', 'the model ranks no unseen items', **kw)
    mon.check(late >= LATE[kind], 'not_learned', 'mean rank agreement with the user on unseen items is %.2f after 15 queries' % late, **kw)
    mon.check(late >= early - .1, 'unlearned', 'mean rank agreement fell from %.2f after one answer to %.2f after 15' % (early, late), **kw)
    if len(good) >= 10:
        mon.check(np.mean(good) >= ANSWERS[kind], 'answers_not_reproduced', 'the model reproduces %.2f of the clear answers it was given' % np.mean(good), **kw)
        mon.event('answers', len(good))
    mon.event('loops', n)
    mon.nontrivial(name, kind, idx)
    mon.sample(dict(kw, reproduced=np.mean(good) if good else None))


def world(rng, mon, kind):
    d = int(rng.randint(2, 4))
    w = rng.randn(d); w /= np.linalg.norm(w)
    c = rng.rand(d) * 3
    curved = kind == 'pgp' and rng.rand() < .5
    if curved:
        f = lambda X: 1.0 - np.sum((X - c) ** 2, axis=-1) / 4
    elif kind == 'pgp':
        f = lambda X: (X - 1.5) @ w * .7
    else:
        f = lambda X: X @ w * .5
    u = lop.PerfectUser(f)
    m = lop.PreferenceLinear() if kind == 'lin' else lop.PreferenceGP(lop.RBF_kern(1.0, 1.5))
    N = int(rng.randint(40, 80))
    n_rate = 0 if rng.rand() < .5 else int(rng.randint(5, 20))
    T, ans, rates = gen.items(rng, 60, d), [], []
    look = set(int(v) for v in rng.randint(0, N, 3))
    with quiet():
        for q in range(N):
            X = gen.items(rng, 2 if rng.rand() < .8 else 3, d)
            m.add(X, u.choose_pairs(X)); ans.append((X, int(u.choose(X))))
            if q < n_rate and not curved:
                R = gen.items(rng, 1, d)
                m.add(R, np.array([float(u.rate(R[0]))]), type='abs'); rates.append(R)
            if q in look:
                m.predict(T)
        s = spearmanr(m(T), f(T))[0]
        good = []
        for X, b in ans:
            p, r = m(X), f(X)
            good.append([p[b] > p[j] for j in range(len(X)) if r[b] - r[j] > .25])
    return s, good[:N // 2], good[N // 2:], N, len(rates), curved, d


def long(rng, mon, tier, idx):
    """many answers: none is forgotten, however long ago it was given"""
    kind = ('pgp', 'lin')[idx % 2]
    W = [world(rng, mon, kind) for _ in range(4)]
    kw = dict(model=kind, agreement=[w[0] for w in W], sizes=[w[3:] for w in W])
    mon.check(np.mean([w[0] for w in W]) >= .85, 'not_learned_long', 'rank agreement with the user on unseen items is %s after many answers' % [round(float(w[0]), 2) for w in W], **kw)
    for part, name in ((1, 'older'), (2, 'newer')):
        g = [v for w in W for r in w[part] for v in r]
        mon.check(np.mean(g) >= .965, 'forgotten', '%.3f of the %d clear %s answers are reproduced' % (np.mean(g), len(g), name), **kw)
        mon.event(name + '_answers', len(g))
        mon.event(name + '_missed', len(g) - int(np.sum(g)))
    mon.event('long')
    mon.nontrivial(kind, idx)
    mon.sample(kw)


def build(kind, X, pairs, ords, sigmas, extra=None, refit=False):
    """tightly fitted model with the given data; extra (type, y, i): one more answer, given before the first fit or after it"""
    if kind == 'pgp':
        m = lop.PreferenceGP(lop.RBF_kern(*sigmas), normalize_gp=False, normalize_positive=False)
    else:
        m = lop.PreferenceLinear()
    m.delta_f = 1e-8
    m.delta_grad = 1e-9
    # all answers refer to the items by index, none is stored twice
    none = np.empty((0, X.shape[1]))
    if extra is not None and extra[0] == 'pair':
        pairs = pairs + [extra[1:]]
    m.add(X, [(int(y), int(i), int(j)) for y, i, j in pairs], type='relative_discrete')
    if ords:
        m.add(none, np.array([(y, i) for i, y in ords]), type='ordinal')
    if refit:
        m.optimize()
    if extra is not None and extra[0] == 'ordinal':
        m.add(none, np.array([extra[1:]]), type='ordinal')
    if extra is not None and extra[0] == 'abs':
        m.add(none, (np.array([extra[1]]), np.array([extra[2]])), type='abs')
    return m


def pull(rng, mon, tier, idx):
    """one more answer moves the prediction in its direction"""
    d = int(rng.randint(1, 4))
    n = int(rng.randint(d + 2, d + 7))
    kind = ('pgp', 'lin')[idx // 3 % 2]
    X = gen.items(rng, n, d)
    if kind == 'lin':
        X = (X - 1.5) * .7
    sig = (float(rng.uniform(.5, 2)), float(rng.uniform(.5, 2.5)))
    better, worse = lop.get_dk(1, 0), lop.get_dk(0, 1)
    pairs = [(better if rng.rand() < .5 else worse, *rng.permutation(n)[:2]) for _ in range(rng.randint(1, 2 * n))]
    ords = [(int(rng.randint(n)), int(rng.randint(1, 6))) for _ in range(rng.randint(0, n))]
    if kind == 'lin':
        # contradicting answers, so that the weights have a finite maximum-likelihood value
        for i in range(1, n):
            pairs += [(better, 0, i), (worse, 0, i)]
    refit = bool(rng.rand() < .5)

    def predict(extra=None):
        with quiet():
            return np.asarray(build(kind, X, pairs, ords, sig, extra, refit)(X), dtype=float)
    F0 = predict()
    kw = dict(model=kind, d=d, n=n, sigmas=sig, pairs=len(pairs), ordinals=len(ords), refit=refit)
    tol = 1e-6 if kind == 'pgp' else 5e-3
    what = ('pair', 'ordinal', 'abs')[idx % 3]
    if what == 'pair':
        a, b = (int(i) for i in rng.permutation(n)[:2])
        for y, s in ((better, 1), (worse, -1)):
            F = predict(('pair', y, a, b))
            mon.check(s * ((F[a] - F[b]) - (F0[a] - F0[b])) > -tol, 'pair_pull', 'answering that one item is better moved the predicted difference from %g to %g' % (s * (F0[a] - F0[b]), s * (F[a] - F[b])), preferred=a if s > 0 else b, other=b if s > 0 else a, **kw)
            mon.event('pair_pulls')
            moved = s * ((F[a] - F[b]) - (F0[a] - F0[b]))
            if (kind == 'pgp' and s * (F0[a] - F0[b]) < 1.5) or (kind == 'lin' and np.linalg.norm(X[a] - X[b]) > .8 and s * (F0[a] - F0[b]) < 1):
                mon.check(moved > .004, 'pair_ignored', 'one more answer moved the predicted difference by %g only' % moved, preferred=a if s > 0 else b, other=b if s > 0 else a, **kw)
            if s * ((F[a] - F[b]) - (F0[a] - F0[b])) > 1e-2:
                mon.event('clear_pair_pulls')
    elif what == 'ordinal':
        a = int(rng.randint(n))
        P = [float(predict(('ordinal', y, a))[a]) for y in range(1, 6)]
        mon.check(P[0] <= F0[a] + tol and P[4] >= F0[a] - tol, 'ordinal_pull', 'the lowest / highest rating moved the prediction from %g to %g / %g' % (F0[a], P[0], P[4]), **kw)
        mon.check(np.all(np.diff(P) >= -tol), 'ordinal_monotone', 'predictions after ratings 1..5: %s' % P, **kw)
        mon.event('ordinal_pulls')
        if kind == 'pgp' or np.linalg.norm(X[a]) > .8:
            mon.check(P[4] - P[0] > (.1 if kind == 'pgp' else .01), 'ordinal_ignored', 'the lowest and the highest rating give nearly the same prediction', after=P, **kw)
        if P[4] - P[0] > 1e-2:
            mon.event('clear_ordinal_pulls')
    else:
        a = int(rng.randint(n))
        m = lop.PreferenceLinear()
        ml = float(m.probits[m.probit_idxs['abs']].mean_link(np.array([F0[a]]))[0])
        ys = sorted(set([max(.02, ml - .25), max(.02, ml - .12), min(.98, ml + .12), min(.98, ml + .25)]))
        P = [float(predict(('abs', y, a))[a]) for y in ys]
        for y, p in zip(ys, P):
            if abs(y - ml) >= .1:
                mon.check((p - F0[a]) * np.sign(y - ml) > -tol, 'rating_pull', 'a rating of %.3f where %.3f was predicted moved the prediction from %g to %g' % (y, ml, F0[a], p), **kw)
                mon.event('rating_pulls')
                if kind == 'pgp' or np.linalg.norm(X[a]) > .8:
                    moved = (p - F0[a]) * np.sign(y - ml)
                    mon.check(moved > (.15 if kind == 'pgp' else .05), 'rating_ignored', 'a rating of %.3f where %.3f was predicted moved the prediction by %g only' % (y, ml, moved), **kw)
                if (p - F0[a]) * np.sign(y - ml) > 1e-2:
                    mon.event('clear_rating_pulls')
        mon.check(np.all(np.diff(P) >= -tol), 'rating_monotone', 'predictions %s after ratings %s' % (P, ys), **kw)
    mon.nontrivial(what, kind, idx)
    mon.sample(dict(kw, what=what))


GROUPS = [Group('pull', pull, 240, 6000, require=('clear_pair_pulls', 'clear_ordinal_pulls', 'clear_rating_pulls')),
          Group('long', long, 48, 800, require=('long', 'older_answers', 'newer_answers')),
          Group('loops', loops, 40, 800, require=('loops', 'ratings', 'answers'), chunk=1)]
