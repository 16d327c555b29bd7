"""C14: a selected query is a valid set of distinct, allowed candidates."""
import copy
import numpy as np
import lop
from lop.utilities import get_pareto
from harness.core import Group, Skip
from harness import gen, mgen, agen

RULE = ('random learners x models (with and without data) x candidate sets (scalars and vectors, duplicates, single candidate) x '
        'number of alternatives (1 to all, and too many) x history x preferred sets in every documented form x return_not_selected x '
        'always_select_best; distinct by learner, model, sizes and option combination')
ASSUMPTIONS = ['preferred and previous indices are in range, and there are at least as many eligible candidates as alternatives (otherwise an exception is required)',
               'BayesInfoGain runs with a scipy stand-in for the missing optional dependency approxcdf']
TECHNIQUE = 'runtime monitoring: return-value oracle plus spies on the greedy steps over generated learner/model/candidate/option combinations'


def is_index(i):
    return isinstance(i, (int, np.integer)) and not isinstance(i, (bool, np.bool_))


def options(rng, C, pareto_ok=True):
    n = len(C)
    prev = [int(i) for i in rng.choice(n, rng.randint(0, n), replace=False)] if rng.rand() < .5 else []
    prev = set(prev) if rng.rand() < .5 else prev
    r = rng.rand()
    if r < .3:
        pref = None
    elif r < .4:
        pref = 0
    elif r < .55:
        pref = int(rng.randint(1, n + 1))
    elif r < .65 and pareto_ok:
        pref = 'pareto'
    else:
        pref = [int(i) for i in rng.choice(n, rng.randint(1, n + 1), replace=False)]
        pref = set(pref) if rng.rand() < .5 else pref
    return prev, pref


def preferred_set(C, pref, default_pareto):
    n = len(C)
    if isinstance(pref, (set, list)):
        return set(pref)
    if pref is None:
        return set(int(i) for i in get_pareto(C)) if default_pareto else set(range(n))
    if pref == 'pareto':
        return set(int(i) for i in get_pareto(C))
    return set(range(n)) if pref == 0 else set(range(pref))


def spy(al):
    """records what the greedy step picks and from which candidates"""
    log = []
    orig = al.select_greedy

    def greedy(*a, **k):
        r = orig(*a, **k)
        ind = k['indicies'] if 'indicies' in k else a[3]
        log.append((r, set(ind)))
        return r
    al.select_greedy = greedy
    return log


def judge(mon, name, m, C, k, prev, pref, ret, best, pareto, out, mu, log, rating=False, kw={}):
    n = len(C)
    sel, not_sel = (out if ret else (out, None))
    P, H = preferred_set(C, pref, pareto), set(prev)
    ok = mon.check(isinstance(sel, (list, np.ndarray)) and all(is_index(i) for i in sel), 'not_indices', 'selection is not a list of indices: %r' % (sel,), **kw)
    if not ok:
        return None
    sel = [int(i) for i in sel]
    sizes = {1, min(k, n)} if rating == 'either' else ({1} if rating else {k})
    mon.check(len(sel) in sizes, 'wrong_number', '%d alternatives selected, asked for %d' % (len(sel), k), sel=sel, **kw)
    mon.check(len(set(sel)) == len(sel), 'repeated', 'the same candidate twice', sel=sel, **kw)
    mon.check(all(0 <= i < n for i in sel), 'out_of_range', 'index out of range', sel=sel, **kw)
    mon.check(not (set(sel) & H), 'previously_selected', 'previously selected candidate offered again', sel=sel, **kw)
    E = P - H
    want = min(len(sel), len(E))
    mon.check(len(set(sel) & E) == want, 'preferred_skipped', '%d preferred candidates used, %d were eligible' % (len(set(sel) & E), len(E)), sel=sel, eligible=E, **kw)
    mon.check(all(i in E for i in sel[:want]), 'preferred_order', 'other candidates precede preferred ones', sel=sel, eligible=E, **kw)
    if 0 < len(E) < n - len(H):
        mon.event('preference_matters')
    if best and not H:
        top = E if E else set(range(n)) - H
        mm = np.max(mu[list(top)])
        mon.check(sel[0] in top and mu[sel[0]] >= mm - 1e-9 * (1 + abs(mm)), 'best_first', 'first of %r is not the best predicted eligible candidate' % sel, mu=mu, **kw)
        mon.event('best_first')
    if ret:
        ok = mon.check(isinstance(not_sel, (list, np.ndarray)) and all(is_index(i) for i in not_sel), 'not_selected_indices', 'not selected: %r' % (not_sel,), **kw)
        if ok:
            ns = [int(i) for i in not_sel]
            mon.check(len(set(ns)) == len(ns) and all(0 <= i < n for i in ns) and not (set(ns) & (set(sel) | H | E)), 'not_selected_invalid',
                      'not selected %r with selection %r' % (ns, sel), eligible=E, **kw)
            if E == set(range(n)) - H:
                mon.check(ns == [], 'not_selected_without_preference', 'not selected %r though every candidate is preferred' % ns, **kw)
            mon.event('not_selected')
    return sel


def greedy(rng, mon, tier, idx):
    kind = ('simple', 'pgp', 'pgp', 'lin', 'gp')[rng.randint(5)]
    names = agen.SIMPLE if kind == 'simple' else agen.GREEDY
    name = names[rng.randint(len(names))]
    d = int(rng.randint(0, 4)) if kind != 'lin' else int(rng.randint(1, 4))
    best, pareto = bool(rng.rand() < .3), bool(rng.rand() < .3 and d)
    al = agen.learner(rng, name, default_to_pareto=pareto, always_select_best=best)
    m = lop.SimplelestModel(active_learner=al) if kind == 'simple' else agen.model(rng, al, d, kind)[0]
    C = agen.candidates(rng, d, many=idx % 25 == 6)
    n = len(C)
    prev, pref = options(rng, C, d > 0)
    ret = bool(rng.rand() < .4)
    free = n - len(set(prev))
    k = int(rng.randint(1, free + 1)) if rng.rand() < .93 else free + 1
    if n > 9 and kind != 'simple':
        k = min(k, int(rng.randint(1, 10)))
    if n > 9:
        mon.event('many')
    kw = dict(learner=name, model=kind, d=d, n=n, k=k, prev=prev, prefer=pref, ret=ret, best=best, pareto=pareto)
    mon.op('select', kw)
    C0, prev0, pref0 = C.copy(), copy.deepcopy(prev), copy.deepcopy(pref)
    mu = np.array(m.predict(C)[0])
    log = spy(al)
    seen = []
    orig = m.predict
    m.predict = lambda X: (lambda r: (seen.append(np.array(r[0])), r)[1])(orig(X))
    args = (C, k, prev, pref, ret)
    if k > free:
        try:
            m.select(*args)
            mon.fail('too_few_accepted', 'selected although only %d candidates are eligible' % free, **kw)
        except Exception:
            mon.event('refused')
        return
    out = m.select(*args)
    if kind == 'lin' and m.X_train is None:
        # without data every prediction draws new weights: judged by the prediction the selection used
        mu, best = (seen[0], best) if seen else (mu, False)
    sel = judge(mon, name, m, C, k, prev, pref, ret, best, pareto, out, mu, log, kw=kw)
    mon.check(np.array_equal(C, C0) and prev == prev0 and pref == pref0 and type(pref) is type(pref0), 'arguments_changed', 'select changed its arguments', **kw)
    mon.event('selected')
    if sel is not None and ret and log:
        # replay of the documented rule on the observed greedy picks
        E = preferred_set(C, pref, pareto) - set(prev)
        picks = [int(r) for r, _ in log]
        s2, wait = ([sel[0]] if best and not prev else []), []
        E -= set(s2)
        for p in picks:
            if p in E or not E:
                s2.append(p)
                E.discard(p)
            else:
                wait.append(p)
            while not E and wait and len(s2) < k:
                s2.append(wait.pop(0))
        mon.check(s2 == sel and wait == [int(i) for i in out[1]], 'not_selected_rule', 'greedy picks %r give selection %r and passed over %r, got %r' % (picks, s2, wait, out), **kw)
        mon.event('greedy_replay')
    if kind == 'simple' and name in ('Best', 'Worst') and not ret and sel is not None:
        f = C if d == 0 else C.sum(axis=1)
        E, H = preferred_set(C, pref, pareto) - set(prev), set(prev)
        left, exp = [E, set(range(n)) - E - H], []
        for g in left:
            g = set(g)
            while g and len(exp) < k:
                if best and not H and not exp:
                    v = max(f[list(g)])
                else:
                    v = (max if name == 'Best' else min)(f[list(g)])
                exp.append(v)
                g.remove(next(i for i in g if f[i] == v))
        mon.check(np.array_equal(np.array(exp), f[sel]), 'reference_order', 'selected values %r, expected %r' % (f[sel], exp), **kw)
        mon.event('reference_order')
    mon.nontrivial(name, kind, d, n, k, prev, pref, ret, best, pareto)
    mon.sample(kw)


def pairs(rng, mon, tier, idx):
    """learners that search for a pair first"""
    name = ('Acq', 'Acq', 'Bayes')[rng.randint(3)] if idx % 4 == 0 else 'Acq'
    kind = ('pgp', 'pgp', 'lin')[rng.randint(3)]
    d = int(rng.randint(0, 4)) if kind != 'lin' else int(rng.randint(1, 4))
    best, pareto = bool(rng.rand() < .3), bool(rng.rand() < .3 and d)
    al = agen.learner(rng, name, default_to_pareto=pareto, always_select_best=best)
    m, _ = agen.model(rng, al, d, kind)
    C = agen.candidates(rng, d, int(rng.choice([2, 3, 4, 6] if name == 'Bayes' else [1, 2, 3, 4, 6, 9])) if name == 'Bayes' or idx % 25 != 6 else int(rng.randint(14, 26)))
    n = len(C)
    prev, pref = options(rng, C, d > 0)
    ret = bool(rng.rand() < .3)
    free = n - len(set(prev))
    k = int(rng.randint(1, min(free, 4) + 1))
    kw = dict(learner=name, align=getattr(al, 'alignment_f', ''), model=kind, data=m.X_train is not None, d=d, n=n, k=k, prev=prev, prefer=pref, ret=ret, best=best, pareto=pareto)
    mon.op('select', kw)
    C0, prev0, pref0 = C.copy(), copy.deepcopy(prev), copy.deepcopy(pref)
    mu = np.array(m.predict(C)[0])
    out = m.select(C, k, prev, pref, ret)
    judge(mon, name, m, C, k, prev, pref, ret, best and (kind != 'lin' or kw['data']), pareto, out, mu, None, kw=kw)
    mon.check(np.array_equal(C, C0) and prev == prev0 and pref == pref0, 'arguments_changed', 'select changed its arguments', **kw)
    mon.event('pair_selected')
    mon.nontrivial(name, kind, kw['data'], d, n, k, prev, pref, ret, best, pareto)


class Own(lop.ActiveLearner):
    """a learner written by a user: picks in a fixed order among the candidates it is given"""

    def __init__(self, order, **kw):
        super().__init__(**kw)
        self.order = order

    def ranked(self, indicies):
        return sorted((int(i) for i in indicies), key=lambda i: self.order[i])

    def select_greedy(self, candidate_pts, mu, data, indicies, prev_selection):
        return self.ranked(indicies)[0]


class OwnPair(Own):
    def select_pair(self, candidate_pts, mu, data, indicies, prev_selection):
        r = self.ranked(indicies)
        return (r[0], r[1])


def own(rng, mon, tier, idx):
    """learners of the user: nothing but the framework keeps a candidate from being offered twice"""
    d = int(rng.randint(0, 4))
    best, pareto = bool(rng.rand() < .2), bool(rng.rand() < .2 and d)
    C = agen.candidates(rng, d, int(rng.randint(2, 12)))
    n = len(C)
    order = [int(i) for i in rng.permutation(n)]
    cls = (Own, OwnPair, OwnPair)[rng.randint(3)]
    al = cls(order, default_to_pareto=pareto, always_select_best=best)
    kind = 'simple' if d else 'pgp'
    m = lop.SimplelestModel(active_learner=al) if kind == 'simple' else agen.model(rng, al, d, kind)[0]
    prev, pref = options(rng, C, d > 0)
    if rng.rand() < .3 and len(set(prev)):      # all preferred candidates have been shown
        pref = [int(i) for i in prev][:int(rng.randint(1, len(prev) + 1))]
    ret = bool(rng.rand() < .3)
    first = bool(rng.rand() < .8)
    free = n - len(set(prev))
    k = int(rng.randint(1, free + 1))
    kw = dict(learner=cls.__name__, model=kind, d=d, n=n, k=k, prev=prev, prefer=pref, ret=ret, best=best, pareto=pareto, order=order, pair_first=first)
    mon.op('select', kw)
    mu = np.array(m.predict(C)[0])
    out = m.select(C, k, prev, pref, ret) if first else al.select(C, k, prev, pref, ret, False)
    sel = judge(mon, cls.__name__, m, C, k, prev, pref, ret, best, pareto, out, mu, None, kw=kw)
    mon.event('own_selected')
    E = preferred_set(C, pref, pareto) - set(prev)
    if sel is not None and not ret and not best:
        # candidates come in the order of the learner, preferred ones first
        want = sorted(E, key=lambda i: order[i]) + sorted(set(range(n)) - set(prev) - E, key=lambda i: order[i])
        mon.check(sel == want[:k], 'own_order', 'selected %r, the learner picks %r' % (sel, want[:k]), **kw)
        mon.event('own_order')
    if not E and k > 2:
        mon.event('none_preferred')
    mon.nontrivial(kw)


def rating(rng, mon, tier, idx):
    """learners that only ask for ratings return one candidate"""
    kind = ('pgp', 'pgp', 'lin')[rng.randint(3)]
    d = int(rng.randint(0, 4)) if kind != 'lin' else int(rng.randint(1, 4))
    best = bool(rng.rand() < .2)
    al = agen.learner(rng, 'AbsAcq', always_select_best=best) if idx % 12 else lop.AbsBayesInfo(M=20)
    name = type(al).__name__
    best = best and idx % 12 > 0
    m, _ = agen.model(rng, al, d, kind)
    C = agen.candidates(rng, d, None if idx % 12 else int(rng.randint(2, 5)))
    n = len(C)
    prev, pref = options(rng, C, d > 0)
    k = int(rng.randint(1, 4))
    kw = dict(learner=name, align=getattr(al, 'alignment_f', ''), model=kind, data=m.X_train is not None, d=d, n=n, k=k, prev=prev, prefer=pref, best=best)
    mon.op('select', kw)
    mu = np.array(m.predict(C)[0])
    C0 = C.copy()
    out = m.select(C, k, prev, pref)
    judge(mon, name, m, C, k, prev, pref, False, best and (kind != 'lin' or kw['data']), False, out, mu, None, rating=True, kw=kw)
    mon.check(np.array_equal(C, C0), 'arguments_changed', 'select changed its arguments', **kw)
    mon.event('rating_selected')
    mon.nontrivial(name, kind, kw['data'], d, n, k, prev, pref, best)


def mixed(rng, mon, tier, idx):
    """mixed-type learners, several queries with growing data"""
    kind = ('pgp', 'pgp', 'lin')[rng.randint(3)]
    d = int(rng.randint(1, 4))
    name = agen.MIXED[rng.randint(len(agen.MIXED))]
    st = rng.get_state()
    comp = agen.learner(rng, 'AbsAcq')
    rng.set_state(st)
    pair = agen.learner(rng, 'Acq')            # same number of samples and representative queries
    rng.set_state(st)
    rate = agen.learner(rng, 'AbsAcq')
    if name != 'RateChoose' and rng.rand() < .7:
        rate = agen.learner(rng, ('UCB', 'Best')[rng.randint(2)])
    for x in (pair, rate, comp):               # the numbers of representative points and queries may differ
        if hasattr(x, 'rep_Q_data') and rng.rand() < .4:
            x.rep_Q_data = {'num_pts': int(rng.choice([3, 5, 8])), 'num_Q': int(rng.choice([3, 10]))}
    pareto, best = bool(rng.rand() < .4), bool(rng.rand() < .3)
    bayes = name == 'RateChoose' and rng.rand() < .3
    if bayes:
        pair, rate, kind = agen.learner(rng, 'Bayes'), lop.AbsBayesInfo(M=10), 'pgp'
    al = agen.mixed(rng, name, pair, rate, comp, default_to_pareto=pareto, always_select_best=best)
    m, _ = agen.model(rng, al, d, kind, data=int(rng.choice([0, 3, 5])) if name not in ('Decision', 'Decision2') and not bayes else 4)
    rounds = 8 if name in ('Decision', 'Decision2') else 3
    for r in range(rounds):
        C = agen.candidates(rng, d, int(rng.choice([3, 4, 6])))
        n = len(C)
        prev, pref = (options(rng, C) if rng.rand() < .5 else ([], None))
        free = n - len(set(prev))
        if free < 2:
            prev = []
        ret = bool(rng.rand() < .2)
        kw = dict(learner=name, rate=type(rate).__name__, model=kind, round=r, data=m.X_train is not None, d=d, n=n, prev=prev, prefer=pref, ret=ret, best=best, pareto=pareto)
        mon.op('select', kw)
        mu = np.array(m.predict(C)[0])
        C0 = C.copy()
        out = m.select(C, 2, prev, pref, ret)
        first = out[0] if ret else out           # a rating query is not forced to be the best candidate
        sel = judge(mon, name, m, C, 2, prev, pref, ret, best and len(first) == 2 and (kind != 'lin' or kw['data']), pareto, out, mu, None, rating='either', kw=kw)
        mon.check(np.array_equal(C, C0), 'arguments_changed', 'select changed its arguments', **kw)
        mon.event('mixed_selected')
        if sel is None:
            return
        if len(sel) == 1:
            m.add(C[sel], np.array([rng.rand()]), type='abs')
        elif len(sel) == 2:
            m.add(C[sel], [lop.preference(0, 1)])
    mon.nontrivial(name, kind, d, rounds, idx)


def alignment_decision(rng, mon, tier, idx):
    d = int(rng.randint(1, 4))
    al = lop.AlignmentDecision(agen.learner(rng, 'Acq'), agen.learner(rng, 'UCB'), 2)
    al.pairwise_l.alignment_f = str(rng.choice(['epic', 'spearman']))
    m, _ = agen.model(rng, al, d, ('pgp', 'lin')[(idx + int(rng.randint(2))) % 2], data=0)
    X = gen.items(rng, 6, d)
    for t in ('pair', 'abs'):
        mgen.fill(rng, m, d, (t,), 4)
    for r in range(4):
        C = agen.candidates(rng, d, 5)
        k = int(rng.randint(2, 4))
        out = m.select(C, k)
        sel = out[0] if isinstance(out, tuple) else out
        judge(mon, 'AlignmentDecision', m, C, k, [], None, False, False, False, sel, np.zeros(5), None, rating='either', kw=dict(learner='AlignmentDecision', round=r))
        mon.event('alignment_selected')
    mon.nontrivial(idx)


def probability(rng, mon, tier, idx):
    al = lop.ProbabilityLearner()
    m, _ = agen.model(rng, al, 1, 'pgp', data=3)
    ok, out = mon.lib('probability_learner', m.select, gen.items(rng, 4, 1), 2)
    if ok:
        mon.check(len(set(out)) == 2 and all(is_index(i) for i in out), 'probability_learner', 'selection %r' % (out,))
    mon.nontrivial(idx)


def pick(rng, mon, tier, idx):
    """the shared steps of the learners: the best pair of a score matrix, the best predicted candidate"""
    al = agen.learner(rng, agen.GREEDY[rng.randint(len(agen.GREEDY))])
    n = int(rng.randint(2, 12))
    G = rng.randn(n, n) if rng.rand() < .5 else rng.randint(0, 3, (n, n)).astype(float)
    if rng.rand() < .7:
        G = G + G.T
    if rng.rand() < .3:
        G *= 10.0 ** rng.randint(-12, 12)
    allowed = sorted(int(i) for i in rng.choice(n, rng.randint(2, n + 1), replace=False))
    ind = None if rng.rand() < .3 else (set(allowed) if rng.rand() < .5 else list(allowed))
    if ind is None:
        allowed = list(range(n))
    prev = set(int(i) for i in rng.choice(n, rng.randint(0, n), replace=False)) if rng.rand() < .6 else set()
    ok = [(i, j) for i in allowed for j in allowed if i != j and not (i in prev and j in prev)]
    if ok:
        G0, prev0 = G.copy(), set(prev)
        got = al.pick_pair_from_metric(G, prev, ind) if ind is not None or rng.rand() < .5 else al.pick_pair_from_metric(G, prev)
        kw = dict(n=n, prev=sorted(prev0), allowed=allowed)
        if mon.check(len(got) == 2 and all(is_index(i) for i in got), 'pair_not_indices', '%r' % (got,), **kw):
            a, b = int(got[0]), int(got[1])
            best = max(G0[p] for p in ok)
            mon.check((a, b) in set(ok), 'pair_not_allowed', 'pair %s' % ((a, b),), G=G0, **kw)
            mon.check(a != b and G0[a, b] == best, 'pair_not_best', 'pair %s has %r, the best allowed has %r' % ((a, b), G0[a, b], best), G=G0, **kw)
        mon.check(prev == prev0, 'argument_modified', 'the previous selection was changed')
        mon.event('pair_picked')
        if prev0 and G0[al_best(G0, allowed)] > best:
            mon.event('best_pair_taken')
    mu = rng.randn(n) if rng.rand() < .6 else rng.randint(0, 3, n).astype(float)
    P = set(int(i) for i in rng.choice(n, rng.randint(1, n + 1), replace=False))
    H = [int(i) for i in rng.choice(n, rng.randint(0, n + 1), replace=False)]
    form = H if rng.rand() < .5 else set(H)
    free = (P - set(H)) or (set(range(n)) - set(H))
    try:
        got = al.select_best(mu, P, form) if H or rng.rand() < .5 else al.select_best(mu, P)
        mon.check(got in free and mu[got] == max(mu[i] for i in free), 'best_not_best', 'candidate %r of %s' % (got, sorted(free)), mu=mu)
        mon.check(bool(free), 'best_of_nothing', 'candidate %r though all were selected before' % (got,))
        mon.event('best_picked')
    except Exception as e:
        if free:
            raise
        mon.event('best_refused')
    mon.nontrivial(n, allowed, sorted(prev), mu)


def al_best(G, allowed):
    return max(((i, j) for i in allowed for j in allowed if i != j), key=lambda p: G[p])


GROUPS = [Group('own', own, 600, 6000, require=['own_selected', 'own_order', 'none_preferred']),
          Group('greedy', greedy, 500, 20000, require=['selected', 'not_selected', 'preference_matters', 'best_first', 'greedy_replay', 'refused', 'reference_order', 'many']),
          Group('pairs', pairs, 250, 8000, require=['pair_selected']),
          Group('rating', rating, 60, 1500, require=['rating_selected']),
          Group('mixed', mixed, 70, 1500, require=['mixed_selected']),
          Group('alignment_decision', alignment_decision, 1, 8, require=['alignment_selected'], chunk=1, watchdog=800),
          Group('pick', pick, 1500, 40000, require=['pair_picked', 'best_picked', 'best_refused', 'best_pair_taken'], hang=30),
          Group('probability', probability, 1, 1)]
