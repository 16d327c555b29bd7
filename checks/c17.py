"""C17: mixed-type learners follow their documented query-type rule."""
import numpy as np
import lop
from harness.core import Group
from harness import gen, mgen, agen
from checks import c16

RULE = ('every mixed learner with recording sub-learners (scripted scores including ties and close calls, real sampling) over histories '
        'with changing candidates and growing models; schedules judged round by round from many histories; distinct by learner, parameters, '
        'round and scripted scores')
ASSUMPTIONS = ['sub-learners share the same number of samples M', 'frequencies judged at 6.5 standard deviations',
               'effect size compared away from its limit (1e-6)', 'AlignmentDecision: samples thinned from 8000 to 300 per set (the library asks for 8000 and keeps an 8000 x 8000 table)']
TECHNIQUE = 'runtime monitoring: recording sub-learners with scripted scores; rule, delegation and sample provenance checked per round; frequency tests of schedules'


class Rec(lop.AcquisitionSelection):
    """real sampling and alignment, scripted selection"""

    def __init__(self, name, log, M=12, af='spearman'):
        super().__init__(M=M, rep_Q_data={'num_pts': 5, 'num_Q': 4}, alignment_f=af)
        self.name, self.log, self.metric, self.answer, self.draws = name, log, 0.0, None, []

    def select(self, candidate_pts, num_alts, prev_selection=[], prefer_pts=None, return_not_selected=False, select_pair_first=True):
        self.num_alts = num_alts
        self.sel_metric = self.metric
        out = list(self.answer[:num_alts])
        self.log.append(('select', self.name, dict(C=candidate_pts, k=num_alts, prev=prev_selection, prefer=prefer_pts, ret=return_not_selected, first=select_pair_first,
                                                   model=self.model, samples=self.all_Q if self.samples_set else None)))
        return (out, []) if return_not_selected else out

    def select_greedy(self, candidate_pts, mu, data, indicies, prev_selection):
        self.sel_metric = self.metric
        self.log.append(('greedy', self.name, dict(C=candidate_pts, ind=list(indicies), model=self.model, samples=self.all_Q if self.samples_set else None)))
        return list(indicies)[0]

    def get_samples_from_model(self, candidate_pts, x_rep, indicies=None):
        fresh = not self.samples_set
        r = super().get_samples_from_model(candidate_pts, x_rep, indicies)
        if fresh:
            self.draws.append((np.array(candidate_pts), r))
        return r


class Light:
    """sub-learner for schedules: only says who was asked"""
    M = 3
    sel_metric = 1.0

    def __init__(self, name, log):
        self.name, self.log = name, log
        self.samples_set = False

    def set_model(self, model):
        self.model = model

    def set_samples(self, a, b):
        self.samples_set = True

    def unset_samples(self):
        self.samples_set = False

    def get_representative_Q(self, C=None):
        return np.zeros((2, 1)), np.array([[0, 1]])

    def get_samples_from_model(self, C, x, indicies=None):
        return np.zeros((3, 2)), np.zeros((3, len(C)))

    def select(self, C, k, *a, **kw):
        self.log.append(self.name)
        return [0] if k == 1 else list(range(k))

    def select_greedy(self, C, mu, data, ind, prev):
        return list(ind)[0]


def eta2(x, y):
    d = (x.mean() - y.mean()) / np.sqrt((x.var(ddof=1) + y.var(ddof=1)) / 2)
    return (d / 2) ** 2 / (1 + (d / 2) ** 2)


def scores(rng):
    """(pairwise, rating) scores: ties, close calls, negative alignments"""
    a = -float(rng.uniform(.1, 3)) if rng.rand() < .6 else float(rng.uniform(.1, 3))
    r = rng.rand()
    if r < .25:
        return a, a
    if r < .5:
        return a, a * (1 + float(rng.choice([-1, 1])) * 1e-6)
    return a, a * float(rng.uniform(.2, 4))


def delegation(rng, mon, tier, idx):
    name = ('RateChoose', 'Comparision', 'SetFixed', 'EqualChecking', 'Alternating')[idx % 5]
    log = []
    M = int(rng.choice([6, 12]))
    pair, rate, comp = Rec('pair', log, M), Rec('rate', log, M), Rec('comp', log, M)
    alpha = float(rng.choice([.3, .5, .5, .8]))
    limit = float(rng.choice([.06, .3]))
    al = {'RateChoose': lambda: lop.RateChooseLearner(pair, rate), 'Comparision': lambda: lop.MixedComparision(pair, rate, comp, alpha=alpha),
          'SetFixed': lambda: lop.MixedComparisionSetFixed(pair, rate), 'Alternating': lambda: lop.MixedAlternating(pair, rate),
          'EqualChecking': lambda: lop.MixedComparisionEqualChecking(pair, rate, comp, eta_2_limit=limit)}[name]()
    d = int(rng.randint(1, 4))
    m, _ = agen.model(rng, al, d, 'pgp', data=4)
    rounds = int(rng.randint(2, 13))
    reattach = int(rng.randint(1, rounds)) if rng.rand() < .3 else None
    r0 = 0
    tie_seen = []
    for r in range(rounds):
        if r == reattach:
            m, _ = agen.model(rng, al, d, 'pgp', data=3)
            al.set_model(m)
            r0 = r
        n = int(rng.randint(3, 7))
        C = agen.candidates(rng, d, n)
        if name == 'EqualChecking' and rng.rand() < .6:
            C[:, 0] = C[0, 0]                   # all candidates agree on one feature
        p = [int(i) for i in rng.permutation(n)]
        k = 2 if name == 'EqualChecking' else int(rng.randint(2, 4))
        pair.answer, rate.answer, comp.answer = p[:k], [p[-1]], [p[0]]
        ps, rs = scores(rng)
        if name == 'Comparision' and rng.rand() < .3:
            rs = ps * (1 - alpha) / alpha
        pair.metric, rate.metric, comp.metric = ps, rs, rs
        ret = bool(rng.rand() < .3)
        prev, pref = c16.subset(rng, n, 1) if rng.rand() < .4 else ([], None)
        del log[:]
        for x in (pair, rate, comp):
            x.draws = []
        kw = dict(learner=name, round=r, alpha=alpha, scores=(ps, rs), n=n, k=k, ret=ret)
        mon.op('round', kw)
        args = dict(prev_selection=prev, prefer_pts=pref, return_not_selected=ret)
        if rng.rand() < .4:                     # given explicitly, or left to the default (a pair is searched for)
            args['select_pair_first'] = bool(rng.rand() < .5)
        first = args.get('select_pair_first', True)
        out = al.select(C, k, **args)
        want = {'pair': (pair.answer, []) if ret else pair.answer, 'rate': ([rate.answer[0]], []) if ret else [rate.answer[0]]}
        got = 'pair' if out == want['pair'] else ('rate' if out == want['rate'] else None)
        if not mon.check(got is not None, 'not_delegated', 'returned %r, pairwise learner offers %r, rating learner %r' % (out, want['pair'], want['rate']), **kw):
            return
        # the sub-learner behind the answer was asked with the options of this call
        calls = [c for c in log if c[0] == 'select' and c[1] == got]
        ok = any(c[2]['C'] is C or np.array_equal(c[2]['C'], C) for c in calls) and all(
            (c[2]['k'] == (k if c[1] == 'pair' else 1)) and set(c[2]['prev']) == set(prev) and c[2]['prefer'] == pref and c[2]['ret'] == ret and bool(c[2]['first']) == first for c in calls)
        mon.check(bool(calls) and ok, 'options_not_passed', 'sub-learner was not asked with the options of this call', calls=calls, **kw)
        mon.check(all(c[2]['model'] is m for c in log), 'other_model', 'a sub-learner works on another model', **kw)
        # documented rule
        allowed, why = {'pair', 'rate'}, ''
        if name == 'SetFixed':
            allowed, why = ({'rate'} if r - r0 <= 7 else {'pair'}), 'fixed switch after eight rating rounds'
        elif name == 'Alternating':
            allowed, why = ({'pair'} if (r - r0) % 2 == 0 else {'rate'}), 'alternation'
        else:
            a, b = (ps, rs) if name != 'Comparision' else ((1 - alpha) * ps, alpha * rs)
            if name == 'Comparision' and 0 < abs(a - b) <= 1e-12 * abs(a):
                mon.event('rounding_tie')
            elif a != b:
                allowed, why = ({'pair'} if a > b else {'rate'}), 'higher score'
            else:
                tie_seen.append(got)
                mon.event('tie_' + got)
            if name == 'EqualChecking':
                S = [c[2]['samples'] for c in log if c[1] == 'pair'][-1]
                i, j = pair.answer[:2]
                if S is not None and bool(np.any(C[i] == C[j])):
                    e = eta2(np.asarray(S)[:, i], np.asarray(S)[:, j])
                    if abs(e - limit) > 1e-6 and e < limit:
                        allowed, why = {'rate'}, 'pair shares a feature and is not told apart (eta2 %r)' % e
                        mon.event('equal_checked')
                    elif abs(e - limit) <= 1e-6 or not np.isfinite(e):
                        allowed = {'pair', 'rate'}
        mon.check(got in allowed, 'wrong_type', '%s query in round %d, the rule (%s) asks for %r' % (got, r, why, allowed), **kw)
        # comparing learners judge both queries on the same samples, drawn now for these candidates
        if name in ('RateChoose', 'Comparision', 'EqualChecking'):
            sub = 'rate' if name == 'RateChoose' else 'comp'
            s1 = [c[2]['samples'] for c in log if c[1] == 'pair' and c[0] == 'select']
            s2 = [c[2]['samples'] for c in log if c[1] == sub]
            ok = s1 and s2 and s1[-1] is not None and s2[-1] is not None and np.array_equal(s1[-1], s2[-1])
            mon.check(bool(ok), 'different_samples', 'the two query types are scored on different samples', **kw)
            draws = [D for x in (pair, rate, comp) for D in x.draws]
            good = [D for D in draws if np.array_equal(D[0], C)]
            mon.check(bool(good) and bool(ok) and np.array_equal(good[-1][1][1], s1[-1]), 'stale_samples', 'samples were not drawn in this round for these candidates', **kw)
            if good:
                c16.draw_check(mon, m, C, np.asarray(good[-1][1][1]), kw)
            if sub == 'comp':
                ind = [c[2]['ind'] for c in log if c[0] == 'greedy' and c[1] == 'comp']
                if ind:
                    mon.check(set(ind[-1]) == {rate.answer[0]}, 'other_rating_scored', 'rating score computed for %r, the rating query is %r' % (ind[-1], rate.answer), **kw)
        mon.event('round_' + name)
        if rng.rand() < .4:
            mgen.fill(rng, m, d, ('pair',), 2)
    mon.nontrivial(name, rounds, reattach, alpha, idx)
    mon.sample(dict(learner=name, rounds=rounds, reattached=reattach))


def ties(rng, mon, tier, idx):
    """equal scores: both query types come up"""
    log = []
    L = [Light(n, log) for n in ('pair', 'rate', 'comp')]
    name = ('RateChoose', 'Comparision')[idx % 2]
    al = lop.RateChooseLearner(L[0], L[1]) if name == 'RateChoose' else lop.MixedComparision(*L, alpha=.5)
    m = lop.SimplelestModel(active_learner=al)
    v = float(rng.choice([-1.5, .25, 2.0]))
    for x in L:
        x.sel_metric = v
    C = rng.rand(4, 2)
    got = [len(al.select(C, 2)) for _ in range(200)]
    c = got.count(2)
    mon.check(40 <= c <= 160, 'tie_not_random', 'equal scores gave %d pairwise queries of 200' % c, learner=name)
    mon.event('ties')
    mon.nontrivial(name, v, c)


SCHEDULES = {'Strategy': lambda n, p: p,
             'Peak': lambda n, p: (.1, .5, .9)[n] if n < 3 else .8 * np.exp((2 - n) * .2) + .1,
             'Peak2': lambda n, p: (.1, .5, .9)[n] if n < 3 else .9 * np.exp((2 - n) * .2),
             'Peak3': lambda n, p: (.1, .5, .9)[n] if n < 3 else .9 * np.exp((2 - n) * p),
             'RevPeak': lambda n, p: (.9, .1)[n] if n < 2 else p}
SCHEDULES['Decision'], SCHEDULES['Decision2'] = SCHEDULES['Peak3'], SCHEDULES['RevPeak']
ROUNDS = 19


class Model:
    y_train = []

    def predict(self, C):
        return np.zeros(len(C)), np.ones(len(C))


def schedule(rng, mon, tier, idx):
    name = list(SCHEDULES)[idx % len(SCHEDULES)]
    p = float(rng.choice([.05, .15, .3, .5, .8]))
    trials = 3000 if tier == 'quick' else 12000
    log = []
    L = [Light(n, log) for n in ('pair', 'rate', 'comp')]
    al = agen.mixed(rng, name, *L)
    al.p_abs_param = p
    model = Model()
    C = np.zeros((3, 1))
    # scripted scores of the decision rounds
    kinds = [int(rng.randint(4)) for _ in range(3)]
    table = [(-1.0, -2.6), (-3.3, -1.5), (-1.0, -1.7), (.9, .5)]
    if rng.rand() < .4:
        table = [(5.0, 2.4), (.8, 1.7), (2.0, 1.2), (-.9, -.5)]
    counts = np.zeros(ROUNDS)
    for _ in range(trials):
        al.set_model(model)
        for r in range(ROUNDS):
            if r in (5, 10, 15):
                L[0].sel_metric, L[2].sel_metric = table[kinds[r // 5 - 1]]
                L[1].sel_metric = 77.0
            out = al.select(C, 2)
            counts[r] += len(out) == 1
    state, pool = 0, {}
    for r in range(ROUNDS):
        want = SCHEDULES[name](r, p)
        if name.startswith('Decision'):
            if r in (5, 10, 15):
                a, b = table[kinds[r // 5 - 1]]
                if max(a / b, b / a) > 2:
                    state = 2 if a > b else 1
                    want = 0.0 if a > b else 1.0
                else:
                    state = 0
            elif state:
                want = .95 if state == 1 else .05
        pool.setdefault((state, float(want)), []).append(counts[r])
        tol = 6.5 * np.sqrt(want * (1 - want) / trials) + 3.0 / trials * (0 < want < 1)
        mon.check(abs(counts[r] / trials - want) <= tol, 'schedule', 'round %d: rating queries in %.4f of the histories, the rule says %.4f' % (r, counts[r] / trials, want),
                  learner=name, p=p, round=r, decisions=kinds)
        mon.event('schedule_round')
    last = state
    for (state, want), c in pool.items():       # rounds with the same share taken together
        t = trials * len(c)
        tol = 6.5 * np.sqrt(want * (1 - want) / t) + 3.0 / t * (0 < want < 1)
        mon.check(abs(sum(c) / t - want) <= tol, 'schedule_pooled', 'state %d: rating queries in %.4f of %d rounds, the rule says %.4f' % (state, sum(c) / t, t, want),
                  learner=name, p=p, decisions=kinds)
    # long histories
    trials, rounds = trials // 8, 70
    tail = np.zeros(rounds)
    for _ in range(trials):
        al.set_model(model)
        for r in range(rounds):
            if r in (5, 10, 15):
                L[0].sel_metric, L[2].sel_metric = table[kinds[r // 5 - 1]]
            tail[r] += len(al.select(C, 2)) == 1
    for lo, hi in ((ROUNDS, 35), (35, 50), (50, 70)):
        want = np.array([SCHEDULES[name](r, p) if not last else (.95 if last == 1 else .05) for r in range(lo, hi)])
        got, exp = tail[lo:hi].sum(), want.sum() * trials
        tol = 6.5 * np.sqrt(np.sum(want * (1 - want)) * trials) + 12
        mon.check(abs(got - exp) <= tol, 'schedule_late', 'rounds %d to %d: %d rating queries in %d histories, the rule says %.1f' % (lo, hi - 1, got, trials, exp), learner=name, p=p, decisions=kinds)
        mon.event('late_rounds', hi - lo)
    mon.event('schedule_' + name)
    mon.nontrivial(name, p, kinds)
    mon.sample(dict(learner=name, p=p, rating_share=(counts / trials)[:8]))


def decision_samples(rng, mon, tier, idx):
    """decision rounds of real learners: scored on samples of the present candidates, which are not reused afterwards"""
    log = []
    pair, rate, comp = Rec('pair', log), Rec('rate', log), Rec('comp', log)
    al = agen.mixed(rng, ('Decision', 'Decision2')[idx % 2], pair, rate, comp)
    d = 2
    m, _ = agen.model(rng, al, d, 'pgp', data=4)
    for r in range(12):
        n = int(rng.randint(3, 6))
        C = agen.candidates(rng, d, n)
        p = [int(i) for i in rng.permutation(n)]
        pair.answer, rate.answer, comp.answer = p[:2], [p[-1]], [p[0]]
        pair.metric, comp.metric = scores(rng)
        del log[:]
        for x in (pair, rate, comp):
            x.draws = []
        out = al.select(C, 2)
        mon.check(out in (pair.answer, rate.answer), 'decision_not_delegated', 'returned %r' % (out,), round=r)
        who = 'pair' if out == pair.answer else 'rate'
        mon.check(any(c[1] == who for c in log), 'decision_not_asked', 'returned the query of a learner that was not asked', round=r)
        for c in log:
            s = c[2]['samples']
            if s is not None:
                drawn = [D for x in (pair, rate, comp) for D in x.draws if np.array_equal(D[0], C)]
                mon.check(any(np.array_equal(s, D[1][1]) for D in drawn), 'decision_stale_samples', 'sub-learner %s uses samples of an earlier round' % c[1], round=r)
                mon.event('decision_samples')
        if r in (5, 10):
            asked = {c[1] for c in log}
            mon.check({'pair', 'comp'} <= asked, 'decision_not_compared', 'decision round asked only %r' % asked, round=r)
        if rng.rand() < .3:
            mgen.fill(rng, m, d, ('pair',), 2)
    mon.nontrivial(idx)


def alignment_decision(rng, mon, tier, idx):
    log = []
    af = ('spearman', 'epic')[idx % 2]
    pair, rate = Rec('pair', log, 8, af), Rec('rate', log, 8, af)
    pair.rep_Q_data = {'num_pts': 5, 'num_Q': 4}
    orig_s, orig_r, orig_b = pair.get_samples_from_model, pair.get_representative_Q, pair.alignment_between
    drawn, reps, compared = [], [], []

    def samples(C, x, indicies=None):
        a, b = orig_s(C, x, indicies)
        a, b = a[:300], b[:300]
        drawn.append((np.array(C), a, b))
        return a, b

    def between(a, b, *k, **kk):
        f = orig_b(a, b, *k, **kk)
        compared.append((a, b, f))
        return f
    pair.get_samples_from_model = samples
    pair.alignment_between = between
    pair.get_representative_Q = lambda *a, **k: (lambda v: (reps.append(v), v)[1])(orig_r(*a, **k))
    start = int(rng.randint(1, 4))
    al = lop.AlignmentDecision(pair, rate, start)
    d = int(rng.randint(1, 3))
    k1 = lop.RBF_kern(1.0, 1.5)
    m = lop.PreferenceGP(k1, active_learner=al)
    X = gen.items(rng, 6, d)
    fb, _ = mgen.feedback(rng, X, ('pair', 'abs'), 0.5)
    for pos, y, ty in fb:
        m.add(X[pos], y, type=ty)
    for r in range(start + 2):
        n = int(rng.randint(4, 7))
        C = agen.candidates(rng, d, n)
        p = [int(i) for i in rng.permutation(n)]
        k = int(rng.randint(2, 4))
        pair.answer, rate.answer = p[:k], [p[-1]]
        ret = bool(rng.rand() < .3)
        prev, pref = c16.subset(rng, n, 1) if rng.rand() < .4 else ([], None)
        del log[:], drawn[:], reps[:], compared[:]
        out = al.select(C, k, prev, pref, ret)
        sel, rs, ps = out
        if ret and isinstance(sel, tuple):
            sel = sel[0]
        if not mon.check(sel in (pair.answer, rate.answer), 'not_delegated', 'returned %r' % (sel,), round=r):
            return
        got = 'pair' if sel == pair.answer else 'rate'
        calls = [c[2] for c in log if c[0] == 'select' and c[1] == got]
        mon.check(bool(calls) and all(np.array_equal(c['C'], C) and c['k'] == (k if got == 'pair' else 1) and set(c['prev']) == set(prev) and c['prefer'] == pref and c['ret'] == ret
                                      for c in calls), 'options_not_passed', 'sub-learner was not asked with the options of this call', calls=calls, got=got, k=k)
        if r < start:
            mon.check(got == ('pair' if r % 2 == 0 else 'rate'), 'alternation', 'round %d before the decision gave a %s query' % (r, got), start=start)
            mon.event('alternation')
            continue
        mon.check(np.isfinite(rs) and np.isfinite(ps), 'scores_not_finite', 'scores %r %r' % (rs, ps))
        mon.check(got == ('pair' if ps > rs else 'rate'), 'wrong_type', 'preference score %r, rating score %r, but a %s query' % (ps, rs, got))
        mon.event('decided')
        if len(reps) != 1 or len(compared) != 2:
            mon.event('not_observed')
            continue
        # provenance: which data the compared sample sets come from
        xr = reps[0][0]

        def fitted(keep):
            f = lop.PreferenceGP(k1)
            for pos, y, ty in fb:
                if ty in keep:
                    f.add(X[pos], y, type=ty)
            mu, var = f.predict(xr)
            return np.array(mu), np.sqrt(np.maximum(var, 0) / 300)
        want = {'pref': fitted(('relative_discrete',)), 'rate': fitted(('abs',)), 'all': fitted(('relative_discrete', 'abs'))}

        def source(S):
            return {k for k, (mu, se) in want.items() if np.all(np.abs(S.mean(axis=0) - mu) <= 7 * se + 0.02)}
        by = {}
        for a, b, f in compared:
            sa, sb = source(a), source(b)
            mon.check('all' in sb or 'all' in sa, 'not_compared_with_all', 'neither side was drawn from the model with all feedback: %r %r' % (sa, sb))
            part = sa if 'all' in sb else sb
            mon.check(bool(part), 'samples_of_unknown_origin', 'samples match no model')
            for k in ('pref', 'rate'):
                if part == {k}:
                    by[k] = float(np.mean(f))
            g = c16.alignment_ref(af, a[:6], b[:6], None, 1.0)
            mon.close(np.asarray(f)[:6, :6], g, 'alignment_between', 1e-6, 1e-6, 'alignment of the sample sets')
        if set(by) == {'pref', 'rate'}:
            mon.close([ps, rs], [by['pref'], by['rate']], 'scores_swapped', 1e-9, 1e-9, 'reported preference and rating score')
            mon.event('scores_judged')
    mon.nontrivial(start, d, af, idx)
    mon.sample(dict(start=start, d=d, measure=af))


GROUPS = [Group('delegation', delegation, 450, 5000, require=['round_RateChoose', 'round_Comparision', 'round_SetFixed', 'round_EqualChecking', 'round_Alternating']),
          Group('ties', ties, 30, 60, require=['ties']),
          Group('schedules', schedule, 56, 280, require=['schedule_' + k for k in SCHEDULES]),
          Group('decision_samples', decision_samples, 90, 600, require=[]),
          Group('alignment_decision', alignment_decision, 48, 300, require=['alternation', 'decided'])]
