"""C33: an experiment follows its protocol and saves what happened."""
import contextlib, glob, inspect, os, pickle, random, shutil, sys, tempfile
import numpy as np
import yaml
import lop
from lop.models import PreferenceGP, PreferenceLinear
from harness.core import Group, Skip
from harness import gen, exper

TECHNIQUE = 'runtime monitoring: an offline checker over the recorded trace of every query, answer, label and prediction of an experiment, and fault injection (interrupts at any line) into whole campaigns of runs'
RULE = ('every selector, selection type, model, user, reward function and downsampling mode on random path problems; campaigns of several runs interrupted anywhere; '
        'distinct by the requested configuration')
ASSUMPTIONS = ['KMedoids of the missing package sklearn_extra is replaced by a stand-in that returns distinct rows', 'mixed selectors with selection type switch, the others with the other types; ranking with the perfect user',
               'AlignmentDecision with the epic and spearman alignments (the library says the others are not implemented)']

eh, gv, se = exper.load()

ALIGN = {'RHO': 'rho', 'LL': 'loglikelihood', 'EPIC': 'epic', 'SPEAR': 'spearman'}
SINGLE = {'UCB': 'UCBLearner', 'SGV_UCB': 'GV_UCBLearner', 'RANDOM': 'RandomLearner', 'MUTUAL_INFO': 'MutualInfoLearner', 'MUTUAL_INFO_PERF': 'MutualInfoLearner',
          'BAYES_INFO_GAIN_PROBIT': 'BayesInfoGain', 'BAYES_INFO_GAIN_999': 'BayesInfoGain', 'ABS_BAYES_PROBIT': 'AbsBayesInfo'}
MIXED = {'SW_ACQ': 'RateChooseLearner', 'SW_UCB': 'MixedComparision', 'SW_FIXED': 'MixedComparisionSetFixed', 'SW_ALT': 'MixedAlternating', 'SW_DEC': 'AlignmentDecision', 'SW_CHECK': 'MixedComparisionEqualChecking',
         'SW_MIX': 'MixedStrategy', 'SW_MIX_PEAK': 'MixedStrategyPeak', 'SW_MIX_PEAK2': 'MixedStrategyPeak2', 'SW_MIX_PEAK3': 'MixedStrategyPeak3', 'SW_MIX_REV_PEAK': 'MixedStrategyRevPeak', 'SW_MIX_DEC': 'MixedDecision', 'SW_MIX_DEC2': 'MixedDecision2'}
FAKES = {'linear': 'FakeLinear', 'squared': 'FakeSquared', 'logistic': 'FakeLogistic', 'sin_exp': 'FakeSinExp', 'min': 'FakeWeightedMin', 'max': 'FakeWeightedMax', 'squared_min_max': 'FakeSquaredMinMax', 'min_log': 'FakeMinLog'}
USERS = {'perfect': 'PerfectUser', 'human_choice': 'HumanChoiceUser2'}
SELECTORS = list(dict.fromkeys(se.possible_selectors))


@contextlib.contextmanager
def scratch():
    cwd, d = os.getcwd(), tempfile.mkdtemp(dir=os.getcwd())
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- selectors
def expected_learner(name):
    """(class, alignment or None) the name of a selector stands for"""
    if name in SINGLE:
        return SINGLE[name], None
    if name == 'SW_BAYES_PROBIT':
        return 'RateChooseLearner', None
    stem, f = name.rsplit('_', 1)
    cls = {'ACQ': 'AcquisitionSelection', 'ABS_ACQ': 'AbsAcquisition'}.get(stem) or MIXED[stem]
    return cls, ALIGN[f]


def judge_learner(mon, al, name, rep, pareto, best, ucb, alpha, fake, comp_file, **kw):
    cls, f = expected_learner(name)
    kw = dict(kw, selector=name, rep=rep)
    if not mon.check(type(al).__name__ == cls, 'learner', 'selector %s built a %s' % (name, type(al).__name__), **kw):
        return
    mon.check(bool(al.default_to_pareto) == pareto, 'default_to_pareto', 'default_to_pareto is %r, asked for %r' % (al.default_to_pareto, pareto), **kw)
    mon.check(bool(al.always_select_best) == best, 'always_select_best', 'always_select_best is %r, asked for %r' % (al.always_select_best, best), **kw)
    parts = [al] + [getattr(al, p) for p in ('pairwise_l', 'abs_l', 'abs_comp') if hasattr(al, p)]
    for p in parts:
        if hasattr(p, 'alignment_f'):
            mon.check(p.alignment_f == f, 'alignment', 'selector %s compares with %s' % (name, p.alignment_f), **kw)
            mon.check(p.rep_Q_method == rep, 'representative', 'representative points are %s, asked for %s' % (p.rep_Q_method, rep), **kw)
            if rep == 'stable':
                mon.check(p.rep_Q_data.get('filename') == comp_file, 'representative', 'representative points come from %r' % p.rep_Q_data.get('filename'), **kw)
        if type(p).__name__ in ('UCBLearner', 'GV_UCBLearner'):
            mon.close(p.alpha if hasattr(p, 'alpha') else ucb, ucb, 'ucb', msg='UCB scalar', **kw)
    if name.startswith('SW_MIX'):
        mon.close(al.p_abs_param, alpha, 'alpha', msg='probability of a rating', **kw)
    if name == 'SW_UCB':
        mon.close(al.alpha, alpha, 'alpha', msg='trade-off', **kw)
    if name == 'BAYES_INFO_GAIN_999':
        mon.check(al.p_q_B_method == '999', 'method', 'method %s' % al.p_q_B_method, **kw)
    if name == 'BAYES_INFO_GAIN_PROBIT':
        mon.check(al.p_q_B_method == 'probit', 'method', 'method %s' % al.p_q_B_method, **kw)
    if name == 'MUTUAL_INFO_PERF':
        mon.check(al.fake_func is fake, 'fake_func', 'the learner does not know the user function', **kw)
    if name == 'MUTUAL_INFO':
        mon.check(al.fake_func is None, 'fake_func', 'the learner knows the user function', **kw)
    mon.event('selectors')


def selectors(rng, mon, tier, idx):
    name = SELECTORS[idx % len(SELECTORS)]
    rep = ('stable', 'sampled')[idx // len(SELECTORS) % 2]
    pareto, best = bool(rng.rand() < .5), bool(rng.rand() < .5)
    st = 'rating' if rng.rand() < .3 else 'switch'
    ucb, alpha = float(rng.rand() * 3), float(rng.rand())
    d = int(rng.randint(2, 5))
    cfg = exper.config(rng, d, always_select_best=best, alpha=alpha, stable_comp_file='s%d.npy' % idx)
    fake = object()
    ok, al = mon.lib('selector', eh.get_active_learner, name, st, rep, ucb, pareto, cfg, fake)
    if ok:
        judge_learner(mon, al, name, rep, pareto, best and st != 'rating', ucb, alpha, fake, cfg['stable_comp_file'])
    # models and users
    cfg.update(sigma_pair=float(rng.rand() + .1), sigma_abs=float(rng.rand() + .1), v=float(rng.rand() * 80 + 1), rbf_sigma=float(rng.rand() + .2), rbf_lengthscale=float(rng.rand() + .2),
               normalize_gp=bool(rng.rand() < .5), normalize_postive=bool(rng.rand() < .5), pareto_pairs=bool(rng.rand() < .5), dim_rewards=d, alpha_fake=float(rng.rand()))
    kind, hyper = ('gp', 'linear')[rng.randint(2)], ('no', 'hyper')[rng.randint(2)]
    al = lop.UCBLearner(1.0)
    ok, m = mon.lib('model', eh.get_model, kind, al, hyper, cfg)
    if ok:
        judge_model(mon, m, kind, hyper, cfg, al)
    fn = list(FAKES)[idx % len(FAKES)]
    with exper.quiet():
        ok, u = mon.lib('fake_func', eh.get_fake_func, fn, cfg)
    if ok:
        mon.check(type(u).__name__ == FAKES[fn], 'fake_func', '%s built %s' % (fn, type(u).__name__))
        if fn == 'min_log':
            mon.close(u.alpha, cfg['alpha_fake'], 'alpha_fake')
        for us, cls in USERS.items():
            ok, user = mon.lib('user', eh.get_synth_user, us, u, cfg)
            if ok:
                mon.check(type(user).__name__ == cls and user.fake_f is u, 'user', '%s built %s' % (us, type(user).__name__))
    mon.nontrivial(name, rep, pareto, best, st)


def judge_model(mon, m, kind, search, cfg, al=None, start=None, **kw):
    kw = dict(kw, model=kind, hyper=search)
    if not mon.check(type(m) is (PreferenceGP if kind == 'gp' else PreferenceLinear), 'model', '%s built %s' % (kind, type(m).__name__), **kw):
        return
    mon.check(bool(m.pareto_pairs) == cfg['pareto_pairs'], 'pareto_pairs', 'pareto_pairs is %r' % m.pareto_pairs, **kw)
    if al is not None:
        mon.check(m.active_learner is al and getattr(al, 'pairwise_l', al).model is m, 'model_learner', 'model and learner are not connected', **kw)
    if kind == 'gp':
        mon.check(bool(m.use_hyper_optimization) == (search == 'hyper'), 'use_hyper', 'hyper-parameter search is %r' % m.use_hyper_optimization, **kw)
        mon.check(bool(m.normalize_gp) == cfg['normalize_gp'] and bool(m.normalize_positive) == cfg['normalize_postive'], 'normalize', 'normalisation %r %r' % (m.normalize_gp, m.normalize_positive), **kw)
        if search == 'no' or not start:
            k = m.cov_func
            mon.close(np.array([k.sigma, k.l, k.sigma_noise], float), np.array([cfg['rbf_sigma'], cfg['rbf_lengthscale'], cfg['sigma_noise']]), 'kernel', msg='kernel parameters', **kw)
    if kind == 'linear' or search == 'no' or not start:
        p = m.probits
        mon.close(np.array([p[0].sigma, p[2].sigma, p[2].v], float), np.array([cfg['sigma_pair'], cfg['sigma_abs'], cfg['v']], float), 'probits', msg='likelihood parameters', **kw)
    mon.event('models')


# ---------------------------------------------------------------- runs
class Trace:
    """records, in order, what the experiment asks of models and users"""
    def __init__(self):
        self.ev, self.models, self.users, self.depth, self.before, self.quiet = [], [], [], 0, [], 0

    def __enter__(self):
        self.undo = []
        for cls in (PreferenceGP, PreferenceLinear):
            self.hook(cls, '__init__', lambda o, a, k, r: self.models.append(o))
            self.hook(cls, 'select', lambda o, a, k, r: self.ev.append(('select', self.arg(a, k, 0, 'candidate_pts'), self.arg(a, k, 1, 'num_alts'), r)), pre=self.snapshot)
            self.hook(cls, 'add', lambda o, a, k, r: self.ev.append(('add', self.arg(a, k, 0, 'X'), self.arg(a, k, 1, 'y'), self.arg(a, k, 2, 'type', 'relative_discrete'))))
            self.hook(cls, 'predict', lambda o, a, k, r: self.ev.append(('predict', self.arg(a, k, 0, 'X'), np.array(r[0]))))
        for cls in (lop.PerfectUser, lop.HumanChoiceUser2):
            self.hook(cls, '__init__', lambda o, a, k, r: self.users.append(o))
            for n in ('choose', 'rate'):
                self.hook(cls, n, lambda o, a, k, r, n=n: self.ev.append((n, self.arg(a, k, 0, 'query_rewards' if n == 'choose' else 'query_reward'), np.array(r))))
            if hasattr(cls, 'learn_beta'):
                sig = inspect.signature(cls.learn_beta)
                self.hook(cls, 'learn_beta', lambda o, a, k, r, sig=sig: self.ev.append(('tune', dict(sig.bind(o, *a, **k).arguments))))
        return self

    def __exit__(self, *e):
        for cls, n, own in self.undo[::-1]:
            if own is None:
                delattr(cls, n)
            else:
                setattr(cls, n, own)

    @staticmethod
    def arg(a, k, i, n, default=None):
        x = a[i] if len(a) > i else k.get(n, default)
        return x.copy() if isinstance(x, np.ndarray) else list(x) if isinstance(x, list) else x

    def hook(self, cls, n, post, pre=None):
        f, own = getattr(cls, n), cls.__dict__.get(n)

        def wrapped(o, *a, **k):
            if self.depth or self.quiet:
                return f(o, *a, **k)
            if pre:
                pre(o)
            self.depth += 1
            try:
                r = f(o, *a, **k)
            finally:
                self.depth -= 1
            post(o, a, k, r)
            return r
        # choose_pairs asks choose itself: only the public entry points above are hooked
        setattr(cls, n, wrapped)
        self.undo.append((cls, n, own))

    def snapshot(self, m):
        """state and predictions just before a query, i.e. after the evaluation of the stage before"""
        st, st2 = np.random.get_state(), random.getstate()
        self.quiet += 1
        try:
            P = None if m.X_train is None else [np.array(m.predict(r)[0]) for r in self.rows]
        finally:
            self.quiet -= 1
            np.random.set_state(st)
            random.setstate(st2)
        y = [None if q is None else tuple(np.array(v) for v in q) if isinstance(q, tuple) else np.array(q) for q in m.y_train]
        self.before.append((P, None if m.X_train is None else m.X_train.copy(), y, len(self.ev)))

    def said(self, X, end):
        for e in self.ev[:end][::-1]:
            if e[0] == 'predict' and np.shape(e[1]) == X.shape and np.array_equal(e[1], X):
                return e[2]
        return None


DOWN = ('true', 'True', 'uni', 'downhull', 'medrand', 'no')


def match(C, train, used):
    """which training problem the candidates come from"""
    for i, p in enumerate(train):
        rows = set(map(tuple, p['rewards'].tolist()))
        if i not in used and all(tuple(c) in rows for c in C.tolist()):
            return i
    return None


def judge_run(mon, tr, res, data, env, a, cfg, user_kind, **kw):
    nt, ne = a['num_train'], a['num_eval']
    if not mon.check(isinstance(res, tuple) and len(res) == 12, 'result', 'train_and_eval returned %r' % type(res), **kw):
        return
    acc, avg, ranks, est, real, diff, qtype, qcorrect, sp, pe, rho, back = res
    if not mon.check(len(tr.models) == 1 and len(tr.users) == 1, 'objects', '%d models and %d users were made' % (len(tr.models), len(tr.users)), **kw):
        return
    m, user = tr.models[0], tr.users[0]
    u = user.fake_f
    mon.check(type(u).__name__ == FAKES[a['fake_function_desc']], 'fake_func', 'user function is a %s' % type(u).__name__, **kw)
    mon.check(type(user).__name__ == USERS[user_kind], 'user', 'user is a %s' % type(user).__name__, **kw)
    mon.check(back is data, 'path_data', 'the path data is not handed back', **kw)
    full = dict(cfg, rbf_sigma=cfg['rbf_sigma'] if a['rbf_sigma'] is None else a['rbf_sigma'], rbf_lengthscale=cfg['rbf_lengthscale'] if a['rbf_l'] is None else a['rbf_l'], sigma_pair=a['sigma_pair'], sigma_abs=a['sigma_abs'], v=a['v'])
    judge_model(mon, m, a['model_desc'], a['hyper'], full, m.active_learner, start=True, **kw)
    best = cfg['always_select_best'] and a['selection_type'] != 'rating'
    judge_learner(mon, m.active_learner, a['selector'], a['rep_pt_type'], a['default_pareto'], best, cfg['UCB_scalar'] if a['UCB_scaler'] is None else a['UCB_scaler'], a['alpha'], u, cfg['stable_comp_file'])
    if a['fake_function_desc'] == 'min_log':
        mon.close(u.alpha, a['alpha_fake'], 'alpha_fake', **kw)
    tunes = [e[1] for e in tr.ev if e[0] == 'tune']
    if user_kind == 'human_choice' and mon.check(len(tunes) == 1, 'tuning', 'the user was tuned %d times' % len(tunes), **kw):
        t = tunes[0]
        mon.check(t.get('p') == a['p_synth_pair'] and t.get('p_sigma') == a['p_synth_abs'], 'tuning', 'the user was tuned to %r and %r' % (t.get('p'), t.get('p_sigma')), **kw)
        mon.check(len(t['rewards']) == len(data['eval']) and all(len(x) == min(ne, len(e)) and all(np.array_equal(r, p['rewards']) for r, p in zip(x, e)) for x, e in zip(t['rewards'], data['eval'])), 'tuning_data', 'the user was not tuned on the evaluation problems', **kw)
    # ---- queries
    ev = [e for e in tr.ev if e[0] in ('select', 'add', 'choose', 'rate')]
    first = next((i for i, e in enumerate(ev) if e[0] == 'select'), len(ev))
    head = [e for e in ev[:first] if e[0] == 'add']
    if cfg['add_abs_point'] and a['model_desc'] != 'linear':
        mon.check(any(e[3] == 'abs' and np.allclose(e[1], [cfg['abs_point_loc']]) and np.allclose(np.ravel(e[2]), cfg['abs_point_value']) for e in head), 'abs_point', 'the configured rated point was not added', **kw)
        mon.event('abs_point')
    rounds = []
    for e in ev[first:]:
        if e[0] == 'select':
            rounds.append([e])
        else:
            rounds[-1].append(e)
    train, used = data['train'][env][:nt], []
    mon.check(len(rounds) == nt, 'rounds', '%d queries for %d training problems' % (len(rounds), nt), **kw)
    want_type, want_corr = [-1], [{-1}]
    for r, R in enumerate(rounds):
        C, n, sel = R[0][1:]
        k = dict(round=r, **kw)
        i = match(C, train, used)
        if not mon.check(i is not None, 'candidates', 'the candidates are not those of an unused training problem', candidates=C, **k):
            return
        used.append(i)
        N = len(train[i]['rewards'])
        down = a['use_kmedoid'] != 'no' and N > cfg['downselect_num']
        mon.check(len(C) == (cfg['downselect_num'] if down else N), 'candidate_number', '%d of %d paths are candidates (%s to %d)' % (len(C), N, a['use_kmedoid'], cfg['downselect_num']), **k)
        mon.check(len(set(map(tuple, C.tolist()))) == len(C), 'candidate_repeated', 'a path is a candidate twice', **k)
        mon.event('downsampled' if down else 'all_paths')
        shown = cfg['pareto_pairs'] and a['selection_type'] in ('choose1', 'ranking')
        rest = []
        if isinstance(sel, tuple):
            rest = list(sel[1]) if shown else []
            sel = sel[0]
        sel = [int(s) for s in np.ravel(sel)]
        if shown:
            P = set(exper.pareto_rows(C))
            mon.check(set(sel) <= P if len(P) >= len(sel) else P <= set(sel), 'pareto_first', 'selected %r, the Pareto-optimal candidates are %r' % (sel, sorted(P)), **k)
            mon.event('pareto_first')
        X = C[sel]
        adds, ask = [e for e in R if e[0] == 'add'], [e for e in R if e[0] in ('choose', 'rate')]
        st = a['selection_type']
        rate = st == 'rating' or (st == 'switch' and len(sel) == 1)
        mon.check(n == (1 if st == 'rating' else a['num_alts']), 'alternatives', '%r alternatives were asked for' % n, **k)
        if rest and mon.check(len(adds) == 2, 'not_shown', '%d paths were considered but not shown, %d label sets added' % (len(rest), len(adds)), **k):
            e = adds.pop()
            mon.check(np.array_equal(e[1], C[rest]) and len(e[2]) == 0 and not set(rest) & set(sel), 'not_shown', 'the paths not shown were added as %r' % (e[1:],), **k)
            mon.event('not_shown')
        if not mon.check(len(adds) == 1, 'labels', '%d label sets added for one query' % len(adds), **k):
            return
        _, AX, y, typ = adds[0]
        if not mon.check(np.shape(AX) == X.shape and np.array_equal(AX, X), 'labelled_items', 'the labelled items are not the selected paths', added=AX, selected=X, **k):
            return
        if rate:
            mon.check(len(ask) == 1 and ask[0][0] == 'rate' and np.array_equal(np.ravel(ask[0][1]), X.ravel()), 'rating_query', 'the user was not asked to rate the selected path', **k)
            mon.check(typ == 'abs' and len(ask) == 1 and np.allclose(np.ravel(y), np.ravel(ask[0][2]), rtol=0, atol=1e-12), 'rating', 'rating %r stored as %r' % (ask[:1], y), **k)
            mon.event('ratings')
            want_corr.append({-1})
        else:
            got = sorted(gen.decode_pairs(y))
            mon.check(typ == 'relative_discrete', 'type', 'type %r' % typ, **k)
            f = np.asarray(u(X), float)
            if st == 'ranking':
                mon.check({tuple(sorted(p)) for p in got} == {(i, j) for i in range(len(sel)) for j in range(i + 1, len(sel))} and all(f[w] >= f[l] for w, l in got), 'ranking', 'labels %r for utilities %r' % (got, f), **k)
                mon.event('rankings')
            else:
                ok = len(ask) == 1 and ask[0][0] == 'choose' and np.shape(ask[0][1]) == X.shape and np.array_equal(ask[0][1], X)
                mon.check(ok, 'choice_query', 'the user was not asked to choose among the selected paths', **k)
                if ok:
                    c = int(ask[0][2])
                    mon.check(got == sorted((c, j) for j in range(len(sel)) if j != c), 'choice', 'the user chose %d, the labels are %r' % (c, got), **k)
                    if st == 'switch':
                        want_corr.append({int(c == int(b)) for b in np.flatnonzero(f >= f.max() - 1e-12)})
                        mon.event('right' if 1 in want_corr[-1] else 'wrong')
                mon.event('choices')
            if len(want_corr) < r + 2:
                want_corr.append({-1})
        want_type.append(int(rate))
    mon.check(list(map(int, qtype)) == want_type, 'query_type', 'query types %r, really %r' % (list(qtype), want_type), **kw)
    mon.check(len(qcorrect) == len(want_corr) and all(int(q) in w for q, w in zip(qcorrect, want_corr)), 'query_correct', 'recorded correctness %r, really %r' % (list(qcorrect), want_corr), **kw)
    # ---- evaluations
    tr.snapshot(m)
    U = [np.asarray(u(r), float) for r in tr.rows]
    if not mon.check(len(tr.before) == nt + 1, 'stages', '%d stages' % len(tr.before), **kw):
        return
    for s, (P, Xs, ys, end) in enumerate(tr.before):
        if P is None:
            P = [tr.said(r, end) for r in tr.rows]
            if any(p is None for p in P):
                continue
        exper.judge(mon, tuple(x[s] for x in (acc, avg, ranks, est, real, diff, sp, pe, rho)), P, U, stage=s, **kw)
        mon.event('stages')
        # recorded state
        files = glob.glob(os.path.join(a['folder'], 'trainitr_%d_viz.npz' % s)) or glob.glob(os.path.join(a['folder'], 'trainitr_%03d_viz.npz' % s))
        if mon.check(len(files) == 1, 'record', 'no record of stage %d in %r' % (s, sorted(os.listdir(a['folder']))), **kw):
            z = np.load(files[0], allow_pickle=True)
            same = lambda x, y: (x is None or x.shape == () and x.item() is None) if y is None else np.array_equal(np.asarray(x, float), np.asarray(y, float))
            for nm, y in [('GP_pts', Xs)] + [('GP_pref_%d' % j, ys[j]) for j in range(3)]:
                mon.check(nm in z and same(z[nm], y), 'record', '%s of stage %d is not the model\'s' % (nm, s), got=z[nm] if nm in z else None, want=y, **kw)
            if 'pred_ut' in z and s == nt:
                tr.quiet += 1
                try:
                    mon.close(z['pred_ut'], np.asarray(m.predict(z['pts'])[0]), 'record_prediction', rtol=1e-6, atol=1e-8, msg='recorded predictions', **kw)
                finally:
                    tr.quiet -= 1
                f = np.asarray(u(z['pts']), float)
                mon.close(z['fake_ut'] * np.max(np.abs(f)), f, 'record_utility', rtol=1e-8, atol=1e-10, msg='recorded user function', **kw)
                b = np.array(cfg['prior_bounds'][:2], float)
                mon.check(np.allclose(z['pts'].min(0), b[:, 0]) and np.allclose(z['pts'].max(0), b[:, 1]) and len(np.unique(z['pts'], axis=0)) == len(z['pts']), 'record_grid', 'the recorded grid does not span the bounds', **kw)
                mon.event('grids')
    mon.event('runs')
    mon.event('user_' + user_kind)


FAST = [s for s in SELECTORS if not (s.startswith(('SW_ACQ', 'SW_UCB', 'SW_CHECK', 'SW_DEC', 'ABS_ACQ', 'SW_BAYES', 'ABS_BAYES', 'SW_MIX_DEC')))]
SLOW = [s for s in SELECTORS if s not in FAST and s not in ('SW_DEC_RHO', 'SW_DEC_LL')]


def one_run(rng, mon, selector, st, nt, **over):
    d = over.pop('d', None) or int(rng.choice([2, 3, 3, 4, 5]))
    down = over.pop('down', DOWN[rng.randint(len(DOWN))])
    size = over.pop('size', (9, 26))
    user = 'perfect' if st == 'ranking' or rng.rand() < .3 else 'human_choice'
    fake = list(FAKES)[rng.randint(len(FAKES))]
    rep = 'sampled' if rng.rand() < .7 else 'stable'
    cfg = exper.config(rng, d, downselect_num=int(rng.randint(6, 14)) if down != 'downhull' else int(rng.randint(8, 14)), UCB_scalar=float(rng.rand() * 2),
                       normalize_gp=bool(rng.rand() < .2), add_abs_point=bool(rng.rand() < .2), abs_point_loc=[0.5] * d, abs_point_value=float(np.round(rng.uniform(.2, .8), 2)),
                       pareto_pairs=bool(rng.rand() < .25), add_model_prior=bool(rng.rand() < .15), prior_pts=int(rng.randint(3, 8)), prior_bounds=[[0.0, 1.5]] * d)
    envs = int(rng.randint(1, 4))
    env = int(rng.randint(envs))
    ne = int(rng.randint(1, 4))
    data = exper.path_data(rng, envs, nt + int(rng.randint(3)), ne + int(rng.randint(2)), d, size=size)
    for e in range(envs):       # the other environments may hold fewer problems
        if e != env and rng.rand() < .5:
            data['train'][e], data['eval'][e] = data['train'][e][:rng.randint(1, nt + 1)], data['eval'][e][:rng.randint(1, ne + 1)]
    a = dict(config_filename='config.yaml', env_num=env, folder='run/', selector=selector, selection_type=st, rep_pt_type=rep, model_desc=('gp', 'gp', 'linear')[rng.randint(3)], fake_function_desc=fake,
             num_alts=2 if st == 'switch' or 'BAYES' in selector else int(rng.choice([2, 3, 4])), UCB_scaler=None if rng.rand() < .5 else float(rng.rand() * 2), rbf_sigma=None if rng.rand() < .5 else float(rng.rand() + .5),
             rbf_l=None if rng.rand() < .5 else float(rng.rand() + .3), synth_user=user, hyper='no', default_pareto=bool(rng.rand() < .3), num_train=nt, num_eval=ne, sigma_abs=float(rng.uniform(.3, 1)), sigma_pair=float(rng.uniform(.3, 1.5)),
             v=float(rng.uniform(5, 80)), use_kmedoid=down, alpha=float(rng.rand()), alpha_fake=float(rng.rand()), p_synth_pair=float(rng.uniform(.75, .95)), p_synth_abs=float(rng.uniform(.75, .95)), verbose=bool(rng.rand() < .1))
    a.update(over)
    if a['model_desc'] == 'linear':
        cfg['add_model_prior'] = False
    kw = {k: a[k] for k in ('selector', 'selection_type', 'model_desc', 'fake_function_desc', 'num_alts', 'synth_user', 'use_kmedoid', 'rep_pt_type', 'hyper', 'default_pareto')}
    kw.update(d=d, nt=nt, ne=ne, pareto_pairs=cfg['pareto_pairs'])
    with scratch():
        os.mkdir('run')
        np.save('comp.npy', rng.rand(40, d))
        with open('config.yaml', 'w') as f:
            yaml.safe_dump(cfg, f)
        if rng.rand() < .5:
            with open('paths.pickle', 'wb') as f:
                pickle.dump(data, f)
        tr = Trace()
        tr.rows = [p['rewards'][p['indicies']['pareto']].copy() for p in data['eval'][env][:ne]]
        before = pickle.dumps([[p['rewards'] for p in e] for s in ('train', 'eval') for e in data[s]])
        with tr, exper.quiet():
            ok, res = mon.lib('run', eh.train_and_eval, path_data=data, **a)
            if not ok:
                mon.violations[-1][2].update({k: str(v) for k, v in kw.items()})
                return
            judge_run(mon, tr, res, data, env, a, cfg, user, **kw)
        mon.check(pickle.dumps([[p['rewards'] for p in e] for s in ('train', 'eval') for e in data[s]]) == before, 'data_changed', 'the run changed the path data', **kw)
    mon.nontrivial(*kw.values())
    mon.sample(kw)


def types(selector, rng):
    if selector.startswith('SW_'):
        return 'switch'
    if selector.startswith('ABS_'):
        return 'rating'
    return ('choose1', 'ranking', 'rating')[rng.choice(3, p=[.5, .2, .3])] if selector in ('UCB', 'SGV_UCB', 'RANDOM') else ('choose1', 'ranking')[int(rng.rand() < .2)]


def runs(rng, mon, tier, idx):
    s = FAST[idx % len(FAST)]
    one_run(rng, mon, s, types(s, rng), int(rng.randint(2, 6)))


def slow_runs(rng, mon, tier, idx):
    s = SLOW[idx % len(SLOW)]
    one_run(rng, mon, s, types(s, rng), 2, size=(5, 9), d=int(rng.choice([2, 3])), down='no')


def hyper_runs(rng, mon, tier, idx):
    one_run(rng, mon, ('UCB', 'SW_ALT_SPEAR')[idx % 2], ('choose1', 'switch')[idx % 2], 2, hyper='hyper', model_desc='gp', size=(5, 9))


# ---------------------------------------------------------------- downsampling
def downsample(rng, mon, tier, idx):
    d = int(rng.randint(2, 4))
    N = int(rng.randint(d + 3, 80))
    X = rng.rand(N, d)
    k = int(rng.randint(2, N))
    name = ('hull', 'rand')[idx % 2]
    X0 = X.copy()
    with exper.quiet():
        if name == 'hull':
            ok, Y = mon.lib('downsample', eh.downsample_hull, X, k)
        else:
            pct = .5 if rng.rand() < .5 else float(rng.uniform(.3, .8))
            if int(pct * k) < 1:
                raise Skip()
            ok, Y = mon.lib('downsample', eh.downsample_kmed_rand, X, k, **({} if pct == .5 else dict(kmed_pct=pct)))
    if not ok:
        return
    kw = dict(method=name, n=N, d=d, k=k)
    Y = np.asarray(Y)
    if not mon.check(Y.shape == (k, d), 'number', 'downsampling to %d gave shape %s' % (k, Y.shape), **kw):
        return
    rows = set(map(tuple, X.tolist()))
    mon.check(all(tuple(y) in rows for y in Y.tolist()), 'rows', 'a downsampled path is not one of the paths', **kw)
    mon.check(len(set(map(tuple, Y.tolist()))) == k, 'repeated', 'a path was kept twice', **kw)
    mon.check(np.array_equal(X, X0), 'changed', 'the paths were changed', **kw)
    if name == 'hull':
        from scipy.spatial import ConvexHull
        H = set(map(tuple, X[ConvexHull(X).vertices].tolist()))
        got = set(map(tuple, Y.tolist()))
        mon.check(H <= got if len(H) <= k else got <= H, 'hull', 'the paths on the convex hull are not preferred', hull=len(H), **kw)
        mon.event('hull_kept' if len(H) <= k else 'hull_thinned')
    mon.nontrivial(name, N, d, k)


# ---------------------------------------------------------------- campaigns
KEYS = ('avg_correct', 'avg_ranks', 'ranks', 'estimated_scores', 'real_scores', 'score_diff', 'query_type_is_abs', 'query_is_correct', 'spearmans', 'pearsons', 'rhos')
OPTIONS = {'selector': lambda r: SELECTORS[r.randint(len(SELECTORS))], 'sel_type': lambda r: ('choose1', 'ranking', 'rating', 'switch')[r.randint(4)], 'model': lambda r: ('gp', 'linear')[r.randint(2)],
           'fake_func': lambda r: list(FAKES)[r.randint(len(FAKES))], 'user': lambda r: ('perfect', 'human_choice')[r.randint(2)], 'hyper': lambda r: ('no', 'hyper')[r.randint(2)], 'kmedoid': lambda r: DOWN[r.randint(4)],
           'env': lambda r: int(r.randint(10)), 'num_alts': lambda r: int(r.randint(2, 6)), 'v_abs': lambda r: float(np.round(r.rand() * 90, 2)), 'sigma_abs': lambda r: float(np.round(r.rand(), 2)), 'sigma_pair': lambda r: float(np.round(r.rand(), 2)),
           'rbf_sigma': lambda r: float(np.round(r.rand(), 2)), 'rbf_l': lambda r: float(np.round(r.rand(), 2)), 'alpha': lambda r: float(np.round(r.rand(), 2)), 'alpha_fake': lambda r: float(np.round(r.rand(), 2)),
           'p_synth_pair': lambda r: float(np.round(r.rand(), 2)), 'p_synth_abs': lambda r: float(np.round(r.rand(), 2)), 'rep_pt_type': lambda r: ('stable', 'sampled')[r.randint(2)], 'def_pareto': lambda r: ('true', 'false')[r.randint(2)]}
PARAM = {'sel_type': 'selection_type', 'model': 'model_desc', 'fake_func': 'fake_function_desc', 'user': 'synth_user', 'kmedoid': 'use_kmedoid', 'env': 'env_num', 'v_abs': 'v', 'def_pareto': 'default_pareto'}


@contextlib.contextmanager
def main_with(argv, train_and_eval):
    keep = {n: getattr(se, n) for n in ('train_files', 'eval_files', 'train_and_eval', 'plan_header') if hasattr(se, n)}
    av = sys.argv
    sys.argv, se.train_and_eval, se.plan_header = ['single_experiment.py'] + argv, train_and_eval, './saved_plans/'
    try:
        yield
    finally:
        sys.argv = av
        for n, v in keep.items():
            setattr(se, n, v)


def run_main():
    """(how main ended, value)"""
    try:
        return 'returned', se.main()
    except SystemExit as e:
        return 'exit', e.code
    except KeyboardInterrupt as e:
        return 'interrupt', e
    finally:
        sys.settrace(None)


def saved(mon, done, exact, **kw):
    """the one results file below results/ holds exactly the completed runs; exact: number of runs it must hold (None: all or all but the last)"""
    files = [os.path.join(p, f) for p, _, fs in os.walk('.') for f in fs if f.endswith('.npz')]
    if not files:
        mon.check(not done or (exact is None and len(done) <= 1), 'not_saved', '%d runs completed, nothing was saved' % len(done), **kw)
        return
    if not mon.check(len(files) == 1 and len(os.path.normpath(files[0]).split(os.sep)) == 3 and os.path.normpath(files[0]).startswith('results' + os.sep) and os.path.basename(files[0]) == 'train_data.npz', 'where',
                     'results were saved as %r' % files, **kw):
        return
    z = np.load(files[0])
    if not mon.check(set(KEYS) <= set(z.files), 'saved_names', 'saved %r' % z.files, **kw):
        return
    n = len(z[KEYS[0]])
    mon.check(n == exact if exact is not None else n in (len(done), len(done) - 1), 'saved_number', '%d runs were completed, %d are saved' % (len(done), n), **kw)
    for k in KEYS:
        w = np.array([d[k] for d in done[:n]], float)
        mon.check(np.shape(z[k])[0] == n and (n == 0 or np.array_equal(np.asarray(z[k], float), w, equal_nan=True)), 'saved_values', '%s of the saved runs is not what the runs returned' % k, got=z[k], want=w, **kw)
    mon.event('saved_runs', n)


def campaign(rng, mon, tier, idx):
    short = bool(rng.rand() < .6)
    n, nt, ne = int(rng.randint(1, 6)), 2 if short else 20, 2 if short else 10
    opts = {k: f(rng) for k, f in OPTIONS.items() if rng.rand() < .6}
    how = ('none', 'in_run', 'line', 'save', 'line', 'in_run')[idx % 6]
    at = int(rng.randint(n))
    folder = ('', 'mine', 'mine/')[rng.randint(3)]
    done, calls, marker = [], [], object()
    sig = inspect.signature(eh.train_and_eval)
    state = dict(armed=False, lines=0, fired=False)
    target = int(rng.randint(1, 90))
    kw = dict(runs=n, short=short, how=how, at=at, folder=folder, options=opts)

    def stub(*a, **k):
        b = dict(sig.bind(*a, **k).arguments)
        calls.append((b, os.path.isdir(b['folder'])))
        state['armed'] = True
        if how == 'in_run' and len(done) == at:
            state['fired'] = True
            raise KeyboardInterrupt()
        s2, s1 = (nt + 1, ne), (nt + 1,)
        r = dict(avg_correct=rng.rand(*s1), avg_ranks=rng.rand(*s1), ranks=rng.randint(0, 9, s2).astype(float), estimated_scores=rng.randn(*s2), real_scores=rng.randn(*s2), score_diff=rng.rand(*s2),
                 query_type_is_abs=rng.randint(-1, 2, s1), query_is_correct=rng.randint(-1, 2, s1), spearmans=rng.rand(*s2), pearsons=rng.rand(*s2), rhos=rng.rand(*s2))
        done.append(r)
        return (r['avg_correct'].copy(), r['avg_ranks'].copy(), r['ranks'].copy(), r['estimated_scores'].copy(), r['real_scores'].copy(), r['score_diff'].copy(), r['query_type_is_abs'].copy(), r['query_is_correct'].copy(),
                r['spearmans'].copy(), r['pearsons'].copy(), r['rhos'].copy(), marker)

    def local(frame, event, arg):
        if event == 'line' and state['armed'] and not state['fired'] and frame.f_code is se.main.__code__:
            state['lines'] += 1
            if state['lines'] == target:
                state['fired'] = True
                raise KeyboardInterrupt()
        return local

    real_savez, saves = np.savez, [0]

    def savez(*a, **k):
        saves[0] += 1
        if how == 'save' and saves[0] == at + 1 and not state['fired']:
            state['fired'] = True
            f = a[0] if str(a[0]).endswith('.npz') else str(a[0]) + '.npz'
            with open(f, 'wb') as h:
                h.write(b'PK\x03\x04 cut short')
            raise KeyboardInterrupt()
        return real_savez(*a, **k)

    argv = ['--num_runs', str(n)] + (['--test_experiment', 'True'] if short else []) + (['--dir', folder] if folder else [])
    for k, v in opts.items():
        argv += ['--' + k, str(v)]
    with scratch(), main_with(argv, stub), exper.quiet():
        os.mkdir('results')
        np.savez = savez
        try:
            if how == 'line':
                sys.settrace(lambda f, e, a: local if f.f_code is se.main.__code__ else None)
            end, val = run_main()
        finally:
            sys.settrace(None)
            np.savez = real_savez
        kw['fired'] = state['fired']
        if state['fired']:
            mon.check(end == 'exit' and not val, 'interrupted_end', 'an interrupted experiment ended with %s %r' % (end, val), **kw)
            mon.event('interrupts')
        else:
            mon.check(end == 'returned', 'end', 'the experiment ended with %s %r' % (end, val), **kw)
            mon.check(len(done) == n, 'number_of_runs', '%d runs were asked for, %d done' % (n, len(done)), **kw)
        saved(mon, done, None if how == 'line' and state['fired'] else len(done), **kw)
    for j, (b, made) in enumerate(calls):
        for k, v in opts.items():
            p = PARAM.get(k, k)
            v = v == 'true' if k == 'def_pareto' else v
            mon.check(b.get(p) == v, 'option', 'option --%s %s reached the run as %r' % (k, v, b.get(p)), **kw)
        mon.check(b.get('num_train') == nt and b.get('num_eval') == ne, 'sizes', '%r training and %r evaluation problems' % (b.get('num_train'), b.get('num_eval')), **kw)
        mon.check(made, 'folder', 'the folder of a run does not exist', **kw)
        mon.check(b.get('path_data') is (None if j == 0 else marker), 'path_data', 'the path data is not read once and kept', **kw)
    mon.check(len({b['folder'] for b, _ in calls}) == len(calls), 'folder', 'two runs share a folder', **kw)
    mon.event('campaigns')
    mon.nontrivial(n, short, how, at, target, folder)


def real_campaign(rng, mon, tier, idx):
    """the whole program, with real runs"""
    d = 3
    sel, st = (('RANDOM', 'choose1'), ('UCB', 'rating'), ('SW_ALT_SPEAR', 'switch'))[idx % 3]
    n = int(rng.randint(1, 4))
    cfg = exper.config(rng, d, simple_rewards_file='paths.pickle')
    data = exper.path_data(rng, 4, 2, 2, d)
    done = []

    def spy(*a, **k):
        r = eh.train_and_eval(*a, **k)
        names = ('avg_correct', 'avg_ranks', 'ranks', 'estimated_scores', 'real_scores', 'score_diff', 'query_type_is_abs', 'query_is_correct', 'spearmans', 'pearsons', 'rhos')
        done.append({k: np.array(x) for k, x in zip(names, r)})
        return r
    env = int(rng.randint(4))
    argv = ['--num_runs', str(n), '--test_experiment', 'True', '--hyper', 'no', '--selector', sel, '--sel_type', st, '--num_alts', '2', '--env', str(env), '--rep_pt_type', 'sampled']
    with scratch():
        os.mkdir('results')
        with open('config.yaml', 'w') as f:
            yaml.safe_dump(cfg, f)
        with open('paths.pickle', 'wb') as f:
            pickle.dump(data, f)
        with main_with(argv, spy), exper.quiet():
            ok, r = mon.lib('program', run_main)
        if not ok:
            return
        mon.check(r[0] == 'returned' and len(done) == n, 'program', 'ended with %r after %d of %d runs' % (r, len(done), n))
        for dirs in [os.path.join(p, x) for p, ds, _ in os.walk('results') for x in ds if x.startswith('run_')]:
            mon.check(all(os.path.exists(os.path.join(dirs, 'trainitr_%d_viz.npz' % s)) for s in range(3)), 'records', 'records of a run are missing: %r' % os.listdir(dirs))
            for f in glob.glob(os.path.join(dirs, '*.npz')):
                os.remove(f)
        saved(mon, done, n, selector=sel)
    mon.event('programs')


GROUPS = [Group('selectors', selectors, 500, 3000, require=('selectors', 'models')),
          Group('runs', runs, 180, 2500, require=('runs', 'stages', 'ratings', 'choices', 'rankings', 'downsampled', 'all_paths', 'user_perfect', 'user_human_choice', 'grids', 'abs_point', 'pareto_first', 'not_shown', 'right', 'wrong')),
          Group('slow_runs', slow_runs, 8, 120, require=('runs',)),
          Group('hyper_runs', hyper_runs, 4, 40, require=('runs',)),
          Group('downsample', downsample, 300, 3000, require=('hull_kept', 'hull_thinned')),
          Group('campaign', campaign, 400, 5000, require=('campaigns', 'interrupts', 'saved_runs')),
          Group('real_campaign', real_campaign, 6, 60, require=('programs',))]
