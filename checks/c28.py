"""C28: caller-owned arrays are neither modified nor aliased."""
import copy, random, contextlib, io
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import numpy as np
import lop
from lop.utilities import metropolis_hastings, calc_cdf, k_fold_x_y, get_y_with_idx
from harness.core import Group, Skip
from harness import gen, mgen, agen, pgen

TECHNIQUE = 'runtime monitoring: argument snapshots around every public call, and twin models of which one has its arguments overwritten after every call'
RULE = ('random models, kernels, likelihoods and learners fed with arrays, views, lists, tuples and sets in every documented form; all arguments are '
        'compared before and after each call and then overwritten, while a twin keeps its own; distinct by operation and arguments')
ASSUMPTIONS = ['a model, kernel or learner object passed to a constructor is meant to be shared; only plain arrays, lists, sets and dictionaries are considered']


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if type(a) in (list, tuple) and type(b) in (list, tuple):
        return type(a) == type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return False
        return a.shape == b.shape and a.dtype == b.dtype and bool(np.all((a == b) | ((a != a) & (b != b))))
    if isinstance(a, (int, float, complex, str, bytes, bool, set, frozenset, type(None), np.generic)):
        return bool(a == b) or (a != a and b != b)
    return True     # functions, kernels, models: shared on purpose


def scribble(x):
    """overwrite everything the caller owns"""
    if isinstance(x, np.ndarray):
        if x.flags.writeable:
            x[...] = (np.full(x.shape, 1) if x.dtype.kind in 'iu' else -97.25)
    elif isinstance(x, list):
        for v in x:
            scribble(v)
        del x[:]
    elif isinstance(x, tuple):
        for v in x:
            scribble(v)
    elif isinstance(x, dict):
        for v in x.values():
            scribble(v)
        x.clear()
    elif isinstance(x, set):
        x.clear()


def run(mon, name, fn, args, kw=None):
    """call with argument snapshots; returns the result"""
    kw = kw or {}
    a0, k0 = copy.deepcopy(args), copy.deepcopy(kw)
    r = fn(*args, **kw)
    mon.check(same(list(args), list(a0)) and same(kw, k0), 'argument_modified', '%s modified its arguments' % name, before=[a0, k0], after=[args, kw])
    mon.event('call:' + name)
    return r


def memory(rng, x):
    """the same values as a plain array, a view into a larger one, reversed or in column order"""
    x = np.asarray(x)
    k = rng.randint(4)
    if k == 1:
        big = np.zeros((len(x) * 2,) + x.shape[1:], dtype=x.dtype)
        big[::2] = x
        return big[::2]
    if k == 2:
        return np.ascontiguousarray(x[::-1])[::-1]
    if k == 3:
        return np.asfortranarray(x)
    return np.array(x)


class Pair:
    """a model and its twin"""

    def __init__(self, mon, a, b, desc):
        self.mon, self.a, self.b, self.desc = mon, a, b, desc

    def do(self, name, fn, *args, **kw):
        """fn(model, *args): the first model's arguments are overwritten afterwards"""
        aa, ak = copy.deepcopy(args), copy.deepcopy(kw)
        fn(self.b, *aa, **ak)
        run(self.mon, name, lambda *p, **q: fn(self.a, *p, **q), args, kw)
        scribble(list(args)); scribble(kw)
        self.mon.op(name)

    def state(self):
        out = []
        for m in (self.a, self.b):
            s = dict(X=m.X_train, y=m.y_train)
            if hasattr(m, 'probits'):
                s.update(h=[p.get_hyper() for p in m.probits], b=np.asarray(m.probits[1].b), prior=m.prior_idx)
            if hasattr(m, 'cov_func'):
                s['k'] = m.cov_func.get_param()
            out.append(copy.deepcopy(s))
        return out

    def compare(self, Q):
        s, t = self.state()
        for k in s:
            if not self.mon.check(same(s[k], t[k]), 'aliased_' + k, 'overwriting the arguments after the call changed what the model stores (%s)' % k, model=self.desc, got=s[k], want=t[k]):
                return
        r = []
        seed = 12345
        for m in (self.a, self.b):
            np.random.seed(seed)
            r.append(m.predict(np.array(Q)))
        self.mon.check(same(r[0][0], r[1][0]) and (r[0][1] is None or same(r[0][1], r[1][1])), 'aliased_prediction', 'overwriting the arguments after the call changed the predictions', model=self.desc, got=r[0], want=r[1])
        self.mon.event('compared')


def container(rng, y):
    return [list, tuple, np.array][rng.randint(3)](y)


def stored(rng, mon, tier, idx):
    kind = ('gp', 'pgp', 'pgp', 'lin')[rng.randint(4)]
    d = int(rng.randint(1, 4)) if kind == 'lin' else int(rng.randint(0, 4))
    z = None
    if kind != 'lin' and rng.rand() < .3:
        z = rng.rand(max(d, 1))
        s, l = float(rng.uniform(.5, 1.5)), float(rng.uniform(.5, 2))
        ks = [lop.RBF_kern_zeroed(s, l, zero_pt=z), lop.RBF_kern_zeroed(s, l, zero_pt=z.copy())]
        kn = 'zeroed'
    else:
        st = rng.get_state()
        k1, kn = gen.kernel(rng, lop, ('rbf', 'rbf+lin', 'rbf*per') if d <= 1 else ('rbf', 'rbf+lin'))
        rng.set_state(st)
        ks = [k1, gen.kernel(rng, lop, ('rbf', 'rbf+lin', 'rbf*per') if d <= 1 else ('rbf', 'rbf+lin'))[0]]
    pareto = kind != 'gp' and d >= 2 and rng.rand() < .4
    mk = {'gp': lambda k: lop.GP(k), 'pgp': lambda k: lop.PreferenceGP(k, pareto_pairs=pareto), 'lin': lambda k: lop.PreferenceLinear(pareto_pairs=pareto)}[kind]
    P = Pair(mon, mk(ks[0]), mk(ks[1]), (kind, kn, d))
    if z is not None:
        scribble(z)
        mon.event('zero_pt')
    forms = []
    for step in range(int(rng.randint(1, 5))):
        n = int(rng.randint(2, 6)) if idx % 40 != 9 else int(rng.randint(15, 40))
        if n > 10:
            mon.event('large_batches')
        X = memory(rng, gen.items(rng, n, d))
        if kind == 'gp':
            y = memory(rng, rng.randn(n))
            f = rng.randint(3)
            if f == 0:
                P.do('GP.add', lambda m, a, b: m.add(a, b), X, y)
            elif f == 1:
                P.do('GP.add noise', lambda m, a, b, s: m.add(a, b, training_sigma=s), X, y, [float(v) for v in rng.uniform(.01, .5, n)])
            else:
                P.do('GP.add noise array', lambda m, a, b, s: m.add(a, b, training_sigma=s), X, y, rng.uniform(.01, .5, n))
            forms.append(('gp', f))
        else:
            t = ('pair', 'ord', 'ord2', 'abs', 'abstuple', 'prior')[rng.randint(6)]
            L = 0 if P.a.X_train is None else len(P.a.X_train)
            if t == 'pair':
                y = gen.pairs_for(rng, n, int(rng.randint(1, 5)))
                y = [list, np.array, lambda v: [np.array(r) for r in v], lambda v: [list(r) for r in v]][rng.randint(4)](y)
                P.do('add pairs', lambda m, a, b: m.add(a, b), X, y)
            elif t == 'ord':
                P.do('add ordinal', lambda m, a, b: m.add(a, b, type='ordinal'), X, container(rng, [int(v) for v in rng.randint(1, 6, n)]))
            elif t == 'ord2':
                P.do('add ordinal with indices', lambda m, a, b: m.add(a, b, type='ordinal'), X, np.stack([rng.randint(1, 6, n), L + rng.permutation(n)], axis=1))
            elif t == 'abs':
                P.do('add ratings', lambda m, a, b: m.add(a, b, type='abs'), X, memory(rng, rng.rand(n)))
            elif t == 'abstuple':
                P.do('add ratings with indices', lambda m, a, b: m.add(a, b, type='abs'), X, (rng.rand(n), L + rng.permutation(n)))
            elif pareto and L:
                P.do('add_prior', lambda m, b, p: m.add_prior(bounds=b, pts=p, method='exact'), np.array([[0.0, 3.0]] * d), gen.items(rng, n, d))
            else:
                continue
            forms.append(t)
        if rng.rand() < .3:
            P.compare(gen.items(rng, 3, d))
        if rng.rand() < .3:
            Q = gen.items(rng, 3, d)
            np.random.seed(5); P.b.predict(Q.copy())
            np.random.seed(5); run(mon, 'predict', P.a.predict, (Q,)); scribble(Q)
            if rng.rand() < .5:
                P.compare(gen.items(rng, 3, d))
    if not forms:
        raise Skip('nothing added')
    if kind != 'gp' and rng.rand() < .5:
        h = P.a.get_hyper()
        if len(h):
            v = h * rng.uniform(.7, 1.3, len(h))
            P.do('set_hyper', lambda m, x: m.set_hyper(x), v)
            P.a.optimized = P.b.optimized = False
            forms.append('set_hyper')
    if kind != 'lin' and rng.rand() < .5:
        P.do('set_param', lambda m, x: m.cov_func.set_param(x), P.a.cov_func.get_param() * 1.1)
        if kind == 'pgp':
            P.a.optimized = P.b.optimized = False
        forms.append('set_param')
    if kind != 'gp' and rng.rand() < .5:
        b = np.cumsum(rng.uniform(.2, 1, 4)) - 1
        if rng.rand() < .5:
            b = np.hstack([[-np.inf], b, [np.inf]])
        if rng.rand() < .3:
            b = list(b)
            P.do('set_b', lambda m, x: m.probits[1].set_b(np.array(x)), b)
        else:
            P.do('set_b', lambda m, x: m.probits[1].set_b(x), b)
        P.a.optimized = P.b.optimized = False
        forms.append('set_b')
    P.compare(gen.items(rng, int(rng.randint(1, 5)), d))
    mon.nontrivial(kind, kn, d, forms, idx)
    mon.sample(dict(model=kind, kernel=kn, d=d, forms=forms))


def queries(rng, mon, tier, idx):
    """query selection: arguments kept, and nothing of them used later"""
    d = int(rng.randint(1, 3))
    name = (list(agen.GREEDY) + ['Acq', 'AbsAcq'] + list(agen.MIXED))[rng.randint(len(agen.GREEDY) + 2 + len(agen.MIXED))]
    seed = int(rng.randint(1 << 30))
    rep = dict(num_pts=4, num_Q=5)

    def build(rep):
        r = np.random.RandomState(seed)
        al = str(r.choice(['rho', 'epic', 'spearman']))
        acq = lambda: lop.AcquisitionSelection(M=6, rep_Q_data=rep, alignment_f=al)
        aab = lambda: lop.AbsAcquisition(M=6, rep_Q_data=rep, alignment_f=al)
        if name in agen.MIXED:
            L = agen.mixed(r, name, acq(), aab(), aab())
        else:
            L = {'Acq': acq, 'AbsAcq': aab}[name]() if name in ('Acq', 'AbsAcq') else agen.learner(r, name, always_select_best=bool(r.rand() < .4))
        m = lop.PreferenceLinear(active_learner=L) if seed % 3 == 0 else lop.PreferenceGP(lop.RBF_kern(1.0, 1.2), active_learner=L)
        X = gen.items(r, 5, d)
        m.add(X, gen.pairs_for(r, 5, 5, mgen.latent(r, X)))
        return m, L
    ra, rb = dict(rep), dict(rep)
    (ma, la), (mb, lb) = build(ra), build(rb)
    if name in agen.MIXED or name in ('Acq', 'AbsAcq'):
        scribble(ra)
        mon.event('rep_Q_data')
    res = []
    for rnd in range(int(rng.randint(1, 4))):
        C = gen.items(rng, int(rng.randint(4, 7)), d, 3.5)
        st = rng.get_state()
        aC = memory(rng, C)          # the same layout: another one rounds differently, which decides ties
        rng.set_state(st)
        C = memory(rng, C.copy())
        n = 2 if name in ('EqualChecking',) else int(rng.choice([1, 2, 3]))
        prev = [[], set(), [0], {1}][rng.randint(4)]
        pref = [None, {0, 2, 3}, [1, 2], 'pareto', 2][rng.randint(5)]
        if name in ('AbsAcq',):
            n = 1
        kw = dict(prev_selection=prev, prefer_pts=pref, return_not_selected=False)
        akw = copy.deepcopy(kw)
        mon.op('select', name, n, prev, pref)
        np.random.seed(seed); random.seed(seed)
        want = mb.select(aC, n, **akw)
        np.random.seed(seed); random.seed(seed)
        got = run(mon, 'select', ma.select, (C, n), kw)
        mon.check(same([int(v) for v in np.ravel(got)], [int(v) for v in np.ravel(want)]), 'aliased_selection',
                  'query %d differs from the one of a learner whose earlier arguments were not overwritten' % rnd, learner=name, got=got, want=want)
        res.append(got)
        scribble(C); scribble(kw)
        if rng.rand() < .4:
            X = gen.items(rng, 3, d)
            y = gen.pairs_for(rng, 3, 2)
            mb.add(X.copy(), list(y))
            ma.add(X, y); scribble(X); scribble(y)
    mon.event('selected')
    mon.nontrivial(name, seed, res)
    mon.sample(dict(learner=name, selected=res))


def functions(rng, mon, tier, idx):
    """utility functions, kernels and likelihoods leave every argument as it was"""
    d = int(rng.randint(1, 4))
    n = int(rng.randint(3, 8)) if idx % 10 != 4 else int(rng.randint(60, 200))
    if n > 8:
        mon.event('large_arrays')
    V = memory(rng, rng.randint(0, 4, (n, d)).astype(float))
    call = lambda name, fn, *a, **k: run(mon, name, fn, a, k)
    r = memory(rng, rng.randn(n))
    np.random.seed(int(rng.randint(1 << 30)))
    call('get_pareto', lop.get_pareto, V)
    call('get_pareto mask', lop.get_pareto, V, return_mask=True)
    call('p_human_choice', lop.p_human_choice, r, p=3.0)
    call('p_human_choice batch', lop.p_human_choice, memory(rng, rng.randn(3, n)), p=.5)
    call('sample_human_choice', lop.sample_human_choice, r, p=2.0)
    call('sample_unique_sets', lop.sample_unique_sets, memory(rng, np.arange(n + 2)), 3, 2)
    call('gen_pairs_from_idx', lop.gen_pairs_from_idx, 1, list(range(n)))
    f = [lop.FakeLinear, lop.FakeSquared, lop.FakeLogistic, lop.FakeSinExp, lop.FakeWeightedMax, lop.FakeWeightedMin, lop.FakeSquaredMinMax, lop.FakeMixtureGaussian, lop.FakeMinLog][rng.randint(9)](d + 1)
    W = memory(rng, rng.rand(n, d + 1))
    call('fake ' + type(f).__name__, f, W)
    call('fake static', lop.FakeStaticSin(), memory(rng, rng.rand(n)))
    call('ranked_pairs_from_fake', lop.ranked_pairs_from_fake, W, f)
    call('generate_fake_pairs', lop.generate_fake_pairs, W, lambda x, data=None: f(x), 1)
    call('generate_ranking_pairs', lop.generate_ranking_pairs, W, f)
    for u in (lop.PerfectUser(f), lop.HumanChoiceUser(f), lop.HumanChoiceUser2(f)):
        call('choose', u.choose, W)
        call('choose_pairs', u.choose_pairs, W)
        call('rate', u.rate, W)
    c = min(n, 8)
    A = rng.randn(c, c); cov = A @ A.T + np.eye(c)
    for meth in ('full', 'independent', 'switch', 'mvn'):
        call('calc_cdf ' + meth, calc_cdf, memory(rng, rng.randn(c)), memory(rng, cov), method=meth)
    x = memory(rng, rng.uniform(.1, 3, n))
    for g in (lop.pdf_gamma, lop.log_pdf_gamma, lop.d_log_pdf_gamma):
        call(g.__name__, g, x, 2.0, .5)
    call('normalize_0_1', lop.normalize_0_1, x)
    call('sigmoid', lop.sigmoid, x)
    y = [np.array(gen.pairs_for(rng, n, n)), (rng.randint(1, 6, n), np.arange(n)), (rng.rand(n), np.arange(n))]
    y = [v if rng.rand() < .7 else None for v in y]
    if y[0] is not None:
        s = call('k_fold_x_y', k_fold_x_y, memory(rng, rng.rand(n, d)), y, 2)
    call('get_y_with_idx', get_y_with_idx, y, [int(v) for v in rng.permutation(n)[:n - 1]])
    for k, kn in (gen.kernel(rng, lop), (lop.RBF_kern_zeroed(1.0, .8), 'zeroed'), (lop.RBF_kern_zeroed(1.0, .8, zero_pt=np.zeros(d)), 'zeroed')):
        X, Y = memory(rng, rng.rand(n, d)), memory(rng, rng.rand(3, d))
        call('cov', k.cov, X, Y); call('cov self', k.cov, X, X); call('cov_gradient', k.cov_gradient, X, Y)
        call('kernel call', k, X[0], Y[1]); call('kernel gradient', k.gradient, X[0], Y[1])
        call('set_param', k.set_param, k.get_param() * 1.2)
    for p, yy, F in [pgen.pref_case(rng)[:3], pgen.abs_case(rng)[:3], pgen.ord_case(rng)[:3]]:
        for nm in ('derivatives', 'log_likelihood', 'likelihood', 'grad_hyper', 'calc_W_dF', 'calc_W_dHyper'):
            if type(p) is lop.OrdinalProbit and nm in ('grad_hyper', 'calc_W_dF', 'calc_W_dHyper'):
                continue
            call('%s.%s' % (type(p).__name__, nm), getattr(p, nm), yy, F)
        call('set_hyper', p.set_hyper, p.get_hyper() * 1.1)
    call('likelihood_all_pairs', lop.PreferenceProbit().likelihood_all_pairs, r)
    call('mean_link', lop.AbsBoundProbit().mean_link, r)
    mon.event('functions')
    mon.nontrivial(d, n, idx)


def others(rng, mon, tier, idx):
    """users being calibrated, plots, and the computations a model offers on data passed in"""
    d = int(rng.randint(1, 3))
    call = lambda name, fn, *a, **k: run(mon, name, fn, a, k)
    np.random.seed(int(rng.randint(1 << 30)))
    with quiet():
        f = lop.FakeLinear(d + 1)
        R = memory(rng, rng.uniform(-3, 3, (24, d + 1)))
        for u in (lop.HumanChoiceUser(f),):
            Qs = np.asarray(u.sample_Qs(R, 2))
            for nm in ('learn_beta_pairwise', 'learn_sigma'):
                try:
                    call(nm, getattr(u, nm), R, .8, 2, Qs=memory(rng, Qs))
                except Exception as e:
                    if 'Bad setting' not in str(e):
                        raise
        m = lop.PreferenceGP(lop.RBF_kern(1.0, 1.3))
        n = 6
        X = gen.items(rng, n, d)
        f0 = mgen.latent(rng, X)
        m.add(X, gen.pairs_for(rng, n, 6, f0))
        m.add(X, [int(v) for v in rng.randint(1, 6, n)], type='ordinal')
        m.add(X, rng.rand(n), type='abs')
        m.predict(X)
        F, y, XT = memory(rng, m.F), copy.deepcopy(m.y_train), memory(rng, m.X_train)
        call('derivatives', m.derivatives, y, F)
        call('log_likelyhood_training', m.log_likelyhood_training, F, y)
        call('likli_f_hyper', m.likli_f_hyper, F, XT, y)
        call('likli_f', m.likli_f, F, XT, y, np.array(m.K), np.linalg.cholesky(m.K + 1e-6 * np.eye(len(m.F))))
        call('find_mode', m.find_mode, XT, y)
        call('predict given data', m.predict, gen.items(rng, 3, d), X_train=XT, F=F, W=np.array(m.W))
        call('predict_large', m.predict_large, memory(rng, gen.items(rng, 7, d)))
        call('model call', m, memory(rng, gen.items(rng, 3, d)))
        if d == 2:
            fig = plt.figure()
            try:
                call('plot_preference', m.plot_preference, head_size=1, X_train=XT, y_train=y, F=F)
            finally:
                plt.close(fig)
            mon.event('plots')
        L = lop.PreferenceLinear()
        L.add(X, gen.pairs_for(rng, n, 6, f0))
        L.predict(X if X.ndim > 1 else X[:, None])
        call('linear derivatives', L.derivatives, memory(rng, L.X_train), copy.deepcopy(L.y_train), memory(rng, L.w))
        keep = []

        def logp(x):
            keep.append((x, x.copy()))
            return -.5 * float(np.sum(x * x))
        S = metropolis_hastings(logp, 20, dim=d, num_to_burn=10)
        mon.check(all(np.array_equal(a, b) for a, b in keep), 'state_modified', 'the sampler changed a point it had already passed to the density')
        before = S.copy()
        for a, b in keep:
            a[...] = 99.0
        mon.check(np.array_equal(S, before), 'aliased_samples', 'the samples are the very arrays handed to the density')
    mon.event('others')
    mon.nontrivial(d, idx)


GROUPS = [Group('stored', stored, 400, 12000, require=('compared', 'call:add ordinal with indices', 'call:add ratings with indices', 'call:set_b', 'zero_pt', 'large_batches')),
          Group('queries', queries, 90, 2500, require=('selected', 'rep_Q_data')),
          Group('functions', functions, 60, 2000, require=('functions', 'large_arrays')),
          Group('others', others, 40, 800, require=('others', 'plots'))]
