"""C30: runs with the same seed are identical; separately built objects share no mutable state."""
import contextlib, copy, inspect, io, os, pickle, random, subprocess, sys, types
import numpy as np
import lop
from lop.utilities import metropolis_hastings, k_fold_x_y
from harness.core import Group, Skip, VERIF
from harness import gen, mgen, agen

TECHNIQUE = 'runtime monitoring: repeated, interleaved and cross-process executions of the same seeded history compared value by value; heap walks for shared mutable objects; snapshots of all module-level and default-argument state'
RULE = ('random histories of constructing, adding, fitting, searching, predicting, sampling, querying and simulated answering; every history is run again after '
        'unrelated work, step by step interleaved with another one (each with its own generator state) and in processes with different hash seeds; distinct by history')
ASSUMPTIONS = ['both global generators are seeded (numpy.random and random: fold splitting uses the latter)', 'one numerical library and thread count; values compared to 1e-9 relative, choices exactly',
               'objects handed to several constructors by the caller are shared on purpose']


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def plain(x):
    if isinstance(x, np.ndarray):
        return np.array(x)
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, set):
        return sorted(x)
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    return x


def scenario(seed):
    """a list of (name, fn(state) -> output); everything random inside is drawn from the global generators by the library"""
    r = np.random.RandomState(seed)
    kind = ('pgp', 'pgp', 'lin', 'gp')[r.randint(4)]
    d = int(r.randint(1, 3))
    names = list(agen.GREEDY) if kind == 'gp' else list(agen.GREEDY) + ['Acq', 'AbsAcq', 'Bayes'] + list(agen.MIXED)
    name = names[r.randint(len(names))]
    sub = int(r.randint(1 << 30))
    defaults = bool(r.rand() < .5)
    steps = []

    def make(S):
        q = np.random.RandomState(sub)
        if name in agen.MIXED:
            acq = (lambda: lop.AcquisitionSelection(M=6)) if defaults else (lambda: agen.learner(q, 'Acq'))
            aab = (lambda: lop.AbsAcquisition(M=6)) if defaults else (lambda: agen.learner(q, 'AbsAcq'))
            L = agen.mixed(q, name, acq(), aab(), aab())
        elif name in ('Acq', 'AbsAcq') and defaults:
            L = {'Acq': lop.AcquisitionSelection, 'AbsAcq': lop.AbsAcquisition}[name](M=6)
        else:
            L = agen.learner(q, name)
        if kind == 'gp':
            m = lop.GP(lop.RBF_kern(1.0, 1.2), active_learner=L)
        elif kind == 'lin':
            m = lop.PreferenceLinear(active_learner=L, pareto_pairs=bool(q.rand() < .3))
        else:
            m = lop.PreferenceGP(gen.kernel(q, lop, ('rbf', 'rbf+lin', 'rbf+rbf'))[0], active_learner=L, pareto_pairs=bool(q.rand() < .3))
        S['m'], S['L'] = m, L
        S['f'] = lop.FakeLinear(d + 1) if q.rand() < .5 else lop.FakeSinExp(d + 1)
        S['u'] = (lop.PerfectUser, lop.HumanChoiceUser, lop.HumanChoiceUser2)[q.randint(3)](S['f'])
        return [float(v) for v in np.ravel(S['f'](np.ones((2, d + 1))))]
    steps.append(('construct', make))

    def add(t, X, y):
        def go(S):
            if kind == 'gp':
                S['m'].add(X.copy(), np.array(y, dtype=float))
            else:
                S['m'].add(X.copy(), copy.deepcopy(y), type=t)
        return go
    for _ in range(int(r.randint(1, 3))):
        n = int(r.randint(4, 7))
        X = gen.items(r, n, d)
        if kind == 'gp':
            steps.append(('add', add('', X, r.randn(n))))
        else:
            ks = mgen.random_kinds(r) if name not in agen.MIXED + ('Acq', 'AbsAcq') else (('pair',), ('pair', 'abs'))[r.randint(2)]
            fb, _f = mgen.feedback(r, X, ks)
            for pos, y, t in fb:
                steps.append(('add ' + t, add(t, X[pos], y)))
    Q = gen.items(r, 4, d)

    def predict(S):
        return [plain(v) for v in S['m'].predict(Q.copy())]

    def sel(n, kw):
        def go(S):
            C = gen.items(np.random.RandomState(sub ^ 5), 6, d, 3.5)
            if S['m'].X_train is None:
                return None
            return plain(S['m'].select(C, n, **copy.deepcopy(kw)))
        return go

    def answers(S):
        C = gen.items(np.random.RandomState(sub ^ 7), 5, d + 1)
        return [plain(S['u'].choose(C)), plain(S['u'].choose_pairs(C)), plain(S['u'].rate(C))]

    def sampling(S):
        return [metropolis_hastings(lambda x: -.5 * float(x @ x), 15, dim=d, num_to_burn=5), plain(lop.sample_unique_sets(7, 4, 2)),
                plain(lop.sample_human_choice(np.arange(4.0), p=.7, samples=5))]

    def state(S):
        m = S['m']
        return dict(y=plain(m.y_train), X=plain(m.X_train), hyper=plain(m.get_hyper()) if kind != 'gp' else None, fit=plain(getattr(m, 'F', getattr(m, 'w', None))))

    def prior(S):
        if getattr(S['m'], 'pareto_pairs', False):
            S['m'].add_prior(bounds=np.array([[0.0, 2.0]] * d), num_pts=5)

    def hyper(S):
        if kind == 'pgp' and S['m'].X_train is not None and S['m'].y_train[1] is None and len(S['m'].X_train) < 10:
            S['m'].optimize(True)
            return plain(S['m'].get_hyper())

    def redraw(S):
        if kind == 'pgp':
            S['m'].randomize_hyper()
            S['m'].optimized = False
            return plain(S['m'].get_hyper())

    def reset(S):
        S['m'].reset()

    def folds(S):
        m = S['m']
        if kind != 'gp' and m.X_train is not None and len(m.X_train) > 3 and m.y_train[0] is not None:
            return plain(k_fold_x_y(m.X_train, m.y_train, 2))
    pool = [('predict', predict)] * 3 + [('answers', answers), ('sampling', sampling), ('state', state), ('state', state), ('prior', prior), ('folds', folds), ('redraw', redraw)]
    if r.rand() < .25:
        pool.append(('hyper', hyper))
    if r.rand() < .3:
        pool.append(('reset', reset))
    for _ in range(int(r.randint(3, 8))):
        if r.rand() < .4:
            n = 1 if name == 'AbsAcq' else 2 if name in ('EqualChecking', 'Bayes') else int(r.choice([1, 2, 3]))
            kw = [{}, {}, {}, dict(prev_selection=[0]), dict(prefer_pts={1, 2, 3}), dict(prefer_pts='pareto'), dict(return_not_selected=True)][r.randint(7)]
            steps.append(('select %d' % n, sel(n, kw)))
        else:
            steps.append(pool[r.randint(len(pool))])
    steps += [('predict', predict), ('state', state)]
    return (kind, name, d), steps


def step(fn, S):
    """outcome of one step: output, or the error it raises (a run repeated must repeat its errors too)"""
    with quiet():
        try:
            return ['ok', plain(fn(S))]
        except Exception as e:
            if type(e).__name__ in ('Hang', 'DebuggerEntered'):
                raise
            return ['error', type(e).__name__]


def run(seed, steps):
    np.random.seed(seed % (2**31)); random.seed(seed)
    S, out = {}, []
    for name, fn in steps:
        out.append([name, step(fn, S)])
    out.append(['generator', [float(np.random.random()), random.random()]])
    return out, S


def differ(a, b, path=''):
    """first difference of two outputs, or None"""
    if isinstance(a, dict):
        if not isinstance(b, dict) or a.keys() != b.keys():
            return path, a, b
        for k in a:
            x = differ(a[k], b[k], path + '/' + str(k))
            if x:
                return x
        return None
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            return path, a, b
        for i, (x, y) in enumerate(zip(a, b)):
            r = differ(x, y, '%s/%s' % (path, x if i == 0 and isinstance(x, str) else i))
            if r:
                return r
        return None
    if isinstance(a, (np.ndarray, np.generic, float)) or isinstance(b, (np.ndarray, np.generic, float)):
        x, y = np.asarray(a), np.asarray(b)
        if x.shape != y.shape:
            return path, a, b
        if x.dtype.kind in 'fc':
            return None if np.allclose(x, y, rtol=1e-9, atol=1e-11, equal_nan=True) else (path, a, b)
        return None if np.array_equal(x, y) else (path, a, b)
    return None if a == b else (path, a, b)


def repeat(rng, mon, tier, idx):
    sa, sb = int(rng.randint(1 << 30)), int(rng.randint(1 << 30))
    (desc, A), (db, B) = scenario(sa), scenario(sb)
    for n, _ in A:
        mon.op(n)
    first, _ = run(sa, A)
    errors = [x for x in first if x[1][0] == 'error']
    if errors:
        mon.event('errors')
    again, _ = run(sa, A)
    x = differ(first, again)
    mon.check(x is None, 'not_repeatable', 'the same seeded history gave another result', scenario=desc, difference=x)
    run(sb, B)                                   # unrelated work
    third, _ = run(sa, A)
    x = differ(first, third)
    mon.check(x is None, 'depends_on_other_work', 'the same seeded history gave another result after unrelated work', scenario=desc, other=db, difference=x)
    # interleaved, each with its own generator state
    ref = dict(a=first, b=run(sb, B)[0])
    ctx = {}
    for k, s, st in (('a', sa, A), ('b', sb, B)):
        np.random.seed(s % (2**31)); random.seed(s)
        ctx[k] = dict(np=np.random.get_state(), py=random.getstate(), S={}, out=[], steps=list(st))
    while any(c['steps'] for c in ctx.values()):
        k = 'ab'[rng.randint(2)]
        c = ctx[k]
        if not c['steps']:
            continue
        np.random.set_state(c['np']); random.setstate(c['py'])
        name, fn = c['steps'].pop(0)
        c['out'].append([name, step(fn, c['S'])])
        c['np'], c['py'] = np.random.get_state(), random.getstate()
    for k in 'ab':
        x = differ(ref[k][:-1], ctx[k]['out'])
        mon.check(x is None, 'instances_interfere', 'working with another instance in between changed the result', scenario=(desc, db), difference=x)
    mon.event('repeated')
    mon.event('steps', 3 * len(A) + 3 * len(B))
    if not errors:
        mon.event('scenario:' + desc[0])
        mon.nontrivial(sa, sb, desc)
        mon.sample(dict(scenario=desc, steps=[n for n, _ in A]))


def seeds_matter(rng, mon, tier, idx):
    """the randomness really comes from the global generators: another seed gives other samples"""
    outs = []
    for s in (1, 2):
        np.random.seed(s); random.seed(s)
        m = lop.PreferenceGP(lop.RBF_kern(1.0, 1.0))
        m.add(gen.items(np.random.RandomState(0), 6, 2), [(-1, 0, 1), (-1, 2, 3), (1, 4, 5)])
        outs.append([metropolis_hastings(lambda x: -.5 * float(x @ x), 10), np.array(lop.sample_unique_sets(12, 5, 3)), lop.sample_human_choice(np.zeros(5), p=1.0, samples=20),
                     lop.FakeLinear(3)(np.eye(3)), plain(k_fold_x_y(m.X_train, m.y_train, 3)) if False else np.random.random(2)])
    for i, (a, b) in enumerate(zip(*outs)):
        mon.check(not np.array_equal(a, b), 'seed_ignored', 'output %d is the same for two seeds' % i, got=a)
    mon.event('seeds')
    mon.nontrivial(idx)


def single(r):
    """everything that draws at random, one by one: name -> call"""
    d = int(r.randint(1, 4))
    X = gen.items(r, 12, d)
    V = r.rand(12, d + 1)
    out = {}
    kerns = {'rbf': lambda: lop.RBF_kern(1.0, 1.0), 'zeroed': lambda: lop.RBF_kern_zeroed(1.0, 1.0), 'periodic': lambda: lop.PeriodicKern(1.0, 1.0, 1.0), 'linear': lambda: lop.LinearKern(1.0, 1.0, 1.0),
             'sum': lambda: lop.RBF_kern(1.0, 1.0) + lop.LinearKern(1.0, 1.0, 1.0), 'product': lambda: lop.RBF_kern(1.0, 1.0) * lop.PeriodicKern(1.0, 1.0, 1.0)}
    for k, mk in kerns.items():
        out['kernel ' + k] = lambda mk=mk: mk().randomize_hyper()
    for p in (lop.PreferenceProbit, lop.OrdinalProbit, lop.AbsBoundProbit):
        out[p.__name__] = lambda p=p: p().randomize_hyper()
    out['AbsBoundProbit both'] = lambda: lop.AbsBoundProbit(optimize_v_only=False).randomize_hyper()

    def model_hyper():
        m = lop.PreferenceGP(lop.RBF_kern(1.0, 1.0) + lop.PeriodicKern(1.0, 1.0, 1.0))
        m.randomize_hyper()
        return m.get_hyper()
    out['model hyper'] = model_hyper
    for F in ('FakeLinear', 'FakeSquared', 'FakeLogistic', 'FakeSinExp', 'FakeWeightedMax', 'FakeWeightedMin', 'FakeSquaredMinMax', 'FakeMixtureGaussian', 'FakeMinLog'):
        def fake(F=F):
            f = getattr(lop, F)(d + 1)
            a = f(V)
            f.randomize()
            return [a, f(V)]
        out[F] = fake
    w = r.rand(d + 1)
    f = lambda Z, data=None: np.asarray(Z) @ w
    for U in (lop.HumanChoiceUser, lop.HumanChoiceUser2):
        out[U.__name__] = lambda U=U: [U(f).choose(V), U(f).choose_pairs(V), U(f).rate(V), U(f).rate(V[0])]
    out['sample_Qs'] = lambda: lop.HumanChoiceUser(f).sample_Qs(V, 2)

    def calibrate():
        u = lop.HumanChoiceUser(f)
        for nm in ('learn_beta_pairwise', 'learn_sigma'):
            try:
                getattr(u, nm)(np.repeat(V, 3, axis=0) * r0, .75, 2)
            except Exception as e:
                if '10 tries' not in str(e):
                    raise
        return [u.beta, u.sigma]
    r0 = 3.0
    out['calibration'] = calibrate

    def calibrate2():
        u = lop.HumanChoiceUser2(f)
        u.learn_beta([[V[:6], V[6:]]], .8)
        return [u.beta, u.sigma]
    out['calibration 2'] = calibrate2
    out['choice'] = lambda: [lop.sample_human_choice(np.arange(5.0), p=.3), lop.sample_human_choice(np.arange(5.0), p=.3, samples=9)]
    out['sets'] = lambda: [lop.sample_unique_sets(9, 4, 3), lop.sample_unique_sets([3, 5, 7, 9, 11], 4, 2)]
    out['folds'] = lambda: plain(k_fold_x_y(X, [np.array([(1, 0, 1), (-1, 2, 3)]), (np.array([1, 2, 3]), np.array([4, 5, 6])), None], 3))
    out['sampler'] = lambda: metropolis_hastings(lambda x: -.5 * float(x @ x), 20, dim=2)
    y = gen.pairs_for(r, 12, 8)
    for kind in ('pgp', 'lin'):
        def fit(kind=kind):
            m = lop.PreferenceLinear() if kind == 'lin' else lop.PreferenceGP(lop.RBF_kern(1.0, 1.0))
            m.add(X if X.ndim > 1 else X[:, None], y)
            m.predict(X[:3] if X.ndim > 1 else X[:3, None])
            return getattr(m, 'F', getattr(m, 'w', None))
        out['fit ' + kind] = fit

    def prior():
        m = lop.PreferenceGP(lop.RBF_kern(1.0, 1.0), pareto_pairs=True)
        m.add_prior(np.array([[0., 1.]] * 2), num_pts=6)
        return m.X_train
    out['prior points'] = prior
    return out


def large(r):
    """the same at sizes where an implementation may take another path"""
    d = int(r.choice([3, 6, 12]))
    n = int(r.choice([120, 600, 1500]))
    V = r.rand(n, d)
    w = r.randn(d)
    f = lambda Z, data=None: np.asarray(Z) @ w
    out = {}
    k = int(r.choice([60, 150, 400]))
    out['sets'] = lambda: [lop.sample_unique_sets(40, k, 3), lop.sample_unique_sets(np.arange(9) * 3, 20, 2), lop.sample_unique_sets(n, 30, 12)]
    pr = gen.pairs_for(r, n, 3 * n)
    out['folds'] = lambda: plain(k_fold_x_y(V, [np.array(pr), None, (r0[:n // 2], np.arange(n // 2))], 5))
    r0 = r.randint(1, 6, size=n)
    out['choice'] = lambda: [lop.sample_human_choice(f(V)), lop.sample_human_choice(f(V), p=2.0, samples=2000)]
    for U in (lop.HumanChoiceUser, lop.HumanChoiceUser2):
        out[U.__name__] = lambda U=U: [U(f).choose(V), U(f).choose_pairs(V), U(f).rate(V)]
    out['sample_Qs'] = lambda: lop.HumanChoiceUser(f).sample_Qs(V[:300], 4)

    def calibrate2():
        u = lop.HumanChoiceUser2(lop.FakeLinear(d))
        u.learn_beta([[V[:510], V[-510:]], [V[:510]]] if n >= 510 else [[V], [V]], .8)
        return [u.beta, u.sigma]
    out['calibration 2'] = calibrate2
    out['sampler'] = lambda: metropolis_hastings(lambda x: -.5 * float(x @ x), 1500, dim=d, num_to_burn=700)
    for F in ('FakeLinear', 'FakeSinExp', 'FakeMixtureGaussian', 'FakeLogistic', 'FakeWeightedMax'):
        out[F] = lambda F=F: getattr(lop, F)(d * 5)(r1)
    r1 = r.rand(50, d * 5)
    out['kernel'] = lambda: [(lop.RBF_kern(1.0, 1.0) + lop.LinearKern(1.0, 1.0, 1.0) + lop.PeriodicKern(1.0, 1.0, 1.0) * lop.RBF_kern(1.0, 1.0)).randomize_hyper() for _ in range(40)]

    def prior():
        m = lop.PreferenceLinear(pareto_pairs=True)
        m.add_prior(np.array([[0., 1.]] * d), num_pts=150)
        return m.X_train
    out['prior points'] = prior
    m0 = int(r.choice([25, 60]))

    def learner(L, gp=False, kw={}, num=3):
        def go():
            if gp:
                m = lop.GP(lop.RBF_kern(1.0, 1.0), active_learner=L())
                m.add(V[:m0], f(V[:m0]))
            else:
                m = lop.PreferenceLinear(active_learner=L())
                m.add(V[:20], [q for q in pr if max(q[1], q[2]) < 20] + [(1, 0, 1)])
            return [plain(m.select(V[20:20 + m0], num, **kw)) for _ in range(2)]
        return go
    for nm in ('RandomLearner', 'UCBLearner', 'BestLearner', 'GV_UCBLearner'):
        if hasattr(lop, nm):
            out[nm] = learner(getattr(lop, nm), nm in ('UCBLearner', 'RandomLearner', 'GV_UCBLearner'))
    out['AcquisitionSelection'] = learner(lambda: lop.AcquisitionSelection(M=15), num=2)
    out['BayesInfoGain'] = learner(lambda: lop.BayesInfoGain(), num=2)
    out['MutualInfoLearner'] = learner(lambda: lop.MutualInfoLearner(), num=2)
    return out


def draws_large(rng, mon, tier, idx):
    draws(rng, mon, tier, idx, large)


def draws(rng, mon, tier, idx, components=None):
    """every random draw comes from the seeded global generators, whatever object makes it"""
    components = components or single
    s, seed = int(rng.randint(1 << 30)), int(rng.randint(1 << 30))
    for name in sorted(components(np.random.RandomState(s))):
        got = []
        for other in (seed, seed, seed ^ 1):
            fn = components(np.random.RandomState(s))[name]
            np.random.seed(other % (2 ** 31)); random.seed(other)
            with quiet():
                ok, v = mon.lib('draw ' + name, fn)
            if not ok:
                return
            got.append(plain(v))
        x = differ(got[0], got[1])
        mon.check(x is None, 'draw_not_repeatable', '%s gives other values with the same seed' % name, difference=x)
        if differ(got[0], got[2]):
            mon.event('seed_used:' + name)
    mon.event('components', len(components(np.random.RandomState(s))))
    mon.nontrivial(s, seed)


IMMUTABLE = (int, float, complex, str, bytes, bool, type(None), type, types.FunctionType, types.BuiltinFunctionType, types.MethodType, types.ModuleType, np.generic, np.dtype, np.ufunc, range, slice, frozenset)


def reachable(x, out=None, path='', depth=0):
    """ids of mutable objects reachable through attributes and containers -> path"""
    out = {} if out is None else out
    if isinstance(x, types.MethodType):
        return reachable(x.__self__, out, path, depth)
    if isinstance(x, IMMUTABLE) or depth > 12:
        return out
    if isinstance(x, tuple):
        for i, v in enumerate(x):
            reachable(v, out, '%s[%d]' % (path, i), depth + 1)
        return out
    if id(x) in out:
        return out
    if isinstance(x, np.ndarray):
        out[id(x)] = (path, x)
        while isinstance(x.base, np.ndarray):
            x = x.base
            out.setdefault(id(x), (path + '.base', x))
        return out
    if isinstance(x, dict):
        out[id(x)] = (path, x)
        for k, v in x.items():
            reachable(v, out, '%s[%r]' % (path, k), depth + 1)
    elif isinstance(x, (list, set)):
        out[id(x)] = (path, x)
        for i, v in enumerate(x):
            reachable(v, out, '%s[%d]' % (path, i), depth + 1)
    elif hasattr(x, '__dict__') and type(x).__module__.split('.')[0] in ('lop',):
        out[id(x)] = (path, x)
        for k, v in vars(x).items():
            reachable(v, out, '%s.%s' % (path, k), depth + 1)
    return out


def sharing(rng, mon, tier, idx):
    """two objects built and used by the same calls have no mutable object in common, not even default arguments"""
    sa = int(rng.randint(1 << 30))
    desc, A = scenario(sa)
    g0 = global_state()
    _, S = run(sa, A)
    _, T = run(sa, A)
    a, b = reachable(S), reachable(T)
    both = [(a[i][0], b[i][0]) for i in a if i in b]
    mon.check(not both, 'shared_mutable_state', 'two separately built models share mutable objects', scenario=desc, shared=both[:6])
    mon.event('heap_objects', len(a) + len(b))
    d = int(rng.randint(1, 4))
    zoo = [lambda: lop.PreferenceProbit(), lambda: lop.OrdinalProbit(), lambda: lop.AbsBoundProbit(), lambda: lop.RBF_kern(1.0, 1.0), lambda: lop.RBF_kern_zeroed(1.0, 1.0),
           lambda: lop.PeriodicKern(1.0, 1.0, 1.0), lambda: lop.LinearKern(1.0, 1.0, 1.0), lambda: lop.RBF_kern(1.0, 1.0) + lop.LinearKern(1.0, 1.0, 1.0),
           lambda: lop.AcquisitionSelection(), lambda: lop.AbsAcquisition(), lambda: lop.BayesInfoGain(), lambda: lop.MutualInfoLearner(), lambda: lop.PreferenceLinear(), lambda: lop.PreferenceGP(lop.RBF_kern(1.0, 1.0)),
           lambda: lop.GP(lop.RBF_kern(1.0, 1.0)), lambda: lop.UCBLearner(), lambda: lop.GV_UCBLearner(), lambda: lop.RandomLearner(), lambda: lop.BestLearner(), lambda: lop.ProbabilityLearner(),
           lambda: lop.MixedComparisionSetFixed(lop.RandomLearner(), lop.RandomLearner()), lambda: lop.RateChooseLearner(lop.RandomLearner(), lop.RandomLearner()), lambda: lop.AlignmentDecision(lop.AcquisitionSelection(), lop.AbsAcquisition(), 3),
           lambda: lop.AbsBayesInfo(), lambda: lop.FakeLinear(d), lambda: lop.FakeSinExp(d), lambda: lop.FakeLogistic(d), lambda: lop.FakeSquared(d), lambda: lop.FakeMixtureGaussian(d), lambda: lop.FakeWeightedMax(d),
           lambda: lop.FakeWeightedMin(d), lambda: lop.FakeSquaredMinMax(d), lambda: lop.FakeMinLog(d), lambda: lop.PerfectUser(lop.FakeLinear(d)), lambda: lop.HumanChoiceUser(lop.FakeLinear(d)), lambda: lop.HumanChoiceUser2(lop.FakeLinear(d))]
    mk = zoo[rng.randint(len(zoo))]
    x, y = mk(), mk()
    a, b = reachable(x), reachable(y)
    both = [(a[i][0], b[i][0]) for i in a if i in b]
    mon.check(not both, 'shared_mutable_state', 'two separately built objects share mutable objects', cls=type(x).__name__, shared=both[:6])
    # no default argument, class attribute or module variable changed
    g1 = global_state()
    for k in g0:
        mon.check(k in g1 and differ(g0[k], g1[k]) is None, 'global_state_changed', 'module-level, class-level or default-argument state changed: %s' % k, before=g0[k], after=g1.get(k))
    mon.event('globals', len(g0))
    mon.event('shared_checked')
    mon.nontrivial(sa, type(x).__name__)


def global_state():
    out = {}

    def keep(k, v):
        if isinstance(v, (list, dict, set, np.ndarray, tuple)):
            try:
                out[k] = copy.deepcopy(plain(v))
            except Exception:
                pass
        elif isinstance(v, (int, float, str, bool)):
            out[k] = v
    for name, mod in sorted(sys.modules.items()):
        if name != 'lop' and not name.startswith('lop.'):
            continue
        for k, v in vars(mod).items():
            if k.startswith('__'):
                continue
            keep('%s.%s' % (name, k), v)
            if inspect.isfunction(v) and v.__module__ == name and v.__defaults__:
                keep('%s.%s()' % (name, k), list(v.__defaults__))
            if inspect.isclass(v) and v.__module__ == name:
                for a, w in vars(v).items():
                    if a.startswith('__') and a != '__init__':
                        continue
                    keep('%s.%s.%s' % (name, k, a), w)
                    if inspect.isfunction(w) and w.__defaults__:
                        keep('%s.%s.%s()' % (name, k, a), [z for z in w.__defaults__ if isinstance(z, (list, dict, set, np.ndarray, tuple, int, float, str, bool))])
    return out


def process(rng, mon, tier, idx):
    """the same history in processes with different hash seeds"""
    seeds = [int(v) for v in rng.randint(1 << 30, size=4)]
    outs = []
    for hs in ('0', '1', str(int(rng.randint(2, 1 << 20)))):
        env = dict(os.environ, PYTHONHASHSEED=hs)
        p = subprocess.run([sys.executable, '-B', '-c', 'import sys, pickle; sys.path.insert(0, %r)\nfrom harness import core\ncore.prepare_process()\nimport numpy, random\nfrom checks import c30\n'
                            'r = [c30.run(s, c30.scenario(s)[1])[0] for s in %r]\nsys.stdout.flush(); sys.stdout.buffer.write(b"@@@" + pickle.dumps(r))' % (VERIF, seeds)],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=200)
        if p.returncode or b'@@@' not in p.stdout:
            raise RuntimeError('child failed: ' + p.stderr.decode()[-500:])
        outs.append(pickle.loads(p.stdout.split(b'@@@', 1)[1]))
    for o in outs[1:]:
        x = differ(outs[0], o)
        mon.check(x is None, 'process_dependent', 'the same seeded history gives another result in another process', difference=x, seeds=seeds)
    mon.event('processes', 3)
    mon.nontrivial(seeds)


GROUPS = [Group('repeat', repeat, 64, 3000, require=('repeated', 'scenario:pgp', 'scenario:lin', 'scenario:gp')),
          Group('sharing', sharing, 80, 4000, require=('shared_checked', 'heap_objects', 'globals')),
          Group('draws', draws, 24, 600, require=('components', 'seed_used:kernel periodic', 'seed_used:kernel zeroed', 'seed_used:FakeSinExp', 'seed_used:calibration', 'seed_used:HumanChoiceUser', 'seed_used:sampler')),
          Group('draws_large', draws_large, 10, 200, require=('components', 'seed_used:sets', 'seed_used:choice', 'seed_used:HumanChoiceUser', 'seed_used:sampler', 'seed_used:folds')),
          Group('seeds_matter', seeds_matter, 4, 20, require=('seeds',)),
          Group('process', process, 2, 40, require=('processes',), chunk=1)]
