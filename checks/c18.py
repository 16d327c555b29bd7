"""C18: asking for queries or predictions does not change what was learned."""
import copy
import numpy as np
import lop
from lop.utilities import metropolis_hastings
from harness.core import Group
from harness import gen, mgen, agen

RULE = ('random fitted models (GP, preference GP, linear) with every learner, and random sequences of read-only calls (predictions, '
        'queries in all option forms, representative queries, samples, likelihoods and their derivatives, score functions, plots); '
        'state compared after every call and predictions at the end; distinct by model, learner and call sequence')
ASSUMPTIONS = ['the model has data and is fitted before the calls', 'hyper-parameter search off', 'mutual-information style covariance cache (model.cov) is a scratch result, not part of what was learned']
TECHNIQUE = 'runtime monitoring: deep snapshots of training data, hyper-parameters and fit around every public read-only call'


def clone(x):
    return copy.deepcopy(x)


def same(a, b):
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and bool(np.all((a == b) | ((a != a) & (b != b))))
    return a == b or (a is None and b is None)


def learned(m):
    s = dict(X_train=m.X_train, y_train=m.y_train)
    if hasattr(m, 'probits'):
        s['likelihood_parameters'] = [p.get_hyper() for p in m.probits]
        s['levels'] = m.probits[1].n_ordinals if hasattr(m.probits[1], 'n_ordinals') else None
        s['prior_idx'] = m.prior_idx
    if hasattr(m, 'cov_func'):
        s['kernel_parameters'] = m.cov_func.get_param()
    for k in ('F', 'w', 'W'):
        if getattr(m, k, None) is not None:
            s[k] = getattr(m, k)
    return clone(s)


def compare(mon, what, a, m, kw):
    b = learned(m)
    for k in a:
        if not same(a[k], b.get(k)):
            mon.fail('changed_' + k, '%s changed %s' % (what, k), before=a[k], after=b.get(k), **kw)
    mon.event('compared')


def attach(rng, d, kind):
    names = list(agen.GREEDY) + ['Acq', 'AbsAcq', 'Bayes'] + list(agen.MIXED)
    if kind == 'gp':
        names = list(agen.GREEDY)
    name = names[rng.randint(len(names))]
    if name in agen.MIXED:
        st = rng.get_state()
        comp = agen.learner(rng, 'AbsAcq')
        rng.set_state(st)
        pair = agen.learner(rng, 'Acq')
        rng.set_state(st)
        rate = agen.learner(rng, 'AbsAcq')
        return name, agen.mixed(rng, name, pair, rate, comp)
    if name == 'Bayes' and rng.rand() < .7:
        name = 'GV_UCB'
    return name, agen.learner(rng, name, always_select_best=bool(rng.rand() < .3))


def calls(rng, m, al, name, kind, d):
    """(label, thunk) of a random read-only call"""
    pts = lambda n: agen.candidates(rng, d, n)
    c = ['predict', 'predict', 'call', 'predict_large', 'select', 'select', 'select', 'select_best', 'select_best_learner']
    if kind != 'gp':
        c += ['likelihoods', 'derivatives', 'loss', 'hyper_scores', 'get_hyper', 'add_nothing']
        if d in (0, 2) and kind == 'pgp':
            c += ['plot']
    if kind == 'lin':
        c += ['mh']
    if hasattr(al, 'get_representative_Q'):
        c += ['samples', 'samples']
    what = c[rng.randint(len(c))]
    C = pts(int(rng.choice([3, 4, 6])))
    own = bool(rng.rand() < .5)
    if what == 'predict':
        return what, lambda: m.predict(pts(int(rng.randint(1, 9))))
    if what == 'call':
        return what, lambda: m(pts(3))
    if what == 'predict_large':
        return what, lambda: m.predict_large(gen.items(rng, int(rng.choice([1, 15, 33])), d))
    if what == 'select_best':
        return what, lambda: m.select_best(C)
    if what == 'select_best_learner':
        return what, lambda: al.select_best(np.array(m(C)), set(range(len(C))), set())
    if what == 'select':
        n = len(C)
        prev = [int(i) for i in rng.choice(n, rng.randint(0, n - 1), replace=False)] if rng.rand() < .4 else []
        pref = [None, 0, 2, 'pareto', [0, 1]][rng.randint(5)]
        pref = None if pref == 'pareto' and d == 0 else pref
        k = 2 if name in agen.MIXED else int(rng.randint(1, min(3, n - len(prev)) + 1))
        ret = bool(rng.rand() < .3)
        return what, lambda: m.select(C, k, prev, pref, ret)
    if what == 'likelihoods':
        def f():
            # also on the fitted values themselves
            F = m.F if kind == 'pgp' and own else np.array(m(np.array(m.X_train)))
            m.log_likelyhood_training(F)
            for p, y in zip(m.probits, m.y_train):
                if y is not None:
                    p.log_likelihood(y, F)
                    p.likelihood(y, F) if hasattr(p, 'likelihood') else None
            m.probits[0].likelihood_all_pairs(F)
        return what, f
    if what == 'derivatives':
        def f():
            F = m.F if kind == 'pgp' and own else rng.randn(len(m.X_train))
            if kind == 'lin':
                m.derivatives(m.X_train, m.y_train, m.w if own else rng.randn(m.X_train.shape[1]))
            else:
                m.derivatives(m.y_train, F)
            for p, y in zip(m.probits, m.y_train):
                if y is not None:
                    p.derivatives(y, F)
                    if not isinstance(p, lop.OrdinalProbit):
                        p.grad_hyper(y, F)
                        p.calc_W_dF(y, F)
                        p.calc_W_dHyper(y, F)
        return what, f
    if what == 'loss':
        if kind == 'lin':
            return what, lambda: m.loss_func(m.w if own else rng.randn(m.X_train.shape[1]))
        if own:
            def f():
                L = np.linalg.cholesky(m.K)
                m.likli_f(m.F, m.X_train, m.y_train, m.K, L)
                try:
                    if m.y_train[1] is None:
                        m.likli_f_hyper(m.F, m.X_train, m.y_train)
                        m.grad_likli_f_hyper(m.F, m.X_train, m.y_train)
                except np.linalg.LinAlgError:
                    pass  # singular covariance, has no such score
            return what, f
        K = np.asarray(m.cov_func.cov(m.X_train, m.X_train)) + 1e-6 * np.eye(len(m.X_train))
        return what, lambda: m.likli_f(rng.randn(len(m.X_train)), m.X_train, m.y_train, K, np.linalg.cholesky(K))
    if what == 'hyper_scores':
        def f():
            m.hyper_liklihood()
            m.grad_hyper_liklihood()
        return what, f
    if what == 'get_hyper':
        return what, lambda: m.get_hyper()
    if what == 'add_nothing':
        return what, lambda: (str(m), repr(m), m.get_prior_pts())
    if what == 'plot':
        def f():
            import matplotlib
            matplotlib.use('Agg')
            import matplotlib.pyplot as plt
            fig, ax = plt.subplots()
            try:
                m.plot_preference(ax=ax)
            finally:
                plt.close(fig)
        return what, f
    if what == 'mh':
        return what, lambda: metropolis_hastings(m.loss_func, 20, dim=m.X_train.shape[1])

    def f():
        x, Q = al.get_representative_Q(C)
        al.get_samples_from_model(C, x)
    return what, f


def scramble(out):
    """results belong to the caller: changing them must not reach the model"""
    for x in out if isinstance(out, (tuple, list)) else (out,):
        if isinstance(x, np.ndarray) and x.flags.writeable and x.dtype.kind == 'f':
            x += 3.25


def case(rng, mon, tier, idx):
    kind = ('pgp', 'pgp', 'lin', 'gp')[rng.randint(4)]
    d = int(rng.randint(0, 4)) if kind != 'lin' else int(rng.randint(1, 4))
    name, al = attach(rng, d, kind)
    m, _ = agen.model(rng, al, d, kind, data=int(rng.choice([3, 5])))
    if kind == 'pgp' and rng.rand() < .3:
        mgen.fill(rng, m, d, ('ord',))
    if kind != 'gp' and d and rng.rand() < .15:
        m.add_prior(np.array([[0.0, 1.0]] * d), 6)
    Q = gen.items(rng, 4, d)
    mu0, var0 = m.predict(Q)
    mu0, var0 = np.array(mu0), (None if var0 is None else np.array(var0))
    s0 = learned(m)
    done = []
    for _ in range(int(rng.randint(2, 9))):
        what, fn = calls(rng, m, al, name, kind, d)
        kw = dict(model=kind, learner=name, d=d, calls=list(done), call=what)
        mon.op(what)
        out = fn()
        done.append(what)
        mon.event('call_' + what)
        if what in ('predict', 'call', 'predict_large') and rng.rand() < .5:
            try:
                scramble(out)
                mon.event('result_overwritten')
            except ValueError:
                pass
        compare(mon, what, s0, m, kw)
    mu1, var1 = m.predict(Q)
    kw = dict(model=kind, learner=name, d=d, calls=done)
    mon.close(mu1, mu0, 'prediction_changed', 1e-10, 1e-12, 'prediction after read-only calls', **kw)
    if var0 is not None:
        mon.close(var1, var0, 'variance_changed', 1e-10, 1e-12, 'variance after read-only calls', **kw)
    mon.event('predictions_compared')
    mon.nontrivial(kind, name, d, done)
    mon.sample(kw)


def alignment_decision(rng, mon, tier, idx):
    pair, rate = agen.learner(rng, 'Acq'), agen.learner(rng, 'UCB')
    pair.alignment_f = str(rng.choice(['epic', 'spearman']))
    orig = pair.get_samples_from_model

    def thin(*a, **k):
        x, y = orig(*a, **k)
        return x[:100], y[:100]
    pair.get_samples_from_model = thin
    al = lop.AlignmentDecision(pair, rate, 1)
    d = int(rng.randint(1, 4))
    kind = 'lin' if idx % 6 == 5 and d > 1 else 'pgp'
    m, _ = agen.model(rng, al, d, kind, data=0)
    for t in ('pair', 'abs'):
        mgen.fill(rng, m, d, (t,), 4)
    Q = gen.items(rng, 4, d)
    mu0 = np.array(m.predict(Q)[0])
    s0 = learned(m)
    for r in range(int(rng.randint(2, 5))):
        m.select(agen.candidates(rng, d, 5), 2)
        compare(mon, 'AlignmentDecision round %d' % r, s0, m, dict(model=kind, d=d))
        mon.close(m.predict(Q)[0], mu0, 'prediction_changed', 1e-10, 1e-12, 'prediction after an AlignmentDecision query', model=kind, round=r)
    mon.event('alignment_decision')
    mon.nontrivial(kind, d, idx)


GROUPS = [Group('read_only', case, 300, 12000, require=['compared', 'predictions_compared', 'call_select', 'call_predict']),
          Group('alignment_decision', alignment_decision, 12, 300, require=['alignment_decision'])]
