"""C10: hyper-parameter vectors of kernels, likelihoods and models."""
import copy
import numpy as np
import lop
from harness.core import Group
from harness import gen, mgen, pgen
from harness.own import OwnKernel

RULE = ('random kernel compositions, likelihoods with every optimisation flag, and models with every mix of feedback; '
        'write/read round trips with random positive vectors, component-by-component destination of every number, lengths of '
        'all companion vectors, state snapshots around reads; distinct by composition, flags, feedback mix and vector')
ASSUMPTIONS = ['vectors hold positive parameters', 'ordinal likelihoods have at least 3 levels (with 2 the spread parameter has no effect)']
TECHNIQUE = 'runtime monitoring: round-trip/lens monitor with state snapshots and recorded random draws over generated compositions and feedback mixes'


def leaf(rng, n):
    s = lambda a=0.3, b=3.0: float(rng.uniform(a, b))
    k = rng.randint(5)
    if k == 4:
        return OwnKernel(s(), s())
    if k == 0:
        return lop.RBF_kern(s(), s())
    if k == 1:
        return lop.LinearKern(s(), s(), s())
    if k == 2:
        return lop.PeriodicKern(s(), s(), s())
    return lop.RBF_kern_zeroed(s(), s(), zero_pt=np.zeros(2))


def tree(rng, depth):
    if depth == 0 or rng.rand() < 0.3:
        return leaf(rng, 0)
    a, b = tree(rng, depth - 1), tree(rng, depth - 1)
    return a + b if rng.rand() < 0.5 else a * b


def leaves(k):
    return leaves(k.a) + leaves(k.b) if isinstance(k, lop.DualKern) else [k]


def state(o, skip=()):
    """plain data attributes of an object, deep copied"""
    out = {}
    for k, v in vars(o).items():
        if k in skip or callable(v):
            continue
        out[k] = copy.deepcopy(v)
    return out


def same_state(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same_state(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) == type(b) and len(a) == len(b) and all(same_state(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.shape(a) == np.shape(b) and bool(np.all(np.asarray(a) == np.asarray(b)))
    if hasattr(a, '__dict__'):
        return type(a) == type(b) and same_state(vars(a), vars(b))
    return a == b


def shape(k):
    return '(%s%s%s)' % (shape(k.a), k.operator, shape(k.b)) if isinstance(k, lop.DualKern) else type(k).__name__


def kernel(rng, mon, tier, idx):
    k = tree(rng, int(rng.randint(0, 4)))
    X = gen.items(rng, 3, 2)
    p0 = np.array(k.get_param())
    n = len(p0)
    ls = leaves(k)
    mon.check(np.array_equal(p0, np.concatenate([l.get_param() for l in ls])), 'kernel_vector_order', 'combined vector is not the parts in order', kernel=shape(k))
    before = copy.deepcopy(k)
    C0 = np.array(k.cov(X, X))
    lens = dict(len=len(k), prior_gradient=len(k.grad_param_likli()), pair_gradient=len(k.gradient(X[0], X[1])),
                cov_gradient=len(k.cov_gradient(X, X)), random=len(k.randomize_hyper()))
    k.param_likli()
    mon.check(all(v == n for v in lens.values()), 'kernel_vector_lengths', 'lengths %r, parameter vector has %d' % (lens, n), kernel=shape(k))
    mon.check(np.array_equal(k.get_param(), p0) and same_state(vars(before), vars(k)), 'kernel_read_changes', 'reading changed the kernel', kernel=shape(k))
    mon.close(k.param_likli(), sum(l.param_likli() for l in ls), 'kernel_prior_sum', 1e-12, 1e-12, 'prior is the sum over parts')
    mon.event('kernel_read')
    theta = rng.uniform(0.3, 3.0, n)
    if rng.rand() < 0.3:
        theta = np.array(k.randomize_hyper())
        mon.check(np.all(np.isfinite(theta)) and np.all(theta > 0), 'kernel_draw_invalid', 'random draw %r' % theta)
    arg = theta.copy() if rng.rand() < 0.7 else [float(t) for t in theta]
    k.set_param(arg)
    mon.check(np.array_equal(k.get_param(), theta), 'kernel_round_trip', 'wrote %r read %r' % (theta, k.get_param()), kernel=shape(k))
    c = 0
    for l in ls:
        m = len(l.get_param())
        mon.check(np.array_equal(l.get_param(), theta[c:c + m]), 'kernel_part_param', 'part %s holds %r, expected %r' % (shape(l), l.get_param(), theta[c:c + m]), kernel=shape(k))
        fresh = type(l)(*theta[c:c + m], **({'zero_pt': np.zeros(2)} if isinstance(l, lop.RBF_kern_zeroed) else {}))
        mon.close(l.cov(X, X + 0.1), fresh.cov(X, X + 0.1), 'kernel_param_meaning', 1e-12, 1e-12, 'written parameters act like constructor parameters')
        c += m
    # changing one entry changes exactly that entry, and writing the old vector back restores the kernel
    i = int(rng.randint(n))
    t2 = theta.copy(); t2[i] += 0.5
    k.set_param(t2)
    mon.check(np.array_equal(k.get_param(), t2), 'kernel_single_entry', 'wrote %r read %r' % (t2, k.get_param()))
    wide = np.exp(rng.uniform(-14, 14, n))
    k.set_param(wide.copy())
    mon.check(np.array_equal(k.get_param(), wide), 'kernel_round_trip', 'wrote %r read %r' % (wide, k.get_param()), kernel=shape(k))
    k.set_param(p0)
    mon.check(np.array_equal(k.get_param(), p0) and np.array_equal(np.array(k.cov(X, X)), C0), 'kernel_restore', 'writing the first vector back does not restore the covariance', kernel=shape(k))
    mon.nontrivial(shape(k), n, theta[0])
    mon.sample(dict(kernel=shape(k), theta=theta))


def mk_probit(rng, kind):
    if kind == 'pair':
        return lop.PreferenceProbit(sigma=float(rng.uniform(.2, 2)), optimize_parameters=bool(rng.rand() < .7))
    if kind == 'abs':
        return lop.AbsBoundProbit(sigma=float(rng.uniform(.3, 2)), v=float(rng.uniform(5, 100)), optimize_parameters=bool(rng.rand() < .7), optimize_v_only=bool(rng.rand() < .5))
    return lop.OrdinalProbit(n_ordinals=int(rng.randint(3, 9)), sigma=float(rng.uniform(.3, 2)), b=float(rng.uniform(.5, 3)))


def meaning(p, kind, hyper):
    """attributes the vector must end up in"""
    if kind == 'pair':
        return {'sigma': hyper[0]} if p.optimize_parameters else {}
    if kind == 'abs':
        if not p.optimize_parameters:
            return {}
        return {'v': hyper[0]} if p.optimize_v_only else {'sigma': hyper[0], 'v': hyper[1]}
    return {'sigma': hyper[0]}


def probit(rng, mon, tier, idx):
    kind = ('pair', 'abs', 'ord')[idx % 3]
    p = mk_probit(rng, kind)
    p0 = np.array(p.get_hyper())
    before = state(p)
    n = len(p0)
    lens = dict(prior_gradient=len(p.grad_param_likli()), random=len(p.randomize_hyper()))
    p.param_likli()
    mon.check(all(v == n for v in lens.values()), 'probit_vector_lengths', '%s: lengths %r, parameter vector has %d' % (kind, lens, n))
    mon.check(same_state(before, state(p)), 'probit_read_changes', '%s: reading changed the likelihood' % kind)
    flags = {k: v for k, v in before.items() if k.startswith('optimize')}
    theta = rng.uniform(0.3, 3.0, n)
    if n:
        keep = {'sigma': p.sigma, 'v': getattr(p, 'v', None)}
        p.set_hyper(theta.copy() if rng.rand() < .7 else [float(t) for t in theta])
        mon.check(np.allclose(p.get_hyper(), theta, rtol=1e-15), 'probit_round_trip', '%s: wrote %r read %r' % (kind, theta, p.get_hyper()), flags=flags)
        for a, v in meaning(p, kind, theta).items():
            mon.check(getattr(p, a) == v, 'probit_param_meaning', '%s: %s is %r, expected %r' % (kind, a, getattr(p, a), v), flags=flags)
        if kind == 'abs' and p.optimize_v_only:
            mon.check(p.sigma == keep['sigma'], 'probit_other_changed', 'sigma changed although only v is a parameter')
        # the written likelihood behaves like one constructed with these parameters
        y, F = {'pair': lambda: (np.array([(1, 0, 1), (-1, 1, 2)]), rng.randn(3)),
                'abs': lambda: ((np.array([.3, .7]), np.array([0, 2])), rng.randn(3)),
                'ord': lambda: ((np.array([1, 3]), np.array([0, 2])), rng.randn(3))}[kind]()
        s = meaning(p, kind, theta)
        fresh = {'pair': lambda: lop.PreferenceProbit(sigma=theta[0]),
                 'abs': lambda: lop.AbsBoundProbit(sigma=s.get('sigma', keep['sigma']), v=s['v']),
                 'ord': lambda: lop.OrdinalProbit(sigma=theta[0], b=theta[1], n_ordinals=p.n_ordinals)}[kind]()
        mon.close(p.log_likelihood(y, F), fresh.log_likelihood(y, F), 'probit_written_behaviour', 1e-10, 1e-10, '%s: likelihood after writing' % kind)
        for a, b, nm in zip(p.derivatives(y, F), fresh.derivatives(y, F), ('curvature', 'gradient', 'loglik')):
            mon.close(a, b, 'probit_written_behaviour', 1e-10, 1e-10, '%s: %s after writing' % (kind, nm))
        wide = np.exp(rng.uniform(-14, 14, n))
        p.set_hyper(wide.copy())
        mon.check(np.allclose(p.get_hyper(), wide, rtol=1e-15, atol=0), 'probit_round_trip', '%s: wrote %r read %r' % (kind, wide, p.get_hyper()), flags=flags)
        p.set_hyper(p0)
        mon.check(np.allclose(p.get_hyper(), p0, rtol=1e-15), 'probit_restore', '%s: %r != %r' % (kind, p.get_hyper(), p0))
        if kind != 'ord':
            g, W = np.asarray(p.grad_hyper(y, F)), np.asarray(p.calc_W_dHyper(y, F))
            mon.check(len(g) == n and len(W) == n, 'probit_gradient_length', '%s: gradient %d curvature derivative %d parameters %d' % (kind, len(g), len(W), n))
    else:
        p.set_hyper(np.zeros(0))
        mon.check(same_state(before, state(p)), 'probit_fixed_changed', '%s: writing an empty vector changed the likelihood' % kind)
    mon.nontrivial(kind, flags, n, p0)
    mon.sample(dict(kind=kind, flags=flags, params=p0, written=theta))


def ordinal_gradient(rng, mon, tier, idx):
    """likelihood gradient of the ordinal likelihood has one entry per parameter"""
    p = mk_probit(rng, 'ord')
    g = p.grad_hyper((np.array([1, 3]), np.array([0, 2])), rng.randn(3))
    mon.check(len(g) == len(p.get_hyper()), 'ordinal_gradient_length', 'gradient has %d entries for %d parameters' % (len(g), len(p.get_hyper())))
    mon.nontrivial(p.get_hyper())


def ordinal_two(rng, mon, tier, idx):
    p = lop.OrdinalProbit(n_ordinals=2)
    v = np.array([0.7, 1.0 + idx])
    p.set_hyper(v)
    mon.check(np.allclose(p.get_hyper(), v), 'ordinal_two_level_round_trip', 'wrote %r read %r' % (v, p.get_hyper()))
    mon.nontrivial(v)


KIND_IDX = {'pair': 0, 'ord': 1, 'abs': 2}


def model(rng, mon, tier, idx):
    d = 2
    lin = rng.rand() < 0.25
    kinds = mgen.random_kinds(rng)
    flags = {}
    if lin:
        m = lop.PreferenceLinear()
    else:
        kern = tree(rng, int(rng.randint(0, 3)))
        m = lop.PreferenceGP(kern, hyperparam_only_probit=bool(rng.rand() < 0.4))
    for kind in ('pair', 'ord', 'abs'):
        if rng.rand() < 0.5:
            m.probits[KIND_IDX[kind]] = mk_probit(rng, kind)
            if kind == 'ord' and m.probits[1].n_ordinals < 5:
                m.probits[1] = lop.OrdinalProbit(n_ordinals=5)
    order = [k for k in ('pair', 'ord', 'abs') if k in kinds]
    for k in rng.permutation(list(kinds)):
        mgen.fill(rng, m, d, (str(k),))
    if rng.rand() < 0.2:
        m.reset()
        order = []
    has_k = not lin and not m.hyperparam_only_probit
    comp = [(k, m.probits[KIND_IDX[k]].get_hyper) for k in order] + ([('kernel', m.cov_func.get_param)] if has_k else [])
    desc = dict(kinds=order, linear=lin, kernel=None if lin else shape(m.cov_func), with_kernel=has_k,
                flags=[(p.optimize_parameters if hasattr(p, 'optimize_parameters') else None, getattr(p, 'optimize_v_only', None)) for p in m.probits])
    mon.op('model', desc)

    def everything():
        return [[np.array(p.get_hyper()) for p in m.probits], [getattr(p, 'sigma', None) for p in m.probits], m.probits[2].v,
                None if lin else np.array(m.cov_func.get_param())]
    v0 = np.array(m.get_hyper())
    want = np.concatenate([np.zeros(0)] + [np.asarray(f()) for _, f in comp])
    mon.check(np.array_equal(v0, want), 'model_vector_content', 'vector %r, parts in order give %r' % (v0, want), **desc)
    n = len(v0)
    from checks.c02 import snap, same
    data = snap(m)
    pre = everything()
    g = np.asarray(m.grad_hyper_liklihood())
    m.hyper_liklihood()
    mon.check(len(g) == n, 'model_prior_gradient_length', 'prior gradient %d, parameters %d' % (len(g), n), **desc)
    mon.check(same_state(pre, everything()) and same(data, snap(m)), 'model_read_changes', 'reading changed the model', **desc)
    theta = rng.uniform(0.3, 3.0, n)
    m.set_hyper(theta.copy())
    mon.check(np.allclose(m.get_hyper(), theta, rtol=1e-15), 'model_round_trip', 'wrote %r read %r' % (theta, m.get_hyper()), **desc)
    c = 0
    for nm, f in comp:
        h = np.asarray(f())
        mon.check(np.allclose(h, theta[c:c + len(h)], rtol=1e-15), 'model_part_param', '%s holds %r, expected %r' % (nm, h, theta[c:c + len(h)]), **desc)
        c += len(h)
    post = everything()
    for k, i in KIND_IDX.items():
        if k not in order:
            mon.check(same_state(pre[0][i], post[0][i]) and pre[1][i] == post[1][i], 'model_other_changed', '%s likelihood without data changed' % k, **desc)
    if not has_k and not lin:
        mon.check(same_state(pre[3], post[3]), 'model_other_changed', 'kernel changed though only likelihood parameters are searched', **desc)
    mon.check(same(data, snap(m)), 'model_data_changed', 'writing parameters changed the training data', **desc)
    wide = np.exp(rng.uniform(-14, 14, n))
    m.set_hyper(wide.copy())
    mon.check(np.allclose(m.get_hyper(), wide, rtol=1e-15, atol=0), 'model_round_trip', 'wrote %r read %r' % (wide, m.get_hyper()), **desc)
    m.set_hyper(v0)
    mon.check(np.allclose(m.get_hyper(), v0, rtol=1e-15), 'model_restore', '%r != %r' % (m.get_hyper(), v0), **desc)
    mon.event('model_round_trip')
    if lin or not order:
        mon.nontrivial(desc, n)
        return
    # likelihood gradient (not available for ordinal data: see known finding of group ordinal_gradient)
    if 'ord' not in order:
        m.set_hyper(np.array(v0))
        F = rng.randn(len(m.X_train)) * 0.3
        try:
            np.linalg.cholesky(m.cov_func.cov(m.X_train, m.X_train))
            gl = m.grad_likli_f_hyper(F, m.X_train, m.y_train)
            mon.check(len(gl) == n, 'model_likelihood_gradient_length', 'likelihood gradient %d, parameters %d' % (len(gl), n), **desc)
            mon.event('likelihood_gradient')
        except np.linalg.LinAlgError:
            pass
    # random draws go to the parameters they were drawn for
    drawn = {}
    for k, i in list(KIND_IDX.items()):
        p = m.probits[i]

        def wrap(*a, _f=p.randomize_hyper, _k=k):
            r = _f(*a)
            drawn.setdefault(_k, []).append(np.array(r, copy=True))
            return r
        p.randomize_hyper = wrap

    def kwrap(*a, _f=m.cov_func.randomize_hyper):
        r = _f(*a)
        drawn.setdefault('kernel', []).append(np.array(r, copy=True))
        return r
    m.cov_func.randomize_hyper = kwrap
    pre = everything()
    m.randomize_hyper()
    post = everything()
    for nm, f in comp:
        h = np.asarray(f())
        mon.check(np.all(np.isfinite(h)) and np.all(h > 0), 'model_draw_invalid', '%s drew %r' % (nm, h), **desc)
        if drawn.get(nm):
            mon.check(np.allclose(h, drawn[nm][-1], rtol=1e-15), 'model_draw_misplaced', '%s holds %r after drawing %r' % (nm, h, drawn[nm][-1]), **desc)
            mon.event('draw_checked')
    for k, i in KIND_IDX.items():
        if k not in order:
            mon.check(same_state(pre[0][i], post[0][i]), 'model_draw_other', '%s likelihood without data changed by a random draw' % k, **desc)
    if not has_k:
        mon.check(same_state(pre[3], post[3]), 'model_draw_other', 'kernel changed by a random draw of likelihood parameters', **desc)
    mon.check(same(data, snap(m)), 'model_draw_data', 'random draw changed the training data', **desc)
    mon.nontrivial(desc, theta[0] if n else 0)
    mon.sample(dict(desc, drawn=drawn))


GROUPS = [Group('kernel', kernel, 1800, 20000, require=['kernel_read']), Group('probit', probit, 900, 9000),
          Group('model', model, 1500, 15000, require=['model_round_trip', 'likelihood_gradient', 'draw_checked']),
          Group('ordinal_gradient', ordinal_gradient, 3, 10), Group('ordinal_two', ordinal_two, 2, 4)]
