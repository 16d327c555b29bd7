"""C03: predictions reflect exactly the current training data (twin-model history checker)."""
import numpy as np
import lop
from harness.core import Group
from harness import gen, mgen
from checks.c01 import batch

RULE = ('random histories of additions (every feedback kind, empty batches, prior points), predictions through all entry '
        'points, resets and re-additions on the three kinds of model; at every prediction a twin that received the current '
        'data in one go is trained with the same generator state and compared; distinct by history')
ASSUMPTIONS = ['hyper-parameter search switched off', 'untrained linear model (random weights by design) excluded']
TECHNIQUE = 'runtime monitoring: twin-model history checker with counted fits over random add/predict/reset histories'


def new_model(rng_seed, kind, spec):
    r = np.random.RandomState(rng_seed)
    if kind == 'gp':
        return lop.GP(gen.kernel(r, lop, ('rbf', 'lin', 'rbf+lin', 'rbf+rbf'))[0], mean_func=(lambda x: 0.7 + 0 * np.sum(np.atleast_2d(x))) if spec['mean'] else None)
    if kind == 'pgp':
        return lop.PreferenceGP(gen.kernel(r, lop, ('rbf', 'rbf+lin', 'rbf+rbf'))[0], normalize_gp=spec['norm'] > 0,
                                normalize_positive=spec['norm'] > 1, pareto_pairs=spec['pareto'])
    return lop.PreferenceLinear(pareto_pairs=spec['pareto'])


def feed(m, b):
    if b[0] == 'prior':
        m.add_prior(bounds=b[1], method='exact', pts=b[2].copy())
    elif b[0] == 'gp':
        m.add(b[1].copy(), b[2].copy(), training_sigma=b[3])
    else:
        m.add(b[0].copy(), b[1], type=b[2])


def labelled(m):
    return any(y is not None and len(np.atleast_1d(y[0] if isinstance(y, tuple) else y)) for y in m.y_train)


def history(rng, mon, tier, idx):
    kind = ('pgp', 'pgp', 'lin', 'gp')[idx % 4]
    d = int(rng.randint(0 if kind != 'lin' else 2, 4))
    spec = dict(mean=rng.rand() < .4, norm=int(rng.choice([0, 0, 0, 1, 2])), pareto=bool(kind != 'gp' and d > 0 and rng.rand() < .3))
    kseed = int(rng.randint(1 << 30))
    m = new_model(kseed, kind, spec)
    fits = [0]
    if kind != 'gp':
        def counted(*a, _f=m.optimize, **k):
            fits[0] += 1
            return _f(*a, **k)
        m.optimize = counted
    batches, dirty, last, resets, npred, hist = [], True, None, 0, 0, []
    for step in range(int(rng.randint(4, 11))):
        r = rng.rand()
        if r < 0.45 or (kind == 'lin' and not batches):
            if kind == 'gp':
                n = int(rng.randint(1, 6))
                b = ('gp', gen.items(rng, n, d), rng.randn(n), float(rng.choice([0.0005, 0.1])))
            elif spec['pareto'] and rng.rand() < 0.3:
                b = ('prior', np.array([[0., 3.]] * d), gen.items(rng, int(rng.randint(2, 6)), d))
            else:
                # an unlabelled first batch leaves the linear model with nothing to learn from
                b = batch(rng, d, allow_unlabelled=bool(batches), most=30 if idx % 40 == 6 and rng.rand() < .4 else 5)
                if len(b[0]) > 12:
                    mon.event('large_batches')
            f0 = fits[0]
            feed(m, b)
            mon.check(fits[0] == f0, 'fit_not_lazy', 'adding data fitted the model')
            batches.append(b); dirty = True
            hist.append('a')
        elif r < 0.57 and batches:
            m.reset(); batches, dirty, last = [], True, None
            resets += 1
            hist.append('r')
            mon.event('reset')
        else:
            if kind == 'lin' and m.X_train is None:
                continue
            Xq = gen.items(rng, int(rng.randint(2, 18)) if idx % 30 != 4 else int(rng.randint(18, 150)), d)
            ep = ('predict', 'call', 'large', 'best')[rng.randint(4)] if dirty else 'predict'
            seed = int(rng.randint(1 << 30))
            f0 = fits[0]
            np.random.seed(seed)
            if ep == 'call':
                m(Xq)
            elif ep == 'large':
                m.predict_large(Xq)
            elif ep == 'best':
                m.select_best(Xq)
            if dirty and ep == 'predict':
                got = m.predict(Xq)
            else:
                np.random.seed(seed + 1)      # must not matter: nothing to fit any more
                got = m.predict(Xq)
            cov = None if kind == 'lin' else np.array(m.cov)
            if kind != 'gp' and batches and m.X_train is not None:
                n_f = fits[0] - f0
                mon.check(n_f <= (1 if dirty else 0), 'fit_count', '%d fits for %s data' % (n_f, 'changed' if dirty else 'unchanged'))
                if dirty:
                    mon.event('fit_expected'); last = seed
            t = new_model(kseed, kind, spec)
            for b in batches:
                feed(t, b)
            np.random.seed(last if last is not None else seed)
            want = t.predict(Xq)
            mon.close(got[0], want[0], 'stale_mean', 1e-6, 1e-8, '%s: mean differs from a model trained once on the current data (history %s)' % (kind, ''.join(hist)), spec=spec)
            if kind != 'lin':
                mon.close(got[1], want[1], 'stale_variance', 1e-6, 1e-8, '%s: variance differs (history %s)' % (kind, ''.join(hist)), spec=spec)
                mon.close(cov, t.cov, 'stale_covariance', 1e-6, 1e-8, '%s: covariance differs' % kind)
            f1 = fits[0]
            again = m.predict(Xq)
            mon.check(np.array_equal(again[0], got[0]) and fits[0] == f1, 'repeat_differs', '%s: second prediction differs or refits' % kind)
            mon.event('prediction'); npred += 1
            if not dirty:
                mon.event('prediction_unchanged')
            dirty = False
            hist.append('p')
    h = ''.join(hist)
    if npred and 'a' in h:
        mon.nontrivial(kind, h, d, spec)
        mon.sample(dict(kind=kind, history=h, d=d, spec=spec, fits=fits[0]))


GROUPS = [Group('history', history, 720, 9000, require=['prediction', 'fit_expected', 'prediction_unchanged', 'reset', 'large_batches'])]
