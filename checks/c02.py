"""C02: refused additions injected into histories; store, predictions and later additions must be as if never made."""
import numpy as np
import lop
from harness.core import Group
from harness import gen
from harness.shadow import Shadow, read, diff
from checks.c01 import batch

RULE = ('random histories with refused additions (ratings out of range, non-positive ordinals, unknown label containers, '
        'items of the wrong dimension) at random points before and after fitting, compared with a twin model that never saw '
        'them; distinct by history shape and kind of refusal')


def snap(m):
    def cp(y):
        if y is None:
            return None
        if isinstance(y, tuple):
            return tuple(np.array(a, copy=True) for a in y)
        return np.array(y, copy=True)
    return (None if m.X_train is None else np.array(m.X_train, copy=True), [cp(y) for y in m.y_train],
            m.prior_idx)


def same(a, b):
    def eq(x, y):
        if x is None or y is None:
            return x is None and y is None
        if isinstance(x, tuple):
            return isinstance(y, tuple) and len(x) == len(y) and all(eq(p, q) for p, q in zip(x, y))
        return np.asarray(x).shape == np.asarray(y).shape and bool(np.all(np.asarray(x) == np.asarray(y)))
    return eq(a[0], b[0]) and all(eq(x, y) for x, y in zip(a[1], b[1])) and a[2] == b[2]


def refused(rng, m, d, mon):
    """attempt an addition the model documents as refused; returns kind and whether it raised"""
    n = int(rng.randint(1, 5))
    X = gen.items(rng, n, d)
    kind = ['abs_high', 'abs_low', 'ord_zero', 'ord_pairs', 'abs_tuple', 'ord_neg', 'ord_zero_list', 'abs_list', 'abs_scalar', 'dim', 'abs_nan', 'type_unknown'][rng.randint(12)]
    if kind == 'abs_high':
        y = rng.uniform(0, 1, n); y[rng.randint(n)] = 1.0 + rng.choice([1e-9, 1e-3, 1.0, 100.]); t = 'abs'
    elif kind == 'abs_low':
        y = rng.uniform(0, 1, n); y[rng.randint(n)] = -rng.choice([1e-9, 1e-3, 1.0, 100.]); t = 'abs'
    elif kind in ('ord_zero', 'ord_zero_list', 'ord_neg'):
        y = rng.randint(1, 6, n); y[rng.randint(n)] = 0 if 'zero' in kind else -int(rng.randint(1, 5)); t = 'ordinal'
        if kind == 'ord_zero_list':
            y = [int(v) for v in y]
    elif kind == 'ord_pairs':      # labels given with the items they belong to
        L = 0 if m.X_train is None else len(m.X_train)
        v = rng.randint(1, 6, n); v[rng.randint(n)] = -int(rng.randint(0, 5))
        y = np.stack([v, L + rng.permutation(n)], axis=1); t = 'ordinal'
    elif kind == 'abs_tuple':
        L = 0 if m.X_train is None else len(m.X_train)
        v = rng.uniform(0, 1, n); v[rng.randint(n)] = rng.choice([-1e-3, 1.001, 7.0, -5.0, np.nan])
        y = (v, L + rng.permutation(n)); t = 'abs'
    elif kind == 'abs_nan':
        y = rng.uniform(0, 1, n); y[rng.randint(n)] = rng.choice([np.nan, np.nan, np.inf, -np.inf]); t = 'abs'
    elif kind == 'type_unknown':
        t = str(rng.choice(['absolute', 'Abs', 'pairs', 'ordinals', 'relative', '']))
        y = [rng.uniform(0, 1, n), rng.randint(1, 4, n), gen.pairs_for(rng, n, 2) if n > 1 else []][rng.randint(3)]
    elif kind == 'abs_list':
        y = [float(v) for v in rng.uniform(0, 1, n)]; t = 'abs'
    elif kind == 'abs_scalar':
        class Odd(list):
            pass
        y = Odd(rng.uniform(0, 1, n)); t = 'abs'
    else:
        if m.X_train is None:
            return None, None
        X = gen.items(rng, n, d + 1)
        y = rng.uniform(0, 1, n); t = 'abs'
    mon.op('refused_' + kind, X, y, t)
    try:
        m.add(X, y, type=t)
        raised = False
    except Exception:
        raised = True
    return kind, raised


def history(rng, mon, tier, idx):
    pareto = bool(rng.rand() < 0.3)
    d = int(rng.choice([1, 2, 3] if pareto else [0, 1, 2, 3]))
    which = rng.randint(3)

    def mk():
        if which == 0:
            return lop.PreferenceModel(pareto_pairs=pareto)
        if which == 1 or d == 0:
            return lop.PreferenceGP(lop.RBF_kern(1.0, 1.0), pareto_pairs=pareto)
        return lop.PreferenceLinear(pareto_pairs=pareto)
    m, twin = mk(), mk()
    can_predict = not (which == 0)
    seq, n_ref = [], 0
    Q = gen.items(rng, 4, d)

    def predict_both(tag):
        s = int(rng.randint(2**31 - 1))
        np.random.seed(s)
        ok, a = mon.lib('predict_after_refusal', m.predict, Q)
        if not ok:
            return False
        np.random.seed(s)
        b = twin.predict(Q)
        mon.event('twin_predictions')
        return mon.close(a[0], b[0], 'prediction_unaffected', rtol=1e-6, atol=1e-7, msg=tag, equal_nan=True)
    for _ in range(int(rng.randint(2, 8))):
        r = rng.rand()
        if r < 0.45:
            before = snap(m)
            kind, raised = refused(rng, m, d, mon)
            if kind is None:
                continue
            n_ref += 1
            seq.append(kind)
            mon.event('refusal:' + kind)
            if kind not in ('abs_list', 'abs_scalar'):
                mon.check(raised, 'must_refuse', 'invalid feedback (%s) was accepted' % kind)
            mon.check(same(before, snap(m)), 'unchanged', 'training data changed by refused addition ' + kind,
                      before_items=before[0], after_items=m.X_train)
        elif r < 0.7 and can_predict and m.X_train is not None:
            seq.append('?')
            predict_both('prediction in history')
        else:
            X, y, t = batch(rng, d, allow_unlabelled=False)
            mon.op('add', X, y, t)
            m.add(X.copy(), y, type=t)
            twin.add(X.copy(), y, type=t)
            seq.append(t[0])
        if mon.violations:
            return
    mon.check(same(snap(m), snap(twin)), 'same_as_twin', 'training data differ from a model that never saw the refused additions')
    if can_predict and m.X_train is not None:
        predict_both('final prediction')
    if n_ref:
        mon.nontrivial(which, d, pareto, seq)
        mon.sample(dict(model=['base', 'gp', 'linear'][which], ops=seq))


GROUPS = [Group('history', history, 2000, 8000, require=['refusal:abs_high', 'refusal:ord_zero', 'refusal:abs_list', 'refusal:dim', 'refusal:ord_pairs', 'refusal:abs_tuple', 'twin_predictions'])]
