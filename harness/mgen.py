"""Random feedback sets and models."""
import numpy as np
import lop
from . import gen


def latent(rng, X):
    """a smooth ground-truth reward on the items"""
    X2 = X[:, None] if X.ndim == 1 else X
    w = rng.randn(X2.shape[1])
    c = rng.uniform(0, 3, X2.shape[1])
    a = rng.rand()
    f = a * X2 @ w - (1 - a) * np.sum((X2 - c) ** 2, axis=1)
    return (f - f.mean()) / (f.std() + 1e-9)


def feedback(rng, X, kinds=('pair', 'abs', 'ord'), noise=0.0, n_ord=5):
    """list of (positions, labels, type) batches over items X; labels consistent with a latent reward"""
    from scipy.special import ndtr
    f = latent(rng, X)
    out = []
    for k in kinds:
        if k == 'pair':
            out.append((np.arange(len(X)), gen.pairs_for(rng, len(X), int(rng.randint(1, 2 * len(X) + 1)), f, noise), 'relative_discrete'))
        elif k == 'abs':
            y = np.clip(ndtr(f) + rng.randn(len(X)) * 0.05 * (noise > 0), 0, 1)
            out.append((np.arange(len(X)), y, 'abs'))
        else:
            y = np.clip(np.floor(ndtr(f) * n_ord).astype(int) + 1, 1, n_ord)
            out.append((np.arange(len(X)), y, 'ordinal'))
    return out, f


def random_kinds(rng, lin=False):
    o = [('pair',), ('abs',), ('ord',), ('pair', 'abs'), ('pair', 'ord'), ('abs', 'ord'), ('pair', 'abs', 'ord')]
    return o[rng.randint(len(o))]


def fill(rng, m, d, kinds=None, n=None, noise=0.0):
    """add batches to the model; every kind on its own items; returns description"""
    kinds = random_kinds(rng) if kinds is None else kinds
    desc = []
    for k in kinds:
        nk = int(n or rng.randint(2, 7))
        X = gen.items(rng, nk, d)
        fb, _ = feedback(rng, X, (k,), noise)
        for pos, y, t in fb:
            m.add(X[pos], y, type=t)
            desc.append((t, nk, len(y)))
    return kinds, desc


def overlay(rng, m, X, kinds, noise=0.0, partial=False):
    """labels of several kinds on the very same items (index forms), comparisons first; returns the calls as (X, y, type)"""
    kinds = sorted(kinds, key=lambda k: k != 'pair')
    at = 0 if m.X_train is None else len(m.X_train)
    calls = []
    for j, k in enumerate(kinds):
        (_, y, t), = feedback(rng, X, (k,), noise)[0]
        if j == 0:
            c = (X, y, t)
        else:
            pos = np.arange(len(X))
            if partial or rng.rand() < .5:
                pos = rng.permutation(len(X))[:int(rng.randint(1, len(X) + 1))]
            y = np.asarray(y)[pos]
            none = np.empty((0,) + X.shape[1:])
            c = (none, (y, pos + at), t) if k == 'abs' else (none, np.stack([y, pos + at], axis=1), t)
        m.add(np.array(c[0]), copy_label(c[1]), type=c[2])
        calls.append(c)
    return calls


def copy_label(y):
    return tuple(np.array(v) for v in y) if isinstance(y, tuple) else np.array(y) if isinstance(y, np.ndarray) else list(y)
