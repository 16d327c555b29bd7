"""Workload generators shared by the checks (all randomness from the rng argument)."""
import numpy as np
from . import own


def items(rng, n, d, scale=3.0, grid=False):
    """n distinct items; d=0 gives a 1-D array of scalars"""
    shape = (n,) if d == 0 else (n, d)
    if grid:
        return rng.randint(0, 4, size=shape).astype(float)
    return rng.uniform(0, scale, size=shape)


def key(x):
    """hashable identity of an item"""
    return tuple(np.atleast_1d(np.asarray(x, dtype=float)).tolist())


def pairs_for(rng, n, m, f=None, noise=0.0):
    """m comparisons among n items (u != v) as [(d, u, v)], following f if given"""
    out = []
    for _ in range(m):
        u, v = rng.choice(n, 2, replace=False)
        if f is None:
            d = int(rng.choice([-1, 1]))
        else:
            d = -1 if f[u] > f[v] else 1
            if rng.random_sample() < noise:
                d = -d
        out.append((d, int(u), int(v)))
    return out


def kernel(rng, lop, kinds=('rbf', 'lin', 'per', 'rbf+lin', 'rbf*per', 'rbf+rbf')):
    k = kinds[rng.randint(len(kinds))]
    s = lambda a=0.4, b=2.0: float(rng.uniform(a, b))
    mk = {'rbf': lambda: lop.RBF_kern(s(), s(0.5, 2.5)),
          'lin': lambda: lop.LinearKern(s(), s(), s(-1, 1)),
          'per': lambda: lop.PeriodicKern(s(), s(), s(1, 4)),
          'own': lambda: own.OwnKernel(s(), s(0.5, 2.5))}
    if '+' in k:
        a, b = k.split('+')
        return mk[a]() + mk[b](), k
    if '*' in k:
        a, b = k.split('*')
        return mk[a]() * mk[b](), k
    return mk[k](), k


def decode_pairs(y):
    """pair labels as list of (winner index, loser index)"""
    out = []
    if y is None:
        return out
    for d, u, v in np.asarray(y):
        out.append((int(u), int(v)) if d < 0 else (int(v), int(u)))
    return out
