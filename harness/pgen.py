"""Random likelihoods, latent vectors and label sets."""
import numpy as np
import lop


def spread(rng):
    return float(rng.choice([0.0, 0.3, 1.0, 3.0]))


def pref_case(rng, repeats=True, wide=False, size=None):
    n = int(size or rng.randint(2, 8))
    sigma = float(rng.uniform(0.15, 2.5))
    F = rng.randn(n) * spread(rng) * sigma * (1.5 if not wide else 30)
    m = int(rng.randint(1, 12) if size is None else rng.randint(n, 4 * n))
    y = []
    for _ in range(m):
        u, v = rng.choice(n, 2, replace=False)
        y.append((int(rng.choice([-1, 1])), int(u), int(v)))
        if repeats and rng.rand() < 0.3:
            y.append((int(rng.choice([-1, 1])), int(u), int(v)) if rng.rand() < .5 else (int(rng.choice([-1, 1])), int(v), int(u)))
    return lop.PreferenceProbit(sigma=sigma), np.array(y), F, sigma


def abs_case(rng, repeats=True, v_only=None, wide=False, size=None):
    n = int(size or rng.randint(1, 8))
    sigma = float(rng.uniform(0.3, 2.5))
    v = float(rng.choice([rng.uniform(1.5, 10), rng.uniform(10, 120)]))
    F = rng.randn(n) * spread(rng) * sigma * (0.8 if not wide else 20)
    m = int(rng.randint(1, n + 1)) if not repeats else int(rng.randint(1, 12) if size is None else rng.randint(n, 3 * n))
    idx = rng.choice(n, m, replace=repeats)
    val = rng.uniform(0.001, 0.999, m)
    if rng.rand() < 0.3:
        val[rng.randint(m)] = rng.choice([0.001, 0.999, 0.5])
    kw = {} if v_only is None else dict(optimize_v_only=v_only)
    return lop.AbsBoundProbit(sigma=sigma, v=v, **kw), (val, idx), F, sigma, v


def ord_case(rng, repeats=True, wide=False, size=None):
    n = int(size or rng.randint(1, 8))
    k = int(rng.randint(2, 9) if size is None else rng.randint(2, 30))
    sigma = float(rng.uniform(0.2, 2.0))
    p = lop.OrdinalProbit(n_ordinals=k)
    if rng.rand() < 0.5:
        b = float(rng.uniform(0.3, 4.0))
        p.set_hyper([sigma, b])
        inner = np.linspace(0, b, k - 1) if k > 2 else np.array([0.0])
    else:
        inner = np.cumsum(rng.uniform(0.2, 1.5, k - 1)) - rng.uniform(0, 2)
        p.set_sigma(sigma)
        p.set_b(inner)
    edges = np.hstack(([-np.inf], inner, [np.inf]))
    mid = np.mean(inner)
    F = mid + rng.randn(n) * spread(rng) * sigma * (1.0 if not wide else 20)
    m = int(rng.randint(1, n + 1)) if not repeats else int(rng.randint(1, 10) if size is None else rng.randint(n, 3 * n))
    idx = rng.choice(n, m, replace=repeats)
    r = rng.randint(1, k + 1, m)
    return p, (r, idx), F, sigma, edges, k
