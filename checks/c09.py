"""C09: reported kernel parameter derivatives versus finite differences of the covariance."""
import copy
import numpy as np
import lop
from harness.core import Group
from harness import ref
from checks.c08 import tree, pts

# every case takes milliseconds
HANG = 25
TECHNIQUE = 'runtime monitor: finite-difference oracle for kernel gradients'
RULE = ('random kernels (nested compositions), parameters and point sets; derivative of every covariance entry compared with '
        '4th-order finite differences of the covariance, of single pairs with those of the pair value; distinct by kernel and points')


class Vanishing:
    pass


def vanishing(rng, d):
    """kernels whose value is exactly zero for some pairs, as factors of a product"""
    c = float(rng.uniform(-1, 2))
    z = lop.LinearKern(float(rng.uniform(.3, 2)), 0.0, c)
    o = tree(rng, d, int(rng.randint(0, 2)))[0]
    s = Vanishing()
    s.c = c
    s.k, s.desc = [(z * o.k, 'zero*' + o.desc), (o.k * z, o.desc + '*zero'), (z * o.k + copy.deepcopy(o.k), 'zero*%s+' % o.desc)][rng.randint(3)]
    return s


def case(rng, mon, tier, idx):
    d = int(rng.choice([0, 1, 2, 3]))
    van = idx % 10 == 3
    s = vanishing(rng, d) if van else tree(rng, d, int(rng.randint(0, 4)))[0]
    k = s.k
    n, m = int(rng.randint(1, 7)), int(rng.randint(1, 7))
    if idx % 100 == 50:
        n, m = int(rng.randint(10, 70)), int(rng.randint(10, 70))
        mon.event('large')
    X, Y = pts(rng, n, d), pts(rng, m, d)
    r = rng.rand()
    if r < 0.3:
        Y = X; m = n
    elif r < 0.5 and n > 1 and m > 1:
        Y[rng.randint(m)] = X[rng.randint(n)]
    i, j = rng.randint(n), rng.randint(m)
    if van:
        X = np.array(X)
        X[i] = s.c
        if Y.shape == X.shape and rng.rand() < .5:
            Y = X
        mon.event('vanishing')
    x0 = np.array(k.get_param(), dtype=float)
    mon.op('cov_gradient', s.desc, n, m)
    g = k.cov_gradient(X, Y)
    if not mon.check(len(g) == len(x0), 'gradient_count', '%d matrices for %d parameters' % (len(g), len(x0)), kern=s.desc):
        return
    q = copy.deepcopy(k)

    def cov(x):
        q.set_param(x)
        return np.asarray(q.cov(X, Y))

    def call(x):
        q.set_param(x)
        return float(q(X[i], Y[j]))
    h = 2e-4
    want = ref.num_grad(cov, x0, h)
    for a in range(len(x0)):
        sc = 1 + np.max(np.abs(want[a]))
        if not mon.close(np.asarray(g[a]), want[a], 'cov_gradient', rtol=1e-6, atol=1e-6 * sc, kern=s.desc, param=a, X=X, Y=Y):
            break
    gp = np.asarray(k.gradient(X[i], Y[j]), dtype=float)
    wp = ref.num_grad(call, x0, h)
    mon.close(gp, wp, 'pair_gradient', rtol=1e-6, atol=1e-6 * (1 + np.max(np.abs(wp))), kern=s.desc, u=X[i], v=Y[j])
    mon.check(np.array_equal(x0, k.get_param()), 'params_unchanged', 'evaluating the gradient changed the parameters')
    # prior
    gl = np.asarray(k.grad_param_likli(), dtype=float)

    def pl(x):
        q.set_param(x)
        return float(q.param_likli())
    pos = np.abs(x0) + 0.05
    k2 = copy.deepcopy(k); k2.set_param(pos)
    gl = np.asarray(k2.grad_param_likli(), dtype=float)
    if mon.check(gl.shape == x0.shape, 'prior_count', '%s prior derivatives for %d parameters' % (gl.shape, len(x0))):
        wl = ref.num_grad(pl, pos, 1e-3 * np.min(pos))
        mon.close(gl, wl, 'prior_gradient', rtol=1e-5, atol=1e-5 * (1 + np.max(np.abs(wl))), kern=s.desc, x=pos)
    mon.nontrivial(s.desc, X, Y)
    mon.sample(dict(kernel=s.desc, X=X[:2]))


def scaled(rng, mon, tier, idx):
    """the same kernel in other units (powers of two, so that nothing is rounded): derivatives follow exactly"""
    d = int(rng.choice([1, 2, 3]))
    n, m = int(rng.randint(1, 5)), int(rng.randint(1, 5))
    X, Y = rng.uniform(-1, 3, (n, d)), rng.uniform(-1, 3, (m, d))
    A, C = 2.0 ** rng.randint(-14, 15), 2.0 ** rng.randint(-14, 15)
    u = lambda a, b: float(rng.uniform(a, b))
    kind = rng.randint(3)
    if kind == 0:
        q = np.array([u(.3, 2.5), u(.3, 3)])
        mk, q2, f = lop.RBF_kern, q * [A, C], np.array([A, A * A / C])
    elif kind == 1:
        q = np.array([u(.3, 2.5), u(.4, 2), u(.7, 5)])
        mk, q2, f = lop.PeriodicKern, q * [A, 1, C], np.array([A, A * A, A * A / C])
    else:
        q = np.array([u(.3, 2), u(.2, 2), u(-2, 2)])
        mk, q2, f = lop.LinearKern, q * [A / C, A, C], np.array([A * C, A, A * A / C])
    k, k2 = mk(*q), mk(*q2)
    mon.op('scaled derivatives', mk.__name__, q2)
    g, g2 = [np.asarray(a) for a in k.cov_gradient(X, Y)], [np.asarray(a) for a in k2.cov_gradient(C * X, C * Y)]
    i, j = rng.randint(n), rng.randint(m)
    p, p2 = np.asarray(k.gradient(X[i], Y[j])), np.asarray(k2.gradient(C * X[i], C * Y[j]))
    for r in range(len(q)):
        tiny = 1e-10 * (1 + np.max(np.abs(g[r])))
        mon.close(g2[r] / f[r], g[r], 'scaled_cov_gradient', 1e-9, tiny, '%s%r parameter %d in other units' % (mk.__name__, tuple(q2), r), X=X, Y=Y)
        mon.close(p2[r] / f[r], p[r], 'scaled_gradient', 1e-9, tiny, '%s%r parameter %d in other units' % (mk.__name__, tuple(q2), r), u=X[i], v=Y[j])
    mon.event('scaled')
    mon.nontrivial(mk.__name__, q2, X, Y)
    mon.sample(dict(kernel=mk.__name__, parameters=q2, unit=C))


GROUPS = [Group('scaled', scaled, 1500, 15000, require=['scaled']), Group('gradients', case, 3000, 15000, require=['vanishing'])]
