BUGS = []
def bug(**k): BUGS.append(k)

bug(id='pareto-single-precision', property='C19',
    edits=[('utilities/pareto.py', "    is_efficient = np.arange(values.shape[0], dtype=int)\n", "    values, is_efficient = np.asarray(values, dtype=np.float32), np.arange(values.shape[0], dtype=int)\n")],
    needs='items whose features differ by less than single precision resolves (large offsets, or values beyond its range)',
    breaks='dominated items are reported as Pareto optimal',
    demo='''import numpy as np
from lop.utilities import get_pareto
v = np.array([[1000.00001, 1.0], [1000.0, 1.0], [999.0, 2.0]])
assert sorted(get_pareto(v).tolist()) == [0, 2], get_pareto(v)
''')

bug(id='rating-logit-clip', property='C13',
    edits=[('probits/AbsBoundProbit.py', "        tmp = np.log(y_sel) - np.log(1 - y_sel) - aa0 + bb0\n\n        # calculate dW/dv\n", "        tmp = np.clip(np.log(y_sel) - np.log(1 - y_sel), -4.0, 4.0) - aa0 + bb0\n\n        # calculate dW/dv\n")],
    needs='a rating below 0.018 or above 0.982',
    breaks='the parameter derivative of the curvature is wrong for such ratings',
    demo='''import numpy as np, lop
F = np.array([.3]); y = (np.array([.995]), np.array([0]))
p = lop.AbsBoundProbit(sigma=1.0, v=20.0)
g = p.calc_W_dHyper(y, F)[0, 0, 0]
def W(v):
    return lop.AbsBoundProbit(sigma=1.0, v=v).derivatives(y, F)[0][0, 0]
n = (W(20.001) - W(19.999)) / .002
assert abs(g - n) < 1e-3 * max(abs(n), 1e-3), (g, n)
''')

bug(id='preferred-set-consumed', property='C14',
    edits=[('active_learning/ActiveLearner.py', "        pref_not_sel = prefer_pts - prev_selection\n        \n", "        prefer_pts -= prev_selection\n        pref_not_sel = set(prefer_pts)\n        \n")],
    needs='preferred candidates given as a set, with earlier selections or always selecting the best',
    breaks="the caller's set of preferred candidates shrinks, later queries prefer other candidates",
    demo='''import numpy as np, lop
np.random.seed(0)
al = lop.RandomLearner()
m = lop.GP(lop.RBF_kern(1.0, 1.0), active_learner=al)
m.add(np.array([[0.], [1.]]), np.array([.1, .2]))
pref = {0, 1, 2, 3}
m.select(np.linspace(0, 3, 8)[:, None], 2, prev_selection=[1], prefer_pts=pref)
assert pref == {0, 1, 2, 3}, pref
''')

bug(id='all-pairs-in-place', property='C18',
    edits=[('probits/PreferenceProbit.py', "        z_k = np.repeat(F[:,np.newaxis], len(F), axis=1) - np.repeat(F[np.newaxis, :], len(F), axis=0)\n        z_k *= self._isqrt2sig\n", "        F = np.asarray(F, dtype=float)\n        F -= np.mean(F)\n        z_k = (F[:,np.newaxis] - F[np.newaxis, :]) * self._isqrt2sig\n")],
    needs='evaluating the likelihoods of all pairs on the fitted latent values of the model, then predicting',
    breaks='the fitted values are shifted by the evaluation and predictions change',
    demo='''import numpy as np, lop
np.random.seed(0)
m = lop.PreferenceGP(lop.RBF_kern(1.0, 1.0))
X = np.array([[0.], [1.], [2.], [9.]])
m.add(X, [(-1, 0, 1), (-1, 1, 2)])
m.add(X[:2], np.array([.9, .8]), type='abs')
a = m.predict(X)[0].copy()
m.probits[0].likelihood_all_pairs(m.F)
b = m.predict(X)[0]
assert np.allclose(a, b), (a, b)
''')

bug(id='period-cap', property='C10',
    edits=[('kernels/PeriodicKern.py', "        self.p = theta[2]\n", "        self.p = min(theta[2], 1e3)\n")],
    needs='a period above a thousand', breaks='the period read back is not the one written',
    demo='''import numpy as np, lop
k = lop.PeriodicKern(1.0, 1.0, 1.0)
k.set_param(np.array([1.0, 2.0, 2500.0]))
assert k.get_param()[2] == 2500.0
''')

