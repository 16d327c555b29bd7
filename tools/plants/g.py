BUGS = []
def bug(**k): BUGS.append(k)

bug(id='gv-exponent-cap', property='C15',
    edits=[('active_learning/GV_UCBLearner.py', "        exp_v = 1.0 / (len(prev_selection)+1)\n", "        exp_v = 1.0 / min(len(prev_selection)+1, 4)\n")],
    needs='a query of five or more alternatives',
    breaks='the spread of the later alternatives is not on the scale of the earlier ones',
    demo='''import numpy as np, lop
np.random.seed(0)
al = lop.GV_UCBLearner(alpha=2.0)
m = lop.GP(lop.RBF_kern(1.0, 1.0), active_learner=al)
X = np.linspace(0, 9, 8)[:, None]
m.add(X[:2], np.array([.3, .1]))
mu, var = m.predict(X)
al.select_greedy(X, mu, var, [7], {0, 1, 2, 3, 4})
S = [0, 1, 2, 3, 4, 7]
want = mu[7] + 2 * max(np.linalg.det(m.cov[np.ix_(S, S)]), 0) ** (1 / 6)
assert abs(al.sel_metric - want) < 1e-9, (al.sel_metric, want)
''')

bug(id='rating-extreme-floor', property='C11',
    edits=[('probits/AbsBoundProbit.py', "        py = beta.logpdf(y_selected, aa, bb)\n", "        py = np.maximum(beta.logpdf(y_selected, aa, bb), -60.0)\n")],
    needs='a rating strongly contradicted by the latent value',
    breaks='the log likelihood of such ratings is cut off, differently from its gradient',
    demo='''import numpy as np, lop
from scipy.stats import beta
p = lop.AbsBoundProbit(sigma=1.0, v=80.0)
F = np.array([2.0]); y = (np.array([.01]), np.array([0]))
a, b = p.get_alpha_beta(F)
assert abs(p.log_likelihood(y, F) - beta.logpdf(.01, a[0], b[0])) < 1e-6
''')

bug(id='choices-drawn-grouped', property='C20',
    edits=[('utilities/human_choice_model.py', "        return np.random.choice(xk, samples, p=pdf)\n", "        # drawing the counts is much faster for many samples\n        return np.random.choice(xk, samples, p=pdf) if samples <= 500 else np.repeat(xk, np.random.multinomial(samples, pdf))\n")],
    needs='more than 500 choices drawn in one call',
    breaks='the draws are not independent, each position always gives nearly the same answer',
    demo='''import numpy as np
from lop.utilities import sample_human_choice
np.random.seed(0)
s = sample_human_choice(np.zeros(3), samples=900)
assert len(set(s[:100].tolist())) == 3, s[:100]
''')

bug(id='rating-shared-samples-sorted', property='C16',
    edits=[('active_learning/AcquisitionBase.py', "                return self.all_rep, self.all_Q[:,indicies]\n", "                return self.all_rep, self.all_Q[:,np.sort(indicies)]\n")],
    needs='a rating scored on the samples shared with the pairwise query, with the remaining candidates not in increasing order (indices from 8 on, hash order of the set)',
    breaks='samples are attributed to other candidates and the wrong item is asked for',
    demo='''import numpy as np, lop
np.random.seed(0)
a = lop.AbsAcquisition(M=5)
rep, Q = np.zeros((5, 2)), np.arange(60.).reshape(5, 12)
a.set_samples(rep, Q)
got = a.get_samples_from_model(np.zeros((12, 1)), None, [8, 1, 10])[1]
assert np.array_equal(got, Q[:, [8, 1, 10]]), got
''')

bug(id='product-gradient-quotient', property='C09',
    edits=[('kernels/KernelFunc.py', "            a_grad = self.a.gradient(u,v) * self.b(u,v)\n", "            a_k = self.a(u,v)\n            a_grad = self.a.gradient(u,v) * (self(u,v) / (a_k if a_k != 0 else 1.0))\n")],
    needs='a product whose first factor vanishes at a pair of points (linear kernel, or an RBF far away)',
    breaks='the derivative with respect to the parameters of the first factor is zero there',
    demo='''import numpy as np, lop
k = lop.LinearKern(1.0, 0.0, 0.5) * lop.RBF_kern(1.0, 1.0)
u, v = np.array([.5]), np.array([1.5])
g = k.gradient(u, v)
e = 1e-6
p = k.get_param()
def at(i, d):
    q = p.copy(); q[i] += d; k.set_param(q); r = k(u, v); k.set_param(p); return r
n = [(at(i, e) - at(i, -e)) / 2 / e for i in range(3)]
assert np.allclose(g[:3], n, atol=1e-5), (g[:3], n)
''')

bug(id='user2-range-first-problem', property='C21',
    edits=[('utilities/HumanChoiceUser2.py', "        self.k, self.b = self.get_k_b(min_max)\n        self.beta", "        self.k, self.b = self.get_k_b(np.concatenate(f_list[0]))\n        self.beta")],
    needs='environments whose rewards lie in different ranges',
    breaks='the range of the ratings is fixed from the first environment only, others are rated outside of it and with another accuracy',
    demo='''import numpy as np, lop
np.random.seed(0)
f = lop.FakeLinear(2); f.w = np.array([.6, .8])
R = [[np.random.rand(30, 2) * .2, np.random.rand(30, 2) * .2], [np.random.rand(30, 2), np.random.rand(30, 2)]]
u = lop.HumanChoiceUser2(f)
u.learn_beta(R, .9)
v = np.concatenate([f(r) for e in R for r in e]) * u.k + u.b
top = 1 / (1 + np.exp(-v.max()))
assert top < .91, top
''')
