BUGS = []
def bug(**k): BUGS.append(k)

bug(id='fold-repeat-rating', property='C22',
    edits=[('utilities/training_utility.py', "            if y[2][1][i] in idx_set:\n", "            if y[2][1][i] in idx_set and idx_mapping[y[2][1][i]] not in y_new_1:\n")],
    needs='an item that was rated more than once',
    breaks='later ratings of the item are lost in the parts of a cross-validation split',
    demo='''import numpy as np
from lop.utilities import get_y_with_idx
y = [None, None, (np.array([.2, .8, .5]), np.array([3, 3, 1]))]
out = get_y_with_idx(y, [3, 0])
assert list(out[2][0]) == [.2, .8], out[2]
''')

bug(id='sets-narrow-index', property='C23',
    edits=[('utilities/sample_utility.py', "    out = np.empty((num_sets, size_set))\n", "    out = np.empty((num_sets, size_set), dtype=np.int16)\n")],
    needs='a population with members above 32767',
    breaks='sampled sets contain members that are not in the population',
    demo='''import numpy as np
from lop.utilities import sample_unique_sets
np.random.seed(0)
Q = sample_unique_sets(60000, 50, 3)
assert Q.min() >= 0 and Q.max() < 60000 and Q.max() > 40000, (Q.min(), Q.max())
''')

bug(id='decision-state-kept', property='C17',
    edits=[('active_learning/MixedStrategy.py', "        self.abs_comp.set_model(model)\n        self.num_calls = 0\n        self.state = 0\n", "        self.abs_comp.set_model(model)\n        self.num_calls = 0\n", 0, 1)],
    needs='a decision learner given to a second model after it has taken its decision',
    breaks='the new model starts with the query-type probabilities decided for the old one',
    demo='''import numpy as np, lop
class S(lop.ActiveLearner):
    def __init__(self, r, log):
        super().__init__(); self.r = r; self.log = log; self.M = 2; self.sel_metric = 1.0
    def select(self, C, k, *a, **q):
        self.log.append(len(self.r)); return list(self.r)
for cls in (lop.MixedDecision, lop.MixedDecision2):
    log = []
    al = cls(S([0, 1], log), S([0], log), S([0], log), .5)
    m = lop.PreferenceGP(lop.RBF_kern(1, 1), active_learner=al)
    al.state = 1
    m2 = lop.PreferenceGP(lop.RBF_kern(1, 1), active_learner=al)
    assert al.state == 0, cls
''')

bug(id='pair-code-difference', property='C24',
    edits=[('utilities/preference_pairs.py', "    if u > v:\n", "    if u - v > 0:\n"), ('utilities/preference_pairs.py', "    elif u < v:\n", "    elif u - v < 0:\n")],
    needs='values of an unsigned integer type (levels or scores stored as uint8), or infinite values',
    breaks='every pair of different unsigned values is encoded as won by the first',
    demo='''import numpy as np
from lop.utilities import get_dk
a = np.array([1, 3], dtype=np.uint8)
with np.errstate(all='ignore'):
    assert get_dk(a[0], a[1]) == 1 and get_dk(a[1], a[0]) == -1
''')

bug(id='acquisition-single-opponent', property='C16',
    edits=[('active_learning/AcquisitionSelection.py', "                p_q_i = np.prod(probit_mat_Q[:,q_idx, prev_except],axis=1)\n", "                p_q_i = probit_mat_Q[:,q_idx, prev_except[0]]\n")],
    needs='a query of four or more alternatives',
    breaks='the answer probabilities of earlier alternatives ignore all but one of the other earlier alternatives',
    demo='''import numpy as np, lop
np.random.seed(0)
al = lop.AcquisitionSelection(M=40, rep_Q_data={'num_pts': 6, 'num_Q': 8}, alignment_f='epic')
m = lop.PreferenceGP(lop.RBF_kern(1, 1), active_learner=al)
X = np.random.rand(6, 2) * 3
m.add(X, [lop.preference(0, 1), lop.preference(2, 3), lop.preference(4, 5)])
C = np.random.rand(6, 2) * 3
mu, d = m.predict(C)
rep = np.random.randn(40, 6); Q = np.random.randn(40, 6) * 2
al.set_samples(rep, Q); al.num_alts = 2
P = np.array([m.probits[0].likelihood_all_pairs(w) for w in Q])
f = al.alignment(rep, np.array([[0, 1]]))
def score(S):
    p = np.array([[np.prod([P[w, i, j] for j in S if j != i]) for i in S] for w in range(40)])
    p /= p.sum(axis=1, keepdims=True)
    return sum((f * np.outer(p[:, a], p[:, a])).mean() / p[:, a].mean() for a in range(len(S)))
i = al.select_greedy(C, mu, d, [3, 4, 5], [0, 1, 2])
s = {j: score([0, 1, 2, j]) for j in (3, 4, 5)}
assert abs(al.sel_metric - s[i]) < 1e-9 and s[i] >= max(s.values()) - 1e-9, (al.sel_metric, s)
''')

bug(id='best-probability-cross-term', property='C34',
    edits=[('active_learning/ActiveLearner.py', "                    K_star_i[j,k] = K[i, i] + K[idx_i[j], idx_i[k]] - K[i, idx_i[j]] - K[i, idx_i[k]]\n", "                    K_star_i[j,k] = K[i, i] + K[idx_i[j], idx_i[k]] - K[i, idx_i[min(j,k)]] - K[i, idx_i[min(j,k)]]\n")],
    needs='three or more candidates with unequal correlations',
    breaks='the probability of being the best is that of another joint distribution',
    demo='''import sys, types
import numpy as np
from scipy.stats import multivariate_normal
ap = types.ModuleType('approxcdf')
ap.mvn_cdf = lambda b, cov: multivariate_normal(mean=np.zeros(len(b)), cov=cov, allow_singular=True).cdf(b)
sys.modules['approxcdf'] = ap
import lop
np.random.seed(0)
al = lop.BestLearner()
class M: pass
al.model = M(); al.model.probits = [lop.PreferenceProbit(1.0)]
A = np.array([[1., 0, 0], [.9, .5, 0], [-.8, .2, .6], [.1, .9, .9]])
al.model.cov = A @ A.T + .05 * np.eye(4)
mu = np.array([.1, .3, 0, .2])
p = al.p_B_pref_gp(np.zeros((4, 2)), mu)
F = np.random.multivariate_normal(mu, al.model.cov, 200000)
f = np.bincount(F.argmax(axis=1), minlength=4) / len(F)
assert np.all(np.abs(p - f) < .01), (p, f)
''')

bug(id='entropy-cutoff', property='C34',
    edits=[('active_learning/BayesInfoGain.py', "MIN_LOG_VALUE = 1e-17\n", "MIN_LOG_VALUE = 1e-2\n")],
    needs='candidates that are the best with a probability below one per cent',
    breaks='their share of the entropy is left out of the score',
    demo='''import sys, types
import numpy as np
ap = types.ModuleType('approxcdf'); ap.mvn_cdf = lambda *a: 0; sys.modules['approxcdf'] = ap
import lop
class M: pass
al = lop.BayesInfoGain()
al.model = M(); al.model.X_train = np.zeros((2, 1))
al.p_B = np.array([.96, .008, .008, .008, .008, .008]); al.probit_mat = np.full((6, 6), .5)
al.first_call_greedy = False
h = al.calc_H_B_Q(np.array([0, 1]), al.p_B, al.probit_mat)
want = -np.sum(al.p_B * np.log(al.p_B))
assert abs(h - want) < 1e-9, (h, want)
''')

bug(id='stale-best-probability', property='C34',
    edits=[('active_learning/BayesInfoGain.py', "        if self.first_call_greedy:\n", "        if self.first_call_greedy and len(getattr(self, 'p_B', ())) != len(mu):\n")],
    needs='a second selection with as many candidates as the first',
    breaks='the second selection is scored with the probabilities of the first one\'s candidates',
    demo='''import sys, types
import numpy as np
from scipy.stats import multivariate_normal
ap = types.ModuleType('approxcdf')
ap.mvn_cdf = lambda b, cov: multivariate_normal(mean=np.zeros(len(b)), cov=cov, allow_singular=True).cdf(b)
sys.modules['approxcdf'] = ap
import lop
np.random.seed(0)
al = lop.BayesInfoGain()
m = lop.PreferenceGP(lop.RBF_kern(1, 1), active_learner=al)
X = np.random.rand(4, 2) * 3
m.add(X, [lop.preference(0, 1), lop.preference(2, 3)])
C = np.random.rand(4, 2) * 3
m.select(C, 2); a = np.array(al.p_B)
m.select(C[::-1], 2); b = np.array(al.p_B)
assert np.allclose(a, b[::-1], atol=1e-3) and not np.allclose(a, b, atol=1e-3), (a, b)
''')

