"""Active learners, candidate sets and fitted models for the query-selection checks."""
import numpy as np
import lop
from . import gen, mgen

SIMPLE = ('Best', 'Worst', 'Random')
GREEDY = SIMPLE + ('UCB', 'GV_UCB', 'MutualInfo')


def learner(rng, name, **kw):
    al = rng.choice(['rho', 'epic', 'spearman', 'loglikelihood'])
    M = int(rng.choice([3, 8, 12]))
    rep = {'num_pts': int(rng.choice([3, 5, 8])), 'num_Q': int(rng.choice([3, 10]))}
    mk = {'Best': lambda: lop.BestLearner(**kw), 'Worst': lambda: lop.WorstLearner(**kw), 'Random': lambda: lop.RandomLearner(**kw),
          'UCB': lambda: lop.UCBLearner(alpha=float(rng.choice([0, 0.5, 1, 3])), **kw),
          'GV_UCB': lambda: lop.GV_UCBLearner(alpha=float(rng.choice([0.5, 1, 3])), **kw),
          'MutualInfo': lambda: lop.MutualInfoLearner(**kw),
          'Acq': lambda: lop.AcquisitionSelection(M=M, rep_Q_data=rep, alignment_f=str(al), **kw),
          'AbsAcq': lambda: lop.AbsAcquisition(M=M, rep_Q_data=rep, alignment_f=str(al), **kw),
          'Bayes': lambda: lop.BayesInfoGain(**kw)}
    return mk[name]()


MIXED = ('RateChoose', 'Comparision', 'SetFixed', 'EqualChecking', 'Alternating', 'Strategy', 'Peak', 'Peak2', 'Peak3', 'RevPeak', 'Decision', 'Decision2')


def mixed(rng, name, pair, rate, comp, **kw):
    p = float(rng.uniform(0.05, 0.95))
    mk = {'RateChoose': lambda: lop.RateChooseLearner(pair, rate, **kw),
          'Comparision': lambda: lop.MixedComparision(pair, rate, comp, alpha=p, **kw),
          'SetFixed': lambda: lop.MixedComparisionSetFixed(pair, rate, **kw),
          'EqualChecking': lambda: lop.MixedComparisionEqualChecking(pair, rate, comp, **kw),
          'Alternating': lambda: lop.MixedAlternating(pair, rate, **kw),
          'Strategy': lambda: lop.MixedStrategy(pair, rate, p, **kw), 'Peak': lambda: lop.MixedStrategyPeak(pair, rate, p, **kw),
          'Peak2': lambda: lop.MixedStrategyPeak2(pair, rate, p, **kw), 'Peak3': lambda: lop.MixedStrategyPeak3(pair, rate, p, **kw),
          'RevPeak': lambda: lop.MixedStrategyRevPeak(pair, rate, p, **kw),
          'Decision': lambda: lop.MixedDecision(pair, rate, comp, p, **kw), 'Decision2': lambda: lop.MixedDecision2(pair, rate, comp, p, **kw)}
    return mk[name]()


def model(rng, al, d, kind=None, data=None):
    """a model with (or without) data for the learner; data: number of items, 0 for none"""
    kind = kind or ('pgp', 'pgp', 'lin', 'gp')[rng.randint(4)]
    n = int(rng.randint(0, 7)) if data is None else data
    n = 0 if n == 1 else n
    k, _ = gen.kernel(rng, lop, ('rbf', 'lin', 'rbf+lin', 'rbf+rbf'))
    if kind == 'gp':
        m = lop.GP(k, active_learner=al)
        if n:
            m.add(gen.items(rng, n, d), rng.randn(n))
        return m, kind
    m = lop.PreferenceLinear(active_learner=al) if kind == 'lin' else lop.PreferenceGP(k, active_learner=al, **[{}, {}, dict(normalize_gp=True)][rng.randint(3)])
    if n:
        for t in (('pair',), ('abs',), ('pair', 'abs'), ('pair', 'abs'))[rng.randint(4)]:
            mgen.fill(rng, m, d, (t,), n)
    return m, kind


def candidates(rng, d, n=None, many=False):
    n = int(rng.randint(15, 70)) if many else n or int(rng.choice([1, 2, 3, 4, 6, 9]))
    C = gen.items(rng, n, d, 3.5, grid=bool(rng.rand() < .2))
    if n > 2 and rng.rand() < .25:
        C[1] = C[0]
    return C
