"""C16: alignment acquisition equals the expected alignment it stands for."""
import numpy as np
import lop
from scipy.special import ndtr
from harness.core import Group
from harness import gen, mgen, agen, ref

RULE = ('random reward-sample matrices (all scales, ties between rewards, one to many representative points) for every alignment '
        'measure; pairwise, greedy and rating queries over random and model-drawn samples, candidate subsets, histories and likelihood '
        'parameters; distinct by measure, sizes, subset and returned query')
ASSUMPTIONS = ['rewards of one sampled function are not all equal (correlation undefined)', 'at least two reward samples',
               'representative rewards without near-ties where the measure is discontinuous; pairwise likelihoods above the library\'s clipping point (30 standard deviations)',
               'queries judged with the reward samples and representative points the learner drew, which are tested against the predicted mean and covariance']
TECHNIQUE = 'runtime monitoring: recorded reward samples and queries judged with independent scalar-loop references; metamorphic checks of the measures'

MEASURES = ('rho', 'epic', 'spearman', 'loglikelihood')


def ranks(x):
    return np.array([(np.sum(x < v) + 1 + np.sum(x <= v)) / 2.0 for v in x])


def pearson(x, y):
    a, b = x - x.mean(), y - y.mean()
    return float(a @ b / np.sqrt((a @ a) * (b @ b)))


def soft(x):
    e = np.exp(x - x.max())
    return e / e.sum()


def answer_probs(w, Q, sigma):
    """probability of each answer of query Q under reward w: product of pairwise likelihoods, normalised"""
    l = np.array([np.sum([ref.pair_ll(-1, w[a], w[b], sigma) for b in Q if b != a]) for a in Q])
    # b may repeat a candidate with the same index only through a itself
    return soft(l), l - (l.max() + np.log(np.sum(np.exp(l - l.max()))))


def alignment_ref(kind, A, B, Q, sigma):
    M = len(A)
    f = np.zeros((M, len(B)))
    for i in range(M):
        for j in range(len(B)):
            if kind == 'rho':
                f[i, j] = -np.sqrt(np.sum((soft(A[i]) - soft(B[j])) ** 2))
            elif kind == 'epic':
                f[i, j] = -np.sqrt(max(0, (1 - pearson(A[i], B[j])) / 2))
            elif kind == 'spearman':
                f[i, j] = pearson(ranks(A[i]), ranks(B[j]))
            elif kind == 'loglikelihood':
                for q in Q:
                    f[i, j] += answer_probs(A[i], q, sigma)[1][int(np.argmax(B[j][q]))] + answer_probs(B[j], q, sigma)[1][int(np.argmax(A[i][q]))]
    return f


def make(rng, kind, M, rep=None):
    al = lop.AcquisitionSelection(M=M, alignment_f=kind, **({'rep_Q_data': rep} if rep else {}))
    return al


def measures(rng, mon, tier, idx):
    kind = MEASURES[idx % 4]
    M, N = int(rng.randint(2, 8)), int(rng.choice([2, 3, 5, 9]))
    if idx // 4 % 25 == 3:
        M, N = int(rng.randint(9, 28)), int(rng.randint(2, 70))
    al = make(rng, kind, M)
    m = lop.PreferenceGP(lop.RBF_kern(1, 1), active_learner=al)
    sigma = float(rng.uniform(.3, 2))
    m.probits[0].set_sigma(sigma)
    scale = float(rng.choice([.1, 1, 3])) if kind == 'loglikelihood' else float(rng.choice([.1, 1, 30, 800]))
    R = rng.randn(M, N) * scale + rng.randn(M, 1) * float(rng.choice([0, 1, 5 if kind == 'loglikelihood' else 900]))
    if rng.rand() < .3 and N > 2:
        R[:, 1] = R[:, 0]            # the same item twice
    if rng.rand() < .4:
        R[1] = R[0]                  # identical reward functions
    size = int(rng.randint(2, min(N, 4) + 1))
    Q = np.array([rng.choice(N, size, replace=False) for _ in range(int(rng.randint(1, 6)))])
    if kind == 'loglikelihood':
        Q = Q[[all(len(set(R[:, q][i])) == size for i in range(M)) for q in Q]]
        if len(Q) == 0 or far_apart(R, Q, sigma):
            mon.event('tied_or_clipped')
            return
    R0 = R.copy()
    kw = dict(measure=kind, M=M, N=N, size=size, scale=scale, sigma=sigma)
    mon.op('alignment', kw)
    f = np.asarray(al.alignment(R, Q))
    mon.check(np.array_equal(R, R0), 'samples_modified', 'the reward samples were modified', **kw)
    if not mon.check(f.shape == (M, M) and bool(np.all(np.isfinite(f))), 'alignment_shape', 'alignment of %d functions: %r' % (M, f), **kw):
        return
    tol = 1e-6 if kind == "epic" else 1e-8
    mon.close(f, alignment_ref(kind, R, R, Q, sigma), 'alignment_value', 1e-6, tol * (1 + (100 * (sigma < .5 and kind == 'loglikelihood'))), 'alignment', **kw)
    mon.check(bool(np.allclose(f, f.T, rtol=1e-9, atol=1e-6 if kind == "epic" else 1e-9)), 'not_symmetric', 'alignment is not symmetric', f=f, **kw)
    dg = np.diag(f)
    mon.check(bool(np.all(f <= (dg[:, None] + dg[None, :]) / 2 + 1e-7 * (1 + np.abs(f)))), 'identical_not_maximal', 'two different functions align better than identical ones', f=f, **kw)
    if kind in ('rho', 'epic'):
        mon.check(bool(np.all(np.abs(dg) <= 1e-6)), 'identical_not_zero', 'distance of a function to itself %r' % dg, **kw)
    if kind == 'spearman':
        mon.check(bool(np.all(np.abs(dg - 1) <= 1e-9) and np.all(np.abs(f) <= 1 + 1e-9)), 'spearman_range', 'rank correlation %r' % f, **kw)
    # invariances
    a, b = rng.uniform(.3, 3, (M, 1)), rng.randn(M, 1) * scale
    if kind == 'spearman':
        T = {'monotone': np.cbrt(R) * a + b, 'affine': a * R + b}
    elif kind == 'epic':
        T = {'affine': a * R + b}
    else:
        T = {'shift': R + b}
    p = rng.permutation(N)
    for name, S in T.items():
        g = np.asarray(al.alignment(S, Q))
        mon.close(g, f, 'not_invariant_' + name, 1e-5, 1e-5 * (1 + np.max(np.abs(f)) * (kind == 'loglikelihood')), 'alignment changes under a transformation it should ignore', **kw)
    if kind != 'loglikelihood':
        mon.close(al.alignment(R[:, p], Q), f, 'point_order', 1e-6, 1e-6, 'alignment depends on the order of the points', **kw)
    o = rng.permutation(M)
    mon.close(al.alignment(R[o], Q), f[np.ix_(o, o)], 'sample_order', 1e-9, 1e-7, 'alignment depends on the order of the samples', **kw)
    mon.event('measured_' + kind)
    if kind in ('epic', 'spearman'):
        B = rng.randn(M, N) * scale
        g = np.asarray(al.alignment_between(R, B))
        mon.close(g, alignment_ref(kind, R, B, Q, sigma), 'alignment_between', 1e-6, 1e-6, 'alignment between two sets of functions', **kw)
        mon.close(np.asarray(al.alignment_between(B, R)), g.T, 'alignment_between_transposed', 1e-9, 1e-6, 'swapping the sets', **kw)
        mon.close(np.asarray(al.alignment_between(R, R)), f, 'alignment_between_self', 1e-9, 1e-6, 'alignment with itself', **kw)
        mon.event('between')
    mon.nontrivial(kind, M, N, size, scale, idx)
    mon.sample(dict(kw, f=f[0]))


def far_apart(rep, Q, sigma):
    """pairwise likelihoods so small that the library's distribution function is clipped"""
    return any(np.max(np.ptp(rep[:, q], axis=1)) > 28 * np.sqrt(2) * sigma for q in np.asarray(Q))


def tied(rep, Q):
    return any(np.min(np.diff(np.sort(rep[:, q], axis=1), axis=1)) < 1e-4 for q in np.asarray(Q))


def unclear(kind, rep, Q, sigma):
    return kind == 'loglikelihood' and (far_apart(rep, Q, sigma) or tied(rep, Q)) or kind in ('epic', 'spearman') and np.min(np.ptp(rep, axis=1)) < 1e-3 \
        or kind == 'spearman' and np.min(np.diff(np.sort(rep, axis=1), axis=1)) < 1e-5


def record(al, name):
    log = []
    orig = getattr(al, name)

    def f(*a, **k):
        r = orig(*a, **k)
        log.append(r)
        return r
    setattr(al, name, f)
    return log


def expected_alignment(P, f):
    """P: [sample][answer] probabilities of one query; f: alignment matrix"""
    M = len(P)
    tot = 0.0
    for q in range(P.shape[1]):
        p = P[:, q]
        e = p.mean()
        if e > 0:
            tot += p @ f @ p / (M * M) / e
    return tot


def draw_check(mon, m, X, S, kw):
    """samples drawn for the query belong to the model's predictive distribution"""
    mu, var = m.predict(X)
    se = np.sqrt(np.maximum(var, 0) / len(S))
    sc = 1e-5 * (1 + np.max(np.abs(mu)))
    mon.check(bool(np.all(np.abs(S.mean(axis=0) - mu) <= 8 * se + sc)), 'sample_mean', 'reward samples are not centred on the prediction', **kw)
    mon.check(bool(np.all(S.var(axis=0) <= 40 * np.maximum(var, 0) + sc)), 'sample_variance', 'reward samples spread too far', **kw)
    # correlation: whitened second moment of the joint samples
    cov = np.array(m.cov)
    w, V = np.linalg.eigh((cov + cov.T) / 2)
    keep = w > 1e-3 * np.max(w)
    if np.max(w) <= 0 or w[0] < -1e-6 * np.max(w):
        return
    Z = (S - mu) @ V / np.sqrt(np.maximum(w, 1e-300))
    n, k = len(S), int(keep.sum())
    t = float(np.sum(Z[:, keep] ** 2))
    dof = n * k
    mon.check(abs(t - dof) <= 12 * np.sqrt(2 * dof) + 30, 'sample_covariance', 'joint samples do not follow the predicted covariance (chi2 %r, dof %d)' % (t, dof), **kw)
    null = (~keep) & (w < 1e-9 * np.max(w))
    if null.any():
        leak = np.abs((S - mu) @ V[:, null]).max()
        mon.check(leak <= 1e-3 * np.sqrt(np.max(w)) * 8, 'sample_covariance', 'samples vary along a direction without variance: %r' % leak, **kw)
    mon.event('samples_judged')


def subset(rng, n, k):
    prev = [int(i) for i in rng.choice(n, rng.randint(0, n - k + 1), replace=False)] if rng.rand() < .4 else []
    left = [i for i in range(n) if i not in prev]
    pref = sorted(int(i) for i in rng.choice(left, rng.randint(k, len(left) + 1), replace=False))
    return prev, pref


def probs(S, q, sigma):
    return np.array([answer_probs(w, q, sigma)[0] for w in S])


def pair(rng, mon, tier, idx):
    kind = ('rho', 'epic', 'spearman', 'loglikelihood', 'one')[idx % 5]
    M = int(rng.choice([2, 3, 6, 12, 20]))
    n = int(rng.choice([2, 3, 4, 6]))
    many = idx // 5 % 20 == 3
    if many:
        M, n = int(rng.choice([12, 40])), int(rng.randint(8, 17))
    al = make(rng, kind, M, {'num_pts': int(rng.choice([4, 6, 9]) if not many else rng.randint(10, 60)), 'num_Q': int(rng.choice([2, 8]) if not many else rng.randint(10, 60))})
    d = int(rng.randint(1, 4))
    mk = ('pgp', 'gp', 'lin')[rng.randint(3)]
    if mk == 'gp' and kind == 'loglikelihood':
        mk = 'pgp'
    if mk == 'lin':
        d = max(d, 2)
    m, _ = agen.model(rng, al, d, mk, data=int(rng.choice([4, 6])))
    gp = mk == 'gp'
    if not hasattr(m, 'probits'):
        mon.event('no_likelihood')
        return
    if rng.rand() < .6 and mk != 'gp':
        m.probits[0].set_sigma(float(rng.choice([.2, .5, 1.5])))
        m.optimize()
    sigma = m.probits[0].sigma
    C = agen.candidates(rng, d, n)
    prev, pref = subset(rng, n, 2)
    fixed = rng.rand() < .5
    kw = dict(measure=kind, model=mk, M=M, n=n, d=d, prev=prev, prefer=pref, sigma=sigma, scripted=fixed)
    mon.op('select_pair', kw)
    if fixed:
        nr = int(rng.randint(2, 7))
        sc = float(rng.choice([.3, 1, 4]))
        rep, S = rng.randn(M, nr) * sc, rng.randn(M, n) * float(rng.choice([.3, 1, 4, 30]))
        if rng.rand() < .3:
            S[:, 0] += 60.0            # one candidate surely preferred
        Q = np.array([rng.choice(nr, 2, replace=False) for _ in range(4)])
        al.set_samples(rep, S)
        al.get_representative_Q = lambda *a, **k: (np.zeros((nr, d)), Q)
    draws, reps = record(al, 'get_samples_from_model'), record(al, 'get_representative_Q')
    out = [int(i) for i in m.select(C, 2, prev, pref)]
    if not draws or not reps:
        mon.event('samples_not_observed')
        return
    rep, S = (np.asarray(x) for x in draws[-1])
    Xr, Q = reps[-1]
    mon.check(S.shape == (M, n) and rep.shape == (M, len(Xr)), 'sample_shape', 'samples %r %r' % (S.shape, rep.shape), **kw)
    if not fixed and mk == 'pgp':
        draw_check(mon, m, np.append(C, Xr, axis=0), np.append(S, rep, axis=1), kw)
    if unclear(kind, rep, Q, sigma):
        mon.event('tied_or_clipped')
        return
    f = np.ones((M, M)) if kind == 'one' else alignment_ref(kind, rep, rep, np.asarray(Q), sigma)
    score = {}
    for a in range(len(pref)):
        for b in range(a + 1, len(pref)):
            i, j = pref[a], pref[b]
            score[(i, j)] = expected_alignment(probs(S, [i, j], sigma), f)
    top = max(score, key=lambda k: score[k])
    got = tuple(sorted(out))
    if not mon.check(got in score, 'pair_not_allowed', 'pair %r' % (out,), **kw):
        return
    tol = 1e-7 * (1 + np.max(np.abs(f)))
    mon.check(score[got] >= score[top] - tol, 'not_maximal', 'pair %r scores %r, pair %r scores %r' % (got, score[got], top, score[top]), **kw)
    mon.close(al.sel_metric, score[got], 'reported_score', 1e-6, tol, 'reported expected alignment', **kw)
    if many:
        mon.event('many')
    mon.event('judged_pair_' + kind)
    mon.event('direct' if M * M * n * n > 1000 else 'vectorised')
    if max(score.values()) - min(score.values()) > 1e-4:
        mon.event('choice')
    mon.nontrivial(kind, mk, M, n, prev, pref, out, fixed)
    mon.sample(dict(kw, out=out, score=score[got]))


def greedy(rng, mon, tier, idx):
    kind = ('rho', 'epic', 'spearman', 'loglikelihood')[idx % 4]
    M = int(rng.choice([2, 4, 9, 15]))
    n = int(rng.choice([3, 4, 6]))
    if idx // 4 % 20 == 3:
        M, n = int(rng.choice([20, 40])), int(rng.randint(9, 20))
    al = make(rng, kind, M, {'num_pts': int(rng.choice([4, 6])), 'num_Q': int(rng.choice([2, 8]))})
    d = int(rng.randint(1, 4))
    m, _ = agen.model(rng, al, d, 'pgp', data=int(rng.choice([4, 6])))
    if rng.rand() < .6:
        m.probits[0].set_sigma(float(rng.choice([.2, .5, 1.5])))
        m.optimize()
    sigma = m.probits[0].sigma
    C = agen.candidates(rng, d, n)
    prev, pref = subset(rng, n, 2)
    k = int(rng.randint(1, min(4, len(pref)) + 1))
    fixed = rng.rand() < .5
    kw = dict(measure=kind, M=M, n=n, d=d, k=k, prev=prev, prefer=pref, sigma=sigma, scripted=fixed)
    if fixed:
        nr = int(rng.randint(max(2, k), 7))
        al.set_samples(rng.randn(M, nr), rng.randn(M, n) * float(rng.choice([.3, 1, 4])))
        Q = np.array([rng.choice(nr, max(2, k), replace=False) for _ in range(4)])
        al.get_representative_Q = lambda *a, **kk: (np.zeros((nr, d)), Q)
    draws, reps = record(al, 'get_samples_from_model'), record(al, 'get_representative_Q')
    orig, calls = al.select_greedy, []

    def spy(candidate_pts, mu, data, indicies, prev_selection):
        n0 = len(draws)
        ind, pv = sorted(int(i) for i in indicies), sorted(int(i) for i in prev_selection)
        r = orig(candidate_pts, mu, data, indicies, prev_selection)
        calls.append((int(r), ind, pv, draws[-1] if len(draws) > n0 else None, reps[-1] if reps else None, al.sel_metric))
        return r
    al.select_greedy = spy
    mon.op('select', kw)
    out = [int(i) for i in al.select(C, k, prev, pref, select_pair_first=bool(rng.rand() < .5))]
    for r, ind, pv, dr, rp, metric in calls:
        mon.check(r in ind, 'greedy_not_allowed', 'picked %r of %r' % (r, ind), **kw)
        if dr is None:
            mon.event('unscored_pick')
            mon.check(len(pv) == 0, 'unscored', 'a further alternative was picked without sampling', **kw)
            continue
        rep, S = (np.asarray(x) for x in dr)
        if unclear(kind, rep, rp[1], sigma):
            mon.event('tied_or_clipped')
            continue
        f = alignment_ref(kind, rep, rep, np.asarray(rp[1]), sigma)
        score = {i: expected_alignment(probs(S, pv + [i], sigma), f) for i in ind}
        top = max(score, key=lambda i: score[i])
        tol = 1e-6 * (1 + np.max(np.abs(f)))
        mon.check(score[r] >= score[top] - tol, 'greedy_not_maximal', 'picked %d (%r), best is %d (%r)' % (r, score[r], top, score[top]), already=pv, **kw)
        mon.close(metric, score[r], 'greedy_reported_score', 1e-6, tol, 'reported expected alignment', **kw)
        mon.event('judged_greedy')
        if len(pv) > 1:
            mon.event('judged_third')
    mon.nontrivial(kind, M, n, prev, pref, out, fixed)
    mon.sample(dict(kw, out=out))


_nodes = None


def nodes():
    """composite Gauss-Legendre nodes on (0.0001, 0.9999), refined towards both ends"""
    global _nodes
    if _nodes is None:
        x, w = np.polynomial.legendre.leggauss(12)
        e = np.geomspace(1e-4, .5, 60)
        edges = np.concatenate([e, (1 - e)[::-1][1:]])
        xs = np.concatenate([(b + a) / 2 + (b - a) / 2 * x for a, b in zip(edges[:-1], edges[1:])])
        ws = np.concatenate([(b - a) / 2 * w for a, b in zip(edges[:-1], edges[1:])])
        _nodes = xs, ws
    return _nodes


def rating_score(F, f, sigma, v):
    y, w = nodes()
    L = np.array([ref.abs_ll(y, x, sigma, v) for x in F])
    top = L.max(axis=0)
    P = np.exp(L - top)
    M = len(F)
    num = np.einsum('iq,ij,jq->q', P, f, P) / (M * M)
    return float(np.sum(w * num / P.mean(axis=0) * np.exp(top)))


def rating(rng, mon, tier, idx):
    kind = ('rho', 'epic', 'spearman', 'loglikelihood')[idx % 4]
    M = int(rng.choice([2, 4, 8]))
    n = int(rng.choice([2, 3, 5]))
    if idx // 4 % 10 == 3:
        M, n = int(rng.choice([10, 20])), int(rng.randint(6, 12))
    al = lop.AbsAcquisition(M=M, alignment_f=kind, rep_Q_data={'num_pts': 5, 'num_Q': int(rng.choice([2, 8]))})
    d = int(rng.randint(1, 4))
    m, _ = agen.model(rng, al, d, 'pgp', data=int(rng.choice([4, 6])))
    sa, v = 1.0, 10.0
    sa, v = float(rng.uniform(.4, 1.5)), float(rng.choice([4.0, 15.0, 60.0, 150.0]))
    m.probits[2].set_sigma(sa)
    m.probits[2].set_v(v)
    m.optimize()
    C = agen.candidates(rng, d, n)
    prev, pref = subset(rng, n, 1)
    fixed = rng.rand() < .6
    if idx // 4 % 4 == 1:       # few of many candidates (the learner meets them in any order)
        n = int(rng.randint(10, 24))
        C = agen.candidates(rng, d, n)
        n = len(C)
        prev, pref = [], sorted(int(i) for i in rng.choice(n, int(rng.randint(2, 5)), replace=False))
        fixed = rng.rand() < .8
    kw = dict(measure=kind, M=M, n=n, d=d, prev=prev, prefer=pref, sigma=sa, v=v, scripted=fixed)
    if fixed:
        given = rng.randn(M, n) * float(rng.choice([.2, 1])) + rng.randn(n) * float(rng.choice([.3, 2]))
        al.set_samples(rng.randn(M, 5), given.copy())
        Q = np.array([rng.choice(5, 2, replace=False) for _ in range(4)])
        al.get_representative_Q = lambda *a, **kk: (np.zeros((5, d)), Q)
    draws, reps = record(al, 'get_samples_from_model'), record(al, 'get_representative_Q')
    orders, recorded = [], al.get_samples_from_model

    def ordered(*a, **k):
        ix = k.get('indicies', a[2] if len(a) > 2 else None)
        orders.append(None if ix is None else [int(i) for i in ix])
        return recorded(*a, **k)
    al.get_samples_from_model = ordered
    mon.op('select', kw)
    out = [int(i) for i in m.select(C, 1, prev, pref)]
    rep, S = (np.asarray(x) for x in draws[-1])
    if unclear(kind, rep, reps[-1][1], m.probits[0].sigma):
        mon.event('tied_or_clipped')
        return
    f = alignment_ref(kind, rep, rep, np.asarray(reps[-1][1]), m.probits[0].sigma)
    if S.shape != (M, len(pref)):
        mon.fail('rating_samples', 'samples of shape %r for %d eligible candidates' % (S.shape, len(pref)), **kw)
        return
    if not orders or orders[-1] is None:
        mon.event('order_not_observed')
        return
    if fixed:       # samples given from outside: every candidate keeps its own column
        mon.check(all(np.array_equal(S[:, i], given[:, c]) for i, c in enumerate(orders[-1]) if c < n), 'samples_of_others', 'samples of candidates %s are not the given ones' % orders[-1], **kw)
        mon.event('given_samples_unordered' if orders[-1] != sorted(orders[-1]) else 'given_samples')
    if not mon.check(sorted(orders[-1]) == pref, 'rating_candidates', 'samples drawn for %s' % orders[-1], **kw):
        return
    score = {c: rating_score(S[:, i], f, sa, v) for i, c in enumerate(orders[-1])}
    top = max(score, key=lambda i: score[i])
    if not mon.check(len(out) == 1 and out[0] in score, 'rating_not_allowed', 'selected %r' % out, **kw):
        return
    tol = 5e-3 * (1e-3 + max(abs(x) for x in score.values()))
    mon.check(score[out[0]] >= score[top] - tol, 'rating_not_maximal', 'rating query %r scores %r, best %r scores %r' % (out[0], score[out[0]], top, score[top]), **kw)
    mon.close(al.sel_metric, score[out[0]], 'rating_reported_score', 5e-3, tol, 'reported expected alignment', **kw)
    mon.event('judged_rating')
    if max(score.values()) - min(score.values()) > 4 * tol:
        mon.event('rating_choice')
    mon.nontrivial(kind, M, n, prev, pref, out, v)
    mon.sample(dict(kw, out=out, score=score[out[0]]))


GROUPS = [Group('measures', measures, 1200, 20000, require=['measured_' + k for k in MEASURES] + ['between']),
          Group('pair', pair, 500, 8000, require=['choice', 'many']),
          Group('greedy', greedy, 360, 4000, require=['judged_greedy']),
          Group('rating', rating, 90, 800, require=['judged_rating'])]
