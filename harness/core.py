"""Runtime-monitoring harness shared by all checks.

A check module (checks/<id>.py) exposes GROUPS: a list of Group objects.  A group is a
workload generator plus its monitors: fn(rng, mon, tier, idx) builds one random (but
seed-determined) workload, drives the real code in /repo/src and reports every observed
event to the Monitor, which judges it.  The runner fans the cases out over worker
processes, collects verdicts and writes the evidence file.

Verdicts: held (exit 0), violated (exit 1 + VIOLATION line + replay file),
inconclusive (exit 2: harness error, watchdog, or a required event never observed).
"""
import os, sys, json, time, signal, hashlib, traceback, shutil, tempfile, collections

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('LOP_REPO', '/repo')
SRC = os.path.realpath(os.path.join(REPO, 'src'))
EXPERIMENTS = os.path.realpath(os.path.join(REPO, 'experiments'))
NPROC = int(os.environ.get('VERIF_PROCS', '8'))


class DebuggerEntered(Exception):
    """the library dropped into an interactive debugger instead of returning"""


class Hang(Exception):
    """a case used far more processor time than it ever needs"""


class Skip(Exception):
    """the generated case is outside the property's domain"""


class Group:
    def __init__(self, name, fn, quick, thorough, require=(), chunk=None, watchdog=240, hang=None):
        self.name, self.fn, self.quick, self.thorough = name, fn, quick, thorough
        self.require = tuple(require)     # events that must have been observed at least once
        self.chunk = chunk
        self.watchdog = watchdog          # seconds for one case before it counts as inconclusive
        self.hang = hang or 0.6 * watchdog   # processor seconds after which library code counts as not terminating


def rng_for(seed, prop, group, idx):
    import numpy as np
    h = hashlib.sha256(('%d|%s|%s|%d' % (seed, prop, group, idx)).encode()).digest()
    return np.random.RandomState(np.frombuffer(h[:16], dtype=np.uint32))


def jsonable(x, depth=0):
    import numpy as np
    if depth > 6:
        return repr(x)[:200]
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    if isinstance(x, float):
        return x if np.isfinite(x) else repr(x)
    if isinstance(x, np.generic):
        return jsonable(x.item(), depth)
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist(), depth + 1) if x.size <= 64 else \
            {'shape': list(x.shape), 'head': jsonable(x.ravel()[:16].tolist(), depth + 1)}
    if isinstance(x, (list, tuple, set, frozenset)):
        x = list(x)
        return [jsonable(v, depth + 1) for v in x[:40]] + (['... %d' % len(x)] if len(x) > 40 else [])
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:40]}
    return repr(x)[:200]


class Monitor:
    """Observes events of one case; records violations by mechanism."""

    def __init__(self):
        self.events = collections.Counter()
        self.violations = []      # (mechanism, message, witness)
        self.keys = set()
        self.samples = []
        self.evals = 0
        self.trace = []           # operations so far, part of the witness

    def op(self, name, *args):
        self.events['op:' + name] += 1
        if len(self.trace) < 60:
            self.trace.append([name] + [jsonable(a) for a in args])

    def event(self, name, n=1):
        self.events[name] += int(n)

    def nontrivial(self, *key):
        """the case exercised something distinct and non-trivial (identified by key)"""
        self.keys.add(hashlib.sha1(repr(jsonable(key)).encode()).hexdigest()[:16])

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(jsonable(obj))

    def fail(self, mech, msg, **witness):
        self.events['violation'] += 1
        if len(self.violations) < 20:
            self.violations.append((mech, msg, dict({k: jsonable(v) for k, v in witness.items()},
                                                    trace=list(self.trace))))

    def check(self, cond, mech, msg='', **witness):
        self.events['checked:' + mech] += 1
        if not cond:
            self.fail(mech, msg, **witness)
        return bool(cond)

    def close(self, got, want, mech, rtol=1e-7, atol=1e-9, msg='', equal_nan=False, **witness):
        import numpy as np
        self.events['checked:' + mech] += 1
        try:
            g = np.asarray(got, dtype=float)
            w = np.asarray(want, dtype=float)
        except Exception as e:
            self.fail(mech, '%s not numeric: %r' % (msg, e), got=got, want=want, **witness)
            return False
        if g.shape != w.shape:
            self.fail(mech, '%s shape %s, expected %s' % (msg, g.shape, w.shape), got=g, want=w, **witness)
            return False
        ok = np.abs(g - w) <= atol + rtol * np.abs(w)
        ok |= (g == w)
        if equal_nan:
            ok |= np.isnan(g) & np.isnan(w)
        if not ok.all():
            d = np.abs(g - w)
            d = d[~ok]
            self.fail(mech, '%s max deviation %r' % (msg, float(np.max(d)) if np.isfinite(d).all() else 'nan'),
                      got=g, want=w, **witness)
            return False
        return True

    def lib(self, mech, fn, *a, **k):
        """call library code; an exception is a violation of `mech`; returns (ok, value)"""
        try:
            return True, fn(*a, **k)
        except Skip:
            raise
        except Exception as e:
            self.fail(mech + ':raised', '%s: %s' % (type(e).__name__, str(e)[:300]),
                      where=lib_frames(e))
            return False, None

    def dump(self):
        return dict(events=dict(self.events), violations=self.violations, keys=sorted(self.keys),
                    samples=self.samples, evals=self.evals)


def lib_frames(e):
    out = []
    for f in traceback.extract_tb(e.__traceback__):
        for root in (SRC, EXPERIMENTS):
            if os.path.realpath(f.filename).startswith(root + os.sep):
                out.append('%s:%s:%d' % (os.path.relpath(os.path.realpath(f.filename), root), f.name, f.lineno))
    return out


def mvn_cdf_reference(b, cov, mean=None, **k):
    """P(X <= b) for a normal X: closed form up to two dimensions, otherwise Genz's transformation on a fixed
    lattice (scipy's own routine keeps a hidden generator, so the same call gives different values)"""
    import numpy as np
    from scipy.special import ndtr, ndtri
    from scipy.stats import multivariate_normal
    b, cov = np.atleast_1d(np.asarray(b, float)), np.atleast_2d(np.asarray(cov, float))
    b = b if mean is None else b - np.asarray(mean, float)
    n = len(b)
    if n <= 2 and np.linalg.eigvalsh(cov).min() > 1e-12 * np.max(np.abs(cov)):
        return min(max(float(multivariate_normal(mean=np.zeros(n), cov=cov, allow_singular=True).cdf(b)), 0.0), 1.0)
    if not (np.all(np.isfinite(b)) and np.all(np.isfinite(cov))):
        return float('nan')
    o = np.argsort(b / np.sqrt(np.maximum(np.diagonal(cov), 1e-300)))
    b, cov = b[o], cov[np.ix_(o, o)]
    N = 32768 if n < 7 else 16384
    primes = np.array([2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97])
    if n - 1 > len(primes):
        raise ValueError('too many dimensions')
    u = np.mod(np.arange(1, N + 1)[:, None] * np.sqrt(primes[:n - 1]), 1)
    u = np.abs(2 * u - 1)
    scale = max(float(np.max(np.diagonal(cov))), 1e-300)
    L, y, p = np.zeros((n, n)), np.zeros((N, n)), np.ones(N)
    for i in range(n):
        for j in range(i):
            L[i, j] = (cov[i, j] - L[i, :j] @ L[j, :j]) / L[j, j] if L[j, j] > 0 else 0.0
        d = cov[i, i] - L[i, :i] @ L[i, :i]
        t = b[i] - y[:, :i] @ L[i, :i]
        if d > 1e-12 * scale:
            L[i, i] = np.sqrt(d)
            e = ndtr(t / L[i, i])
            if i < n - 1:
                y[:, i] = ndtri(np.clip(u[:, i] * e, 1e-300, 1 - 1e-16))
        else:
            e = (t >= -1e-9 * np.sqrt(scale)) * 1.0
        p = p * e
    return float(np.mean(p))


def prepare_process():
    """environment shared by every check process; imports the library from /repo/src"""
    sys.dont_write_bytecode = True
    import warnings
    warnings.filterwarnings('ignore')
    sys.path.insert(0, SRC)
    import pdb

    def no_debugger(*a, **k):
        raise DebuggerEntered('library code entered the interactive debugger')
    pdb.set_trace = no_debugger
    pdb.Pdb.set_trace = no_debugger
    try:
        import approxcdf
    except ImportError:
        # optional dependency that is not installed here: stand-in with the same meaning
        import types
        ap = types.ModuleType('approxcdf')

        ap.mvn_cdf = mvn_cdf_reference
        sys.modules['approxcdf'] = ap
    so, devnull = os.dup(1), os.open(os.devnull, os.O_WRONLY)
    sys.stdout.flush()
    os.dup2(devnull, 1)
    try:
        import lop
    finally:
        sys.stdout.flush()
        os.dup2(so, 1)
        os.close(so)
        os.close(devnull)
    where = os.path.realpath(lop.__file__)
    if not where.startswith(SRC):
        raise RuntimeError('lop imported from %s, not from %s' % (where, SRC))
    import numpy as np
    np.seterr(all='ignore')
    return lop


def run_case(prop, group, idx, seed, tier):
    import numpy as np, random
    mon = Monitor()
    rng = rng_for(seed, prop, group.name, idx)
    np.random.seed(rng.randint(2**31 - 1))
    random.seed(int(rng.randint(2**31 - 1)))
    err = None
    mon.evals = 1
    t0 = time.time()

    def expired(*a):
        raise Hang('no result after %g seconds of processor time' % group.hang)
    signal.signal(signal.SIGPROF, expired)
    signal.setitimer(signal.ITIMER_PROF, group.hang)
    try:
        group.fn(rng, mon, tier, idx)
    except Skip:
        mon.events['skipped'] += 1
        mon.evals = 0
    except Exception as e:
        fr = lib_frames(e)
        tb = traceback.format_exc()[-1500:]
        if fr:
            fnname = fr[-1].split(':')
            mon.fail('raised:%s:%s:%s' % (group.name, type(e).__name__, fnname[1]),
                     '%s: %s' % (type(e).__name__, str(e)[:300]), where=fr, tb=tb)
        else:
            err = tb
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    d = mon.dump()
    d.update(hung=any('Hang' in v[0] or v[1].startswith('Hang:') for v in mon.violations))
    d.update(group=group.name, idx=idx, error=err, t=time.time() - t0)
    return d


def _worker(prop, groups, seed, tier, inq, outq, scratch):
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get('VERIF_DEBUG'):
        os.dup2(devnull, 2)
    d = tempfile.mkdtemp(dir=scratch)
    os.chdir(d)
    by = {g.name: g for g in groups}
    while True:
        item = inq.recv()
        if item is None:
            break
        gname, idxs = item
        for i in idxs:
            outq.send(('start', gname, i))
            try:
                r = run_case(prop, by[gname], i, seed, tier)
            except BaseException:
                r = dict(events={}, violations=[], keys=[], samples=[], evals=0, group=gname, idx=i,
                         error=traceback.format_exc()[-1500:], t=0)
            outq.send(('done', r))
            if r.get('hung'):
                break
        outq.send(('idle',))


def run_all(prop, groups, seed, tier, budget):
    """fan out over worker processes; returns list of case results, list of inconclusive notes"""
    import multiprocessing as mp
    from multiprocessing.connection import wait
    ctx = mp.get_context('fork')
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    os.environ['MPLCONFIGDIR'] = scratch
    jobs = []
    for g in groups:
        n = g.quick if tier == 'quick' else g.thorough
        if n <= 0:
            continue
        c = g.chunk or max(1, min(50, n // (NPROC * 3)))
        for a in range(0, n, c):
            jobs.append((g.name, list(range(a, min(n, a + c)))))
    # interleave the groups so a time budget cuts all of them alike
    order = collections.OrderedDict()
    for j in jobs:
        order.setdefault(j[0], []).append(j)
    jobs = []
    total = {g: len(v) for g, v in order.items()}
    ranked = [((k + 0.5) / total[g], gi, j) for gi, (g, v) in enumerate(order.items()) for k, j in enumerate(v)]
    jobs = collections.deque(j for _, _, j in sorted(ranked, key=lambda t: (t[0], t[1])))
    results, notes = [], []
    wd = {g.name: g.watchdog for g in groups}
    workers = {}

    def spawn():
        pi, ci = ctx.Pipe()
        po, co = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(prop, groups, seed, tier, ci, co, scratch), daemon=False)
        p.start()
        ci.close(); co.close()
        w = dict(p=p, inq=pi, outq=po, cur=None, since=time.time(), job=None)
        workers[po] = w
        return w

    t0 = time.time()
    done_jobs = 0

    def give(w):
        if jobs and time.time() - t0 < budget:
            w['job'] = jobs.popleft()
            w['since'] = time.time()
            w['inq'].send(w['job'])
            return True
        try:
            w['inq'].send(None)
        except OSError:
            pass
        w['job'] = None
        return False

    def retire(w, kill=False):
        workers.pop(w['outq'], None)
        if kill:
            w['p'].kill()
        w['p'].join(20)
        if w['p'].is_alive():
            w['p'].kill()
            w['p'].join()

    try:
        for _ in range(min(NPROC, len(jobs))):
            w = spawn()
            give(w)
        while workers:
            ready = wait(list(workers), timeout=1.0)
            for c in ready:
                w = workers.get(c)
                if w is None:
                    continue
                try:
                    m = c.recv()
                except (EOFError, OSError):
                    if w['job'] is not None:
                        notes.append('worker died in %s case %s' % (w['job'][0], w['cur']))
                    retire(w)
                    if jobs and len(notes) < 40:
                        give(spawn())
                    continue
                if m[0] == 'start':
                    w['cur'] = m[2]
                    w['since'] = time.time()
                elif m[0] == 'done':
                    results.append(m[1])
                    if m[1].get('hung'):      # the violation is recorded; do not wait for it again
                        jobs = collections.deque(j for j in jobs if j[0] != m[1]['group'])
                    w['since'] = time.time()
                else:
                    if not give(w):
                        retire(w)
            now = time.time()
            for c, w in list(workers.items()):
                if w['job'] is not None and now - w['since'] > wd[w['job'][0]]:
                    notes.append('watchdog: %s case %s ran over %ds' % (w['job'][0], w['cur'], wd[w['job'][0]]))
                    retire(w, kill=True)
                    if jobs and len(notes) < 40:
                        give(spawn())
    finally:
        for w in list(workers.values()):
            retire(w, kill=True)
        shutil.rmtree(scratch, ignore_errors=True)
    if jobs:
        notes_cut = sum(len(j[1]) for j in jobs)
    else:
        notes_cut = 0
    return results, notes, notes_cut


def load_known(prop):
    out = []
    path = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line or line.startswith('#'):
                continue
            if line.startswith('fixed:'):
                continue
            d = json.loads(line)
            if d.get('property') == prop and d.get('status') == 'open':
                out.append(d)
    return out


def main(prop, groups, level_rule, assumptions=(), post=None):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    budget = float(os.environ.get('VERIF_BUDGET', '420' if tier == 'quick' else '780'))
    t0 = time.time()
    results, notes, cut = run_all(prop, groups, seed, tier, budget)
    results.sort(key=lambda r: (r['group'], r['idx']))
    events = collections.Counter()
    per_group = collections.OrderedDict()
    keys, samples, viol, errors = set(), [], [], []
    evals = 0
    for g in groups:
        per_group[g.name] = dict(cases=0, violating=0, skipped=0, distinct=0, seconds=0.0, slowest=0.0)
    gkeys = collections.defaultdict(set)
    for r in results:
        pg = per_group[r['group']]
        pg['cases'] += r['evals']
        pg['seconds'] += r['t']
        pg['slowest'] = max(pg['slowest'], r['t'])
        evals += r['evals']
        pg['skipped'] += r['events'].get('skipped', 0)
        for k, v in r['events'].items():
            events[k] += v
        for k in r['keys']:
            gkeys[r['group']].add(k)
        if r['samples'] and sum(1 for s in samples if s['group'] == r['group']) < 2:
            samples.append(dict(group=r['group'], idx=r['idx'], case=r['samples'][0]))
        if r['violations']:
            pg['violating'] += 1
            for v in r['violations']:
                viol.append((r['group'], r['idx'], v))
        if r['error']:
            errors.append('%s case %d: %s' % (r['group'], r['idx'], r['error']))
    for g, ks in gkeys.items():
        per_group[g]['distinct'] = len(ks)
    distinct = sum(len(k) for k in gkeys.values())
    for pg in per_group.values():
        pg['seconds'] = round(pg['seconds'], 2)

    missing = []
    for g in groups:
        n = g.quick if tier == 'quick' else g.thorough
        if n > 0:
            for ev in g.require:
                if not events.get(ev):
                    missing.append('%s: event %s never observed' % (g.name, ev))
            if per_group[g.name]['cases'] == 0:
                missing.append('%s: no case ran' % g.name)

    known = load_known(prop)
    known_hit, fresh = collections.OrderedDict(), []
    for g, i, v in viol:
        for k in known:
            if v[0] == k['mechanism'] and (not k.get('group') or k['group'] == g):
                known_hit.setdefault(k['mechanism'], (k, g, i))
                break
        else:
            fresh.append((g, i, v))

    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    lines = []
    if fresh:
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for g, i, v in fresh:
            if v[0] in seen:
                continue
            seen.add(v[0])
            path = os.path.join(rdir, '%s-%s-%d.json' % (prop, g, i))
            with open(path, 'w') as f:
                json.dump(dict(property=prop, group=g, idx=i, seed=seed, tier=tier, mechanism=v[0],
                               message=v[1], witness=v[2],
                               replay='%s/check.sh %s --replay %s' % (VERIF, prop, path)), f, indent=1)
            lines.append('VIOLATION property=%s replay=%s mechanism=%s :: %s' % (prop, path, v[0], v[1][:200]))
            if len(seen) >= 12:
                break
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration',
              coverage=dict(evaluations=int(evals), distinct_nontrivial=int(distinct), rule=level_rule,
                            samples=samples[:12] or [{'note': 'no sample recorded'}],
                            groups=per_group,
                            events={k: v for k, v in sorted(events.items())},
                            monitor_evaluations=int(sum(v for k, v in events.items() if k.startswith('checked:'))),
                            cases_not_run=cut,
                            known_findings_observed=list(known_hit),
                            inconclusive=(notes + missing + errors)[:20]),
              assumptions=list(assumptions) + ['held on the executions observed in this run; nothing is claimed about unexplored inputs'],
              wall_s=round(time.time() - t0, 2), violations=len(fresh))
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)

    for mech, (k, g, i) in known_hit.items():
        print('KNOWN-FINDING: property=%s %s (%s case %d)' % (prop, k['what'], g, i))
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %d monitor evaluations, %.1fs'
          % (prop, tier, seed, evals, distinct, ev['coverage']['monitor_evaluations'], time.time() - t0))
    for g, pg in per_group.items():
        print('   %-28s %s' % (g, pg))
    for l in lines:
        print(l)
    if fresh:
        return 1
    if errors or notes or missing:
        for e in (errors + notes + missing)[:6]:
            print('INCONCLUSIVE: ' + e)
        return 2
    return 0


def replay(prop, groups, path):
    d = json.load(open(path))
    g = [g for g in groups if g.name == d['group']][0]
    os.chdir(tempfile.mkdtemp(prefix='verif-replay-'))
    r = run_case(prop, g, d['idx'], d['seed'], d['tier'])
    for v in r['violations']:
        print(json.dumps(v, indent=1)[:6000])
    if r['error']:
        print(r['error'])
    if r['violations']:
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    return 0
