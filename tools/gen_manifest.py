"""Writes MANIFEST.json from the check modules present and properties.jsonl."""
import json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {json.loads(l)['id']: json.loads(l) for l in open(V + '/properties.jsonl')}
TECH = {
 'C01': 'runtime monitor: shadow label store over random operation histories',
 'C02': 'runtime monitor: refusals injected into histories, twin-model comparison',
 'C03': 'runtime monitor: twin-model history checker for lazy fitting',
 'C04': 'runtime monitor: reference posterior on random data and batch splits',
 'C05': 'runtime monitor: batching/permutation metamorphic and finiteness assertions',
 'C06': 'runtime monitor: stationarity residual and reference Laplace posterior',
 'C07': 'runtime monitor: stationarity residual and linearity of the fitted model',
 'C08': 'runtime monitor: reference kernel formulas and eigenvalue assertions',
 'C09': 'runtime monitor: finite-difference oracle for kernel gradients',
 'C10': 'runtime monitor: parameter round-trip history checker',
 'C11': 'runtime monitor: normalisation/monotonicity assertions against reference likelihoods',
 'C12': 'runtime monitor: finite-difference oracle for likelihood derivatives',
 'C13': 'runtime monitor: finite-difference oracle for hyper-parameter derivatives',
}
checks = []
for f in sorted(os.listdir(V + '/checks')):
    m = re.match(r'(c\d+)\.py$', f)
    if not m:
        continue
    i = m.group(1).upper()
    src = open(V + '/checks/' + f).read()
    t = re.search(r"^TECHNIQUE = '(.*)'", src, re.M)
    checks.append(dict(property=i, quick_cmd='./check.sh ' + i, thorough_cmd='VERIF_TIER=thorough ./check.sh ' + i,
                       evidence_file='evidence/%s.json' % i,
                       technique=t.group(1) if t else TECH[i], level='exploration',
                       level_note='Held on the executions observed (seeded random workloads, counts in the evidence file); trusts numpy/scipy and the reference formulas in /verif/harness; says nothing about inputs not driven.'))
na = [dict(property=p, reason='no monitor built yet') for p in props if p not in {c['property'] for c in checks}]
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
         notes='No hooks in /repo: all monitors observe the public API from outside. The library has no threads, shared memory or native code, so sanitizers and race detectors have nothing to observe.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks;', len(na), 'not claimed')
