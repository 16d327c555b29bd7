"""Confirms a planted bug in a scratch copy of /repo and, if it qualifies, writes /verif/seeded/<id>/.

usage: plant.py SPEC.py [id ...]      SPEC defines BUGS = [dict(id, property, edits, needs, breaks, demo, files={})]
  edits: list of (file under src/lop, old text, new text); demo: python source, exits non-zero when the property is broken.
Confirmed: builds, stable tests pass, demo exits 0 on /repo and non-zero on the copy, changed lines are original ones.
Then runs the property's check on the copy (LOP_REPO) and reports whether it is caught.
"""
import sys, os, subprocess, json, shutil, runpy

ENV = dict(HOME='/root', PATH='/opt/venv/bin:/usr/local/bin:/usr/bin:/bin', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
           PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1', NUMBA_NUM_THREADS='1', MPLCONFIGDIR='/opt/vp/mpl')
DEMO = '''#!/bin/bash
HERE=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD/src"
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
SCRATCH=$(mktemp -d)
cd "$SCRATCH" || exit 3
MPLCONFIGDIR="$SCRATCH" timeout 250 /opt/venv/bin/python -W ignore "$HERE/demo.py"
code=$?
rm -rf "$SCRATCH"
exit $code
'''
BASE = subprocess.run(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.split()[0]


def sh(cmd, cwd=None, env=None, t=600):
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=t)


def one(b):
    out = '/verif/seeded/' + b['id']
    tmp = '/tmp/plant-' + b['id']
    shutil.rmtree(tmp, ignore_errors=True)
    sh(['cp', '-a', '/repo', tmp])
    try:
        for f, old, new, *nth in b['edits']:
            p = '%s/%s' % (tmp, f if f.startswith('experiments/') else 'src/lop/' + f)
            parts = open(p).read().split(old)
            if len(parts) != (nth[1] if nth else 1) + 1:
                return 'BAD: %s: text found %d times' % (f, len(parts) - 1)
            k = nth[0] if nth else 0
            open(p, 'w').write(old.join(parts[:k + 1]) + new + old.join(parts[k + 1:]))
        diff = sh(['git', 'diff'], cwd=tmp).stdout
        original = False
        for f in sorted(set(e[0] for e in b['edits'])):
            path = f if f.startswith('experiments/') else 'src/lop/' + f
            d = sh(['git', 'diff', '-U0', '--', path], cwd=tmp).stdout
            blame = sh(['git', 'blame', '-s', '--abbrev=40', '-l', 'HEAD', '--', path], cwd='/repo').stdout.splitlines()
            n = 0
            for l in d.splitlines():
                if l.startswith('@@'):
                    n = int(l.split()[1][1:].split(',')[0]) - 1
                elif l.startswith('-') and not l.startswith('---'):
                    if l[1:].strip():
                        if not blame[n].lstrip('^').startswith(BASE[:20]):
                            return 'BAD: changes a line that is not original: ' + l
                        original = True
                    n += 1
        if not original:
            return 'BAD: changes no original line'
        r = sh(['/opt/venv/bin/python', '-c', 'import lop; assert lop.__file__.startswith(%r)' % tmp], env=dict(ENV, PYTHONPATH=tmp + '/src'), cwd=tmp)
        if r.returncode:
            return 'BAD: does not import: ' + r.stderr[-300:]
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.sh', 'w').write(DEMO)
        os.chmod(out + '/demo.sh', 0o755)
        open(out + '/demo.py', 'w').write(b['demo'])
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(out + '/meta.json', 'w'), indent=1)

        def bad(msg):
            shutil.rmtree(out)
            return 'BAD: ' + msg
        r0 = sh(['bash', out + '/demo.sh'], cwd='/repo')
        if r0.returncode:
            return bad('demo fails on the unchanged tree: ' + (r0.stdout + r0.stderr)[-600:])
        r1 = sh(['bash', out + '/demo.sh'], cwd=tmp)
        if not r1.returncode:
            return bad('demo passes with the change')
        if 'demo-only' not in sys.argv:
            sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-n', '8', '--timeout=300', '-p', 'randomly', '--randomly-seed=0', '--randomly-dont-reorganize',
                '--ignore=tests/active_learning/test_bayes_info_gain.py', '--continue-on-collection-errors', '-o', 'junit_family=xunit2', '--junitxml=%s/junit.xml' % tmp, 'tests'],
               cwd=tmp, env=dict(ENV, PYTHONPATH=tmp + '/src'))
            sh(['/usr/bin/python3', '/opt/vp/results.py', tmp + '/out.json', 'junit:%s/junit.xml' % tmp], cwd=tmp)
            st = json.load(open('/opt/vp/BASELINE.json'))['stable']
            ok = set(json.load(open(tmp + '/out.json'))['passed'])
            miss = [t for t in st if t not in ok]
            if miss:
                return bad('stable tests fail: %s' % miss[:4])
        res = []
        for c in [b['property']] + b.get('also', []):
            r = sh(['/verif/check.sh', c], env=dict(ENV, LOP_REPO=tmp, VERIF_SEED='1', VERIF_TIER='quick'), t=900)
            v = [l.split(' :: ')[0].split('mechanism=')[1] for l in r.stdout.splitlines() if l.startswith('VIOLATION property=' + c)]
            res.append('%s exit %d %s' % (c, r.returncode, ('CAUGHT ' + ','.join(v[:3])) if v and r.returncode == 1 else 'MISSED'))
        return ' ; '.join(res) + '   [demo: %s]' % (r1.stdout + r1.stderr).strip().splitlines()[-1][:120]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    spec = runpy.run_path(sys.argv[1])
    only = [a for a in sys.argv[2:] if a != 'demo-only']
    for b in spec['BUGS']:
        if only and b['id'] not in only:
            continue
        try:
            print(b['id'], '->', one(b), flush=True)
        except Exception as e:
            print(b['id'], '-> ERROR', repr(e)[:300], flush=True)
