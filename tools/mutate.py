#!/usr/bin/env python3
"""Mutation campaign (not a check): apply each catalogued change to a scratch copy of /repo,
run the existing unit tests and the check of the property it breaks, and print the verdicts.

usage: mutate.py [--jobs N] [--tests] [ID-prefix ...]
Catalogue: mutants/*.py, each calling mut(id, property, file, old, new[, old, new ...]).
"""
import argparse
import concurrent.futures
import glob
import json
import os
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CAT = {}


def mut(mid, prop, *edits):
    """edits: (file, old, new) triples, flattened."""
    assert mid not in CAT, mid
    CAT[mid] = (prop, [edits[i:i + 3] for i in range(0, len(edits), 3)])


def load():
    for f in sorted(glob.glob(os.path.join(HERE, 'mutants', '*.py'))):
        exec(compile(open(f).read(), f, 'exec'), {'mut': mut})


def make(mid, root):
    d = os.path.join(root, mid)
    os.makedirs(d)
    shutil.copytree('/repo/rdtools', d + '/rdtools', ignore=shutil.ignore_patterns('__pycache__'))
    for f in ('setup.cfg', 'setup.py', 'versioneer.py', 'README.md'):
        if os.path.exists('/repo/' + f):
            shutil.copy('/repo/' + f, d)
    for f, old, new in CAT[mid][1]:
        p = os.path.join(d, 'rdtools', f)
        s = open(p).read()
        if s.count(old) < 1:
            raise SystemExit('%s: text not found in %s: %r' % (mid, f, old))
        if s.count(old) > 1:
            raise SystemExit('%s: text not unique in %s: %r' % (mid, f, old))
        open(p, 'w').write(s.replace(old, new))
    return d


def one(mid, root, jobs, tests, seed):
    d = make(mid, root)
    prop = CAT[mid][0]
    env = dict(os.environ, RV_REPO=d, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', MPLBACKEND='Agg')
    out = subprocess.run([HERE + '/run.sh', prop, '--jobs', str(jobs), '--seed', str(seed),
                          '--evidence', os.path.join(root, mid + '.json')],
                         capture_output=True, text=True, env=env)
    r = {'id': mid, 'property': prop, 'exit': out.returncode,
         'by': sorted({ln.split(' case ')[0].strip() for ln in out.stdout.splitlines() if ' case ' in ln})}
    if out.returncode not in (0, 1):
        r['tail'] = (out.stdout + out.stderr)[-600:]
    if tests:
        t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-n', str(jobs), '--timeout=300',
                            '--continue-on-collection-errors', '-o', 'junit_family=xunit2',
                            '--junitxml=' + os.path.join(root, mid + '.xml'), 'rdtools'], cwd=d, capture_output=True, text=True,
                           env=dict(env, PYTHONPATH=d))
        import xml.etree.ElementTree as E
        ok = set()
        for c in E.parse(os.path.join(root, mid + '.xml')).iter('testcase'):
            if not any(x.tag in ('failure', 'error', 'skipped') for x in c):
                ok.add(c.get('classname') + '::' + c.get('name'))
        stable = [s for s in json.load(open('/opt/vp/BASELINE.json'))['stable'] if not s.startswith('docs.')]
        r['tests_failed'] = sorted(s for s in stable if s not in ok)[:3]
        r['n_failed'] = sum(s not in ok for s in stable)
    shutil.rmtree(d)
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--jobs', type=int, default=2)
    ap.add_argument('--par', type=int, default=4)
    ap.add_argument('--tests', action='store_true')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('ids', nargs='*')
    a = ap.parse_args()
    load()
    ids = [m for m in CAT if not a.ids or any(m.startswith(p) for p in a.ids)]
    root = tempfile.mkdtemp(prefix='rv-mut-')
    try:
        with concurrent.futures.ThreadPoolExecutor(a.par) as ex:
            n = k = 0
            for r in ex.map(lambda m: one(m, root, a.jobs, a.tests, a.seed), ids):
                n += 1
                k += r['exit'] == 1
                print(json.dumps(r), flush=True)
        print('%d of %d caught' % (k, n))
    finally:
        shutil.rmtree(root, ignore_errors=True)


if __name__ == '__main__':
    main()
