#!/usr/bin/env python3
"""Turn a catalogued mutant into /verif/seeded/<ID>/ and confirm its demonstration.

usage: plant.py [ID ...]     seeded/<ID>/demo.py and seeded/<ID>/meta.json must exist
Writes patch.diff (against /repo HEAD) and demo.sh, then runs demo.sh on a clean and on a patched copy.
"""
import os
import subprocess
import sys
import tempfile
import shutil
import mutate

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/sh
# cwd: the repository
here=$(cd "$(dirname "$0")" && pwd)
exec env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=2 /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def demo(path, d):
    w = tempfile.mkdtemp()                    # the folder lies elsewhere when it counts
    for f in os.listdir(path):
        if not f.endswith(('.diff', '.json')):
            shutil.copy(os.path.join(path, f), w)
    r = subprocess.run(['sh', w + '/demo.sh'], cwd=d, capture_output=True, text=True, timeout=300)
    shutil.rmtree(w)
    return r


def main():
    mutate.load()
    root = tempfile.mkdtemp(prefix='rv-plant-')
    bad = 0
    for sid in sys.argv[1:] or sorted(os.listdir(V + '/seeded')):
        p = os.path.join(V, 'seeded', sid)
        d = os.path.join(root, sid)
        subprocess.run(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', d, 'HEAD'], check=True)
        try:
            if sid in mutate.CAT:
                for f, old, new in mutate.CAT[sid][1]:
                    q = os.path.join(d, 'rdtools', f)
                    s = open(q).read()
                    assert s.count(old) == 1, (sid, f, old)
                    open(q, 'w').write(s.replace(old, new))
                diff = subprocess.run(['git', '-C', d, 'diff'], capture_output=True, text=True).stdout
                open(p + '/patch.diff', 'w').write(diff)
                subprocess.run(['git', '-C', d, 'checkout', '-q', '--', '.'], check=True)
            with open(p + '/demo.sh', 'w') as f:
                f.write(DEMO)
            os.chmod(p + '/demo.sh', 0o755)
            a = demo(p, d)
            subprocess.run(['git', '-C', d, 'apply', p + '/patch.diff'], check=True)
            b = demo(p, d)
            ok = a.returncode == 0 and b.returncode != 0 and 'AssertionError' in b.stderr
            bad += not ok
            print('%-24s clean %d patched %d %s' % (sid, a.returncode, b.returncode, 'ok' if ok else 'BAD'))
            if not ok:
                print(a.stderr[-800:], b.stderr[-800:])
            else:
                print('    ', b.stderr.strip().splitlines()[-1][:150])
        finally:
            subprocess.run(['git', '-C', '/repo', 'worktree', 'remove', '--force', d])
    shutil.rmtree(root, ignore_errors=True)
    sys.exit(bad > 0)


if __name__ == '__main__':
    main()
