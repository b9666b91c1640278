#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ and confirms each planted bug in a scratch copy of /repo.

usage: plants.py [id ...]     (all bugs of bugs.py without arguments)
"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(os.path.dirname(HERE)), 'seeded')
sys.path.insert(0, HERE)
from bugs import BUGS

WT = '/tmp/plantwt'


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)


def edit(root, path, old, new):
    p = os.path.join(root, path)
    data = open(p, 'rb').read()
    if b'\r\n' in data:
        old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
    old, new = old.encode(), new.encode()
    assert data.count(old) == 1, (path, data.count(old), old)
    open(p, 'wb').write(data.replace(old, new))


def tests(cwd):
    """the stable tests, run against the copy"""
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    r = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-rA', '-p', 'no:cacheprovider', '--continue-on-collection-errors'], cwd,
           env=dict(os.environ, PYTHONPATH=cwd, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg'))
    passed = {l.split()[1].replace('.py', '').replace('/', '.') for l in r.stdout.splitlines() if l.startswith('PASSED')}
    return [t for t in stable if t not in passed]


def demo(bug_dir, cwd):
    return sh(['bash', os.path.join(bug_dir, 'demo.sh')], cwd, timeout=300)


def main():
    ids = sys.argv[1:] or sorted(BUGS)
    bad = 0
    for bid in ids:
        b = BUGS[bid]
        shutil.rmtree(WT, ignore_errors=True)
        subprocess.check_call(['cp', '-a', '/repo', WT])
        for path, old, new in b['edits']:
            edit(WT, path, old, new)
        d = os.path.join(SEEDED, bid)
        os.makedirs(d, exist_ok=True)
        diff = subprocess.run(['git', 'diff', '--', 'hyvr'], cwd=WT, capture_output=True).stdout
        open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
        shutil.copy(os.path.join(HERE, 'demo.sh'), d)
        shutil.copy(os.path.join(HERE, 'lib.py'), d)
        with open(os.path.join(d, 'demo.py'), 'w') as f:
            f.write('from lib import *\n' + b['demo'].lstrip('\n'))
        with open(os.path.join(d, 'meta.json'), 'w') as f:
            json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), f, indent=1)
            f.write('\n')
        clean = demo(d, '/repo')
        broken = demo(d, WT)
        failed = tests(WT)
        minus = diff.count(b'\n-') - diff.count(b'\n---')
        ok = clean.returncode == 0 and broken.returncode != 0 and 'BROKEN:' in broken.stdout and minus > 0 and not failed
        print(bid, 'ok' if ok else 'NOT OK', 'clean=%d broken=%d' % (clean.returncode, broken.returncode),
              broken.stdout.strip().splitlines()[-1:], 'tests failed: %s' % failed if failed else '', flush=True)
        if not ok:
            bad += 1
            print(clean.stdout[-1500:], clean.stderr[-1500:], broken.stdout[-800:], broken.stderr[-1500:])
    shutil.rmtree(WT, ignore_errors=True)
    sys.exit(bad != 0)


main()
