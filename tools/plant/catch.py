#!/usr/bin/env python3
"""Runs the check of its property against each planted bug, in a scratch copy: catch.py [--jobs N] [id ...]"""
import json, os, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(os.path.dirname(HERE))
WT = '/tmp/catchwt'
ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
for bid in ids:
    prop = json.load(open('%s/seeded/%s/meta.json' % (V, bid)))['property']
    shutil.rmtree(WT, ignore_errors=True)
    subprocess.check_call(['cp', '-a', os.environ.get('CATCH_REPO', '/repo'), WT])
    subprocess.check_call(['git', 'apply', '%s/seeded/%s/patch.diff' % (V, bid)], cwd=WT)
    t = time.time()
    r = subprocess.run(['/opt/venv/bin/python', 'sim/vc.py', 'check', prop], cwd=V, capture_output=True, text=True,
                       env=dict(os.environ, HYVR_SIM_REPO=WT, VERIF_SEED='1'))
    v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    print('%-20s %s %s rc=%d %3.0f s %s' % (bid, prop, 'CAUGHT' if r.returncode == 1 and v else 'MISSED', r.returncode, time.time() - t,
          r.stdout.strip()[-300:].replace('\n', ' | ')), flush=True)
shutil.rmtree(WT, ignore_errors=True)
