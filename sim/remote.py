"""Workers with another hash seed, started on demand by a worker."""
import json
import os
import subprocess
import sys

_ws = {}


def call(hashseed, job):
    w = _ws.get(hashseed)
    if w is None or w.poll() is not None:
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed), HYVR_SIM_ROOT=os.environ['HYVR_SIM_ROOT'] + 'h%d' % hashseed)
        w = subprocess.Popen([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'worker.py')],
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)
        _ws[hashseed] = w
        r = json.loads(w.stdout.readline() or b'{}')
        if not r.get('ready'):
            return dict(harness='remote worker does not start: %r' % r)
    w.stdin.write((json.dumps(job) + '\n').encode())
    w.stdin.flush()
    line = w.stdout.readline()
    if not line:
        del _ws[hashseed]
        return dict(harness='remote worker died')
    return json.loads(line)
