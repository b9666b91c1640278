#!/opt/venv/bin/python
"""
  vc.py setup                 build the shim
  vc.py check Cnn             run the check of a property (VERIF_TIER, VERIF_SEED)
  vc.py replay FILE           replay a violation
  vc.py selftest [Cnn ...]    determinism: same jobs in other processes / hash seeds
"""
import hashlib
import json
import os
import random
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
BUILD = os.path.join(VERIF, 'build')
REPLAYS = os.path.join(VERIF, 'replays')
PY = '/opt/venv/bin/python'
NPROC = int(os.environ.get('HYVR_SIM_WORKERS', '8'))
HARD_CAP = 780          # seconds of wall clock for one check (900 allowed)

def shim():
    src = os.path.join(HERE, 'shim.c')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:12]
    so = os.path.join(BUILD, 'shim-%s.so' % h)
    if not os.path.exists(so):
        os.makedirs(BUILD, exist_ok=True)
        tmp = so + '.%d' % os.getpid()
        subprocess.run(['gcc', '-O2', '-Wall', '-Wno-nonnull', '-Wno-nonnull-compare', '-U_FORTIFY_SOURCE',
                        '-D_FORTIFY_SOURCE=0', '-shared', '-fPIC', '-o', tmp, src, '-ldl', '-lpthread'], check=True)
        os.replace(tmp, so)
    return so


class Dead(Exception):
    pass


class Worker:
    def __init__(self, scratch, i, hashseed='0'):
        self.root = os.path.join(scratch, 'w%03d' % i)
        env = dict(PATH='/usr/bin:/bin', LANG='C.UTF-8', LC_ALL='C.UTF-8', LD_PRELOAD=shim(), HYVR_SIM_ROOT=self.root,
                   PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED=hashseed, OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1',
                   HDF5_USE_FILE_LOCKING='TRUE', HOME=scratch, MPLCONFIGDIR=scratch, TZ='UTC', PYTHONNOUSERSITE='1')
        if 'HYVR_SIM_REPO' in os.environ:
            env['HYVR_SIM_REPO'] = os.environ['HYVR_SIM_REPO']
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen([PY, os.path.join(HERE, 'worker.py')], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.err, env=env, cwd=scratch, start_new_session=True)
        self.buf = b''
        self.busy = None

    def fileno(self):
        return self.p.stdout.fileno()

    def send(self, job):
        self.busy = job
        self.t0 = time.monotonic()
        self.p.stdin.write((json.dumps(job) + '\n').encode())
        self.p.stdin.flush()

    def recv(self, timeout=None):
        while b'\n' not in self.buf:
            r, _, _ = select.select([self], [], [], timeout)
            if not r:
                raise TimeoutError
            c = os.read(self.fileno(), 1 << 16)
            if not c:
                self.err.seek(0)
                raise Dead(self.err.read()[-2000:].decode('utf-8', 'replace'))
            self.buf += c
        line, self.buf = self.buf.split(b'\n', 1)
        self.busy = None
        return json.loads(line)

    def call(self, job, timeout=600):
        self.send(job)
        return self.recv(timeout)

    def stop(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()


def ready(w):
    r = w.recv(120)
    if 'import_error' in r:
        sys.stderr.write('hyvr can not be imported:\n' + r['import_error'] + '\n')
        raise SystemExit(3)


def scratch_dir():
    # constant length, so that paths have the same length in every run
    return tempfile.mkdtemp(prefix='hyvrsim-', dir='/tmp')


def cleanup(d):
    subprocess.run(['chmod', '-R', 'u+rwX', d], stderr=subprocess.DEVNULL)
    shutil.rmtree(d, ignore_errors=True)


class Farm:
    def __init__(self, n=NPROC, hashseed='0'):
        self.scratch = scratch_dir()
        self.ws = [Worker(self.scratch, i, hashseed) for i in range(n)]
        for w in self.ws:
            ready(w)

    def close(self):
        for w in self.ws:
            w.stop()
        cleanup(self.scratch)

    def fresh(self, hashseed='0'):
        w = Worker(self.scratch, 900 + len(self.ws), hashseed)
        self.ws.append(w)
        ready(w)
        return w


def check(pid):
    import plans
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    info = plans.PROPS[pid]
    jobs = info['jobs']
    if tier == 'thorough':
        limit, maxjobs = float(os.environ.get('VERIF_SECONDS', info.get('thorough_s', 600))), 10**9
    else:
        limit, maxjobs = info.get('cap_s', 420), int(os.environ.get('VERIF_JOBS', jobs))
    t0 = time.monotonic()
    print('hyvr-sim property=%s tier=%s seed=%d' % (pid, tier, seed), flush=True)
    farm = Farm()
    stats, digs, samples, known = {}, set(), [], {}
    n = nt = done = 0
    harness = []
    violations = []
    nxt = 0
    hashes = hashlib.sha256()
    results = {}
    lost = 0
    try:
        live = list(farm.ws)
        stop = False
        while True:
            now = time.monotonic() - t0
            if now > limit or violations or len(harness) > 20:
                stop = True
            for w in live:
                if w.busy is None and not stop and nxt < maxjobs:
                    w.send(dict(type='explore', prop=pid, seed=seed, index=nxt, id=nxt, tier=tier))
                    nxt += 1
            busy = [w for w in live if w.busy is not None]
            if not busy:
                break
            if now > HARD_CAP:
                lost += len(busy)
                break
            if stop and violations and now > limit + 60:
                break
            r, _, _ = select.select(busy, [], [], 1.0)
            for w in r:
                try:
                    res = w.recv(300)
                except (Dead, TimeoutError) as e:
                    harness.append('worker died in job %r: %s' % (w.busy, e))
                    live.remove(w)
                    w.stop()
                    if len(harness) < 8:
                        nw = farm.fresh()
                        live.append(nw)
                    continue
                done += 1
                for k, v in res.get('stats', {}).items():
                    stats[k] = stats.get(k, 0) + v
                if 'harness' in res:
                    harness.append('job %s: %s' % (res['job'], res['harness']))
                    continue
                n += res['n']
                nt += res['nt']
                digs.update(res['digs'])
                for k in res.get('known', ()):
                    known[k] = known.get(k, 0) + 1
                if len(samples) < 5:
                    samples += res['samples'][:1]
                if res.get('violation'):
                    violations.append((res['job'], res['violation']))
        explore_s = time.monotonic() - t0
        out = []
        if violations:
            # the violation with the lowest index, minimised in another process
            violations.sort(key=lambda x: x[0])
            idx, v = violations[0]
            w = farm.fresh()
            budget = max(5.0, min(info.get('shrink_s', 40), HARD_CAP - (time.monotonic() - t0) - 60))
            case, msg = v['case'], v['msg']
            steps = 0
            tail, digest, fired = [], v['digest'], []
            try:
                res = w.call(dict(type='shrink', prop=pid, case=case, cls=v['cls'], budget=budget), budget + 240)
                if res.get('msg') is not None:
                    case, msg, steps = res['case'], res['msg'], res['steps']
                    tail, digest, fired = res['tail'], res['digest'], res['fired']
                elif 'harness' in res:
                    sys.stderr.write('while shrinking: %s\n' % res['harness'])
            except (Dead, TimeoutError) as e:
                sys.stderr.write('while shrinking: %s\n' % e)
            os.makedirs(REPLAYS, exist_ok=True)
            path = os.path.join(REPLAYS, '%s-%d-%d.json' % (pid, seed, idx))
            rep = dict(property=pid, seed=seed, index=idx, violation_class=v['cls'], message=msg, case=case, digest=digest,
                       shrink_steps=steps, faults_fired=fired, last_events=tail)
            # confirm in a fresh process: first the minimised case, then the original one
            for c, d in ((case, digest), (v['case'], v['digest'])):
                w2 = farm.fresh()
                try:
                    r2 = w2.call(dict(type='eval', prop=pid, case=c), 300)
                except (Dead, TimeoutError):
                    continue
                rep['confirmed'] = any(k == v['cls'] for k, m in r2.get('verdict') or ())
                rep['replay_digest_equal'] = r2.get('digest') == d
                if rep['confirmed']:
                    rep['case'], rep['digest'] = c, d
                    break
            with open(path, 'w') as f:
                json.dump(rep, f, indent=1, sort_keys=True)
            print('violation: [%s] %s' % (v['cls'], msg))
            print('seed=%d index=%d minimised in %d steps, reproduced in a fresh process: %s' % (seed, idx, steps, rep.get('confirmed')))
            if rep.get('confirmed') or info.get('unstable'):
                out.append('VIOLATION property=%s replay=%s' % (pid, path))
            else:
                harness.append('violation of job %d can not be reproduced (see %s)' % (idx, path))
        wall = time.monotonic() - t0
        runs = stats.get('runs', 0)
        cov = dict(
            evaluations=n, distinct_nontrivial=len(digs), nontrivial=nt, rule=info['rule'], samples=samples,
            jobs=done, jobs_planned=(maxjobs if maxjobs < 10**9 else None), jobs_unfinished=lost,
            simulated_processes=runs, simulated_processes_per_hour=int(runs / max(explore_s, 1e-9) * 3600),
            seeds_per_hour=int(done / max(explore_s, 1e-9) * 3600),
            file_system_events=stats.get('ops', 0), simulated_seconds=round(stats.get('sim_ns', 0) / 1e9, 3),
            faults_injected={k[6:]: v for k, v in sorted(stats.items()) if k.startswith('fault:')},
            fault_positions={k[3:]: v for k, v in sorted(stats.items()) if k.startswith('at:')},
            random_draws=stats.get('rng_draws', 0),
            random_draws_replaced={k[4:]: v for k, v in sorted(stats.items()) if k.startswith('rng:')},
            outcomes={k[8:]: v for k, v in sorted(stats.items()) if k.startswith('outcome:')},
            probes={k[6:]: v for k, v in sorted(stats.items()) if k.startswith('probe:')},
            skipped={k[5:]: v for k, v in sorted(stats.items()) if k.startswith('skip:')},
            distinct_measure=info.get('distinct', 'sha256 of the complete event log (every file system call, its fault and outcome)'),
            real_components=info.get('real', plans.REAL), stubbed_components=info.get('stub', plans.STUB),
            known_findings_seen=known, harness_errors=len(harness), workers=NPROC)
        ev = dict(property=pid, tier=tier, seed=seed, level='exploration', coverage=cov,
                  assumptions=info.get('assumptions', plans.ASSUMPTIONS), wall_s=round(wall, 2), violations=len(out))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        for k in sorted(known):
            print('KNOWN-FINDING: property=%s %s' % (pid, k))
        print('%d evaluations (%d distinct non-trivial), %d simulated processes, %.1f s' % (n, len(digs), runs, wall))
        for l in out:
            print(l, flush=True)
        if out:
            return 1
        if harness:
            sys.stderr.write('%d harness errors, first:\n%s\n' % (len(harness), harness[0]))
            if n == 0 or len(harness) > max(3, done // 10):
                return 3
        failing = sum(v for k, v in stats.items() if k.startswith('skip:') and 'run fails' in k)
        if failing > 9 * n:
            sys.stderr.write('almost no run succeeds, nothing to judge: %r\n' % cov['skipped'])
            return 3
        if n == 0:
            print('NOTE nothing could be evaluated: %r' % cov['skipped'])
        return 0
    finally:
        farm.close()


def replay(path):
    rep = json.load(open(path))
    pid = rep['property']
    farm = Farm(1)
    try:
        r = farm.ws[0].call(dict(type='eval', prop=pid, case=rep['case']), 600)
    finally:
        farm.close()
    if 'harness' in r:
        print(r['harness'])
        return 3
    for t in r['tail']:
        print('  event', t)
    for f in r['fired']:
        print('  fault', f)
    same = [m for c, m in r['verdict'] or () if c == rep['violation_class']]
    for c, m in r['verdict'] or ():
        print('violation: [%s] %s' % (c, m))
    print('event log digest %s (%s)' % (r['digest'], 'as recorded' if r['digest'] == rep['digest'] else 'recorded: %s' % rep['digest']))
    if same:
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    print('not reproduced')
    return 0


def selftest(pids):
    """Every job twice, in different processes, at different worker counts and
    hash seeds; compares the digests of the event logs."""
    import plans
    njobs = int(os.environ.get('VERIF_JOBS', '16'))
    bad = 0
    for pid in pids or sorted(plans.PROPS):
        res = []
        for k, (nw, hs) in enumerate(((8, '0'), (3, '0'), (5, '17'))):
            farm = Farm(nw, hs)
            out = {}
            try:
                for i in range(0, njobs, nw):
                    part = list(range(i, min(i + nw, njobs)))
                    if k:
                        part.reverse()
                    for w, idx in zip(farm.ws, part):
                        w.send(dict(type='explore', prop=pid, seed=4242, index=idx, id=idx, tier='quick'))
                    for w, idx in zip(farm.ws, part):
                        r = w.recv(600)
                        out[idx] = (r.get('n'), r.get('digs'), r.get('harness'), bool(r.get('violation')))
            finally:
                farm.close()
            res.append(out)
        diff = [i for i in range(njobs) if not (res[0][i] == res[1][i] == res[2][i])]
        tot = sum(len(v[1] or ()) for v in res[0].values())
        print('%s: %d jobs, %d event logs, %d jobs differ %s' % (pid, njobs, tot, len(diff), diff[:5]), flush=True)
        bad += len(diff)
    return 1 if bad else 0


def main():
    sys.path.insert(0, HERE)
    a = sys.argv[1:]
    if not a or a[0] == 'setup':
        print(shim())
        return 0
    if a[0] == 'check':
        return check(a[1])
    if a[0] == 'replay':
        return replay(a[1])
    if a[0] == 'selftest':
        return selftest(a[1:])
    print(__doc__)
    return 2


if __name__ == '__main__':
    sys.exit(main())
