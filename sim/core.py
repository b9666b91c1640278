"""
The simulator proper.  Runs inside a worker process that was started with the
shim preloaded and has hyvr imported; every simulated process is a fork of it.

One simulated process is described by a `spec` (plain dict) and is a pure
function of it, of the tree it starts from and of the code in /repo.
"""
import ctypes
import gc
import io
import json
import os
import pickle
import resource
import runpy
import shutil
import signal
import stat
import sys
import traceback
import warnings

REPO = os.environ.get('HYVR_SIM_REPO', '/repo')

FK = dict(err=1, short=2, crash=3, crash_after=4, torn=5, sticky=6, lostclose=7,
          clock=8, sigint=9, sigterm=10)
FKN = {v: k for k, v in FK.items()}
CPU_LIMIT = 120          # seconds of cpu time of one simulated process


class HarnessError(Exception):
    """Something is wrong with the machinery (never a violation)."""


_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(os.environ['LD_PRELOAD'].split(':')[0])
        _lib.sim_set_env.argtypes = [ctypes.c_ulonglong, ctypes.c_ulonglong, ctypes.c_longlong, ctypes.c_longlong]
        _lib.sim_add_fault.argtypes = [ctypes.c_int, ctypes.c_long, ctypes.c_long]
        _lib.sim_clock.restype = ctypes.c_longlong
        _lib.sim_ops.restype = ctypes.c_long
        if _lib.sim_present() != 1:
            raise HarnessError('shim not loaded')
    return _lib


# --------------------------------------------------------------------- trees
def build_tree(root, entries):
    """entries: list of [type, path, ...]; type d(ir) f(ile) l(ink) p(ipe)"""
    for e in entries:
        p = os.path.join(root, e[1])
        if e[0] != 'd':
            os.makedirs(os.path.dirname(p), exist_ok=True)
        if e[0] == 'd':
            os.makedirs(p, exist_ok=True)
        elif e[0] == 'f':
            with open(p, 'wb') as f:
                f.write(e[2].encode('utf-8', 'surrogateescape') if isinstance(e[2], str) else e[2])
        elif e[0] == 'l':
            t = e[2]
            if t.startswith('@/'):
                t = os.path.join(root, t[2:])
            os.symlink(t, p)
        elif e[0] == 'p':
            os.mkfifo(p)
        if len(e) > 3 and e[3] is not None and e[0] in 'df':
            os.chmod(p, e[3])


def wipe(root):
    if not os.path.isdir(root):
        return
    for d, ds, fs in os.walk(root):
        try:
            os.chmod(d, 0o700)
        except OSError:
            pass
    shutil.rmtree(root)


def snapshot(root):
    """path -> (type, content).  Content is bytes / link target / mode."""
    res = {}

    def walk(d, rel):
        for n in sorted(os.listdir(d)):
            p = os.path.join(d, n)
            r = rel + '/' + n if rel else n
            st = os.lstat(p)
            if stat.S_ISLNK(st.st_mode):
                res[r] = ('l', os.readlink(p))
            elif stat.S_ISDIR(st.st_mode):
                res[r] = ('d', st.st_mode & 0o777)
                walk(p, r)
            elif stat.S_ISREG(st.st_mode):
                with open(p, 'rb') as f:
                    res[r] = ('f', f.read(), st.st_mode & 0o777)
            else:
                res[r] = ('s', stat.S_IFMT(st.st_mode))
    if os.path.isdir(root):
        walk(root, '')
    return res


def below(snap, prefix):
    """The part of a snapshot below prefix, with paths relative to it."""
    p = prefix + '/'
    return {k[len(p):]: v for k, v in snap.items() if k.startswith(p)}


def without(snap, prefix):
    p = prefix + '/'
    return {k: v for k, v in snap.items() if not (k == prefix or k.startswith(p))}


def tree_diff(a, b, limit=6):
    out = []
    for k in sorted(set(a) | set(b)):
        if k not in b:
            out.append('removed ' + k)
        elif k not in a:
            out.append('added ' + k)
        elif a[k] != b[k]:
            out.append('changed ' + k)
        if len(out) >= limit:
            out.append('...')
            break
    return out


# ------------------------------------------------------------- random numbers
class RngSeam:
    """Replaces the draws of numpy.random by legal but extreme ones."""
    NAMES = ('uniform', 'normal', 'choice', 'randint', 'rand', 'random', 'random_sample',
             'poisson', 'randn', 'standard_normal', 'ranf', 'sample')

    def __init__(self, seed, rate, kinds):
        import numpy as np
        import random
        self.np = np
        self.rnd = random.Random(seed)
        self.rate = rate
        self.kinds = set(kinds)
        self.fired = {}
        self.draws = 0
        self.orig = {}

    def hit(self, kind):
        self.draws += 1
        if kind in self.kinds and self.rnd.random() < self.rate:
            self.fired[kind] = self.fired.get(kind, 0) + 1
            return True
        return False

    def install(self):
        np = self.np
        R = np.random
        eps = 1 - 2.0**-53
        o = {n: getattr(R, n) for n in self.NAMES if hasattr(R, n)}
        self.orig = o

        def ext(v, low, high):
            u = self.rnd.choice([0.0, 0.0, eps, eps, 2.0**-53, 0.5])
            r = low + (high - low) * u
            return v * 0 + r

        def uniform(low=0.0, high=1.0, size=None):
            v = o['uniform'](low, high, size)
            return ext(v, low, high) if self.hit('uniform') else v

        def unit(name):
            def f(*a, **k):
                v = o[name](*a, **k)
                return ext(v, 0.0, 1.0) if self.hit('uniform') else v
            return f

        def normal(loc=0.0, scale=1.0, size=None):
            v = o['normal'](loc, scale, size)
            if self.hit('normal'):
                return v * 0 + loc + scale * self.rnd.choice([-3.9, -2.0, 0.0, 2.0, 3.9])
            return v

        def choice(a, size=None, replace=True, p=None):
            v = o['choice'](a, size, replace, p)
            if size is None and self.hit('choice'):
                n = a if isinstance(a, (int, np.integer)) else len(a)
                ok = [i for i in range(n) if p is None or p[i] > 0]
                i = self.rnd.choice([ok[0], ok[-1]])
                return i if isinstance(a, (int, np.integer)) else np.asarray(a)[i]
            return v

        def randint(low, high=None, size=None, dtype=int):
            v = o['randint'](low, high, size, dtype)
            if size is None and self.hit('randint'):
                lo, hi = (0, low) if high is None else (low, high)
                return self.rnd.choice([lo, hi - 1])
            return v

        def poisson(lam=1.0, size=None):
            v = o['poisson'](lam, size)
            if size is None and self.hit('poisson'):
                return self.rnd.choice([0, 1, int(lam) + 3])
            return v

        new = dict(uniform=uniform, normal=normal, choice=choice, randint=randint, poisson=poisson)
        for n in ('rand', 'random', 'random_sample', 'ranf', 'sample'):
            if n in o:
                new[n] = unit(n)
        for n, f in new.items():
            setattr(R, n, f)


# --------------------------------------------------------------- one process
def _under(name, names):
    return any(name == n or name.startswith(n + '.') for n in names)


class BlockFinder:
    """Makes libraries unimportable (missing, or installed but broken)"""

    def __init__(self, names, how):
        self.names = set(names)
        self.how = how

    def find_spec(self, name, path=None, target=None):
        if _under(name, self.names):
            if self.how == 'broken':
                raise ImportError("%s: libfoo.so.1: cannot open shared object file" % name, name=name)
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        return None


def _block_imports(names, how='missing'):
    for n in list(sys.modules):
        if _under(n, names):
            del sys.modules[n]
            if '.' in n:        # also as attribute of the parent
                par, ch = n.rsplit('.', 1)
                if par in sys.modules and hasattr(sys.modules[par], ch):
                    delattr(sys.modules[par], ch)
    sys.meta_path.insert(0, BlockFinder(names, how))


def _child(spec, root, fds):
    """Runs in the forked child.  Never returns."""
    log_fd, out_fd, err_fd, res_fd, req_fd, grant_fd = fds
    res = dict(status='harness', exc=None, msg='', tb='')
    L = lib()
    try:
        resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        os.dup2(out_fd, 1)
        os.dup2(err_fd, 2)
        sys.stdout = io.TextIOWrapper(io.FileIO(1, 'w', closefd=False), encoding='utf-8', write_through=True, line_buffering=True)
        sys.stderr = io.TextIOWrapper(io.FileIO(2, 'w', closefd=False), encoding='utf-8', write_through=True, line_buffering=True)
        os.chdir(os.path.join(root, spec.get('cwd', '.')))
        os.environ['TMPDIR'] = os.path.join(root, 'tmp')
        os.environ['HOME'] = os.path.join(root, 'home')
        import tempfile
        tempfile.tempdir = os.path.join(root, 'tmp')
        tempfile._name_sequence = None
        import random as _random
        import numpy as np
        import hyvr
        def interrupted(sig, frame):
            if frame is None or frame.f_code.co_filename != __file__:     # else: the run is already over
                raise KeyboardInterrupt
        signal.signal(signal.SIGINT, interrupted)
        if spec.get('block'):
            _block_imports(spec['block'], spec.get('blockhow', 'missing'))
        collected = {}
        if spec.get('collect') == 'rngstates':
            states = []

            def hook(ev, args):
                if ev == 'open' and isinstance(args[0], str) and args[0].endswith('.npz') \
                        and isinstance(args[1], str) and ('w' in args[1] or 'x' in args[1]):
                    states.append((os.path.relpath(args[0], root), np.random.get_state()))
            sys.addaudithook(hook)
            collected['states'] = states
        model_box = []
        if spec.get('collect') == 'model':
            import hyvr.sim as hs
            if hasattr(hs, 'assign_points'):
                orig_ap = hs.assign_points

                def ap(model, *a, **k):
                    r = orig_ap(model, *a, **k)
                    try:
                        model_box.append(spec['_collector'](model))
                    except Exception as e:      # internals look different: no model-level data
                        model_box.append(dict(unavailable=repr(e)[:300]))
                    return r
                hs.assign_points = ap
        seam = None
        if spec.get('rng'):
            seam = RngSeam(spec['rng']['seed'], spec['rng']['rate'], spec['rng']['kinds'])
            seam.install()
        L.sim_set_scope(root.encode())
        if spec.get('made'):
            L.sim_set_remap(os.path.normpath(os.path.join(REPO, 'hyvr', 'made.ini')).encode(),
                            os.path.join(root, spec['made']).encode())
        L.sim_set_fds(log_fd, req_fd, grant_fd)
        L.sim_set_env(spec.get('dirseed', 0), spec.get('entropy', 7) | 1, spec.get('clock0', 1500000000), spec.get('clockstep', 1000))
        # what an interpreter takes from the system entropy when it starts
        _random.seed(spec.get('entropy', 7))
        np.random.seed(spec.get('entropy', 7) % 2**32)
        steps = spec.get('steps') or [spec]
        outcomes = []
        here = os.stat('.')
        gc.collect()
        gc.disable()
        for st in steps:
            if st.get('rngstate') is not None:
                np.random.set_state(st['rngstate'])
            elif st.get('seed') is not None:
                np.random.seed(st['seed'])
            ini = st.get('ini')
            if ini is None:
                arg = 0
            else:
                arg = os.path.join(root, ini) if st.get('how', 'abs') != 'rel' \
                    else os.path.relpath(os.path.join(root, ini), os.path.join(root, spec.get('cwd', '.')))
                if st.get('how') == 'path':
                    import pathlib
                    arg = pathlib.Path(arg)
            o = dict(status='ok', exc=None, msg='', tb='')
            L.sim_clear_plan()
            for f in st.get('faults') or ():
                L.sim_add_fault(FK[f[0]], f[1], f[2])
            L.sim_arm()
            try:
                if st.get('entry', 'api') == 'cli':
                    argv = ['hyvr']
                    if st.get('flag'):
                        argv.append('--overwrite')
                    if arg != 0:
                        argv.append(str(arg))
                    sys.argv = argv
                    try:
                        runpy.run_module('hyvr', run_name='__main__', alter_sys=False)
                        code = 0
                    except SystemExit as e:
                        code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
                        if e.code is not None and not isinstance(e.code, int):
                            print(e.code, file=sys.stderr)
                    except BaseException:
                        traceback.print_exc()
                        code = 1
                    gc.collect()
                    o['status'] = 'exit%d' % code
                elif 'flag' in st and st['flag'] is not None:
                    if st.get('kw'):
                        hyvr.run(arg, flag_ow=st['flag'])
                    else:
                        hyvr.run(arg, st['flag'])
                else:
                    hyvr.run(arg)
            except BaseException as e:
                o['status'] = 'exc'
                o['exc'] = type(e).__name__
                o['oserror'] = isinstance(e, OSError)
                o['msg'] = str(e)[:500]
                o['tb'] = traceback.format_exc()[-2000:]
                o['keyboard'] = isinstance(e, KeyboardInterrupt)
                del e
            L.sim_disarm()
            if st.get('snapshot_after'):
                o['snapshot'] = snapshot(os.path.join(root, st['snapshot_after']))
            outcomes.append(o)
        res = dict(outcomes[-1])
        if len(outcomes) > 1 or spec.get('steps'):
            res['outcomes'] = outcomes
        now = os.stat('.')
        res['moved'] = (here.st_dev, here.st_ino) != (now.st_dev, now.st_ino)
        res['ops'] = L.sim_ops()
        res['clock'] = L.sim_clock()
        res['collected'] = collected
        if model_box:
            res['model'] = model_box
        if seam:
            res['rng_fired'] = seam.fired
            res['rng_draws'] = seam.draws
        try:
            sys.stdout.flush()
            sys.stderr.flush()
        except Exception:
            pass
    except BaseException as e:
        L.sim_disarm()
        res['status'] = 'harness'
        res['tb'] = traceback.format_exc()[-3000:]
    try:
        data = pickle.dumps(res)
        off = 0
        while off < len(data):
            off += os.write(res_fd, data[off:off + (1 << 20)])
    finally:
        os._exit(0)


def _mem(name):
    return os.memfd_create(name, 0)


def _slurp(fd):
    size = os.lseek(fd, 0, os.SEEK_END)
    os.lseek(fd, 0, os.SEEK_SET)
    b = b''
    while len(b) < size:
        c = os.read(fd, size - len(b))
        if not c:
            break
        b += c
    return b


class Proc:
    """A simulated process."""

    def __init__(self, spec, root, sched=False):
        self.spec = spec
        self.fds = [_mem('log'), _mem('out'), _mem('err'), _mem('res')]
        self.req_r = self.grant_w = -1
        req_w = grant_r = -1
        if sched:
            self.req_r, req_w = os.pipe()
            grant_r, self.grant_w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            if sched:
                os.close(self.req_r)
                os.close(self.grant_w)
            _child(spec, root, tuple(self.fds) + (req_w, grant_r))
            os._exit(99)
        if sched:
            os.close(req_w)
            os.close(grant_r)
            self.buf = b''

    def next_request(self):
        """Blocks until the process asks for its next operation; None if it ended."""
        while b'\n' not in self.buf:
            c = os.read(self.req_r, 4096)
            if not c:
                return None
            self.buf += c
        line, self.buf = self.buf.split(b'\n', 1)
        n, op, path = line.decode('utf-8', 'surrogateescape').split('\t', 2)
        return int(n), op, path

    def grant(self, kill=False):
        os.write(self.grant_w, b'k' if kill else b'g')

    def finish(self):
        _, st = os.waitpid(self.pid, 0)
        log, out, err, res = [_slurp(f) for f in self.fds]
        for f in self.fds:
            os.close(f)
        for f in (self.req_r, self.grant_w):
            if f >= 0:
                os.close(f)
        r = {}
        if res:
            r = pickle.loads(res)
        if r.get('status') == 'harness':
            raise HarnessError(r['tb'])
        if not r:
            if os.WIFSIGNALED(st):
                s = os.WTERMSIG(st)
                r['status'] = {signal.SIGKILL: 'killed', signal.SIGXCPU: 'cpu'}.get(s, 'sig%d' % s)
            else:
                raise HarnessError('child left no result: %r %s' % (st, err[-500:]))
            r.update(exc=None, msg='', tb='')
        r['stdout'] = out.decode('utf-8', 'replace')
        r['stderr'] = err.decode('utf-8', 'replace')
        trace, fired, escapes = [], [], []
        for line in log.decode('utf-8', 'surrogateescape').splitlines():
            f = line.split('\t')
            if f[0] == '!':
                escapes.append((f[2], f[3]))
            elif f[0] == '#':
                fired.append([FKN[int(f[2])], int(f[3]), int(f[4]), f[5]])
            elif f[0] == '@':
                pass
            else:
                trace.append((int(f[0]), f[1], f[2], f[3], int(f[4])))
        r['trace'], r['fired'], r['escapes'] = trace, fired, escapes
        r['ok'] = r['status'] in ('ok', 'exit0')
        return r


STATS = {}


def count(k, n=1):
    STATS[k] = STATS.get(k, 0) + n


def note_run(r, rng=False):
    count('runs')
    count('ops', len(r['trace']))
    for f in r['fired']:
        count('fault:' + f[0] + (':' + os.strerror(f[2]) if f[0] in ('err', 'sticky') else ''))
        count('at:' + f[3])
    count('sim_ns', max(0, r.get('clock', 0) - r['_clock0'] * 10**9) if '_clock0' in r else 0)
    count('outcome:' + r['status'])
    for k, v in r.get('rng_fired', {}).items():
        count('rng:' + k, v)
    count('rng_draws', r.get('rng_draws', 0))


def run(spec, root):
    p = Proc(spec, root)
    r = p.finish()
    r['_clock0'] = spec.get('clock0', 1500000000)
    note_run(r)
    return r


MUTATING = ('creat', 'openw', 'write', 'pwrite', 'truncate', 'mkdir', 'rmdir', 'unlink',
            'rename', 'link', 'symlink', 'chmod', 'chown', 'mknod', 'utimens')


def run_sched(specs, root, chooser, max_steps=200000):
    """Runs several processes, one file system operation at a time.
    chooser(step, pending) -> index or ('k', index) to kill."""
    procs = [Proc(s, root, sched=True) for s in specs]
    pending = {}
    alive = set(range(len(procs)))
    results = [None] * len(procs)
    schedule = []
    events = []
    step = 0

    def refill(i):
        q = procs[i].next_request()
        if q is None:
            alive.discard(i)
            pending.pop(i, None)
            results[i] = procs[i].finish()
        else:
            pending[i] = q
    for i in range(len(procs)):
        refill(i)
    while alive:
        c = chooser(step, dict(pending))
        kill = False
        if isinstance(c, tuple):
            kill, c = True, c[1]
        schedule.append(-c - 1 if kill else c)
        events.append((c, pending[c][1], pending[c][2]))
        procs[c].grant(kill)
        del pending[c]
        refill(c)
        step += 1
        if step > max_steps:
            for i in alive:
                os.kill(procs[i].pid, signal.SIGKILL)
            raise HarnessError('too many steps')
    for r in results:
        r['_clock0'] = 1500000000
        note_run(r)
    return results, schedule, events
