"""Scenes (where is the parameter file, what lies around) and fault choice."""
import copy
import errno
import hashlib
import json
import os

import core
import gen

E = errno
ERRNOS = dict(
    write=[E.ENOSPC, E.EIO, E.EDQUOT, E.EFBIG], pwrite=[E.ENOSPC, E.EIO, E.EDQUOT, E.EFBIG],
    creat=[E.ENOSPC, E.EACCES, E.EMFILE, E.EIO, E.EROFS, E.EDQUOT], openw=[E.EACCES, E.EMFILE, E.EIO],
    open=[E.EACCES, E.EMFILE, E.EIO], opendir=[E.EACCES, E.EMFILE, E.EIO],
    read=[E.EIO], pread=[E.EIO], close=[E.EIO, E.ENOSPC], truncate=[E.EIO, E.ENOSPC], fsync=[E.EIO],
    mkdir=[E.ENOSPC, E.EACCES, E.EIO, E.EDQUOT, E.EROFS], rmdir=[E.EBUSY, E.EACCES, E.EIO, E.ENOTEMPTY],
    unlink=[E.EBUSY, E.EACCES, E.EIO, E.EPERM, E.EROFS], rename=[E.EIO, E.EACCES, E.ENOSPC, E.EBUSY],
    link=[E.EPERM], symlink=[E.EPERM], chmod=[E.EPERM], chown=[E.EPERM], mknod=[E.EPERM], utimens=[E.EPERM],
    stat=[E.EACCES, E.EIO], lstat=[E.EACCES, E.EIO], fstat=[E.EIO], access=[E.EACCES], readdir=[E.EACCES, E.EIO, E.EMFILE])
SPACE = ('write', 'pwrite', 'creat', 'mkdir', 'truncate')
QUERY = ('stat', 'lstat', 'fstat', 'access')
WEIGHT = dict(rename=3, unlink=3, rmdir=2, mkdir=3, creat=3, write=3, pwrite=2, close=2, open=2, read=2, readdir=2)


def occ(trace, i):
    op, p = trace[i][1], trace[i][2]
    return sum(1 for t in trace[:i] if t[1] == op and t[2] == p)


def pick_fault(rng, trace, kinds, ops=None, after=-1):
    """One fault at a random operation of a fault-free trace, or None.
    The operation kind is chosen first, so that rare operations are hit."""
    byop = {}
    for i, t in enumerate(trace):
        if t[0] > after and (ops is None or t[1] in ops):
            byop.setdefault(t[1], []).append(i)
    if not byop:
        return None
    for _ in range(20):
        kind = rng.choice(kinds)
        if kind == 'sticky':
            ok = [o for o in byop if o in SPACE]
        elif kind == 'short':
            ok = [o for o in byop if o in ('write', 'pwrite', 'read', 'pread')]
        elif kind == 'torn':
            ok = [o for o in byop if o in ('write', 'pwrite')]
        elif kind == 'lostclose':
            ok = [o for o in byop if o == 'close']
        elif kind in ('err', 'eintr'):
            ok = [o for o in byop if (o in ERRNOS if kind == 'err' else o in ('write', 'pwrite', 'read', 'pread'))]
        else:
            ok = list(byop)
        if not ok:
            continue
        ok.sort()
        op = rng.choices(ok, [WEIGHT.get(o, 1) for o in ok])[0]
        idx = byop[op]
        # choose the file first (few bytes of a small file count as much as a big file)
        if rng.random() < 0.6:
            paths = sorted(set(trace[i][2] for i in idx))
            p = rng.choice(paths)
            idx = [i for i in idx if trace[i][2] == p]
        i = rng.choice(idx)
        arg = 0
        k = kind
        if kind == 'err':
            arg = rng.choice(ERRNOS[op])
        elif kind == 'eintr':
            k, arg = 'err', E.EINTR
        elif kind == 'sticky':
            arg = rng.choice([E.ENOSPC, E.EDQUOT, E.EIO])
        elif kind in ('short', 'torn'):
            arg = rng.choice([0, 1, 300, 500, 900, 999])
        elif kind == 'clock':
            arg = rng.choice([-10**9, -86400, -1, 1, 3600, 10**8])
        return [k, trace[i][0], arg, op, trace[i][2], occ(trace, i)]
    return None


def relocate(fault, trace):
    """The same fault in another trace (or None)"""
    if len(fault) < 6:
        return None
    k = 0
    last = None
    for t in trace:
        if t[1] == fault[3] and t[2] == fault[4]:
            last = t
            if k == fault[5]:
                break
            k += 1
    if last is None:
        return None
    return [fault[0], last[0], fault[2], fault[3], fault[4], min(k, fault[5])]


NAMES = ['run', 'my run', 'a.b', 'mod\u00e9le', 'x_parameters', 'R2-d2', 'a[1]', '~run', "q'uote", 'run.tmp']


def place(rng, cfg, kinds=None, simple=False):
    """Chooses where the parameter file lies; returns a scene dict."""
    kinds = kinds or ['plain', 'plain', 'named', 'modeldir', 'deep', 'reldir']
    kind = rng.choice(kinds)
    name = 'run' if simple or rng.random() < 0.4 else rng.choice(NAMES)
    if any(o in gen.get(cfg, 'run')['outputs'] for o in ('mf', 'mf6')):
        name = rng.choice(['run', 'R2'])
    run = gen.get(cfg, 'run')
    cwd = rng.choice(['w', 'cwd'])
    ini = 'w/%s.ini' % name
    if kind == 'plain':
        rundir = 'w/' + name
    elif kind == 'named':
        run['runname'] = name
        ini = 'w/setup.ini'
        rundir = 'w/' + name
    elif kind == 'modeldir':
        run['modeldir'] = '@ROOT@/models'
        rundir = 'models/' + name
    elif kind == 'deep':
        run['modeldir'] = '@ROOT@/new/deep er/dir'
        rundir = 'new/deep er/dir/' + name
    elif kind == 'reldir':
        run['modeldir'] = 'some/rel'
        rundir = cwd + '/some/rel/' + name
    elif kind == 'backup':
        ini = 'w/%s/%s_autogenerated_backup.ini' % (name, name)
        rundir = 'w/' + name
    elif kind == 'inside':
        run['modeldir'] = '@ROOT@/w'
        run['runname'] = name
        ini = 'w/%s/setup.ini' % name
        rundir = 'w/' + name
    return dict(cfg=cfg, kind=kind, name=name, ini=ini, rundir=rundir, cwd=cwd,
                how=rng.choice(['abs', 'abs', 'rel', 'path']))


def ini_text(sc, root):
    t = sc.get('text')
    if t is None:
        t = gen.to_ini(sc['cfg'], sc.get('comment', ''))
    if sc.get('bom'):
        t = '\ufeff' + t
    return t.replace('@ROOT@', root)


BASE = [['d', 'home'], ['d', 'tmp'], ['d', 'w'], ['d', 'cwd'], ['d', 'models'],
        ['f', 'w/other.txt', 'do not touch'], ['f', 'cwd/notes', 'keep'], ['f', 'models/.hidden', 'x'],
        ['d', 'w/neighbour'], ['f', 'w/neighbour/data.npz', 'precious'], ['d', 'outside/sub'],
        ['f', 'outside/sub/deep', 'precious too'], ['f', 'outside/file', 'precious as well']]


def build(root, sc, old=()):
    """Creates the scene; old: entries below the run directory"""
    core.wipe(root)
    os.makedirs(root)
    core.build_tree(root, BASE)
    if old is not None:
        ents = []
        for e in old:
            e = list(e)
            e[1] = os.path.join(sc['rundir'], e[1]) if e[1] else sc['rundir']
            ents.append(e)
        core.build_tree(root, ents)
    if sc.get('ini') and not sc.get('noini'):
        p = os.path.join(root, sc['ini'])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(ini_text(sc, root).encode('utf-8', 'surrogateescape'))


def old_content(rng, sc, kind=None, special=True):
    """Random entries of an existing run directory (first entry: the directory)"""
    n = sc['name']
    res = [['d', '']]
    pool = [
        ['f', n + '.npz', 'old result'], ['f', n + '.pickle', ''], ['f', n + '.h5', 'old'],
        ['f', n + '_autogenerated_backup.ini', '[run]\n'], ['f', n + '_autogenerated_backup.ini.tmp', '[ru'],
        ['f', 'real_001/' + n + '.npz', 'old'], ['f', 'real_007/' + n + '.mat', 'old'], ['d', 'real_002'],
        ['f', 'MODFLOW/' + n + '.lpf', 'x'], ['f', 'MODFLOW/deeper/er/x', 'x'], ['f', 'HGS/porosity.txt', '1'],
        ['f', '.hidden', 'h'], ['d', '.cache/x'], ['f', 'notes with blank.txt', 'n'], ['d', 'empty'],
        ['f', 'setup.ini.bak', '[run]'], ['f', 'z' * 60, ''], ['f', 'mf6/sim.nam', 'x'],
        ['f', '\u00fcml\u00e4ut', 'u'], ['f', 'other.ini', '[run]\nnumsim = 3\n'], ['f', '[a]*?', 'g'], ['d', '~/-rf'],
        ['f', 'new\nline', 'n'], ['f', '\udcff\udcfe', 'not utf-8'], ['f', n, 'same name'], ['d', 'a/b/c/d/e/f/g'],
    ]
    spec = [['l', 'lnk_out', '@/outside/file'], ['l', 'lnk_dir', '@/outside/sub'], ['l', 'dangling', '@/nowhere'],
            ['l', 'selfdir', '.'], ['l', 'lnk_rel', '../other.txt'], ['p', 'fifo'], ['l', 'sub/lnk', '@/outside/sub'],
            ['l', 'lnk_ini', '@/' + sc['ini']]]
    k = rng.choice([0, 1, 2, 4, 8])
    res += rng.sample(pool, min(k, len(pool)))
    if special and rng.random() < 0.6:
        res += rng.sample(spec, rng.randint(1, 4))
    if rng.random() < 0.2:
        res.append(['d', 'ro', None, 0o555])
        res.append(['f', 'ro2/file', 'x', 0o444])
    # never over the parameter file itself
    ini = os.path.relpath(sc['ini'], sc['rundir'])
    return [e for e in res if e[1] != ini]


def digest(obj):
    return hashlib.sha256(json.dumps(obj, sort_keys=True, default=str).encode()).hexdigest()[:16]
