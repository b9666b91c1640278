"""Independent readers of the output formats and canonical forms of trees."""
import configparser
import hashlib
import io
import itertools
import os
import pickle
import re
import xml.etree.ElementTree as ET
import zipfile

import numpy as np


class Unreadable(Exception):
    pass


def read_npz(b):
    with zipfile.ZipFile(io.BytesIO(b)) as z:
        bad = z.testzip()
        if bad:
            raise Unreadable('bad member ' + bad)
    with np.load(io.BytesIO(b), allow_pickle=False) as f:
        return {k: f[k] for k in f.files}


def read_pickle(b):
    f = io.BytesIO(b)
    d = pickle.load(f)
    if not isinstance(d, dict):
        raise Unreadable('not a dictionary')
    return {k: np.asarray(v) for k, v in d.items()}


def read_mat(b):
    import scipy.io as sio
    d = sio.loadmat(io.BytesIO(b))
    return {k: v for k, v in d.items() if not k.startswith('__')}


def read_h5(b):
    import h5py
    with h5py.File(io.BytesIO(b), 'r') as f:
        return {k: f[k][()] for k in f.keys()}


_VT = {'Float64': '<f8', 'Float32': '<f4', 'Int32': '<i4', 'Int64': '<i8', 'UInt8': 'u1',
       'Int8': 'i1', 'Int16': '<i2', 'UInt16': '<u2', 'UInt32': '<u4', 'UInt64': '<u8'}


def read_vtr(b):
    """coords (3 arrays) and cell data (nx, ny, nz) of a raw appended vtr file"""
    i = b.index(b'<AppendedData')
    j = b.index(b'_', i) + 1
    end = b.rindex(b'</AppendedData>')
    rest = b[end:]
    head = b[:i] + rest[len(b'</AppendedData>'):]
    root = ET.fromstring(head.decode('ascii'))
    hs = {'UInt64': 8, 'UInt32': 4}[root.get('header_type', 'UInt32')]
    en = '<' if root.get('byte_order') == 'LittleEndian' else '>'
    piece = root.find('.//Piece')
    e = list(map(int, piece.get('Extent').split()))
    dims = (e[1] - e[0], e[3] - e[2], e[5] - e[4])
    raw = b[j:end]

    def arr(da):
        o = int(da.get('offset'))
        n = int.from_bytes(raw[o:o + hs], 'little' if en == '<' else 'big')
        d = raw[o + hs:o + hs + n]
        if len(d) != n:
            raise Unreadable('truncated data')
        return np.frombuffer(d, dtype=_VT[da.get('type')].replace('<', en))
    coords = [arr(d) for d in piece.find('Coordinates')]
    cells = {}
    for d in piece.find('CellData'):
        a = arr(d)
        if a.size != np.prod(dims):
            raise Unreadable('%s: %d values for %r cells' % (d.get('Name'), a.size, dims))
        cells[d.get('Name')] = a.reshape(dims, order='F')
    for c, n in zip(coords, dims):
        if len(c) != n + 1:
            raise Unreadable('wrong number of coordinates')
    return coords, cells


def read_table(b):
    t = b.decode('ascii')
    if not t.endswith('\n'):
        raise Unreadable('last line incomplete')
    rows = [list(map(float, l.split())) for l in t.splitlines()]
    if len(set(map(len, rows))) > 1:
        raise Unreadable('ragged table')
    return np.array(rows)


_num = re.compile(r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eEdD][-+]?\d+)?')


def read_lpf(b, dims):
    """hk and vani of a MODFLOW-2005 LPF file: list of arrays (nlay, nrow, ncol)"""
    nlay, nrow, ncol = dims
    out = {}
    cur = None
    need = 0
    vals = []
    for line in b.decode('ascii').splitlines():
        if line.startswith('#'):
            continue
        m = re.match(r'\s*(INTERNAL|CONSTANT)\s+(\S+).*?#\s*(\w+?)\s*(?:layer)?\s*(\d+)\s*$', line)
        if m:
            if cur:
                out.setdefault(cur, []).append(np.array(vals[:need]))
                if len(vals) != need:
                    raise Unreadable('lpf: %d values of %d' % (len(vals), need))
            cur, need, vals = m.group(3), nrow * ncol, []
            if m.group(1) == 'CONSTANT':
                vals = [float(m.group(2))] * need
        elif cur:
            vals += [float(x) for x in line.split()]
    if cur:
        if len(vals) != need:
            raise Unreadable('lpf: %d values of %d' % (len(vals), need))
        out.setdefault(cur, []).append(np.array(vals))
    res = {}
    for k, v in out.items():
        if len(v) != nlay:
            raise Unreadable('lpf: %d layers of %s' % (len(v), k))
        res[k] = np.array(v).reshape(dims)
    return res


def read_mf6_grid(b):
    """All arrays of the griddata block of an mf6 package: name -> list of (nvalues)"""
    out, name, mode = {}, None, None
    ingrid = False
    for line in b.decode('ascii').splitlines():
        s = line.split()
        if not s or s[0].startswith('#'):
            continue
        if s[0] == 'BEGIN':
            ingrid = s[1].lower() == 'griddata'
            continue
        if s[0] == 'END':
            ingrid = False
            continue
        if not ingrid:
            continue
        if s[0] in ('CONSTANT', 'INTERNAL'):
            if s[0] == 'CONSTANT':
                out[name].append(['c', float(s[1])])
            else:
                out[name].append(['i'])
        elif re.match(r'^[A-Za-z_]', s[0]):
            name = s[0]
            out[name] = []
        else:
            out[name][-1] += [float(x) for x in s]
    res = {}
    for k, v in out.items():
        res[k] = v
    return res


def mf6_array(v, dims):
    nlay, nrow, ncol = dims
    n = nrow * ncol
    if len(v) == 1 and nlay > 1:
        l = v[0]
        if l[0] == 'c':
            return np.full(dims, l[1])
        return np.array(l[1:]).reshape(dims)
    if len(v) != nlay:
        raise Unreadable('mf6: %d layers of %d' % (len(v), nlay))
    out = []
    for l in v:
        if l[0] == 'c':
            out.append(np.full(n, l[1]))
        else:
            if len(l) - 1 != n:
                raise Unreadable('mf6: %d values of %d' % (len(l) - 1, n))
            out.append(np.array(l[1:]))
    return np.array(out).reshape(dims)


def mf6_dims(b):
    d = dict(re.findall(r'^\s*(NLAY|NROW|NCOL)\s+(\d+)', b.decode('ascii'), re.M | re.I))
    d = {k.upper(): int(v) for k, v in d.items()}
    return d['NLAY'], d['NROW'], d['NCOL']


def dis_dims(b):
    for line in b.decode('ascii').splitlines():
        if not line.startswith('#'):
            f = line.split()
            return int(f[0]), int(f[1]), int(f[2])
    raise Unreadable('empty dis file')


def transforms(shape):
    """all axis permutations and flips"""
    for perm in itertools.permutations(range(3)):
        for fl in itertools.product((1, -1), repeat=3):
            yield perm, fl


def apply_t(a, t):
    perm, fl = t
    return np.transpose(a, perm)[::fl[0], ::fl[1], ::fl[2]]


def read_ini(b):
    p = configparser.RawConfigParser()
    p.read_string(b.decode('utf-8-sig'))
    return {s: dict(p.items(s)) for s in p.sections()}


READERS = {'.npz': read_npz, '.pickle': read_pickle, '.mat': read_mat, '.h5': read_h5}


def digest_arrays(d):
    h = hashlib.sha256()
    for k in sorted(d):
        a = np.ascontiguousarray(d[k])
        h.update(repr((k, a.dtype.str, a.shape)).encode())
        h.update(a.tobytes())
    return h.hexdigest()


_cache = {}


def canon_file(name, b, root=''):
    """A canonical, comparable form of a file, or ('unreadable', why)"""
    ext = os.path.splitext(name)[1]
    key = (ext, root, hashlib.sha256(b).digest())
    if key in _cache:
        return _cache[key]
    try:
        if ext in READERS:
            r = ('arrays', digest_arrays(READERS[ext](b)))
        elif ext == '.vtr':
            c, d = read_vtr(b)
            for i, x in enumerate(c):
                d['__c%d' % i] = x
            r = ('vtr', digest_arrays(d))
        elif ext == '.ini':
            r = ('ini', repr(sorted((s, sorted(o.items())) for s, o in read_ini(b).items())))
        else:
            t = b.decode('utf-8', 'replace')
            if root:
                t = t.replace(root, '@')
            r = ('text', '\n'.join(l for l in t.split('\n') if not l.startswith('#')))
    except Exception as e:
        r = ('unreadable', ('%s: %s' % (type(e).__name__, e))[:200])
    if len(_cache) > 4000:
        _cache.clear()
    _cache[key] = r
    return r


def canon_tree(snap, root=''):
    out = {}
    for p, e in snap.items():
        if e[0] == 'f':
            out[p] = canon_file(p, e[1], root)
        elif e[0] == 'd':
            out[p] = ('d',)
        else:
            out[p] = e
    return out


def canon_diff(ref, got, limit=5):
    """Differences between canonical trees (empty list: equal)"""
    out = []
    for p in sorted(set(ref) | set(got)):
        if p not in got:
            out.append('missing ' + p)
        elif p not in ref:
            out.append('unexpected ' + p)
        elif ref[p] != got[p]:
            why = got[p][1] if got[p][0] == 'unreadable' else 'differs'
            out.append('%s: %s' % (p, why))
        if len(out) >= limit:
            break
    return out
