"""
Executable reference model of the geometry: what the arrays of a realisation
have to look like, given the parameter file and the generated structures.
"""
import math

import numpy as np

import gen

EPS = 1e-9


# ------------------------------------------------------------ parameter file
def grid_of(cfg):
    m = gen.get(cfg, 'model')
    d = (m['dx'], m.get('dy') or m['dx'], m.get('dz') or m['dx'])
    l = (m['lx'], m['ly'], m['lz'])
    o = (m.get('x0', 0.0), m.get('y0', 0.0), m.get('z0', 0.0))
    n = tuple(int(round(a / b)) for a, b in zip(l, d))
    c = [np.array([o[k] + (i + 0.5) * d[k] for i in range(n[k])]) for k in range(3)]
    return n, c, o, l, d


def info_of(cfg):
    s = gen.get(cfg, 'strata')
    h = gen.get(cfg, 'hydraulics')
    fi = {f: i for i, f in enumerate(h['hydrofacies'])}
    n = grid_of(cfg)[0]
    strata = []
    for k in range(len(s['strata']) - 1, -1, -1):       # from top to bottom
        strata.append(dict(name=s['strata'][k], ae=list(s['ae_in_strata'][k]), bg=fi[s['bg_facies'][k]],
                           azim=s['bg_azim'][k], dip=s['bg_dip'][k],
                           contact=s['strata_contact_models'][k - 1] if k > 0 else None))
    els = {}
    for sec, d in cfg:
        if 'geometry' in d:
            st = 'massive' if d['structure'] == 'flat' else d['structure']
            els[sec] = dict(geometry=d['geometry'], structure=st, facies={fi[f] for f in d['facies']},
                            alt={fi[f] for l in d.get('altfacies') or () for f in l},
                            lag=fi[d['lag_facies']] if d.get('lag_height') else None,
                            bg=fi[d['bg_facies']] if d.get('bg_facies') else None,
                            azim=d.get('bg_azim'), dip=d.get('bg_dip'))
    return dict(n=n, strata=strata, ae=list(s['ae']), el=els, fi=fi, hyd=h)


def allowed_facies(I, s, t):
    e = I['el'][I['ae'][t]]
    f = set(e['facies'])
    if e['structure'] in ('dip', 'bulb_sets', 'random'):
        f |= e['alt']
    if e['geometry'] != 'sheet':
        if e['lag'] is not None:
            f.add(e['lag'])
        f.add(e['bg'] if e['bg'] is not None else I['strata'][s]['bg'])
    return f


# ------------------------------------------------------- generated structures
def collector(model):
    """Runs in the simulated process: plain data about the generated structures."""
    def surf(s):
        return np.array(s.surface, dtype=float)

    def level(s, k):
        z = getattr(s, k, None)
        return None if z is None else float(z)

    out = dict(strata=[], grid=[np.array(g, dtype=float) for g in (model.grid.x, model.grid.y, model.grid.z)])
    for st in model.strata:
        S = dict(top=surf(st.top_surface), bottom=surf(st.bottom_surface), aes=[])
        for ae in st.aes:
            A = dict(type=ae.type_name, top=surf(ae.top_surface), bottom=surf(ae.bottom_surface), objects=[])
            A['levels'] = {w + k: level(getattr(ae, w + '_surface'), k) for w in ('top', 'bottom') for k in ('zmean', 'zmin', 'zmax')}
            geo = ae.type_params['geometry']
            A['geometry'] = geo
            for o in ae.object_list:
                d = dict(azim=float(getattr(o, 'azim', 0.0)), dip=float(o.dip), shift=float(o.shift), layer_dist=float(o.layer_dist),
                         facies=int(o.facies), fa=None if o.facies_array is None else [int(x) for x in o.facies_array])
                if geo == 'trough':
                    for k in ('x', 'y', 'z', 'a', 'b', 'c', 'alpha', 'lag', 'normvec_x', 'normvec_y', 'normvec_z'):
                        d[k] = float(getattr(o, k))
                    d['lag_facies'] = int(o.lag_facies)
                    d['structure'] = int(o.structure)
                elif geo == 'channel':
                    for k in ('x_center', 'y_center', 'vx', 'vy'):
                        d[k] = np.array(getattr(o, k), dtype=float)
                    for k in ('ztop', 'width', 'depth', 'lag_height'):
                        d[k] = float(getattr(o, k))
                    d['lag_facies'] = int(o.lag_facies)
                    d['dipsets'] = bool(o.dipsets)
                    d['zero'] = int(o.zero_idx)
                else:
                    d['top'], d['bottom'] = surf(o.top_surface), surf(o.bottom_surface)
                    d['dipsets'] = bool(o.dipsets)
                    for k in ('normvec_x', 'normvec_y', 'normvec_z'):
                        d[k] = float(getattr(o, k))
                A['objects'].append(d)
            S['aes'].append(A)
        out['strata'].append(S)
    return out


def trunc(q):
    return {int(q - EPS), int(q + EPS), int(q)}


def pick(fa, idx):
    """facies at any of the possible indices (None: outside of the list)"""
    return {fa[i] if 0 <= i < len(fa) else None for i in idx}


NO, YES, MAYBE = 0, 1, 2


def test(v, scale=1.0):
    """v > 0: inside"""
    e = EPS * max(1.0, abs(scale))
    return YES if v > e else NO if v < -e else MAYBE


class Ref:
    def __init__(self, cfg, m):
        self.I = info_of(cfg)
        self.m = m
        self.n, self.c, self.o, self.l, self.d = grid_of(cfg)
        self.periodic = bool(gen.get(cfg, 'model').get('periodic'))
        self.cache = {}

    # -- geometrical objects: (answer, facies set, azim, dip); azim None: not judged
    def trough(self, o, x, y, z):
        dx, dy, dz = x - o['x'], y - o['y'], z - o['z']
        if self.periodic:
            lx, ly = self.l[0], self.l[1]
            if abs(abs(dx) - lx / 2) < EPS or abs(abs(dy) - ly / 2) < EPS:
                # either image
                return None
            dx -= lx * round(dx / lx) if abs(dx) <= lx else math.copysign(lx, dx)
            dy -= ly * round(dy / ly) if abs(dy) <= ly else math.copysign(ly, dy)
        if z > o['z']:
            return NO, None, 0, 0
        al = math.radians(o['alpha'])
        ca, sa = math.cos(al), math.sin(al)
        u, v, w = (dx * ca + dy * sa) / o['a'], (dy * ca - dx * sa) / o['b'], dz / o['c']
        l2 = u * u + v * v + w * w
        ans = test(1 - l2)
        if ans == NO:
            return NO, None, 0, 0
        zl = o['z'] - o['c'] + o['lag']
        if o['lag'] and abs(z - zl) < EPS:
            return None
        if z < zl and o['lag']:
            return ans, {o['lag_facies']}, 0.0, 0.0
        st = o['structure']
        if st == 0:
            return ans, {o['facies']}, o['azim'], o['dip']
        if st == 1:
            q = (dx * o['normvec_x'] + dy * o['normvec_y'] + dz * o['normvec_z'] + o['shift']) / o['layer_dist']
            return ans, pick(o['fa'], [i + len(o['fa']) // 2 for i in trunc(q)]), o['azim'], o['dip']
        ga, gb, gc = u / o['a'], v / o['b'], w / o['c']
        ln = math.sqrt(ga * ga + gb * gb + gc * gc)
        azim = dip = 0.0
        if ln > 0:
            nx, ny, nz = (ga * ca + gb * sa) / ln, (gb * ca - ga * sa) / ln, gc / ln
            if abs(nx) < 1e-7 or (abs(nz) < 1e-9 and nz != 0):
                azim = None         # orientation is ambiguous there
            else:
                s = math.copysign(1, nx) * (math.copysign(1, nz) if nz != 0 else 1)
                dip = -math.degrees(math.acos(min(1.0, abs(nz)))) * s
                azim = -math.degrees(math.atan(ny / nx))
        if azim is not None:
            if dip > o['dip']:
                dip = o['dip']
            elif dip < -o['dip']:
                dip = -o['dip']
        if st == 2:
            return ans, {o['facies']}, azim, dip
        q = (math.sqrt(l2) + o['shift']) * o['c'] / o['layer_dist']
        return ans, pick(o['fa'], {math.ceil(q - EPS), math.ceil(q + EPS)}), azim, dip

    def channel(self, o, x, y, z, key):
        if z > o['ztop'] or len(o['x_center']) == 0:
            return NO, None, 0, 0
        if key not in self.cache:
            d2 = (x - o['x_center'])**2 + (y - o['y_center'])**2
            self.cache[key] = d2, float(np.sqrt(d2.min()))
        d2, dist = self.cache[key]
        a = 4 * o['depth'] / o['width']**2
        dz = z - o['ztop']
        ans = test(dz - (a * dist**2 - o['depth']), o['depth'])
        if ans == NO:
            return NO, None, 0, 0
        zl = o['ztop'] - o['depth'] + o['lag_height']
        if o['lag_height'] and abs(z - zl) < EPS:
            return None
        if z < zl and o['lag_height']:
            return ans, {o['lag_facies']}, 0.0, 0.0
        if not o['dipsets']:
            return ans, {o['facies']}, o['azim'], o['dip']
        w = 1 / (np.sqrt(d2) + 1e-20)
        vx, vy = float(np.dot(o['vx'], w)), float(np.dot(o['vy'], w))
        azim = math.degrees(math.atan2(vy, vx)) if math.hypot(vx, vy) > 1e-6 * float(w.sum()) * 1e-3 else None
        along = np.concatenate([[0.0], np.cumsum(np.hypot(np.diff(o['x_center']), np.diff(o['y_center'])))])
        sd, cd = math.sin(math.radians(o['dip'])), math.cos(math.radians(o['dip']))
        idx = set()
        for i in np.flatnonzero(d2 <= d2.min() + 1e-12):
            q = (along[i] * sd + dz * cd + o['shift']) / o['layer_dist']
            idx |= {math.floor(q - 1e-7), math.floor(q + 1e-7)}
        return ans, pick(o['fa'], [i + o['zero'] for i in idx]), azim, o['dip']

    def sheet(self, o, x, y, z, ix, iy):
        if not o['bottom'][ix, iy] <= z <= o['top'][ix, iy]:
            return NO, None, 0, 0
        if not o['dipsets']:
            return YES, {o['facies']}, o['azim'], o['dip']
        q = (o['normvec_x'] * x + o['normvec_y'] * y + o['normvec_z'] * z - o['shift']) / o['layer_dist']
        return YES, pick(o['fa'], [i + len(o['fa']) // 2 for i in trunc(q)]), o['azim'], o['dip']

    # -- elements
    def element(self, si, ai, ix, iy, x, y, z):
        """possible records, and whether the cell may lie outside of the element;
        None: not judged"""
        A = self.m['strata'][si]['aes'][ai]
        recs = []
        for oi, o in enumerate(A['objects']):
            if A['geometry'] == 'trough':
                r = self.trough(o, x, y, z)
            elif A['geometry'] == 'channel':
                r = self.channel(o, x, y, z, (si, ai, oi, ix, iy))
            else:
                r = self.sheet(o, x, y, z, ix, iy)
            if r is None:
                return None
            if r[0] != NO:
                recs.append((si, ai, True, r[1], r[2], r[3], 'object %d' % oi))
                if r[0] == YES:
                    return recs, False
        if A['geometry'] != 'sheet' and A['bottom'][ix, iy] <= z <= A['top'][ix, iy]:
            e, s = self.I['el'][A['type']], self.I['strata'][si]
            recs.append((si, ai, False, {e['bg'] if e['bg'] is not None else s['bg']},
                         e['azim'] if e['azim'] is not None else s['azim'],
                         e['dip'] if e['dip'] is not None else s['dip'], 'background'))
            return recs, False
        return recs, True

    def cell(self, cur, ix, iy, x, y, z):
        """all possible records from the cursor (stratum, element) on"""
        out = []
        si, ai = cur
        while si < len(self.m['strata']):
            while ai < len(self.m['strata'][si]['aes']):
                r = self.element(si, ai, ix, iy, x, y, z)
                if r is None:
                    return None
                out += r[0]
                if not r[1]:
                    return out
                ai += 1
            si += 1
            ai = 0
        return out


def close(a, b):
    return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b)) or abs(abs(a - b) - 360) < 1e-6


def compare_cells(cfg, a, m, owners=None):
    """owners: filled with (stratum, element, object) -> numbers in array ha of the cells that surely belong to it"""
    R = Ref(cfg, m)
    I = R.I
    num = {}
    for si, s in enumerate(m['strata']):
        for ai in range(len(s['aes'])):
            num[si, ai] = len(num)
    back = {v: k for k, v in num.items()}
    g = m['grid']
    for k in range(3):
        if len(g[k]) != R.n[k] or np.any(np.abs(g[k] - R.c[k]) > 1e-9 * (1 + abs(R.o[k]) + R.l[k])):
            return [('grid', 'cell centres along axis %d are %s..., the parameter file gives %s...' % (k, list(g[k][:3]), list(R.c[k][:3])))]
    for ix in range(R.n[0]):
        for iy in range(R.n[1]):
            cursors = {(0, 0)}
            for iz in range(R.n[2] - 1, -1, -1):
                x, y, z = g[0][ix], g[1][iy], g[2][iz]
                recs = []
                unknown = False
                for cur in sorted(cursors):
                    r = R.cell(cur, ix, iy, x, y, z)
                    if r is None:
                        unknown = True
                        break
                    recs += r
                idx = (ix, iy, iz)
                s, e, t, f, h = (int(a[k][idx]) for k in ('strata', 'ae', 'hat', 'facies', 'ha'))
                if unknown:     # exactly on an edge: follow the code
                    cursors = {back[e]} if e in back else cursors
                    continue
                if not recs:    # outside of all structures (C13, C15)
                    continue
                match = []
                for q in recs:
                    A = m['strata'][q[0]]['aes'][q[1]]
                    if (s, e) != (q[0], num[q[0], q[1]]) or t != I['ae'].index(A['type']):
                        continue
                    if None not in q[3] and f not in q[3]:
                        continue
                    if (h >= 0) != q[2]:
                        continue
                    if q[4] is not None and not (close(float(a['azim'][idx]), q[4]) and close(float(a['dip'][idx]), q[5])):
                        continue
                    match.append(q)
                if not match:
                    q = recs[0]
                    A = m['strata'][q[0]]['aes'][q[1]]
                    return [('cell', 'cell %s (%.6g, %.6g, %.6g): stratum %d element %d type %d facies %d ha %d azim %.6g dip %.6g, but it lies in '
                             'stratum %d element %d (%s, %s) %s: facies %s azim %s dip %.6g' % (
                                 idx, x, y, z, s, e, t, f, h, a['azim'][idx], a['dip'][idx], q[0], num[q[0], q[1]], A['type'], A['geometry'], q[6],
                                 sorted(q[3], key=str), q[4], q[5]))]
                cursors = {(q[0], q[1]) for q in match}
                if owners is not None and len(recs) == 1 and match[0][2]:
                    owners.setdefault((match[0][0], match[0][1], match[0][6]), set()).add(h)
    return []


# ------------------------------------------------------------------ stacking
def columns(cfg, a):
    """black box: order of strata and elements in each column"""
    I = info_of(cfg)
    n, c, o, l, d = grid_of(cfg)
    for k in ('strata', 'ae'):
        x = a[k].astype(int)
        up = np.argwhere(x[:, :, :-1] < x[:, :, 1:])      # index must not grow upwards
        if len(up):
            ix, iy, iz = up[0]
            return [('order', '%s index of column (%d, %d) is %d at level %d but %d above it' % (
                k, ix, iy, x[ix, iy, iz], iz, x[ix, iy, iz + 1]))]
    # flat contacts decide the stratum, unless objects of strata above reach down
    bottoms = []
    top = o[2] + l[2]
    for s in I['strata']:
        if s['contact'] is None:
            b = o[2]
        elif s['contact'][0].lower() == 'flat':
            b = s['contact'][1]
        else:
            bottoms.append(None)
            break
        top = min(top, b)
        bottoms.append(top)
    for iz, z in enumerate(c[2]):
        lo = hi = None
        sheets = True
        for si, b in enumerate(bottoms):
            if b is None:
                break
            if b <= z + EPS and lo is None:
                lo = si         # if rounding makes the cell lie above the contact
            if b <= z - EPS:
                hi = si
                break
            if any(I['el'][e]['geometry'] != 'sheet' for e in I['strata'][si]['ae']):
                sheets = False
        if lo is None and hi is None:
            continue
        x = a['strata'][:, :, iz].astype(int)
        if hi is not None and x.max() > hi:
            return [('stratum', 'cells at z = %.6g are in stratum %d (from the top), the contacts put them into stratum %d' % (z, x.max(), hi))]
        if sheets and lo is not None and x.min() < lo:
            return [('stratum', 'cells at z = %.6g are in stratum %d (from the top), above the contact; they belong to stratum %d' % (z, x.min(), lo))]
    return []


def surfaces(cfg, m):
    n, c, o, l, d = grid_of(cfg)
    t = 1e-9 * max(1.0, abs(o[2]) + l[2])
    v = []

    def same(a, b):
        return np.all(np.abs(a - b) <= t)

    def where(mask):
        i = np.argwhere(mask)[0]
        return 'column (%d, %d)' % tuple(i)
    I = info_of(cfg)
    if len(m['strata']) != len(I['strata']):
        return [('strata', '%d strata generated, %d given' % (len(m['strata']), len(I['strata'])))]
    top = np.full(n[:2], o[2] + l[2])
    for si, s in enumerate(m['strata']):
        name = 'stratum %d' % si
        if not same(s['top'], top):
            v.append(('gap', 'top of %s is not the bottom of what lies above it (%s)' % (name, where(np.abs(s['top'] - top) > t))))
        if np.any(s['bottom'] > s['top'] + t):
            v.append(('crossing', 'bottom of %s is above its top (%s)' % (name, where(s['bottom'] > s['top'] + t))))
        con = I['strata'][si]['contact']
        if con is None:
            if not same(s['bottom'], np.minimum(top, o[2])):
                v.append(('bottom', 'the lowest stratum does not end at the bottom of the domain'))
        elif con[0].lower() == 'flat' and not same(s['bottom'], np.minimum(top, con[1])):
            v.append(('contact', 'bottom of %s is not where the flat contact %r is' % (name, con)))
        at = s['top']
        if not s['aes'] and np.any(s['top'] > s['bottom'] + t):
            v.append(('empty', '%s has no elements' % name))
        for ai, e in enumerate(s['aes']):
            en = '%s element %d (%s)' % (name, ai, e['type'])
            if not same(e['top'], at):
                v.append(('gap', 'top of %s is not the bottom of the element above (%s)' % (en, where(np.abs(e['top'] - at) > t))))
            if np.any(e['bottom'] > e['top'] + t):
                v.append(('crossing', 'bottom of %s is above its top (%s)' % (en, where(e['bottom'] > e['top'] + t))))
            if np.any(e['bottom'] < s['bottom'] - t):
                v.append(('outside', 'bottom of %s is below the bottom of its stratum (%s)' % (en, where(e['bottom'] < s['bottom'] - t))))
            if e['type'] not in I['strata'][si]['ae']:
                v.append(('type', '%s is not allowed in this stratum' % en))
            if e['geometry'] == 'sheet':
                st = e['top']
                for oi, ob in enumerate(e['objects']):
                    if not same(ob['top'], st):
                        v.append(('gap', 'top of sheet %d of %s is not the bottom of the one above' % (oi, en)))
                    if np.any(ob['bottom'] > ob['top'] + t):
                        v.append(('crossing', 'bottom of sheet %d of %s is above its top' % (oi, en)))
                    st = ob['bottom']
                if not e['objects'] or not same(st, e['bottom']):
                    v.append(('gap', 'the sheets of %s do not reach its bottom' % en))
            at = e['bottom']
        if s['aes'] and not same(at, s['bottom']):
            v.append(('gap', 'the elements of %s do not reach its bottom (%s)' % (name, where(np.abs(at - s['bottom']) > t))))
        top = s['bottom']
        if v:
            break
    return v


# --------------------------------------------------- objects as asked for
def conform(cfg, m, plain):
    """the generated structures against the options of their elements
    plain: the numbers of troughs were not replaced by extreme ones"""
    n, c, o, l, d = grid_of(cfg)
    I = info_of(cfg)
    S = gen.get(cfg, 'strata')
    z0, zmax = o[2], o[2] + l[2]
    scale = max(1.0, max(abs(q) for q in o) + max(l))
    t = 1e-9 * scale
    periodic = bool(gen.get(cfg, 'model').get('periodic'))
    v = []
    full = [0.0, 0.0]       # troughs expected, found

    def bad(cls, msg):
        if len(v) < 3:
            v.append((cls, msg))

    def within(x, r):
        a, b = sorted(r)
        return a - 1e-9 * max(1, abs(a)) <= x <= b + 1e-9 * max(1, abs(b))

    def eq(x, y):
        return abs(x - y) <= 1e-9 * max(1e-3, abs(x), abs(y))

    def factor(tr, z):
        if tr is None:
            return 1.0
        q = min(1.0, max(0.0, (z - z0) / l[2]))
        return tr[0] + (tr[1] - tr[0]) * q

    def layers(fa, E, name):
        fs = [I['fi'][f] for f in E['facies']]
        alt = E.get('altfacies')
        if fa[0] not in fs:
            return bad('facies', '%s starts its layers with facies %d, not one of %s' % (name, fa[0], fs))
        for p, q in zip(fa, fa[1:]):
            ok = fs
            if alt:
                if p not in fs:
                    return
                ok = [I['fi'][f] for f in alt[fs.index(p)]]
            if q not in ok:
                return bad('alternation', '%s: facies %d follows facies %d, allowed: %s' % (name, q, p, ok))

    def bedding(ob, E, name, az):
        if not within(ob['dip'], E.get('dip') or [0, 0]):
            bad('dip', '%s has dip %r, range %r' % (name, ob['dip'], E.get('dip') or [0, 0]))
        if az is not None and not within(az, E.get('azimuth') or [0, 0]):
            bad('azimuth', '%s has azimuth %r, range %r' % (name, az, E.get('azimuth') or [0, 0]))

    def plane(ob, name):
        # as in the documented rotation matrix of the conductivity tensor
        a, q = math.radians(ob['azim']), math.radians(ob['dip'])
        want = (math.sin(q) * math.cos(a), -math.sin(q) * math.sin(a), math.cos(q))
        if any(abs(ob['normvec_' + k] - w) > 1e-9 for k, w in zip('xyz', want)):
            bad('bedding', '%s with azimuth %r and dip %r has layers normal to (%r, %r, %r)' % (
                name, ob['azim'], ob['dip'], ob['normvec_x'], ob['normvec_y'], ob['normvec_z']))

    def const(s):
        return np.all(s == s.flat[0])

    def trough(A, E, name):
        for oi, ob in enumerate(A['objects']):
            nm = '%s, trough %d' % (name, oi)
            if z0 - t <= ob['z'] <= zmax + t:
                f = factor(E.get('size_ztrend'), ob['z'])
                for k, w in (('a', E['length'] / 2), ('b', E['width'] / 2), ('c', E['depth'])):
                    if not eq(ob[k], w * f):
                        bad('size', '%s at z = %r: %s is %r, asked for %r' % (nm, ob['z'], dict(a='half length', b='half width', c='depth')[k], ob[k], w * f))
            if not within(ob['alpha'], E['paleoflow']):
                bad('paleoflow', '%s is turned by %r, range %r' % (nm, ob['alpha'], E['paleoflow']))
            want = dict(massive=[0], flat=[0], dip=[1], bulb=[2], bulb_sets=[3], random=[0, 1, 2, 3])[E['structure']]
            st = ob['structure']
            if st not in want:
                bad('structure', '%s has structure %d, asked for %s' % (nm, st, E['structure']))
                continue
            bedding(ob, E, nm, ob['azim'] - ob['alpha'] if st < 2 else None)
            if st in (0, 2):
                if ob['facies'] not in [I['fi'][f] for f in E['facies']]:
                    bad('facies', '%s has facies %d' % (nm, ob['facies']))
            else:
                layers(ob['fa'], E, nm)
                w = E['dipset_dist'] if st == 1 else E['bulbset_dist']
                if not eq(ob['layer_dist'], w):
                    bad('layers', '%s has layers %r apart, asked for %r' % (nm, ob['layer_dist'], w))
                if st == 1:
                    plane(ob, nm)
            lag(ob['lag'], ob['lag_facies'], E, nm)
        zs = [ob['z'] for ob in A['objects']]
        if any(p < q for p, q in zip(zs, zs[1:])):
            bad('order', '%s: troughs are not ordered from top to bottom' % name)
        pos = [(ob['x'], ob['y'], ob['z']) for ob in A['objects']]
        if E.get('te_xyz'):
            want = sorted(tuple(float(q) for q in p) for p in E['te_xyz'])
            if len(want) != len(pos) or any(abs(p - q) > t for x, y in zip(sorted(pos), want) for p, q in zip(x, y)):
                bad('positions', '%s: troughs at %s, asked for %s' % (name, sorted(pos)[:4], want[:4]))
            return
        top, low = A['levels']['topzmean'], A['levels']['bottomzmax']
        if top is None or low is None or not E['agg'] > 0:
            return
        low += E['depth'] * E.get('buffer', 0.0)
        lev = []
        for oi, p in enumerate(pos):
            k = (top - p[2]) / E['agg']
            lev.append(round(k))
            if abs(k - round(k)) * E['agg'] > 1e-7 * scale or k < -1e-6:
                return bad('elevation', '%s, trough %d at z = %r: elevations start at %r and are %r apart' % (name, oi, p[2], top, E['agg']))
            if p[2] < low - t:
                return bad('elevation', '%s, trough %d at z = %r is below the lowest elevation %r' % (name, oi, p[2], low))
            if (lev[-1] == 0 or not E.get('migrate')) and not all(o[i] - t <= p[i] <= o[i] + l[i] + t for i in (0, 1)):
                return bad('positions', '%s, trough %d at %s is outside of the domain' % (name, oi, p[:2]))
        np_ = (top - low) / E['agg']
        planes = max(0, math.ceil(np_ - 1e-9))
        edge = abs(np_ - round(np_)) < 1e-6
        cnt = [lev.count(k) for k in range(planes)]
        if E.get('migrate') and planes:
            if any(q != cnt[0] for q in cnt[:-1]) or (not edge and cnt[-1] != cnt[0]):
                return bad('migration', '%s: numbers of troughs on consecutive elevations: %s' % (name, cnt))
            g = E['migrate']
            for k in range(1, planes):
                for i in range(cnt[0] if cnt[k] else 0):
                    p, q = pos[(k - 1) * cnt[0] + i], pos[k * cnt[0] + i]
                    for ax in (0, 1):
                        s = max(g[2 * ax + 1], math.sqrt(g[2 * ax + 1]))
                        if abs(q[ax] - p[ax] - g[2 * ax]) > 12 * s + t:
                            return bad('migration', '%s: trough %d moves by %r along axis %d, mean %r and variance %r given' % (
                                name, k * cnt[0] + i, q[ax] - p[ax], ax, g[2 * ax], g[2 * ax + 1]))
        elif plain:
            sure = max(0, round(np_)) if edge else planes      # rounding decides about the last one
            full[0] += E['trough_density'] * l[0] * l[1] * sure
            full[1] += sum(1 for k in lev if k < sure)

    def lag(h, f, E, name):
        if not eq(h, E.get('lag_height') or 0.0):
            bad('lag', '%s has a lag of height %r, asked for %r' % (name, h, E.get('lag_height') or 0.0))
        elif h and f != I['fi'][E['lag_facies']]:
            bad('lag', '%s has lag facies %d, asked for %s' % (name, f, E['lag_facies']))

    def channel(A, E, name):
        nch = E['channel_no']
        tr = E.get('size_ztrend')
        fl = math.radians(E.get('flow_angle') or 0.0)
        u = (math.cos(fl), math.sin(fl))
        dw = abs(l[0] * u[1]) + abs(l[1] * u[0])
        dl = abs(l[0] * u[0]) + abs(l[1] * u[1])
        mid = (o[0] + l[0] / 2, o[1] + l[1] / 2)
        mig = E.get('mig') or 0.0
        last = {}
        for oi, ob in enumerate(A['objects']):
            nm = '%s, channel %d' % (name, oi)
            f = factor(tr, ob['ztop'])
            for k in ('width', 'depth'):
                if not eq(ob[k], E[k] * f):
                    bad('size', '%s at z = %r: %s is %r, asked for %r' % (nm, ob['ztop'], k, ob[k], E[k] * f))
            bedding(ob, E, nm, None)
            lag(ob['lag_height'], ob['lag_facies'], E, nm)
            if ob['dipsets'] != (E['structure'] == 'dip'):
                bad('structure', '%s: asked for %s' % (nm, E['structure']))
            elif ob['dipsets']:
                layers(ob['fa'], E, nm)
                if not eq(ob['layer_dist'], E['dipset_dist']):
                    bad('layers', '%s has layers %r apart, asked for %r' % (nm, ob['layer_dist'], E['dipset_dist']))
            elif ob['facies'] not in [I['fi'][f] for f in E['facies']]:
                bad('facies', '%s has facies %d' % (nm, ob['facies']))
            if len(ob['x_center']) > 1:
                # the velocity points along the centre line (steps next to points that were left out do not count)
                sx, sy = np.diff(ob['x_center']), np.diff(ob['y_center'])
                q = np.hypot(sx, sy)
                near = (q > 0) & (q < 1.5 * np.median(q))
                r = np.hypot(ob['vx'], ob['vy'])[:-1]
                if near.sum() > 3 and np.all(r > 0):
                    off = np.hypot(sx / np.maximum(q, 1e-300) - ob['vx'][:-1] / r, sy / np.maximum(q, 1e-300) - ob['vy'][:-1] / r)[near]
                    if np.mean(off > 1e-5 * max(1.0, scale / np.median(q) * 1e-6)) > 0.3:
                        bad('velocity', '%s: velocity and centre line point in different directions' % nm)
            if E['eps_factor'] == 0 and len(ob['x_center']):
                # without fluctuations the centre line is straight
                px, py = ob['x_center'] - mid[0], ob['y_center'] - mid[1]
                off = py * u[0] - px * u[1]
                along = px * u[0] + py * u[1]
                big = 1e-6 * (scale + float(np.abs(along).max()))
                if np.ptp(off) > big or np.any(np.diff(along) < -big):
                    bad('direction', '%s does not run straight at %r degrees' % (nm, E.get('flow_angle') or 0.0))
                    continue
                off = float(off[0])
                ci = oi % nch
                if ci not in last and abs(off) > dw / 2 + (oi // nch) * mig + big:
                    bad('position', '%s passes the centre of the domain at a distance of %r, the domain is %r wide' % (nm, off, dw))
                elif ci in last and abs(off - last[ci][0]) > mig * (oi // nch - last[ci][1]) + big:
                    bad('migration', '%s is shifted by %r against the one above, asked for at most %r' % (nm, off - last[ci][0], mig))
                last[ci] = off, oi // nch
                if along[0] < -(dl + ob['width']) / 2 - big:
                    bad('position', '%s starts %r before the centre of the domain' % (nm, float(-along[0])))
        top, low = A['levels']['topzmean'], A['levels']['bottomzmean']
        if top is None or low is None:
            return
        zs = [ob['ztop'] for ob in A['objects']]
        low += E['depth'] * factor(tr, (top + low) / 2) * E.get('buffer', 0.0)
        q = (top - low) / E['agg']
        want = max(0, math.ceil(q - 1e-9) - 1)
        ok = {want} | ({round(q), round(q) - 1} if abs(q - round(q)) < 1e-6 else set())
        if len(zs) % nch or len(zs) // nch not in ok:
            return bad('number', '%s has %d channels between %r and %r, asked for %d every %r' % (name, len(zs), top, low, nch, E['agg']))
        for i, z in enumerate(zs):
            if abs(z - (top - (i // nch + 1) * E['agg'])) > 1e-7 * scale:
                return bad('elevation', '%s, channel %d has its top at %r, asked for %r' % (name, i, z, top - (i // nch + 1) * E['agg']))

    def sheet(A, E, name):
        for oi, ob in enumerate(A['objects']):
            nm = '%s, sheet %d' % (name, oi)
            bedding(ob, E, nm, ob['azim'])
            if ob['dipsets'] != (E['structure'] == 'dip'):
                bad('structure', '%s: asked for %s' % (nm, E['structure']))
            elif ob['dipsets']:
                layers(ob['fa'], E, nm)
                if not eq(ob['layer_dist'], E['dipset_dist']):
                    bad('layers', '%s has layers %r apart, asked for %r' % (nm, ob['layer_dist'], E['dipset_dist']))
                plane(ob, nm)
            elif ob['facies'] not in [I['fi'][f] for f in E['facies']]:
                bad('facies', '%s has facies %d' % (nm, ob['facies']))
        T = E['lens_thickness']
        if T == -1:
            k = sum(np.any(ob['top'] - ob['bottom'] > t) for ob in A['objects'])
            if k > 1:
                bad('thickness', '%s has %d sheets, asked for one' % (name, k))
            return
        zt, zb = float(A['top'].max()), float(A['bottom'].min())
        L = A['levels']
        if L['topzmax'] is None or L['bottomzmin'] is None or abs(L['topzmax'] - zt) > t or abs(L['bottomzmin'] - zb) > t:
            return      # surfaces that were cut by others
        T *= factor(E.get('size_ztrend'), (zt + zb) / 2)
        for oi, ob in enumerate(A['objects']):
            want = np.maximum(np.minimum(zt - (oi + 1) * T, A['top']), A['bottom'])
            if np.any(np.abs(ob['bottom'] - want) > 1e-7 * scale):
                return bad('thickness', '%s, sheet %d ends at %s, asked for a thickness of %r below %r' % (name, oi, ob['bottom'].flat[0], T, zt))

    for si, s in enumerate(m['strata']):
        k = len(S['strata']) - 1 - si
        types = S['ae_in_strata'][k]
        for ai, A in enumerate(s['aes']):
            name = 'stratum %d element %d (%s)' % (si, ai, A['type'])
            E = gen.get(cfg, A['type'])
            if A['type'] not in types:
                continue        # C13
            ti = types.index(A['type'])
            if S['ae_prob'][k][ti] == 0:
                bad('probability', '%s: the probability of this type is 0' % name)
            if A['geometry'] == 'sheet':
                sheet(A, E, name)
            elif A['geometry'] == 'trough':
                trough(A, E, name)
            else:
                channel(A, E, name)
            if ai + 1 < len(s['aes']):
                cm = gen.get(cfg, s['aes'][ai + 1]['type'])['contact_model']
                free = A['bottom'][(np.abs(A['bottom'] - A['top']) > t) & (np.abs(A['bottom'] - s['bottom']) > t)]
                if cm[0].lower() == 'flat' and len(free):
                    if np.ptp(free) > t:
                        bad('contact', '%s: flat contact with the element below varies from %r to %r' % (name, free.min(), free.max()))
                    elif const(A['top']) and abs(A['levels']['topzmean'] - A['top'].flat[0]) < t:
                        h = float(A['top'].flat[0] - free[0])
                        mean = S['ae_z_mean'][k][ti]
                        av = sorted(S['avul'][k]) if S['avul_prob'][k][0] > 0 else [0, 0]
                        a0 = av[0] if S['avul_prob'][k][0] >= 1 else min(0, av[0])
                        if not mean * 0.2 - max(av[1], 0) - t <= h <= mean * 1.8 - min(a0, 0) + t:
                            bad('height', '%s is %r thick, mean %r, avulsion %r' % (name, h, mean, av))
            if len(v) >= 3:
                return v
    if full[0] > 0 and abs(full[1] - full[0]) > 8 * math.sqrt(full[0]) + 8:
        bad('density', '%d troughs generated, the densities ask for %.1f' % (full[1], full[0]))
    return v


# ---------------------------------------------------------------- hydraulics
def hydraulics(cfg, a):
    """(violations, number of cells with the known defect)"""
    I = info_of(cfg)
    H = I['hyd']
    m = gen.get(cfg, 'model')
    if m.get('hydraulics') is False:
        return [], 0
    n = I['n']
    for k in ('k_iso', 'poros', 'anirat', 'ktensors'):
        if k not in a:
            return [('missing array', 'no array ' + k)], 0
        if a[k].shape[:3] != n:
            return [('shape', '%s has shape %r' % (k, a[k].shape))], 0
        if not np.all(np.isfinite(a[k])):
            return [('not finite', '%s is not finite in cell %s' % (k, tuple(np.argwhere(~np.isfinite(a[k]))[0])))], 0
    K, P, A, T = a['k_iso'], a['poros'], a['anirat'], a['ktensors']
    if np.any(K <= 0):
        return [('not positive', 'conductivity %r in cell %s' % (K.min(), tuple(np.argwhere(K <= 0)[0])))], 0
    het = m.get('heterogeneity', True)
    lev = m.get('heterogeneity_level', 'internal')
    internal = het and lev == 'internal'
    kt = np.ones(n)
    pt = np.ones(n)
    if internal:
        for key, arr in (('k', kt), ('n', pt)):
            if H.get(key + '_ztrend'):
                arr *= np.linspace(*H[key + '_ztrend'], n[2])
            if H.get(key + '_xtrend'):
                arr *= np.linspace(*H[key + '_xtrend'], n[0])[:, None, None]
    kh, po, ra = np.array(H['k_h']), np.array(H['n']), np.array(H['k_ratio'])
    sy = np.array(H['sig_y']) if internal else np.zeros(len(kh))
    sn = np.array(H['sig_n']) if internal else np.zeros(len(kh))
    F = a['facies'].astype(int)
    if F.min() < 0 or F.max() >= len(kh):
        return [], 0        # C13

    def judge(f):
        okk = (sy[f] != 0) | (np.abs(K - kh[f] * kt) <= 1e-9 * np.abs(kh[f] * kt))
        okp = (sn[f] != 0) | (np.abs(P - po[f] * pt) <= 1e-9 * np.abs(po[f] * pt))
        oka = np.abs(A - ra[f]) <= 1e-12 * np.abs(ra[f])
        return okk, okp, oka
    okk, okp, oka = judge(F)
    ok = okk & okp & oka
    known = 0
    if internal and not ok.all():
        # the known defect: cells of objects get the values of the background of their element
        B = np.array(F)
        for ix in np.ndindex(*n):
            s, t = int(a['strata'][ix]), int(a['hat'][ix])
            e = I['el'][I['ae'][t]]
            B[ix] = e['bg'] if e['bg'] is not None else I['strata'][s]['bg']
        bk, bp, ba = judge(B)
        kf = ~ok & (a['ha'] == 0) & bk & bp & ba & (B != F)
        known = int(kf.sum())
        ok = ok | kf
    if not ok.all():
        ix = tuple(np.argwhere(~ok)[0])
        f = F[ix]
        return [('values', 'cell %s of facies %d has k %r n %r ratio %r, expected %r (sig %r) %r (sig %r) %r' % (
            ix, f, K[ix], P[ix], A[ix], (kh[f] * kt[ix]), sy[f], (po[f] * pt[ix]), sn[f], ra[f]))], known
    az, dp = np.radians(a['azim']), np.radians(a['dip'])
    nv = np.stack([np.cos(az) * np.sin(dp), -np.sin(az) * np.sin(dp), np.cos(dp)], axis=-1)
    fac = (1 - 1 / A)[..., None, None]
    want = K[..., None, None] * (np.eye(3) - fac * nv[..., :, None] * nv[..., None, :])
    tol = 1e-9 * (K * (1 + 1 / A))[..., None, None]
    bad = np.abs(T - want) > tol
    if bad.any():
        ix = tuple(np.argwhere(bad)[0])
        return [('tensor', 'tensor of cell %s does not agree with k %r, ratio %r, azimuth %r, dip %r: %s' % (
            ix[:3], K[ix[:3]], A[ix[:3]], a['azim'][ix[:3]], a['dip'][ix[:3]], T[ix[:3]].tolist()))], known
    return [], known
