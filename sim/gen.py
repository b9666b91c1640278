"""Generators of parameter files (as nested lists of sections) and old content."""
import math
import random

FORMATS = ['vtr', 'py', 'mat', 'npz', 'h5', 'mf', 'mf6', 'hgs']
LIGHT = ['vtr', 'py', 'mat', 'npz', 'h5', 'hgs']


def fmt(v):
    if isinstance(v, bool):
        return 'true' if v else 'false'
    if isinstance(v, (list, tuple)):
        return '[' + ', '.join(fmt(x) for x in v) + ']'
    if isinstance(v, float):
        return repr(v)
    return str(v)


# options whose lists may be given in a short form if their values are equal: number of dimensions
SHORT = dict(k_h=1, sig_y=1, k_ratio=1, n=1, sig_n=1, ycorlengths=2, ncorlengths=2, bg_facies=1, bg_azim=1, bg_dip=1, avul_prob=2,
             avul=2, ae_prob=2, ae_z_mean=2, dip=1, azimuth=1, paleoflow=1, size_ztrend=1)


def short(v, dims):
    if dims == 2 and all(x == v[0] for x in v):
        v, dims = v[0], 1
    if dims == 1 and all(x == v[0] for x in v):
        v = v[0]
    return v


def spell(v, rng):
    """another spelling of the same value"""
    if isinstance(v, bool):
        return rng.choice(['true', 'True', 'yes', 'YES', '1'] if v else ['false', 'FALSE', 'no', 'No', '0'])
    if isinstance(v, (list, tuple)):
        c = rng.choice([', ', ',', ' ,  '])
        return rng.choice(['[%s]', '[ %s ]']) % c.join(spell(x, rng) for x in v)
    if isinstance(v, float):
        t = repr(v)
        k = rng.randrange(6)
        if k == 0 and t.endswith('.0'):
            return t[:-2]
        if k == 1 and t.endswith('.0'):
            return t[:-1]
        if k == 2:
            return t.upper() if v == v else t
        if k == 3 and v > 0:
            return '+' + t
        if k == 4 and t.startswith('0.'):
            return t[1:]
        if k == 5 and 'e' not in t:
            return t + 'e0'
        return t
    return str(v)


def to_ini(cfg, comment=''):
    """cfg: list of [section, {option: value}]; option _style of section run: seed of another spelling of the same settings"""
    out = []
    if comment:
        out.append('# ' + comment)
    style = (get(cfg, 'run') or {}).get('_style')
    rng = random.Random(style)
    if style is None:
        for s, d in cfg:
            out.append('[%s]' % s)
            for k, v in d.items():
                if v is not None:
                    out.append('%s = %s' % (k, fmt(v)))
            out.append('')
        return '\n'.join(out)
    case, sep, shorten = rng.choice([str, str, str.upper, str.capitalize]), rng.choice([' = ', '=', ': ', ' :', '   =  ']), rng.random() < 0.8
    if rng.random() < 0.2:
        out += ['[DEFAULT]', 'author = me']
    for s, d in cfg:
        out.append('[%s]' % s)
        for k, v in d.items():
            if v is None or k == '_style':
                continue
            if rng.random() < 0.1:
                out.append(rng.choice(['', '# %s = 3', '; comment', '   ', '#[section]']).replace('%s', k))
            if k in ('dy', 'dz') and v == d.get('dx') and rng.random() < 0.5:
                out.append(k + sep + '%(dx)s')
                continue
            if shorten and isinstance(v, list) and k in SHORT and rng.random() < 0.8:
                v = short(v, SHORT[k])
            out.append(case(k) + sep + (spell(v, rng) if k not in ('runname', 'modeldir') else fmt(v)) + rng.choice(['', '', ' ']))
        if rng.random() < 0.7:
            out.append('')
    return '\n'.join(out)


def get(cfg, sec):
    for s, d in cfg:
        if s == sec:
            return d
    return None


def R(rng, a, b, nd=3):
    return round(rng.uniform(a, b), nd)


def element(rng, geo, facs, dims, rich):
    lx, ly, lz, dz, x0, y0, z0, dx, dy = dims
    nf = rng.randint(1, min(3, len(facs)))
    mine = rng.sample(facs, nf)
    d = dict(geometry=geo, facies=mine)
    d['contact_model'] = ['flat'] if not rich or rng.random() < 0.6 else \
        ['random', R(rng, 0.005, 0.3) * lz / 3, R(rng, 0.5, lx), R(rng, 0.5, ly)]
    if rng.random() < 0.5:
        d['altfacies'] = [[rng.choice(mine) for _ in range(rng.randint(1, 3))] for _ in mine]
    if geo == 'sheet':
        d['structure'] = rng.choice(['massive', 'dip'])
        d['lens_thickness'] = -1 if rng.random() < 0.4 else R(rng, 0.15, 0.6) * lz
    elif geo == 'channel':
        d['structure'] = rng.choice(['massive', 'dip'])
        d['width'] = R(rng, 0.15, 0.7) * ly
        d['depth'] = R(rng, 0.1, 0.5) * lz
        d['h'] = R(rng, 0.1, 0.4)
        d['k'] = R(rng, 0.1, 1.5)
        d['ds'] = R(rng, 0.2, 0.8) if rng.random() < 0.4 else R(rng, 0.1, 1) * max(lx, ly)
        d['eps_factor'] = rng.choice([0.0, R(rng, 0, 0.5)])
        d['channel_no'] = rng.randint(1, 3)
        d['flow_angle'] = rng.choice([0.0, R(rng, -180, 180, 1)])
        d['mig'] = rng.choice([None, R(rng, 0, 0.3) * ly])
        d['agg'] = R(rng, 0.12, 0.5) * lz
        d['buffer'] = rng.choice([0.0, R(rng, 0, 0.8)])
    else:
        d['structure'] = rng.choice(['massive', 'dip', 'bulb', 'bulb_sets', 'random', 'flat'])
        d['length'] = R(rng, 0.2, 1.3) * lx
        d['width'] = R(rng, 0.2, 1.0) * ly
        d['depth'] = R(rng, 0.1, 0.7) * lz
        d['trough_density'] = R(rng, 0.5, 6) / (lx * ly)
        d['paleoflow'] = rng.choice([[0.0, 0.0], [R(rng, -90, 0, 1), R(rng, 0, 90, 1)]])
        d['agg'] = R(rng, 0.1, 0.5) * lz
        d['buffer'] = rng.choice([0.0, R(rng, 0, 0.8)])
        if rng.random() < 0.2:
            d['migrate'] = [R(rng, -1, 1), R(rng, 0, 0.5), R(rng, -1, 1), R(rng, 0, 0.5)]
        if rng.random() < 0.3:
            d['te_xyz'] = [[R(rng, x0, x0 + lx), R(rng, y0, y0 + ly), R(rng, z0, z0 + lz)]
                           for _ in range(rng.randint(1, 5))]
    if d['structure'] in ('dip', 'random') or rng.random() < 0.3:
        d['dipset_dist'] = R(rng, 0.08, 0.8) * lz
    if geo == 'trough' and (d['structure'] in ('bulb', 'bulb_sets', 'random')):
        d['bulbset_dist'] = R(rng, 0.04, 0.5) * lz
    if rng.random() < 0.7:
        d['dip'] = rng.choice([[0.0, 0.0], [R(rng, 0, 20, 1), R(rng, 20, 60, 1)], [R(rng, -30, 0, 1), R(rng, 0, 30, 1)]])
    if rng.random() < 0.7:
        d['azimuth'] = rng.choice([[0.0, 0.0], [R(rng, -90, 0, 1), R(rng, 0, 170, 1)]])
    if rng.random() < 0.25:
        d['size_ztrend'] = [R(rng, 0.4, 1), R(rng, 0.8, 1.6)]
    if geo in ('trough', 'channel') and rng.random() < 0.4:
        d['lag_height'] = R(rng, 0.02, 0.6) * d['depth']
        d['lag_facies'] = rng.choice(facs)
    if rich and rng.random() < 0.2:      # exactly at cell centres and faces
        def snap(q):
            return float(repr(round(max(1, round(2 * q / dz)) * dz / 2, 6)))
        for k in ('agg', 'depth', 'dipset_dist', 'bulbset_dist', 'lens_thickness', 'lag_height'):
            if d.get(k) and d[k] != -1:
                d[k] = snap(d[k])
        for p in d.get('te_xyz') or ():
            p[2] = float(repr(round(z0 + round(2 * (p[2] - z0) / dz) * dz / 2, 6)))
            if rng.random() < 0.7:      # the origin of the trough is a cell centre
                p[0] = float(repr(round(x0 + (0.5 + math.floor((p[0] - x0) / dx)) * dx, 6)))
                p[1] = float(repr(round(y0 + (0.5 + math.floor((p[1] - y0) / dy)) * dy, 6)))
                if rng.random() < 0.5:
                    p[2] = float(repr(round(z0 + (0.5 + math.floor((p[2] - z0) / dz)) * dz, 6)))
    if rng.random() < 0.5:
        d['bg_facies'] = rng.choice(facs)
        if rng.random() < 0.8:
            d['bg_azim'] = R(rng, -90, 90, 1)
            d['bg_dip'] = R(rng, -40, 40, 1)
    return d


def config(rng, rich=True, maxn=7, minn=1, het=None, numsim=1, outputs=('npz',), trends=False, geo=None):
    """A random valid model.  rich=False: small and quick."""
    if rich:
        n = [rng.randint(minn, maxn) for _ in range(3)]
        n[2] = rng.randint(2, maxn + 3) if rng.random() < 0.97 else 1
    else:
        n = [rng.randint(1, 4), rng.randint(1, 4), rng.randint(2, 4)]
    dx = rng.choice([0.5, 1.0, 1.0, 0.25, 0.1, 0.3])
    dy = rng.choice([None, 0.5, 1.0, 0.2])
    dz = rng.choice([0.5, 0.25, 0.1, 0.3])
    m = dict(dx=dx, dy=dy, dz=dz)
    rdy = dx if dy is None else dy
    if rng.random() < 0.1:
        m['dz'], dz = None, dx
    lx, ly, lz = [float(repr(round(a * b, 6))) for a, b in zip(n, (dx, rdy, dz))]
    m.update(lx=lx, ly=ly, lz=lz)
    x0 = y0 = z0 = 0.0
    if rng.random() < 0.4:
        x0, y0, z0 = R(rng, -10, 10, 1), R(rng, -10, 10, 1), R(rng, -5, 5, 1)
        m.update(x0=x0, y0=y0, z0=z0)
    if rng.random() < 0.3:
        m['periodic'] = True
    if rng.random() < 0.3:
        m['anisotropy'] = rng.random() < 0.5
    het = het or rng.choice(['facies', 'facies', 'internal', 'none'])
    if het == 'none':
        m['heterogeneity'] = False
    else:
        m['heterogeneity_level'] = het
        if het == 'internal' and rng.random() < 0.3:
            del m['heterogeneity_level']        # the default
    nfac = rng.randint(2, 5)
    facs = ['f%d' % i for i in range(nfac)]
    dims = (lx, ly, lz, dz, x0, y0, z0, dx, rdy)
    nstrata = rng.choice([2, 2, 2, 3, 3, 4]) if rich else rng.choice([2, 2, 3])
    names = ['s%d' % i for i in range(nstrata)]
    nae = rng.randint(1, 4) if rich else rng.randint(1, 2)
    aes = ['e%d' % i for i in range(nae)]
    geos = [rng.choice(['sheet', 'trough', 'channel'] if rich else ['sheet', 'trough', 'trough']) for _ in aes]
    if geo:
        geos = [geo for _ in aes]
    els = [[a, element(rng, g, facs, dims, rich)] for a, g in zip(aes, geos)]
    zs = sorted(R(rng, z0 - 0.05 * lz, z0 + 1.05 * lz) for _ in range(nstrata - 1))
    if rng.random() < 0.15:
        rng.shuffle(zs)
    if rng.random() < 0.2:    # exactly at cell centres / faces
        zs = [z0 + dz * rng.choice([0.5, 1, 1.5]) for z in zs]
        zs = [float(repr(round(z, 6))) for z in zs]
    cms = []
    for z in zs:
        cms.append(['flat', z] if not rich or rng.random() < 0.5 else
                   ['random', z, R(rng, 0.01, 0.4) * lz / 2, R(rng, 0.5, lx), R(rng, 0.5, ly)])
    ais = [rng.sample(aes, rng.randint(1, min(3, nae))) for _ in names]
    s = dict(strata=names, strata_contact_models=cms, ae=aes, ae_in_strata=ais,
             ae_prob=[[R(rng, 0.05, 1) for _ in a] for a in ais])
    ht = [[R(rng, 0.15, 0.9) * lz / max(1, nstrata - 1) for _ in a] for a in ais]
    s['ae_z_mean'] = ht
    av = rng.random() < 0.4
    s['avul_prob'] = [[R(rng, 0, 1) if av else 0.0] for _ in names]
    mn = min(min(h) for h in ht)
    s['avul'] = [[0.0, R(rng, 0.0, 0.35) * mn] if av else [0.0, 0.0] for _ in names]
    s['bg_facies'] = [rng.choice(facs) for _ in names]
    s['bg_azim'] = [R(rng, -90, 90, 1) for _ in names]
    s['bg_dip'] = [R(rng, -40, 40, 1) for _ in names]
    h = dict(hydrofacies=facs,
             k_h=[float('%.3e' % 10**rng.uniform(-9, -1)) for _ in facs],
             sig_y=[rng.choice([0.0, R(rng, 0.05, 1.5)]) for _ in facs],
             ycorlengths=[[R(rng, 0.3, 5) for _ in range(3)] for _ in facs],
             k_ratio=[rng.choice([1.0, R(rng, 0.1, 10)]) for _ in facs],
             n=[R(rng, 0.05, 0.45) for _ in facs],
             sig_n=[rng.choice([0.0, R(rng, 0.0001, 0.005, 5)]) for _ in facs],
             ncorlengths=[[R(rng, 0.3, 5) for _ in range(3)] for _ in facs])
    if trends:
        for k in ('k_ztrend', 'k_xtrend', 'n_ztrend', 'n_xtrend'):
            if rng.random() < 0.5:
                h[k] = [R(rng, 0.3, 1), R(rng, 1, 3)]
    run = dict(runname=None, numsim=numsim, outputs=list(outputs))
    if numsim == 1 and rng.random() < 0.15:
        del run['numsim']
    for _, e in els:                # options with a default
        for k, v in (('buffer', 0.0), ('flow_angle', 0.0)):
            if e.get(k) == v and rng.random() < 0.5:
                del e[k]
    if rich and rng.random() < 0.05 and n[0] * n[1] <= 16:      # hundreds of elements and objects
        k = rng.choice([40, 150])
        s['ae_z_mean'] = [[z / k for z in l] for l in ht]
        s['avul'] = [[0.0, a[1] / k] for a in s['avul']]
        for _, e in els:
            e.update({o: e[o] / k for o in ('agg', 'depth', 'lag_height') if e.get(o)})
    if rng.random() < 0.07:         # other spellings of the contacts
        f = rng.choice([str.upper, str.capitalize])
        for c in cms + [e['contact_model'] for _, e in els]:
            c[0] = f(c[0])
    if rng.random() < 0.25:         # equal values of some options; another spelling
        for d in [s, h] + [e for _, e in els]:
            for k in SHORT:
                if isinstance(d.get(k), list) and rng.random() < 0.25 and k not in ('ae_z_mean', 'avul'):
                    d[k] = [[d[k][0][0]] * len(x) for x in d[k]] if SHORT[k] == 2 and rng.random() < 0.5 else \
                        [list(d[k][0]) for _ in d[k]] if SHORT[k] == 2 and all(len(x) == len(d[k][0]) for x in d[k]) else \
                        d[k] if SHORT[k] == 2 else [d[k][0]] * len(d[k])
        run['_style'] = rng.randrange(10**6)
    elif rng.random() < 0.3:
        run['_style'] = rng.randrange(10**6)
    cfg = [['run', run], ['model', m], ['strata', s]] + els + [['hydraulics', h]]
    if rng.random() < 0.3:          # sections and options in any order
        rng.shuffle(cfg)
        cfg = [[x, dict(rng.sample(sorted(d.items()), len(d)))] for x, d in cfg]
    if any(o in outputs for o in ('mf', 'mf6', 'hgs')):
        cfg.append(['flowtrans', dict(hin=[1.0, 0.0, 0.0], hout=[0.5, 0.0, 0.0])])
    return cfg
