"""Properties of the generated models: C12 - C17 (and the cell level oracle)."""
import copy
import math
import os

import numpy as np

import canon
import core
import gen
import scene
from core import below
from geomodel import allowed_facies, collector, grid_of, info_of
import geomodel
from props import Prop, Skip, listed, register
from props_fs import shrink_cfg
import remote

KINDS = [['uniform'], ['normal'], ['choice'], ['poisson'], ['randint'],
         ['uniform', 'normal', 'choice', 'poisson', 'randint']]


def rng_spec(rng):
    return dict(seed=rng.randrange(10**6), rate=rng.choice([0.02, 0.1, 0.3, 0.7, 1.0]), kinds=rng.choice(KINDS))


def prefix(n, i):
    return '' if n == 1 else 'real_%03d/' % (i + 1)


class GeoProp(Prop):
    """Cases: cfg, seed, rng (replacement of random draws)"""
    collect = None
    per_job = 6
    kw = {}
    must_end = False

    def describe(self, case):
        return dict(seed=case['seed'], rng=case.get('rng'), model=dict(case['cfg'])['model'],
                    strata=dict(case['cfg'])['strata']['strata_contact_models'],
                    elements=[d['geometry'] + '/' + d['structure'] for s, d in case['cfg'] if 'geometry' in d])

    def explore(self, rng, W):
        for _ in range(self.per_job):
            cfg = self.config(rng)
            base = dict(cfg=cfg, seed=rng.randrange(10**6))
            yield base
            for _ in range(2):
                yield dict(base, seed=rng.randrange(10**6), rng=rng_spec(rng))

    def config(self, rng):
        if rng.random() < 0.2:      # many cells, one kind of structure
            return gen.config(rng, minn=4, maxn=12, geo=rng.choice(['channel', 'channel', 'trough', 'sheet']), **self.kw)
        return gen.config(rng, rich=rng.random() < 0.9, maxn=rng.choice([3, 5, 7, 9]), numsim=rng.choice([1, 1, 1, 2]), **self.kw)

    def run(self, case, W, **kw):
        sc = dict(cfg=case['cfg'], ini='w/run.ini', rundir='w/run', name='run', kind='plain', cwd='w', how='abs')
        W.build(sc, None)
        spec = dict(entry='api', ini='w/run.ini', cwd='w', how='abs', flag=None, seed=case['seed'])
        if case.get('rng'):
            spec['rng'] = case['rng']
        if self.collect:
            spec['collect'] = 'model'
            spec['_collector'] = self.collect
        spec.update(kw)
        return W.run(spec)

    def arrays(self, case, W, rundir='w/run'):
        n = gen.get(case['cfg'], 'run').get('numsim', 1)
        out = []
        for i in range(n):
            p = os.path.join(W.root, rundir, prefix(n, i) + 'run.npz')
            try:
                with open(p, 'rb') as f:
                    out.append(canon.read_npz(f.read()))
            except Exception as e:
                raise Skip('no readable npz output (%s)' % type(e).__name__)
        return out

    def evaluate(self, case, W):
        r = self.run(case, W)
        if not r['ok']:
            return self.failed(case, r)
        if r.get('rng_fired'):
            W.perturbed = sum(r['rng_fired'].values())
        W.objects = 0
        v = []
        models = r.get('model') or []
        for i, a in enumerate(self.arrays(case, W)):
            m = models[i] if i < len(models) else None
            v += self.check(case, a, m, W)
            W.h.update(canon.digest_arrays(a).encode())
        return v[:3]

    def failed(self, case, r):
        if r['status'] == 'cpu':
            return [('hang', 'the run does not end within %d s of cpu time' % core.CPU_LIMIT)]
        if r['status'] == 'exc' and r['exc'] == 'MemoryError':
            raise Skip('memory')
        last = [l for l in r['tb'].splitlines() if 'hyvr/' in l][-1:]
        return [('fails', 'a valid model fails: %s %s (%s)' % (r['exc'] or r['status'], r['msg'][:160], ''.join(last).strip()))]

    def nontrivial(self, case, W):
        return True

    def shrinks(self, case, W):
        if case.get('rng'):
            c = copy.deepcopy(case)
            del c['rng']
            yield c
        for cfg in shrink_cfg(case['cfg']):
            yield dict(copy.deepcopy(case), cfg=cfg)
        for s in range(3):
            if s < case['seed']:
                yield dict(copy.deepcopy(case), seed=s)


# ---------------------------------------------------------------------- C13
@register
class C13(GeoProp):
    id = 'C13'
    per_job = 6

    def check(self, case, a, m, W):
        I = info_of(case['cfg'])
        n = I['n']
        for k in ('facies', 'strata', 'ae', 'ha', 'hat', 'azim', 'dip'):
            if k not in a:
                return [('missing array', 'no array ' + k)]
            if a[k].shape != n:
                return [('shape', 'array %s has shape %r, the grid has %r' % (k, a[k].shape, n))]
        v = []
        for k in (127, 255):
            if a['ae'].max() > k:
                core.count('probe:more than %d elements' % k)
        ns = len(I['strata'])
        owner = {}
        for ix in np.ndindex(*n):
            s, e, t, f = (int(a[k][ix]) for k in ('strata', 'ae', 'hat', 'facies'))
            where = 'cell %s: stratum %d element %d type %d facies %d' % (ix, s, e, t, f)
            if not 0 <= s < ns:
                v.append(('stratum', where + ' (%d strata)' % ns))
            elif e < 0:
                v.append(('element', where))
            elif not (0 <= t < len(I['ae']) and I['ae'][t] in I['strata'][s]['ae']):
                v.append(('type', where + ', types allowed in that stratum: %s' % I['strata'][s]['ae']))
            elif f not in allowed_facies(I, s, t):
                v.append(('facies', where + ', allowed: %s' % sorted(allowed_facies(I, s, t))))
            elif not (math.isfinite(a['azim'][ix]) and math.isfinite(a['dip'][ix])):
                v.append(('angle', where + ': azim %r dip %r' % (a['azim'][ix], a['dip'][ix])))
            elif owner.setdefault(e, (s, t)) != (s, t):
                v.append(('element identity', where + ': element %d is elsewhere of stratum/type %r' % (e, owner[e])))
            elif a['ha'][ix] < -1:
                v.append(('assemblage', where + ' ha %d' % a['ha'][ix]))
            if v:
                return v
        return v

    def nontrivial(self, case, W):
        return True


# ---------------------------------------------------------------------- C14
@register
class C14(GeoProp):
    id = 'C14'
    collect = staticmethod(collector)
    per_job = 6

    def check(self, case, a, m, W):
        if m is None or 'unavailable' in m:
            core.count('probe:internals not available')
            raise Skip('internals not available')
        W.objects += sum(len(e['objects']) for s in m['strata'] for e in s['aes'])
        owners = {}
        v = geomodel.compare_cells(case['cfg'], a, m, owners)
        seen = {}
        for o, hs in sorted(owners.items()):
            if len(hs) > 1:
                v.append(('number', 'cells of %s in element %d of stratum %d have the numbers %s' % (o[2], o[1], o[0], sorted(hs))))
            for h in hs:
                seen.setdefault(h, []).append(o)
        dup = [(h, o) for h, o in sorted(seen.items()) if len(o) > 1]
        if dup:
            v.append(('zero' if list(seen) == [0] else 'number', '%d objects have the same number %d in array ha' % (len(dup[0][1]), dup[0][0])))
        return v

    def known(self, case, cls, msg):
        return listed(self.id, 'number-of-objects') if cls == 'zero' else None

    def nontrivial(self, case, W):
        return W.objects > 0


# ---------------------------------------------------------------------- C15
@register
class C15(GeoProp):
    id = 'C15'
    collect = staticmethod(collector)
    per_job = 6

    def check(self, case, a, m, W):
        v = geomodel.columns(case['cfg'], a)
        if m is not None and 'unavailable' not in m:
            v += geomodel.surfaces(case['cfg'], m)
        else:
            core.count('probe:internals not available')
        return v


# ---------------------------------------------------------------------- C24
@register
class C24(GeoProp):
    id = 'C24'
    collect = staticmethod(collector)
    per_job = 6

    def config(self, rng):
        cfg = gen.config(rng, rich=rng.random() < 0.9, maxn=rng.choice([2, 3, 5]), numsim=rng.choice([1, 1, 2]), het='none')
        s = gen.get(cfg, 'strata')
        for p in s['ae_prob']:
            if len(p) > 1 and rng.random() < 0.4:
                p[rng.randrange(len(p))] = 0.0
        few = np.prod(grid_of(cfg)[0]) <= 60
        m = gen.get(cfg, 'model')
        for _, d in cfg:
            many = d.get('trough_density', 0) * m['lx'] * m['ly'] * m['lz'] / d['agg'] if d.get('agg') else 0
            if d.get('geometry') == 'trough' and few and rng.random() < 0.3 and many < 40:
                d['trough_density'] *= rng.choice([5, 20])
                d['agg'] = round(d['agg'] / 3, 6)
            if d.get('migrate') and rng.random() < 0.5:
                d['migrate'][1] = d['migrate'][3] = 0.0
            if d.get('geometry') == 'channel' and rng.random() < 0.5:
                d['eps_factor'] = 0.0
        return cfg

    def check(self, case, a, m, W):
        if m is None or 'unavailable' in m:
            core.count('probe:internals not available')
            raise Skip('internals not available')
        W.objects += sum(len(e['objects']) for s in m['strata'] for e in s['aes'])
        for s in m['strata']:
            for e in s['aes']:
                core.count('probe:%s objects' % e['geometry'], len(e['objects']))
        return geomodel.conform(case['cfg'], m, 'poisson' not in (case.get('rng') or {}).get('kinds', ()))

    def nontrivial(self, case, W):
        return W.objects > 0


# ---------------------------------------------------------------------- C16
@register
class C16(GeoProp):
    id = 'C16'
    kw = dict(trends=True)
    per_job = 6

    def check(self, case, a, m, W):
        v, known = geomodel.hydraulics(case['cfg'], a)
        if known:
            v.append(('object cells', '%d cells of objects have the hydraulic parameters of the background facies of their element' % known))
        return v

    def known(self, case, cls, msg):
        return listed(self.id, 'internal-heterogeneity-of-objects') if cls == 'object cells' else None


# ---------------------------------------------------------------------- C12
def fingerprint(W, rundir, n):
    out = []
    for i in range(n):
        p = os.path.join(W.root, rundir, prefix(n, i))
        got = None
        for ext, rd in (('.npz', canon.read_npz), ('.mat', canon.read_mat), ('.pickle', canon.read_pickle)):
            fs = [f for f in (os.listdir(p) if os.path.isdir(p) else ()) if f.endswith(ext)]
            if fs:
                with open(os.path.join(p, fs[0]), 'rb') as f:
                    d = rd(f.read())
                got = {k: digest(x) for k, x in d.items()}
                break
        out.append(got)
    return out


def digest(x):
    """of the values: dtype and memory order do not matter"""
    import hashlib
    x = np.asarray(x)
    x = x.astype(float) if x.dtype.kind in 'iufb' else x
    return hashlib.sha256(repr(x.shape).encode() + np.ascontiguousarray(x).tobytes()).hexdigest()[:16]


@register
class C12(GeoProp):
    id = 'C12'
    per_job = 3

    def explore(self, rng, W):
        for _ in range(self.per_job):
            cfg = gen.config(rng, rich=rng.random() < 0.8, maxn=5, numsim=rng.choice([1, 1, 2, 3]), outputs=('npz',))
            base = dict(cfg=cfg, seed=rng.randrange(10**6))
            for _ in range(3):
                env = dict(clock0=rng.choice([0, 10**9, 2 * 10**9 + 17]), clockstep=rng.choice([0, 1000, 10**9]),
                           dirseed=rng.randrange(10**6), entropy=rng.randrange(10**6), cwd=rng.choice(['w', 'cwd', 'home']),
                           where=rng.choice(['w', 'models', 'new/deep er/dir']), outputs=rng.choice([['npz'], ['npz', 'py'], ['mat', 'npz'], ['hgs', 'npz', 'vtr'], ['h5', 'npz']]),
                           name=rng.choice(['run', 'r2', 'x y']), entry=rng.choice(['api', 'cli']))
                case = dict(base, env=env)
                r = rng.random()
                if r < 0.35:
                    case['hashseed'] = rng.choice([1, 77])
                elif r < 0.6:
                    case['before'] = dict(cfg=gen.config(rng, rich=False, outputs=('npz',)), seed=rng.randrange(10**6),
                                          fault=rng.random() if rng.random() < 0.4 else None)
                yield case

    def one(self, case, W, env=None):
        env = env or {}
        cfg = copy.deepcopy(case['cfg'])
        run = gen.get(cfg, 'run')
        run['outputs'] = env.get('outputs', ['npz'])
        if 'hgs' in run['outputs'] and gen.get(cfg, 'flowtrans') is None:
            cfg.append(['flowtrans', dict(hin=[1.0, 0.0, 0.0], hout=[0.5, 0.0, 0.0])])
        name = env.get('name', 'run')
        where = env.get('where', 'w')
        sc = dict(cfg=cfg, ini='%s/%s.ini' % (where, name), rundir='%s/%s' % (where, name), name=name, kind='plain', cwd='w', how='abs')
        W.build(sc, None)
        spec = dict(entry=env.get('entry', 'api'), ini=sc['ini'], cwd=env.get('cwd', 'w'), how='abs', flag=None, seed=case['seed'])
        for k in ('clock0', 'clockstep', 'dirseed', 'entropy'):
            if k in env:
                spec[k] = env[k]
        b = case.get('before')
        if b and env:
            with open(os.path.join(W.root, 'w/before.ini'), 'w') as f:
                f.write(gen.to_ini(b['cfg']))
            st = dict(entry='api', ini='w/before.ini', how='abs', flag=True, seed=b['seed'])
            if b['fault'] is not None:
                t = W.run(dict(st, cwd='w'))['trace']
                W.build(sc, None)
                with open(os.path.join(W.root, 'w/before.ini'), 'w') as f:
                    f.write(gen.to_ini(b['cfg']))
                if t:
                    st['faults'] = [['err', t[int(b['fault'] * (len(t) - 1))][0], 28]]
            spec['steps'] = [st, {k: v for k, v in spec.items() if k not in ('cwd',)}]
        r = W.run(spec)
        return r, fingerprint(W, sc['rundir'], run.get('numsim', 1))

    def remote(self, case, W):
        r, fp = self.one(case, W, case['env'])
        return dict(ok=r['ok'], exc=r['exc'], msg=r['msg'][:100], fp=fp)

    def evaluate(self, case, W):
        r, fp = self.one(case, W)
        if not r['ok'] or not all(fp):
            raise Skip('run fails')
        if case.get('hashseed'):
            d = remote.call(case['hashseed'], dict(type='remote', prop=self.id, case=case))
            if 'harness' in d:
                raise core.HarnessError(d['harness'])
            for k, n in d.get('stats', {}).items():
                core.count(k, n)
            ok, exc, msg, fp2 = d['ok'], d['exc'], d['msg'], d['fp']
            W.h.update(repr(fp2).encode())
        else:
            r2, fp2 = self.one(case, W, case['env'])
            ok, exc, msg = r2['ok'], r2['exc'], r2['msg']
        what = 'environment %r%s%s' % (case['env'], ', hash seed %s' % case['hashseed'] if case.get('hashseed') else '',
                                       ', after another run' if case.get('before') else '')
        if not ok:
            return [('fails', 'succeeds in one environment, fails in %s: %s %s' % (what, exc, (msg or '')[:100]))]
        for i, (x, y) in enumerate(zip(fp, fp2)):
            if y is None:
                return [('missing', 'no results in %s' % what)]
            d = sorted(k for k in set(x) | set(y) if x.get(k) != y.get(k))
            if d:
                return [('different', 'same seed, same parameter file: %s differ in realisation %d in %s' % (', '.join(d), i + 1, what))]
        return []

    def shrinks(self, case, W):
        for k in ('hashseed', 'before'):
            if k in case:
                c = copy.deepcopy(case)
                del c[k]
                yield c
        for k in list(case['env']):
            c = copy.deepcopy(case)
            del c['env'][k]
            if c['env']:
                yield c
        for cfg in shrink_cfg(case['cfg']):
            yield dict(copy.deepcopy(case), cfg=cfg)


# ---------------------------------------------------------------------- C17
@register
class C17(GeoProp):
    id = 'C17'
    per_job = 3

    def explore(self, rng, W):
        for _ in range(self.per_job):
            cfg = gen.config(rng, rich=rng.random() < 0.8, maxn=5, numsim=rng.choice([2, 3, 4]),
                             outputs=rng.choice([['npz'], ['mat', 'npz'], ['hgs', 'npz'], ['vtr', 'h5', 'npz'], ['py', 'npz', 'hgs'],
                                                 rng.choice([['mf6', 'npz'], ['mf', 'npz'], ['mf6', 'hgs', 'npz']])]), trends=rng.random() < 0.3)
            yield dict(cfg=cfg, seed=rng.randrange(10**6), kind='realisations')
            cfg = gen.config(rng, rich=rng.random() < 0.8, maxn=5, numsim=rng.choice([1, 2]), trends=rng.random() < 0.3)
            steps = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                same = rng.random() < 0.5
                c2 = cfg if same else gen.config(rng, rich=rng.random() < 0.8, maxn=5, outputs=rng.choice([['npz'], ['py', 'mat']]), trends=rng.random() < 0.3)
                steps.append(dict(cfg=c2, seed=rng.randrange(10**6), fault=rng.choice([None, None, rng.random()])))
            yield dict(cfg=cfg, seed=rng.randrange(10**6), kind='runs', steps=steps)

    def fresh(self, cfg, W, seed=None, state=None):
        cfg = copy.deepcopy(cfg)
        sc = dict(cfg=cfg, ini='w/run.ini', rundir='w/run', name='run', kind='plain', cwd='w', how='abs')
        W.build(sc, None)
        spec = dict(entry='api', ini='w/run.ini', cwd='w', how='abs', flag=None, seed=seed, rngstate=state)
        return W.run(spec), sc

    def evaluate(self, case, W):
        n = gen.get(case['cfg'], 'run').get('numsim', 1)
        if case['kind'] == 'realisations':
            r = self.run(case, W, collect='rngstates')
            if not r['ok']:
                raise Skip('run fails')
            fp = fingerprint(W, 'w/run', n)
            states = [s for p, s in r['collected']['states']]
            if len(states) != n or not all(fp):
                raise Skip('states not available')
            one = copy.deepcopy(case['cfg'])
            gen.get(one, 'run').update(numsim=1, outputs=['npz'])
            for i in range(n):
                r1, sc = self.fresh(one, W, case['seed'] if i == 0 else None, None if i == 0 else states[i - 1])
                if not r1['ok']:
                    return [('fails alone', 'realisation %d of %d succeeds in the run but fails in a fresh process: %s %s' % (
                        i + 1, n, r1['exc'], r1['msg'][:150]))]
                x = fingerprint(W, 'w/run', 1)[0]
                d = sorted(k for k in set(x or ()) | set(fp[i]) if (x or {}).get(k) != fp[i].get(k))
                if d:
                    return [('realisation', 'realisation %d of %d differs from the one of a fresh process with the same random state in %s' % (
                        i + 1, n, ', '.join(d)))]
            return []
        r0, sc = self.fresh(case['cfg'], W, case['seed'])
        if not r0['ok']:
            raise Skip('run fails')
        fp = fingerprint(W, 'w/run', n)
        steps = []
        for i, s in enumerate(case['steps']):
            st = dict(entry='api', ini='w/before%d.ini' % i, how='abs', flag=None, seed=s['seed'])
            if s['fault'] is not None:
                self.files(case, W, sc)
                t = W.run(dict(st, cwd='w'))['trace']
                if t:
                    st['faults'] = [['err', t[int(s['fault'] * (len(t) - 1))][0], 28]]
            steps.append(st)
        self.files(case, W, sc)
        steps.append(dict(entry='api', ini='w/run.ini', how='abs', flag=None, seed=case['seed']))
        r = W.run(dict(cwd='w', steps=steps))
        outs = [o['status'] for o in r['outcomes']]
        if not r['ok']:
            return [('fails after', 'succeeds in a fresh process but fails after %s: %s %s' % (outs[:-1], r['exc'], r['msg'][:150]))]
        core.count('probe:after a failed run', any(o != 'ok' for o in outs[:-1]))
        fp2 = fingerprint(W, 'w/run', n)
        for i in range(n):
            d = sorted(k for k in set(fp2[i] or ()) | set(fp[i]) if (fp2[i] or {}).get(k) != fp[i].get(k))
            if d:
                return [('run', 'realisation %d differs from the one of a fresh process in %s after earlier runs that ended %s' % (
                    i + 1, ', '.join(d), outs[:-1]))]
        return []

    def files(self, case, W, sc):
        W.build(sc, None)
        for i, s in enumerate(case['steps']):
            with open(os.path.join(W.root, 'w/before%d.ini' % i), 'w') as f:
                f.write(gen.to_ini(s['cfg']))

    def shrinks(self, case, W):
        for i in range(len(case.get('steps', ()))):
            if len(case['steps']) > 1:
                c = copy.deepcopy(case)
                c['steps'].pop(i)
                yield c
            if case['steps'][i]['fault'] is not None:
                c = copy.deepcopy(case)
                c['steps'][i]['fault'] = None
                yield c
        for cfg in shrink_cfg(case['cfg']):
            if case['kind'] == 'realisations' and gen.get(cfg, 'run').get('numsim', 1) < 2:
                continue
            yield dict(copy.deepcopy(case), cfg=cfg)
        for i, s in enumerate(case.get('steps', ())):
            for cfg in shrink_cfg(s['cfg']):
                c = copy.deepcopy(case)
                c['steps'][i]['cfg'] = cfg
                yield c


# ---------------------------------------------------------------------- C22
def correlation(Y, ax, k):
    """of cells k apart along an axis (mean 0, all realisations)"""
    m = Y.shape[ax]
    a, b = np.take(Y, range(m - k), ax), np.take(Y, range(k, m), ax)
    return float((a * b).mean() / (Y * Y).mean())


def field_statistics(Y, what, var, d, l, decay):
    """Y: fields (realisation, x, y[, z]) about 0.  Tolerances are several times the statistical uncertainty of the fields asked for."""
    v = []
    if not np.all(np.isfinite(Y)):
        return [('not finite', what + ': not finite')]
    m, s2 = float(Y.mean()), float((Y * Y).mean())
    if abs(m) > 0.15 * math.sqrt(var):
        v.append(('mean', '%s: mean is off by %.3g standard deviations' % (what, m / math.sqrt(var))))
    if not 0.8 * var < s2 < 1.25 * var:
        v.append(('variance', '%s: variance %.4g instead of %.4g' % (what, s2, var)))
        return v
    for ax in range(1, Y.ndim):
        n = Y.shape[ax]
        for k in sorted({1, max(1, round(l[ax - 1] / d[ax - 1])), max(1, round(2 * l[ax - 1] / d[ax - 1]))}):
            if n > 2 * k:
                c, e = correlation(Y, ax, k), decay(k * d[ax - 1] / l[ax - 1])
                if abs(c - e) > 0.13:
                    v.append(('correlation', '%s: cells %.3g apart along %s have correlation %.3f instead of %.3f (correlation length %g)' % (
                        what, k * d[ax - 1], 'xyz'[ax - 1], c, e, l[ax - 1])))
    if len(Y) > 5:
        c = float((Y[1:] * Y[:-1]).mean() / s2)
        if abs(c) > 0.16:
            v.append(('realisations', '%s: successive realisations have correlation %.3f' % (what, c)))
    return v


@register
class C22(GeoProp):
    id = 'C22'
    collect = staticmethod(collector)

    def explore(self, rng, W):
        for kind in rng.sample(['field', 'stratum', 'element'], 2):
            yield dict(kind=kind, cfg=self.cfg(rng, kind), seed=rng.randrange(10**6))

    def cfg(self, rng, kind):
        cfg = gen.config(rng, rich=False, het='internal' if kind == 'field' else 'none')
        m, st, h = gen.get(cfg, 'model'), gen.get(cfg, 'strata'), gen.get(cfg, 'hydraulics')
        # cells, with the domain at least 8 correlation lengths long
        cl = [rng.choice([1.0, 1.5, 2.0, 3.0]) for _ in range(3)]
        # (the mean over the domain does not vary, so it has to be small)
        if kind == 'field':
            thin = rng.choice([None, None, 0, 1])
            n = [int(math.ceil((rng.uniform(8, 11) if thin is None else rng.uniform(14, 18)) * c)) for c in cl]
        else:
            thin = rng.choice([None, None, None, 0, 1])
            cl = [min(c, 2.0) for c in cl]
            n = [int(math.ceil((rng.uniform(13, 17) if thin is None else rng.uniform(60, 80)) * c)) for c in cl[:2]] + [2 if kind == 'stratum' else 6]
        if thin is not None:
            n[thin] = 1
        d = [rng.choice([0.5, 1.0, 0.25]) for _ in range(3)]
        m.update(dx=d[0], dy=d[1], dz=d[2], lx=d[0] * n[0], ly=d[1] * n[1], lz=d[2] * n[2])
        z0, lz = m.get('z0', 0.0), m['lz']
        cl = [round(a * b, 4) for a, b in zip(cl, d)]
        eff = 1.0       # independent cells in a realisation
        for i in range(3 if kind == 'field' else 2):
            eff *= max(1.0, n[i] * d[i] / cl[i] / (2.5 if kind == 'field' else 1.8))
        gen.get(cfg, 'run')['numsim'] = R = int(min(60, max(8, math.ceil(3000 / eff))))
        facs = h['hydrofacies']
        # one massive sheet per element
        el = dict(geometry='sheet', facies=[facs[0]], bg_facies=facs[0], structure='massive', lens_thickness=-1, contact_model=['flat'])
        if kind == 'field' and rng.random() < 0.5:
            # nothing but background (the parameters of it and of objects are generated separately); one trough
            # too small to contain the centre of a cell
            el = dict(geometry='trough', facies=[facs[0]], bg_facies=facs[0], structure='massive', contact_model=['flat'], agg=lz,
                      trough_density=1.0, length=0.01 * d[0], width=0.01 * d[1], depth=0.01 * d[2], paleoflow=[0.0, 0.0],
                      te_xyz=[[m.get('x0', 0.0), m.get('y0', 0.0), z0]])
        cfg[:] = [x for x in cfg if 'geometry' not in x[1]]
        cfg.insert(3, ['e0', el])
        ns = len(st['strata'])
        st.update(ae=['e0'], ae_in_strata=[['e0']] * ns, ae_prob=[[1.0]] * ns, avul_prob=[[0.0]] * ns, avul=[[0.0, 0.0]] * ns,
                  bg_facies=[facs[0]] * ns, ae_z_mean=[[20 * lz]] * ns)
        if kind == 'field':
            st['strata_contact_models'] = [['flat', z0 + lz]] * (ns - 1)
            two = len(facs) > 1 and rng.random() < 0.4
            for i in range(1 + two):
                h['ycorlengths'][i], h['ncorlengths'][i] = cl, cl[:] if rng.random() < 0.3 else [round(c * rng.choice([0.6, 1.0]), 4) for c in cl]
                if i:
                    h['ycorlengths'][i] = [round(c * rng.choice([0.6, 1.0]), 4) for c in cl]
                h['sig_y'][i], h['sig_n'][i] = R_(rng, 0.1, 2), R_(rng, 0.001, 0.01)
                if rng.random() < 0.3:
                    h['sig_n'][i] = h['sig_y'][i]
            if two:
                # two elements, one above the other, of another facies
                m['lz'] = 2 * lz
                st['strata_contact_models'] = [['flat', z0 + lz]] + [['flat', z0 + 2 * lz]] * (ns - 2)
                st['ae'] = ['e0', 'e1']
                cfg.insert(4, ['e1', dict(el, facies=[facs[1]], bg_facies=facs[1])])
                st['ae_in_strata'] = [['e0']] + [['e1']] * (ns - 1)
                st['bg_facies'] = [facs[0]] + [facs[1]] * (ns - 1)
                if rng.random() < 0.5:
                    h['sig_y'][1] = h['sig_y'][0]
        elif kind == 'stratum':
            sd = lz * rng.uniform(0.005, 0.015)
            st['strata_contact_models'] = [['random', round(z0 + lz * (i + 1) / ns, 4), float('%.3e' % (sd * sd)),
                                            round(cl[0] * rng.choice([0.6, 1.0]), 4), round(cl[1] * rng.choice([0.6, 1.0]), 4)] for i in range(ns - 1)]
        else:
            sd = lz * rng.uniform(0.002, 0.005)
            el['contact_model'] = ['random', float('%.3e' % (sd * sd)), cl[0], cl[1]]
            st['strata_contact_models'] = [['flat', z0 + lz]] * (ns - 1)
            st['ae_z_mean'] = [[lz / 6]] * ns
        return cfg

    def evaluate(self, case, W):
        cfg = case['cfg']
        r = self.run(case, W)
        if not r['ok']:
            return self.failed(case, r)
        m, st, h = gen.get(cfg, 'model'), gen.get(cfg, 'strata'), gen.get(cfg, 'hydraulics')
        d = [m['dx'], m['dy'], m['dz']]
        A = self.arrays(case, W)
        for a in A:
            W.h.update(canon.digest_arrays(a).encode())
        if case['kind'] == 'field':
            e1 = any(x[0] == 'e1' for x in cfg)
            nz = A[0]['k_iso'].shape[2]
            parts = [(0, slice(None))] if not e1 else [(0, slice(0, nz // 2)), (1, slice(nz // 2, None))]
            v, ys = [], []
            for f, sl in parts:
                if any(np.any(a['facies'][:, :, sl] != f) or np.any(a['ae'][:, :, sl] != a['ae'][0, 0, sl][0]) for a in A):
                    raise Skip('not a single element')
                y = np.array([np.log(a['k_iso'][:, :, sl] / h['k_h'][f]) for a in A])
                n = np.array([a['poros'][:, :, sl] - h['n'][f] for a in A])
                v += field_statistics(y, 'logarithm of the conductivity', h['sig_y'][f], d, h['ycorlengths'][f], lambda q: math.exp(-q))
                v += field_statistics(n, 'porosity', h['sig_n'][f], d, h['ncorlengths'][f], lambda q: math.exp(-q))
                ys += [(y, 'logarithm of the conductivity'), (n, 'porosity')]
            for i, (y, p) in enumerate(ys):
                for n, q in ys[:i]:
                    c = float((y * n).mean() / math.sqrt((y * y).mean() * (n * n).mean()))
                    if abs(c) > 0.16 and not v:
                        v.append(('dependent', '%s and %s have correlation %.3f' % (p, q, c)))
            return v
        models = r.get('model') or []
        if len(models) != len(A) or any(x is None for x in models):
            raise Skip('structures can not be read')
        v = []
        if case['kind'] == 'stratum':
            fields = []
            for i, c in enumerate(st['strata_contact_models']):
                # counted from the bottom in the file, from the top in the model
                Y = []
                for x in models:
                    S = sorted((s['bottom'] for s in x['strata']), key=np.mean)[1:]
                    if len(S) != len(st['strata_contact_models']):
                        raise Skip('number of strata')
                    Y.append(S[i] - c[1])
                fields.append(np.array(Y))
                v += field_statistics(fields[-1], 'contact %d of strata' % i, c[2], d, c[3:], lambda q: math.exp(-q * q))
            if len(fields) > 1 and not v:
                q = float((fields[0] * fields[1]).mean() / math.sqrt((fields[0]**2).mean() * (fields[1]**2).mean()))
                if abs(q) > 0.2:
                    v.append(('dependent', 'two contacts have correlation %.3f' % q))
            return v
        Y = []
        c = dict(cfg)['e0']['contact_model']
        for x in models:
            for S in x['strata']:
                B = [a['bottom'] for a in S['aes']]
                T = [a['top'] for a in S['aes']]
                for t, b in zip(T, B):
                    if b.min() > S['bottom'].max() and (t - b).min() > 1e-9 * m['lz']:
                        Y.append(b - b.mean())
        if len(Y) < 8:
            raise Skip('too few elements')
        return field_statistics(np.array(Y), 'contact of elements', c[1], d, c[2:], lambda q: math.exp(-q * q))

    def shrinks(self, case, W):
        return iter(())


def R_(rng, a, b):
    return float('%.3e' % math.exp(rng.uniform(math.log(a), math.log(b))))


# ---------------------------------------------------------------------- C25
def uniformity(x, lo, hi, what, tol=6.0):
    """mean and spread of draws from a uniform distribution, to tol standard errors"""
    x = (np.asarray(x, dtype=float) - lo) / (hi - lo)
    n = len(x)
    v = []
    if abs(x.mean() - 0.5) > tol * 0.2887 / math.sqrt(n):
        v.append(('distribution', '%s: %d values from %r to %r have the mean %.4g, a uniform distribution %.4g' % (
            what, n, lo, hi, lo + (hi - lo) * x.mean(), (lo + hi) / 2)))
    elif abs(x.std() - 0.2887) > tol * 0.2 / math.sqrt(n):
        v.append(('distribution', '%s: %d values from %r to %r have the standard deviation %.4g, a uniform distribution %.4g' % (
            what, n, lo, hi, (hi - lo) * x.std(), (hi - lo) * 0.2887)))
    return v


def frequency(k, n, p, what, tol=6.0):
    if abs(k - n * p) > tol * math.sqrt(max(n * p * (1 - p), 0.25)) + 1:
        return [('frequency', '%s: %d of %d, asked for a probability of %.4g' % (what, k, n, p))]
    return []


def occurs(got, asked, what):
    """all alternatives occur if there are many draws"""
    if len(got) >= 40 * len(asked):
        missing = sorted(set(asked) - set(got))
        if missing:
            return [('never chosen', '%s: %s is never chosen in %d cases' % (what, missing, len(got)))]
    return []


@register
class C25(GeoProp):
    id = 'C25'
    collect = staticmethod(collector)

    def explore(self, rng, W):
        for kind in rng.sample(['types', 'trough', 'sheet', 'channel'], 3):
            yield dict(kind=kind, cfg=self.cfg(rng, kind), seed=rng.randrange(10**6))

    def cfg(self, rng, kind):
        cfg = gen.config(rng, rich=False, het='none')
        m, st, h = gen.get(cfg, 'model'), gen.get(cfg, 'strata'), gen.get(cfg, 'hydraulics')
        m.update(dx=1.0, dy=1.0, dz=1.0, lx=float(rng.randint(1, 2)), ly=float(rng.randint(1, 2)), lz=float(rng.randint(2, 4)))
        m.pop('periodic', None)
        x0, y0, z0, lx, ly, lz = m.get('x0', 0.0), m.get('y0', 0.0), m.get('z0', 0.0), m['lx'], m['ly'], m['lz']
        facs = h['hydrofacies']
        ns = len(st['strata'])
        cfg[:] = [x for x in cfg if 'geometry' not in x[1]]
        run = gen.get(cfg, 'run')
        R = lambda a, b: round(rng.uniform(a, b), 3)
        if kind == 'types':
            run['numsim'] = 150
            aes = ['e%d' % i for i in range(rng.randint(2, 3))]
            for i, a in enumerate(aes):
                cfg.insert(3 + i, [a, dict(geometry='sheet', facies=[facs[0]], structure='massive', lens_thickness=-1, contact_model=['flat'])])
            st.update(ae=aes, strata_contact_models=[['flat', round(z0 + lz * (i + 1) / ns, 4)] for i in range(ns - 1)], bg_facies=[facs[0]] * ns)
            st['ae_in_strata'] = [rng.sample(aes, rng.randint(2, len(aes))) for _ in range(ns)]
            st['ae_prob'] = [[rng.choice([0.05, 0.2, 0.5, 1.0, 3.0]) for _ in a] for a in st['ae_in_strata']]
            th = lz / ns
            st['ae_z_mean'] = [[round(th * rng.uniform(0.1, 0.25), 4) for _ in a] for a in st['ae_in_strata']]
            st['avul_prob'] = [[rng.choice([0.0, 0.2, 0.5, 0.8, 1.0])] for _ in range(ns)]
            st['avul'] = [[round(min(a) * rng.choice([0.02, 0.45]), 5), round(min(a) * rng.uniform(0.5, 0.6), 5)] for a in st['ae_z_mean']]
            return cfg
        mine = rng.sample(facs, rng.randint(1, min(3, len(facs))))
        d = dict(geometry=kind, facies=mine, contact_model=['flat'], dip=[R(-30, 0), R(5, 60)], azimuth=[R(-90, 0), R(5, 90)])
        if rng.random() < 0.6:
            d['altfacies'] = [rng.sample(mine, rng.randint(1, len(mine))) for _ in mine]
        d['structure'] = rng.choice(['massive', 'dip'] if kind != 'trough' else ['massive', 'dip', 'bulb', 'bulb_sets', 'random'])
        d['dipset_dist'] = R(0.1, 0.5)
        run['numsim'] = 20
        if kind == 'sheet':
            d['lens_thickness'] = round(lz / rng.uniform(25, 40), 5)
        elif kind == 'trough':
            d.update(length=R(0.3, 1), width=R(0.3, 1), depth=R(0.2, 0.5), agg=round(lz / 8, 4), buffer=0.0, bulbset_dist=R(0.1, 0.4),
                     trough_density=round(rng.uniform(4, 8) / (lx * ly), 4), paleoflow=[R(-90, 0), R(5, 90)])
        else:
            d.update(width=R(0.1, 0.4), depth=R(0.1, 0.4), h=R(0.1, 0.4), k=R(0.1, 1.5), ds=R(0.5, 2), eps_factor=0.0, channel_no=rng.randint(8, 12),
                     flow_angle=rng.choice([0.0, 90.0, 180.0, -90.0, R(-180, 180)]), agg=round(lz / 3.5, 4), buffer=0.0)
            r = rng.random()
            if r < 0.4:
                d['mig'] = R(0.1, 1)
            elif r < 0.6:
                d['eps_factor'] = R(0.1, 0.6)
        cfg.insert(3, ['e0', d])
        st.update(ae=['e0'], ae_in_strata=[['e0']] * ns, ae_prob=[[1.0]] * ns, avul_prob=[[0.0]] * ns, avul=[[0.0, 0.0]] * ns,
                  bg_facies=[facs[0]] * ns, ae_z_mean=[[20 * lz]] * ns, strata_contact_models=[['flat', z0 + lz]] * (ns - 1))
        return cfg

    def evaluate(self, case, W):
        cfg = case['cfg']
        r = self.run(case, W)
        if not r['ok']:
            return self.failed(case, r)
        for a in self.arrays(case, W):
            W.h.update(canon.digest_arrays(a).encode())
        models = r.get('model') or []
        if not models or any(x is None for x in models):
            raise Skip('structures can not be read')
        st = gen.get(cfg, 'strata')
        if case['kind'] == 'types':
            return self.types(cfg, st, models)
        E = gen.get(cfg, 'e0')
        I = info_of(cfg)
        fs = [I['fi'][f] for f in E['facies']]
        obs = [o for x in models for S in x['strata'] for A in S['aes'] for o in A['objects']]
        v = []
        if len(obs) < 60:
            raise Skip('too few objects')
        kind = case['kind']
        core.count('probe:objects of random distributions', len(obs))
        if kind == 'trough' and E['structure'] == 'random':
            for k in range(4):
                v += frequency(sum(o['structure'] == k for o in obs), len(obs), 0.25, 'random structure %d' % k)
        dips = [o['dip'] for o in obs if kind != 'trough' or o['structure'] < 2]
        if len(dips) > 60:
            v += uniformity(dips, *E['dip'], 'dip')
            if kind == 'sheet':
                v += uniformity([o['azim'] for o in obs], *E['azimuth'], 'azimuth')
            if kind == 'trough':
                v += uniformity([o['azim'] - o['alpha'] for o in obs if o['structure'] < 2], *E['azimuth'], 'azimuth')
        one = [o['facies'] for o in obs if (o['structure'] in (0, 2) if kind == 'trough' else not o['dipsets'])]
        v += occurs(one, fs, 'facies of objects')
        lay = [o['fa'] for o in obs if (o['structure'] in (1, 3) if kind == 'trough' else o['dipsets'])]
        v += occurs([l[0] for l in lay], fs, 'facies of the first layer')
        for i, f in enumerate(fs):
            nxt = [b for l in lay for a, b in zip(l, l[1:]) if a == f]
            v += occurs(nxt, [I['fi'][q] for q in E['altfacies'][i]] if E.get('altfacies') else fs, 'facies of a layer on facies %d' % f)
        m = gen.get(cfg, 'model')
        x0, y0 = m.get('x0', 0.0), m.get('y0', 0.0)
        if kind == 'trough':
            v += uniformity([o['alpha'] for o in obs], *E['paleoflow'], 'rotation of troughs')
            v += uniformity([o['x'] for o in obs], x0, x0 + m['lx'], 'x of trough centres')
            v += uniformity([o['y'] for o in obs], y0, y0 + m['ly'], 'y of trough centres')
            lam = E['trough_density'] * m['lx'] * m['ly']
            planes = m['lz'] / E['agg']
            if abs(len(obs) - lam * planes * len(models)) > 6 * math.sqrt(len(obs)) + lam * 1.01 * len(models):
                v.append(('density', '%d troughs, the density asks for %.1f' % (len(obs), lam * planes * len(models))))
        elif kind == 'channel':
            fl = math.radians(E.get('flow_angle') or 0.0)
            u = (math.cos(fl), math.sin(fl))
            dw = abs(m['lx'] * u[1]) + abs(m['ly'] * u[0])
            mx, my = x0 + m['lx'] / 2, y0 + m['ly'] / 2
            n = E['channel_no']
            if E['eps_factor']:
                curved = [o for o in obs if len(o['x_center']) > 10]
                turns = [float(np.ptp(np.unwrap(np.arctan2(o['vy'], o['vx'])))) for o in curved]
                if len(curved) > 20 and np.mean(np.array(turns) > 1e-3) < 0.5:
                    v.append(('fluctuations', '%d of %d channels are straight, fluctuations of %r asked for' % (
                        sum(q <= 1e-3 for q in turns), len(turns), E['eps_factor'])))
                return v[:3]
            first = [o for x in models for S in x['strata'] for A in S['aes'] for o in A['objects'][:n]]
            # (those that do not touch the domain have no points)
            if len(first) > 60 and not E.get('mig') and all(len(o['x_center']) for o in first):
                v += uniformity([float((o['y_center'][0] - my) * u[0] - (o['x_center'][0] - mx) * u[1]) for o in first],
                                -dw / 2, dw / 2, 'positions of channels')
            if E.get('mig'):
                # shifts between elevations
                sh = []
                for x in models:
                    for S in x['strata']:
                        for A in S['aes']:
                            o = A['objects']
                            for i in range(n, len(o)):
                                p, q = o[i - n], o[i]
                                if len(p['x_center']) and len(q['x_center']):
                                    sh.append(float((q['y_center'][0] - p['y_center'][0]) * u[0] - (q['x_center'][0] - p['x_center'][0]) * u[1]))
                if len(sh) > 60:
                    v += uniformity(sh, -E['mig'], E['mig'], 'migration of channels')
        return v[:3]

    def types(self, cfg, st, models):
        ns = len(st['strata'])
        v = []
        for k in range(ns):
            names, prob, mean = st['ae_in_strata'][k], st['ae_prob'][k], st['ae_z_mean'][k]
            first, thick = [], {}
            for x in models:
                S = x['strata'][ns - 1 - k]
                for A in S['aes'][:2]:
                    first.append(A['type'])
                for A in S['aes'][:2]:
                    if A is not S['aes'][-1]:
                        thick.setdefault(A['type'], []).append(float(A['top'].mean() - A['bottom'].mean()))
            for i, a in enumerate(names):
                v += frequency(first.count(a), len(first), prob[i] / sum(prob), 'element %s in stratum %s' % (a, st['strata'][k]))
            p, (lo, hi) = st['avul_prob'][k][0], st['avul'][k]
            for i, a in enumerate(names):
                t = np.array(thick.get(a, ()))
                if len(t) < 40:
                    continue
                want = mean[i] - p * (lo + hi) / 2
                sd = max(0.1 * mean[i], t.std())
                if abs(t.mean() - want) > 6 * sd / math.sqrt(len(t)):
                    v.append(('thickness', 'element %s in stratum %s: %d have a mean thickness of %.4g, asked for %.4g' % (
                        a, st['strata'][k], len(t), t.mean(), want)))
        return v[:3]

    def shrinks(self, case, W):
        return iter(())
