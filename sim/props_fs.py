"""File system and process properties: C01 - C11, C18, C19."""
import copy
import os
import random
import re
import signal

import canon
import core
import gen
import scene
from core import below, without, tree_diff
from props import Prop, Skip, register
from scene import pick_fault, relocate

CHEAP = ['npz', 'py', 'mat', 'hgs', 'vtr', 'h5']
ALLF = CHEAP + ['mf', 'mf6']
CRASH = ['crash', 'crash_after', 'torn']
ERRS = ['err', 'err', 'err', 'sticky', 'lostclose']
ENDS = CRASH + ERRS + ['sigint']


def formats(rng, heavy=0.08, lo=1, hi=3):
    k = rng.randint(lo, hi)
    fs = rng.sample(CHEAP, min(k, len(CHEAP)))
    if rng.random() < heavy:
        fs.append(rng.choice(['mf', 'mf6']))
    rng.shuffle(fs)
    return fs


def small(rng, fs=None, numsim=None, **kw):
    fs = fs or formats(rng)
    ns = numsim or rng.choice([1, 1, 2, 3])
    return gen.config(rng, rich=False, numsim=ns, outputs=fs, **kw)


def spec_of(sc, seed, flag=None, entry='api', **kw):
    d = dict(entry=entry, ini=sc['ini'], how=sc['how'], cwd=sc['cwd'], flag=flag, seed=seed)
    d.update(kw)
    return d


def inside(sc):
    return sc['ini'].startswith(sc['rundir'] + '/')


def reference(W, sc, spec):
    """The undisturbed run in a fresh directory."""
    s = {k: v for k, v in spec.items() if k not in ('faults', 'dirseed')}
    if inside(sc):
        s['flag'] = True
    elif s.get('flag') is None and s.get('entry') != 'cli':
        s['flag'] = None

    def fn():
        W.build(sc)
        before = W.snap()
        r = W.run(s)
        if not r['ok']:
            raise Skip('undisturbed run fails: %s %s' % (r['exc'], r['msg'][:80]))
        snap = W.snap()
        rd = below(snap, sc['rundir'])
        return dict(tree=canon.canon_tree(rd, W.root), trace=r['trace'], stdout=r['stdout'],
                    before=before, names=sorted(rd), snap=rd)
    return W.cached(['ref', sc, s], fn)


def dry(W, sc, spec, old):
    """Fault-free trace in the given scene (to place faults)."""
    s = {k: v for k, v in spec.items() if k != 'faults'}

    def fn():
        W.build(sc, old)
        r = W.run(s)
        return dict(trace=r['trace'], ok=r['ok'], status=r['status'], stdout=r['stdout'])
    return W.cached(['dry', sc, s, old], fn)


def parents(p):
    out = []
    while '/' in p:
        p = p.rsplit('/', 1)[0]
        out.append(p)
    return out


def outside_changes(sc, a, b):
    """What changed outside the run directory (missing parents may be created)"""
    a, b = without(a, sc['rundir']), without(b, sc['rundir'])
    for p in parents(sc['rundir']):
        if p not in a and p in b and b[p][0] == 'd':
            b = dict(b)
            del b[p]
    return tree_diff(a, b)


def shrink_cfg(cfg):
    """Simpler configurations."""
    run = gen.get(cfg, 'run')
    out = []

    def variant(f):
        c = copy.deepcopy(cfg)
        try:
            if f(c) is not False:
                out.append(c)
        except (KeyError, IndexError, TypeError):
            pass

    for i in range(len(run['outputs'])):
        if len(run['outputs']) > 1:
            variant(lambda c, i=i: gen.get(c, 'run')['outputs'].pop(i) and None)
    if run.get('numsim', 1) > 1:
        for n in sorted({1, 2, run['numsim'] - 1}):
            if n < run['numsim']:
                variant(lambda c, n=n: gen.get(c, 'run').__setitem__('numsim', n))
    if '_style' in run:
        variant(lambda c: gen.get(c, 'run').pop('_style') and None)
    st = gen.get(cfg, 'strata')
    if len(st['strata']) > 2:
        def drop(c, k):
            s = gen.get(c, 'strata')
            for key in ('strata', 'ae_in_strata', 'ae_prob', 'ae_z_mean', 'avul_prob', 'avul', 'bg_facies', 'bg_azim', 'bg_dip'):
                s[key].pop(k)
            s['strata_contact_models'].pop(min(k, len(s['strata_contact_models']) - 1))
        for k in range(len(st['strata'])):
            variant(lambda c, k=k: drop(c, k))
    for si, l in enumerate(st['ae_in_strata']):
        for j in range(len(l)):
            if len(l) > 1:
                def dropae(c, si=si, j=j):
                    s = gen.get(c, 'strata')
                    for key in ('ae_in_strata', 'ae_prob', 'ae_z_mean'):
                        s[key][si].pop(j)
                variant(dropae)
    used = {a for l in st['ae_in_strata'] for a in l}
    for a in st['ae']:
        if a not in used:
            def dropel(c, a=a):
                gen.get(c, 'strata')['ae'].remove(a)
                c[:] = [x for x in c if x[0] != a]
            variant(dropel)
    m = gen.get(cfg, 'model')
    for l, d in (('lx', 'dx'), ('ly', 'dy'), ('lz', 'dz')):
        dd = m.get(d) or m['dx']
        n = int(round(m[l] / dd))
        for k in sorted({1, n // 2, n - 1}):
            if 1 <= k < n:
                variant(lambda c, l=l, dd=dd, k=k: gen.get(c, 'model').__setitem__(l, float(repr(round(dd * k, 6)))))
    for o in ('x0', 'y0', 'z0', 'periodic', 'anisotropy'):
        if o in m:
            variant(lambda c, o=o: gen.get(c, 'model').pop(o) and None)
    for s, d in cfg:
        if s not in ('run', 'model', 'strata', 'hydraulics', 'flowtrans'):
            for o in ('altfacies', 'te_xyz', 'migrate', 'size_ztrend', 'bg_facies', 'lag_height', 'azimuth', 'dip'):
                if o in d:
                    variant(lambda c, s=s, o=o: gen.get(c, s).pop(o) and None)
    return out


class FsProp(Prop):
    """Cases: sc (scene), old (entries below the run directory or None), spec (with faults)"""

    def describe(self, case):
        return dict(kind=case['sc']['kind'], rundir=case['sc']['rundir'], ini=case['sc']['ini'],
                    outputs=gen.get(case['sc']['cfg'], 'run')['outputs'] if case['sc'].get('cfg') else None,
                    numsim=gen.get(case['sc']['cfg'], 'run').get('numsim', 1) if case['sc'].get('cfg') else None,
                    old=[e[:2] for e in case.get('old') or ()], spec=case.get('spec'), extra={k: v for k, v in case.items() if k in ('mutation', 'steps', 'block')})

    def shrinks(self, case, W):
        fs = case['spec'].get('faults') or []
        for i in range(len(fs)):
            c = copy.deepcopy(case)
            c['spec']['faults'].pop(i)
            yield c
        for k in ('dirseed', 'entropy', 'clock0', 'clockstep', 'block', 'entry'):
            if k in case['spec'] and not (k == 'entry' and case['spec'][k] == 'api'):
                c = copy.deepcopy(case)
                del c['spec'][k]
                if k == 'entry':
                    c['spec'].pop('kw', None)
                yield self.moved(case, c, W)
        for i in range(1, len(case.get('old') or ())):
            c = copy.deepcopy(case)
            c['old'].pop(i)
            yield self.moved(case, c, W)
        if case['sc'].get('cfg') is not None and case['sc'].get('text') is None:
            for cfg in shrink_cfg(case['sc']['cfg']):
                c = copy.deepcopy(case)
                c['sc']['cfg'] = cfg
                yield self.moved(case, c, W)

    def moved(self, case, c, W):
        """c with the faults moved to the same operations of its own trace"""
        if c['spec'].get('faults'):
            try:
                t = dry(W, c['sc'], c['spec'], c.get('old'))['trace']
            except (core.HarnessError, Skip):
                return c
            c['spec']['faults'] = [f for f in (relocate(f, t) for f in c['spec']['faults']) if f]
        return c


# ---------------------------------------------------------------------- C01
TRUE = ['true', 'True', 'yes', 'on', '1', 'TRUE']
FALSE = ['false', 'False', 'no', 'off', '0']


@register
class C01(FsProp):
    id = 'C01'

    def explore(self, rng, W):
        cfg = small(rng, formats(rng, 0.02, 1, 2), rng.choice([1, 1, 2]))
        sc = scene.place(rng, cfg, ['plain', 'named', 'modeldir', 'reldir', 'backup', 'inside'])
        perm = rng.choice([None, None, 'no', 'yes'])
        run = gen.get(cfg, 'run')
        if perm == 'yes':
            run['overwrite_old_output'] = rng.choice(['true', 'True'])
        elif perm == 'no':
            run['overwrite_old_output'] = rng.choice(['false', 'False'])
        old = scene.old_content(rng, sc)
        r = rng.random()
        if not inside(sc):
            if r < 0.08:
                old = [['f', '', 'a plain file']]
            elif r < 0.16:
                old = [['l', '', '@/outside/sub']]
        seed = rng.randrange(10**6)
        combos = []
        for entry in ('api', 'cli'):
            for flag in (None, False, True):
                if entry == 'cli' and flag is False:
                    continue
                combos.append((entry, flag, rng.random() < 0.5))
        for entry, flag, kw in combos:
            spec = spec_of(sc, seed, flag, entry, kw=kw, dirseed=rng.randrange(1000))
            yield dict(sc=sc, old=old, spec=spec)
            if self.permitted(sc, spec):
                continue
            t = dry(W, sc, spec, old)['trace']
            for _ in range(5):
                f = pick_fault(rng, t, ['err', 'err', 'err', 'crash', 'crash_after', 'sigint', 'short'])
                if f:
                    yield dict(sc=sc, old=old, spec=dict(spec, faults=[f]))

    @staticmethod
    def permitted(sc, spec):
        if spec.get('flag') is not None and not (spec['entry'] == 'cli' and not spec['flag']):
            return spec['flag']
        v = gen.get(sc['cfg'], 'run').get('overwrite_old_output')
        return v is not None and str(v).lower() in ('true', 'yes', 'on', '1')

    def evaluate(self, case, W):
        sc, spec = case['sc'], case['spec']
        W.build(sc, case['old'])
        before = W.snap()
        r = W.run(spec)
        after = W.snap()
        v = []
        if not self.permitted(sc, spec):
            d = tree_diff(before, after)
            if d:
                v.append(('touched', 'run directory exists, overwriting not permitted (%s flag=%r ini=%r), but: %s' % (
                    spec['entry'], spec['flag'], gen.get(sc['cfg'], 'run').get('overwrite_old_output'), '; '.join(d))))
            if r['ok']:
                v.append(('no error', 'run over an existing directory without permission reports success'))
        elif case['old'] and case['old'][0][0] == 'd' and not spec.get('faults'):
            if not r['ok']:
                ref = reference(W, sc, spec)        # raises Skip if that fails as well
                v.append(('refused', 'overwriting is permitted (%s flag=%r) but the run fails: %s %s' % (
                    spec['entry'], spec['flag'], r['exc'], (r['msg'] or r['stderr'])[:200])))
        return v

    def nontrivial(self, case, W):
        return True


# ---------------------------------------------------------------------- C02
def expected_overwritten(W, sc, spec):
    """canonical content of the run directory after an overwriting run"""
    return reference(W, sc, spec)['tree']


@register
class C02(FsProp):
    id = 'C02'

    def explore(self, rng, W):
        cfg = small(rng)
        sc = scene.place(rng, cfg, ['plain', 'plain', 'named', 'modeldir', 'reldir', 'backup', 'inside'])
        seed = rng.randrange(10**6)
        how = rng.choice(['flag', 'ini', 'cli'])
        if how == 'ini':
            gen.get(cfg, 'run')['overwrite_old_output'] = True
        for _ in range(5):
            old = scene.old_content(rng, sc)
            spec = spec_of(sc, seed, None if how == 'ini' else True, 'cli' if how == 'cli' else 'api',
                           dirseed=rng.randrange(1, 10**6))
            yield dict(sc=sc, old=old, spec=spec)
        # what an earlier run (complete or killed) left behind
        for _ in range(3):
            cfg2 = small(rng, formats(rng, 0.05, 2, 5), rng.choice([1, 2, 4, 11]))
            r2 = gen.get(cfg2, 'run')
            for k in ('runname', 'modeldir'):
                r2[k] = gen.get(cfg, 'run').get(k)
            prev = dict(cfg=cfg2, seed=rng.randrange(10**6), kill=rng.choice([None, rng.random()]))
            spec = spec_of(sc, seed, None if how == 'ini' else True, 'cli' if how == 'cli' else 'api',
                           dirseed=rng.randrange(1, 10**6))
            yield dict(sc=sc, old=[['d', '']], prev=prev, spec=spec)

    def evaluate(self, case, W):
        sc, spec = case['sc'], case['spec']
        want = expected_overwritten(W, sc, spec)
        W.build(sc, case['old'])
        if case.get('prev'):
            p = case['prev']
            sc2 = dict(sc, cfg=p['cfg'])
            with open(os.path.join(W.root, sc['ini']), 'wb') as f:
                f.write(scene.ini_text(sc2, W.root).encode())
            s2 = spec_of(sc2, p['seed'], True)
            if p['kill'] is not None:
                t = dry(W, sc2, s2, [['d', '']])['trace']
                W.build(sc2, case['old'])
                s2['faults'] = [['crash', t[int(p['kill'] * (len(t) - 1))][0], 0]]
            W.run(s2)
            if inside(sc) and os.path.exists(os.path.join(W.root, sc['ini'])):
                pass
            with open(os.path.join(W.root, sc['ini']), 'wb') as f:
                f.write(scene.ini_text(sc, W.root).encode())
        before = W.snap()
        r = W.run(spec)
        if not r['ok']:
            if before.get(sc['rundir'], ('',))[0] == 'd':
                core.count('probe:overwriting run failed')
            return []
        core.count('probe:overwritten')
        got = canon.canon_tree(below(W.snap(), sc['rundir']), W.root)
        if inside(sc) and not sc['ini'].endswith('_autogenerated_backup.ini'):
            pass
        d = canon.canon_diff(want, got)
        if d:
            return [('leftover' if any(x.startswith('unexpected') for x in d) else 'content',
                     'after a successful overwriting run the directory differs from that of a fresh run: ' + '; '.join(d))]
        return []

    def nontrivial(self, case, W):
        return len(case['old']) > 1 or bool(case.get('prev'))


# ---------------------------------------------------------------------- C03
@register
class C03(FsProp):
    id = 'C03'

    def explore(self, rng, W):
        seed = rng.randrange(10**6)
        if rng.random() < 0.2:       # the built-in test case
            cfg = small(rng, formats(rng, 0.1), rng.choice([1, 2]))
            gen.get(cfg, 'run')['runname'] = 'made'
            sc = dict(cfg=cfg, kind='testcase', name='made', ini='w/made.ini', rundir='tmp/none', cwd='cwd', how='abs')
            spec = spec_of(sc, seed, rng.choice([None, True, False]), rng.choice(['api', 'cli']), ini=None, made='w/made.ini')
            if spec['entry'] == 'cli':
                spec['flag'] = None
            yield dict(sc=sc, old=None, spec=spec)
            t = dry(W, sc, spec, None)['trace']
            for _ in range(8):
                f = pick_fault(rng, t, ['err', 'err', 'sticky', 'sigint', 'crash', 'lostclose'])
                if f:
                    yield dict(sc=sc, old=None, spec=dict(spec, faults=[f]))
            return
        cfg = small(rng)
        sc = scene.place(rng, cfg, ['plain', 'named', 'modeldir', 'deep', 'reldir', 'backup', 'inside'])
        old = None
        ow = rng.random() < 0.7 or inside(sc)
        if ow:
            old = scene.old_content(rng, sc)
            if rng.random() < 0.5:
                old += [e for e in ([['l', 'l1', '@/outside/sub'], ['l', 'a/b/l2', '@/outside'], ['l', 'l3', '@/' + sc['ini']],
                                     ['l', 'l4', '@/w/neighbour']]) if rng.random() < 0.6]
                if not inside(sc) and rng.random() < 0.15 and sc['kind'] in ('plain', 'named'):
                    old = None
        spec = spec_of(sc, seed, True if ow else rng.choice([None, True]), rng.choice(['api', 'cli']), dirseed=rng.randrange(1, 9999))
        yield dict(sc=sc, old=old, spec=spec)
        t = dry(W, sc, spec, old)['trace']
        for _ in range(7):
            fs = [pick_fault(rng, t, ENDS, [o for o in core.MUTATING + ('open', 'read', 'close', 'readdir', 'opendir', 'rmdir')])
                  for _ in range(rng.choice([1, 1, 2]))]
            fs = [f for f in fs if f]
            if fs:
                yield dict(sc=sc, old=old, spec=dict(spec, faults=fs))

    def evaluate(self, case, W):
        sc, spec = case['sc'], case['spec']
        W.build(sc, case['old'])
        before = W.snap()
        r = W.run(spec)
        after = W.snap()
        v = []
        if r['escapes']:
            v.append(('escape', 'tries to modify %s (%s)' % (r['escapes'][0][1].replace(W.root, '@'), r['escapes'][0][0])))
        if r.get('moved'):
            v.append(('working directory', 'the run (%s) leaves the process in another working directory' % r['status']))
        if sc['kind'] == 'testcase':
            # a fault while the directory is being created or removed can not be answered
            broken_cleanup = False
            if r['fired']:
                t = dry(W, sc, spec, case['old'])['trace']
                made = {x[2] for x in t if x[1] == 'creat'}
                first = min([x[0] for x in t if x[1] == 'mkdir'], default=0)
                last = max([x[0] for x in t if x[1] in ('creat', 'write', 'pwrite', 'close') and x[2] in made], default=0)
                broken_cleanup = not all(first < f[1] <= last for f in r['fired'])
            if r['status'] == 'killed' or broken_cleanup:
                before = without(before, 'tmp')
                after = without(after, 'tmp')
            d = tree_diff(before, after)
            if d:
                v.append(('testcase leftovers', 'the test case (%s) leaves: %s' % (r['status'], '; '.join(d))))
        else:
            d = outside_changes(sc, before, after)
            if d:
                v.append(('outside', 'outside the run directory %s (%s): %s' % (sc['rundir'], r['status'], '; '.join(d))))
        return v

    def nontrivial(self, case, W):
        return bool(W.fired) or bool(case['old'])


# ---------------------------------------------------------------------- C04
def mutations(rng, cfg):
    """[name, cfg or text]: descriptions of defects every reader must reject"""
    out = []
    cfg = copy.deepcopy(cfg)
    gen.get(cfg, 'run').pop('_style', None)     # a short form may repair a defect

    def m(name, f):
        c = copy.deepcopy(cfg)
        f(c)
        out.append([name, gen.to_ini(c)])
    G = gen.get
    text = gen.to_ini(cfg)
    for s in ('run', 'model', 'strata', 'hydraulics'):
        m('no section ' + s, lambda c, s=s: c.__setitem__(slice(None), [x for x in c if x[0] != s]))
    els = [s for s, d in cfg if s not in ('run', 'model', 'strata', 'hydraulics', 'flowtrans')]
    for o in ('dx', 'lx', 'ly', 'lz'):
        m('model without ' + o, lambda c, o=o: G(c, 'model').pop(o))
        m('model %s not a number' % o, lambda c, o=o: G(c, 'model').__setitem__(o, 'wide'))
    for o in ('strata', 'ae', 'ae_in_strata', 'ae_prob', 'ae_z_mean', 'avul_prob', 'avul', 'bg_facies', 'bg_azim', 'bg_dip',
              'strata_contact_models'):
        m('strata without ' + o, lambda c, o=o: G(c, 'strata').pop(o))
    for o in ('hydrofacies', 'k_h', 'sig_y', 'k_ratio', 'n', 'sig_n', 'ycorlengths', 'ncorlengths'):
        m('hydraulics without ' + o, lambda c, o=o: G(c, 'hydraulics').pop(o))
    for o in ('k_h', 'n', 'sig_y'):
        m('hydraulics %s too long' % o, lambda c, o=o: G(c, 'hydraulics')[o].append(1.0))
        m('hydraulics %s not a number' % o, lambda c, o=o: G(c, 'hydraulics')[o].__setitem__(0, 'large'))
    m('one contact too many', lambda c: G(c, 'strata')['strata_contact_models'].append(['flat', 1.0]))
    m('unknown contact', lambda c: G(c, 'strata')['strata_contact_models'].__setitem__(0, ['bumpy', 1.0]))
    m('contact without depth', lambda c: G(c, 'strata').__setitem__('strata_contact_models', [['flat'] for _ in G(c, 'strata')['strata_contact_models']]))
    m('unknown background facies', lambda c: G(c, 'strata')['bg_facies'].__setitem__(0, 'nosuch'))
    m('avul too long', lambda c: G(c, 'strata').__setitem__('avul', [[0.0, 0.1, 0.2] for _ in G(c, 'strata')['strata']]))
    m('unknown element in strata', lambda c: G(c, 'strata')['ae_in_strata'][0].__setitem__(0, 'nosuch'))
    m('unlisted element', lambda c: c.append(['stray', dict(G(c, els[0]))]))
    m('unknown output', lambda c: G(c, 'run')['outputs'].append('xyz'))
    m('numsim not a number', lambda c: G(c, 'run').__setitem__('numsim', 'many'))
    m('overwrite not a boolean', lambda c: G(c, 'run').__setitem__('overwrite_old_output', 'maybe'))
    m('heterogeneity level', lambda c: G(c, 'model').__setitem__('heterogeneity_level', 'all'))
    m('no flowtrans for hgs', lambda c: (G(c, 'run')['outputs'].append('hgs'),
                                         c.__setitem__(slice(None), [x for x in c if x[0] != 'flowtrans'])))
    for a in els:
        m('element without geometry', lambda c, a=a: G(c, a).pop('geometry'))
        m('unknown geometry', lambda c, a=a: G(c, a).__setitem__('geometry', 'cube'))
        m('element without facies', lambda c, a=a: G(c, a).pop('facies'))
        m('unknown facies', lambda c, a=a: G(c, a)['facies'].append('nosuch'))
        m('unknown altfacies', lambda c, a=a: G(c, a).__setitem__('altfacies', [['nosuch']] * len(G(c, a)['facies'])))
        m('unknown element background', lambda c, a=a: G(c, a).__setitem__('bg_facies', 'nosuch'))
        m('element without structure', lambda c, a=a: G(c, a).pop('structure'))
        m('unknown structure', lambda c, a=a: G(c, a).__setitem__('structure', 'spiral'))
        m('dip without distance', lambda c, a=a: (G(c, a).__setitem__('structure', 'dip'), G(c, a).pop('dipset_dist', None)))
        if G(cfg, a)['geometry'] == 'trough':
            m('bulb sets without distance', lambda c, a=a: (G(c, a).__setitem__('structure', 'bulb_sets'), G(c, a).pop('bulbset_dist', None)))
        if G(cfg, a)['geometry'] != 'sheet':
            m('lag without facies', lambda c, a=a: (G(c, a).__setitem__('lag_height', 0.1), G(c, a).pop('lag_facies', None)))
            m('unknown lag facies', lambda c, a=a: (G(c, a).__setitem__('lag_height', 0.1), G(c, a).__setitem__('lag_facies', 'nosuch')))
        for o in ('width', 'depth', 'agg', 'lens_thickness', 'length', 'h', 'channel_no'):
            if o in G(cfg, a):
                m('element without ' + o, lambda c, a=a, o=o: G(c, a).pop(o))
                m('element %s not a number' % o, lambda c, a=a, o=o: G(c, a).__setitem__(o, 'big'))
        m('dip of wrong length', lambda c, a=a: G(c, a).__setitem__('dip', [1.0, 2.0, 3.0]))
        m('element contact with wrong parameters', lambda c, a=a: G(c, a).__setitem__('contact_model', ['random', 0.1]))
    out += anywhere(rng, cfg, 25)
    out.append(['empty file', ''])
    out.append(['no section header', 'dx = 1\n'])
    out.append(['garbage', '\x00\x01garbage'])
    out.append(['duplicate section', text + '\n[run]\nnumsim = 1\n'])
    out.append(['duplicate option', text.replace('[run]', '[run]\nnumsim = 1\nnumsim = 1', 1) + '\n'])
    out.append(['line without value', text + '\nnonsense line\n'])
    out.append(['unclosed section', text + '\n[broken\n'])
    out.append(['list not closed', text.replace(']\n', '\n', 1) if ']\n' in text else text + '\n['])
    return out


NAMES_ONLY = {('strata', 'strata'), ('hydraulics', 'hydrofacies')}
ANY_LENGTH = {('facies', 0), ('altfacies', 1), ('outputs', 0), ('ae', 0), ('te_xyz', 0)}


def anywhere(rng, cfg, n):
    """n defects of type or shape, of any option at any position"""
    spots = []

    def walk(v, path):
        if isinstance(v, list):
            for i, x in enumerate(v):
                walk(x, path + [i])
            spots.append(['shape', path])
        else:
            spots.append(['value', path])
    for i, (s, d) in enumerate(cfg):
        for o in d:
            if d[o] is not None and o not in ('runname', 'modeldir', 'basename'):
                walk(d[o], [i, o])
    out = []
    for kind, path in rng.sample(spots, min(n, len(spots))):
        sec, opt, depth = cfg[path[0]][0], path[1], len(path) - 2
        c = copy.deepcopy(cfg)
        at = c[path[0]][1]
        for p in path[1:-1]:
            at = at[p]
        last = path[-1]
        if kind == 'value':
            if (sec, opt) in NAMES_ONLY:
                continue
            at[last] = 'nosuch'
        else:
            if (opt, depth) in ANY_LENGTH:
                continue
            if rng.random() < 0.5:
                at[last].append(copy.deepcopy(at[last][-1]))
            elif len(at[last]) > 1:
                at[last].pop()
            else:
                continue
        out.append(['%s of %s %s %s' % (kind, sec, opt, path[2:]), gen.to_ini(c)])
    return out


@register
class C04(FsProp):
    id = 'C04'

    def explore(self, rng, W):
        if rng.random() < 0.5:
            cfg = small(rng, formats(rng, 0.0, 1, 2), rng.choice([1, 2]), het=rng.choice(['facies', 'internal']))
        else:
            cfg = gen.config(rng, maxn=4, numsim=rng.choice([1, 2]), outputs=formats(rng, 0.0, 1, 2), het=rng.choice(['facies', 'internal']),
                             trends=rng.random() < 0.5)
        sc = scene.place(rng, cfg, ['plain', 'named', 'modeldir', 'deep', 'backup', 'inside'])
        seed = rng.randrange(10**6)
        old = scene.old_content(rng, sc) if inside(sc) or rng.random() < 0.7 else None

        def spec():
            e = rng.choice(['api', 'api', 'cli'])
            return spec_of(sc, seed, rng.choice([True, True, None]), e, dirseed=rng.randrange(99))
        ms = mutations(rng, cfg)
        for name, text in rng.sample(ms, 20):
            # keep the run name and model directory defects must not redirect
            yield dict(sc=dict(sc, text=text), old=old, spec=spec(), mutation=name)
        if not inside(sc):
            yield dict(sc=dict(sc, noini=True), old=old, spec=spec(), mutation='missing file')
        # read errors
        s = spec()
        t = dry(W, sc, s, old)['trace']
        inir = [x for x in t if x[2] == sc['ini'] and x[1] in ('open', 'read', 'fstat', 'stat', 'lstat', 'access')]
        for _ in range(5):
            f = pick_fault(rng, inir, ['err'])
            if f:
                yield dict(sc=sc, old=old, spec=dict(s, faults=[f]), mutation='read error')

    def evaluate(self, case, W):
        sc, spec = case['sc'], case['spec']
        W.build(sc, case['old'])
        before = W.snap()
        r = W.run(spec)
        after = W.snap()
        v = []
        if case['mutation'] == 'read error':
            hit = [f for f in r['fired'] if f[3] in ('open', 'read')]
            if not hit or r['ok']:
                # the error was not met, or overcome: then it is an undisturbed run
                if r['ok']:
                    ref = reference(W, sc, spec)
                    d = canon.canon_diff(ref['tree'], canon.canon_tree(below(after, sc['rundir']), W.root))
                    if d:
                        v.append(('partly read', 'run succeeds in spite of a read error of the parameter file, but: ' + '; '.join(d)))
                return v
            # an error reported before anything was done must leave everything
            ops = [t for t in r['trace'] if t[1] in core.MUTATING]
            first = ops[0][0] if ops else 10**9
            if hit[0][1] < first:
                d = tree_diff(before, after)
                if d:
                    v.append(('touched', 'parameter file can not be read (%s at event %d), but: %s' % (hit[0][3], hit[0][1], '; '.join(d))))
            return v
        core.count('probe:rejected ' + (case['mutation'] if ' of ' not in case['mutation'] else case['mutation'].split(' ')[0] + ' of any option'))
        if r['ok']:
            v.append(('accepted', 'parameter file with defect "%s" is accepted' % case['mutation']))
        d = tree_diff(before, after)
        if d:
            v.append(('touched', 'parameter file with defect "%s" (run ends with %s %s): %s' % (
                case['mutation'], r['status'], r['exc'], '; '.join(d))))
        return v

    def nontrivial(self, case, W):
        return True


# ---------------------------------------------------------------------- C05
@register
class C05(FsProp):
    id = 'C05'

    def explore(self, rng, W):
        fs = formats(rng, 0.15, 1, 3)
        cfg = small(rng, fs, rng.choice([1, 1, 2, 3]))
        sc = scene.place(rng, cfg, ['plain', 'named', 'modeldir', 'deep', 'backup'])
        seed = rng.randrange(10**6)
        ow = inside(sc) or rng.random() < 0.3
        old = scene.old_content(rng, sc, special=rng.random() < 0.3) if ow else None
        spec = spec_of(sc, seed, True if ow else None, rng.choice(['api', 'api', 'cli']), dirseed=rng.randrange(1, 999))
        yield dict(sc=sc, old=old, spec=spec)
        t = dry(W, sc, spec, old)['trace']
        for _ in range(10):
            k = rng.choice([1, 1, 1, 2, 3])
            f = [pick_fault(rng, t, ERRS, None if rng.random() < 0.3 else core.MUTATING + ('close',)) for _ in range(k)]
            f = [x for x in f if x]
            if f:
                yield dict(sc=sc, old=old, spec=dict(spec, faults=f))
        for _ in range(2):
            f = pick_fault(rng, t, ['sigint'], None if rng.random() < 0.5 else core.MUTATING + ('close',))
            if f:
                yield dict(sc=sc, old=old, spec=dict(spec, faults=[f]))
        # partial writes alone, or in front of a full disk
        for _ in range(3):
            f = pick_fault(rng, t, ['short', 'short', 'eintr'], ('write', 'pwrite'))
            if f:
                g = ['sticky', f[1] + 1, 28, f[3], f[4], f[5]]
                yield dict(sc=sc, old=old, spec=dict(spec, faults=[f] if rng.random() < 0.5 else [f, g]))

    def evaluate(self, case, W):
        sc, spec = case['sc'], case['spec']
        ref = reference(W, sc, spec)
        W.build(sc, case['old'])
        r = W.run(spec)
        if not r['ok']:
            core.count('probe:failed as it should' if r['fired'] else 'probe:failed without fault')
            return []
        core.count('probe:success in spite of a fault' if r['fired'] else 'probe:success')
        got = canon.canon_tree(below(W.snap(), sc['rundir']), W.root)
        d = canon.canon_diff(ref['tree'], got)
        # complete realisations: what the parameter file asks for
        if not d:
            d = missing_outputs(sc, ref['names'])
        if d:
            return [('incomplete', 'run reports success (faults: %s) but: %s' % (
                [f[:1] + f[3:] for f in r['fired']], '; '.join(d)))]
        return []


EXT = dict(npz='.npz', py='.pickle', mat='.mat', h5='.h5', vtr='.vtr')
DIRS = dict(mf='MODFLOW', mf6='mf6', hgs='HGS')


def missing_outputs(sc, names):
    """requested outputs that do not exist at all"""
    run = gen.get(sc['cfg'], 'run')
    n = run.get('numsim', 1)
    pre = [''] if n == 1 else ['real_%03d/' % i for i in range(1, n + 1)]
    out = []
    for p in pre:
        for f in run['outputs']:
            if f in EXT:
                if p + sc['name'] + EXT[f] not in names:
                    out.append('missing ' + p + sc['name'] + EXT[f])
            elif not any(x.startswith(p + DIRS[f] + '/') for x in names):
                out.append('missing ' + p + DIRS[f])
    return out


# ---------------------------------------------------------------------- C06
def compare_formats(sc, snap, prefix, v, root, arr=None):
    """Compares all formats of one realisation; appends violations to v"""
    import numpy as np
    name = sc['name']
    run = gen.get(sc['cfg'], 'run')
    outs = run['outputs']
    m = gen.get(sc['cfg'], 'model')
    dx = m['dx']
    dy = m.get('dy') or dx
    dz = m.get('dz') or dx
    files = {k[len(prefix):]: e[1] for k, e in snap.items() if k.startswith(prefix) and e[0] == 'f'}
    data = {}
    for f in ('npz', 'py', 'mat', 'h5'):
        if f in outs:
            fn = name + EXT[f]
            if fn not in files:
                v.append(('missing', prefix + fn))
                continue
            try:
                data[f] = canon.READERS[EXT[f]](files[fn])
            except Exception as e:
                v.append(('unreadable', '%s%s: %s' % (prefix, fn, e)))
    if not data:
        return None
    base = next(iter(data))
    A = data[base]
    shape = A['facies'].shape
    for f, B in data.items():
        if set(A) != set(B):
            v.append(('names', '%s holds %s, %s holds %s' % (base, sorted(A), f, sorted(B))))
            continue
        for k in A:
            a, b = A[k], B[k]
            if f == 'mat' or base == 'mat':
                # Matlab arrays have no trailing dimensions of length one
                ok = a.size == b.size and np.array_equal(np.squeeze(a), np.squeeze(b), equal_nan=a.dtype.kind == 'f')
            else:
                ok = a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=a.dtype.kind == 'f')
            if not ok:
                v.append(('values', '%s differs between %s and %s' % (k, base, f)))
    if base == 'mat':
        n3 = [int(round(l / d)) for l, d in ((m['lx'], dx), (m['ly'], dy), (m['lz'], dz))]
        A = {k: (a.reshape(n3) if a.size == int(np.prod(n3)) else a.reshape(n3 + [3, 3])) for k, a in A.items()}
        shape = tuple(n3)
    if 'vtr' in outs:
        fn = name + '.vtr'
        try:
            c, cells = canon.read_vtr(files[fn])
        except KeyError:
            v.append(('missing', prefix + fn))
        except Exception as e:
            v.append(('unreadable', '%s%s: %s' % (prefix, fn, e)))
        else:
            for x, o, d, n in zip(c, ('x0', 'y0', 'z0'), (dx, dy, dz), shape):
                if len(x) != n + 1 or not np.allclose(x, m.get(o, 0.0) + d * np.arange(n + 1), rtol=1e-9, atol=1e-9 * max(1, abs(d) * n)):
                    v.append(('grid', 'vtr coordinates %s are not those of the parameter file' % o))
            want = set(A) - {'ktensors'}
            if set(cells) != want:
                v.append(('names', 'vtr holds %s instead of %s' % (sorted(cells), sorted(want))))
            for k in want & set(cells):
                if not np.array_equal(cells[k], A[k], equal_nan=A[k].dtype.kind == 'f'):
                    v.append(('values', '%s differs between %s and vtr' % (k, base)))
    if 'hgs' in outs:
        for fn, cols, pr in (('HGS/ktensors.txt', None, 1e-3), ('HGS/porosity.txt', None, None)):
            if fn not in files:
                v.append(('missing', prefix + fn))
                continue
            try:
                T = canon.read_table(files[fn])
            except Exception as e:
                v.append(('unreadable', '%s%s: %s' % (prefix, fn, e)))
                continue
            N = int(np.prod(shape))
            if T.shape[0] != N or not np.array_equal(T[:, 0], np.arange(1, N + 1)):
                v.append(('values', '%s: cells are not numbered 1..%d' % (fn, N)))
                continue
            if 'ktensors' in fn:
                K = A['ktensors']
                for j, (a, b) in enumerate(((0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2))):
                    x = K[..., a, b].flatten()
                    if not np.allclose(T[:, j + 1], x, rtol=1.001e-3, atol=0):
                        v.append(('values', '%s: component %d%d differs from ktensors' % (fn, a, b)))
            elif not np.allclose(T[:, 1], A['poros'].flatten(), rtol=0, atol=0.50001e-3):
                v.append(('values', '%s differs from poros' % fn))
    if 'mf' in outs:
        try:
            dims = canon.dis_dims(files['MODFLOW/%s.dis' % name])
            L = canon.read_lpf(files['MODFLOW/%s.lpf' % name], dims)
        except KeyError as e:
            v.append(('missing', prefix + str(e)))
        except Exception as e:
            v.append(('unreadable', '%sMODFLOW: %s' % (prefix, e)))
        else:
            hk = L.get('hk')
            va = L.get('vani', L.get('vka'))
            check_mf(v, A, [('hk', hk, 'k_iso', 2e-6, 1e-30), ('vani', va, 'anirat', 2e-6, 1e-30)], 'MODFLOW', arr)
    if 'mf6' in outs:
        try:
            dims = canon.mf6_dims(files['mf6/%s.dis' % name])
            npf = [k for k in files if k.startswith('mf6/') and k.endswith('.npf')]
            g = canon.read_mf6_grid(files[npf[0]])
            k = canon.mf6_array(g['k'], dims)
            k33 = canon.mf6_array(g['k33'], dims) if 'k33' in g else None
            ang = {a: canon.mf6_array(g[a], dims) for a in ('angle1', 'angle2') if a in g}
        except (KeyError, IndexError) as e:
            v.append(('missing', prefix + 'mf6 ' + str(e)))
        except Exception as e:
            v.append(('unreadable', '%smf6: %s' % (prefix, e)))
        else:
            # flopy prints eight decimals
            want = [('k', k, 'k_iso', 1e-7, 1.01e-8)]
            A6 = dict(A)
            if k33 is not None:
                A6['k_iso / anirat'] = A['k_iso'] / A['anirat']
                want.append(('k33', k33, 'k_iso / anirat', 1e-7, 1.01e-8))
            for a, n_ in (('angle1', 'azim'), ('angle2', 'dip')):
                if a in ang:
                    want.append((a, ang[a], n_, 1e-7, 1.01e-8))
            check_mf(v, A6, want, 'mf6', arr)
    return A


def printed(a, b, rtol, atol):
    """a is b up to the printed precision (small numbers are printed with exponent)"""
    import numpy as np
    m = np.abs(b)
    return bool(np.all((np.abs(a - b) <= rtol * m + np.where(m >= 9e-4, atol, 1e-30)) | (np.isnan(a) & np.isnan(b))))


def arrangements(A, want):
    """The arrangements of the axes that map all arrays"""
    return [t for t in canon.transforms(None)
            if all(canon.apply_t(A[key], t).shape == arr.shape and printed(arr, canon.apply_t(A[key], t), tol, at)
                   for lab, arr, key, tol, at in want)]


def check_mf(v, A, want, what, arr=None):
    """Some fixed arrangement of the axes maps all arrays (orientation itself is not claimed)."""
    for lab, a, key, tol, at in want:
        if a is None:
            v.append(('missing', '%s: no array %s' % (what, lab)))
            return
    ts = arrangements(A, want)
    if ts:
        if arr is not None:
            arr.setdefault(what, []).append(ts)
        return
    # which one can not be matched
    for w in want:
        if not arrangements(A, [w]):
            v.append(('values', '%s: %s is no arrangement of %s' % (what, w[0], w[2])))
            return
    v.append(('values', '%s: arrays are arranged differently' % what))


def usual_arrangement(W, what):
    """The arrangements that fit a model of 2 x 3 x 4 different cells"""
    def fn():
        rng = random.Random(5)
        cfg = gen.config(rng, rich=True, het='internal', outputs=['npz', 'mf' if what == 'MODFLOW' else 'mf6'])
        m = gen.get(cfg, 'model')
        for o in ('x0', 'y0', 'z0', 'periodic', 'heterogeneity'):
            m.pop(o, None)
        m.update(dx=1.0, dy=1.0, dz=1.0, lx=2.0, ly=3.0, lz=4.0)
        for s, d in cfg:
            if 'geometry' in d:
                for k in ('te_xyz', 'lag_height'):
                    d.pop(k, None)
        st = gen.get(cfg, 'strata')
        st['strata_contact_models'] = [['flat', 2.0 + 0.5 * i] for i in range(len(st['strata']) - 1)]
        h = gen.get(cfg, 'hydraulics')
        h['sig_y'] = [1.0 for _ in h['sig_y']]
        sc = scene.place(rng, cfg, ['plain'])
        W.build(sc)
        r = W.run(spec_of(sc, 1))
        if not r['ok']:
            return None
        arr, v = {}, []
        compare_formats(sc, below(W.snap(), sc['rundir']), '', v, W.root, arr)
        return arr.get(what, [None])[0]
    return W.cached(['arrangement', what], fn)


@register
class C06(FsProp):
    id = 'C06'

    def explore(self, rng, W):
        r = rng.random()
        if r < 0.35:
            fs = list(ALLF)
        else:
            fs = rng.sample(CHEAP, rng.randint(2, 6))
            if not any(f in fs for f in ('npz', 'py', 'mat', 'h5')):
                fs.append('npz')
        rng.shuffle(fs)
        cfg = gen.config(rng, rich=rng.random() < 0.5, maxn=5, numsim=rng.choice([1, 1, 2]), outputs=fs, trends=rng.random() < 0.3)
        if 'hgs' not in fs and 'mf' not in fs and 'mf6' not in fs and rng.random() < 0.15:
            gen.get(cfg, 'model')['hydraulics'] = False
        sc = scene.place(rng, cfg, ['plain', 'named', 'modeldir'])
        seed = rng.randrange(10**6)
        spec = spec_of(sc, seed)
        yield dict(sc=sc, old=None, spec=spec)
        t = dry(W, sc, spec, None)['trace']
        for _ in range(2 if len(fs) == 8 else 4):
            f = [pick_fault(rng, t, ['short', 'short', 'short', 'eintr', 'clock'], ('write', 'pwrite', 'read', 'pread', 'creat', 'open'))
                 for _ in range(rng.randint(1, 4))]
            f = [x for x in f if x]
            if f:
                yield dict(sc=sc, old=None, spec=dict(spec, faults=f))
        # another subset and order of the formats
        fs2 = rng.sample(fs, rng.randint(1, len(fs)))
        yield dict(sc=sc, old=None, spec=spec, subset=fs2)

    def evaluate(self, case, W):
        sc, spec = case['sc'], case['spec']
        W.build(sc)
        r = W.run(spec)
        if not r['ok']:
            if spec.get('faults'):
                W.build(sc)
                r2 = W.run({k: x for k, x in spec.items() if k != 'faults'})
                if not r2['ok']:
                    raise Skip('undisturbed run fails')
                if any(f[0] == 'err' and f[3] not in ('write', 'pwrite', 'read', 'pread') for f in r['fired']):
                    return []       # the positions of later faults were shifted by earlier ones
                core.count('probe:benign event makes the run fail')
                return [('benign', 'a benign event (%s) makes the run fail: %s %s' % (r['fired'], r['exc'], r['msg'][:200]))]
            # which format fails?
            return [('fails', 'writing %s fails: %s %s' % (gen.get(sc['cfg'], 'run')['outputs'], r['exc'], r['msg'][:200]))] \
                if self.only_output(case, W) else []
        snap = below(W.snap(), sc['rundir'])
        n = gen.get(sc['cfg'], 'run').get('numsim', 1)
        v = []
        arr = {}
        for i in range(n):
            compare_formats(sc, snap, '' if n == 1 else 'real_%03d/' % (i + 1), v, W.root, arr)
        if not v:
            for what in sorted(arr):
                usual = usual_arrangement(W, what)
                if usual and not all(any(t in usual for t in ts) for ts in arr[what]):
                    v.append(('arrangement', '%s: cells are arranged differently from other models (%s instead of %s)' % (what, arr[what][0], usual)))
        if case.get('subset') and not v:
            sc2 = copy.deepcopy(sc)
            gen.get(sc2['cfg'], 'run')['outputs'] = case['subset']
            W.build(sc2)
            r2 = W.run(spec)
            if not r2['ok']:
                return [('subset', 'formats %s succeed, but the subset %s fails: %s' % (
                    gen.get(sc['cfg'], 'run')['outputs'], case['subset'], r2['msg'][:200]))]
            a = canon.canon_tree({k: e for k, e in below(W.snap(), sc['rundir']).items() if not k.endswith('.ini')}, W.root)
            b = canon.canon_tree({k: e for k, e in snap.items() if not k.endswith('.ini')}, W.root)
            d = [x for x in canon.canon_diff(a, {k: e for k, e in b.items() if k in a})]
            if d:
                v.append(('subset', 'the outputs %s differ if %s are requested: %s' % (
                    case['subset'], gen.get(sc['cfg'], 'run')['outputs'], '; '.join(d))))
        return v

    def only_output(self, case, W):
        """Does the failure come from writing outputs?  (It does if no output fails without any.)"""
        sc = copy.deepcopy(case['sc'])
        gen.get(sc['cfg'], 'run')['outputs'] = ['npz']
        W.build(sc)
        return W.run(dict(case['spec'], faults=[]))['ok']

    def nontrivial(self, case, W):
        return len(gen.get(case['sc']['cfg'], 'run')['outputs']) > 1


# ---------------------------------------------------------------------- C07
def real_prefix(n, i):
    return '' if n == 1 else 'real_%03d' % i


@register
class C07(FsProp):
    id = 'C07'

    def explore(self, rng, W):
        fs = formats(rng, 0.06, 1, 3)
        n = rng.choice([1, 2, 3, 3, 4, 5, 12])
        if rng.random() < 0.06:
            n, fs = rng.choice([100, 101, 113]), [rng.choice(['npz', 'mat', 'py'])]
        cfg = small(rng, fs, n)
        sc = scene.place(rng, cfg, ['plain', 'named', 'modeldir'])
        seed = rng.randrange(10**6)
        ow = rng.random() < 0.25
        old = scene.old_content(rng, sc, special=False) if ow else None
        spec = spec_of(sc, seed, True if ow else None, dirseed=rng.randrange(1, 99))
        yield dict(sc=sc, old=old, spec=spec, k=rng.randint(1, n))
        if n == 1:
            return
        t = dry(W, sc, spec, old)['trace']
        # faults while the second or a later realisation is written
        start = [x[0] for x in t if 'real_002' in x[2]]
        for _ in range(6 if n < 50 else 2):
            f = pick_fault(rng, t, ENDS, None, after=(start[0] if start and rng.random() < 0.8 else -1))
            if f:
                yield dict(sc=sc, old=old, spec=dict(spec, faults=[f]))

    def evaluate(self, case, W):
        sc, spec = case['sc'], case['spec']
        n = gen.get(sc['cfg'], 'run').get('numsim', 1)
        ref = reference(W, sc, spec)
        fs = gen.get(sc['cfg'], 'run')['outputs']
        if not spec.get('faults'):
            W.build(sc, case['old'])
            r = W.run(spec)
            if not r['ok']:
                return []
            got = canon.canon_tree(below(W.snap(), sc['rundir']), W.root)
            v = []
            d = missing_outputs(sc, got)
            allowed = set()
            for i in range(1, n + 1):
                p = real_prefix(n, i)
                if p:
                    allowed.add(p)
                for f in fs:
                    allowed.add((p + '/' if p else '') + (sc['name'] + EXT[f] if f in EXT else DIRS[f]))
            for k in got:
                top = k.split('/')
                short = '/'.join(top[:(1 if n == 1 else 2)])
                if short not in allowed and k not in allowed and not k.endswith('_autogenerated_backup.ini'):
                    d.append('unexpected ' + k)
            if d:
                v.append(('layout', '%d realisations of %s: %s' % (n, fs, '; '.join(d[:6]))))
            # the first k realisations are those of a run with k realisations
            k = case.get('k', 1)
            sc2 = copy.deepcopy(sc)
            gen.get(sc2['cfg'], 'run')['numsim'] = k
            W.build(sc2)
            r2 = W.run(dict(spec, faults=[]))
            if r2['ok'] and not v:
                got2 = canon.canon_tree(below(W.snap(), sc['rundir']), W.root)
                for i in range(1, k + 1):
                    a, b = sub(got, real_prefix(n, i)), sub(got2, real_prefix(k, i))
                    d = canon.canon_diff(noini(b), noini(a))
                    if d:
                        v.append(('order', 'realisation %d of %d is not realisation %d of a run with %d: %s' % (i, n, i, k, '; '.join(d))))
                        break
            return v
        # everything complete before the fault must survive it
        t = dry(W, sc, dict(spec), case['old'])['trace']
        W.build(sc, case['old'])
        r = W.run(spec)
        pos = min([f[1] for f in r['fired']], default=None)
        if pos is None:
            return []
        got = canon.canon_tree(below(W.snap(), sc['rundir']), W.root)
        v = []
        for i in range(1, n + 1):
            p = sc['rundir'] + '/real_%03d' % i
            idx = [x[0] for x in t if x[2] == p or x[2].startswith(p + '/')]
            if idx and max(idx) < pos:
                core.count('probe:finished realisation before the fault')
                a, b = sub(ref['tree'], 'real_%03d' % i), sub(got, 'real_%03d' % i)
                d = canon.canon_diff(a, b)
                if d:
                    v.append(('damaged', 'realisation %d was complete before event %d (%s), but then: %s' % (i, pos, r['status'], '; '.join(d))))
        return v

    def nontrivial(self, case, W):
        return gen.get(case['sc']['cfg'], 'run').get('numsim', 1) > 1


def sub(tree, prefix):
    if not prefix:
        return tree
    return {k[len(prefix) + 1:]: v for k, v in tree.items() if k.startswith(prefix + '/')}


def noini(t):
    return {k: v for k, v in t.items() if not k.endswith('.ini') and not k.startswith('real_')}


# ---------------------------------------------------------------------- C08
def ini_equal(W, sc, data):
    """Does the file content hold the settings of the scene's parameter file?"""
    try:
        a = canon.read_ini(scene.ini_text(sc, W.root).encode('utf-8'))
        b = canon.read_ini(data)
    except Exception:
        return False
    return a == b


COMMENTS = ['', 'gr\u00fc\u00dfe \u4e2d\u6587', 'plain']


@register
class C08(FsProp):
    id = 'C08'

    def explore(self, rng, W):
        cfg = small(rng, formats(rng, 0.04), rng.choice([1, 1, 2]))
        if rng.random() < 0.3:
            # non-ASCII names
            h = gen.get(cfg, 'hydraulics')['hydrofacies']
            ren = {h[0]: 'Kies\u00e9l', h[-1]: '\u0441\u043b\u043e\u0439'}
            txt = gen.to_ini(cfg)
            cfg = rename(cfg, ren)
        sc = scene.place(rng, cfg, ['plain', 'named', 'modeldir', 'deep', 'reldir', 'backup', 'inside'])
        sc['comment'] = rng.choice(COMMENTS)
        if rng.random() < 0.2:
            sc['bom'] = True
            sc['comment'] = ''
        seed = rng.randrange(10**6)
        ow = inside(sc) or rng.random() < 0.3
        old = [['d', ''], ['f', 'old_a', 'x'], ['f', 'old_d/x', 'y']] if ow else None
        spec = spec_of(sc, seed, True if ow else None, rng.choice(['api', 'cli']), dirseed=rng.randrange(1, 99))
        yield dict(sc=sc, old=old, spec=spec, moved=rng.choice([None, 'w/renamed', 'moved/ el se', sc['rundir'] + '.old']))
        t = dry(W, sc, spec, old)['trace']
        rd = sc['rundir'] + '/'
        res = [x for x in t if x[1] in ('creat', 'write', 'pwrite') and x[2].startswith(rd) and '.ini' not in x[2]]
        early = [x for x in t if x[1] in core.MUTATING + ('close',) and (x[0] <= res[0][0] + 2 if res else True)]
        for i in range(7):
            f = pick_fault(rng, early if i < 4 and early else t, CRASH + ['err', 'sticky', 'lostclose', 'sigint'])
            if f:
                yield dict(sc=sc, old=old, spec=dict(spec, faults=[f]))
        if res:
            x = res[0]
            yield dict(sc=sc, old=old, spec=dict(spec, faults=[['crash_after', x[0], 0, x[1], x[2], 0]]))

    def evaluate(self, case, W):
        sc, spec = case['sc'], case['spec']
        W.build(sc, case['old'])
        before = below(W.snap(), sc['rundir'])
        r = W.run(spec)
        after = below(W.snap(), sc['rundir'])
        bname = sc['name'] + '_autogenerated_backup.ini'
        new = [k for k, e in after.items() if e[0] == 'f' and '.ini' not in k and (k not in before or before[k] != e)]
        v = []
        if new:
            core.count('probe:results exist')
            e = after.get(bname)
            if e is None:
                return [('no backup', 'results exist (%s), run %s, but there is no %s' % (new[:3], r['status'], bname))]
            if not ini_equal(W, sc, e[1]):
                return [('backup differs', 'results exist (%s), run %s, but %s does not hold the settings of the parameter file (%d bytes)' % (
                    new[:3], r['status'], bname, len(e[1])))]
        elif r['ok'] and gen.get(sc['cfg'], 'run')['outputs']:
            v.append(('no backup', 'run succeeds without results'))
        if not spec.get('faults') and r['ok']:
            # run the copy
            rundir = sc['rundir']
            want = canon.canon_tree(below(W.snap(), rundir), os.path.join(W.root, rundir))
            if case.get('moved'):
                # the directory was renamed or moved in the meantime
                rundir = case['moved']
                os.makedirs(os.path.dirname(os.path.join(W.root, rundir)), exist_ok=True)
                os.rename(os.path.join(W.root, sc['rundir']), os.path.join(W.root, rundir))
            sc2 = dict(sc, ini=rundir + '/' + bname)
            s2 = dict(spec, ini=sc2['ini'], flag=True, cwd='cwd', dirseed=3)
            r2 = W.run(s2)
            if not r2['ok']:
                v.append(('backup not usable', 'running the backup fails: %s %s' % (r2['exc'], (r2['msg'] or r2['stderr'])[:200])))
            else:
                got = canon.canon_tree(below(W.snap(), rundir), os.path.join(W.root, rundir))
                if case.get('moved') and os.path.lexists(os.path.join(W.root, sc['rundir'])):
                    v.append(('elsewhere', 'running the backup in the renamed directory %s creates %s' % (rundir, sc['rundir'])))
                if sc['kind'] == 'inside':
                    want.pop('setup.ini', None)
                    got.pop('setup.ini', None)
                d = canon.canon_diff(want, got)
                if d:
                    v.append(('not reproduced', 'running the backup with the same seed: ' + '; '.join(d)))
        return v


def rename(o, ren):
    if isinstance(o, list):
        return [rename(x, ren) for x in o]
    if isinstance(o, dict):
        return {k: rename(x, ren) for k, x in o.items()}
    return ren.get(o, o) if isinstance(o, str) else o


# ---------------------------------------------------------------------- C09
@register
class C09(FsProp):
    id = 'C09'

    def explore(self, rng, W):
        cfg = small(rng, formats(rng, 0.02, 1, 2), rng.choice([1, 1, 2]))
        sc = scene.place(rng, cfg, ['backup', 'backup', 'backup', 'inside'])
        sc['comment'] = rng.choice(COMMENTS)
        seed = rng.randrange(10**6)
        old = scene.old_content(rng, sc)
        if rng.random() < 0.3:
            gen.get(cfg, 'run')['overwrite_old_output'] = True
        spec = spec_of(sc, seed, True, rng.choice(['api', 'cli']), dirseed=rng.randrange(1, 999))
        yield dict(sc=sc, old=old, spec=spec)
        t = dry(W, sc, spec, old)['trace']
        ini = [x for x in t if '.ini' in x[2]]
        early = [x for x in t if x[1] in core.MUTATING + ('close', 'readdir')][:40]
        for i in range(9):
            pool = [ini, early, t][i % 3] or t
            f = pick_fault(rng, pool, CRASH + ['err', 'sticky', 'lostclose', 'sigint'])
            if not f:
                continue
            c = dict(sc=sc, old=old, spec=dict(spec, faults=[f]))
            if rng.random() < 0.4:
                # and again a crash in the next attempt
                f2 = pick_fault(rng, early, CRASH)
                if f2:
                    c['again'] = [f2]
            yield c

    def shrinks(self, case, W):
        if case.get('again'):
            c = copy.deepcopy(case)
            del c['again']
            yield c
        yield from FsProp.shrinks(self, case, W)

    def evaluate(self, case, W):
        sc, spec = case['sc'], case['spec']
        ref = reference(W, sc, spec)
        W.build(sc, case['old'])
        r = W.run(spec)
        v = self.look(case, W, 'run %s (faults %s)' % (r['status'], [f[:1] + f[3:] for f in r['fired']]))
        if v:
            return v
        if case.get('again'):
            sc2 = self.found(W, sc)
            r = W.run(dict(spec, ini=sc2, faults=case['again'], dirseed=5))
            v = self.look(case, W, 'second attempt %s' % r['status'])
            if v:
                return v
        # start again
        s2 = dict(spec, ini=self.found(W, sc))
        s2.pop('faults', None)
        r = W.run(s2)
        if not r['ok']:
            return [('can not restart', 'running again from %s fails: %s %s' % (s2['ini'], r['exc'], (r['msg'] or r['stderr'])[:200]))]
        got = canon.canon_tree(below(W.snap(), sc['rundir']), W.root)
        want = dict(ref['tree'])
        if s2['ini'] != sc['ini']:
            got.pop('setup.ini', None)
            want.pop('setup.ini', None)
        d = canon.canon_diff(want, got)
        if d:
            return [('restart differs', 'running again gives: ' + '; '.join(d))]
        return []

    def found(self, W, sc):
        p = os.path.join(W.root, sc['ini'])
        if os.path.exists(p) and ini_equal(W, sc, open(p, 'rb').read()):
            return sc['ini']
        return sc['rundir'] + '/' + sc['name'] + '_autogenerated_backup.ini'

    def look(self, case, W, what):
        sc = case['sc']
        for k, e in below(W.snap(), sc['rundir']).items():
            if e[0] == 'f' and k.endswith('.ini') and '/' not in k and ini_equal(W, sc, e[1]):
                return []
        return [('lost', '%s: no complete parameter file is left in %s' % (what, sc['rundir']))]


# ---------------------------------------------------------------------- C10
LIBS = dict(h5py=['h5'], pyevtk=['vtr'], flopy=['mf', 'mf6'])
WARN = dict(h5=r'h5|hdf5', vtr=r'vt[rk]', mf=r'modflow|\bmf\b|\bmf2005\b', mf6=r'mf6|modflow ?6')


@register
class C10(FsProp):
    id = 'C10'

    def explore(self, rng, W):
        fs = rng.sample(['h5', 'vtr', 'npz', 'py', 'mat', 'hgs'], rng.randint(2, 5))
        if rng.random() < 0.35:
            fs += rng.choice([['mf'], ['mf6'], ['mf', 'mf6']])
        rng.shuffle(fs)
        cfg = small(rng, fs, rng.choice([1, 1, 2, 3]))
        sc = scene.place(rng, cfg, ['plain', 'named'])
        seed = rng.randrange(10**6)
        for _ in range(3):
            libs = [l for l in LIBS if rng.random() < 0.6] or ['h5py']
            block = sorted(libs)
            if 'pyevtk' in block and rng.random() < 0.3:
                block[block.index('pyevtk')] = 'pyevtk.hl'
            spec = spec_of(sc, seed, None, rng.choice(['api', 'cli']), block=block, blockhow=rng.choice(['missing', 'missing', 'broken']))
            yield dict(sc=sc, old=None, spec=spec)
        t = dry(W, sc, spec, None)['trace']
        for _ in range(4):
            f = pick_fault(rng, t, ERRS, core.MUTATING + ('close',))
            if f:
                yield dict(sc=sc, old=None, spec=dict(spec, faults=[f]))

    def evaluate(self, case, W):
        sc, spec = case['sc'], case['spec']
        fs = gen.get(sc['cfg'], 'run')['outputs']
        gone = [f for l in spec.get('block', ()) for f in LIBS[l.split('.')[0]]]
        keep = [f for f in fs if f not in gone]
        skipped = [f for f in fs if f in gone]
        sc2 = copy.deepcopy(sc)
        gen.get(sc2['cfg'], 'run')['outputs'] = keep or ['npz']
        ref = reference(W, sc2, {k: v for k, v in spec.items() if k not in ('block', 'faults')})
        want = {k: v for k, v in ref['tree'].items() if not k.endswith('.ini')}
        if not keep:
            want = {k: v for k, v in want.items() if not k.endswith('.npz')}
        W.build(sc)
        r = W.run(spec)
        v = []
        if not r['ok']:
            if spec.get('faults'):
                return []
            return [('fails', 'without %s the run of %s fails: %s %s' % (spec.get('block'), fs, r['exc'], (r['msg'] or r['stderr'])[-200:]))]
        core.count('probe:succeeded without libraries')
        got = {k: x for k, x in canon.canon_tree(below(W.snap(), sc['rundir']), W.root).items() if not k.endswith('.ini')}
        d = canon.canon_diff(want, got)
        if d:
            v.append(('outputs', 'without %s, formats %s: %s' % (spec.get('block'), fs, '; '.join(d))))
        for f in skipped:
            if not re.search(WARN[f], r['stderr'], re.I):
                v.append(('no warning', 'skipped output %s without a warning (%r)' % (f, r['stderr'][:200])))
            if re.search(r'saved\s+%s\s+output' % f, r['stdout'], re.I):
                v.append(('announced', 'skipped output %s is announced as saved' % f))
        return v

    def nontrivial(self, case, W):
        return bool(case['spec'].get('block'))


# ---------------------------------------------------------------------- C11
class Chooser:
    """Seeded schedule; records what it decides so that it can be replayed."""

    def __init__(self, mode, rng, kills, script=None):
        self.mode, self.rng, self.kills, self.script = mode, rng, dict((k, p) for k, p in kills), script
        self.cur = None
        self.left = 0
        self.prio = {}
        self.changes = set()
        if mode == 'pct':
            self.changes = {rng.randrange(0, 120) for _ in range(3)}
        self.counts = {}

    def __call__(self, step, pending):
        ids = sorted(pending)
        if self.script is not None:
            if step < len(self.script):
                c = self.script[step]
                i = -c - 1 if c < 0 else c
                if i in pending:
                    return ('k', i) if c < 0 else i
            # afterwards: keep running the lowest one
            return ids[0]
        if self.mode == 'random':
            c = self.rng.choice(ids)
        elif self.mode == 'sticky':
            if self.cur not in pending or self.left <= 0:
                self.cur = self.rng.choice(ids)
                self.left = self.rng.choice([1, 2, 3, 5, 10, 20])
            self.left -= 1
            c = self.cur
        elif self.mode == 'race':
            # hold everybody at the first modifying operation, then mix
            q = [i for i in ids if pending[i][1] not in ('mkdir', 'creat', 'unlink', 'rename', 'write')]
            c = self.rng.choice(q) if q and self.rng.random() < 0.95 else self.rng.choice(ids)
        else:   # pct: priorities with a few change points
            for i in ids:
                self.prio.setdefault(i, self.rng.random())
            if step in self.changes:
                top = max(ids, key=lambda i: self.prio[i])
                self.prio[top] = -step
            c = max(ids, key=lambda i: self.prio[i])
        self.counts[c] = self.counts.get(c, 0) + 1
        if self.kills.get(c) == self.counts[c]:
            return ('k', c)
        return c


@register
class C11(FsProp):
    id = 'C11'

    def explore(self, rng, W):
        import random
        n = rng.choice([2, 2, 2, 3, 4])
        same = rng.random() < 0.7
        members = []
        deep = rng.random() < 0.5
        base = 'new/deep' if deep else 'models'
        for i in range(n):
            cfg = small(rng, rng.sample(['npz', 'py', 'mat', 'hgs'], rng.randint(1, 2)), rng.choice([1, 1, 2]))
            run = gen.get(cfg, 'run')
            run['modeldir'] = '@ROOT@/' + base
            run['runname'] = 'run' if same else 'run%d' % i
            sc = dict(cfg=cfg, kind='modeldir', name=run['runname'], ini='w/p%d.ini' % i, rundir=base + '/' + run['runname'], cwd='cwd', how='abs')
            members.append(dict(sc=sc, seed=rng.randrange(10**6)))
        if same and rng.random() < 0.3:     # the very same parameter file
            for m in members[1:]:
                m['sc'] = members[0]['sc']
        for _ in range(8):
            mode = rng.choice(['random', 'sticky', 'race', 'race', 'pct', 'pct'])
            kills = []
            if rng.random() < 0.3:
                kills = [[rng.randrange(n), rng.randrange(1, 80)]]
            yield dict(members=members, same=same, mode=mode, sseed=rng.randrange(10**9), kills=kills, script=None)

    def evaluate(self, case, W):
        import random
        ms = case['members']
        refs = []
        for m in ms:
            refs.append(reference(W, m['sc'], spec_of(m['sc'], m['seed'])))
        scene.build(W.root, ms[0]['sc'])
        for m in ms[1:]:
            with open(os.path.join(W.root, m['sc']['ini']), 'wb') as f:
                f.write(scene.ini_text(m['sc'], W.root).encode())
        before = W.snap()
        ch = Chooser(case['mode'], random.Random(case['sseed']), case['kills'], case['script'])
        specs = [spec_of(m['sc'], m['seed'], entropy=2 * i + 11) for i, m in enumerate(ms)]
        rs, sched, events = W.sched(specs, ch)
        case['_sched'] = sched
        sw = sum(1 for a, b in zip(sched, sched[1:]) if a != b)
        core.count('context_switches', sw)
        core.count('probe:schedules with %s' % ('kill' if any(c < 0 for c in sched) else 'no kill'))
        after = W.snap()
        v = []
        ok = [i for i, r in enumerate(rs) if r['ok']]
        killed = [i for i, r in enumerate(rs) if r['status'] == 'killed']
        st = [r['status'] + (':' + r['exc'] if r['exc'] else '') for r in rs]
        if case['same']:
            got = canon.canon_tree(below(after, ms[0]['sc']['rundir']), W.root)
            if len(ok) > 1:
                v.append(('both succeed', '%d simultaneous runs for the same directory report success (%s)' % (len(ok), st)))
            elif ok:
                d = canon.canon_diff(refs[ok[0]]['tree'], got)
                if d:
                    v.append(('mixed', 'run %d succeeded (%s), but the directory is not the result of that run alone: %s' % (ok[0], st, '; '.join(d))))
            elif not killed:
                v.append(('nobody', 'no run was killed, but none succeeded: %s' % [(r['exc'], r['msg'][:100]) for r in rs]))
            else:
                # at most one of them (a killed one) stored anything
                owners = []
                for k, e in got.items():
                    if e[0] == 'd' or e[0] == 'unreadable':
                        continue
                    own = {i for i, x in enumerate(refs) if x['tree'].get(k) == e}
                    if own:
                        owners.append((k, own))
                if owners:
                    common = set(range(len(ms)))
                    for k, o in owners:
                        common &= o
                    if not common:
                        v.append(('mixed', 'the directory holds results of several runs (%s): %s' % (st, [(k, sorted(o)) for k, o in owners[:6]])))
        else:
            for i, m in enumerate(ms):
                if i in killed:
                    continue
                if i not in ok:
                    v.append(('disturbed', 'run %d for its own directory %s fails (%s): %s %s' % (i, m['sc']['rundir'], st, rs[i]['exc'], rs[i]['msg'][:200])))
                    continue
                d = canon.canon_diff(refs[i]['tree'], canon.canon_tree(below(after, m['sc']['rundir']), W.root))
                if d:
                    v.append(('mixed', 'results of run %d differ from what it produces alone: %s' % (i, '; '.join(d))))
        return v

    def nontrivial(self, case, W):
        s = case.get('_sched', [])
        return sum(1 for a, b in zip(s, s[1:]) if a != b) >= 2

    def describe(self, case):
        return dict(processes=len(case['members']), same_directory=case['same'], mode=case['mode'], kills=case['kills'],
                    schedule=''.join(str(c) if c >= 0 else 'k%d' % (-c - 1) for c in case.get('_sched', []))[:300])

    def shrinks(self, case, W):
        if case['script'] is None:
            c = copy.deepcopy(case)
            c['script'] = case.get('_sched') or c.pop('_sched', None)
            if c['script'] is None:
                import random
                self_case = copy.deepcopy(case)
                self.evaluate(self_case, W)
                c['script'] = self_case['_sched']
            c.pop('_sched', None)
            yield c
            return
        s = case['script']
        # truncate, drop processes, merge context switches
        if len(case['members']) > 2:
            for i in range(len(case['members'])):
                c = copy.deepcopy(case)
                c.pop('_sched', None)
                c['members'].pop(i)
                ns = []
                for x in s:
                    j = -x - 1 if x < 0 else x
                    if j == i:
                        continue
                    if j > i:
                        j -= 1
                    ns.append(-j - 1 if x < 0 else j)
                c['script'] = ns
                yield c
        for k in (len(s) // 2, len(s) * 3 // 4, len(s) - 1):
            if 0 < k < len(s):
                c = copy.deepcopy(case)
                c.pop('_sched', None)
                c['script'] = s[:k]
                yield c
        blocks = []
        for x in s:
            if blocks and blocks[-1][0] == x:
                blocks[-1][1] += 1
            else:
                blocks.append([x, 1])
        for i in range(len(blocks) - 2):
            if blocks[i][0] == blocks[i + 2][0] and blocks[i + 1][0] >= 0:
                nb = blocks[:i] + [[blocks[i][0], blocks[i][1] + blocks[i + 2][1]], blocks[i + 1]] + blocks[i + 3:]
                c = copy.deepcopy(case)
                c.pop('_sched', None)
                c['script'] = [x for x, n in nb for _ in range(n)]
                yield c


# ---------------------------------------------------------------------- C18
@register
class C18(FsProp):
    id = 'C18'

    def explore(self, rng, W):
        cfg = small(rng, formats(rng, 0.1, 1, 3), rng.choice([1, 1, 2, 3]))
        sc = scene.place(rng, cfg, ['plain', 'named', 'modeldir', 'backup'])
        sc['how'] = rng.choice(['abs', 'rel'])
        seed = rng.randrange(10**6)
        ow = inside(sc) or rng.random() < 0.4
        old = scene.old_content(rng, sc, special=False) if ow else None
        spec = spec_of(sc, seed, True if ow else rng.choice([None, True]), 'cli', dirseed=rng.randrange(1, 99))
        yield dict(sc=sc, old=old, spec=spec, what='plain')
        yield dict(sc=dict(sc, ini='w/missing.ini', noini=True), old=old, spec=dict(spec, ini='w/missing.ini'), what='missing')
        ms = mutations(rng, cfg)
        name, text = rng.choice(ms)
        yield dict(sc=dict(sc, text=text), old=old, spec=spec, what='invalid: ' + name)
        if not inside(sc):
            yield dict(sc=sc, old=[['d', '']], spec=dict(spec, flag=None), what='exists')
        t = dry(W, sc, spec, old)['trace']
        for _ in range(6):
            f = pick_fault(rng, t, ENDS)
            if f:
                yield dict(sc=sc, old=old, spec=dict(spec, faults=[f]), what='fault')
        saves = [i for i, x in enumerate(t) if x[1] == 'close' and x[2].startswith(sc['rundir'] + '/')]
        for _ in range(3):
            if saves:
                i = rng.choice(saves)
                x = t[max(0, i - rng.choice([0, 0, 1, 2]))]
                yield dict(sc=sc, old=old, spec=dict(spec, faults=[[rng.choice(['crash', 'crash_after']), x[0], 0, x[1], x[2], scene.occ(t, t.index(x))]]), what='fault')
        # every combination of the option and the parameter file
        c2 = copy.deepcopy(cfg)
        perm = rng.choice([None, 'false', 'true', 'yes', 'no'])
        if perm:
            gen.get(c2, 'run')['overwrite_old_output'] = perm
        for flag in (None, True):
            yield dict(sc=dict(sc, cfg=c2), old=scene.old_content(rng, sc, special=False), spec=dict(spec, flag=flag), what='permission')
        # the built-in test case
        if rng.random() < 0.2:
            cfg = small(rng, formats(rng, 0.0), 1)
            gen.get(cfg, 'run')['runname'] = 'made'
            sc = dict(cfg=cfg, kind='testcase', name='made', ini='w/made.ini', rundir='tmp/none', cwd='cwd', how='abs')
            spec = spec_of(sc, seed, None, 'cli', ini=None, made='w/made.ini')
            yield dict(sc=sc, old=None, spec=spec, what='testcase')
            t = dry(W, sc, spec, None)['trace']
            for _ in range(2):
                f = pick_fault(rng, t, ['err', 'sticky'], core.MUTATING)
                if f:
                    yield dict(sc=sc, old=None, spec=dict(spec, faults=[f]), what='testcase fault')

    def evaluate(self, case, W):
        sc, spec, what = case['sc'], case['spec'], case['what']
        v = []
        if what == 'testcase':
            W.build(sc, None)
            s = dict(spec, entry='api')
            ok = W.run(s)['ok']
            W.build(sc, None)
            r = W.run(spec)
            if ok != (r['status'] == 'exit0'):
                v.append(('status', 'test case: the API %s but the program ends with %s' % ('succeeds' if ok else 'fails', r['status'])))
            return v
        if what == 'permission':
            out = []
            for e in ('api', 'cli'):
                W.build(sc, case['old'])
                r = W.run(dict(spec, entry=e))
                out.append((r['ok'], canon.canon_tree(below(W.snap(), sc['rundir']), W.root)))
            text = '%s, overwrite_old_output is %r' % ('--overwrite' if spec['flag'] else 'without --overwrite', gen.get(sc['cfg'], 'run').get('overwrite_old_output'))
            if out[0][0] != (r['status'] == 'exit0'):
                v.append(('status', '%s: the API %s but the program ends with %s: %s' % (text, 'succeeds' if out[0][0] else 'fails', r['status'], r['stderr'][:200])))
            else:
                d = canon.canon_diff(out[0][1], out[1][1])
                if d:
                    v.append(('overwrite', '%s: the run directory differs from that of the API: %s' % (text, '; '.join(d))))
        elif what == 'testcase fault':
            W.build(sc, None)
            r = W.run(spec)
            if r['status'].startswith('exit') and r['status'] != 'exit0' and not r['stderr'].strip():
                v.append(('silent', 'test case fails silently'))
            return v
        elif what in ('plain', 'fault'):
            ref = reference(W, sc, spec)
            W.build(sc, case['old'])
            r = W.run(spec)
            rd = below(W.snap(), sc['rundir'])
            got = canon.canon_tree(rd, W.root)
            d = canon.canon_diff(ref['tree'], got)
            if r['status'] == 'exit0' and d:
                v.append(('status', 'exit status 0, but: ' + '; '.join(d)))
            if what == 'plain' and r['status'] != 'exit0':
                v.append(('status', 'undisturbed run succeeds from the API, but the program ends with %s: %s' % (r['status'], r['stderr'][:200])))
            v += self.saved(case, W, r, ref, got)
        else:
            W.build(sc, case['old'])
            r = W.run(spec)
            if r['status'] == 'exit0':
                v.append(('status', '%s: exit status 0' % what))
        if r['status'].startswith('exit') and r['status'] != 'exit0' and not r['stderr'].strip():
            v.append(('silent', '%s: exit status %s without a message on standard error' % (what, r['status'])))
        return v

    def saved(self, case, W, r, ref, got):
        """formats announced as saved are complete"""
        sc = case['sc']
        v = []
        cut = max((i for i, f in enumerate(r['fired'])), default=None)
        for m in re.finditer(r'^(?:.*[\s:])?Saved (\w+) output to (.*)$', r['stdout'], re.M):
            f, d = m.group(1), m.group(2).strip()
            rel = os.path.relpath(os.path.join(W.root, sc['cwd'], d), os.path.join(W.root, sc['rundir']))
            pre = '' if rel == '.' else rel + '/'
            core.count('probe:saved messages')
            if f in EXT:
                want = {k: e for k, e in ref['tree'].items() if k == pre + sc['name'] + EXT[f]}
            elif f in DIRS:
                want = {k: e for k, e in ref['tree'].items() if k.startswith(pre + DIRS[f] + '/')}
            else:
                continue
            if not want:
                v.append(('announced', '%s announced as saved to %s, where no such output belongs' % (f, rel)))
                continue
            dd = canon.canon_diff(want, {k: e for k, e in got.items() if k in want})
            if dd:
                v.append(('announced', '%s is announced as saved (run %s, faults %s), but: %s' % (
                    f, r['status'], [x[:1] + x[3:] for x in r['fired']], '; '.join(dd))))
        return v

    def nontrivial(self, case, W):
        return case['what'] != 'plain'


# ---------------------------------------------------------------------- C19
@register
class C19(FsProp):
    id = 'C19'

    def explore(self, rng, W):
        cfg = small(rng, formats(rng, 0.06, 1, 3), rng.choice([1, 1, 2, 3]))
        sc = scene.place(rng, cfg, ['plain', 'named', 'modeldir', 'deep', 'reldir'])
        seed = rng.randrange(10**6)
        ow = rng.random() < 0.35
        old = scene.old_content(rng, sc, special=rng.random() < 0.3) if ow else None
        spec = spec_of(sc, seed, True if ow else None, dirseed=rng.randrange(1, 99))
        t = dry(W, sc, spec, old)['trace']
        mut = [x for x in t if x[1] in core.MUTATING + ('close',)]
        for i in range(8):
            f = pick_fault(rng, mut if rng.random() < 0.7 else t, ENDS)
            if not f:
                continue
            c = dict(sc=sc, old=old, spec=dict(spec, faults=[f]), second=rng.choice([True, True, None]))
            if rng.random() < 0.35:
                c['again'] = rng.random()
                c['akind'] = rng.choice(CRASH)
            yield c

    def shrinks(self, case, W):
        if case.get('again') is not None:
            c = copy.deepcopy(case)
            c.pop('again')
            yield c
        yield from FsProp.shrinks(self, case, W)

    def evaluate(self, case, W):
        sc, spec = case['sc'], case['spec']
        ref = reference(W, sc, spec)
        W.build(sc, case['old'])
        r = W.run(spec)
        if r['ok'] and not r['fired']:
            return []
        s2 = {k: v for k, v in spec.items() if k != 'faults'}
        if case.get('again') is not None:
            # a second attempt with permission that crashes as well
            s3 = dict(s2, flag=True, dirseed=77)
            t = dry(W, sc, s3, [['d', ''], ['f', 'x', 'y']])['trace']
            W.build(sc, case['old'])
            W.run(spec)
            x = t[int(case['again'] * (len(t) - 1))]
            W.run(dict(s3, faults=[[case['akind'] if x[1] in ('write', 'pwrite') else 'crash', x[0], 300]]))
        before = W.snap()
        s2['flag'] = case['second']
        r2 = W.run(s2)
        after = W.snap()
        got = canon.canon_tree(below(after, sc['rundir']), W.root)
        d = canon.canon_diff(ref['tree'], got)
        what = 'after %s (%s)' % (r['status'], [f[:1] + f[3:] for f in r['fired']])
        if case['second']:
            if not r2['ok']:
                return [('can not repeat', '%s the run can not be repeated with permission to overwrite: %s %s' % (what, r2['exc'], r2['msg'][:200]))]
            if d:
                return [('differs', '%s, repeating gives: %s' % (what, '; '.join(d)))]
        else:
            core.count('probe:repeat without permission ' + ('ok' if r2['ok'] else 'refused'))
            if r2['ok'] and d:
                return [('differs', '%s, repeating without permission succeeds, but: %s' % (what, '; '.join(d)))]
            if not r2['ok']:
                if sc['rundir'] not in before:
                    return [('can not repeat', '%s nothing had been created, but repeating without permission fails: %s %s' % (what, r2['exc'], r2['msg'][:200]))]
                dd = tree_diff(before, after)
                if dd:
                    return [('touched', '%s, repeating without permission is refused, but: %s' % (what, '; '.join(dd)))]
        return []
