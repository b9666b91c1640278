"""Engine: exploring, evaluating, shrinking and replaying cases of a property."""
import hashlib
import json
import os
import random
import time

import core
import scene

REG = {}


def register(cls):
    REG[cls.id] = cls()
    return cls


class Skip(Exception):
    """The case can not be evaluated (not a violation)."""


class World:
    """What a property needs to evaluate a case."""

    def __init__(self, root):
        self.root = root
        self.memo = {}
        self.reset()

    def reset(self):
        self.h = hashlib.sha256()
        self.fired = []
        self.perturbed = 0
        self.events = 0
        self.trace_tail = []

    def note(self, r):
        for t in r['trace']:
            self.h.update(repr(t).encode('utf-8', 'surrogatepass'))
        self.h.update(repr((r['status'], r['exc'], r['fired'])).encode())
        self.fired += [f for f in r['fired']]
        self.events += len(r['trace'])
        self.trace_tail = r['trace'][-12:]

    def run(self, spec):
        r = core.run(spec, self.root)
        self.note(r)
        return r

    def sched(self, specs, chooser):
        rs, sch, ev = core.run_sched(specs, self.root, chooser)
        for r in rs:
            self.note(r)
        self.h.update(repr(sch).encode())
        return rs, sch, ev

    def snap(self, below=None):
        return core.snapshot(self.root if below is None else os.path.join(self.root, below))

    def build(self, sc, old=None):
        scene.build(self.root, sc, old)

    def cached(self, key, fn):
        k = json.dumps(key, sort_keys=True, default=str)
        if k not in self.memo:
            if len(self.memo) > 60:
                self.memo.clear()
            save = (self.h, self.fired, self.events, self.trace_tail)
            self.reset()
            try:
                self.memo[k] = ('ok', fn())
            except Skip as e:
                self.memo[k] = ('skip', e)
            self.h, self.fired, self.events, self.trace_tail = save
        s, v = self.memo[k]
        if s == 'skip':
            raise v
        return v


class Prop:
    id = None
    rule = ''
    real = ''
    stub = ''

    def explore(self, rng, W):
        """yields cases"""
        raise NotImplementedError

    def evaluate(self, case, W):
        """returns a list of (class, message) (empty: holds)"""
        raise NotImplementedError

    def nontrivial(self, case, W):
        return bool(W.fired)

    def shrinks(self, case, W):
        """yields simpler cases"""
        return []

    def known(self, case, cls, msg):
        """the text of the listed finding that this violation is, or None"""
        return None


_findings = None


def listed(pid, fid):
    """Text of a finding of /verif/known_findings.json (None: not listed)"""
    global _findings
    if _findings is None:
        p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
        _findings = json.load(open(p))['findings'] if os.path.exists(p) else []
    for f in _findings:
        if f['property'] == pid and f['id'] == fid:
            return f['what']
    return None


def evaluate(prop, case, W):
    W.reset()
    try:
        v = prop.evaluate(case, W)
    except Skip as e:
        core.count('skipped')
        core.count('skip:' + str(e)[:60])
        return None, W.h.hexdigest()[:16]
    return v, W.h.hexdigest()[:16]


def job(j, root):
    import props_fs, props_geo      # noqa  (register)
    prop = REG[j['prop']]
    W = World(root)
    if j['type'] == 'explore':
        return explore(prop, j, W)
    if j['type'] == 'eval':
        v, d = evaluate(prop, j['case'], W)
        return dict(verdict=v, digest=d, fired=W.fired, tail=W.trace_tail)
    if j['type'] == 'shrink':
        return shrink(prop, j, W)
    if j['type'] == 'remote':
        return prop.remote(j['case'], W)
    raise ValueError(j['type'])


def explore(prop, j, W):
    rng = random.Random('%s/%s/%s' % (j['seed'], prop.id, j['index']))
    n = nt = 0
    digs, samples, known = [], [], []
    for case in prop.explore(rng, W):
        case['prop'] = prop.id
        case = json.loads(json.dumps(case))      # exactly what a replay file holds
        v, d = evaluate(prop, case, W)
        if v is None:
            continue
        n += 1
        if prop.nontrivial(case, W):
            nt += 1
            digs.append(d)
        if len(samples) < 1 and j['index'] % 16 == 0:
            samples.append(dict(case=prop.describe(case) if hasattr(prop, 'describe') else case, fired=W.fired[:6], events=W.events))
        new = []
        for cls, msg in v:
            k = prop.known(case, cls, msg)
            if k:
                known.append(k)
            else:
                new.append((cls, msg))
        if new:
            return dict(n=n, nt=nt, digs=digs, samples=samples, known=sorted(set(known)),
                        violation=dict(case=case, cls=new[0][0], msg=new[0][1], digest=d))
    return dict(n=n, nt=nt, digs=digs, samples=samples, known=sorted(set(known)))


def shrink(prop, j, W):
    """Greedy minimisation that keeps the class of the violation."""
    case, cls = j['case'], j['cls']
    end = time.monotonic() + j.get('budget', 20)

    def fails(c):
        try:
            v, d = evaluate(prop, c, W)
        except core.HarnessError:
            return None
        for k, m in v or ():
            if k == cls and not prop.known(c, k, m):
                return m
        return None
    best = fails(case)
    if best is None:
        return dict(case=case, msg=None, steps=0)
    steps = 0
    progress = True
    while progress and time.monotonic() < end:
        progress = False
        for c in prop.shrinks(case, W):
            if time.monotonic() > end:
                break
            c = json.loads(json.dumps(c))
            m = fails(c)
            if m is not None:
                case, best, progress = c, m, True
                steps += 1
                break
    v, d = evaluate(prop, case, W)
    return dict(case=case, msg=best, steps=steps, digest=d, fired=W.fired, tail=W.trace_tail)
