"""P11: processes sharing a realized noise see the same noise."""
import copy

import numpy as np

import sdepy
from sdepy import process

from . import procgen as PG
from . import seams as S
from . import srcgen as G
from .coop import Scheduler
from .core import arr, check, same
from .seams import Seams

ID = 'P11'
LEVEL = 'exploration'
QUICK = 16000
RULE = ('a case is 1-2 sources (with memory: Wiener, Poisson, compound '
        'Poisson; or a stored process), possibly indexed, 1-4 processes with '
        'unit coefficients driven by them, and 2-8 integrations along any '
        'timelines from any start index, interleaved step by step by a '
        'seeded scheduler or nested, mixed with direct queries of the '
        'sources and runs aborted by faults; the outcome of each integration '
        'is compared with the increments of the source. Non-trivial if at '
        'least two integrations were checked; distinct by source kinds, '
        'process kinds and schedule of operations')
MEASURE = ('source kinds, index, driver kinds, shapes + (operation, points, '
           'start, fault) + scheduling decisions')
REAL = ['sdepy sources with memory, processes, integration classes']
STUB = ['thread scheduling (cooperative, seeded)', 'correlation, intensity '
        'and jump size callables']


def gen_source(r):
    kind = r.choice(['wiener', 'wiener', 'poisson', 'cpoisson', 'process'])
    c = G.gen_true(r, kinds=(kind,) if kind != 'process' else ('wiener',),
                   rtol=False)
    c['src'] = kind
    vs = c['vshape']
    c['index'] = gen_index(r, vs) if vs and r.random() < .4 else None
    return c


def gen_index(r, vs):
    """index of a component, or components"""
    k = r.random()
    if k < .5:
        return [r.randrange(-vs[0], vs[0])]
    if k < .6:
        # a list of components, or components in reverse order
        return [r.choice([[None, None, -1],
                          {'f': [r.randrange(-vs[0], vs[0]) for _ in
                                 range(r.choice([1, 2, 3]))]}])]
    if k < .8:
        a = r.randrange(vs[0])
        return [[a, r.randint(a + 1, vs[0])]]
    return [r.randrange(vs[0]), r.randrange(vs[1])] if len(vs) > 1 else None


def sub_shape(p, c):
    return c['vshape'] if p['index'] is None else \
        list(np.empty(c['vshape'])[the_index(p['index'])].shape)


def the_index(index):
    return tuple(slice(*k) if isinstance(k, list) else
                 k['f'] if isinstance(k, dict) else k for k in index)


DRIVERS = dict(wiener=['wiener', 'lognorm', 'ou0', 'sde', 'sdes', 'jd0'],
               poisson=['sdn', 'sdns'],
               cpoisson=['sdj', 'jd', 'sdjs'],
               process=['wiener', 'lognorm', 'sde', 'sdes', 'sdj', 'jd'])


def generate(r, tier):
    srcs = [gen_source(r) for _ in range(r.choice([1, 1, 1, 2]))]
    procs = []
    for _ in range(r.choice([1, 2, 2, 3, 4])):
        s = r.randrange(len(srcs))
        vs = srcs[s]['vshape']
        p = dict(index=None if r.random() < .35 else
                 gen_index(r, vs) if vs and r.random() < .7
                 else srcs[s]['index'])
        vs = sub_shape(p, srcs[s])
        d = r.choice(DRIVERS[srcs[s]['src']])
        p.update(s=s, driver=d, i0=r.choice([0, 0, -1, 1]),
                 x0=round(r.uniform(.5, 1.5), 2), getinfo=r.random() < .5)
        if d in ('sdes', 'sdns', 'sdjs'):
            # one equation for each component of the last axis
            if not vs:
                d = p['driver'] = d[:-1]
            else:
                p['q'] = vs[-1]
        if p['driver'] not in ('sdes', 'sdns', 'sdjs') and vs and \
                vs[-1] == 1 and r.random() < .5:
            p['vshape'] = vs[:-1] + [3]      # source values are broadcast
        PG.gen_steps(r, p)
        procs.append(p)
    ops = []
    for _ in range(r.choice([2, 3, 5, 8])):
        k = r.random()
        if k < .7:
            op = dict(op='run', p=r.randrange(len(procs)),
                      t=PG.gen_timeline(r, near=.25))
            if r.random() < .15:
                op['fault'] = dict(seam=r.choice(
                    ['rng', 'param', 'alloc', 'corr', 'lam', 'rvs']),
                    k=r.choice([1, 2, 3, 5, 8, 20]), min=9,
                    exc=r.choice(S.EXC_KINDS))
            elif r.random() < .2:
                op['nest'] = dict(k=r.choice([1, 2, 3, 5]),
                                  p=r.randrange(len(procs)),
                                  t=PG.gen_timeline(r, near=.25))
        else:
            n = r.choice([1, 1, 3])
            op = dict(op='query', s=r.randrange(len(srcs)),
                      t=[G.dy(r.uniform(-4, 6)) for _ in range(n)],
                      inc=r.random() < .4)
        op['task'] = r.randrange(3)
        if op['op'] == 'run' and r.random() < .5:
            # the same timeline as another integration
            op['t'] = r.choice([o for o in ops if o['op'] == 'run'] or
                               [op])['t']
        ops.append(op)
    mode = r.choice(['seq', 'coop', 'coop'])
    return dict(config=dict(srcs=srcs, procs=procs, mode=mode,
                            sched=r.randrange(2**31)), ops=ops)


def simplify(case):
    c = copy.deepcopy(case)
    if c['config']['mode'] != 'seq':
        c['config']['mode'] = 'seq'
        yield c
    for k, p in enumerate(case['config']['procs']):
        for key, v in (('steps', None), ('i0', 0)):
            if p[key] != v:
                c = copy.deepcopy(case)
                c['config']['procs'][k][key] = v
                yield c
    for k, op in enumerate(case['ops']):
        if op.get('nest'):
            c = copy.deepcopy(case)
            del c['ops'][k]['nest']
            yield c


class Source:
    def __init__(self, c, ctx):
        self.c = c
        self.sm = Seams(ctx)     # faults only: no hook
        self.vs, self.paths = tuple(c['vshape']), c['paths']
        if c['src'] == 'process':
            g = np.random.RandomState(c['seed'])
            t = np.unique(np.round(g.uniform(-8, 10, 30)*64)/64)
            self.src = process(
                t=t, x=g.normal(size=t.shape + self.vs + (self.paths,)))
            self.data = np.array(self.src)
        else:
            self.src = G.build_true(c, self.sm)
        self.obs, self.views = {}, {}

    def view(self, index):
        if index is None:
            return self.src
        i = the_index(index)
        if self.c['src'] == 'process':
            i = ('v',) + i
        # (views by the same index are often one and the same object)
        key = repr(index)
        if key not in self.views or self.c['seed'] % 3 == 0:
            self.views[key] = self.src[i]
        return self.views[key]

    def value(self, t):
        if self.c['src'] == 'process':
            # independent of sdepy: interpolation is linear
            x = np.asarray(self.src.t, float)
            y = self.data.reshape(len(x), -1)
            out = np.array([np.interp(t, x, y[:, k])
                            for k in range(y.shape[1])])
            return out.reshape(self.vs + (self.paths,))
        return arr(self.src(t), 'source value', self.vs + (self.paths,))

    def observe(self, t):
        v = self.value(t)
        if t in self.obs:
            check(same(v, self.obs[t]), 'value-changed',
                  lambda: 'source at t=%r was %r, now %r'
                  % (t, self.obs[t], v))
        self.obs[t] = v
        return v


def expand(z, vs):
    return np.broadcast_to(z, tuple(vs) + z.shape[-1:])


def build(p, S_, sm):
    """The process and its expected shape"""
    c = S_.c
    src = S_.view(p['index'])
    vs = tuple(sub_shape(p, c))
    full = tuple(p.get('vshape', vs))
    steps = p['steps']
    kw = dict(paths=S_.paths, steps=np.array(steps)
              if isinstance(steps, list) else steps, i0=p['i0'],
              getinfo=p['getinfo'], x0=p['x0'])
    d = p['driver']

    def one(t):
        sm.call('param')
        return 1.

    def sigma(t):
        sm.call('param')
        return np.ones(full + (1,))
    if d == 'wiener':
        return sdepy.wiener_process(vshape=full, dw=src, mu=0., sigma=one,
                                    **kw), full
    if d == 'lognorm':
        return sdepy.lognorm_process(vshape=full, dw=src, mu=0., sigma=sigma,
                                     **kw), full
    if d == 'ou0':
        return sdepy.ornstein_uhlenbeck_process(
            vshape=full, dw=src, theta=0., k=0., sigma=one, **kw), full
    if d in ('jd', 'jd0'):
        name = 'dj' if d == 'jd' else 'dw'
        zero = Zero(full, S_.paths)
        other = dict(dw=zero) if d == 'jd' else dict(dj=zero)
        return sdepy.jumpdiff_process(
            vshape=full, mu=0., sigma=one, **{name: src}, **other,
            **kw), full
    id = {'sde': 'dw', 'sdn': 'dn', 'sdj': 'dj'}[d[:3]]
    if d.endswith('s'):
        q = p['q']

        def f(t=1., *xs):
            if xs:
                sm.call('param')
            return tuple({id: 1.} for _ in range(q))
        args = ', '.join('x%d=1.' % k for k in range(q))
        ns = dict(sm=sm, id=id)
        exec('def f(t=1., %s):\n    sm.call("param")\n'
             '    return [%s]\n' % (args, ', '.join(['{id: 1.}']*q)), ns)
        kw['x0'] = p['x0'] + np.arange(q)
        # components of the last axis: one equation each
        cls = sdepy.integrate(ns['f'], q=q, sources={id}, addaxis=True)
        return cls(vshape=vs[:-1], **{id: src}, **kw), vs[:-1]

    def f(t=1., x=1.):
        sm.call('param')
        return {id: 1.}
    cls = sdepy.integrate(f, q=0, sources={id})
    return cls(vshape=full, **{id: src}, **kw), full


class Zero:
    def __init__(self, vshape, paths):
        self.vshape, self.paths = vshape, paths

    def __call__(self, t, dt):
        return np.zeros(self.vshape + (self.paths,))


def noise(p, S_, vs, t):
    """noise seen by the process at time t, shape vs + (paths,)"""
    w = S_.observe(t)
    if p['index'] is not None:
        w = w[the_index(p['index'])]
    if p['driver'].endswith('s') and 'q' in p:
        return w          # last axis: equations
    return expand(w, vs)


def verify(p, S_, out, tl, full, ctx):
    d = p['driver']
    multi = 'q' in p and d.endswith('s')
    res = list(out) if multi else [out]
    if multi:
        check(len(res) == p['q'], 'results-number')
    t0 = tl[p['i0'] % len(tl)]
    w0 = noise(p, S_, full, t0)
    for k, x in enumerate(res):
        a = arr(x, 'result', (len(tl),) + full + (S_.paths,))
        for i, t in enumerate(tl):
            w = noise(p, S_, full, t) - w0
            if multi:
                w = w[..., k, :]
            if d in ('lognorm', 'jd', 'jd0'):
                got = np.log(a[i]/p['x0'])
                # lognormal dynamics: martingale correction
                w = w - (t - t0)/2
            else:
                got = a[i] - (p['x0'] + (k if multi else 0))
            scale = 1 + np.abs(w).max(initial=0.) + \
                max([np.abs(v).max(initial=0.) for v in S_.obs.values()])
            ctx.event('out', t, np.round(a[i], 6))
            check((np.abs(got - w) <= 1e-9*scale).all(), 'other-noise',
                  lambda: '%s at t=%r from t0=%r: moved by %r, noise by %r'
                  % (d, t, t0, got, w))


def execute(case, ctx):
    cfg = case['config']
    srcs = [Source(c, ctx) for c in cfg['srcs']]
    sms = [Seams(ctx) for _ in cfg['procs']]
    procs = [build(p, srcs[p['s']], sm) for p, sm in zip(cfg['procs'], sms)]
    finished = []
    maybe = [set() for _ in srcs]
    tasks = {}
    busy = set()
    sched = Scheduler(cfg['sched'], .7)

    def run(k, tl, nest=None, fault=None, yielding=False):
        p, sm = cfg['procs'][k], sms[k]
        if k in busy:
            return
        busy.add(k)
        left = [nest['k'] if nest else 0]

        def hook(seam):
            if nest:
                left[0] -= 1
                if left[0] == 0:
                    run(nest['p'], nest['t'])
                    ctx.count('nested')
            if yielding:
                sched.point()
        sm.hook = hook
        seam = sm
        if fault:
            if fault['seam'] != 'param':
                seam = srcs[p['s']].sm
            seam.arm(fault)
        exc = out = None
        try:
            out = procs[k][0](np.array(tl))
        except (Exception, KeyboardInterrupt) as e:
            exc = e
        finally:
            fired = seam.disarm() if fault else None
            sm.hook = None
            busy.discard(k)
        if exc is not None:
            if fired is None:
                raise exc
            check(fired is True or exc is fired, 'failure-altered',
                  lambda: '%r got %r' % (fired, exc))
            ctx.event('failed')
            return
        finished.append((k, tl, out))

    def do(op, yielding):
        if op['op'] == 'query':
            s = srcs[op['s']]
            if s.c['src'] == 'process':
                return
            if op['inc'] and len(op['t']) > 1:
                s.src(op['t'][0], op['t'][1] - op['t'][0])
            elif len(op['t']) > 1:
                s.src(np.array(op['t']))
            for t in op['t']:
                s.observe(t)
        else:
            run(op['p'], op['t'], op.get('nest'), op.get('fault'), yielding)

    if cfg['mode'] == 'seq':
        for op in case['ops']:
            do(op, False)
    else:
        for j in range(3):
            ops = [op for op in case['ops'] if op['task'] == j]
            if ops:
                def body(ops=ops):
                    for op in ops:
                        # faults are armed with a single task running
                        if not op.get('fault'):
                            do(op, True)
                        sched.point()
                sched.add(body)
        for t in sched.run():
            if t.exc is not None:
                raise t.exc
        for op in case['ops']:
            if op.get('fault'):
                do(op, False)
        ctx.count('interleavings', sched.switches)
    for k, tl, out in finished:
        p = cfg['procs'][k]
        verify(p, srcs[p['s']], out, tl, procs[k][1], ctx)
        ctx.time(tl[-1] - tl[0])
    for s in srcs:
        for t in list(s.obs):
            s.observe(t)
        if s.c['src'] == 'process':
            check(same(s.data, np.array(s.src)), 'source-changed')
    ctx.count('integrations', len(finished))
    ctx.nontrivial = len(finished) >= 2
    ctx.state([(s['src'], s['vshape'], s['index']) for s in cfg['srcs']],
              [(p['driver'], p['s'], p['index'], p['i0'],
                type(p['steps']).__name__) for p in cfg['procs']],
              [(op['op'], op.get('p'), len(op['t']),
                (op.get('fault') or {}).get('seam'),
                (op.get('nest') or {}).get('k')) for op in case['ops']],
              sched.trace[:40])
