"""P12: integration diagnostics report what actually happened."""
import copy

import numpy as np

import sdepy

from . import procgen as PG
from . import seams as S
from .core import arr, check, same
from .seams import Seams

ID = 'P12'
LEVEL = 'exploration'
QUICK = 7000
RULE = ('a case is 1-2 seeded processes (all kinds; heston and jump '
        'diffusion ones more often) and a history of 1-5 forward '
        'integrations, alternated or nested one inside a callback of the '
        'other, some aborted by a fault; diagnostics are compared with '
        'counts made by an independent Euler recursion and by the recorded '
        'underlying Poisson source. Non-trivial if at least one step was '
        'counted; distinct by process kinds, shapes, steps and history')
MEASURE = ('process kinds, shapes, steps kinds + (object, points, fault, '
           'nesting) of each integration')
REAL = ['sdepy integration classes, processes and library sources']
STUB = ['stochasticity sources (in hash mode), user equations, parameter '
        'callables', 'numpy allocator in aborted runs']

JUMPS = ('jumpdiff', 'merton', 'kou')
KINDS = PG.PRESETS + PG.CUSTOM + ('heston', 'full_heston')*3 + JUMPS*2


def generate(r, tier):
    specs = []
    for _ in range(r.choice([1, 1, 2])):
        s = PG.gen_spec(r, kinds=KINDS, i0=False)
        s['getinfo'] = r.random() < .9
        s['userinfo'] = r.random() < .2
        if s['proc'] in JUMPS:
            s['mode'] = 'rec'
            s['dnkind'] = r.choice(['class', 'given', 'hash', 'class'])
            s['ptype'] = r.choice([None]*5 + ['int16', 'float64'])
        specs.append(s)
    if len(specs) == 2 and r.random() < .3:
        # two objects of the same class
        specs[1] = dict(copy.deepcopy(specs[0]), seed=r.randrange(2**31))
    ops = []
    for _ in range(r.choice([1, 2, 3, 5])):
        o = r.randrange(len(specs))
        op = dict(o=o, t=PG.gen_timeline(r), seed=r.randrange(2**31))
        if r.random() < .05:
            op['t'] = [op['t'][0]]
        elif r.random() < .01:
            op['t'] = PG.gen_timeline(r, r.choice([40, 100]))
        if r.random() < .25:
            op['fault'] = dict(seam=r.choice(PG.seams_of(specs[o])),
                               k=r.choice([1, 2, 3, 5, 9, 15]), min=9,
                               exc=r.choice(S.EXC_KINDS))
        elif len(specs) == 2 and r.random() < .4:
            op['nest'] = dict(k=r.choice([1, 2, 3, 5, 9]),
                              t=PG.gen_timeline(r), seed=r.randrange(2**31))
        ops.append(op)
    return dict(config=specs, ops=ops)


class Obj:
    def __init__(self, spec, ctx):
        self.spec = spec
        self.sm = Seams(ctx)
        self.log, self.dnlog = [], []
        self.rng = S.sim_rng(spec['seed'], self.sm, spec['legacy'])
        over = {}
        jumps = spec['proc'] in JUMPS
        if jumps:
            st = dict(inside=False)
            rec = PG.recording(sdepy.poisson_source, self.dnlog, 'dn', st)
            k = spec['dnkind']
            if k == 'class':
                over['dn'] = rec
            elif k == 'given':
                from .p05 import lam_kw
                ws = PG.wshape(spec)
                over['dn'] = rec(paths=spec['paths'], vshape=ws,
                                 rng=self.rng,
                                 **lam_kw(spec['lam'], ws, self.sm),
                                 **({'dtype': np.dtype(spec['ptype'])}
                                    if spec['ptype'] else {}))
            else:
                h = PG.HashSource(spec, 'dn', self.sm)
                h.vshape = h.full
                over['dn'] = h
                h.lam, h.ptype = 1., int
                self.dnhash = h
            if spec['ptype']:
                over['ptype'] = np.dtype(spec['ptype'])
        if spec['userinfo']:
            self.userinfo = over['info'] = dict(note='mine')
        self.proc, self.hs = PG.build(
            spec, self.sm, rng=self.rng,
            log=self.log if spec['mode'] == 'rec' else None, **over)

    def reset(self, seed):
        fresh = S.plain_rng(seed, self.spec['legacy'])
        if self.spec['legacy']:
            self.rng.set_state(fresh.get_state())
        else:
            self.rng.bit_generator.state = fresh.bit_generator.state

    def run(self, op):
        self.reset(op['seed'])
        del self.log[:], self.dnlog[:]
        if hasattr(self, 'dnhash'):
            self.dnhash.log.clear()
        for h in self.hs.values():
            h.log.clear()
        self.out = self.proc(np.array(op['t']))
        return self.out

    def check_info(self, op, ctx):
        """info of the last run (of op)"""
        from .p08 import Increments
        spec, tl = self.spec, op['t']
        vs, paths = tuple(spec['vshape']), spec['paths']
        neg = np.zeros(vs + (paths,), int)
        ref = PG.Reference(spec, Increments(spec, self.hs, list(self.log)))

        def on_step(s, ds, xs, dz, new):
            if 'heston' in spec['proc']:
                neg[...] += xs[1] < 0
        ref.on_step = on_step
        ref.run(tl)
        if not spec['getinfo']:
            return 0
        info = self.proc.info
        check(isinstance(info, dict), 'no-info', repr(info))
        if spec['userinfo']:
            check(info is self.userinfo and info.get('note') == 'mine',
                  'user-info-ignored', repr(info))
        n = ref.steps
        want = dict(t0=tl[0], tmin=tl[0], tmax=tl[-1], computed_steps=n,
                    stored_steps=len(tl) - 1)
        for k, v in want.items():
            check(k in info and np.shape(info[k]) == () and info[k] == v,
                  'wrong-info', lambda: '%s=%r, expected %r (timeline %r)'
                  % (k, info.get(k), v, tl))
        if 'heston' in spec['proc']:
            got = arr(info.get('negative_y_count'), 'negative_y_count')
            check(same(got, neg), 'wrong-negative-count',
                  lambda: '%r, expected %r' % (got, neg))
            ctx.count('negative-steps', int(neg.sum()))
        if spec['proc'] in JUMPS:
            count = np.zeros(vs + (paths,), int)
            rate = np.zeros(len(tl))
            if spec['dnkind'] == 'hash':
                rec = [(t, dt, self.dnhash.value(t, dt))
                       for t, dt in self.dnhash.log]
            else:
                rec = [e[1:] for e in self.dnlog]
            check(len(rec) == n, 'source-calls')
            for t, dt, dn in rec:
                i = int(np.searchsorted(tl, t, side='right')) - 1
                count += dn.astype(int)
                rate[i] += dn.sum()/(tl[i+1] - tl[i])/paths
            if len(tl) > 1:
                rate[-1] = rate[-2]
            got = arr(info.get('jump_count'), 'jump_count')
            check(same(got, count), 'wrong-jump-count',
                  lambda: '%r, expected %r' % (got, count))
            got = arr(info.get('jump_rate'), 'jump_rate')
            check(got.shape == rate.shape and
                  np.allclose(got, rate, rtol=1e-9, atol=1e-12),
                  'wrong-jump-rate',
                  lambda: '%r, expected %r' % (got, rate))
            ctx.count('jumps', int(count.sum()))
        return n


def frozen(info):
    return {k: np.array(v) for k, v in info.items()}


def execute(case, ctx):
    specs = case['config']
    objs = [Obj(s, ctx) for s in specs]
    last = [None]*len(objs)       # last diagnostics read
    ranks, total = [], 0
    for op in case['ops']:
        a = objs[op['o']]
        f, nest = op.get('fault'), op.get('nest')
        ranks.append((op['o'], len(op['t']), f and (f['seam'], f['k']),
                      nest and nest['k']))
        done = []
        if f:
            a.sm.arm(f)
            exc = None
            try:
                a.run(op)
            except (Exception, KeyboardInterrupt) as e:
                exc = e
            finally:
                fired = a.sm.disarm()
            if exc is not None:
                if fired is None:
                    raise exc
                last[op['o']] = None
                continue
        else:
            if nest:
                b = objs[1 - op['o']]
                left = [nest['k']]

                def hook(seam):
                    left[0] -= 1
                    if left[0] == 0:
                        b.run(nest)
                        done.append(b)
                a.sm.hook = hook
            try:
                a.run(op)
            finally:
                a.sm.hook = None
        total += a.check_info(op, ctx)
        ctx.event(op['o'], [np.array(x)
                            for x in PG.results(a.spec, a.out)][0])
        if done:
            total += b.check_info(nest, ctx)
            last[1 - op['o']] = frozen(b.proc.info)
            ctx.count('nested')
        if a.spec['getinfo']:
            last[op['o']] = frozen(a.proc.info)
        # diagnostics of other objects are left alone
        for o, snap in zip(objs, last):
            if snap is not None:
                now = frozen(o.proc.info)
                check(sorted(now) == sorted(snap) and
                      all(same(now[k], snap[k]) for k in now),
                      'info-shared', lambda: '%r, was %r' % (now, snap))
        # results do not depend on diagnostics
        c = Obj(dict(a.spec, getinfo=not a.spec['getinfo']), ctx)
        out = c.run(op)
        check(all(same(np.array(x), np.array(y)) for x, y in
                  zip(PG.results(a.spec, a.out), PG.results(c.spec, out))),
              'getinfo-changes-results')
        ctx.time(op['t'][-1] - op['t'][0])
    ctx.nontrivial = total > 0
    ctx.state([(s['proc'], s['vshape'], type(s['steps']).__name__)
               for s in specs], ranks)
