"""P10: an aborted integration leaves no trace."""
import copy

import numpy as np

from . import procgen as PG
from . import seams as S
from .core import Violation, check, same
from .seams import Seams

ID = 'P10'
LEVEL = 'fault_enumeration'
QUICK = 8000
RULE = ('a case is a seeded process (presets and custom, as in P08) with '
        '1-4 integrations, most of which fail at the k-th crossing of a seam '
        '(equation, initial condition, source, parameter, correlation, '
        'intensity, jump size, random draw, memory allocation), with k given '
        'or swept from 1 on, each followed by re-use of the same object; '
        'parameters may also fail when probed at construction. Non-trivial '
        'if an integration failed and a later one was compared with that of '
        'a fresh object; distinct by process kind, shapes, seams, crossing '
        'numbers and timelines')
MEASURE = 'process kind, shapes + (seam, crossing, points) of each operation'
REAL = ['sdepy integration classes, processes and library sources',
        'numpy random generators']
STUB = ['user equations, parameter callables, sources (in hash mode)',
        'numpy allocator (delegates to malloc, fails at the k-th allocation)']


def generate(r, tier):
    spec = PG.gen_spec(r)
    if isinstance(spec['steps'], int):
        spec['steps'] = min(spec['steps'], 9)
    seams = PG.seams_of(spec)
    ops = []
    for _ in range(r.choice([1, 1, 2, 3])):
        op = dict(t=PG.gen_timeline(r), seed=r.randrange(2**31))
        if r.random() < .85:
            seam = r.choice(seams)
            sweep = r.random() < (.2 if tier == 'quick' else .4)
            k = r.choice([1, 2, 3, 4, 6, 9, r.randint(1, 30)])
            if seam == 'alloc':
                k = r.choice([k, r.randint(1, 250)])
            op['fault'] = dict(seam=seam, k=k, min=r.choice([0] + [9]*9),
                               exc=r.choice(S.EXC_KINDS),
                               sweep=r.choice([6, 20]) if sweep else 0,
                               stride=r.choice([1, 1, 7])
                               if seam == 'alloc' else 1)
            op['retry'] = r.random() < .5
        ops.append(op)
    ops.append(dict(t=PG.gen_timeline(r), seed=r.randrange(2**31)))
    case = dict(config=spec, ops=ops)
    if spec['mode'] == 'rec' and r.random() < .25 or r.random() < .1:
        case['probe'] = dict(seam=r.choice(['param', 'param', 'corr', 'lam']),
                             k=r.choice([1, 1, 2, 3]),
                             exc=r.choice([e for e in S.EXC_KINDS
                                           if e != 'interrupt']))
    return case


def simplify(case):
    for k, op in enumerate(case['ops']):
        f = op.get('fault')
        if f and f['sweep']:
            for j in range(f['sweep']):
                c = copy.deepcopy(case)
                c['ops'][k]['fault'].update(sweep=0, k=1 + j*f['stride'])
                yield c
    for k, v in (('steps', None), ('i0', 0), ('paths', 1), ('corr', None)):
        if case['config'][k] != v:
            c = copy.deepcopy(case)
            c['config'][k] = v
            yield c


class Obj:
    """A process object, with its generator"""

    def __init__(self, spec, ctx, probe=None):
        self.spec = spec
        self.sm = Seams(ctx)
        self.rng = S.sim_rng(spec['seed'], self.sm, spec['legacy'])
        self.given = {}
        self.results = []
        if probe:
            self.sm.arm(probe)
        try:
            self.proc, self.hs = PG.build(spec, self.sm, rng=self.rng,
                                          keep=self.given)
        finally:
            if probe:
                self.probed = self.sm.disarm()

    def reset(self, seed):
        fresh = S.plain_rng(seed, self.spec['legacy'])
        if self.spec['legacy']:
            self.rng.set_state(fresh.get_state())
        else:
            self.rng.bit_generator.state = fresh.bit_generator.state

    def run(self, op):
        out = self.proc(np.array(op['t']))
        res = PG.results(self.spec, out)
        copies = [np.array(x) for x in res]
        # results of previous integrations stay what they were
        for x, y in self.results:
            check(same(np.asarray(x), y), 'results-overwritten',
                  lambda: '%r, was %r' % (x, y))
        self.results += zip(res, copies)
        return copies


def snapshot(obj):
    """public attributes of the object, and the arrays it was given"""
    out = {}
    for k in ('paths', 'vshape', 'steps', 'i0', 'getinfo', 'method', 'dtype'):
        if hasattr(obj.proc, k):
            out[k] = copy.deepcopy(getattr(obj.proc, k))
    for k, z in sorted(obj.given.items()):
        if isinstance(z, np.ndarray):
            out['given.' + k] = np.array(z)
    return out


def same_snapshot(a, b):
    return a.keys() == b.keys() and all(
        same(a[k], b[k]) if isinstance(a[k], np.ndarray) or
        isinstance(b[k], np.ndarray) else a[k] == b[k] for k in a)


def same_info(a, b):
    return sorted(a) == sorted(b) and all(same(a[k], b[k]) for k in a)


def good_run(obj, fresh, op, ctx, what):
    """Run op with the object and with a fresh one"""
    obj.reset(op['seed'])
    fresh.reset(op['seed'])
    a, b = obj.run(op), fresh.run(op)
    check(len(a) == len(b) and all(same(x, y) for x, y in zip(a, b)),
          'results-differ', lambda: '%s: %r, a fresh object gives %r'
          % (what, a, b))
    if obj.spec['getinfo']:
        ia, ib = obj.proc.info, fresh.proc.info
        check(same_info(ia, ib), 'diagnostics-differ',
              lambda: '%s: %r, of a fresh object %r' % (what, ia, ib))
    check(S.rng_state(obj.rng) == S.rng_state(fresh.rng), 'draws-differ',
          what)
    for x in a:
        ctx.event(x)


def execute(case, ctx):
    spec = case['config']
    obj = Obj(spec, ctx, case.get('probe'))
    if case.get('probe'):
        ctx.count('probe-failures', int(obj.probed is not None))
    ref = snapshot(obj)
    ranks, failures = [], 0
    for op in case['ops']:
        f = op.get('fault')
        ranks.append((f and f['seam'], f and (f['sweep'] or f['k']),
                      len(op['t'])))
        if f:
            ks = range(1, 1 + f['sweep']*f['stride'], f['stride']) \
                if f['sweep'] else [f['k']]
            for k in ks:
                obj.reset(op['seed'])
                obj.sm.arm(dict(f, k=k))
                exc = None
                try:
                    got = obj.run(op)
                except (Exception, KeyboardInterrupt) as e:
                    exc = e
                finally:
                    fired = obj.sm.disarm()
                if exc is None:
                    # an allocation failure may have happened in a context
                    # able to do without it (e.g. formatting, caches)
                    check(fired is None or fired is True,
                          'failure-swallowed', lambda: repr(fired))
                    ctx.count('survived-alloc', int(fired is True))
                    fresh = Obj(spec, ctx)
                    fresh.reset(op['seed'])
                    check(all(same(x, y) for x, y in
                              zip(got, fresh.run(op))), 'results-differ',
                          'fault not reached, or survived')
                    break
                if fired is None:
                    raise exc
                if fired is not True and exc is not fired:
                    raise Violation('failure-altered', 'raised %r, got %r'
                                    % (fired, exc))
                failures += 1
                ctx.event('failed', f['seam'], k, type(exc).__name__)
                check(same_snapshot(ref, snapshot(obj)),
                      'parameters-changed', lambda: '%r, was %r'
                      % (snapshot(obj), ref))
                if op['retry']:
                    good_run(obj, Obj(spec, ctx), op, ctx,
                             'after failure at %s %d' % (f['seam'], k))
        else:
            good_run(obj, Obj(spec, ctx), op, ctx, 'later integration')
            ctx.time(op['t'][-1] - op['t'][0])
    ctx.count('failed-integrations', failures)
    ctx.count('proc:' + spec['proc'])
    ctx.nontrivial = failures > 0
    ctx.state(spec['proc'], spec['vshape'], spec['mode'], spec['i0'],
              type(spec['steps']).__name__, ranks)
