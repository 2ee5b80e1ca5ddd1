"""P08: integration realizes exactly the Euler recursion of the stated
equation."""
import numpy as np

from . import procgen as PG
from . import srcgen as G
from .core import arr, check, same
from .seams import Seams, plain_rng

ID = 'P08'
LEVEL = 'exploration'
QUICK = 22000
RULE = ('a case is a seeded process (presets and custom one or more equation '
        'processes: shapes, parameters as constants, arrays, callables and '
        'processes, initial conditions, steps, start index) driven by '
        'adversarial sources (any function of the ends of the step, with '
        'large shocks) or by recorded library sources, integrated 1-2 times; '
        'compared with an independent Euler recursion. Non-trivial if at '
        'least two steps and one stochastic term were integrated; distinct '
        'by process kind, shapes, parameter kinds, steps and start index')
MEASURE = ('process kind, shapes, parameter kinds, equations structure, '
           'steps kind, start index, number of points')
REAL = ['sdepy integration classes and processes', 'library sources (in '
        'recorded mode)']
STUB = ['stochasticity sources (in hash mode)', 'user equations and '
        'parameter callables']


def generate(r, tier):
    deep = tier == 'thorough'
    spec = PG.gen_spec(r, deep=deep)
    sine = any(c.get('sin') for eq in spec.get('eqs', ())
               for c in eq.values())
    if r.random() < .15:
        spec['dtype'] = r.choice(['float64'] + ['float32']*(not sine))
    if spec.get('via') == 'integrate' and r.random() < .5:
        used = {s for eq in spec['eqs'] for s in eq}
        spec['auto'] = r.choice(['bare', 'call', 'q', 'sources', 'both'])
        if spec['auto'] != 'both':      # the sources used are found out
            spec['srcs'] = sorted(used)
    ops = []
    n = r.choice([2, 3, 4, 6])
    for _ in range(r.choice([1, 1, 2])):
        ops.append(dict(t=PG.gen_timeline(r, n, near=.15),
                        kind=r.choice(['array', 'array', 'list', 'int']*3 +
                                      ['i32', 'u8', 'strided', 'readonly',
                                       'f32' if spec['mode'] == 'hash'
                                       else 'list'])))
        if ops[-1]['kind'] in ('int', 'i32', 'u8'):
            ops[-1]['t'] = [int(k) for k in range(n)]
            if isinstance(spec['steps'], int) and n not in (2, 3, 5):
                ops[-1]['t'] = list(range(5))
    if r.random() < .01:
        # many paths, points or steps
        k = r.randrange(3)
        if k == 0:
            spec['paths'] = r.choice([40, 200])
        elif k == 1:
            ops = [dict(t=PG.gen_timeline(r, r.choice([40, 120])),
                        kind='array')]
        else:
            spec['steps'] = r.choice([129, 1025])
    if r.random() < .05:
        spec['i0'] = 0
        ops = [dict(t=[1.], kind='array')]
    return dict(config=spec, ops=ops)


def simplify(case):
    import copy
    c = copy.deepcopy(case)
    for k, p in c['config']['params'].items():
        if p['kind'] != 'scalar':
            d = copy.deepcopy(c)
            d['config']['params'][k]['kind'] = 'scalar'
            yield d
    for k, v in (('steps', None), ('i0', 0), ('paths', 1), ('corr', None)):
        if c['config'][k] != v:
            d = copy.deepcopy(c)
            d['config'][k] = v
            yield d


def compare(spec, out, ref, tl, tol=1e-8):
    res = PG.results(spec, out)
    check(len(res) == len(ref), 'results-number')
    vs, paths = tuple(spec['vshape']), spec['paths']
    for x, y in zip(res, ref):
        check(same(x.t, tl), 'result-timeline',
              lambda: '%r, expected %r' % (x.t, tl))
        check(tuple(x.vshape) == vs and x.paths == paths, 'result-shape',
              lambda: '%r %r' % (x.vshape, x.paths))
        x = arr(x, 'result', (len(tl),) + vs + (paths,))
        y = np.broadcast_to(y, x.shape)
        ok = np.isfinite(y) & (np.abs(y) < (1e100 if tol < 1e-5 else 1e20))
        scale = 1 + np.abs(np.where(ok, y, 0.))
        # errors propagate along each path: compare to its largest value
        scale = scale.max(axis=0, keepdims=True)
        err = np.where(ok, np.abs(x - y)/scale, 0.)
        check(not (err > tol).any() and np.isfinite(x[ok]).all(),
              'wrong-values',
              lambda: 'at t=%r: %r, expected %r'
              % (tl[np.unravel_index(err.argmax(), err.shape)[0]],
                 x.ravel()[err.argmax()], y.ravel()[err.argmax()]))


class Twins:
    """Library sources with the parameters given to the process, and a
    generator in the same state: they repeat the recorded increments."""

    def __init__(self, spec):
        import sdepy
        sm = Seams(None)
        kw = PG.source_params(spec, sm)
        rng = plain_rng(spec['seed'], spec['legacy'])
        ids, dtype = PG.source_ids(spec), spec.get('dtype')
        args = dict(paths=spec['paths'], vshape=PG.wshape(spec), rng=rng)
        self.src = {}
        if 'dw' in ids:
            self.src['dw'] = sdepy.wiener_source(
                dtype=dtype, **args,
                **{k: kw[k] for k in ('corr', 'rho') if k in kw})
        dn = None
        if 'dn' in ids:
            self.src['dn'] = dn = sdepy.poisson_source(
                lam=kw.get('lam', 1.), **args)
        if 'dj' in ids:
            if spec['proc'] == 'merton':
                y = sdepy.norm_rv(a=kw.get('a', 0.), b=kw.get('b', 1.))
            elif spec['proc'] == 'kou':
                y = sdepy.double_exp_rv(
                    a=kw.get('a', .5), b=kw.get('b', .5), pa=kw.get('pa', .5))
            else:
                y = kw.get('y') or sdepy.uniform_rv(a=0, b=1)
            j = dict(dn=dn) if dn is not None else \
                dict(lam=kw.get('lam', 1.))
            self.src['dj'] = sdepy.cpoisson_source(dtype=dtype, y=y, **j,
                                                   **args)

    def compare(self, log):
        for id, t, dt, z in log:
            x = self.src[id](t, dt)
            check(same(np.asarray(x), z) or np.allclose(x, z, 1e-9, 1e-12),
                  'source-parameters',
                  lambda: '%s(%r, %r) is %r, while a source with the same '
                  'parameters and generator gives %r' % (id, t, dt, z, x))


class Increments:
    """Supplies the reference with the increments the process was given"""

    def __init__(self, spec, hs, log):
        self.spec, self.hs, self.log = spec, hs, log

    def __call__(self, id, s, ds):
        if id in self.hs:
            return self.hs[id].value(s, ds)
        for k, (i, t, dt, z) in enumerate(self.log):
            if i == id and t == s and dt == ds:
                self.log.pop(k)
                if id == 'dj':
                    PG.check_jumps(self.spec, z*np.sign(ds))
                return z
        check(False, 'source-not-called',
              lambda: '%s never evaluated at (%r, %r), but at %r'
              % (id, s, ds, [e[:3] for e in self.log][:10]))


def execute(case, ctx):
    spec = case['config']
    sm = Seams(ctx)
    log = []
    proc, hs = PG.build(spec, sm, log=log if spec['mode'] == 'rec' else None)
    steps = 0
    twins = Twins(spec) if spec['mode'] == 'rec' else None
    tol = 1e-8
    if spec.get('dtype') == 'float32':
        tol = 5e-2 if spec['proc'] in ('cir', 'heston', 'full_heston') \
            else 5e-3
    given = []
    for op in case['ops']:
        tl = G.cast(np.array(op['t']), op['kind']) \
            if op['kind'] != 'list' else op['t']
        for h in hs.values():
            h.log.clear()
        del log[:]
        out = proc(tl)
        if twins is not None:
            twins.compare(log)
        ref = PG.Reference(spec, Increments(spec, hs, log))
        want = ref.run(op['t'])
        compare(spec, out, want, op['t'], tol)
        for x in PG.results(spec, out):
            if spec.get('dtype'):
                check(x.dtype == spec['dtype'], 'result-dtype',
                      lambda: str(x.dtype))
        for x in PG.results(spec, out):
            given.append((x, np.array(x)))
            ctx.event(np.array(x))
        # results of previous integrations stay what they were
        for x, y in given:
            check(same(np.asarray(x), y), 'results-overwritten',
                  lambda: '%r, was %r' % (x, y))
        # sources are evaluated once for each step
        n = ref.steps
        for id, h in hs.items():
            check(len(h.log) == n, 'source-calls',
                  lambda: '%s evaluated %d times in %d steps'
                  % (id, len(h.log), n))
        check(not log, 'source-calls',
              lambda: repr([e[:3] for e in log][:10]))
        steps += n
        ctx.time(op['t'][-1] - op['t'][0])
    ctx.count('steps', steps)
    ctx.count('proc:' + spec['proc'])
    ctx.nontrivial = steps >= 2 and bool(PG.source_ids(spec))
    ctx.state(spec['proc'], spec['vshape'], spec['mode'],
              sorted((k, p['kind']) for k, p in spec['params'].items()),
              [sorted((s, c['kind']) for s, c in eq.items())
               for eq in spec.get('eqs', [])],
              spec.get('log'), spec.get('addaxis'),
              type(spec['steps']).__name__, spec['i0'],
              [len(op['t']) for op in case['ops']])
