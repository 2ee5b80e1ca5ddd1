"""P04: a failed query leaves a source with memory consistent and usable."""
import numpy as np

from . import p01, p03
from . import seams as S
from . import srcgen as G
from .core import Violation, check, same
from .seams import Seams

ID = 'P04'
LEVEL = 'fault_enumeration'
QUICK = 8000
RULE = ('a case is a seeded source with memory (or 1-2 compound Poisson '
        'sources sharing their underlying Poisson source) and a history of '
        '3-20 queries, part of which fail at the k-th crossing of a seam '
        '(random draw, correlation, intensity, jump size callable, sampling '
        'of the jump size, memory allocation), with k given or swept from 1 '
        'on, and are then repeated or abandoned; non-trivial if at least one '
        'query failed and at least 3 distinct times were realized; distinct '
        'by source kind, failing seams and relative positions of queries')
MEASURE = ('source kind + (query kind, relative position, failing seam and '
           'crossing number) of each query')
REAL = ['sdepy sources with memory and everything they call', 'numpy random '
        'generators']
STUB = ['callables for correlation, intensity and jump sizes',
        'numpy allocator (delegates to malloc, fails at the k-th allocation)']


def seams_of(cfg):
    out = ['rng', 'alloc']
    kind = cfg.get('kind', 'cpoisson')
    if kind == 'wiener':
        c = cfg.get('corr')
        if c and c['kind'] in ('call', 'rhocall'):
            out += ['corr']*2
    else:
        if cfg['lam']['kind'] in ('call', 'callarr'):
            out += ['lam']
        if kind == 'cpoisson':
            y = cfg['y'] if isinstance(cfg['y'], str) else cfg['y'][0]
            if y in ('normt', 'callones'):
                out += ['y']*2
            if y not in G.Y_PLAIN:
                out += ['rvs']*2
    return out


def gen_fault(r, cfg):
    seam = r.choice(seams_of(cfg))
    sweep = r.random() < .35
    if seam == 'alloc':
        k = r.choice([1, 2, 3, 5, 8, 13, 20, 30, r.randint(1, 60)])
    else:
        k = r.choice([1, 1, 1, 2, 2, 3, 5])
    return dict(seam=seam, k=k, min=r.choice([0] + [9]*9), exc=r.choice(S.EXC_KINDS),
                sweep=r.choice([5, 20, 60]) if sweep else 0,
                retry=r.random() < .6)


def generate(r, tier):
    if r.random() < .5:
        cfg = G.gen_true(r, rtol=False)
        n = r.choice([3, 5, 8, 12]) if tier == 'quick' else \
            r.choice([3, 5, 8, 12, 30])
        case = dict(mode='values', config=cfg,
                    ops=p01.gen_ops(r, cfg, n, near=False))
    else:
        case = dict(p03.generate(r, tier), mode='jumps')
        case['ops'] = case['ops'][:20 if tier == 'quick' else 60]
    for op in case['ops']:
        if 't' in op and r.random() < .4:
            op['fault'] = gen_fault(r, case['config'])
    return case


def simplify(case):
    for k, op in enumerate(case['ops']):
        f = op.get('fault')
        if f and f['sweep']:
            for j in range(1, f['sweep'] + 1):
                f.update(sweep=0, k=j)
                yield case
            return


def values_equal(model, ctx):
    for t in list(model.obs):
        v = model.value(model.src(t), 'dz(t)')
        cand = model.obs[t]
        check(same(v, cand), 'value-changed',
              lambda: 'after a failed query, value at t=%r was %r, now %r'
              % (t, cand, v))


def query(sm, fault, k, f):
    """One attempt of query f under a fault.  Returns (failed, result)."""
    sm.arm(dict(fault, k=k))
    res, exc = None, None
    try:
        res = f()
    except (Exception, KeyboardInterrupt) as e:
        exc = e
    finally:
        fired = sm.disarm()
    if exc is None:
        check(fired is None or fired is True, 'failure-swallowed',
              lambda: 'no exception, although %r was raised' % fired)
        return False, res
    if fired is True:
        if not isinstance(exc, MemoryError):
            # numpy may turn a failed allocation into another error, but
            # not in absence of it
            sm.ctx.count('alloc-other:' + type(exc).__name__)
    elif exc is not fired:
        if fired is None:
            raise exc
        raise Violation('failure-altered',
                        'raised %r, got %r' % (fired, exc))
    sm.ctx.event('failed', fault['seam'], k, type(exc).__name__)
    return True, None


def faulty(sm, op, f, after):
    """Query f with the faults of op; after() is the consistency check to run
    after each failure.  Returns True if the query should be abandoned."""
    fault = op.get('fault')
    if not fault:
        return False
    failed = False
    ks = range(1, fault['sweep'] + 1) if fault['sweep'] else [fault['k']]
    for k in ks:
        bad, res = query(sm, fault, k, f)
        if bad:
            failed = True
            after()
        else:
            check(same(res, f()), 'value-changed',
                  'the same query gives another result')
            break
    sm.ctx.count('failed-queries', int(failed))
    return failed and not fault['retry']


# ---------------------------------------------------------------------------
def the_query(op, src, views, cfg):
    kind = op['op']
    if kind == 'val':
        return lambda: src(op['t'])
    if kind == 'inc':
        return lambda: src(op['t'], op['s'] - op['t'])
    if kind == 'arr':
        return lambda: src(np.array(op['t']).reshape(op['shape']))
    if kind == 'arrinc':
        t, s = np.array(op['t']), np.array(op['s'])
        t = t[0] if op['scalar'] else t
        return lambda: src(t, s - t)
    if kind == 'view' and views:
        v = views[op['k'] % len(views)][0]
        t = np.array([op['t'], cfg['t0']]) if op['arr'] else op['t']
        if op['s'] is None:
            return lambda: v(t)
        return lambda: v(t, op['s'] - t)
    return None


def op_times(op, cfg):
    out = np.atleast_1d(op['t']).tolist()
    if op.get('s') is not None:
        out += np.atleast_1d(op['s']).tolist()
    if op['op'] == 'arrinc':
        out += [float(u) for u in np.broadcast_arrays(op['t'], op['s'])[0]]
    return [float(u) for u in out]


class FaultModel(p01.Model):
    """A failed query may or may not have realized some of its times."""

    def __init__(self, *a):
        super().__init__(*a)
        self.maybe = set()

    def housekeeping(self):
        for t in np.asarray(self.src.t).tolist():
            if t in self.maybe and t not in self.obs:
                self.observe(t, self.value(self.src(t), 'dz(t)'))
        super().housekeeping()


def execute_values(case, ctx):
    cfg = case['config']
    sm = Seams(ctx)
    src = G.build_true(cfg, sm)
    model = FaultModel(cfg, src, ctx)
    views, ranks = [], []
    for op in case['ops']:
        f = op.get('fault') or {}
        ranks.append((op['op'], p01.sig(op, model), f.get('seam'),
                      f.get('sweep') or f.get('k')))

        def after():
            model.maybe.update(op_times(op, cfg))
            model.housekeeping()
            values_equal(model, ctx)
        q = the_query(op, src, views, cfg) if f else None
        if q is not None and faulty(sm, op, q, after):
            continue
        p01.run_op(op, src, model, ctx, views)
        model.housekeeping()
        ctx.event(op['op'], op.get('t'), op.get('s'), src.size)
    for t in list(model.obs):
        v = model.value(src(t), 'dz(t)')
        model.observe(t, v)
        ctx.event(t, v)
    ctx.time(max(model.obs) - min(model.obs))
    ctx.nontrivial = len(model.obs) >= 3 and \
        bool(ctx.counts.get('failed-queries'))
    ctx.state(cfg['kind'], cfg['vshape'], ranks)


def execute_jumps(case, ctx):
    cfg = case['config']
    sm = Seams(ctx)
    dn, djs, ys, bounds = p03.build(cfg, sm)
    full = tuple(cfg['vshape']) + (cfg['paths'],)
    obs, nobs = [{} for _ in djs], {}
    seq, seen = [], []
    for op in case['ops']:
        f = op.get('fault') or {}
        tt = op['t']
        seq.append((op['op'], op.get('o'),
                    [int(np.searchsorted(sorted(seen), t)) for t in tt],
                    f.get('seam'), f.get('sweep') or f.get('k')))
        seen.extend(tt)

        def after():
            p03.check_all(cfg, dn, djs, ys, bounds, obs, nobs, ctx)
        if f:
            if op['op'] == 'dn':
                def q():
                    return dn(tt[0])
            else:
                src = djs[op['o']]

                def q():
                    return src(tt[0]) if op['op'] == 'val' else \
                        src(tt[0], tt[1] - tt[0]) if op['op'] == 'inc' \
                        else src(np.array(tt))
            if faulty(sm, op, q, after):
                continue
        p03.do(op, dn, djs, obs, nobs, full, ctx)
        if any(getattr(y, 'exhausted', False) for y in ys):
            ctx.count('marks-exhausted')
            break
        ctx.event(op['op'], op['t'])
    p03.check_all(cfg, dn, djs, ys, bounds, obs, nobs, ctx)
    ts = set()
    for o in obs:
        for t in sorted(o):
            ctx.event(t, o[t])
            ts.add(t)
    if ts:
        ctx.time(max(ts) - min(ts))
    ctx.nontrivial = len(ts) >= 2 and bool(ctx.counts.get('failed-queries'))
    ctx.state(cfg['y'], cfg['own'], seq)


def execute(case, ctx):
    (execute_values if case['mode'] == 'values' else execute_jumps)(case, ctx)
