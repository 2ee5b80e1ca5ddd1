"""P15: a failed Monte Carlo update changes nothing; indexed views stay
coherent."""
import numpy as np

import sdepy

from . import mcgen as M
from .core import check, same
from .seams import Seams

ID = 'P15'
LEVEL = 'fault_enumeration'
QUICK = 8000
RULE = ('a case is a seeded Monte Carlo object and a history of 2-10 updates, '
        'part of which fail (bad shape, axis or type, non finite values '
        'against automatic bins, odd number of antithetics, bad bins, '
        'allocation failure at the k-th allocation, with k given or swept), '
        'and of indexings taken at any time (values, slices, of other '
        'views). After each step the object is compared bit by bit with a '
        'twin that received the good updates only, and each view with the '
        'component it refers to. Non-trivial if an update failed, or a view '
        'lived through an update; distinct by configuration and history')
MEASURE = 'configuration + (kind, size, fault, crossing) of each operation'
REAL = ['sdepy montecarlo', 'numpy histogram']
STUB = ['samples', 'numpy allocator (delegates to malloc, fails at the k-th '
        'allocation)']

BAD = ('shape', 'axis', 'nonfinite', 'odd', 'badtype', 'alloc', 'alloc',
       'alloc')


def generate(r, tier):
    cfg = M.gen_config(r)
    if r.random() < .15 and cfg['bins'] in ('array', 'int'):
        cfg['badbins'] = r.choice(['shape', 'order', 'zero'])
    ops = []
    first = True
    for _ in range(r.choice([2, 3, 5, 8])):
        if r.random() < .55:
            op = M.gen_update(r, cfg, first)
            op['bad'] = r.choice(BAD)
            if op['bad'] == 'alloc':
                k = r.choice([1, 2, 3, 5, 8, 13, r.randint(1, 80)])
                op['fault'] = dict(seam='alloc', k=k, min=9)
                op['sweep'] = r.choice([0, 0, 20, 60])
            elif op['bad'] == 'badtype':
                op['badtype'] = r.choice(['str', 'object', 'ragged', 'none'])
            ops.append(op)
        if r.random() < .4:
            ops.append(dict(op='view', k=r.randrange(100),
                            of=r.randrange(100)))
        ops.append(M.gen_update(r, cfg, first))
        first = False
    return dict(config=cfg, ops=ops)


def bad_sample(cfg, op, first):
    """(sample, axis) that should make an update fail, or None"""
    x = M.sample_data(cfg, dict(op, m=max(1, op['m']), form='array'))
    b = op['bad']
    if b == 'shape':
        if first or not cfg['vshape']:
            # too many dimensions cannot be told from a valid first sample
            if first:
                return None
            return np.zeros((2, 3, 4)), -1
        return np.zeros(tuple(s + 5 for s in cfg['vshape']) +
                        x.shape[-1:]), -1
    if b == 'axis':
        return x, x.ndim + 3
    if b == 'nonfinite':
        if not first or cfg['bins'] not in ('int', 'str', 'default') or \
                cfg['range']:
            return None
        x = np.array(x)
        x.ravel()[op['seed'] % x.size] = [np.nan, np.inf,
                                          -np.inf][op['seed'] % 3]
        return x, -1
    if b == 'odd':
        if cfg['use'] == 'all':
            return None
        return x[..., :-1], -1
    if b == 'badtype':
        k = op['badtype']
        return (np.full(x.shape, 'a') if k == 'str' else
                np.full(x.shape, object(), dtype=object) if k == 'object'
                else [[1., 2.], [3.]] if k == 'ragged' else None), -1
    return None


INDEX = [0, -1, (0,), slice(0, 1), slice(None), slice(None, None, -1),
         slice(1, None), (Ellipsis,), ()]
INDEX2 = [(0, 0), (0, -1), (slice(None), 0), (0, slice(None)),
          (slice(0, 1), slice(0, 1))]


class View:
    def __init__(self, cfg, mc, k, positions, born):
        """positions: array of multi-indexes into the original"""
        self.mc, self.pos, self.born = mc, positions, born


def take(parent, pos, k):
    """index a view: returns (object, positions)"""
    cand = INDEX[:-2] if pos.ndim == 1 else INDEX[:-2] + INDEX2
    i = cand[k % len(cand)]
    return parent[i], pos[i], i


def close(a, b):
    # scalar and array arithmetics may differ in the last digits, amplified
    # by cancellation in central moments
    a, b = np.asarray(a), np.asarray(b)
    single = np.float32 in (a.dtype, b.dtype)
    with np.errstate(all='ignore'):
        return np.array_equal(a, b, equal_nan=True) or np.allclose(
            np.asarray(a, float), np.asarray(b, float),
            rtol=1e-2 if single else 1e-9, atol=1e-2 if single else 1e-9,
            equal_nan=True)


def check_views(cfg, mc, views, data):
    if not views:
        return
    # components with a variance well above rounding errors
    with np.errstate(all='ignore'):
        dev = np.abs(np.concatenate(data, axis=-1) -
                     data[0].mean(axis=-1, keepdims=True)).max(axis=-1)
        good = np.asarray(mc.var() > 1e-2*dev**2)
    for v in views:
        pos = v.pos
        one = isinstance(pos, tuple)
        shape = () if one else pos.shape
        check(v.mc.paths == mc.paths, 'view-paths',
              lambda: '%r vs %r' % (v.mc.paths, mc.paths))
        for s in M.STATS:
            full, got = np.array(getattr(mc, s)()), \
                np.array(getattr(v.mc, s)())
            if s in ('skew', 'kurtosis') and not good[
                    pos if one else tuple(np.array(list(pos.ravel())).T)
                    ].all():
                continue
            if full.shape == ():
                want = full
            elif one:
                want = full[pos]
            else:
                want = np.empty(shape)
                for j in np.ndindex(shape):
                    want[j] = full[pos[j]]
            check(np.shape(got) == np.shape(want) and
                  close(got, want),
                  'view-' + s, lambda: 'indexed: %r, component: %r'
                  % (got, want))
        if cfg['bins'] == 'none':
            continue
        for j in ([()] if one else np.ndindex(shape)):
            c = v.mc if one else v.mc[j] if j else v.mc
            o = mc[pos if one else pos[j]]
            (h, b), (h2, b2) = c.histogram(), o.histogram()
            check(same(h, h2) and same(b, b2), 'view-histogram',
                  lambda: '%r vs %r' % ((h, b), (h2, b2)))
            check(int(c.outpaths) == int(o.outpaths), 'view-outpaths',
                  lambda: '%r vs %r' % (c.outpaths, o.outpaths))


def positions(vshape):
    pos = np.empty(tuple(vshape), dtype=object)
    for i in np.ndindex(pos.shape):
        pos[i] = i
    return pos


def execute(case, ctx):
    cfg = case['config']
    sm = Seams(ctx)
    kw = M.create(cfg)
    broken = cfg.get('badbins')
    if broken == 'shape':
        kw['bins'] = np.zeros(tuple(cfg['vshape']) + (2, 2, 2))
    elif broken == 'order':
        kw['bins'] = np.zeros(tuple(cfg['vshape']) + (1,)) + [2., 1., 3.]
    elif broken == 'zero':
        kw['bins'] = 0
    mc, twin = sdepy.montecarlo(**kw), sdepy.montecarlo(**kw)
    views, sig, data = [], [], []
    failed, lived = 0, 0

    def after_failure(s, before, what):
        now = M.snapshot(cfg, mc)
        check(M.same_snapshot(before, now), 'failed-update-left-traces',
              lambda: '%s: %r' % (what, M.differences(before, now)))
        check_views(cfg, mc, views, data)

    for op in case['ops']:
        if op['op'] == 'view':
            if mc.paths and len(cfg['vshape']) and np.prod(cfg['vshape']):
                allv = [View(cfg, mc, None, positions(cfg['vshape']), 0)] + \
                    [v for v in views if not isinstance(v.pos, tuple)
                     and v.pos.size]
                p = allv[op['of'] % len(allv)]
                try:
                    obj, pos, i = take(p.mc, p.pos, op['k'])
                except IndexError:
                    continue
                if not isinstance(pos, tuple) and pos.size == 0:
                    continue
                views.append(View(cfg, obj, op['k'], pos, mc.paths))
                check_views(cfg, mc, views, data)
                sig.append(('view', str(i), op['of'] % len(allv)))
            continue
        first = mc.paths == 0
        if first and op['m'] == 0 and op.get('bad') is None:
            continue
        if first and (op['shape'] != cfg['vshape'] or op['m'] == 0):
            op = dict(op, shape=cfg['vshape'], m=max(1, op['m']), axis=-1)
        x = M.sample_data(cfg, op)
        s, axis = M.present(cfg, op, x), op['axis']
        before = M.snapshot(cfg, mc)
        bad = op.get('bad')
        if bad == 'alloc' or broken:
            ks = [None] if broken else \
                range(1, op['sweep'] + 1) if op['sweep'] else \
                [op['fault']['k']]
            for k in ks:
                exc = None
                if k:
                    sm.arm(dict(op['fault'], k=k))
                try:
                    mc.update(s, axis=axis)
                except Exception as e:
                    exc = e
                finally:
                    fired = sm.disarm() if k else True
                if exc is None:
                    check(not broken, 'accepted-bad-bins')
                    twin.update(s, axis=axis)
                    data.append(M.effective(cfg, op, x))
                    break
                if fired is None:
                    raise exc
                failed += 1
                after_failure(s, before, 'allocation %r failed' % k)
            sig.append((bad, op['m'], op.get('sweep'),
                        op.get('fault', {}).get('k')))
        elif bad:
            b = bad_sample(cfg, op, first)
            if b is not None:
                try:
                    mc.update(b[0], axis=b[1])
                    ok = True
                except Exception as e:
                    ok = False
                    ctx.event(bad, type(e).__name__)
                check(not ok, 'accepted:' + bad,
                      lambda: 'invalid sample accepted')
                failed += 1
                ctx.count('rejected:' + bad)
                after_failure(s, before, bad)
                sig.append((bad, op['m'], first))
            continue
        else:
            mc.update(s, axis=axis)
            twin.update(s, axis=axis)
            data.append(M.effective(cfg, op, x))
            lived += bool(views)
            sig.append((op['m'], op['shape'], op['axis'], op['form']))
        a, b = M.snapshot(cfg, mc), M.snapshot(cfg, twin)
        check(M.same_snapshot(a, b), 'differs-from-twin',
              lambda: repr(M.differences(a, b)))
        check_views(cfg, mc, views, data)
        if mc.paths:
            ctx.event(mc.mean(), mc.paths, len(views))
    ctx.count('failed-updates', failed)
    ctx.count('views', len(views))
    ctx.count('updates-seen-by-views', lived)
    ctx.time(mc.paths)
    ctx.nontrivial = failed > 0 or lived > 0
    ctx.state(cfg['vshape'], cfg['bins'], cfg['use'], broken, sig)
