"""P14: cumulated Monte Carlo summaries equal those of the pooled sample."""
import numpy as np

import sdepy

from . import mcgen as M
from .core import check, same

ID = 'P14'
LEVEL = 'exploration'
QUICK = 18000
RULE = ('a case is a seeded Monte Carlo object (shapes, bins as number, rule, '
        'arrays or none, range, antithetics use, data types) and a history '
        'of 1-10 updates (sizes from 0, axes, broadcast shapes, lists, '
        'arrays of several types, processes), reads and indexings; after '
        'each update all summaries are compared with those of the pooled '
        'data, and results handed out earlier with copies of them. '
        'Non-trivial if at least two non-empty samples were cumulated; '
        'distinct by configuration and history')
MEASURE = 'configuration + (size, shape, axis, form) of updates and reads'
REAL = ['sdepy montecarlo', 'numpy histogram']
STUB = ['samples']


def generate(r, tier):
    cfg = M.gen_config(r)
    ops = []
    first = True
    n = r.choice([1, 2, 3, 5, 10] if tier == 'quick' else [2, 3, 5, 10, 40])
    if r.random() < .005:
        n = r.choice([40, 90])
    for _ in range(n):
        if r.random() < .3:
            ops.append(dict(op='read', what=r.choice(M.READS)))
        op = M.gen_update(r, cfg, first)
        if r.random() < .008:
            op['m'] = r.choice([64, 100, 300, 1000, 3000, 20000, 70000]) + \
                r.choice([0, 0, 1, r.randrange(1000)])
        ops.append(op)
        first = False
    for op in ops:
        if op['op'] == 'update' and r.random() < .2:
            op['scribble'] = True
    cfg['construct'] = r.random() < .4 and ops[0]['op'] == 'update'
    return dict(config=cfg, ops=ops)


def valid(cfg, ops):
    """The first non-empty sample fixes the shape"""
    for op in ops:
        if op['op'] == 'update' and op['m'] > 0:
            return op['shape'] == cfg['vshape']
    return True


def execute(case, ctx):
    cfg, ops = case['config'], case['ops']
    if not valid(cfg, ops):
        return
    kw = M.create(cfg)
    pool = M.Pool(cfg)
    mc = None
    held, sig, nonempty = [], [], 0
    if not (cfg['construct'] and ops and ops[0]['op'] == 'update'):
        mc = sdepy.montecarlo(**kw)
    for op in ops:
        if op['op'] == 'read':
            got = M.read(mc, cfg, op['what'], None)
            held += [(x, np.array(x)) for x in got]
            pool.verify(mc, ctx)
            sig.append(op['what'])
            continue
        x = M.sample_data(cfg, op)
        s = M.present(cfg, op, x)
        if np.asarray(s).dtype == np.float32 and op['m'] > 0:
            pool.single = True
        before = np.array(s)
        if mc is None:
            mc = sdepy.montecarlo(s, axis=op['axis'], **kw)
        else:
            check(mc.update(s, axis=op['axis']) is None, 'update-result')
        check(same(before, np.array(s)), 'sample-modified')
        pool.add(M.effective(cfg, op, x))
        nonempty += op['m'] > 0
        if op.get('scribble'):
            # the caller's arrays are used again for something else
            if isinstance(s, np.ndarray) and s.flags.writeable:
                s[...] = 1
            bins = kw.get('bins')
            if mc.paths and isinstance(bins, np.ndarray):
                for b in (bins.ravel() if bins.dtype == object else [bins]):
                    b[...] = np.arange(b.size).reshape(b.shape) - 1e3
        pool.verify(mc, ctx)
        sig.append((op['m'], op['shape'], op['axis'], op['form']))
        if mc.paths:
            ctx.event(mc.mean(), mc.paths)
    for x, copy in held:
        check(same(x, copy), 'earlier-result-changed',
              lambda: '%r, was %r' % (x, copy))
    if held:
        M.mutate([x for x, _ in held])
        pool.verify(mc, ctx)
    ctx.count('data-points', pool.paths)
    ctx.time(pool.paths)
    ctx.nontrivial = nonempty >= 2
    ctx.state(cfg['vshape'], cfg['bins'], cfg['use'], cfg['dtype'],
              cfg['law'], cfg['construct'], sig)
