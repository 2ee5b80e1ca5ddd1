"""P01: sources with memory never change a realized value."""
import numpy as np

from . import srcgen as G
from .core import arr, check, same, close
from .seams import Seams

ID = 'P01'
LEVEL = 'exploration'
QUICK = 14000
RULE = ('a case is a seeded source with memory (kind, shapes, paths, t0, z0, '
        'rtol, correlation/intensity/jump parameters, generator) and a '
        'seeded history of 3-30 queries (values, increments, arrays of '
        'times, indexed views, coincident times on either side); non-trivial '
        'if at least 3 distinct times were realized, counted distinct by '
        'source class and by the ranks of the query times in order of '
        'query')
MEASURE = ('source kind + relative position (rank among stored times) of '
           'each successive query')
REAL = ['sdepy sources with memory and everything they call', 'numpy random '
        'generators']
STUB = ['callables for correlation, intensity and jump sizes']


def gen_ops(r, cfg, n, near=True):
    # all times of the pool get queried: were one not, times near to it, on
    # opposite sides, would not be near to each other (nearness is not
    # transitive)
    pool = G.TimePool(r, cfg['t0'], G.rtol_value(cfg))
    vs = cfg['vshape']
    ops = []
    nviews = 0
    for _ in range(n):
        k = r.random()
        if k < .35:
            ops.append(dict(op='val', t=pool.any()))
        elif k < .39:
            # types of limited range
            ops.append(dict(op='inc', t=pool.whole(), s=pool.whole(),
                            form=r.choice(['i8', 'u8', 'i32', 'int'])))
        elif k < .5:
            t = pool.any()
            ops.append(dict(op='inc', t=t, s=pool.any()))
        elif k < .6:
            shape = r.choice([[2], [3], [4], [2, 2], [1], [0]])
            ts = [pool.any() for _ in range(int(np.prod(shape)))]
            ops.append(dict(op='arr', t=ts, shape=shape))
        elif k < .68:
            m = r.choice([1, 2, 3])
            scalar = r.random() < .3
            ops.append(dict(op='arrinc', t=[pool.any()]*m if scalar else
                            [pool.any() for _ in range(m)],
                            s=[pool.any() for _ in range(m)], scalar=scalar))
        elif k < .78 and near:
            ops.append(dict(op='val', t=pool.near(), near=True))
        elif k < .92 and vs:
            if nviews == 0 or r.random() < .3:
                idx = []
                fancy = r.random() < .25
                for d in vs[:r.randint(1, len(vs))]:
                    if fancy:
                        # lists of indices, masks, new axes, reversals
                        f = r.choice(['f', 'f', 'b', 'rev', 'all', 'n'])
                        if f == 'n':
                            idx.append({'n': 1})
                            f = 'all'
                        if f in 'fb':
                            fancy = False
                        idx.append(
                            {'f': [r.randrange(-d, d) for _ in
                                   range(r.randint(1, 3))],
                             'np': r.random() < .5} if f == 'f' else
                            {'b': [r.random() < .6 for _ in range(d)]}
                            if f == 'b' else
                            [None, None, -1 if f == 'rev' else None])
                    elif r.random() < .5:
                        idx.append(r.randrange(-d, d))
                    else:
                        a = r.randrange(d)
                        idx.append([a, r.randint(a, d), r.choice([1, 1, 2])])
                ops.append(dict(op='newview', idx=idx))
                nviews += 1
            else:
                t = pool.any()
                ops.append(dict(op='view', k=r.randrange(nviews), t=t,
                                s=None if r.random() < .67 else pool.any(),
                                arr=r.choice([0]*6 + [1, 1, 2, 3, 3])))
        else:
            ops.append(dict(op='recheck', j=r.randrange(1000)))
    for op in ops:
        op.setdefault('form', r.choice(G.FORMS))
    if r.random() < .02 and G.rtol_value(cfg) <= 1e-9:
        # a long history: many times realized in a row, all kept
        n = r.choice([150, 400, 1100, 1100, 2100])
        ops.insert(r.randint(0, len(ops)), dict(
            op='many', n=n, a=r.choice([0., .5, -3., 1e-3]),
            h=r.choice([1., -1., .01, 1/3, -1e-4]), perm=r.random() < .5,
            single=r.random() < .3))
        ops += [dict(op='recheck', j=r.randrange(1000)) for _ in range(3)]
    return ops


def many_times(op):
    i = np.arange(op['n'])
    if op['perm']:
        i = (i*7919) % op['n']
    return op['a'] + op['h']*i


def generate(r, tier):
    cfg = G.gen_true(r)
    if r.random() < .01:
        cfg['paths'] = r.choice([40, 150, 600])
    if cfg['kind'] != 'wiener' and r.random() < .03:
        cfg['lam']['hi'] = r.choice([10., 40.])
    if cfg['kind'] == 'wiener' and r.random() < .1:
        cfg['dtype'] = 'float32'
    n = r.choice([3, 6, 10, 18, 30]) if tier == 'quick' else \
        r.choice([3, 6, 10, 18, 30, 60, 120])
    return dict(config=cfg, ops=gen_ops(r, cfg, n))


class Model:
    """What has been observed so far: time -> value."""

    def __init__(self, cfg, src, ctx):
        self.cfg, self.src, self.ctx = cfg, src, ctx
        self.vs, self.paths = tuple(cfg['vshape']), cfg['paths']
        self.full = self.vs + (self.paths,)
        self.rtol = G.rtol_value(cfg)
        dtype = np.dtype(cfg.get('dtype') or
                         (int if cfg['kind'] == 'poisson' else float))
        self.obs = {float(cfg['t0']): np.broadcast_to(
            np.asarray(G.z0_value(cfg), dtype), self.full).copy()}
        self.size = 0
        self.seen = {v.tobytes(): t for t, v in self.obs.items()}
        self.tol = 1e-5 if dtype == np.float32 else 1e-11

    def expect(self, s):
        """(known, candidate values) at time s"""
        if s in self.obs:
            return [self.obs[s]]
        if not self.rtol:
            return []
        ts = np.array(list(self.obs))
        return [self.obs[t] for t in
                ts[abs(s - ts) <= self.rtol*abs(ts)].tolist()]

    def observe(self, s, v):
        s = float(s)
        cand = self.expect(s)
        if cand:
            check(any(same(v, c) for c in cand), 'value-changed',
                  lambda: 'value at t=%r was %r, now %r' % (s, cand, v))
            self.ctx.count('known-time')
        else:
            self.ctx.count('new-time')
            self.new(s, v)
        self.obs.setdefault(s, v)

    def new(self, s, v):
        """values at new times differ from any other"""
        if self.cfg['kind'] != 'wiener' or v.dtype != float:
            return
        t = self.seen.setdefault(v.tobytes(), s)
        check(abs(s - t) < 2.**-31, 'value-repeated',
              lambda: 'same value %r at %r and %r' % (v, s, t))
        ts = np.array(list(self.obs))
        if abs(s - ts).min() >= 2.**-11:
            check(np.unique(v).size == v.size, 'values-not-distinct',
                  lambda: 'at t=%r: %r' % (s, v))

    def value(self, x, what):
        x0 = x
        x = arr(x, what, self.full)
        try:     # results must not alias the source's memory
            x0[...] = 12345
        except (TypeError, ValueError):
            pass
        return x

    def housekeeping(self):
        t = arr(self.src.t, 't')
        check(t.ndim == 1 and (np.diff(t) > 0).all(), 'times-unsorted',
              lambda: repr(t))
        check(self.cfg['t0'] in t, 'times-lost', lambda: repr(t))
        check(set(t.tolist()) <= set(self.obs), 'times-unexpected',
              lambda: '%r not in %r' % (t, sorted(self.obs)))
        size = arr(self.src.size, 'size', ())
        check(size >= self.size, 'size-decreased',
              lambda: '%s -> %s' % (self.size, size))
        self.size = int(size)
        if self.cfg['kind'] == 'wiener':
            n = int(np.prod(self.full))
            check(self.size == n*len(t), 'size-wrong',
                  lambda: '%s with %s times of %s values'
                  % (size, len(t), n))
            for s in self.obs:
                check((abs(s - t) <= self.rtol*abs(t)).any(),
                      'times-missing', lambda: '%r not in %r' % (s, t))


def as_index(idx):
    def one(k):
        if isinstance(k, dict):
            if 'n' in k:
                return None
            return (np.array(k['b'], dtype=bool) if 'b' in k else
                    np.array(k['f']) if k['np'] else k['f'])
        return slice(*k) if isinstance(k, list) else k
    ii = tuple(one(k) for k in idx)
    return ii[0] if len(ii) == 1 else ii


def run_op(op, src, model, ctx, views):
    vs, full = model.vs, model.full
    kind = op['op']

    def fm(x):
        return G.cast(x, op.get('form'))
    if kind == 'val':
        model.observe(op['t'], model.value(src(fm(op['t'])), 'dz(t)'))
    elif kind == 'inc':
        t, s = op['t'], op['s']
        inc = model.value(src(fm(t), fm(s - t)), 'dz(t, dt)')
        a, b = (model.value(src(u), 'dz(t)') for u in (t, s))
        model.observe(t, a)
        model.observe(s, b)
        check(close(inc, b - a, model.tol, model.tol), 'increment',
              lambda: 'dz(%r, %r) = %r but dz(t+dt) - dz(t) = %r'
              % (t, s - t, inc, b - a))
    elif kind == 'arr':
        tt = np.array(op['t']).reshape(op['shape'])
        res = src(fm(tt))
        x = arr(res, 'dz(array)', tt.shape + full)
        if res.size:
            res[...] = -777
        for i in np.ndindex(tt.shape):
            model.observe(tt[i], x[i])
    elif kind == 'many':
        tt = many_times(op)
        x = np.array([src(u) for u in tt.tolist()]) if op['single'] \
            else src(tt)
        x = arr(x, 'dz(many)', tt.shape + full)
        for i, u in enumerate(tt.tolist()):
            model.observe(u, x[i])
        y = arr(src(tt), 'dz(many)', tt.shape + full)
        for i, u in enumerate(tt.tolist()):
            model.observe(u, y[i])
    elif kind == 'arrinc':
        t, s = np.array(op['t']), np.array(op['s'])
        if op['scalar']:
            t = t[0]
        inc = arr(src(fm(t), fm(s - t)), 'dz(t, array)', s.shape + full)
        for i in range(s.size):
            u = float(np.broadcast_to(t, s.shape)[i])
            a, b = (model.value(src(v), 'dz(t)') for v in (u, float(s[i])))
            model.observe(u, a)
            model.observe(float(s[i]), b)
            check(close(inc[i], b - a, model.tol, model.tol), 'increment',
                  lambda: 'dz(%r, %r) = %r but dz(t+dt) - dz(t) = %r'
                  % (u, s[i] - u, inc[i], b - a))
    elif kind == 'newview':
        i = as_index(op['idx'])
        v = src[i]
        ref = np.empty(full)[i + (Ellipsis, slice(None))
                             if isinstance(i, tuple)
                             else (i, Ellipsis, slice(None))]
        check(tuple(v.vshape) == ref.shape[:-1] and v.paths == model.paths,
              'view-shape', lambda: '%r %r' % (v.vshape, ref.shape))
        views.append((v, i))
    elif kind == 'view':
        if not views:
            return
        v, i = views[op['k'] % len(views)]
        ix = i if isinstance(i, tuple) else (i,)
        t, s = op['t'], op['s']
        t0 = model.cfg['t0']
        targ, lead = t, ()
        dt = None if s is None else s - t
        if op['arr'] == 3 and s is not None:
            # scalar time, array of time steps
            dt, lead = np.array([s - t, t0 - t]), (2,)
        elif op['arr']:
            targ = np.array([t, t0])
            if op['arr'] == 2:
                targ = targ.reshape(1, 2)
            lead = targ.shape
            dt = None if s is None else s - targ
        x = np.array(v(fm(targ)) if s is None else v(fm(targ), fm(dt)))
        y = np.array(src(targ) if s is None else src(targ, dt))
        y = arr(y, 'full source', lead + full)
        z = y[(slice(None),)*len(lead) + ix + (Ellipsis, slice(None))]
        check(same(x, z), 'view-mismatch',
              lambda: 'view %r at %r, %r is %r, full source %r'
              % (i, targ, s, x, z))
        model.observe(t, model.value(src(t), 'dz(t)'))
        if s is not None:
            model.observe(s, model.value(src(s), 'dz(t)'))
        check(same(v.t, src.t) and v.size == src.size, 'view-memory')
    elif kind == 'recheck':
        ts = sorted(model.obs)
        t = ts[op['j'] % len(ts)]
        model.observe(t, model.value(src(t), 'dz(t)'))


def sig(op, model):
    t = op.get('t')
    ts = np.atleast_1d(np.array(t if t is not None else [], float)).ravel()
    old = sorted(model.obs)
    return tuple(int(np.searchsorted(old, u)) - old.index(model.cfg['t0'])
                 for u in ts)


def execute(case, ctx):
    cfg = case['config']
    sm = Seams(ctx)
    src = G.build_true(cfg, sm)
    model = Model(cfg, src, ctx)
    views = []
    ranks = []
    for op in case['ops']:
        ranks.append((op['op'], sig(op, model)))
        ctx.count('op:' + op['op'])
        run_op(op, src, model, ctx, views)
        model.housekeeping()
        ctx.event(op['op'], op.get('t'), op.get('s'), src.size)
    # every value ever realized is still there
    for t in list(model.obs):
        v = model.value(src(t), 'dz(t)')
        model.observe(t, v)
        ctx.event(t, v)
    ctx.time(max(model.obs) - min(model.obs))
    ctx.nontrivial = len(model.obs) >= 3
    ctx.state(cfg['kind'], cfg['vshape'], cfg['rtol'], ranks)
