"""P05: memoryless sources realize independent increments with the stated
law."""
import numpy as np

import sdepy

from . import seams as S
from . import srcgen as G
from . import stats as ST
from .core import Skip, arr, check, same
from .seams import BasisExhausted, BasisRng, Seams

ID = 'P05'
LEVEL = 'exploration'
QUICK = 30000
RULE = ('a case is a seeded memoryless source and a history of 2-12 calls '
        '(scalar, array and broadcast times and steps of either sign or '
        'zero) some of which fail in a collaborator. Wiener sources are '
        'also driven by a scripted generator handing out basis vectors, and '
        'the covariance of all increments is compared exactly; Poisson and '
        'compound sources by tagged jump sizes and by 8 sigma statistics '
        'over 20000 paths. Non-trivial if at least two calls with a nonzero '
        'step succeeded; distinct by mode, source parameters kinds and '
        'shapes and signs of the calls')
MEASURE = ('mode, source kind, values shape, parameter kinds + (shape, signs '
           'of steps, fault) of each call')
REAL = ['sdepy memoryless sources', 'numpy random generators', 'scipy '
        'distributions']
STUB = ['random generator (scripted, in Gram mode)', 'callables for '
        'correlation, intensity and jump sizes', 'numpy allocator']


# ------------------------------------------------------------------ building
def y_of_time(t):
    return 1.5 + .5*np.sin(float(t))


class YConst(G.Y):
    def __init__(self, x):
        self.x = x

    def sample(self, size, rng):
        return np.full(size, self.x)


# jump sizes stated by time only
TIMED = ('timed', 'timedmap', 'timedmaps', 'timednorm', 'timedunif')
# distributions with array-like parameters: a different jump size, or sign,
# for each entry
Y_ARR = ('normarr', 'unifarr', 'normtarr', 'rvmaparr', 'exparr', 'dexparr')


def entries(cfg):
    """Parameter of each entry, and its values for all entries. Ratios of
    different values are irrational."""
    vs, paths = tuple(cfg['vshape']), cfg['paths']
    shapes = [vs + (1,), vs + (paths,), (paths,)]
    shape = shapes[cfg['seed'] % 3 if paths < 50 else 0]
    n = int(np.prod(shape))
    primes = [k for k in range(2, 2000)
              if all(k % j for j in range(2, int(k**.5) + 1))]
    a = np.sqrt(np.array(primes[:n], float)).reshape(shape)
    return a, np.broadcast_to(a, vs + (paths,))


def build_yarr(cfg, sm):
    kind = cfg['y']
    a, _ = entries(cfg)
    sign = np.where(np.arange(a.size).reshape(a.shape) % 2, 1., -1.)
    if kind == 'normarr':
        return sdepy.norm_rv(a=a, b=1e-12)
    if kind == 'unifarr':
        return sdepy.uniform_rv(a=a, b=a + 1e-12)
    if kind == 'normtarr':
        return sm.wrap('y', sdepy.norm_rv(a=lambda t: a*y_of_time(t),
                                          b=1e-12))
    if kind == 'rvmaparr':
        return sdepy.rvmap(np.sqrt, sdepy.norm_rv(a=a*a, b=1e-12))
    if kind == 'exparr':
        return sdepy.exp_rv(a=sign)
    if kind == 'dexparr':
        return sdepy.double_exp_rv(a=1., b=2., pa=(1 + sign)/2)
    raise AssertionError(kind)


def check_yarr(x, n, cfg, t, what):
    """x: values, with the sign of dt dropped; n: jump counts"""
    kind = cfg['y']
    a, full = entries(cfg)
    if kind in ('exparr', 'dexparr'):
        sign = np.where(np.arange(a.size).reshape(a.shape) % 2, 1., -1.)
        sign = np.broadcast_to(sign, full.shape)
        ok = np.where(n > 0, x*sign > -1e-12, np.abs(x) < 1e-12)
        check(ok.all(), 'jump-of-another-entry',
              lambda: '%s: jumps %r, counts %r, signs expected %r'
              % (what, x, n, sign))
        return
    if kind == 'normtarr':
        full = full*y_of_time(t)
    check((np.abs(x - n*full) < 1e-7*(1 + n)*full).all(),
          'jump-of-another-entry',
          lambda: '%s: jumps %r, %r expected with counts %r'
          % (what, x, n*full, n))


class Recorder:
    """A source that records what it returned (used as the Poisson source
    underlying a compound one)."""

    def __init__(self, src):
        self.src, self.paths, self.vshape = src, src.paths, src.vshape
        self.dtype, self.last = src.dtype, None

    def __call__(self, t, dt):
        self.last = self.src(t, dt)
        return self.last.copy()


CLASSES = dict(wiener=sdepy.wiener_source, poisson=sdepy.poisson_source,
               cpoisson=sdepy.cpoisson_source)
ANTI = dict(wiener=sdepy.odd_wiener_source,
            poisson=sdepy.even_poisson_source,
            cpoisson=sdepy.even_cpoisson_source)


def lam_fun(c, vs):
    """Strongly time-dependent intensity"""
    g = np.random.RandomState(c['seed'])
    kind, hi = c['kind'], c['hi']
    a = hi*g.uniform(.3, 1.)
    A = hi*g.uniform(.3, 1., size=tuple(vs) + (1,))
    if kind == 'zero':
        return lambda t: np.asarray(0.)
    if kind == 'default':
        return lambda t: np.asarray(1.)
    if kind == 'const':
        return lambda t: np.asarray(a)
    if kind == 'arr':
        return lambda t: A

    def w(t):
        return min(max((float(t) + 8.)/16., 0.), 1.)
    if kind == 'call':
        return lambda t: np.asarray(a*(.1 + 2*w(t)))
    return lambda t: A*(.1 + 2*w(t))


def lam_kw(c, vs, sm):
    return {} if c['kind'] == 'default' else dict(lam=build_lam(c, vs, sm))


def build_lam(c, vs, sm):
    f = lam_fun(c, vs)
    kind = c['kind']
    if kind in ('zero', 'const', 'default'):
        return float(f(0))
    if kind == 'arr':
        return G.listed(f(0), c)
    if kind == 'proc':
        t = np.array([-8., 8.])
        return sdepy.process(t=t, x=np.array([f(s) for s in t]))
    return sm.wrap('lam', G.listed(f, c))


def build(cfg, sm, rng=None, anti=False, dn=None):
    vs = tuple(cfg['vshape'])
    if rng is None:
        rng = S.sim_rng(cfg['seed'], sm, cfg['legacy'])
    kw = dict(paths=cfg['paths']*(2 if anti else 1), vshape=vs, rng=rng)
    if rng is S.DEFAULT:
        del kw['rng']
    if len(vs) == 1 and cfg['seed'] % 3 == 0:
        kw['vshape'] = vs[0]
    # default values, left out
    if kw['paths'] == (2 if anti else 1) and cfg['seed'] % 5 < 2:
        del kw['paths']
    if not vs and cfg['seed'] % 7 < 3:
        del kw['vshape']
    cls = (ANTI if anti else CLASSES)[cfg['kind']]
    if cfg['kind'] == 'wiener':
        if cfg.get('dtype'):
            kw['dtype'] = np.dtype(cfg['dtype'])
        return cls(**kw, **G.build_corr(cfg.get('corr'),
                                        vs[-1] if vs else 0, sm))
    lam = lam_kw(cfg['lam'], vs, sm)
    if cfg['kind'] == 'poisson':
        if cfg.get('dtype'):
            kw['dtype'] = np.dtype(cfg['dtype'])
        return cls(**kw, **lam)
    if cfg['y'] == 'timedmap':
        # transformation depending on time
        y = YConst(1.)
        y.seams = sm
        y = sdepy.rvmap(lambda t, x: x*y_of_time(t), y)
    elif cfg['y'] == 'timedmaps':
        y = sdepy.rvmap(lambda s, x: x*y_of_time(s),
                        sdepy.norm_rv(a=lambda t: 1., b=1e-12))
    elif cfg['y'] == 'timednorm':
        y = sdepy.norm_rv(a=y_of_time, b=1e-12)
    elif cfg['y'] == 'timedunif':
        y = sdepy.uniform_rv(a=y_of_time, b=lambda t: y_of_time(t) + 1e-12)
    elif cfg['y'] == 'timed':
        def yt(t):
            y = YConst(y_of_time(t))
            y.seams = sm
            return y
        y = sm.wrap('y', yt)
    elif cfg['y'] in Y_ARR:
        y = build_yarr(cfg, sm)
    elif cfg['y'] == 'marks':
        y = G.YMarks()
        y.seams = sm
    else:
        y, _ = G.build_y(cfg['y'], sm)
    if dn is not None:
        src = cls(**kw, y=y, dn=dn(dict(kw, **lam)))
    else:
        if cfg.get('dtype'):
            kw['ptype'] = np.dtype(cfg['dtype'])
        src = cls(**kw, y=y, **lam)
    src._y_probe = y
    return src


# ---------------------------------------------------------------- generation
def gen_call(r, span=4.):
    t = G.dy(r.uniform(-span, span))
    if r.random() < .1:
        t = float(round(t))
    k = r.random()

    def step():
        if r.random() < .1:
            return float(r.choice([-1, 1, 1, 2, 3]))
        return 0. if r.random() < .12 else \
            G.dy(r.choice([-1, 1, 1])*r.choice([.01, .3, 1., 3.]) *
                 r.uniform(.5, 1.) + 1/1024)
    if k < .5:
        return dict(t=t, dt=step())
    m = r.choice([1, 2, 3])
    if k < .65:
        return dict(t=t, dt=[step() for _ in range(m)])
    if k < .8:
        return dict(t=[G.dy(r.uniform(-span, span)) for _ in range(m)],
                    dt=step())
    if k < .9:
        return dict(t=[G.dy(r.uniform(-span, span)) for _ in range(m)],
                    dt=[step() for _ in range(m)])
    # broadcasting of (2, 1) and (m,)
    return dict(t=[[G.dy(r.uniform(-span, span))] for _ in range(2)],
                dt=[step() for _ in range(m)])


def gen_source(r):
    kind = r.choice(['wiener', 'poisson', 'cpoisson'])
    vshape = r.choice([[], [1], [2], [3], [2, 3], [4], [2, 2], [1, 2]])
    cfg = dict(kind=kind, vshape=vshape, paths=r.choice([1, 1, 2, 3, 5]),
               seed=r.randrange(2**31), legacy=r.random() < .4)
    if kind == 'wiener':
        cfg['corr'] = G.gen_corr(r, vshape)
        cfg['dtype'] = r.choice([None]*9 + ['float32'])
    else:
        cfg['lam'] = dict(kind=r.choice(['zero'] + ['const', 'arr', 'call',
                                                    'callarr', 'proc']*3 +
                                   ['default']),
                          seed=r.randrange(10**6), hi=r.choice([.5, 2.]))
        cfg['dtype'] = r.choice([None]*6 + ['float64', 'int32'])
    if kind == 'cpoisson':
        cfg['y'] = r.choice(G.Y_KINDS + TIMED*2 + Y_ARR)
    if r.random() < .02:
        cfg['paths'] = r.choice([40, 150, 600])
    if kind != 'wiener' and r.random() < .04:
        cfg['lam']['hi'] = r.choice([10., 40.])
    return cfg


def gen_calls(r, cfg, n, faults=True):
    out = []
    seams = ['rng', 'alloc']
    if cfg['kind'] == 'wiener':
        if cfg.get('corr') and cfg['corr']['kind'] in ('call', 'rhocall'):
            seams.append('corr')
    else:
        if cfg['lam']['kind'] in ('call', 'callarr'):
            seams.append('lam')
        if cfg['kind'] == 'cpoisson':
            if cfg['y'] in ('normt', 'callones', 'timed', 'normtarr'):
                seams.append('y')
            if cfg['y'] not in G.Y_PLAIN + Y_ARR + TIMED[1:] or \
                    cfg['y'] == 'timedmap':
                seams.append('rvs')
    for _ in range(n):
        op = gen_call(r)
        op['form'] = r.choice([f for f in G.FORMS if f != 'f32'])
        old = [e for o in out for e in elements(o)[0]]
        if old and not isinstance(op['t'], list) and r.random() < .5:
            # the same time or midpoint again, or one close to it
            t, dt = r.choice(old)
            small = r.choice([0, 0, 1, -1])*2.**-r.randint(4, 10)
            if r.random() < .5:
                op['t'] = t + small
            elif isinstance(op['dt'], list):
                op['t'] = t + (dt - r.choice(op['dt']))/2 + small
            else:
                op['t'] = t + (dt - op['dt'])/2 + small
        if faults and r.random() < .3:
            s = r.choice(seams)
            op['fault'] = dict(
                seam=s, exc=r.choice(S.EXC_KINDS), min=9,
                k=r.choice([1, 1, 2, 3]) if s != 'alloc'
                else r.choice([1, 2, 3, 5, 8, 13]))
        out.append(op)
    return out


def generate(r, tier):
    mode = r.choice(['seq']*4 + ['gram']*4 + ['stat'])
    deep = tier == 'thorough'
    cfg = gen_source(r)
    if mode == 'gram':
        cfg.update(kind='wiener', paths=1)
        cfg['corr'] = G.gen_corr(r, cfg['vshape'], p_none=.25)
        cfg['dtype'] = None
        for k in ('lam', 'y'):
            cfg.pop(k, None)
        ops = gen_calls(r, cfg, r.choice([1, 2, 3, 5] + [9]*deep), False)
    elif mode == 'stat':
        while cfg['kind'] == 'wiener':
            cfg = gen_source(r)
        cfg.update(vshape=r.choice([[], [2]]), paths=20000,
                   lam=dict(cfg['lam'], hi=r.choice([.5, 1., 2.])))
        ops = gen_calls(r, cfg, r.choice([1, 2, 3]), False)
    else:
        n = r.choice([2, 4, 7, 12] + [30]*deep)
        if r.random() < .01:
            n = r.choice([60, 150])
        if cfg['kind'] == 'cpoisson' and r.random() < .4:
            C = int(np.prod(cfg['vshape']))*cfg['paths']
            cfg.update(y='marks')
            cfg['lam']['hi'] = min(1., 4./(C*n))
        ops = gen_calls(r, cfg, n)
    return dict(mode=mode, config=cfg, ops=ops)


# ------------------------------------------------------------------ checking
def call_args(op):
    # (no single precision: it affects the precision of the results)
    return tuple(G.cast(np.array(x) if isinstance(x, list) else x,
                        op.get('form')) for x in (op['t'], op['dt']))


def elements(op):
    """[(t, dt)] of each time element, and the shape of times"""
    t, dt = np.broadcast_arrays(np.array(op['t']), np.array(op['dt']))
    return list(zip(t.ravel().tolist(), dt.ravel().tolist())), dt.shape


def gram(cfg, ops, ctx):
    vs = tuple(cfg['vshape'])
    C, M = int(np.prod(vs)), (vs[-1] if vs else 1)
    els = [e for op in ops for e in elements(op)[0]]
    n = len(els)
    paths = n*C + 3
    while paths in vs or any(paths in elements(op)[1] for op in ops):
        paths += 1
    cf = G.corr_fun(cfg.get('corr'), M)
    cfg = dict(cfg, paths=paths)
    sm = Seams(ctx)

    def realize(rng):
        src = build(cfg, sm, rng=rng)
        try:
            w = [arr(src(*call_args(op)), 'dw(t, dt)',
                     elements(op)[1] + vs + (paths,)).reshape(-1, C, paths)
                 for op in ops]
        except BasisExhausted as e:
            raise Skip(str(e))
        return np.concatenate(w) if w else np.zeros((0, C, paths))
    rng = BasisRng(cfg['seed'], paths, 'basis')
    w = realize(rng)
    ctx.event(w)
    check(np.abs(w[..., rng.next_basis:]).max(initial=0.) < 1e-12, 'mean',
          'increments do not have zero mean')
    g = np.einsum('icp,jdp->icjd', w, w)
    e = np.zeros_like(g)
    for i, (t, dt) in enumerate(els):
        e[i, :, i, :] = abs(dt)*np.kron(np.eye(C//M), cf(t + dt/2))
    err = np.abs(g - e)
    if err.size:
        k = np.unravel_index(err.argmax(), err.shape)
        check(err.max() < 1e-9*(1 + np.abs(e).max()), 'covariance',
              lambda: 'Cov(dw[%d]%r, dw[%d]%r) = %r, expected %r'
              % (k[1], els[k[0]], k[3], els[k[2]], g[k], e[k]))
    only = cfg['seed'] % paths
    w = realize(BasisRng(cfg['seed'], paths, 'single', only))
    check(np.abs(np.delete(w, only, axis=-1)).max(initial=0.) < 1e-12,
          'paths-mixed')
    ctx.count('exact-covariances', g.size)
    return sum(1 for _, dt in els if dt)


def stat(cfg, ops, ctx):
    vs, N = tuple(cfg['vshape']), cfg['paths']
    C = int(np.prod(vs))
    lam = lam_fun(cfg['lam'], vs)
    sm = Seams(ctx)
    comp = cfg['kind'] == 'cpoisson'
    rec = []

    def mkdn(kw):
        kw.pop('dtype', None)
        rec.append(Recorder(sdepy.poisson_source(**kw)))
        return rec[0]
    given = comp and cfg['seed'] % 2 == 0
    src = build(cfg, sm, dn=mkdn if given else None)
    prev = None
    done = 0
    for op in ops:
        els, ts = elements(op)
        x = arr(src(*call_args(op)), 'result', ts + vs + (N,))
        ctx.event(x)
        x = x.reshape(-1, C, N)
        n = arr(rec[0].last).reshape(-1, C, N) if given else None
        for i, (t, dt) in enumerate(els):
            s = np.sign(dt)
            L = np.broadcast_to(lam(t + dt/2), vs + (1,)).reshape(-1)
            for c in range(C):
                m = L[c]*abs(dt)
                what = '(t, dt)=(%r, %r) component %d' % (t, dt, c)
                if dt == 0:
                    check((x[i, c] == 0).all(), 'zero-step', what)
                    continue
                done += 1
                if not comp:
                    ST.check_poisson(s*x[i, c], m, what, ctx)
                    cur = s*x[i, c] - m
                    if prev is not None:
                        ST.z_uncorrelated(cur, prev[0], what + ' vs previous',
                                          ctx, N*m*prev[1],
                                          np.sqrt(m*prev[1]))
                    prev = (cur, m)
                    continue
                j = s*x[i, c]
                if cfg['y'] in Y_ARR:
                    if given:
                        ST.check_poisson(s*n[i, c], m, what, ctx)
                    continue
                if cfg['y'] in TIMED:
                    k = j/y_of_time(t + dt/2)
                    check(np.abs(k - np.round(k)).max() < 1e-7, 'jump-size',
                          what + ': jumps not of the stated size')
                    ST.check_poisson(np.round(k), m, what, ctx)
                    continue
                if given:
                    ST.check_poisson(s*n[i, c], m, what, ctx)
                    ST.check_compound(j, s*n[i, c], m, cfg['y'], what, ctx)
                mv = ST.y_moments(cfg['y'])
                if mv is None or m*N < 500:
                    continue
                mu, e2 = mv[0], mv[1] + mv[0]**2
                ST.z_mean(j, m*mu, what + ': mean', ctx,
                          sd=np.sqrt(m*e2) if e2 else None)
                if prev is not None and e2:
                    ST.z_uncorrelated(
                        j - m*mu, prev[0], what + ' vs previous', ctx,
                        N*m*prev[1], np.sqrt(m*e2*prev[1]*prev[2]))
                prev = (j - m*mu, m, e2) if e2 else None
    return done


def check_result(x, cfg, op, ctx, y, counts=None):
    """Facts on one result"""
    vs, kind = tuple(cfg['vshape']), cfg['kind']
    els, ts = elements(op)
    a = arr(x, 'result', ts + vs + (cfg['paths'],))
    b = a.reshape((len(els),) + vs + (cfg['paths'],))
    for i, (t, dt) in enumerate(els):
        if dt == 0:
            check((b[i] == 0).all(), 'zero-step', lambda: repr(b[i]))
        elif kind == 'wiener':
            check((b[i] != 0).all() and np.isfinite(b[i]).all(),
                  'degenerate', lambda: repr(b[i]))
        elif kind == 'poisson':
            k = b[i]*np.sign(dt)
            check((k >= 0).all() and (k == np.round(k)).all(), 'sign',
                  lambda: repr(b[i]))
        elif cfg['y'] in Y_ARR:
            if counts is not None:
                n = counts.reshape(b.shape)
                check_yarr(b[i]*np.sign(dt), n[i]*np.sign(dt), cfg,
                           t + dt/2, 't=%r, dt=%r' % (t, dt))
        elif cfg['y'] in TIMED:
            k = b[i]*np.sign(dt)/y_of_time(t + dt/2)
            check((np.abs(k - np.round(k)) < 1e-7).all() and
                  (k > -1e-9).all(), 'jump-size', lambda: repr(b[i]))
        elif cfg['y'] in ('ones', 'callones'):
            k = b[i]*np.sign(dt)
            check((k == np.round(k)).all() and (k >= 0).all(), 'jump-size',
                  lambda: repr(b[i]))
        elif cfg['y'] == 'zero':
            check((b[i] == 0).all(), 'jump-size')
        if kind != 'wiener' and cfg['lam']['kind'] == 'zero':
            check((b[i] == 0).all(), 'jumps-without-intensity')
    if kind == 'cpoisson' and cfg['y'] == 'marks' and not y.exhausted:
        # every jump is a different power of two, used once
        used = 0
        for v in b.ravel():
            v = abs(v)
            check(v == int(v) and used & int(v) == 0, 'jumps-shared',
                  lambda: repr(b))
            used |= int(v)
        return a, used
    return a, 0


def seq(cfg, ops, ctx, anti=False, on_result=None):
    """A history with failures: each call equals the one of a fresh source
    with the generator in the same state."""
    sm, sm2 = Seams(ctx), Seams(ctx)
    kind = cfg['kind']
    rng = S.sim_rng(cfg['seed'], sm, cfg['legacy'])
    src = build(cfg, sm, rng=rng, anti=anti)
    y = src.__dict__.get('_y_probe')
    kept, done, allmarks = [], 0, 0
    import copy
    for op in ops:
        args = call_args(op)
        before = [np.array(a) for a in args]
        f = op.get('fault')
        if not f:
            state = copy.deepcopy(rng.get_state(legacy=False)
                                  if cfg['legacy'] else
                                  rng.bit_generator.state)
        sm.arm(f)
        res, exc = None, None
        try:
            res = src(*args)
        except (Exception, KeyboardInterrupt) as e:
            exc = e
        finally:
            fired = sm.disarm()
        check(all(same(a, b) for a, b in zip(before, args)),
              'arguments-changed')
        if exc is not None:
            if fired is None:
                raise exc
            check(fired is True or exc is fired, 'failure-altered',
                  lambda: 'raised %r, got %r' % (fired, exc))
            ctx.count('failed-calls')
            ctx.event('failed', f['seam'])
            continue
        check(fired is None or fired is True, 'failure-swallowed',
              lambda: repr(fired))
        if on_result is not None:
            on_result(res, op, f, args)
        elif not anti:
            n = arr(src.dn_value) if cfg.get('y') in Y_ARR else None
            a, used = check_result(res, cfg, op, ctx, y, n)
            check(allmarks & used == 0, 'jumps-repeated')
            allmarks |= used
        a = arr(res)
        ctx.event(a)
        kept.append((res, a))
        done += any(dt for _, dt in elements(op)[0])
        if not f and not (kind == 'cpoisson' and cfg['y'] == 'marks') and \
                len(kept) > 1:
            rng2 = S.sim_rng(0, sm2, cfg['legacy'])
            if cfg['legacy']:
                rng2.set_state(state)
            else:
                rng2.bit_generator.state = state
            b = build(cfg, sm2, rng=rng2, anti=anti)(*args)
            check(same(a, b), 'history-dependent',
                  lambda: 'call %r gives %r, a new source with the generator '
                  'in the same state gives %r' % (op, a, b))
        if y is not None and getattr(y, 'exhausted', False):
            break
    check(src.size == 0 and np.asarray(src.t).size == 0, 'stored-values',
          lambda: 'a source without memory stores %r values, at times %r'
          % (src.size, src.t))
    check(src.rng is rng, 'attributes', 'another generator is reported')
    check(tuple(src.vshape) == tuple(cfg['vshape']) and
          src.paths == cfg['paths']*(2 if anti else 1), 'attributes',
          lambda: 'paths %r, vshape %r' % (src.paths, src.vshape))
    for res, a in kept:
        check(same(res, a), 'result-overwritten',
              lambda: 'was %r, now %r' % (a, res))
    return done


def execute(case, ctx):
    cfg, ops, mode = case['config'], case['ops'], case['mode']
    done = dict(gram=gram, stat=stat, seq=seq)[mode](cfg, ops, ctx)
    ctx.count('mode:' + mode + ':' + cfg['kind'])
    for op in ops:
        ctx.time(sum(abs(dt) for _, dt in elements(op)[0]))
    ctx.nontrivial = done >= 2
    ctx.state(mode, cfg['kind'], cfg['vshape'], cfg.get('y'),
              (cfg.get('corr') or cfg.get('lam') or {}).get('kind'),
              [(elements(op)[1], [np.sign(d) for _, d in elements(op)[0]],
                (op.get('fault') or {}).get('seam')) for op in ops])
