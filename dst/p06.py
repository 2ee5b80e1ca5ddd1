"""P06: antithetic sources stay exactly (anti)symmetric over any history."""
import numpy as np

import sdepy

from . import p05
from . import seams as S
from . import srcgen as G
from .core import arr, check, close, same
from .seams import Seams

ID = 'P06'
LEVEL = 'fault_enumeration'
QUICK = 25000
RULE = ('a case is a seeded antithetic source and a history of 2-12 calls, '
        'part of which fail at a seam crossing, run in lockstep with the '
        'corresponding ordinary source with half the paths and the same '
        'generator state; or an integration (preset or custom process) '
        'driven by antithetic sources, possibly aborted and repeated, '
        'compared with integrations driven by the ordinary sources and by '
        'their mirror image. Non-trivial if two results were compared; '
        'distinct by source kind, parameters and calls')
MEASURE = p05.MEASURE
REAL = ['sdepy antithetic and memoryless sources', 'integration of processes '
        'driven by them', 'numpy random generators', 'scipy distributions']
STUB = ['callables for correlation, intensity and jump sizes', 'numpy '
        'allocator']


def generate(r, tier):
    if r.random() < .75:
        cfg = p05.gen_source(r)
        ops = p05.gen_calls(r, cfg, r.choice([2, 4, 7, 12] +
                                             [30]*(tier != 'quick')))
        return dict(mode='source', config=cfg, ops=ops)
    proc = r.choice(['wiener', 'lognorm', 'ou', 'jumpdiff', 'merton', 'kou',
                     'custom'])
    vshape = r.choice([[], [2], [3], [2, 2]])
    cfg = dict(proc=proc, vshape=vshape, paths=r.choice([1, 2, 4]),
               corr=G.gen_corr(r, vshape, p_none=.5),
               how=r.choice(['class', 'instance']),
               y=r.choice(['default', 'norm', 'dexp', 'normt', 'uniform']),
               lam=dict(kind=r.choice(['const', 'call', 'arr']),
                        seed=r.randrange(10**6), hi=4.),
               seed=r.randrange(2**31), legacy=r.random() < .4,
               steps=r.choice([None, 3, 10]),
               log=r.random() < .5)
    ops = []
    for _ in range(r.choice([1, 2, 3])):
        n = r.choice([2, 3, 5])
        t, tl = 0., [0.]
        for _ in range(n):
            t += G.dy(r.uniform(.1, 1.))
            tl.append(t)
        op = dict(timeline=tl)
        if r.random() < .3:
            op['fault'] = dict(seam=r.choice(['rng', 'rng', 'alloc']), min=9,
                               k=r.choice([1, 2, 3, 5, 8]),
                               exc=r.choice(S.EXC_KINDS))
        ops.append(op)
    return dict(mode='process', config=cfg, ops=ops)


def copy_state(dst, src, legacy):
    if legacy:
        dst.set_state(src.get_state(legacy=False))
    else:
        dst.bit_generator.state = src.bit_generator.state


def source_case(cfg, ops, ctx):
    sm, sm2 = Seams(ctx), Seams(ctx)
    rng = S.sim_rng(cfg['seed'], sm, cfg['legacy'])
    rng2 = S.sim_rng(cfg['seed'], sm2, cfg['legacy'])
    src = p05.build(cfg, sm, rng=rng, anti=True)
    plain = p05.build(cfg, sm2, rng=rng2)
    K, vs = cfg['paths'], tuple(cfg['vshape'])
    check(src.paths == 2*K and tuple(src.vshape) == vs,
          'attributes')
    check(src.rng is rng, 'attributes', 'rng')
    done, kept = 0, []
    for op in ops:
        args = p05.call_args(op)
        f = op.get('fault')
        sm.arm(f)
        res, exc = None, None
        try:
            res = src(*args)
        except (Exception, KeyboardInterrupt) as e:
            exc = e
        finally:
            fired = sm.disarm()
        if exc is not None:
            if fired is None:
                raise exc
            check(fired is True or exc is fired, 'failure-altered')
            ctx.count('failed-calls')
            ctx.event('failed', f['seam'])
            copy_state(rng2, rng, cfg['legacy'])
            continue
        x = arr(res, 'result', p05.elements(op)[1] + vs + (2*K,))
        ctx.event(x)
        a, b = x[..., :K], x[..., K:]
        check(same(b, -a if cfg['kind'] == 'wiener' else a), 'asymmetric',
              lambda: 'leading paths %r, trailing %r' % (a, b))
        p = arr(plain(*args), 'plain source')
        check(same(a, p), 'leading-half',
              lambda: 'leading paths %r, plain source %r' % (a, p))
        done += 1
        kept.append((res, x))
    for res, x in kept:
        check(same(res, x), 'result-overwritten')
    check(S.rng_state(rng) == S.rng_state(rng2), 'generator')
    return done


class Mirror(sdepy.wiener_source):
    def __call__(self, t, dt):
        return -super().__call__(t, dt)


def make_process(cfg, sm, rng, dw, dj, dn, paths):
    """dw, dj, dn: source classes"""
    vs = tuple(cfg['vshape'])
    proc = cfg['proc']
    M = vs[-1] if vs else 0
    common = dict(paths=paths, vshape=vs, rng=rng, steps=cfg['steps'])
    if cfg['corr'] and proc not in ('merton', 'kou'):
        corr = G.build_corr(cfg['corr'], M, sm)
    else:
        corr = {}
    lam = p05.lam_kw(cfg['lam'], vs, sm)
    y, _ = G.build_y(cfg['y'], sm)
    inst = cfg['how'] == 'instance'
    base = dict(paths=paths, vshape=vs, rng=rng)

    def w():
        return dict(dw=dw(**base, **corr)) if inst else dict(dw=dw, **corr)

    def j(**k):
        return dict(dj=dj(**base, **k)) if inst else dict(dj=dj, **k)

    if proc == 'wiener':
        return sdepy.wiener_process(**common, **w(), mu=.3, sigma=.8, x0=1.)
    if proc == 'lognorm':
        return sdepy.lognorm_process(**common, **w(), mu=.3, sigma=.4, x0=2.)
    if proc == 'ou':
        return sdepy.ornstein_uhlenbeck_process(
            **common, **w(), theta=.3, k=.5, sigma=.4, x0=2.)
    if proc == 'jumpdiff':
        return sdepy.jumpdiff_process(**common, **w(), **j(**lam, y=y),
                                      mu=.3, sigma=.4, x0=2.)
    if proc == 'merton':
        return sdepy.merton_jumpdiff_process(
            **common, dw=dw, dj=dj if not inst else
            dj(**base, **lam, y=sdepy.norm_rv(.1, .2)), **lam, a=.1, b=.2,
            mu=.3, sigma=.4, x0=2.)
    if proc == 'kou':
        return sdepy.kou_jumpdiff_process(
            **common, dw=dw, dj=dj if not inst else
            dj(**base, **lam, y=sdepy.double_exp_rv(.3, .2, .4)), **lam,
            a=.3, b=.2, pa=.4, mu=.3, sigma=.4, x0=2.)

    def f(t, x, a=1.):
        return {'dt': -a*x, 'dw': .3 + .1*np.sin(x), 'dn': .1}
    cls = sdepy.integrate(f, log=cfg['log'])
    return cls(**common, **w(), dn=dn(**base, **lam) if inst else dn,
               x0=1.5, **({} if inst else lam))


def process_case(cfg, ops, ctx):
    K = cfg['paths']
    A = (sdepy.odd_wiener_source, sdepy.even_cpoisson_source,
         sdepy.even_poisson_source)
    P = (sdepy.wiener_source, sdepy.cpoisson_source, sdepy.poisson_source)
    Q = (Mirror,) + P[1:]
    runs = []
    for classes, paths in ((A, 2*K), (P, K), (Q, K)):
        sm = Seams(ctx)
        rng = S.sim_rng(cfg['seed'], sm, cfg['legacy'])
        runs.append((sm, rng, make_process(cfg, sm, rng, *classes, paths)))
    sm, rng, anti = runs[0]
    done = 0
    for op in ops:
        tl = np.array(op['timeline'])
        if op.get('fault'):
            sm.arm(op['fault'])
            try:
                anti(tl)
            except (Exception, KeyboardInterrupt):
                ctx.count('aborted')
            finally:
                sm.disarm()
        for _, g, _ in runs[1:]:
            copy_state(g, rng, cfg['legacy'])
        x, p, q = (np.array(proc(tl)) for _, _, proc in runs)
        ctx.event(x)
        check(np.isfinite(x).all(), 'not-finite')
        check(close(x[..., :K], p, 1e-12), 'leading-half',
              lambda: '%r vs %r' % (x[..., :K], p))
        check(close(x[..., K:], q, 1e-12), 'trailing-half',
              lambda: '%r vs %r' % (x[..., K:], q))
        done += 1
        ctx.time(tl[-1])
    return done


def execute(case, ctx):
    cfg, ops = case['config'], case['ops']
    if case['mode'] == 'source':
        done = source_case(cfg, ops, ctx)
        ctx.state(cfg['kind'], cfg['vshape'], cfg.get('y'),
                  (cfg.get('corr') or cfg.get('lam') or {}).get('kind'),
                  [(p05.elements(op)[1],
                    [np.sign(d) for _, d in p05.elements(op)[0]],
                    (op.get('fault') or {}).get('seam')) for op in ops])
        for op in ops:
            ctx.time(sum(abs(dt) for _, dt in p05.elements(op)[0]))
    else:
        done = process_case(cfg, ops, ctx)
        ctx.state(cfg['proc'], cfg['vshape'], cfg['how'], cfg['steps'],
                  cfg['y'], [(len(op['timeline']), op.get('fault'))
                             for op in ops])
    ctx.count('mode:' + case['mode'])
    ctx.nontrivial = done >= 2 or case['mode'] == 'process'
