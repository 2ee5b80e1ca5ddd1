"""Simulation programs: seeded sequences of library calls, each using objects
of its own, run alone or interleaved with others (P07, P13)."""
import warnings

import numpy as np
import scipy.stats

import sdepy
from sdepy import infrastructure as infra

from . import p05
from . import procgen as PG
from . import seams as S
from . import srcgen as G
from .core import check, same

KINDS = ('source', 'true', 'process', 'process', 'process', 'anti', 'rv',
         'montecarlo', 'kfunc', 'algebra', 'shared', 'scipyjumps')
RANDOM = tuple(k for k in KINDS if k not in ('montecarlo', 'algebra'))


def gen(r, kinds=KINDS, short=False):
    kind = r.choice(kinds)
    p = dict(kind=kind, seed=r.randrange(2**31),
             rng=r.choice(['own', 'own', 'legacy', 'default']))
    n = r.choice([1, 2, 3] if short else [1, 2, 4, 6])
    if kind in ('source', 'anti'):
        p['cfg'] = p05.gen_source(r)
        if kind == 'anti':
            p['cfg']['y'] = r.choice(['norm', 'ones', 'default']) \
                if p['cfg']['kind'] == 'cpoisson' else None
        p['calls'] = [p05.gen_call(r) for _ in range(n)]
    elif kind == 'true':
        p['cfg'] = G.gen_true(r, rtol=False)
        pool = G.TimePool(r, p['cfg']['t0'], 1e-15)
        p['calls'] = [dict(t=pool.any(), s=pool.any(), inc=r.random() < .4)
                      for _ in range(n)]
    elif kind == 'process':
        p['cfg'] = PG.gen_spec(r, mode='rec', kinds=PG.PRESETS + PG.CUSTOM*6)
        if p['cfg']['proc'] in PG.CUSTOM and r.random() < .4:
            # all of the sources: drawn in a fixed order
            q = len(p['cfg']['eqs'])
            p['cfg']['srcs'] = ['dj', 'dn', 'dt', 'dw']
            p['cfg']['via'] = 'integrate'
            p['cfg']['eqs'] = [
                {s: PG.gen_coef(r, q, ['pa', 'pb'], s)
                 for s in ('dw', 'dj', 'dn', 'dt') if r.random() < .85}
                for _ in range(q)]
        if p['cfg'].get('via') == 'integrate' and r.random() < .4:
            # the sources used are found out
            p['cfg']['auto'] = r.choice(['bare', 'call', 'q', 'sources'])
            p['cfg']['srcs'] = sorted({s for eq in p['cfg']['eqs']
                                       for s in eq})
        if short and isinstance(p['cfg']['steps'], int):
            p['cfg']['steps'] = min(p['cfg']['steps'], 5)
        p['calls'] = [dict(t=PG.gen_timeline(r, 3 if short else None))
                      for _ in range(1 if short else r.choice([1, 2]))]
    elif kind == 'rv':
        p['cfg'] = dict(rv=r.choice(['uniform', 'norm', 'exp', 'dexp',
                                     'normt', 'rvmap']))
        p['calls'] = [dict(size=r.choice([[3], [2, 2], [5]]))
                      for _ in range(n)]
    elif kind == 'montecarlo':
        p['cfg'] = dict(bins=r.choice([5, 'auto', None]),
                        use=r.choice(['all', 'even', 'odd']))
        p['calls'] = [dict(m=r.choice([2, 4, 10]), axis=r.choice([0, -1]))
                      for _ in range(n)]
    elif kind == 'kfunc':
        p['cfg'] = dict(which=r.choice(['dw', 'dn', 'dj', 'lognorm', 'ou',
                                        'heston', 'true_dw', 'cdf']))
        p['calls'] = [dict(x=round(r.uniform(.1, .95), 2),
                           derive=r.random() < .4) for _ in range(n)]
    elif kind == 'algebra':
        p['cfg'] = dict(vshape=r.choice([[], [2]]), paths=r.choice([1, 3]),
                        n=r.choice([3, 5]))
        p['calls'] = [dict(op=r.choice(['interp', 'add', 'mean', 'shift',
                                        'piecewise', 'rebase', 'chf', 'pw']),
                           x=round(r.uniform(.1, 1.9), 2))
                      for _ in range(n)]
    elif kind == 'shared':
        p['cfg'] = dict(vshape=r.choice([[], [2]]), paths=r.choice([1, 3]),
                        src=r.choice(['true', 'truej']))
        p['calls'] = [dict(t=PG.gen_timeline(r, 3), a=r.random() < .5)
                      for _ in range(n)]
    elif kind == 'scipyjumps':
        p['cfg'] = dict(vshape=r.choice([[], [2]]), paths=r.choice([1, 3]),
                        which=r.choice(['source', 'true', 'process']),
                        rv=r.choice(['gamma', 'norm', 'poisson']))
        p['calls'] = [dict(t=r.choice([.5, 1., 2.])) for _ in range(n)]
    return p


def make_rng(p, sm, plain=False):
    """The generator of a program"""
    legacy = p['rng'] == 'legacy'
    if plain:
        return S.plain_rng(p['seed'], legacy)
    return S.sim_rng(p['seed'], sm, legacy)


class Program:
    """One instance of a program.  prepare() creates its objects (atomically:
    no yield), steps() is a list of functions to call in sequence."""

    def __init__(self, p, sm, plain=False):
        self.p, self.sm = p, sm
        self.rng = make_rng(p, sm, plain)
        self.out = []
        self.given = []

    def prepare(self):
        p = self.p
        default = p['rng'] == 'default'
        if default:
            old = infra.default_rng
            infra.default_rng = self.rng
        hook, self.sm.hook = self.sm.hook, None
        try:
            self.build(S.DEFAULT if default else self.rng)
        finally:
            self.sm.hook = hook
            if default:
                infra.default_rng = old

    def emit(self, *xs):
        for x in xs:
            self.given.append(x)
            self.out.append(np.array(x))

    def verify_given(self):
        """results handed out earlier are not changed by what follows"""
        for x, y in zip(self.given, self.out):
            check(same(np.asarray(x), y), 'results-overwritten',
                  lambda: '%r: %r, was %r' % (signature(self.p), x, y))

    def build(self, rng):
        getattr(self, 'build_' + self.p['kind'])(self.p['cfg'], rng)

    def steps(self):
        f = getattr(self, 'do_' + self.p['kind'])
        return [lambda c=c: f(c) for c in self.p['calls']]

    # ---------------------------------------------------------------- kinds
    def kw(self, rng, **args):
        if rng is not S.DEFAULT:
            args['rng'] = rng
        return args

    def build_source(self, cfg, rng):
        self.src = p05.build(cfg, self.sm, rng)

    def do_source(self, c):
        self.emit(self.src(np.array(c['t']), np.array(c['dt'])))

    def build_anti(self, cfg, rng):
        self.src = p05.build(cfg, self.sm, rng, anti=True)

    do_anti = do_source

    def build_true(self, cfg, rng):
        self.src = G.build_true(cfg, self.sm, rng)

    def do_true(self, c):
        if c['inc']:
            self.emit(self.src(c['t'], c['s'] - c['t']))
        else:
            self.emit(self.src(c['t']))

    def build_process(self, cfg, rng):
        self.proc, _ = PG.build(cfg, self.sm, rng)

    def do_process(self, c):
        out = self.proc(np.array(c['t']))
        self.emit(*PG.results(self.p['cfg'], out))

    def build_rv(self, cfg, rng):
        k = cfg['rv']
        self.y = (sdepy.uniform_rv(a=-1., b=2.) if k == 'uniform' else
                  sdepy.norm_rv(a=.3, b=2.) if k == 'norm' else
                  sdepy.exp_rv(a=.7) if k == 'exp' else
                  sdepy.double_exp_rv(a=.5, b=.8, pa=.4) if k == 'dexp' else
                  sdepy.norm_rv(a=lambda t: t, b=lambda t: 1. + t)(.5)
                  if k == 'normt' else
                  sdepy.rvmap(np.exp, sdepy.norm_rv()))

    def do_rv(self, c):
        self.sm.call('step')
        self.emit(self.y.rvs(size=tuple(c['size']), random_state=self.rng))

    def build_montecarlo(self, cfg, rng):
        self.mc = sdepy.montecarlo(bins=cfg['bins'], use=cfg['use'])
        self.data = np.random.RandomState(self.p['seed'])

    def do_montecarlo(self, c):
        x = self.data.normal(size=(2, c['m']))
        if c['axis'] == 0:
            x = x.T
        self.mc.update(x, axis=c['axis'])
        self.emit(self.mc.mean(), self.mc.var(), self.mc.skew())
        if self.p['cfg']['bins'] is not None:
            self.emit(*self.mc[1].histogram(), self.mc[0].outpaths)

    def build_kfunc(self, cfg, rng):
        w = cfg['which']
        kw = self.kw(rng)
        self.k = (sdepy.dw(paths=2, **kw) if w == 'dw' else
                  sdepy.dn(paths=2, lam=3., **kw) if w == 'dn' else
                  sdepy.dj(paths=2, lam=3., **kw) if w == 'dj' else
                  sdepy.lognorm(paths=2, **kw) if w == 'lognorm' else
                  sdepy.oruh(paths=2, **kw) if w == 'ou' else
                  sdepy.heston(paths=2, **kw) if w == 'heston' else
                  sdepy.true_dw(paths=2, **kw) if w == 'true_dw' else
                  sdepy.lognorm_cdf)

    def do_kfunc(self, c):
        w, x = self.p['cfg']['which'], c['x']
        # deriving an instance picks the default generator anew
        derive = c['derive'] and self.p['rng'] != 'default'
        if w == 'cdf':
            self.emit(self.k(1., np.array([.5, x]), sigma=x))
        elif w in ('dw', 'dn', 'dj'):
            k = self.k(paths=3) if derive else self.k
            self.emit(k(0., x))
        elif w == 'true_dw':
            self.emit(self.k(x))
        else:
            k = self.k(sigma=x) if derive else self.k
            self.emit(k(np.array([0., x, 1.])))

    def build_algebra(self, cfg, rng):
        g = np.random.RandomState(self.p['seed'])
        n = cfg['n']
        t = np.cumsum(g.uniform(.1, .5, n))
        self.x = sdepy.process(t=t, x=g.normal(size=(n,) + tuple(
            cfg['vshape']) + (cfg['paths'],)))

    def do_algebra(self, c):
        x, s, op = self.x, c['x'], c['op']
        self.sm.call('step')
        if op == 'interp':
            self.emit(x.interp()(s), x(s))
        elif op == 'add':
            self.emit(x + s*x, np.exp(x))
        elif op == 'mean':
            self.emit(x.pmean(), x.tmean(), x.pvar())
        elif op == 'shift':
            self.emit(x.shapeas((2, 2) if x.vshape == () else x.vshape)
                      if False else x.tdiff(), x.tder())
        elif op == 'piecewise':
            self.emit(sdepy.process(c=s)(s))
        elif op == 'rebase':
            y = x.rebase(np.array([x.t[0], x.t[-1]]))
            self.emit(y, y.t)
        elif op == 'chf':
            self.emit(np.abs(x.chf(s)))
        elif op == 'pw':
            f = sdepy.piecewise(t=[0., 1.], x=np.arange(2.).reshape(2, 1))
            self.emit(f(s))

    def build_shared(self, cfg, rng):
        kw = self.kw(rng, vshape=tuple(cfg['vshape']), paths=cfg['paths'])
        if cfg['src'] == 'true':
            self.src = sdepy.true_wiener_source(**kw)
            a = dict(dw=self.src)
        else:
            self.src = sdepy.true_cpoisson_source(lam=2., **kw)
            a = dict(dj=self.src)
        cls = sdepy.wiener_process if 'dw' in a else sdepy.jumpdiff_process
        self.a, self.b = cls(**a, **kw), cls(
            **a, sigma=lambda t: self.sigma(t), **kw)

    def sigma(self, t):
        self.sm.call('param')
        return .5

    def do_shared(self, c):
        self.emit((self.a if c['a'] else self.b)(np.array(c['t'])))

    def build_scipyjumps(self, cfg, rng):
        rv = cfg['rv']
        y = (scipy.stats.gamma(2.) if rv == 'gamma' else
             scipy.stats.norm(1., 2.) if rv == 'norm' else
             scipy.stats.poisson(2.))
        kw = self.kw(rng, vshape=tuple(cfg['vshape']), paths=cfg['paths'],
                     lam=2., y=y)
        w = cfg['which']
        self.src = (sdepy.cpoisson_source(**kw) if w == 'source' else
                    sdepy.true_cpoisson_source(**kw) if w == 'true' else
                    sdepy.jumpdiff_process(**kw))

    def do_scipyjumps(self, c):
        w = self.p['cfg']['which']
        if w == 'source':
            self.emit(self.src(1., c['t']))
        elif w == 'true':
            self.emit(self.src(c['t']), self.src(1.3))
        else:
            self.emit(self.src(np.array([0., c['t']])))


def solo(p, ctx, plain=False):
    """Run a program alone: (outputs, generator state, draws)"""
    sm = S.Seams(ctx)
    prog = Program(p, sm, plain)
    prog.prepare()
    for f in prog.steps():
        f()
    prog.verify_given()
    return prog.out, S.rng_state(prog.rng)


def signature(p):
    cfg = p['cfg']
    return (p['kind'], p['rng'], cfg.get('proc'), cfg.get('kind'),
            cfg.get('vshape'), cfg.get('which'), len(p['calls']))
