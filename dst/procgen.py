"""Seeded generation and construction of processes to be integrated, and the
reference Euler recursion."""
import hashlib

import numpy as np

import sdepy

from . import seams as S
from . import srcgen as G
from .core import check

PRESETS = ('wiener', 'lognorm', 'ou', 'hw', 'hw1', 'cir', 'heston',
           'full_heston', 'jumpdiff', 'merton', 'kou')
CUSTOM = ('sde', 'sdes')

# parameters of each preset: name -> (low, high)
PARAMS = dict(
    wiener=dict(mu=(-1, 1), sigma=(.2, 1)),
    lognorm=dict(mu=(-.5, .5), sigma=(.1, .6)),
    ou=dict(theta=(-1, 1), k=(.1, 1), sigma=(.2, 1)),
    hw=dict(theta=(-1, 1), k=(.1, 1), sigma=(.2, 1)),
    hw1=dict(theta=(-1, 1), k=(.1, 1), sigma=(.2, 1)),
    cir=dict(theta=(.2, 1), k=(.1, 1), xi=(.2, 1)),
    heston=dict(mu=(-.5, .5), sigma=(.2, .8), theta=(.2, 1), k=(.1, 1),
                xi=(.2, 1)),
    jumpdiff=dict(mu=(-.5, .5), sigma=(.1, .6)))
# documented default values
DEFAULTS = dict(
    wiener=dict(mu=0., sigma=1., x0=0.), lognorm=dict(mu=0., sigma=1., x0=1.),
    ou=dict(theta=0., k=1., sigma=1., x0=0.),
    cir=dict(theta=1., k=1., xi=1., x0=1.),
    heston=dict(mu=0., sigma=1., theta=1., k=1., xi=1., x0=1., y0=1.),
    sde=dict(pa=1., pb=1., x0=1.), sdes=dict(pa=1., pb=1., x0=1.))
DEFAULTS['hw'] = DEFAULTS['hw1'] = DEFAULTS['ou']
DEFAULTS['full_heston'] = DEFAULTS['heston']
DEFAULTS['jumpdiff'] = DEFAULTS['merton'] = DEFAULTS['kou'] = \
    DEFAULTS['lognorm']
PARAMS['full_heston'] = PARAMS['heston']
PARAMS['merton'] = PARAMS['kou'] = PARAMS['jumpdiff']
CLASSES = dict(
    wiener=sdepy.wiener_process, lognorm=sdepy.lognorm_process,
    ou=sdepy.ornstein_uhlenbeck_process, hw=sdepy.hull_white_process,
    hw1=sdepy.hull_white_1factor_process,
    cir=sdepy.cox_ingersoll_ross_process, heston=sdepy.heston_process,
    full_heston=sdepy.full_heston_process, jumpdiff=sdepy.jumpdiff_process,
    merton=sdepy.merton_jumpdiff_process, kou=sdepy.kou_jumpdiff_process)
POSITIVE = ('lognorm', 'cir', 'heston', 'full_heston', 'jumpdiff', 'merton',
            'kou')


# ---------------------------------------------------------------- parameters
def gen_param(r, lo, hi, calls=True, default=None, special=()):
    # special parameters: zero, negative, of integer type
    kinds = ['scalar', 'scalar', 'values', 'paths', 'full', 'listfull']
    if calls:
        kinds += ['call', 'callarr', 'callfull', 'calllist', 'proc',
                  'procfull']
    if default is not None and r.random() < .1:
        return dict(kind='default', seed=0, lo=default, hi=default)
    if special:
        k = r.random()
        if k < .06:
            lo = hi = 0.
        elif k < .12 and 'neg' in special:
            lo, hi = -hi, -lo
        elif k < .22:
            return dict(kind=r.choice(['int', 'intvalues', 'intfull']),
                        seed=r.randrange(10**6), lo=0, hi=2)
    return dict(kind=r.choice(kinds), seed=r.randrange(10**6), lo=lo, hi=hi)


def param_fun(p, vs, paths):
    """The value of the parameter as a function of time"""
    g = np.random.RandomState(p['seed'])
    vs = tuple(vs)
    kind = p['kind']
    shape = {'scalar': (), 'call': (), 'default': (), 'values': vs + (1,),
             'paths': (paths,), 'full': vs + (paths,),
             'listfull': vs + (paths,), 'calllist': vs + (paths,),
             'callarr': vs + (1,), 'callfull': vs + (paths,),
             'proc': vs + (1,), 'procfull': vs + (paths,),
             'int': (), 'intvalues': vs + (1,),
             'intfull': vs + (paths,)}[kind]
    if kind.startswith('int'):
        i = g.randint(p['lo'], p['hi'], size=shape)
        return lambda t: np.asarray(i)
    a = g.uniform(p['lo'], p['hi'], size=shape)
    if kind in ('scalar', 'values', 'paths', 'full', 'listfull', 'default'):
        return lambda t: np.asarray(a)
    b = g.uniform(p['lo'], p['hi'], size=shape)

    def f(t):
        w = min(max((float(t) + 16.)/32., 0.), 1.)
        return np.asarray((1 - w)*a + w*b)
    return f


def build_param(p, vs, paths, sm=None, name='param'):
    f = param_fun(p, vs, paths)
    kind = p['kind']
    if kind in ('scalar', 'default'):
        return float(f(0))
    if kind == 'int':
        return int(f(0))
    if kind == 'listfull':
        return f(0).tolist()
    if kind in ('intvalues', 'intfull') or kind in ('values', 'paths', 'full'):
        return f(0)
    if kind.startswith('proc'):
        t = np.array([-16., 16.])
        return sdepy.process(t=t, x=np.array([f(s) for s in t]))
    if kind == 'call' and p['seed'] % 2:
        def g(t):
            return float(f(t))
    elif kind == 'calllist':
        def g(t):
            return f(t).tolist()
    else:
        g = f
    return sm.wrap(name, g) if sm is not None else g


# ------------------------------------------------------------------ equations
def gen_coef(r, q, names, src):
    """Coefficient of a source in an equation"""
    k = r.random()
    if k < .15:
        return dict(kind='one')
    if k < .3:
        return dict(kind='scalar', a=round(r.uniform(-.8, .8), 3))
    if k < .36:
        return dict(kind='var', k=r.randrange(q))   # a variable, as given
    if k < .42:
        return dict(kind='array', a=round(r.uniform(-.8, .8), 3))
    c = dict(kind='expr', a=round(r.uniform(-.6, .6), 3),
             lin=[round(r.uniform(-.3, .3), 3) if r.random() < .7 else 0.
                  for _ in range(q)],
             sin=round(r.uniform(-.5, .5), 3) if r.random() < .5 else 0.,
             time=round(r.uniform(-.2, .2), 3) if r.random() < .5 else 0.,
             p=r.choice(names + [None]))
    return c


def eval_coef(c, t, xs, params, cache=None):
    if c['kind'] == 'one':
        return 1
    if c['kind'] == 'scalar':
        return c['a']
    if c['kind'] == 'var':
        return xs[c['k']]
    if c['kind'] == 'array':
        # the same array at each step, as an user function might return
        x = np.asarray(xs[0])
        v = c['a'] + .01*np.arange(x.size).reshape(x.shape)
        return v if cache is None else cache.setdefault((c['a'], x.shape), v)
    v = c['a'] + c['time']*t
    for b, x in zip(c['lin'], xs):
        if b:
            v = v + b*x
    if c['sin']:
        v = v + c['sin']*np.sin(xs[0])
    if c['p']:
        v = v*params[c['p']]
    return v


def eval_eqs(eqs, t, xs, params, cache=None):
    return [{src: eval_coef(c, t, xs, params, cache)
             for src, c in eq.items()} for eq in eqs]


def make_sde(spec, sm=None):
    """User equation of a custom process, with parameters pa, pb"""
    eqs, cache = spec['eqs'], {}

    def seam():
        if sm is not None:
            sm.call('sde')

    def ev(t, xs, pa, pb):
        return eval_eqs(eqs, t, xs, dict(pa=pa, pb=pb), cache)
    if spec['proc'] == 'sde':
        def sde(t, x, pa=1., pb=1.):
            seam()
            return ev(t, [x], pa, pb)[0]
    else:
        q = len(eqs)
        if q == 1:
            def sde(t, x, pa=1., pb=1.):
                seam()
                return ev(t, [x], pa, pb)
        elif spec.get('auto') and q == 2:
            def sde(t=1., x=1., y=1., pa=1., pb=1.):
                seam()
                return tuple(ev(t, [x, y], pa, pb))
        elif spec.get('auto'):
            def sde(t=1., x=1., y=1., z=1., pa=1., pb=1.):
                seam()
                return ev(t, [x, y, z], pa, pb)
        elif q == 2:
            def sde(t, x, y, pa=1., pb=1.):
                seam()
                return tuple(ev(t, [x, y], pa, pb))
        else:
            def sde(t, x, y, z, pa=1., pb=1.):
                seam()
                return ev(t, [x, y, z], pa, pb)
    return sde


# --------------------------------------------------------------------- specs
def gen_spec(r, kinds=PRESETS + CUSTOM*3, mode=None, deep=False, i0=True,
             maxq=3):
    proc = r.choice(kinds)
    vshape = r.choice([[], [], [1], [2], [3], [2, 2], [1, 3]])
    paths = r.choice([1, 2, 3, 5])
    spec = dict(proc=proc, vshape=vshape, paths=paths,
                mode=mode or r.choice(['hash', 'hash', 'rec']),
                seed=r.randrange(2**31), legacy=r.random() < .4,
                getinfo=r.random() < .7)
    if proc in CUSTOM:
        q = r.randint(1, maxq) if proc == 'sdes' else 1
        srcs = ['dt'] + r.sample(['dw', 'dn', 'dj'],
                                 r.choice([0, 1, 1, 2, 3]))
        if r.random() < .12 and len(srcs) > 1:
            srcs.remove('dt')
        if r.random() < .2:
            srcs.append('dx')       # a source defined by the user
        names = ['pa', 'pb']
        eqs = []
        for _ in range(q):
            use = [s for s in srcs if r.random() < .75]
            eqs.append({s: gen_coef(r, q, names, s) for s in use})
        spec['srcs'] = sorted(srcs)
        r.shuffle(srcs)
        spec['eqs'] = eqs
        spec['log'] = r.random() < .3
        spec['addaxis'] = proc == 'sdes' and r.random() < .4
        spec['via'] = r.choice(['integrate', 'class']) \
            if 'dx' not in srcs else 'class'
        spec['params'] = {k: gen_param(r, .3, 1., default=1., special=('zero',))
                          for k in names}
    else:
        spec['params'] = {k: gen_param(r, *b, default=DEFAULTS[proc][k],
                                       special=('neg',) if k in ('sigma', 'xi')
                                       else ('zero',))
                          for k, b in PARAMS[proc].items()}
        if proc == 'hw':
            spec['factors'] = r.choice([1, 2, 3, 3,
                                        r.choice([4, 5, 6, 7, 9])])
            spec['nofactors'] = r.random() < .3
    pos = proc in POSITIVE or spec.get('log')
    lo, hi = (.5, 1.5) if pos else (-1., 1.)
    spec['x0'] = gen_param(r, lo, hi, calls=False,
                           default=DEFAULTS[proc]['x0'],
                           special=() if pos else ('zero',))
    if pos and r.random() < .08:
        spec['x0'].update(kind=r.choice(['int', 'intvalues', 'intfull']),
                          lo=1, hi=3)
    if proc == 'sdes' and spec['x0']['kind'] != 'default':
        spec['x0']['per_eq'] = r.random() < .6
    if 'heston' in proc:
        spec['y0'] = gen_param(r, .05, 1., calls=False, default=1.,
                               special=('zero',))
    ws = wshape(spec)
    spec['corr'] = G.gen_corr(r, list(ws), p_none=.6)
    spec['lam'] = dict(kind=r.choice(['const', 'arr', 'call']*3 +
                                     ['default']),
                       seed=r.randrange(10**6), hi=2.)
    spec['y'] = r.choice(['default', 'norm', 'dexp', 'normt', 'uniform',
                          'ones', 'pm1'])
    spec['yarr'] = r.choice([0, 1, 2])
    # parameters of the jumps left out
    spec['ydef'] = r.random() < .1
    gen_steps(r, spec, deep)
    spec['i0'] = 0
    if i0 and r.random() < .45:
        spec['i0'] = r.choice([-1, 1, -2])
    return spec


def gen_steps(r, spec, deep=False):
    k = r.random()
    if k < .35:
        spec['steps'] = None
    elif k < .65:
        spec['steps'] = r.choice([2, 3, 5, 9, 17] + [65]*deep)
    else:
        spec['steps'] = sorted(G.dy(r.uniform(-2., 8.))
                               for _ in range(r.choice([1, 5, 20])))


def gen_timeline(r, n=None, near=0.):
    """Points that are multiples of 1/64, spanning a multiple of 1/4 (so that
    the steps are exactly representable), and possibly points very close to
    some of them"""
    n = n or r.choice([2, 2, 3, 4, 6])
    t0 = r.choice([0., 0., 0., 1., -2.])
    span = r.choice([.25, .5, 1., 2., 4.]) if n < 9 else 4.
    pts = {t0, t0 + span}
    while len(pts) < n:
        pts.add(t0 + round(r.random()*span*64)/64)
    if near and r.random() < near:
        for _ in range(r.choice([1, 1, 2])):
            a = r.choice(sorted(pts) + [0., 0.])
            a += r.choice([-1, 1])*2.**-r.randint(16, 34)
            if t0 < a < t0 + span:
                pts.add(a)
    return sorted(pts)


def wshape(spec):
    vs = tuple(spec['vshape'])
    proc = spec['proc']
    if proc == 'hw':
        return vs + (spec['factors'],)
    if proc in ('heston', 'full_heston', 'sdes'):
        q = len(spec['eqs']) if proc == 'sdes' else 2
        if vs == () or spec.get('addaxis'):
            return vs + (q,)
        return vs[:-1] + (vs[-1]*q,)
    return vs


def param_vs(spec):
    """values shape of the parameters"""
    return wshape(spec) if spec['proc'] == 'hw' else tuple(spec['vshape'])


def source_ids(spec):
    proc = spec['proc']
    if proc in CUSTOM:
        return [s for s in spec['srcs'] if s != 'dt']
    return ['dj', 'dw'] if proc in ('jumpdiff', 'merton', 'kou') else ['dw']


# ------------------------------------------------------------------- sources
class HashSource:
    """An adversarial source: its increment is an arbitrary, fixed function of
    the two ends of the step."""

    def __init__(self, spec, id, sm=None):
        self.seed, self.id, self.sm = spec['seed'], id, sm
        self.paths = spec['paths']
        self.vshape = self.full = wshape(spec)
        g = np.random.RandomState(spec['seed'] % 1000)
        if self.full and g.uniform() < .2:
            # values may be broadcast
            self.vshape = self.full[:-1] + (1,)
        self.log = []

    def __call__(self, t, dt):
        if self.sm is not None:
            self.sm.call('source')
        t, dt = np.asarray(t, float), np.asarray(dt, float)
        self.log.append((float(t), float(dt)))
        return self.value(float(t), float(dt))

    def value(self, t, dt):
        key = '%s|%s|%d|%d' % (self.seed, self.id, round(t*2**20),
                               round(dt*2**20))
        h = hashlib.blake2b(key.encode(), digest_size=4).digest()
        g = np.random.RandomState(int.from_bytes(h, 'big'))
        shape = self.vshape + (self.paths,)
        if self.id == 'dn':
            return np.sign(dt).astype(int)*g.poisson(abs(dt)*2., shape)
        x = g.normal(size=shape)*np.sqrt(abs(dt))
        if key[-1] in '37':
            x = x*4            # occasional large shocks
        elif key[-1] in '5':
            x = x*0
        return x


def recording(cls, log, id, state):
    """Subclass of a library source that records its increments"""
    class Rec(cls):
        def __call__(self, t, dt):
            # a 'dn' evaluated by a 'dj' is not the one in the equation
            outer, state['inside'] = state['inside'], True
            try:
                z = super().__call__(t, dt)
            finally:
                state['inside'] = outer
            if not outer:
                log.append((id, float(t), float(dt), np.array(z)))
            return z
    Rec.__name__ = 'Rec_' + cls.__name__
    return Rec


def jump_entries(spec):
    """Jump parameters that differ by entry: size (for 'merton') and
    probability, 0 or 1, of an upward jump (for 'kou')"""
    if not spec.get('yarr') or spec.get('ydef'):
        return None, None
    shape = tuple(spec['vshape']) + ((spec['paths'],) if spec['yarr'] == 2
                                     else (1,))
    k = np.arange(int(np.prod(shape))).reshape(shape)
    return np.sqrt(.01 + .02*k), np.where(k % 2, 1., 0.)


def check_jumps(spec, z):
    """Facts on an increment of the source of jumps"""
    a, pa = jump_entries(spec)
    if a is None:
        return
    if spec['proc'] == 'merton':
        k = z/a
        check((np.abs(k - np.round(k)) < 1e-6).all(),
              'jump-of-another-entry',
              lambda: 'jumps %r, not multiples of %r' % (z, a))
    elif spec['proc'] == 'kou':
        check((z*(2*pa - 1) >= 0).all(), 'jump-of-another-entry',
              lambda: 'jumps %r, probability of an upward one %r' % (z, pa))


def source_params(spec, sm):
    """parameters of library sources"""
    ids = source_ids(spec)
    ws = wshape(spec)
    out = {}
    if 'dw' in ids:
        out.update(G.build_corr(spec['corr'], ws[-1] if ws else 0, sm))
    if 'dn' in ids or 'dj' in ids:
        from .p05 import lam_kw
        out.update(lam_kw(spec['lam'], ws, sm))
    if 'dj' in ids and not spec.get('ydef'):
        a, pa = jump_entries(spec)
        if spec['proc'] == 'merton':
            out.update(a=.1 if a is None else a,
                       b=lambda t: .2 if a is None else 1e-12)
        elif spec['proc'] == 'kou':
            out.update(a=.3, b=.2, pa=.4 if a is None else pa)
        else:
            out['y'], _ = G.build_y(spec['y'], sm)
    return out


def build(spec, sm=None, rng=None, log=None, sources=None,
          keep=None, **over):
    """The process object.  sources: overriding source arguments.  Returns
    (process, {id: HashSource})."""
    vs, paths, proc = tuple(spec['vshape']), spec['paths'], spec['proc']
    ids = source_ids(spec)
    pvs = param_vs(spec)
    kw = dict(paths=paths, vshape=vs, steps=spec['steps'], i0=spec['i0'],
              getinfo=spec['getinfo'])
    if len(vs) == 1 and spec['seed'] % 3 == 0 and \
            proc not in ('hw', 'heston', 'full_heston', 'sdes'):
        kw['vshape'] = vs[0]
    # default values, left out
    if paths == 1 and spec['seed'] % 5 < 2 and not over:
        del kw['paths']
    for k, v, m in (('getinfo', True, 2), ('i0', 0, 3), ('steps', None, 5)):
        if kw[k] is v and spec['seed'] // 16 % m == 0:
            del kw[k]
    if not vs and spec['seed'] % 7 < 3:
        del kw['vshape']
    if isinstance(spec['steps'], list) and spec['seed'] % 2:
        kw['steps'] = np.array(spec['steps'])
    if spec.get('dtype'):
        kw['dtype'] = np.dtype(spec['dtype'])
    for k, p in spec['params'].items():
        if p['kind'] != 'default':
            kw[k] = build_param(p, pvs, paths, sm)
    if spec['x0']['kind'] != 'default':
        kw['x0'] = x0_value(spec)
    if 'y0' in spec and spec['y0']['kind'] != 'default':
        kw['y0'] = build_param(spec['y0'], pvs, paths)
    if proc == 'hw' and not (spec['factors'] == 1 and spec.get('nofactors')):
        kw['factors'] = spec['factors']
    hs = {}
    if sources is not None:
        kw.update(sources)
        kw['rng'] = rng
    elif spec['mode'] == 'hash':
        hs = {id: HashSource(spec, id, sm) for id in ids}
        kw.update(hs)
    else:
        if rng is None:
            rng = S.sim_rng(spec['seed'], sm, spec['legacy']) \
                if sm is not None else S.plain_rng(spec['seed'],
                                                   spec['legacy'])
        kw['rng'] = rng
        kw.update(source_params(spec, sm))
        if log is not None:
            lib = dict(dw=sdepy.wiener_source, dn=sdepy.poisson_source,
                       dj=sdepy.cpoisson_source)
            state = dict(inside=False)
            for id in ids:
                # dn is shared with dj if both are used: leave it alone
                if id in lib and not (id == 'dn' and 'dj' in ids):
                    kw[id] = recording(lib[id], log, id, state)
            if 'dn' in ids and 'dj' in ids:
                kw['dn'] = recording(sdepy.poisson_source, log, 'dn',
                                     state)(
                    paths=paths, vshape=wshape(spec), rng=rng,
                    **{k: kw.pop(k) for k in ('lam',) if k in kw})
            if 'dx' in ids:
                hs['dx'] = kw['dx'] = HashSource(spec, 'dx', sm)
        elif 'dx' in ids:
            hs['dx'] = kw['dx'] = HashSource(spec, 'dx', sm)
    kw.update(over)
    if kw.get('rng') is S.DEFAULT:
        del kw['rng']
    if keep is not None:
        keep.update(kw)
    return make_class(spec, sm)(**kw), hs


def make_class(spec, sm=None):
    proc = spec['proc']
    if proc not in CUSTOM:
        return CLASSES[proc]
    f = make_sde(spec, sm)
    q = len(spec['eqs'])
    neq = 0 if proc == 'sde' else q
    if spec['via'] == 'integrate' and spec.get('auto'):
        kw = dict(log=spec['log'], addaxis=spec['addaxis'])
        if spec['auto'] == 'bare' and not (spec['log'] or spec['addaxis']):
            return sdepy.integrate(f)
        if spec['auto'] == 'q':
            kw['q'] = neq
        elif spec['auto'] == 'sources':
            kw['sources'] = list(spec['srcs'])
        elif spec['auto'] == 'both':
            kw.update(q=neq, sources=tuple(spec['srcs']))
        return sdepy.integrate(**kw)(f)
    if spec['via'] == 'integrate':
        return sdepy.integrate(f, q=neq, sources=set(spec['srcs']),
                               log=spec['log'], addaxis=spec['addaxis'])
    base = sdepy.SDE if proc == 'sde' else sdepy.SDEs

    class Custom(base, sdepy.integrator):
        # attributes equal to the defaults are left out, in some cases
        keep = spec['seed'] % 3
        if keep or set(spec['srcs']) != {'dt', 'dw'}:
            sources = set(spec['srcs'])
        if keep or spec['log']:
            log = spec['log']
        sde = staticmethod(f)
        if neq and (keep or neq != 1):
            q = len(spec['eqs'])
        if neq and (keep or spec['addaxis']):
            addaxis = spec['addaxis']

        def source_dx(self, dx=None):
            return dx

        if neq:
            def init(self, t, out_xs, x0=1.):
                if sm is not None:
                    sm.call('init')
                super().init(t, out_xs, x0)
        else:
            def init(self, t, out_x, x0=1.):
                if sm is not None:
                    sm.call('init')
                super().init(t, out_x, x0)
    return Custom


def x0_value(spec):
    p = spec['x0']
    pvs, paths = param_vs(spec), spec['paths']
    if spec['proc'] == 'sdes' and p.get('per_eq'):
        q = len(spec['eqs'])
        x0 = [build_param(dict(p, seed=p['seed'] + k), pvs, paths)
              for k in range(q)]
        return x0 if p['kind'] == 'listfull' else np.array(x0)
    if spec['proc'] == 'sdes':
        # a scalar is broadcast to all equations
        return build_param(
            dict(p, kind='scalar' if p['kind'] != 'default' else 'default'),
            pvs, paths)
    return build_param(p, pvs, paths)


def seams_of(spec):
    """Seams an integration may cross"""
    out = ['alloc']
    if any(p['kind'].startswith('call') for p in spec['params'].values()):
        out += ['param']*2
    if spec['proc'] in CUSTOM:
        out += ['sde']*2
        if spec['via'] == 'class':
            out += ['init']
    ids = source_ids(spec)
    if spec['mode'] == 'hash':
        return out + ['source']*2*bool(ids)
    if ids != ['dx']:
        out += ['rng']*2*bool(ids)
    if 'dx' in ids:
        out += ['source']
    if 'dw' in ids and spec['corr'] and \
            spec['corr']['kind'] in ('call', 'rhocall'):
        out += ['corr']
    if 'dj' in ids or 'dn' in ids:
        if spec['lam']['kind'] == 'call':
            out += ['lam']
    if 'dj' in ids and spec['proc'] not in ('merton', 'kou') and \
            not spec.get('ydef'):
        if spec['y'] == 'normt':
            out += ['y']
        elif spec['y'] != 'default':
            out += ['rvs']
    return out


# ----------------------------------------------------------------- reference
def all_steps(spec, tl):
    tt = np.array(tl, float)
    s = spec['steps']
    if tt.size == 1 or s is None:
        p = np.array([])
    elif isinstance(s, int):
        p = tt[0] + (tt[-1] - tt[0])*np.arange(s)/max(s - 1, 1)
    else:
        p = np.array(s)
    p = p[(p >= tt[0]) & (p <= tt[-1])]
    return np.unique(np.concatenate((p, tt)))


class Reference:
    """Euler recursion, one variable per equation"""

    def __init__(self, spec, increments):
        """increments(id, s, ds) -> array of shape wshape + (paths,)"""
        self.spec, self.incr = spec, increments
        self.vs, self.paths = tuple(spec['vshape']), spec['paths']
        pvs = param_vs(spec)
        self.P = {k: param_fun(p, pvs, self.paths)
                  for k, p in spec['params'].items()}
        self.shape = (wshape(spec) if spec['proc'] == 'hw' else self.vs) + \
            (self.paths,)
        self.neq = self.count()
        self.steps = 0
        self.on_step = None

    def count(self):
        proc = self.spec['proc']
        return len(self.spec['eqs']) if proc == 'sdes' else \
            2 if 'heston' in proc else 1

    def initial(self):
        spec, full = self.spec, self.shape

        def b(x):
            return np.array(np.broadcast_to(x, full), float)
        x0 = x0_value(spec)
        proc = spec['proc']
        if proc == 'sdes':
            xs = [b(x0) for _ in range(self.neq)] if np.ndim(x0) == 0 else \
                [b(x) for x in x0]
        elif 'heston' in proc:
            y0 = build_param(spec['y0'], param_vs(spec), self.paths)
            xs = [np.log(b(x0)), b(y0)]
        else:
            xs = [b(x0)]
        if self.is_log():
            xs = [np.log(x) for x in xs]
        return xs

    def is_log(self):
        proc = self.spec['proc']
        return proc in ('lognorm', 'jumpdiff', 'merton', 'kou') or \
            bool(self.spec.get('log'))

    def coefs(self, s, xs):
        """list (one per equation) of {source: coefficient}"""
        spec, proc = self.spec, self.spec['proc']
        p = {k: f(s) for k, f in self.P.items()}
        x = xs[0]
        if proc in CUSTOM:
            return eval_eqs(spec['eqs'], s, xs, p)
        if proc == 'wiener':
            return [dict(dt=p['mu'], dw=p['sigma'])]
        if proc == 'lognorm':
            return [dict(dt=p['mu'] - p['sigma']**2/2, dw=p['sigma'])]
        if proc in ('ou', 'hw', 'hw1'):
            return [dict(dt=p['k']*(p['theta'] - x), dw=p['sigma'])]
        if proc == 'cir':
            y = np.where(x > 0, x, 0.)
            return [dict(dt=p['k']*(p['theta'] - y), dw=p['xi']*np.sqrt(y))]
        if 'heston' in proc:
            y = np.where(xs[1] > 0, xs[1], 0.)
            return [dict(dt=p['mu'] - p['sigma']**2*y/2,
                         dw=p['sigma']*np.sqrt(y)),
                    dict(dt=p['k']*(p['theta'] - y), dw=p['xi']*np.sqrt(y))]
        return [dict(dt=p['mu'] - p['sigma']**2/2, dw=p['sigma'], dj=1.)]

    def split(self, z):
        """source values, one array per equation"""
        spec = self.spec
        z = np.broadcast_to(z, wshape(spec) + (self.paths,))
        if spec['proc'] in ('heston', 'full_heston', 'sdes'):
            if self.vs == () or spec.get('addaxis'):
                return [z[..., k, :] for k in range(self.neq)]
            d = self.vs[-1]
            return [z[..., k*d:(k+1)*d, :] for k in range(self.neq)]
        return [z]

    def step(self, s, ds, xs):
        C = self.coefs(s, xs)
        new = [x.copy() for x in xs]
        dz = {}
        for id in source_ids(self.spec):
            dz[id] = self.split(self.incr(id, s, ds))
        for k in range(self.neq):
            for id, c in C[k].items():
                new[k] = new[k] + c*(ds if id == 'dt' else dz[id][k])
        self.steps += 1
        if self.on_step is not None:
            self.on_step(s, ds, xs, dz, new)
        return new

    def run(self, tl):
        """list of results, one array (times + vshape + (paths,)) each"""
        spec = self.spec
        tt = [float(t) for t in tl]
        steps = all_steps(spec, tl).tolist()
        i0 = spec['i0'] % len(tt)
        out = [None]*len(tt)
        j0 = steps.index(tt[i0])
        out[i0] = self.initial()
        plans = []
        if i0 > 0:
            plans.append(steps[j0::-1])
        plans.append(steps[j0:])
        for plan in plans:
            xs = self.initial()
            for s, e in zip(plan, plan[1:]):
                xs = self.step(s, e - s, xs)
                if e in tt:
                    out[tt.index(e)] = xs
        res = [np.array([o[k] for o in out]) for k in range(self.neq)]
        if self.is_log():
            res = [np.exp(x) for x in res]
        proc = spec['proc']
        if 'heston' in proc:
            res[0] = np.exp(res[0])
            if proc == 'heston':
                res = res[:1]
        if proc == 'hw':
            res = [res[0].sum(axis=-2)]
        return res


def results(spec, out):
    """results of an integration as a list of processes"""
    return list(out) if spec['proc'] in ('sdes', 'full_heston') else [out]
