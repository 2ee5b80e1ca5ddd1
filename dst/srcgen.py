"""Seeded generation and construction of sources and their parameters."""
import numpy as np
import scipy.stats

import sdepy
from sdepy import process

from . import seams as S

Q = 1024.   # times are multiples of 1/Q: sums and differences are exact


def dy(x):
    """nearest dyadic time"""
    return float(round(x*Q))/Q


# --------------------------------------------------------------- correlations
def corr_matrix(seed, M, strength=1.):
    r = np.random.RandomState(seed % 2**32)
    a = r.normal(size=(M, M + 1))
    c = a @ a.T
    d = np.sqrt(np.diag(c))
    c = c/d[:, None]/d
    c = (1 - strength)*np.eye(M) + strength*c
    c = (c + c.T)/2
    c[np.arange(M), np.arange(M)] = 1.
    return c


def gen_corr(r, vshape, linear=False, p_none=0.3):
    """linear: restrict to corr matrices linear in time over |t| <= 64."""
    if not vshape or vshape[-1] < 2 or r.random() < p_none:
        return None
    M = vshape[-1]
    kinds = ['const', 'const', 'call', 'proc', 'const3']
    if M % 2 == 0:
        kinds += ['rho', 'rhocall', 'rhoproc'] if M == 2 else \
            ['rhoarr', 'rhocall', 'rhoproc']
    return dict(kind=r.choice(kinds), seed=r.randrange(10**6),
                linear=bool(linear))


def corr_fun(c, M):
    """The correlation matrix as a function of time (the oracle's view)."""
    if c is None:
        return lambda t: np.eye(M)
    kind, seed = c['kind'], c['seed']
    if kind.startswith('rho'):
        N = M//2
        g = np.random.RandomState(seed)
        r0, r1 = g.uniform(-.9, .9, N), g.uniform(-.9, .9, N)

        def rho(t):
            if kind in ('rho', 'rhoarr'):
                return r0
            w = weight(t, c)
            return (1 - w)*r0 + w*r1

        def f(t):
            R = np.diag(rho(t))
            return np.block([[np.eye(N), R], [R, np.eye(N)]])
        f.rho = rho
        return f
    C0 = corr_matrix(seed, M)
    C1 = corr_matrix(seed + 1, M)
    if kind in ('const', 'const3'):
        return lambda t: C0

    def f(t):
        w = weight(t, c)
        return (1 - w)*C0 + w*C1
    return f


def weight(t, c):
    t = float(t)
    if c['linear'] or c['kind'] in ('proc', 'rhoproc'):
        return min(max((t + 64.)/128., 0.), 1.)
    return (1 + np.sin(t))/2


def build_corr(c, M, seams=None):
    """keyword arguments corr=/rho= for a source"""
    if c is None:
        return {}
    wrap = (lambda f: seams.wrap('corr', f)) if seams is not None \
        else (lambda f: f)
    f = corr_fun(c, M)
    kind = c['kind']
    if kind == 'const':
        return dict(corr=listed(f(0), c))
    if kind == 'const3':
        return dict(corr=listed(f(0)[..., np.newaxis], c))
    if kind == 'call':
        return dict(corr=wrap(listed(f, c)))
    if kind == 'proc':
        t = np.array([-64., 0., 64.])
        return dict(corr=process(t=t, v=np.array([f(s) for s in t])))
    if kind == 'rho':
        return dict(rho=float(f.rho(0)[0]))
    if kind == 'rhoarr':
        return dict(rho=listed(f.rho(0), c))
    if kind == 'rhocall':
        return dict(rho=wrap(listed(f.rho, c)))
    if kind == 'rhoproc':
        t = np.array([-64., 0., 64.])
        return dict(rho=process(t=t, v=np.array([f.rho(s) for s in t])))
    raise AssertionError(kind)


def listed(f, c):
    """array-like values, as lists, for some cases"""
    if c['seed'] % 4:
        return f
    return f.tolist() if isinstance(f, np.ndarray) else \
        lambda t: np.asarray(f(t)).tolist()


# ------------------------------------------------------------------ intensity
def gen_lam(r, vshape, const_only=False, hi=2.):
    kinds = ['const', 'const', 'arr', 'default'] + ([] if const_only
                                        else ['call', 'callarr', 'proc'])
    return dict(kind=r.choice(kinds), seed=r.randrange(10**6),
                hi=hi)


def lam_fun(c, vshape, paths):
    """Intensity as a function of time, broadcast to vshape + (paths,)."""
    g = np.random.RandomState(c['seed'])
    hi, kind = c['hi'], c['kind']
    a, b = hi*g.uniform(.2, 1.), hi*g.uniform(.2, 1.)
    shape = tuple(vshape) + (1,)
    A = hi*g.uniform(.2, 1., size=shape)
    B = hi*g.uniform(.2, 1., size=shape)

    def w(t):
        return min(max((float(t) + 64.)/128., 0.), 1.)
    if kind == 'default':
        return lambda t: np.asarray(1.)
    if kind == 'const':
        return lambda t: np.asarray(a)
    if kind == 'arr':
        return lambda t: A
    if kind == 'call':
        return lambda t: np.asarray((1 - w(t))*a + w(t)*b)
    return lambda t: (1 - w(t))*A + w(t)*B


def lam_kw(*args):
    """keyword arguments lam= for a source: the default value is left out"""
    return {} if args[0]['kind'] == 'default' else dict(lam=build_lam(*args))


def build_lam(c, vshape, paths, seams=None):
    f = lam_fun(c, vshape, paths)
    kind = c['kind']
    if kind == 'default':
        return 1.
    if kind == 'const':
        return float(f(0))
    if kind == 'arr':
        return listed(f(0), c)
    if kind == 'proc':
        t = np.array([-64., 0., 64.])
        return process(t=t, x=np.array([f(s) for s in t]))
    f = listed(f, c)
    return seams.wrap('lam', f) if seams is not None else f


# ------------------------------------------------------- compounding variables
class Y:
    """Base of the harness' compounding variables (the rvs protocol)."""
    seams = None
    low, high = -np.inf, np.inf

    def rvs(self, size, random_state=None):
        if self.seams is not None:
            self.seams.call('rvs')
        return self.sample(size, random_state)


class YOnes(Y):
    low = high = 1.

    def sample(self, size, rng):
        return np.ones(size)


class YZero(Y):
    low = high = 0.

    def sample(self, size, rng):
        return np.zeros(size)


class YPm1(Y):
    low, high = -1., 1.

    def sample(self, size, rng):
        return np.sign(rng.uniform(-1., 1., size)) + 0.


class YMix0(Y):
    """zero with probability 1/2, otherwise uniform"""
    low, high = 0., 1.

    def sample(self, size, rng):
        u = rng.uniform(-1., 1., size)
        return np.maximum(u, 0.)


class YWrap(Y):
    def __init__(self, rv):
        self.rv = rv

    def sample(self, size, rng):
        return self.rv.rvs(size=size, random_state=rng)


class MarksExhausted(Exception):
    pass


class YMarks(Y):
    """Every sampled jump is a different power of two: any sum of distinct
    jumps identifies them, exactly."""
    low, high = 0., 2.**60   # 0 once exhausted

    def __init__(self, maxbits=52):
        self.used, self.maxbits = 0, maxbits
        self.exhausted = False

    def sample(self, size, rng):
        n = int(np.prod(size))
        if self.used + n > self.maxbits:
            self.exhausted = True
            return np.zeros(size)
        x = 2.**np.arange(self.used, self.used + n)
        self.used += n
        return x.reshape(size)


Y_KINDS = ('ones', 'zero', 'pm1', 'mix0', 'uniform', 'norm', 'exp', 'negexp',
           'dexp', 'default', 'normt', 'rvmap', 'callones', 'norm0',
           'uniform0', 'exp0', 'dexp0')

# time-dependent distributions (with callable parameters, or transformations,
# of time), mapped and scipy distributions: same law as the aliased kind
Y_ALIAS = {'normct': 'norm', 'unifct': 'uniform', 'expct': 'exp',
           'dexpct': 'dexp', 'rvmapc': 'rvmap', 'rvmapt': 'rvmap',
           'rvmaps': 'rvmap', 'rvmapct': 'rvmap', 'scipy': 'norm',
           'scipyt': 'exp'}
Y_KINDS += tuple(Y_ALIAS)
# kinds with no recorded or failing rvs method
Y_PLAIN = ('default', 'normt', 'rvmap') + tuple(Y_ALIAS)


def build_alias(kind):
    inf = np.inf

    def c(x):
        return lambda t: x + 0*t
    if kind == 'normct':
        return sdepy.norm_rv(a=c(.3), b=c(1.5)), (-inf, inf)
    if kind == 'unifct':
        return sdepy.uniform_rv(a=c(-.5), b=2.), (-.5, 2.)
    if kind == 'expct':
        return sdepy.exp_rv(a=c(.7)), (0., inf)
    if kind == 'dexpct':
        return sdepy.double_exp_rv(a=.5, b=c(.8), pa=c(.4)), (-inf, inf)
    if kind == 'scipy':
        return scipy.stats.norm(.3, 1.5), (-inf, inf)
    if kind == 'scipyt':
        return (lambda t: scipy.stats.expon(scale=.7)), (0., inf)
    y = {'rvmapc': lambda: sdepy.rvmap(lambda x: 1. + x*x,
                                       sdepy.uniform_rv(a=c(0.))),
         'rvmapt': lambda: sdepy.rvmap(lambda t, x: 1. + x*x + 0*t,
                                       sdepy.uniform_rv()),
         'rvmaps': lambda: sdepy.rvmap(lambda s, x: 1. + x*x + 0*s,
                                       scipy.stats.uniform()),
         'rvmapct': lambda: sdepy.rvmap(lambda t, x: 1. + x*x + 0*t,
                                        sdepy.uniform_rv(b=c(1.)))}
    return y[kind](), (1., 2.)


def build_y(kind, seams=None):
    """returns (y argument, (low, high) bounds of each jump)"""
    inf = np.inf
    if kind in Y_ALIAS:
        return build_alias(kind)

    def w(y, b):
        y.seams = seams
        return y, b
    if kind == 'ones':
        return w(YOnes(), (1., 1.))
    if kind == 'zero':
        return w(YZero(), (0., 0.))
    if kind == 'pm1':
        return w(YPm1(), (-1., 1.))
    if kind == 'mix0':
        return w(YMix0(), (0., 1.))
    if kind == 'uniform':
        return w(YWrap(sdepy.uniform_rv(a=-.5, b=2.)), (-.5, 2.))
    if kind == 'norm':
        return w(YWrap(sdepy.norm_rv(a=.3, b=1.5)), (-inf, inf))
    if kind == 'exp':
        return w(YWrap(sdepy.exp_rv(a=.7)), (0., inf))
    if kind == 'negexp':
        return w(YWrap(sdepy.exp_rv(a=-.7)), (-inf, 0.))
    if kind == 'dexp':
        return w(YWrap(sdepy.double_exp_rv(a=.5, b=.8, pa=.4)), (-inf, inf))
    # default parameters
    if kind == 'norm0':
        return w(YWrap(sdepy.norm_rv()), (-inf, inf))
    if kind == 'uniform0':
        return w(YWrap(sdepy.uniform_rv()), (0., 1.))
    if kind == 'exp0':
        return w(YWrap(sdepy.exp_rv()), (0., inf))
    if kind == 'dexp0':
        return w(YWrap(sdepy.double_exp_rv()), (-inf, inf))
    if kind == 'default':
        return None, (0., 1.)
    if kind == 'normt':
        y = sdepy.norm_rv(a=lambda t: np.cos(t), b=lambda t: 1.5 + np.sin(t))
        return (seams.wrap('y', y) if seams else y), (-inf, inf)
    if kind == 'rvmap':
        y = sdepy.rvmap(lambda x: 1. + x*x, sdepy.uniform_rv())
        return y, (1., 2.)
    if kind == 'callones':
        y1 = YOnes()
        y1.seams = seams

        def y(t):
            return y1
        return (seams.wrap('y', y) if seams else y), (1., 1.)
    raise AssertionError(kind)


# -------------------------------------------------------- sources with memory
def gen_true(r, kinds=('wiener', 'poisson', 'cpoisson'), rtol=True,
             linear=False):
    kind = r.choice(kinds)
    vshape = r.choice([[], [1], [2], [3], [2, 3], [4], [2, 2], [1, 2]])
    c = dict(kind=kind, vshape=vshape, paths=r.choice([1, 1, 2, 3, 5]),
             t0=r.choice([0., 0., 0., -1.5, 2.25, 120., -37.]),
             z0=r.choice(['0', '0', '1.5', 'arr']) if kind != 'poisson'
             else r.choice(['0', '0', '3', 'arr']),
             rtol=(r.choice(['max', 'max', 1e-9, 1e-4, 1e-2])
                   if rtol else 'max'),
             seed=r.randrange(2**31), legacy=r.random() < .4)
    if kind == 'wiener':
        c['corr'] = gen_corr(r, vshape, linear)
    else:
        c['lam'] = gen_lam(r, vshape)
        c['ptype'] = r.choice([None]*6 + ['float64', 'int32', 'int16'])
        if kind == 'poisson':
            c['dtype'] = c['ptype']
    if kind == 'cpoisson':
        c['y'] = r.choice(Y_KINDS)
        c['dn'] = r.choice(['own', 'own', 'given'])
    return c


def z0_value(c):
    vs = tuple(c['vshape'])
    if c['z0'] == 'arr':
        z = np.arange(1, 1 + int(np.prod(vs)), dtype=float) \
            .reshape(vs + (1,))
        return z.astype(int) if c['kind'] == 'poisson' else z
    return int(c['z0']) if c['kind'] == 'poisson' else float(c['z0'])


def build_true(c, seams=None, rng=None, dn=None):
    vs = tuple(c['vshape'])
    if rng is None:
        rng = (S.sim_rng(c['seed'], seams, c['legacy'])
               if seams is not None else S.plain_rng(c['seed'], c['legacy']))
    base = dict(paths=c['paths'], vshape=vs, rng=rng)
    if rng is S.DEFAULT:
        del base['rng']
    mem = dict(t0=c['t0'], z0=z0_value(c), rtol=c['rtol'])
    # default values, left out
    for k, v, m in (('t0', 0., 2), ('z0', '0', 3), ('rtol', 'max', 5)):
        if c[k] == v and c['seed'] % m == 0:
            del mem[k]
    if c['paths'] == 1 and c['seed'] % 7 < 3:
        del base['paths']
    if not vs and c['seed'] % 11 < 4:
        del base['vshape']
    if len(vs) == 1 and c['seed'] % 3 == 0:
        base['vshape'] = vs[0]     # integers are accepted as well
    if c.get('dtype'):
        base['dtype'] = np.dtype(c['dtype'])
    if c['kind'] == 'wiener':
        return sdepy.true_wiener_source(
            **base, **mem, **build_corr(c.get('corr'), vs[-1] if vs else 0,
                                        seams))
    lam = lam_kw(c['lam'], vs, c['paths'], seams)
    if c['kind'] == 'poisson':
        return sdepy.true_poisson_source(**base, **mem, **lam)
    y, _ = build_y(c['y'], seams)
    if dn is None and c['dn'] == 'given':
        dn = sdepy.true_poisson_source(**base, **lam, t0=c.get('dnt0', 0.))
    kw = dict(dn=dn) if dn is not None else lam
    if c.get('ptype'):
        kw['ptype'] = np.dtype(c['ptype'])
    return sdepy.true_cpoisson_source(**base, **mem, y=y, **kw)


def rtol_value(c):
    return np.finfo(float).resolution if c['rtol'] == 'max' else c['rtol']


# ---------------------------------------------------- the same times, recast
FORMS = (None,)*6 + ('int', 'i32', 'i8', 'u8', 'f32', 'list', '0d', 'np', 'strided',
                     'readonly', 'fortran')
INTS = dict(int=int, i32='int32', i8='int8', u8='uint8')


def cast(x, form):
    """The same values, in another form, if they can be represented."""
    a = np.asarray(x, float)
    if form in INTS:
        k = np.iinfo(INTS[form])
        if not ((a == np.round(a)) & (k.min <= a) & (a <= k.max)).all():
            return x
        return int(a) if form == 'int' and not a.ndim \
            else a.astype(INTS[form])[()]
    if form == 'f32':
        with np.errstate(all='ignore'):
            b = a.astype('float32')
        return x if not same_values(a, b) else b if a.ndim else b[()]
    if form == 'list':
        return a.tolist()
    if form == '0d':
        return a if a.ndim else np.array(a)
    if form == 'np':
        return x if a.ndim else np.float64(x)
    if form == 'strided' and a.ndim:
        b = np.full(a.shape[:-1] + (2*a.shape[-1],), np.nan)
        b[..., ::2] = a
        return b[..., ::2]
    if form == 'readonly':
        b = np.array(a)
        b.flags.writeable = False
        return b
    if form == 'fortran':
        return np.asfortranarray(a) if a.ndim else x
    return x


def same_values(a, b):
    """equal, and so are small sums and differences"""
    return bool((a == b).all()) and \
        (a*1024 == np.round(a*1024)).all() and (np.abs(a) < 4096).all()


# ------------------------------------------------------------- query times
class TimePool:
    """Generates query times with bounded, exactly representable distance."""

    def __init__(self, r, t0, rtol, span=8., tiny=.06):
        self.r, self.t0, self.rtol, self.span = r, t0, rtol, span
        self.tiny = tiny    # probability of a time very close to another
        self.times = [float(t0)]

    def ok(self, s):
        return all(s == t or abs(s - t) > 4*self.rtol*max(abs(s), abs(t))
                   for t in self.times)

    def new(self):
        r = self.r
        for _ in range(50):
            k = r.random()
            ts = sorted(self.times)
            if k < .2:
                s = ts[-1] + r.expovariate(.7)
            elif k < .4:
                s = ts[0] - r.expovariate(.7)
            elif k < .7 and len(ts) > 1:
                j = r.randrange(len(ts) - 1)
                s = ts[j] + (ts[j+1] - ts[j])*r.choice(
                    [.5, r.random(), .01, .99])
            elif k < .75:
                s = 0.
            elif k < .8:
                s = float(round(self.t0 + r.uniform(-self.span, self.span)))
            else:
                s = self.t0 + r.uniform(-self.span, self.span)
            s = dy(s)
            if self.tiny and r.random() < self.tiny:
                s = r.choice([-1, 1])*2.**-r.randint(11, 30) + dy(
                    r.choice(ts))
            if abs(s - self.t0) < 4*self.span and self.ok(s):
                break
        else:
            s = r.choice(self.times)
        if s not in self.times:
            self.times.append(s)
        return s

    def any(self, p_old=.3):
        if self.r.random() < p_old:
            return self.r.choice(self.times)
        return self.new()

    def whole(self):
        """an integer time, possibly large"""
        s = float(self.r.choice([round(self.t0) + self.r.randint(-8, 8),
                                 100, 127, 150, 200]))
        if not self.ok(s):
            return self.any(1.)
        if s not in self.times:
            self.times.append(s)
        return s

    def near(self):
        """a time coinciding with a known one, up to rtol, on either side"""
        t = self.r.choice(self.times)
        side = self.r.choice([-1., 1.])
        if self.rtol < 1e-14:
            return float(np.nextafter(t, t + side))if t else t
        return t*(1 + side*self.r.choice([.05, .5, .9])*self.rtol)
