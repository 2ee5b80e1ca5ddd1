"""P16: parameter-managed functions keep exactly the parameters they were
given."""
import inspect

import numpy as np
import scipy.stats

import sdepy
import sdepy.analytical as analytical
import sdepy.infrastructure as infra
import sdepy.integration as integration
from sdepy.kfun import iskfunc, kfunc

from . import seams as S
from .core import check
from .seams import Seams

ID = 'P16'
LEVEL = 'fault_enumeration'
QUICK = 10000
RULE = ('a case is a seeded tree of instantiations and derivations of managed '
        'functions and classes (user defined functions and classes, nested '
        'wrappings, sources, sources with memory, processes, custom SDEs, '
        'analytical functions), evaluated with and without overriding '
        'parameters (by position or name, from instances or from the class), '
        'part of them failing (invalid arguments; initialization, evaluation, '
        'generator or allocation failing at the k-th crossing). Plain '
        'functions and classes, with generators in the same state, are run '
        'alongside as the reference; parameters of all instances are '
        'compared with those of a dictionary-merge model after each step. '
        'Non-trivial if an instance was derived and one evaluated; distinct '
        'by kinds and histories')
MEASURE = 'kind + (operation, parent, parameter names, fault) of each step'
REAL = ['sdepy kfunc, shortcuts, sources, processes, analytical functions',
        'numpy random generators']
STUB = ['numpy allocator (fails at the k-th allocation)', 'user functions '
        'and classes (recording their arguments)']


# ---------------------------------------------------------------------------
# user defined functions and classes, plain
# ---------------------------------------------------------------------------
SEAM = [None]      # current Seams


def cross(name):
    if SEAM[0] is not None:
        SEAM[0].call(name)


def fun1(x, *, a=1, b=2.5):
    cross('call')
    return ('fun1', x, a, b)


def fun2(x, y=7, *, a=1, b=None, c=(1, 2)):
    cross('call')
    return ('fun2', x, y, a, b, c)


def fun3(x, *, a=0, **kw):
    cross('call')
    return ('fun3', x, a, kw)


def fun2b(x, *, y=3, z=4, a=1):
    """wrapped with 2 variables, one of them keyword-only"""
    cross('call')
    return ('fun2b', x, y, z, a)


def fun4(x, *, a, b=2, c):
    """parameters with no default"""
    cross('call')
    return ('fun4', x, a, b, c)


class Cls3:
    """parameters with no default"""
    def __init__(self, *, a, b=3):
        cross('init')
        self.a, self.b = a, b

    def __call__(self, x):
        cross('call')
        return ('Cls3', self.a, self.b, x)


class Cls1:
    def __init__(self, *, a=1, b=2):
        cross('init')
        self.a, self.b = a, b
        self.calls = 0

    def __call__(self, x, y=0, *, z=None):
        self.calls += 1
        cross('call')
        return ('Cls1', self.a, self.b, self.calls, x, y, z)


class Cls2:
    """any parameters and variables"""
    def __init__(self, *, a=1, **kw):
        cross('init')
        if a == 'bad':
            raise ValueError('bad a')
        self.state = dict(a=a, **kw)

    def __call__(self, x, **vw):
        cross('call')
        self.state['last'] = x
        out = ('Cls2', dict(self.state), x, vw)
        if x == 'bad':
            raise KeyError('bad x')
        return out


class Sub1(Cls1):
    def __init__(self, *, c=3, a=10, b=20):
        super().__init__(a=a, b=b)
        self.c = c

    def __call__(self, x, y=0, *, z=None):
        return ('Sub1', self.c, super().__call__(x, y, z=z))


KCls1 = kfunc(Cls1)


class KSub1(KCls1):
    """subclass of a kfunc, wrapped again (as documented)"""
    def __init__(self, *, c=3, a=10, b=20):
        super().__init__(a=a, b=b)
        self.c = c

    def __call__(self, x, y=0, *, z=None):
        return ('Sub1', self.c, super().__call__(x, y, z=z))


class Sde1(integration.SDE, integration.integrator):
    def sde(self, t, x, mu=.1, sigma=1., q=None):
        cross('call')
        q = 0. if q is None else q
        return {'dt': mu + q*x, 'dw': sigma}


def sde2(t, x, theta=1., sigma=.2):
    cross('call')
    return {'dt': theta - x, 'dw': sigma}


plain_sde2 = integration.integrate(sde2)

SRC = dict(dw='wiener_source', dn='poisson_source', dj='cpoisson_source',
           odd_dw='odd_wiener_source', even_dn='even_poisson_source',
           even_dj='even_cpoisson_source', true_dw='true_wiener_source',
           true_dn='true_poisson_source', true_dj='true_cpoisson_source')
PROC = dict(wiener='wiener_process', lognorm='lognorm_process',
            oruh='ornstein_uhlenbeck_process', hwff='hull_white_process',
            hw1f='hull_white_1factor_process',
            cir='cox_ingersoll_ross_process', heston='heston_process',
            heston_xy='full_heston_process', jumpdiff='jumpdiff_process',
            mjd='merton_jumpdiff_process', kou='kou_jumpdiff_process')
PROC_PARAMS = dict(
    wiener=['x0', 'mu', 'sigma'], lognorm=['x0', 'mu', 'sigma'],
    oruh=['x0', 'theta', 'k', 'sigma'], hwff=['x0', 'theta', 'k', 'sigma'],
    hw1f=['x0', 'theta', 'k', 'sigma'], cir=['x0', 'theta', 'k', 'xi'],
    heston=['x0', 'mu', 'sigma', 'y0', 'theta', 'k', 'xi'],
    heston_xy=['x0', 'mu', 'sigma', 'y0', 'theta', 'k', 'xi'],
    jumpdiff=['x0', 'mu', 'sigma', 'lam'],
    mjd=['x0', 'mu', 'sigma', 'lam', 'a', 'b'],
    kou=['x0', 'mu', 'sigma', 'lam', 'a', 'b', 'pa'],
    sde1=['x0', 'mu', 'sigma', 'q'], sde2=['x0', 'theta', 'sigma'])

USER = dict(
    fun1=(kfunc(nvar=1)(fun1), fun1, ['x']),
    fun2=(kfunc(nvar=2)(fun2), fun2, ['x', 'y']),
    fun3=(kfunc(nvar=1)(fun3), fun3, ['x']),
    fun2b=(kfunc(nvar=2)(fun2b), fun2b, ['x', 'y']),
    fun1x=(kfunc(nvar=1)(fun2b), fun2b, ['x']),
    fun4=(kfunc(nvar=1)(fun4), fun4, ['x']),
    cls3=(kfunc(Cls3), Cls3, ['x']),
    cls1=(KCls1, Cls1, ['x', 'y', 'z']),
    cls2=(kfunc(Cls2), Cls2, ['x']),
    sub1=(kfunc(KSub1), Sub1, ['x', 'y', 'z']))


def _functions():
    """name -> (managed, plain, names of variables)"""
    out = {}
    for name in dir(analytical):
        plain, managed = getattr(analytical, name), getattr(sdepy, name, None)
        if not inspect.isfunction(plain) or not iskfunc(managed):
            continue
        par = inspect.signature(plain).parameters
        var = [k for k, z in par.items()
               if z.kind == z.POSITIONAL_OR_KEYWORD]
        if var and all(z.kind in (z.POSITIONAL_OR_KEYWORD, z.KEYWORD_ONLY)
                       for z in par.values()):
            out[name] = (managed, plain, var)
    return out


FUNCS = _functions()
FUNC_NAMES = sorted(FUNCS)


def lookup(name):
    """(managed, plain, variables, is a class)"""
    if name in USER:
        k, p, v = USER[name]
    elif name in FUNCS:
        k, p, v = FUNCS[name]
    elif name in SRC:
        k, p, v = getattr(sdepy, name), getattr(infra, SRC[name]), \
            ['t', 'dt']
    elif name in PROC:
        k, p, v = getattr(sdepy, name), getattr(integration, PROC[name]), \
            ['timeline']
    elif name == 'sde1':
        k, p, v = K_SDE1, Sde1, ['timeline']
    else:
        k, p, v = K_SDE2, plain_sde2, ['timeline']
    return k, p, v, inspect.isclass(p)


K_SDE1, K_SDE2 = kfunc(Sde1), kfunc(plain_sde2)


# ---------------------------------------------------------------------------
# generation
# ---------------------------------------------------------------------------
def gen_value(r):
    k = r.random()
    if k < .4:
        return r.choice([0, 1, -2, 3.5, None, 'abc', True, 10])
    if k < .6:
        return {'array': [round(r.uniform(-1, 1), 2)
                          for _ in range(r.choice([0, 1, 3]))]}
    if k < .7:
        return {'list': [1, r.choice([2, 3])]}
    return round(r.uniform(-3, 3), 2)


def gen_params(r, name, nodes, many=False):
    """a random set of parameters"""
    out = {}
    p = .5 if many else .3
    if name in USER:
        names = ['a', 'b', 'c', 'z', 'y'] if name == 'fun1x' else \
            ['a', 'b', 'c'] if name not in ('fun3', 'cls2') else \
            ['a', 'b', 'foo', 'self_', 'k']
        if name in ('fun4', 'cls3') and r.random() < .6:
            p = .9
        sig = set(inspect.signature(
            lookup(name)[1].__init__ if lookup(name)[3] else
            lookup(name)[1]).parameters)
        for k in names:
            if (k in sig or name in ('fun3', 'cls2')) and r.random() < p:
                out[k] = gen_value(r)
        return out
    if name in FUNCS:
        for k, z in inspect.signature(FUNCS[name][1]).parameters.items():
            if z.kind == z.KEYWORD_ONLY and r.random() < p:
                d = z.default
                if isinstance(d, tuple):
                    out[k] = {'tuple': [round(r.uniform(.05, .9), 3)
                                        for _ in d]}
                elif isinstance(d, (int, float)) and not \
                        isinstance(d, bool):
                    out[k] = r.choice([round(r.uniform(.05, .95), 3),
                                       {'array': [.3, .7]}]
                                      if r.random() < .2 else
                                      [round(r.uniform(.05, .95), 3)])
        return out
    # sources and processes
    def has(q=p):
        return r.random() < q
    vshape = None
    if has():
        out['paths'] = r.choice([1, 2, 3, 4])
        if name.startswith(('odd', 'even')):
            out['paths'] = 2*out['paths']
    if has(p/2):
        vshape = out['vshape'] = r.choice([2, 2, {'tuple': [2]}, {'tuple':
                                           []}])
    if has(.4):
        out['rng'] = {'rng': r.randrange(4)}
    if has(p/3):
        out['dtype'] = r.choice([{'dtype': 'float32'}, {'dtype': 'float64'}])
    if name in SRC:
        if name.endswith('dw'):
            if has(p/2):
                out['rho'] = r.choice([None, .5, -.3])
                if has(.6):
                    out['vshape'] = 2
        elif has():
            if name.endswith('dn'):
                out['lam'] = r.choice([1., 5., {'fn': [2., 1.]}])
            else:
                out['lam'] = r.choice([1., 5.])
        if name.endswith('dj') and has():
            out['y'] = r.choice([{'rv': 'norm'}, {'rv': 'unif'},
                                 {'rv': 'exp'}])
        if name.endswith('dj') and has(p/3):
            cand = [i for i, n in enumerate(nodes) if n == name.replace(
                'dj', 'dn')]
            if cand:
                out['dn'] = {'node': r.choice(cand)}
        return out
    if has(p/2):
        out['steps'] = r.choice([None, 3, {'array': [.1, .4, .8]}])
    if has(p/4):
        out['i0'] = r.choice([0, 1, -1])
    for k in PROC_PARAMS[name]:
        if has():
            out[k] = r.choice([round(r.uniform(.1, .9), 2)]*3 + [
                {'fn': [.3, .1]}]) if k not in ('x0', 'y0', 'a', 'b',
                                                'pa') else \
                round(r.uniform(.1, .9), 2)
    if has(p/3) and name not in ('hwff', 'hw1f', 'heston', 'heston_xy'):
        cand = [i for i, n in enumerate(nodes) if n in ('dw', 'odd_dw',
                                                        'true_dw')]
        if cand:
            out['dw'] = {'node': r.choice(cand)}
    if has(.05):
        out['bogus'] = 1
    return out


def gen_vars(r, name):
    """positional and keyword variables"""
    if r.random() < .04:
        # invalid
        return r.choice([dict(pos=[1]*5, kw={}), dict(pos=[], kw={'x': 1}),
                         dict(pos=[{'list': ['a', 'b']}], kw={}),
                         dict(pos=[1, 2], kw={'t': 1})])
    var = lookup(name)[2]
    if name in USER:
        vals = [gen_value(r) if r.random() < .95 or name != 'cls2' else 'bad'
                for _ in var]
        if name == 'fun2b':
            # y is keyword-only
            n = 1
        else:
            n = r.randint(0, 2 if name in ('cls1', 'sub1') else len(var))
        kw = {k: v for k, v in zip(var[n:], vals[n:])
              if k == 'x' or r.random() < .5}
        return dict(pos=vals[:n], kw=kw)
    if name in FUNCS:
        vals = [r.choice([round(r.uniform(.1, 1.5), 2),
                          {'array': [.4, 1.2]}]) for _ in var]
    elif name in SRC:
        vals = [r.choice([0, 1., round(r.uniform(0, 2), 2),
                          {'array': [0., .5, 1.]}]),
                r.choice([1, .5, round(r.uniform(0, 1), 2)])]
        if r.random() < .15:
            vals[1] = {'array': [.5, .25, 0.]}
    else:
        vals = [{'array': r.choice([[0., 1.], [0., .5, 1.5],
                                    [0., .1, .2, .3]])}]
    n = r.randint(0, len(vals))
    return dict(pos=vals[:n], kw=dict(zip(var[n:], vals[n:])))


def gen_fault(r, name):
    if r.random() > .2:
        return None
    if name in USER:
        seam = r.choice(['init', 'call', 'call'])
        k = r.choice([1, 1, 2])
    elif name in FUNCS:
        seam, k = 'alloc', r.randint(1, 8)
    else:
        seam = r.choice(['rng', 'rng', 'alloc', 'call'])
        k = r.choice([1, 1, 2, 3, 5, 10])
        if seam == 'alloc':
            k = r.randint(1, 60)
    f = dict(seam=seam, k=k)
    if seam == 'alloc':
        f['min'] = 9
    else:
        f['exc'] = r.choice(S.EXC_KINDS)
    return f


def generate(r, tier):
    k = r.random()
    if k < .4:
        pool = r.sample(sorted(USER), r.choice([1, 1, 2]))
    elif k < .6:
        pool = r.sample(FUNC_NAMES, r.choice([1, 1, 2]))
    elif k < .82:
        pool = r.sample(sorted(SRC), r.choice([1, 2]))
        if r.random() < .3:
            pool = r.choice([['dn', 'dj'], ['true_dn', 'true_dj'],
                             ['even_dn', 'even_dj']])
    else:
        pool = r.sample(sorted(PROC_PARAMS), 1) + \
            r.choice([[], ['dw'], ['true_dw']])
    ops, nodes = [], []
    n = r.choice([3, 6, 10] if tier == 'quick' else [5, 10, 25])
    if r.random() < .005:
        n = r.choice([40, 80])
    for _ in range(n):
        q = r.random()
        if not nodes or q < .2:
            name = r.choice(pool)
            if r.random() < .25:
                op = dict(op='call-class', name=name, vars=gen_vars(r, name))
            else:
                op = dict(op='new', name=name)
            op['params'] = gen_params(r, name, nodes, many=True)
        else:
            i = r.randrange(len(nodes))
            name = nodes[i]
            if q < .45:
                op = dict(op='derive', of=i,
                          params=gen_params(r, name, nodes))
            else:
                op = dict(op='eval', of=i, vars=gen_vars(r, name),
                          params=gen_params(r, name, nodes)
                          if r.random() < .5 else {})
        op['fault'] = gen_fault(r, name)
        if r.random() < .1:
            op['mutate'] = True
        ops.append(op)
        if op['op'] in ('new', 'derive'):
            nodes.append(name)
    return dict(config=dict(seed=r.randrange(2**31)), ops=ops)


# ---------------------------------------------------------------------------
# execution
# ---------------------------------------------------------------------------
class World:
    """One of: managed objects, plain ones"""

    def __init__(self, managed, seed, sm):
        self.managed = managed
        self.sm = sm
        self.rngs = [S.sim_rng(seed + i, sm, legacy=i % 2 == 1)
                     for i in range(4)]
        self.default = S.sim_rng(seed + 4, sm)
        self.nodes = []

    def all_rngs(self):
        return self.rngs + [self.default]

    def states(self):
        return [S.rng_state(x) for x in self.all_rngs()]

    def copy_states(self, other):
        for a, b in zip(self.all_rngs(), other.all_rngs()):
            if isinstance(a, np.random.RandomState):
                a.set_state(b.get_state(legacy=False))
            else:
                a.bit_generator.state = b.bit_generator.state

    def identity(self, x):
        """world-independent name of the objects of this world"""
        for i, y in enumerate(self.all_rngs()):
            if x is y:
                return ('rng', i)
        for i, y in enumerate(self.nodes):
            if y is not None and x is y:
                return ('node', i)
        return None


FN = {}


def value(v, world):
    if not isinstance(v, dict):
        return v
    (k, z), = v.items()
    key = repr(v)
    if k == 'rng':
        return world.rngs[z]
    if k == 'node':
        return world.nodes[z] if z < len(world.nodes) else None
    if key not in FN:
        FN[key] = (
            np.array(z, float) if k == 'array' else
            list(z) if k == 'list' else
            tuple(z) if k == 'tuple' else
            np.dtype(z) if k == 'dtype' else
            (lambda t: z[0] + z[1]*t) if k == 'fn' else
            sdepy.norm_rv(1., 2.) if z == 'norm' else
            sdepy.exp_rv(2.) if z == 'exp' else
            scipy.stats.uniform(0., 1.))
    return FN[key]


def values(d, world):
    return {k: value(v, world) for k, v in d.items()}


def equal(a, b, wa, wb):
    """a in world wa equals b in world wb"""
    if a is b:
        return True
    ia, ib = wa.identity(a), wb.identity(b)
    if ia is not None or ib is not None:
        return ia == ib
    if isinstance(a, BaseException) or isinstance(b, BaseException):
        return type(a) is type(b)
    if isinstance(a, dict) and isinstance(b, dict):
        return sorted(map(str, a)) == sorted(map(str, b)) and \
            all(k in b and equal(a[k], b[k], wa, wb) for k in a)
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return type(a) is type(b) and len(a) == len(b) and \
            all(equal(x, y, wa, wb) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        ta, tb = getattr(a, 't', None), getattr(b, 't', None)
        if (ta is None) != (tb is None) or \
                ta is not None and not np.array_equal(ta, tb):
            return False
        a, b = np.asarray(a), np.asarray(b)
        if a.dtype == object:
            return a is b
        return np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc')
    if isinstance(a, (np.ndarray, np.generic)) or \
            isinstance(b, (np.ndarray, np.generic)):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and np.array_equal(
            a, b, equal_nan=a.dtype.kind in 'fc' and b.dtype.kind in 'fc')
    try:
        if type(a) is type(b) and bool(a == b):
            return True
    except Exception:
        pass
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    # objects built separately in each world (processes standing for
    # callable parameters, random variables...)
    return type(a) is type(b) and type(a).__eq__ is object.__eq__ or \
        callable(a) and callable(b) and type(a) is type(b)


class Outcome:
    def __init__(self, val=None, exc=None):
        self.val, self.exc = val, exc

    def __repr__(self):
        return repr(self.exc if self.exc is not None else self.val)[:500]


def guarded(world, f, fault):
    """run f in a world, with a fault: outcome and fault fired"""
    SEAM[0] = sm = world.sm
    old, infra.default_rng = infra.default_rng, world.default
    sm.arm(fault)
    try:
        out = Outcome(val=f())
    except (Exception, S.InjectedInterrupt) as e:
        out = Outcome(exc=e)
    finally:
        fired = sm.disarm()
        infra.default_rng = old
        SEAM[0] = None
    return out, fired


def execute(case, ctx):
    cfg = case['config']
    sm = Seams(ctx)
    A, B = World(True, cfg['seed'], sm), World(False, cfg['seed'], sm)
    model = []         # (name, explicit params in A) of each node, or None
    sig = []
    stats = dict(derived=0, evals=0)
    FN.clear()

    def same_outcome(a, b, what):
        check(equal(a.exc, b.exc, A, B) if a.exc is not None or
              b.exc is not None else equal(a.val, b.val, A, B),
              'differs-from-plain', lambda: '%s: %r, plain: %r'
              % (what, a, b))
        check(A.states() == B.states(), 'generators-differ-from-plain',
              lambda: what)

    def check_params():
        for i, m in enumerate(model):
            if m is None:
                continue
            name, given = m
            K, plain, var, isclass = lookup(name)
            inst, ref = A.nodes[i], B.nodes[i]
            s = inspect.signature(plain.__init__ if isclass else
                                  plain).parameters
            want = {k: z.default for k, z in s.items()
                    if k != 'self' and z.kind != z.VAR_KEYWORD and
                    k not in (() if isclass else var)}
            want.update(given)
            if isclass and isinstance(ref, integration.SDE):
                want.update(ref.args)
            got = inst.params
            check(isinstance(got, dict) and equal(got, want, A, B_for(got)),
                  'wrong-params', lambda: 'instance %d of %s: %r, expected '
                  '%r' % (i, name, got, want))
            check(iskfunc(inst), 'not-a-kfunc')
            if isclass:
                check(isinstance(inst, plain) or name == 'sub1',
                      'wrong-class')
                for attr in ('paths', 'vshape', 'dtype', 'a', 'b', 'calls'):
                    if hasattr(ref, attr):
                        check(equal(getattr(inst, attr, None),
                                    getattr(ref, attr), A, B),
                              'wrong-attribute', lambda: '%s of instance '
                              '%d: %r, expected %r' % (
                                  attr, i, getattr(inst, attr, None),
                                  getattr(ref, attr)))

    class Both:
        """identity in either world: expected params mix explicit ones (of
        world A) and those of the plain object (of world B)"""
        def identity(self, x):
            y = A.identity(x)
            return y if y is not None else B.identity(x)
    both = Both()

    def B_for(got):
        return both

    def build(world, name, params):
        K, plain, var, isclass = lookup(name)
        if world.managed:
            return K(**params)
        return plain(**params) if isclass else None

    def run(world, op):
        if op['op'] == 'new':
            return build(world, op['name'], values(op['params'], world))
        params = values(op.get('params', {}), world)
        pos = [value(v, world) for v in op['vars']['pos']] \
            if 'vars' in op else []
        kw = values(op['vars']['kw'], world) if 'vars' in op else {}
        if op['op'] == 'call-class':
            K, plain, var, isclass = lookup(op['name'])
            if world.managed:
                return K(*pos, **kw, **params)
            return plain(**params)(*pos, **kw) if isclass else \
                plain(*pos, **kw, **params)
        i = op['of']
        name, given = model[i]
        K, plain, var, isclass = lookup(name)
        if world.managed:
            return world.nodes[i](*pos, **kw, **params)
        merged = {k: from_a(v) for k, v in given.items()}
        merged.update(params)
        if op['op'] == 'derive':
            if not params:
                # evaluation with no variables
                return world.nodes[i]() if isclass else plain(**merged)
            return plain(**merged) if isclass else None
        if not isclass:
            return plain(*pos, **kw, **merged)
        if not params:
            return world.nodes[i](*pos, **kw)
        return plain(**merged)(*pos, **kw)

    def from_a(v):
        """object of world A as the corresponding one of world B"""
        n = A.identity(v)
        if n is None:
            return v
        return B.all_rngs()[n[1]] if n[0] == 'rng' else B.nodes[n[1]]

    def ambiguous(op):
        """variables and parameters passed together have the same names, or
        no variables are given to evaluate: not a valid use"""
        if 'vars' not in op:
            return False
        return not op['vars']['pos'] and not op['vars']['kw'] or \
            set(op['vars']['kw']) & set(op['params'])

    def resolves(op):
        """nodes referred to exist"""
        for v in list(op.get('params', {}).values()):
            if isinstance(v, dict) and 'node' in v and (
                    v['node'] >= len(model) or model[v['node']] is None):
                return False
        return True

    def step(op):
        if 'of' in op and (op['of'] >= len(model) or
                           model[op['of']] is None):
            if op['op'] == 'derive':
                add(None, None, None)
            return
        makes = op['op'] in ('new', 'derive')
        if ambiguous(op) or not resolves(op):
            if makes:
                add(None, None, None)
            return
        name = op.get('name') or model[op['of']][0]
        K, plain, var, isclass = lookup(name)
        if 'vars' in op and set(op['vars']['kw']) - set(var):
            # names neither of variables nor of parameters
            if name in ('fun3', 'cls2') or isclass or not (
                    op['vars']['pos'] or set(op['vars']['kw']) & set(var)):
                return
        fault = op.get('fault')
        what = '%s %s' % (op['op'], name)
        if op['op'] == 'derive' and not op['params']:
            fault = None
        memory = isclass and name.startswith('true') or any(
            isinstance(v, dict) and 'node' in v
            for v in op.get('params', {}).values()) or any(
            A.identity(v) is not None and A.identity(v)[0] == 'node'
            for v in (model[op['of']][1] if 'of' in op else {}).values())
        if fault and fault['seam'] == 'alloc':
            if memory:
                fault = None
            else:
                a, fired = guarded(A, lambda: run(A, op), fault)
                if fired:
                    # (unless recovered from)
                    A.copy_states(B)
                    check_params()
                    sig.append(('alloc', op['op'], fault['k']))
                else:
                    # evaluated without faults, on the managed side
                    b, _ = guarded(B, lambda: run(B, op), None)
                    conclude(op, a, b, what, name)
                    return
                fault = None
        a, fa = guarded(A, lambda: run(A, op), fault)
        b, fb = guarded(B, lambda: run(B, op), fault)
        if fb is not None and b.exc is fb:
            check(fa is not None and a.exc is fa, 'failure-not-propagated',
                  lambda: '%s: %r, plain: %r' % (what, a, b))
            check(A.states() == B.states(), 'generators-differ-from-plain',
                  lambda: what)
            if makes:
                add(None, None, None)
            check_params()
            sig.append((op['op'], name, 'failed', fault))
            return
        conclude(op, a, b, what, name)

    def add(m, a, b):
        model.append(m)
        A.nodes.append(a)
        B.nodes.append(b)

    def conclude(op, a, b, what, name):
        K, plain, var, isclass = lookup(name)
        if op['op'] == 'eval' or op['op'] == 'call-class' or \
                op['op'] == 'derive' and not op['params']:
            same_outcome(a, b, what)
            stats['evals'] += b.exc is None
            if op['op'] == 'derive':
                add(None, None, None)
            ctx.event(what, type(a.exc).__name__, np.asarray(a.val)
                      if isinstance(a.val, (np.ndarray, float)) else
                      type(a.val).__name__)
            ctx.event(*A.states())
        else:
            if b.exc is not None:
                same_outcome(a, b, what)
                add(None, None, None)
            else:
                if a.exc is not None:
                    check(False, 'differs-from-plain',
                          lambda: '%s: %r, plain: %r' % (what, a, b))
                check(A.states() == B.states(),
                      'generators-differ-from-plain', lambda: what)
                given = values(op['params'], A)
                if op['op'] == 'derive':
                    given = {**model[op['of']][1], **given}
                    stats['derived'] += 1
                    check(all(a.val is not x for x in A.nodes),
                          'derived-is-not-new')
                add((name, given), a.val, b.val)
        check_params()
        sig.append((op['op'], name, op.get('of'), sorted(op['params']),
                    b.exc is None))

    for op in case['ops']:
        step(op)
        if op.get('mutate'):
            # dictionaries handed out are the user's own
            for x in A.nodes:
                if x is not None:
                    x.params.clear()
                    x.params['a'] = 'mutated'
            check_params()
    # finally, evaluate all instances
    for i, m in enumerate(model):
        if m is not None:
            var = lookup(m[0])[2]
            vals = dict(timeline={'array': [0., 1.]}, t=.5, x=.7, dt=.25,
                        u=.5, K=1., T=1., y=2)
            kw = {k: vals.get(k, 1.) for k in var}
            step(dict(op='eval', of=i, params={}, vars=dict(pos=[], kw=kw)))
    ctx.count('derived', stats['derived'])
    ctx.count('evaluations', stats['evals'])
    ctx.time(stats['evals'])
    ctx.nontrivial = stats['derived'] > 0 and stats['evals'] > 0
    ctx.state(sig)
