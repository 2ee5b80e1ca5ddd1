"""The seams: everything nondeterministic or fallible that sdepy touches goes
through one of these objects, each controlled by the simulator."""
import importlib.util
import os
import subprocess
import sys
import sysconfig

import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
BUILD = os.path.join(VERIF, 'build')


# ---------------------------------------------------------------------------
# numpy allocator
# ---------------------------------------------------------------------------
def build_allocfault():
    ext = sysconfig.get_config_var('EXT_SUFFIX')
    out = os.path.join(BUILD, 'allocfault' + ext)
    src = os.path.join(HERE, 'csrc', 'allocfault.c')
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = out + '.tmp%d' % os.getpid()
    subprocess.check_call(
        ['gcc', '-O1', '-shared', '-fPIC', '-o', tmp, src,
         '-I' + sysconfig.get_paths()['include'],
         '-I' + np.get_include()])
    os.replace(tmp, out)
    return out


_alloc = None


def alloc():
    """The allocator seam (installed on first use in this process)."""
    global _alloc
    if _alloc is None:
        path = build_allocfault()
        spec = importlib.util.spec_from_file_location('allocfault', path)
        _alloc = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(_alloc)
        _alloc.install()
    return _alloc


# ---------------------------------------------------------------------------
# faults
# ---------------------------------------------------------------------------
class InjectedError(Exception):
    pass


class InjectedValueError(InjectedError, ValueError):
    pass


class InjectedArithmeticError(InjectedError, ArithmeticError):
    pass


class InjectedMemoryError(InjectedError, MemoryError):
    pass


class InjectedLookupError(InjectedError, LookupError):
    pass


class InjectedOSError(InjectedError, OSError):
    pass


class InjectedTypeError(InjectedError, TypeError):
    pass


class InjectedAttributeError(InjectedError, AttributeError):
    pass


class InjectedStop(InjectedError, StopIteration):
    pass


class InjectedInterrupt(KeyboardInterrupt):
    """A user interrupt delivered inside a callback."""


EXC = dict(error=InjectedError, value=InjectedValueError,
           arith=InjectedArithmeticError, memory=InjectedMemoryError,
           lookup=InjectedLookupError, os=InjectedOSError,
           type=InjectedTypeError, attribute=InjectedAttributeError,
           stop=InjectedStop, interrupt=InjectedInterrupt)
EXC_KINDS = sorted(EXC)
ALL_INJECTED = (InjectedError, InjectedInterrupt)


class Seams:
    """Fault dispatcher.  A fault is dict(seam=, k=, exc=): the k-th call to
    that seam after arm() raises.  seam 'alloc' goes to numpy's allocator."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.fault = None
        self.left = 0
        self.injected = None
        self.calls = {}
        self.hook = None      # called at each seam crossing (interleaving)

    def arm(self, fault):
        self.injected = None
        self.calls = {}
        self.fault = fault
        self.left = fault['k'] if fault else 0
        if fault and fault['seam'] == 'alloc':
            alloc().arm(fault['k'], fault.get('min', 0))

    def disarm(self):
        """Returns the injected exception, or True for a fired allocation
        fault, or None if the fault did not fire."""
        f, self.fault = self.fault, None
        res = self.injected
        if f and f['seam'] == 'alloc':
            seen, fired = alloc().disarm()
            res = True if fired else None
        if f:
            self.ctx.count(('fault_fired:' if res is not None
                            else 'fault_not_reached:') + f['seam'])
        return res

    def call(self, seam):
        self.calls[seam] = self.calls.get(seam, 0) + 1
        f = self.fault
        if f is not None and f['seam'] == seam and self.injected is None:
            self.left -= 1
            if self.left == 0:
                self.injected = EXC[f.get('exc', 'error')](
                    'injected at call %d of %s' % (f['k'], seam))
                raise self.injected
        if self.hook is not None:
            self.hook(seam)

    def wrap(self, seam, f):
        def wrapped(*a, **k):
            self.call(seam)
            return f(*a, **k)
        return wrapped


# ---------------------------------------------------------------------------
# random generators
# ---------------------------------------------------------------------------
RNG_METHODS = ('normal', 'standard_normal', 'multivariate_normal', 'poisson',
               'binomial', 'uniform', 'random', 'exponential',
               'standard_exponential', 'integers', 'choice', 'gamma',
               'standard_gamma', 'hypergeometric', 'multinomial',
               'multivariate_hypergeometric', 'permutation', 'permuted',
               'shuffle', 'bytes', 'geometric')
LEGACY_METHODS = ('normal', 'standard_normal', 'multivariate_normal',
                  'poisson', 'binomial', 'uniform', 'random_sample', 'rand',
                  'randn', 'random', 'exponential', 'standard_exponential',
                  'randint', 'choice', 'gamma', 'standard_gamma',
                  'hypergeometric', 'multinomial', 'permutation', 'shuffle',
                  'bytes', 'geometric')


def _mk(base, names):
    def method(name):
        def f(self, *a, **k):
            self._seams.call('rng')
            return getattr(super(cls, self), name)(*a, **k)
        f.__name__ = name
        return f
    cls = type('Sim' + base.__name__, (base,), {})
    for n in names:
        if hasattr(base, n):
            setattr(cls, n, method(n))
    return cls


SimGenerator = _mk(np.random.Generator, RNG_METHODS)
SimRandomState = _mk(np.random.RandomState, LEGACY_METHODS)


def sim_rng(seed, seams, legacy=False):
    """A seeded generator, every draw of which is a crossing of the 'rng'
    seam."""
    if legacy:
        r = SimRandomState(seed % (2**32))
    else:
        r = SimGenerator(np.random.PCG64(seed))
    r._seams = seams
    return r


DEFAULT = object()    # stands for: no generator given


def plain_rng(seed, legacy=False):
    return np.random.RandomState(seed % (2**32)) if legacy \
        else np.random.Generator(np.random.PCG64(seed))


def rng_state(r):
    """Hashable snapshot of a generator's state."""
    if isinstance(r, np.random.RandomState):
        s = r.get_state(legacy=False)
        return repr((s['bit_generator'], s['state']['key'].tobytes(),
                     s['state']['pos'], s['has_gauss'], s['gauss']))
    return repr(r.bit_generator.state)


# ---------------------------------------------------------------------------
# scripted generator: exact oracle for Gaussian laws
# ---------------------------------------------------------------------------
class BasisExhausted(Exception):
    pass


class BasisRng(np.random.RandomState):
    """Hands out, instead of standard normal samples, the vectors of a basis:
    scalar draw number q (one per entry of all the axes but the paths' one) is
    1 on path number q and 0 on all others.  The code under test, linear in
    its normal draws and identical on each path, then yields along the paths
    axis the coefficients of each value on independent standard normals: the
    covariance of two values is the scalar product of their paths, exactly.

    mode 'basis': as above;  mode 'single': true random normals on path `only`
    and 0 elsewhere (detects any mixing between paths)."""

    def __init__(self, seed, paths, mode='basis', only=0):
        super().__init__(seed)
        self.paths, self.mode, self.only = paths, mode, only
        self.next_basis = 0
        self.other_draws = 0

    def _std(self, shape):
        shape = tuple(int(k) for k in np.atleast_1d(shape)) \
            if shape is not None else ()
        axes = [a for a in range(len(shape)) if shape[a] == self.paths]
        out = np.zeros(shape)
        if not axes:
            raise BasisExhausted('no paths axis in draw of shape %r'
                                 % (shape,))
        a = axes[-1]
        z = np.moveaxis(out, a, -1)
        if self.mode == 'basis':
            n = out.size//self.paths
            if self.next_basis + n > self.paths:
                raise BasisExhausted('more normal draws than paths')
            zz = np.zeros((n, self.paths))
            zz[np.arange(n), self.next_basis + np.arange(n)] = 1.
            self.next_basis += n
            z[...] = zz.reshape(z.shape)
        else:
            z[..., self.only] = super().standard_normal(z.shape[:-1])
        return out

    def standard_normal(self, size=None, *a, **k):
        return self._std(size)

    def normal(self, loc=0., scale=1., size=None):
        if size is None:
            size = np.broadcast(loc, scale).shape
        return loc + scale*self._std(size)

    def randn(self, *shape):
        return self._std(shape)

    def multivariate_normal(self, mean, cov, size=None, *a, **k):
        mean, cov = np.asarray(mean, float), np.asarray(cov, float)
        M = mean.shape[0]
        if size is None:
            size = ()
        shape = tuple(int(i) for i in np.atleast_1d(size)) + (M,)
        e = self._std(shape)
        # same construction as numpy
        u, s, v = np.linalg.svd(cov)
        return mean + e @ (np.sqrt(s)[:, None]*v)
