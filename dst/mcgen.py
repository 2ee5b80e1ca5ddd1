"""Histories of Monte Carlo updates, reads and indexings (P14, P15)."""
import numpy as np

import sdepy

from .core import arr, check, same


def gen_config(r):
    vshape = r.choice([[], [], [1], [2], [3], [2, 2], [1, 3], [3, 1, 2]])
    bins = r.choice(['int', 'int', 'str', 'array', 'array', 'object',
                     'none', 'default'])
    return dict(vshape=vshape, bins=bins,
                nbins=r.choice([1, 3, 3, 10, 10, r.choice([40, 64, 150])]),
                rule=r.choice(['auto', 'sqrt', 'fd', 'sturges']),
                range=r.choice([None, None, [-1.5, 1.5]])
                if bins in ('int', 'str') else None,
                use=r.choice(['all', 'all', 'even', 'odd']),
                dtype=r.choice([None]*5 + ['float64', 'float32']),
                ctype=r.choice([None]*6 + ['int32', 'float64']),
                law=r.choice(['normal', 'normal', 'integers', 'exp',
                              'ties', 'const', 'offset']),
                seed=r.randrange(2**31))


# data types of samples, of limited range
SMALL = ('int8', 'uint8', 'int16', 'bool')


def gen_update(r, cfg, first):
    vs = cfg['vshape']
    op = dict(op='update', m=r.choice([1]*6 + [2, 3, 5, 20]*3 + [150, 280]),
              seed=r.randrange(2**31), axis=-1,
              form=r.choice(['array', 'array', 'list', 'process',
                             'noncontiguous', 'int', 'float32',
                             'readonly'] + ([r.choice(SMALL)]
                                            if r.random() < .3 else [])),
              shift=r.choice([0., 0., 1., -3.]),
              scale=r.choice([1., 1., .1, 5.]))
    if r.random() < .06:
        op['m'] = 0
    if first:
        op['m'] = max(op['m'], r.choice([1, 2, 3]))
        if cfg['law'] == 'const' and r.random() < .5:
            op['shift'] = 0.
    shape = list(vs)
    if not first and r.random() < .3:
        # broadcastable shapes
        k = r.random()
        if k < .5:
            shape = shape[r.randint(0, len(shape)):]
        shape = [1 if r.random() < .4 else s for s in shape]
    op['shape'] = shape
    op['axis'] = r.choice([-1, -1, r.randrange(-1 - len(shape),
                                               len(shape) + 1)])
    return op


def sample_data(cfg, op):
    """Sample with paths along the last axis: shape + (m,), (2m,) if made of
    antithetics"""
    g = np.random.RandomState(op['seed'])
    m = op['m']*(1 if cfg['use'] == 'all' else 2)
    shape = tuple(op['shape']) + (m,)
    law = cfg['law']
    if law == 'normal':
        x = g.normal(size=shape)
    elif law == 'integers':
        x = g.randint(-3, 4, size=shape).astype(float)
    elif law == 'exp':
        x = g.exponential(size=shape)
    elif law == 'ties':
        x = g.choice([-1., 0., 0., .5], size=shape)
    elif law == 'const':
        x = np.full(shape, .25)
    else:
        x = 1e5 + g.normal(size=shape)
    if law in ('normal', 'exp', 'const'):
        x = x*op['scale'] + op['shift']
    elif law != 'offset':
        x = x + op['shift']
    if op['form'] == 'int':
        x = np.round(x).astype(int)
    # (rules for bins overflow the small integer types, in numpy)
    if op['form'] in SMALL and law != 'offset' and cfg['bins'] != 'str':
        k = np.iinfo(op['form']).max if op['form'] != 'bool' else 1
        lo = -k if op['form'].startswith('int') else 0
        # values across all of the range
        x = np.clip(np.round(x*k/4 if op['seed'] % 2 else x), lo, k) \
            .astype(op['form'])
    if op['form'] == 'float32' and law != 'offset':
        x = x.astype(np.float32)
    return x


def present(cfg, op, x):
    """The sample as passed to update, given x with paths as last axis"""
    f = op['form']
    x = np.moveaxis(x, -1, op['axis'])
    if f == 'list' and x.size:
        return x.tolist()
    if f == 'process' and x.ndim >= 2 and x.size and \
            np.result_type(x) != int:
        return sdepy.process(t=np.arange(len(x)), x=np.array(x))
    if f == 'noncontiguous':
        y = np.empty(x.shape[:-1] + (2*x.shape[-1],))
        y[..., ::2] = x
        return y[..., ::2]
    if f == 'readonly':
        x = np.array(x)
        x.flags.writeable = False
    return x


def effective(cfg, op, x):
    """Data points after antithetics sampling, broadcast to vshape"""
    if x.dtype.kind in 'iub':
        x = x.astype(float)
    if cfg['use'] != 'all':
        n = x.shape[-1]//2
        a, b = x[..., :n], x[..., n:]
        x = (a + b)/2 if cfg['use'] == 'even' else (a - b)/2
    return np.array(np.broadcast_to(x, tuple(cfg['vshape']) +
                                    x.shape[-1:]), float)


def make_bins(cfg):
    """the bins argument"""
    b, vs = cfg['bins'], tuple(cfg['vshape'])
    g = np.random.RandomState(cfg['seed'] % 1000)
    if b == 'int':
        return cfg['nbins']
    if b == 'str':
        return cfg['rule']
    if b == 'none':
        return None
    off = 1e5 if cfg['law'] == 'offset' and cfg['use'] != 'odd' else 0.
    if b == 'array':
        e = np.sort(np.round(g.uniform(-3, 3, vs + (cfg['nbins'] + 1,)), 1) +
                    np.arange(cfg['nbins'] + 1)*.01, axis=-1)
        if cfg['seed'] % 5 == 1:
            # integer edges
            e = np.cumsum(g.randint(1, 3, vs + (cfg['nbins'] + 1,)),
                          axis=-1) - 4
            off = int(off)
        return (e + off).tolist() if cfg['seed'] % 3 == 0 else e + off
    e = np.empty(vs, dtype=object)
    for i in np.ndindex(vs):
        n = g.randint(2, 6) if cfg['seed'] % 7 else g.randint(60, 90)
        e[i] = np.cumsum(g.uniform(.1, 2., n)) - 3. + off
    return e


def create(cfg):
    kw = dict(use=cfg['use'])
    if cfg['bins'] != 'default':
        kw['bins'] = make_bins(cfg)
    if cfg['range']:
        kw['range'] = tuple(cfg['range'])
    if cfg['dtype']:
        kw['dtype'] = np.dtype(cfg['dtype'])
    if cfg['ctype']:
        kw['ctype'] = np.dtype(cfg['ctype'])
    if cfg['bins'] == 'object' and not cfg['vshape']:
        kw['bins'] = kw['bins'][()]
    return kw


def components(cfg):
    return list(np.ndindex(tuple(cfg['vshape'])))


def component(mc, i):
    return mc[i] if i else mc


STATS = ('mean', 'var', 'std', 'skew', 'kurtosis', 'stderr')


def snapshot(cfg, mc):
    """Everything a user can see, as a dictionary of arrays"""
    out = dict(paths=mc.paths)
    if mc.paths == 0:
        out['mean'] = mc.mean()
        for f in (lambda: mc.vshape, mc.histogram):
            try:
                f()
                check(False, 'empty-object-has-data')
            except ValueError:
                pass
        return out
    out['vshape'], out['shape'] = mc.vshape, mc.shape
    for s in STATS:
        out[s] = np.array(getattr(mc, s)())
    out['repr'] = repr(mc)
    if cfg['bins'] != 'none':
        for i in components(cfg):
            c = component(mc, i)
            counts, bins = c.histogram()
            out['h', i] = counts
            out['bins', i] = bins
            out['out', i] = np.array(c.outpaths)
            out['outerr', i] = np.array(c.outerr())
    return out


def same_snapshot(a, b):
    if sorted(map(str, a)) != sorted(map(str, b)):
        return False
    for k in a:
        x, y = a[k], b[k]
        if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
            if x is None or y is None or not same(x, y) or \
                    x.dtype != y.dtype:
                return False
        elif x != y and not (x is y):
            return False
    return True


def differences(a, b):
    return {k: (a.get(k), b.get(k)) for k in set(a) | set(b)
            if not same_snapshot({k: a.get(k)}, {k: b.get(k)})}


class Pool:
    """Model: all data points"""

    def __init__(self, cfg):
        self.cfg = cfg
        self.data = []
        self.bins = None
        self.single = False

    @property
    def paths(self):
        return sum(x.shape[-1] for x in self.data)

    def add(self, x):
        """x: shape vshape + (m,)"""
        if x.shape[-1]:
            self.data.append(x)

    def first_bins(self, mc):
        """bins fixed at the first update"""
        cfg = self.cfg
        if self.bins is not None or cfg['bins'] == 'none' or not self.data:
            return
        given = 100 if cfg['bins'] == 'default' else make_bins(cfg)
        self.bins = {}
        for i in components(cfg):
            got = component(mc, i).histogram()[1]
            if cfg['bins'] in ('array', 'object'):
                if isinstance(given, list):
                    given = np.array(given)
                want = given[i] if i or given.dtype == object else given
                want = np.asarray(want, float)
            else:
                want = np.histogram_bin_edges(
                    self.data[0][i], bins=given,
                    range=tuple(cfg['range']) if cfg['range'] else None)
            got = arr(got, 'bins')
            check(got.shape == want.shape and np.allclose(
                got, want, rtol=1e-5, atol=1e-6*(1 + np.abs(want).max())),
                'wrong-bins', lambda: '%r, expected %r' % (got, want))
            # counts are checked against the edges reported
            self.bins[i] = np.array(got)

    def verify(self, mc, ctx):
        cfg = self.cfg
        vs = tuple(cfg['vshape'])
        n = self.paths
        check(mc.paths == n, 'wrong-paths',
              lambda: '%r, expected %d' % (mc.paths, n))
        if n == 0:
            check(mc.mean() is None, 'wrong-mean', repr(mc.mean()))
            return
        check(tuple(mc.vshape) == vs and tuple(mc.shape) == vs + (n,),
              'wrong-shape', lambda: '%r %r' % (mc.vshape, mc.shape))
        pool = np.concatenate(self.data, axis=-1)
        center = self.data[0].mean(axis=-1, keepdims=True)
        scale = np.abs(pool - center).max(axis=-1)
        scale = np.maximum(scale, 1e-9*np.abs(pool).max(axis=-1)) + 1e-300
        eps = 1e-8 if self.eps() < 1e-10 else 1e-3
        mean, var = pool.mean(axis=-1), pool.var(axis=-1)

        def near(got, want, tol, what):
            got = arr(got, what, vs)
            ok = np.abs(got - want) <= tol
            check(ok.all(), 'wrong-' + what, lambda: '%r, expected %r'
                  % (got, want))
        tolm = eps*(scale + (np.abs(mean) if eps > 1e-6 else
                             1e-5*np.abs(mean)))
        near(mc.mean(), mean, tolm, 'mean')
        near(mc.m, mean, tolm, 'mean')
        if eps > 1e-6:
            # single precision: center rounded to single precision
            scale = scale + 1e-6*np.abs(mean)
        near(mc.var(), var, eps*scale**2, 'var')
        # relative accuracy of the variance
        good = var > 1e-2*scale**2
        sd = np.sqrt(var)
        tol = np.where(good, 100*eps*sd, np.inf)
        near(np.where(good, mc.std(), 0.), np.where(good, sd, 0.), tol,
             'std')
        near(np.where(good, mc.s, 0.), np.where(good, sd, 0.), tol, 'std')
        if n >= 2:
            e = sd/np.sqrt(n - 1)
            near(np.where(good, mc.stderr(), 0.), np.where(good, e, 0.),
                 tol, 'stderr')
            near(np.where(good, mc.e, 0.), np.where(good, e, 0.), tol,
                 'stderr')
            z = (pool - mean[..., np.newaxis])
            with np.errstate(all='ignore'):
                skew = (z**3).mean(axis=-1)/var**1.5
            near(np.where(good, mc.skew(), 0.), np.where(good, skew, 0.),
                 1e4*eps*(1 + np.abs(np.where(good, skew, 0.))), 'skew')
            with np.errstate(all='ignore'):
                kurt = (z**4).mean(axis=-1)/var**2
            near(np.where(good, mc.kurtosis(), 0.), np.where(good, kurt, 0.),
                 1e5*eps*(1 + np.abs(np.where(good, kurt, 0.))), 'kurtosis')
        stats = mc.stats
        check(sorted(stats) == sorted(['mean', 'stderr', 'std', 'skew',
                                       'kurtosis']) and
              all(same(np.asarray(stats[k]), np.asarray(getattr(mc, k)()))
                  for k in stats), 'stats-mismatch', lambda: repr(stats))
        self.first_bins(mc)
        if self.bins is None:
            return
        for i in components(cfg):
            c = component(mc, i)
            counts, bins = c.histogram()
            b = self.bins[i]
            check(same(bins, b), 'bins-changed', lambda: '%r, were %r'
                  % (bins, b))
            want = sum(np.histogram(x[i], bins=b)[0] for x in self.data)
            # points on the edges of equal-width bins, but for rounding
            slack = 0
            if cfg['bins'] in ('int', 'str', 'default'):
                x = pool[i]
                w = 1e-9*(np.abs(b).max() + b[-1] - b[0])
                slack = int((np.abs(x[:, None] - b[None, :]) < w).any(
                    axis=1).sum())
            counts = arr(counts, 'counts', want.shape)
            err = np.abs(counts - want).sum()
            check(err <= 2*slack, 'wrong-counts', lambda:
                  'component %r: %r, expected %r' % (i, counts, want))
            o = int(c.outpaths)
            check(counts.sum() + o == n, 'counts-do-not-add-up', lambda:
                  '%r + %r != %d' % (counts.sum(), o, n))
            check(abs(o - (n - want.sum())) <= slack, 'wrong-outpaths',
                  lambda: '%r, expected %r' % (o, n - want.sum()))
            check(abs(float(c.outerr()) - o/n) < 1e-12, 'wrong-outerr')
            if counts.sum():
                d, b2 = c.density_histogram()
                w = np.diff(b) > 0
                check(same(b2, b) and np.allclose(
                    (d*np.diff(b))[w], counts[w]/counts.sum(), 1e-9, 1e-12),
                    'wrong-density', lambda: '%r, counts %r' % (d, counts))

    def eps(self):
        cfg = self.cfg
        if cfg['dtype'] == 'float32' or self.single:
            return 1e-7
        return 1e-16


def read(mc, cfg, what, r):
    """Use of summaries without side effects"""
    if mc.paths == 0:
        mc.mean(), repr(mc), mc.paths
        return []
    got = []
    if what == 'stats':
        got = list(mc.stats.values())
    elif what == 'mean':
        got = [mc.mean(), mc.var()]
    elif what == 'repr':
        repr(mc)
    elif what in ('hist', 'pdf', 'density') and cfg['bins'] != 'none':
        for i in components(cfg):
            c = component(mc, i)
            h = c.histogram()
            got += [h[0], h[1], c.outpaths]
            if h[0].sum() == 0 or what == 'hist':
                continue
            if what == 'density':
                got += list(c.density_histogram()) + list(c.dh) + list(c.h)
            elif len(h[1]) > 2:
                x = np.linspace(h[1][0], h[1][-1], 3)
                got += [c.pdf(x), c.cdf(x), c.pdf(x, method='interp')]
    elif what == 'index' and cfg['vshape']:
        v = mc[0]
        got = [v.mean(), v.var()]
        mc[:1].mean()
        mc[..., 0].mean() if cfg['bins'] == 'none' else None
    return got


READS = ('stats', 'mean', 'repr', 'hist', 'pdf', 'density', 'index')


def mutate(got):
    """scribble over arrays handed out (they should be copies)"""
    for x in got:
        if isinstance(x, np.ndarray) and x.ndim and x.flags.writeable:
            x[...] = -77
