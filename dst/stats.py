"""Statistical oracles: thresholds of 7 to 8 standard deviations, applied only
where the normal approximation is safe."""
import numpy as np

from .core import check
from .srcgen import Y_ALIAS


def z_mean(x, mu, what, ctx, thr=8., sd=None):
    n = x.size
    if n == 0:
        return
    s = np.std(x) if sd is None else sd
    if s == 0:
        check(abs(x.mean() - mu) < 1e-9*(1 + abs(mu)), 'law', what)
        return
    z = (x.mean() - mu)/(s/np.sqrt(n))
    ctx.count('statistics')
    check(abs(z) < thr, 'law',
          lambda: '%s: mean %g, expected %g (%.1f standard errors, n=%d)'
          % (what, x.mean(), mu, z, n))


def z_prob(hits, p, what, ctx, thr=8.):
    n = hits.size
    if n*p < 200 or n*(1-p) < 200:
        return
    z = (hits.mean() - p)/np.sqrt(p*(1-p)/n)
    ctx.count('statistics')
    check(abs(z) < thr, 'law',
          lambda: '%s: frequency %g, expected %g (%.1f standard errors)'
          % (what, hits.mean(), p, z))


def z_uncorrelated(x, y, what, ctx, events, sd, thr=8.):
    """x, y centered samples of zero expected covariance; events: expected
    number of paths where both are nonzero before centering; sd: expected
    standard deviation of the product"""
    if events < 400 or sd == 0:
        return
    z = np.mean(x*y)/(sd/np.sqrt(x.size))
    ctx.count('statistics')
    check(abs(z) < thr, 'law',
          lambda: '%s: correlated (%.1f standard errors)' % (what, z))


def poisson_pmf(k, m):
    from math import exp, factorial
    return exp(-m)*m**k/factorial(k)


def check_poisson(x, m, what, ctx):
    """x integer sample expected to be iid Poisson of mean m"""
    check((x == np.round(x)).all() and (x >= 0).all(), 'law',
          what + ': not a sample of counts')
    n = x.size
    if m == 0:
        check((x == 0).all(), 'law', what + ': jumps in an empty interval')
        return
    if n*m < 200:
        return
    z_mean(x.astype(float), m, what, ctx, sd=np.sqrt(m))
    for k in range(6):
        z_prob(x == k, poisson_pmf(k, m), '%s: P(n=%d)' % (what, k), ctx)
    z_prob(x >= 6, 1 - sum(poisson_pmf(k, m) for k in range(6)),
           what + ': P(n>=6)', ctx)
    xc = x - m
    z_uncorrelated(xc[1:], xc[:-1], what + ': adjacent paths', ctx, n*m*m, m)


# exact first two moments and distribution function of the jump sizes
def y_moments(kind):
    kind = Y_ALIAS.get(kind, kind)
    return {'ones': (1., 0.), 'zero': (0., 0.), 'pm1': (0., 1.),
            'mix0': (.25, 1/6 - 1/16), 'uniform': (.75, 2.5**2/12),
            'norm': (.3, 2.25), 'exp': (.7, .49), 'negexp': (-.7, .49),
            'dexp': (.4*.5 - .6*.8,
                     .4*2*.25 + .6*2*.64 - (.4*.5 - .6*.8)**2),
            'default': (.5, 1/12), 'callones': (1., 0.),
            'norm0': (0., 1.), 'uniform0': (.5, 1/12), 'exp0': (1., 1.),
            'dexp0': (0., 2.), 'rvmap': (1 + 1/3, 1/5 - 1/9)}.get(kind)


def y_cdf(kind, x):
    from math import erf, exp, sqrt
    kind = Y_ALIAS.get(kind, kind)
    if kind == 'uniform':
        return min(max((x + .5)/2.5, 0.), 1.)
    if kind in ('default', 'uniform0'):
        return min(max(x, 0.), 1.)
    if kind == 'norm0':
        return (1 + erf(x/sqrt(2)))/2
    if kind == 'exp0':
        return 1 - exp(-x) if x > 0 else 0.
    if kind == 'dexp0':
        return .5*exp(x) if x < 0 else 1 - .5*exp(-x)
    if kind == 'norm':
        return (1 + erf((x - .3)/1.5/sqrt(2)))/2
    if kind == 'exp':
        return 1 - exp(-x/.7) if x > 0 else 0.
    if kind == 'negexp':
        return exp(x/.7) if x < 0 else 1.
    if kind == 'dexp':
        return .6*exp(x/.8) if x < 0 else .6 + .4*(1 - exp(-x/.5))
    if kind == 'rvmap':
        return sqrt(min(max(x - 1, 0.), 1.))
    if kind == 'mix0':
        return 0. if x < 0 else min(.5 + x/2, 1.)
    if kind == 'pm1':
        return 0. if x < -1 else .5 if x < 1 else 1.
    return None


def check_y(x, kind, what, ctx):
    """x: sample of single jumps"""
    mv = y_moments(kind)
    if mv is None or x.size < 500:
        return
    mu, var = mv
    if var == 0:
        check((np.abs(x - mu) <= 1e-9).all(), 'law', what + ': jump sizes')
        return
    z_mean(x, mu, what + ': jump size', ctx, sd=np.sqrt(var))
    for q in (-1.3, -.5, -.2, .1, .3, .6, 1.05, 1.2, 1.5):
        p = y_cdf(kind, q)
        if p is not None:
            z_prob(x <= q, p, '%s: P(y<=%g)' % (what, q), ctx)


def check_compound(j, n, m, kind, what, ctx):
    """j: increments, n: counts (same shape), m: Poisson mean"""
    mv = y_moments(kind)
    # (differences of stored values carry rounding errors)
    check((np.abs(j[n == 0]) <= 1e-9*(1 + np.abs(j).max(initial=0.))).all(),
          'law', what + ': nonzero increment without jumps')
    check_y(j[n == 1], kind, what, ctx)
    if mv is None or n.size*m < 500:
        return
    mu, var = mv
    e2 = var + mu*mu
    z_mean(j, m*mu, what + ': compound mean', ctx,
           sd=np.sqrt(m*e2) if e2 else None)
    # conditional on the counts, E[j|n] = n*mu, Var[j|n] = n*var
    d = j - n*mu
    ok = n > 0
    z_mean(d[ok], 0., what + ': mean given counts', ctx,
           sd=np.sqrt(max(var, 1e-30)*n[ok].mean()) if var else None)
    if var and ok.sum() > 2000:
        z_mean(d[ok]**2/n[ok], var, what + ': variance given counts', ctx)
