"""P02: the joint law of a source with memory does not depend on the order of
the queries."""
import numpy as np

from . import srcgen as G
from . import stats as ST
from .core import Skip, arr, check
from .seams import BasisExhausted, BasisRng

ID = 'P02'
LEVEL = 'exploration'
QUICK = 14000
RULE = ('a case is a source with memory and a seeded order of queries at 2-12 '
        '(Wiener) or 2-5 (Poisson, compound) distinct times on both sides of '
        't0. Wiener sources are driven by a scripted generator handing out '
        'basis vectors, so that the covariance of all realized values is '
        'computed exactly and compared with the stated one; Poisson and '
        'compound sources are compared over 20000 paths by statistics with '
        'an 8 sigma threshold. Non-trivial if at least one query falls '
        'between two previous ones; distinct by class and query order')
MEASURE = ('source kind and parameters kind + relative position of each '
           'successive query')
REAL = ['sdepy sources with memory']
STUB = ['random generator (scripted, for Wiener sources)',
        'callables for correlation and intensity']


def generate(r, tier):
    kind = r.choice(['wiener']*6 + ['poisson', 'cpoisson'])
    deep = tier == 'thorough'
    if kind == 'wiener':
        vshape = r.choice([[], [1], [2], [2], [3], [2, 2], [4], [1, 2]])
        cfg = dict(kind=kind, vshape=vshape,
                   t0=r.choice([0., 0., 1., -1.5, 2.25]),
                   z0=r.choice(['0', '1.5', 'arr']), rtol='max',
                   corr=G.gen_corr(r, vshape, linear=True, p_none=.25),
                   seed=r.randrange(2**31), legacy=True)
        n = r.choice([2, 3, 4, 6, 9] + ([14, 20] if deep else []))
    else:
        vshape = r.choice([[], [], [2]])
        cfg = dict(kind=kind, vshape=vshape, t0=r.choice([0., 0., 1., -1.5]),
                   z0=r.choice(['0', '3']) if kind == 'poisson' else '0',
                   rtol='max',
                   lam=G.gen_lam(r, vshape, hi=r.choice(
                       [1.5, 1.5, 30., 1e3, 1e5] if kind == 'poisson'
                       else [1.5, 1.5, 1.5, 20.])),
                   ptype=r.choice([None]*4 + ['float64', 'int32']),
                   paths=20000, seed=r.randrange(2**31),
                   legacy=r.random() < .5)
        n = r.choice([2, 3, 4, 5])
        if kind == 'poisson':
            cfg['dtype'] = cfg['ptype']
        else:
            cfg['y'] = r.choice(['uniform', 'norm', 'exp', 'dexp', 'pm1',
                                 'mix0', 'ones', 'rvmap', 'negexp', 'norm0',
                                 'uniform0', 'exp0', 'dexp0'] +
                                list(G.Y_ALIAS))
            cfg['dn'] = r.choice(['own', 'given'])
    outward = kind != 'wiener' and \
        cfg['lam']['kind'] in ('call', 'callarr', 'proc')
    pool = G.TimePool(r, cfg['t0'], G.rtol_value(cfg), span=3.,
                      tiny=.1 if kind == 'wiener' or cfg['lam']['hi'] > 2
                      else 0.)
    ops = []
    while len(pool.times) < n + 1:
        if outward:
            # time-dependent intensities: only extend the realized range
            ts = sorted(pool.times)
            s = G.dy(ts[-1] + r.uniform(.1, 2.) if r.random() < .5
                     else ts[0] - r.uniform(.1, 2.))
            pool.times.append(s)
        else:
            s = pool.new()
        k = r.random()
        if k < .6 or outward:
            ops.append(dict(op='val', t=s))
        elif k < .8:
            ops.append(dict(op='inc', t=r.choice(pool.times), s=s))
        else:
            ts = [s, pool.new()]
            r.shuffle(ts)
            ops.append(dict(op='arr', t=ts))
        if kind == 'cpoisson' and not outward and r.random() < .25:
            ops.append(dict(op='dn', t=pool.any()))
    return dict(config=cfg, ops=ops)


def run(src, ops):
    for op in ops:
        if op['op'] == 'val':
            src(op['t'])
        elif op['op'] == 'inc':
            src(op['t'], op['s'] - op['t'])
        elif op['op'] == 'dn':
            src.dn(op['t'])
        else:
            src(np.array(op['t']))


def times_of(cfg, ops):
    out = [cfg['t0']]
    for op in ops:
        for u in np.atleast_1d(op['t']).tolist() + \
                ([op['s']] if 's' in op else []):
            if u not in out:
                out.append(u)
    return out


def primes_from(n):
    while True:
        if n > 12 and all(n % d for d in range(2, int(n**.5) + 1)):
            return n
        n += 1


def wiener(cfg, ops, ctx, order):
    vs = tuple(cfg['vshape'])
    C = int(np.prod(vs))
    tt = np.array(sorted(order))
    n = len(tt)
    cfg = dict(cfg, paths=primes_from(2*n*C + 10))
    paths = cfg['paths']
    M = vs[-1] if vs else 1
    cf = G.corr_fun(cfg.get('corr'), M)
    t0 = cfg['t0']
    full = vs + (paths,)
    z0 = np.broadcast_to(G.z0_value(cfg), full)

    rng = BasisRng(cfg['seed'], paths, 'basis')
    src = G.build_true(cfg, rng=rng)
    try:
        run(src, ops)
        w = arr(src(tt), 'values', tt.shape + full) - z0
    except BasisExhausted as e:
        raise Skip(str(e))
    ctx.event(tt, w)
    # mean: with all normals set to zero, the value is z0
    check(np.abs(w[..., rng.next_basis:]).max(initial=0.) < 1e-9, 'mean',
          lambda: 'values not centered on z0')
    # covariances
    w = w.reshape(n, C, paths)
    g = np.einsum('icp,jdp->icjd', w, w)
    e = np.zeros_like(g)
    for i in range(n):
        for j in range(n):
            a, b = tt[i] - t0, tt[j] - t0
            if a*b > 0:
                u = a if abs(a) < abs(b) else b
                cov = abs(u)*cf(t0 + u/2)
                e[i, :, j, :] = np.kron(np.eye(C//M), cov)
    err = np.abs(g - e)
    k = np.unravel_index(err.argmax(), err.shape)
    check(err.max() < 1e-7*(1 + np.abs(e).max()), 'covariance',
          lambda: 'Cov(w[%d](%r), w[%d](%r)) = %r, expected %r'
          % (k[1], tt[k[0]], k[3], tt[k[2]], g[k], e[k]))
    # the same for increments, on the scale of each
    sd = np.sqrt(np.diff(tt))[:, None, None]
    d = np.diff(w, axis=0)/sd
    g = np.einsum('icp,jdp->icjd', d, d)
    e = np.diff(np.diff(e, axis=0), axis=2)/sd[..., None]/sd[:, 0]
    for i in range(n - 1):
        # (not as a difference: of little accuracy for small intervals)
        e[i, :, i, :] = np.kron(np.eye(C//M), cf((tt[i] + tt[i+1])/2))
    err = np.abs(g - e)
    if err.size:
        k = np.unravel_index(err.argmax(), err.shape)
        check(err.max() < 1e-6, 'increments-covariance',
              lambda: 'normalized increments between %r and %r: '
              'covariance %r, expected %r'
              % (tt[k[0]:][:2], tt[k[2]:][:2], g[k], e[k]))
    # no path depends on the normals of another one
    only = cfg['seed'] % paths
    src = G.build_true(cfg, rng=BasisRng(cfg['seed'], paths, 'single', only))
    try:
        run(src, ops)
        w = arr(src(tt), 'values', tt.shape + full) - z0
    except BasisExhausted as e:
        raise Skip(str(e))
    w1 = np.delete(w, only, axis=-1)
    check(np.abs(w1).max() < 1e-9, 'paths-mixed',
          lambda: 'draws of path %d affect other paths' % only)
    check(n < 2 or np.abs(w[..., only]).max() > 0, 'degenerate')
    ctx.count('exact-covariances', g.size)


def poisson(cfg, ops, ctx, order):
    vs, N = tuple(cfg['vshape']), cfg['paths']
    tt = np.array(sorted(order))
    src = G.build_true(cfg)
    run(src, ops)
    lam = G.lam_fun(cfg['lam'], vs, N)
    full = tt.shape + vs + (N,)
    comp = cfg['kind'] == 'cpoisson'
    if comp:
        j = np.diff(arr(src(tt), 'values', full), axis=0)
        j = j.reshape(len(tt) - 1, -1, N)
        n = arr(src.dn(tt), 'counts', full)
    else:
        n = arr(src(tt), 'values', full)
    n = np.diff(n, axis=0).reshape(len(tt) - 1, -1, N)
    ctx.event(tt, n)
    C = n.shape[1]
    ms = np.empty(n.shape[:2])
    for k in range(len(tt) - 1):
        a, b = tt[k], tt[k+1]
        L = np.broadcast_to(lam((a + b)/2), vs + (1,)).reshape(-1)
        for c in range(C):
            m = ms[k, c] = L[c]*(b - a)
            what = 'interval (%g, %g) component %d' % (a, b, c)
            ST.check_poisson(n[k, c], m, what, ctx)
            if comp:
                ST.check_compound(j[k, c], n[k, c], m, cfg['y'], what, ctx)
    # independence
    flat = [(k, c) for k in range(n.shape[0]) for c in range(C)]
    for x in range(len(flat)):
        for y in range(x):
            (k, c), (k1, c1) = flat[x], flat[y]
            what = 'counts of intervals %d, %d components %d, %d' \
                % (k, k1, c, c1)
            mm = ms[k, c]*ms[k1, c1]
            ST.z_uncorrelated(n[k, c] - ms[k, c], n[k1, c1] - ms[k1, c1],
                              what, ctx, N*mm, np.sqrt(mm))
            if comp and ST.y_moments(cfg['y']):
                mu, var = ST.y_moments(cfg['y'])
                ST.z_uncorrelated(j[k, c] - mu*n[k, c],
                                  j[k1, c1] - mu*n[k1, c1],
                                  'jumps, ' + what, ctx, N*mm,
                                  var*np.sqrt(mm))


def execute(case, ctx):
    cfg, ops = case['config'], case['ops']
    order = times_of(cfg, ops)
    (wiener if cfg['kind'] == 'wiener' else poisson)(cfg, ops, ctx, order)
    ctx.count('kind:' + cfg['kind'])
    ranks, inside = [], False
    for k in range(1, len(order)):
        old = sorted(order[:k])
        p = int(np.searchsorted(old, order[k]))
        inside |= 0 < p < k
        ranks.append(p - old.index(cfg['t0']))
    ctx.nontrivial = inside
    ctx.time(max(order) - min(order))
    ctx.state(cfg['kind'], cfg['vshape'],
              (cfg.get('corr') or cfg.get('lam') or {}).get('kind'), ranks)
