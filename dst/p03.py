"""P03: compound Poisson sources with memory conserve every jump."""
import numpy as np

import sdepy

from . import seams as S
from . import p05 as YA
from . import srcgen as G
from .core import arr, check, close, same
from .seams import Seams

ID = 'P03'
LEVEL = 'exploration'
QUICK = 10000
RULE = ('a case is one Poisson source with memory shared by 1-2 compound '
        'sources (jump sizes: distinct powers of two, so that any sum of '
        'jumps identifies them; or ones, zeros, +-1, zero-inflated, and the '
        'library distributions) and a seeded interleaving of 3-30 queries on '
        'all of them; non-trivial if at least one jump was realized and one '
        'query fell between two earlier ones; distinct by the sequence of '
        'queried objects and relative positions')
MEASURE = 'jump size kind + (object, relative position) of each query'
REAL = ['sdepy compound Poisson and Poisson sources with memory', 'numpy '
        'generators', 'scipy distributions']
STUB = ['marking jump-size variables (rvs protocol)']


def generate(r, tier):
    vshape = r.choice([[], [], [1], [2], [2, 2]])
    marks = r.random() < .6
    paths = r.choice([1, 1, 2, 3])
    C = int(np.prod(vshape))*paths
    nobj = r.choice([1, 1, 2])
    t0s = [r.choice([0., 0., 0., 1., -1.5]) for _ in range(nobj + 1)]
    span = 3.
    # expected total number of jumps below the available number of marks
    hi = min(3., 14./(C*2*span)) if marks else r.choice([.5, 2., 4.])
    if not marks and r.random() < .1:
        # many jumps, or paths
        hi = r.choice([10., 30., 80.])
        paths = r.choice([1, 3, 40, 130])
    cfg = dict(vshape=vshape, paths=paths, t0s=t0s,
               nt0=r.choice(['0', '0', '3']),
               z0=[r.choice([0., 0., 0.5]) if not marks else 0.
                   for _ in range(nobj)],
               own=nobj == 1 and r.random() < .4,
               lam=G.gen_lam(r, vshape, hi=hi),
               y=['marks' if marks else r.choice(G.Y_KINDS + YA.Y_ARR)
                  for _ in range(nobj)],
               ptype=r.choice(['int']*5 + ['float64', 'int32']),
               seed=r.randrange(2**31), legacy=r.random() < .4)
    if marks and cfg['lam']['kind'] == 'default':
        cfg['lam']['kind'] = 'const'
    pool = G.TimePool(r, t0s[0], 1e-15, span=span/2.5)
    pool.times = sorted(set(t0s))
    ops = []
    n = r.choice([3, 6, 10, 18, 30]) if tier == 'quick' else \
        r.choice([3, 6, 10, 18, 30, 60])
    if r.random() < .01:
        n = r.choice([100, 200])
    for _ in range(n):
        k = r.random()
        if k < .55:
            ops.append(dict(op='val', o=r.randrange(nobj),
                            t=[pool.any()]))
        elif k < .7:
            ops.append(dict(op='inc', o=r.randrange(nobj),
                            t=[pool.any(), pool.any()]))
        elif k < .85:
            ops.append(dict(op='arr', o=r.randrange(nobj),
                            t=[pool.any() for _ in range(r.randint(1, 4))]))
        else:
            ops.append(dict(op='dn', t=[pool.any()]))
    return dict(config=cfg, ops=ops)


def build(cfg, sm):
    vs, paths = tuple(cfg['vshape']), cfg['paths']
    rng = S.sim_rng(cfg['seed'], sm, cfg['legacy'])
    lam = G.lam_kw(cfg['lam'], vs, paths, sm)
    ys, bounds = [], []
    for k in cfg['y']:
        if k == 'marks':
            y = G.YMarks()
            y.seams = sm
            b = (0., np.inf)    # 0 once exhausted
        else:
            y, b = G.build_y(k, sm) if k not in YA.Y_ARR else \
                (YA.build_yarr(dict(cfg, y=k), sm), (-np.inf, np.inf))
        ys.append(y)
        bounds.append(b)
    if cfg['own']:
        djs = [sdepy.true_cpoisson_source(
            paths=paths, vshape=vs, rng=rng, y=ys[0], **lam,
            ptype=np.dtype(cfg['ptype']), t0=cfg['t0s'][0], z0=cfg['z0'][0])]
        dn = djs[0].dn
    else:
        dn = sdepy.true_poisson_source(
            paths=paths, vshape=vs, rng=rng, **lam, t0=cfg['t0s'][-1],
            dtype=np.dtype(cfg['ptype']), z0=int(cfg['nt0']))
        djs = [sdepy.true_cpoisson_source(
            paths=paths, vshape=vs, rng=rng, dn=dn, y=y, t0=t0, z0=z0)
            for y, t0, z0 in zip(ys, cfg['t0s'], cfg['z0'])]
    return dn, djs, ys, bounds


def bits(x):
    x = int(x)
    return {k for k in range(x.bit_length()) if x >> k & 1}


def check_object(o, cfg, dn, dj, y, bound, obs, ctx):
    """All invariants of compound source number o on all observed times."""
    t0, z0, kind = cfg['t0s'][o], cfg['z0'][o], cfg['y'][o]
    full = tuple(cfg['vshape']) + (cfg['paths'],)
    n0 = arr(dn(t0), 'dn', full)
    ts = sorted(obs)
    counts = {}
    for t in ts:
        v = arr(dj(t), 'dj', full)
        check(same(v, obs[t]), 'value-changed',
              lambda: 'dj(%r) was %r, now %r' % (t, obs[t], v))
        n = arr(dn(t), 'dn', full) - n0
        counts[t] = n
        check((n*np.sign(t - t0) >= 0).all(), 'counts-sign')
        x = v - z0
        if kind in ('ones', 'callones'):
            check(same(x, n.astype(float)), 'jumps-lost',
                  lambda: 'dj(%r) is %r with %r unit jumps' % (t, x, n))
        elif kind == 'zero':
            check((x == 0).all(), 'jumps-nonzero')
        elif kind == 'pm1':
            check(((x - n) % 2 == 0).all() and (np.abs(x) <= np.abs(n)).all(),
                  'jumps-lost',
                  lambda: 'dj(%r) is %r with %r jumps of +-1' % (t, x, n))
        elif kind == 'marks' and not y.exhausted:
            s = np.sign(t - t0)
            for i in np.ndindex(full):
                b = x[i]*s
                check(b >= 0 and b == int(b) and
                      len(bits(b)) == abs(n[i]), 'jumps-lost',
                      lambda: 'dj(%r)%r = %r, jumps %r, but counts are %r'
                      % (t, i, x[i], bits(b) if b >= 0 else None, n[i]))
        elif kind in YA.Y_ARR and kind != 'normtarr':
            s = np.sign(t - t0)
            YA.check_yarr(x*s, n*s, dict(cfg, y=kind), t, 'dj(%r)' % t)
        lo, hi = bound
        m = np.abs(n)
        d = x*np.sign(t - t0) if t != t0 else x
        tol = 1e-9*(1 + np.abs(x))
        check(((n != 0) | (np.abs(x) < 1e-9)).all(), 'jump-without-count',
              lambda: 'dj(%r) - z0 = %r with counts %r' % (t, x, n))
        if np.isfinite(lo):
            check((d >= lo*m - tol).all(), 'jumps-bound')
        if np.isfinite(hi):
            check((d <= hi*m + tol).all(), 'jumps-bound')
    # intervals: no count, no change; marks move nowhere
    for a, b in zip(ts, ts[1:]):
        dnn = counts[b] - counts[a]
        check((dnn >= 0).all(), 'counts-decrease')
        dv = obs[b] - obs[a]
        check((np.abs(dv[dnn == 0]) < 1e-9).all(), 'jump-without-count',
              lambda: 'dj changes by %r from %r to %r, with counts %r'
              % (dv, a, b, dnn))
        lo, hi = bound
        tol = 1e-9*(1 + np.abs(dv))
        if np.isfinite(lo):
            check((dv >= lo*dnn - tol).all(), 'jumps-bound',
                  lambda: '(%r, %r): %r jumps, change %r'
                  % (a, b, dnn, dv))
        if np.isfinite(hi):
            check((dv <= hi*dnn + tol).all(), 'jumps-bound',
                  lambda: '(%r, %r): %r jumps, change %r'
                  % (a, b, dnn, dv))
    if kind == 'marks' and not y.exhausted and ts:
        seen = {}
        for i in np.ndindex(full):
            prev, prevt = None, None
            for t in ts:
                s = bits(abs(obs[t][i]))
                if t < t0:
                    ok = prev is None or s <= prev
                elif prevt is not None and prevt >= t0:
                    ok = s >= prev
                else:
                    ok = True
                check(ok, 'jumps-moved',
                      lambda: 'path %r: jumps %r at %r, %r at %r'
                      % (i, prev, prevt, s, t))
                prev, prevt = s, t
                for k in s:
                    where = (i, t > t0)
                    check(seen.setdefault(k, where) == where,
                          'jumps-duplicated',
                          lambda: 'jump %r at %r and %r'
                          % (k, seen[k], where))
        ctx.count('marked-jumps', len(seen))
    return counts


def check_all(cfg, dn, djs, ys, bounds, obs, nobs, ctx):
    full = tuple(cfg['vshape']) + (cfg['paths'],)
    njumps = 0
    for o, dj in enumerate(djs):
        counts = check_object(o, cfg, dn, dj, ys[o], bounds[o], obs[o], ctx)
        njumps += sum(int(np.abs(n).sum()) for n in counts.values())
    for t, n in nobs.items():
        check(same(arr(dn(t), 'dn', full), n), 'counts-changed',
              lambda: 'dn(%r) was %r, now %r' % (t, n, dn(t)))
    return njumps


def do(op, dn, djs, obs, nobs, full, ctx):
    tt = op['t']
    if op['op'] == 'dn':
        v = arr(dn(tt[0]), 'dn', full)
        check(same(nobs.setdefault(tt[0], v), v), 'counts-changed')
        return
    o = op['o']
    dj = djs[o]

    def rec(t, v):
        w = obs[o].setdefault(t, v)
        check(same(w, v), 'value-changed',
              lambda: 'dj(%r) was %r, now %r' % (t, w, v))
    if op['op'] == 'val':
        rec(tt[0], arr(dj(tt[0]), 'dj', full))
    elif op['op'] == 'inc':
        t, s = tt
        d = arr(dj(t, s - t), 'dj', full)
        a, b = arr(dj(t), 'dj', full), arr(dj(s), 'dj', full)
        rec(t, a)
        rec(s, b)
        check(close(d, b - a, 1e-12), 'increment')
    else:
        x = arr(dj(np.array(tt)), 'dj', (len(tt),) + full)
        for k, t in enumerate(tt):
            rec(t, x[k])


def execute(case, ctx):
    cfg = case['config']
    sm = Seams(ctx)
    dn, djs, ys, bounds = build(cfg, sm)
    full = tuple(cfg['vshape']) + (cfg['paths'],)
    obs = [{} for _ in djs]
    nobs = {}
    seq, seent, inside = [], [], False
    njumps = 0
    for op in case['ops']:
        for t in op['t']:
            old = sorted(set(seent))
            p = int(np.searchsorted(old, t))
            inside |= 0 < p < len(old) and t not in old
            seq.append((op['op'], op.get('o'), p))
            seent.append(t)
        do(op, dn, djs, obs, nobs, full, ctx)
        if any(getattr(y, 'exhausted', False) for y in ys):
            ctx.count('marks-exhausted')
            break
        ctx.event(op['op'], op['t'])
    njumps = check_all(cfg, dn, djs, ys, bounds, obs, nobs, ctx)
    for o in obs:
        for t in sorted(o):
            ctx.event(t, o[t])
            ctx.time(t)
    ctx.count('jumps-seen', njumps)
    ctx.nontrivial = inside and njumps > 0
    ctx.state(cfg['y'], cfg['own'], seq)
