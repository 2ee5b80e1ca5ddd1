"""P09: step generation visits every required time once, in order, and
terminates."""
import numpy as np

import sdepy

from . import seams as S
from .core import Violation, arr, check, same
from .srcgen import dy

ID = 'P09'
LEVEL = 'fault_enumeration'
QUICK = 120000
RULE = ('a case is a seeded paths_generator subclass (depth 2-4, shapes, '
        'paths, dtype, steps, i0) run 1-4 times along seeded timelines, '
        'valid or not, with a seeded script of step shortenings and of '
        'illegal steps (stall, overshoot, backwards, not a number) and '
        'failures; every invocation of its methods is checked against a '
        'reference step generator. Non-trivial if at least one timeline of '
        'two points was completed or an illegal step was refused; distinct '
        'by depth, steps kind, i0 and script')
MEASURE = ('depth, steps kind, start index, number of points + the sequence '
           'of step events (full, shortened, illegal, failed)')
REAL = ['sdepy.paths_generator']
STUB = ['user step routines (begin, next, store, end, exit)']

BAD_STEPS = ('stall', 'over', 'back', 'nan', 'inf')
BAD_TL = ('dup', 'unsorted', '2d', 'empty', 'nan', 'descending')


def gen_timeline(r, n, ints=False):
    if ints:
        t, out = r.choice([0, 0, 1, 5]), []
        for _ in range(n):
            out.append(t)
            t += r.choice([1, 1, 2, 3])
        return out
    t, out = dy(r.choice([0., 0., 1., -2.5, 10.])), []
    for _ in range(n):
        out.append(t)
        t = dy(t + r.choice([.25, .5, 1., dy(r.uniform(.01, 2.)) + 1/1024]))
    return out


def generate(r, tier):
    depth = r.choice([2, 2, 2, 2, 3, 4])
    n0 = r.choice([1, 2, 2, 3, 4, 6]) if depth == 2 else r.choice([4, 5, 6])
    i0 = r.choice([0, 0, 0, -1, n0 - 1, r.randrange(-n0, n0)])
    k = r.random()
    if k < .3:
        steps = None
    elif k < .6:
        steps = r.choice([0, 1, 2, 3, 5, 9, 17])
    else:
        steps = [dy(r.uniform(-3., 14.)) for _ in range(r.choice([0, 3, 10,
                                                                  30]))]
    cfg = dict(depth=depth, i0=i0, steps=steps,
               skind=r.choice(['list', 'array', 'tuple', 'set', 'f32',
                               'int', 'col', 'ro']),
               xshape=r.choice([[], [2], [2, 3]]),
               wshape=r.choice([[], [3]]), paths=r.choice([1, 3]),
               getinfo=r.random() < .7, omit=r.random() < .5)
    long = 0
    if r.random() < .004:
        # long timelines, or many steps
        long = r.choice([70, 150, 300])
        cfg.update(i0=r.choice([0, 0, -1, long // 2]),
                   depth=r.choice([2, 2, 3, 5, 7]))
        if r.random() < .3:
            cfg['steps'] = r.choice([257, 1025, 2100])
    ops = []
    for _ in range(r.choice([1, 1, 2, 4])):
        kind = r.choice(['float64']*3 + ['int64', 'int32', 'uint8',
                                         'float32', 'list', 'tuple'])
        n = n0 + r.choice([0, 0, 0, 1, 3]) if i0 >= 0 else n0
        if long:
            n, kind = long, 'float64'
        op = dict(tkind=kind, t=gen_timeline(r, n, 'int' in kind),
                  script=[], bad=None)
        if r.random() < .12:
            op['bad'] = r.choice(BAD_TL + ('i0', 'i0float'))
        mode = r.random()
        for _ in range(r.choice([0, 3, 12, 40])):
            if mode < .4 and r.random() < .6:
                op['script'].append(r.choice(
                    [.5, .25, .9, .01, .75, 1 - 2.**-30, 2.**-30]))
            else:
                op['script'].append('full')
        if op['script'] and r.random() < .3:
            op['script'][-1] = r.choice(BAD_STEPS)
        elif r.random() < .12:
            op['fault'] = dict(where=r.choice(['begin', 'next', 'store',
                                               'end', 'exit', 'pace']),
                               k=r.choice([1, 1, 2, 3]),
                               exc=r.choice(S.EXC_KINDS))
        ops.append(op)
    if isinstance(steps, list) and steps and r.random() < .5:
        # steps at, or very close to, points of the timeline; repetitions
        pts = r.choice(ops)['t']
        for _ in range(r.choice([1, 3, 6])):
            steps.insert(r.randrange(len(steps) + 1),
                         r.choice([r.choice(pts), r.choice(steps)]) +
                         r.choice([0., 0., 2.**-30, -2.**-30, 2.**-12]))
    return dict(config=cfg, ops=ops)


class Reference:
    """Generates the steps that should occur, and checks what occurs."""

    def __init__(self, cfg, tt, required, ctx):
        self.cfg, self.tt, self.ctx = cfg, tt, ctx
        n = len(tt)
        i0 = cfg['i0'] % n
        first = self.first = tt[i0]
        self.plans = []
        # a run of a single point goes forward; the first (last) point given
        # as a negative (positive) index may add an empty backward (forward)
        # run
        back = [s for s in required[::-1] if s <= first]
        forw = [s for s in required if s >= first]
        if i0 > 0 or cfg['i0'] < 0:
            self.plans.append((True, back, list(range(i0, -1, -1))))
        if i0 < n - 1 or n == 1:
            self.plans.append((False, forw, list(range(i0, n))))
        self.run = -1
        self.in_run = False
        self.stored = {}

    # -- events
    def begin(self, iv):
        K = self.cfg['depth']
        check(not self.in_run, 'order', 'begin called during a run')
        self.run += 1
        # skip an empty run, if the implementation does
        while self.run < len(self.plans) and \
                bool(iv['reverse']) != self.plans[self.run][0] and \
                len(self.plans[self.run][1]) == 1:
            self.run += 1
        check(self.run < len(self.plans), 'extra-run')
        rev, steps, idx = self.plans[self.run]
        check(bool(iv['reverse']) == rev, 'direction')
        self.in_run = True
        self.rev, self.steps, self.idx = rev, steps, idx
        self.sign = -1. if rev else 1.
        sw = np.array(iv['sw'], float)
        check(sw.shape == (K,), 'workspace')
        check(sw[:K-1].tolist() == steps[:K-1], 'initial-times',
              lambda: '%r, expected %r' % (sw, steps[:K-1]))
        check(np.array_equal(np.array(iv['tt'], float), self.tt[idx]),
              'itervars-tt')
        check(np.array_equal(np.array(iv['steps_tt'], float), steps),
              'itervars-steps')
        xw, xx = iv['xw'], iv['xx']
        check(len(xw) == K and all(
            x.shape == tuple(self.cfg['wshape']) + (self.cfg['paths'],)
            for x in xw), 'workspace')
        check(xx.shape == (len(idx),) + tuple(self.cfg['xshape']) +
              (self.cfg['paths'],), 'output-shape')
        self.hist = list(steps[:K-1])     # visited times
        self.vals = []
        self.pending = list(steps[K-1:])  # required times ahead
        self.todo = list(idx)             # timeline indexes to be stored
        self.expect_store = [t for t in self.hist if t in self.tt]
        self.nsteps = self.nstored = 0

    def workspace(self, iv):
        K = self.cfg['depth']
        sw = np.array(iv['sw'], float)
        check(sw[:K-1].tolist() == self.hist[-(K-1):], 'workspace-times',
              lambda: '%r, expected %r' % (sw, self.hist[-(K-1):]))
        for k in range(K-1):
            check((iv['xw'][k] == self.vals[len(self.vals) - (K-1) + k])
                  .all(), 'workspace-values',
                  lambda: 'xw[%d] = %r at %r' % (k, iv['xw'][k], sw))

    def next(self, iv):
        check(self.in_run, 'order', 'next called outside a run')
        check(not self.expect_store, 'not-stored',
              lambda: 'points %r were reached' % self.expect_store)
        check(bool(self.pending), 'extra-step')
        check(bool(self.todo), 'extra-step', 'beyond the timeline')
        self.workspace(iv)
        target = float(iv['sw'][-1])
        check(target == self.pending[0], 'target',
              lambda: 'target %r, expected %r after %r'
              % (target, self.pending[0], self.hist[-1]))
        i = iv['i']
        check(0 <= i < len(self.idx) and self.idx[i] == self.todo[0],
              'itervars-i', lambda: '%r, todo %r' % (i, self.todo))
        return self.hist[-1], target

    def stepped(self, s, v):
        self.hist.append(s)
        self.vals.append(v)
        self.nsteps += 1
        if s == self.pending[0]:
            self.pending.pop(0)
            if s in self.tt:
                self.expect_store = [s]

    def store(self, iv, i, k):
        check(self.in_run, 'order', 'store called outside a run')
        check(bool(self.expect_store), 'extra-store',
              lambda: 'i=%r k=%r' % (i, k))
        s = self.expect_store.pop(0)
        check(float(iv['sw'][k]) == s and float(iv['tt'][i]) == s,
              'store-place', lambda: 'sw[%r]=%r, tt[%r]=%r, expected %r'
              % (k, iv['sw'][k], i, iv['tt'][i], s))
        check(self.idx[i] == self.todo.pop(0), 'store-order')
        v = self.vals[-1] if self.nsteps else self.vals[self.hist.index(s)]
        check((iv['xw'][k] == v).all(), 'workspace-values')
        self.stored[self.idx[i]] = v
        self.nstored += self.nsteps > 0
        return v

    def end(self):
        check(self.in_run, 'order', 'end called outside a run')
        check(not self.todo and not self.expect_store, 'not-reached',
              lambda: 'timeline indexes %r' % self.todo)
        self.in_run = False

    def exit(self, n):
        left = [p for p in self.plans[self.run+1:] if len(p[1]) > 1]
        check(not self.in_run and not left, 'not-reached')
        check(sorted(self.stored) == list(range(n)), 'not-stored')


class Gen(sdepy.paths_generator):
    def __init__(self, cfg, ctx, **k):
        self.cfg, self.ctx = cfg, ctx
        super().__init__(**k)
        if not (cfg.get('omit') and cfg['depth'] == 2):
            self.depth = cfg['depth']
        self.ref = self.op = None

    def prepare(self, op, make_ref):
        self.op, self.make_ref, self.ref = op, make_ref, None
        self.script = list(op['script'])
        self.calls = {}
        self.raised = None
        self.illegal = None
        self.tag = 0

    def seam(self, where):
        self.ctx.step(where)
        check(self.illegal is None, 'illegal-step-accepted',
              lambda: '%s called after a step to %r' % (where, self.illegal))
        n = self.calls[where] = self.calls.get(where, 0) + 1
        f = self.op.get('fault')
        if f and f['where'] == where and f['k'] == n:
            self.raised = S.EXC[f['exc']]('injected in ' + where)
            self.ctx.count('fault_fired:' + where)
            raise self.raised

    def pace(self, timeline):
        self.seam('pace')
        p = super().pace(timeline)
        self.ref = self.make_ref(np.array(timeline), np.array(p))
        return p

    def begin(self):
        self.seam('begin')
        iv = self.itervars
        self.ref.begin(iv)
        for k in range(self.depth - 1):
            self.tag += 1
            iv['xw'][k][...] = self.tag
            self.ref.vals.append(self.tag)

    def next(self):
        self.seam('next')
        iv = self.itervars
        s0, target = self.ref.next(iv)
        act = self.script.pop(0) if self.script else 'full'
        sw = iv['sw']
        s = target
        sign = self.ref.sign
        if act == 'stall':
            s = s0
        elif act == 'over':
            s = target + sign*.125
        elif act == 'back':
            s = s0 - sign*.25
        elif act == 'nan':
            s = np.nan
        elif act == 'inf':
            s = sign*np.inf
        elif act != 'full':
            s = s0 + act*(target - s0)
        sw[-1] = s
        s = float(sw[-1])
        if not (s0 < s <= target if sign > 0 else s0 > s >= target):
            self.illegal = s
            self.tag += 1
            iv['xw'][-1][...] = self.tag
            self.ctx.count('fault_fired:step-' + str(act))
            return
        self.ctx.count('step:' + (act if isinstance(act, str)
                                  else 'shortened'))
        self.tag += 1
        iv['xw'][-1][...] = self.tag
        self.ref.stepped(s, self.tag)
        self.ctx.event('step', s0, s)

    def store(self, i, k):
        self.seam('store')
        self.itervars['xx'][i] = self.ref.store(self.itervars, i, k)

    def end(self):
        self.seam('end')
        self.ref.end()

    def exit(self, tt, xx):
        self.seam('exit')
        self.ref.exit(len(tt))
        return super().exit(tt, xx)


def timeline(op):
    t, kind = op['t'], op['tkind']
    b = op['bad']
    if b == 'dup' and t:
        t = t + t[-1:]
    elif b == 'unsorted':
        t = t + [t[0] - 1, t[-1] + 1] if 'uint' not in kind \
            else t + [t[-1] + 2, t[-1] + 1]
    elif b == 'descending':
        t = (t + [t[-1] + 1])[::-1]
    elif b == '2d':
        t = [t, [x + 100 for x in t]]
    elif b == 'empty':
        t = []
    elif b == 'nan':
        t = [float(x) for x in t] + [np.nan]
        kind = 'float64'
    if kind == 'list':
        return t
    if kind == 'tuple':
        return tuple(t)
    return np.array(t, dtype=kind)


def expected_points(cfg, tt, ttype):
    s = cfg['steps']
    lo, hi = tt[0], tt[-1]
    if s is None or tt.size == 1:
        p = np.array([])
    elif isinstance(s, int):
        p = np.linspace(lo, hi, s)
        # counts that do not divide the timeline exactly: rounding is not
        # specified
        if s > 1 and not all(x*2**20 == round(x*2**20) for x in p):
            return None
    else:
        p = np.array(list(as_steps(cfg)), float)
    p = p.astype(ttype).astype(float)
    p = p[(p >= lo) & (p <= hi)]
    return np.unique(np.concatenate((p, tt)))


def as_steps(cfg):
    s, k = cfg['steps'], cfg['skind']
    if not isinstance(s, list):
        # (counts given as numpy integers)
        return s if s is None or k != 'int' else np.int64(s)
    if k in ('list', 'tuple', 'set'):
        return dict(list=list, tuple=tuple, set=set)[k](s)
    a = np.array(s, float)
    if k == 'f32':
        return a.astype('float32')
    if k == 'int':
        return np.floor(a).astype('int32')
    if k == 'col':
        # a strided array
        a = np.array([a, -a]).T[:, 0]
    elif k == 'ro':
        a.flags.writeable = False
    return a


def run(gen, cfg, op, ctx):
    tl = timeline(op)
    n = len(op['t'])
    tt = np.array(op['t'], float)
    tkind = np.asarray(tl).dtype if not op['bad'] else np.dtype(float)
    ttype = np.dtype(float) if tkind.kind in 'iu' else tkind
    pts = expected_points(cfg, tt, ttype)

    def make_ref(timeline, paced):
        check(np.array_equal(np.array(timeline, float), tt), 'pace-timeline')
        p = pts
        if p is None:
            want = np.linspace(tt[0], tt[-1], cfg['steps'])
            check(paced.shape == want.shape and
                  np.allclose(paced, want, rtol=1e-6, atol=1e-6),
                  'pace', lambda: '%r, expected %r' % (paced, want))
            q = paced.astype(float)
            q = q[(q >= tt[0]) & (q <= tt[-1])]
            p = np.unique(np.concatenate((q, tt)))
        return Reference(cfg, tt, p.tolist(), ctx)
    gen.prepare(op, make_ref)
    if op['bad'] in ('i0', 'i0float'):
        gen.i0 = n + 3 if op['bad'] == 'i0' else .5
    exc = res = None
    try:
        res = gen(tl)
    except Violation:
        raise
    except (Exception, KeyboardInterrupt) as e:
        exc = e
    finally:
        gen.i0 = cfg['i0']
    if op['bad']:
        check(isinstance(exc, (ValueError, IndexError)), 'bad-timeline',
              lambda: '%s timeline %r: %r' % (op['bad'], tl, exc))
        check(not gen.calls.get('next') and not gen.calls.get('begin'),
              'bad-timeline', 'integration started')
        ctx.count('fault_fired:timeline-' + op['bad'])
        return 'refused'
    if gen.raised is not None:
        check(exc is gen.raised, 'failure-altered',
              lambda: 'raised %r, got %r' % (gen.raised, exc))
        return 'failed'
    if gen.illegal is not None:
        check(isinstance(exc, RuntimeError), 'illegal-step-accepted',
              lambda: 'step to %r: %r' % (gen.illegal, exc))
        return 'illegal'
    if exc is not None:
        # too few points for the depth of the algorithm
        few = gen.ref is None or any(
            len(p[1]) < cfg['depth'] - 1 for p in gen.ref.plans)
        if few and not isinstance(exc, KeyboardInterrupt):
            ctx.count('too-few-points')
            return 'few'
        raise exc
    check(isinstance(res, tuple) and len(res) == 2, 'result')
    t, x = res
    check(same(t, np.asarray(tl)) and np.asarray(t).dtype ==
          np.asarray(tl).dtype, 'result-timeline')
    x = arr(x, 'result', (n,) + tuple(cfg['xshape']) + (cfg['paths'],))
    for i in range(n):
        check((x[i] == gen.ref.stored[i]).all(), 'result-values',
              lambda: 'at %d: %r, expected %r' % (i, x[i],
                                                  gen.ref.stored[i]))
    ctx.time(tt[-1] - tt[0])
    return 'done'


def execute(case, ctx):
    cfg = case['config']
    s = as_steps(cfg)
    given = np.array(list(s)) if isinstance(cfg['steps'], list) else None
    kw = dict(paths=cfg['paths'], xshape=tuple(cfg['xshape']),
              wshape=tuple(cfg['wshape']), steps=s, i0=cfg['i0'],
              getinfo=cfg['getinfo'])
    if cfg.get('omit'):     # default values, left out
        for k, v in dict(paths=1, xshape=(), wshape=(), steps=None, i0=0,
                         getinfo=True).items():
            if type(kw[k]) is type(v) and kw[k] == v:
                del kw[k]
    gen = Gen(cfg, ctx, **kw)
    log = []
    for op in case['ops']:
        out = run(gen, cfg, op, ctx)
        ctx.count('outcome:' + out)
        ctx.event(out)
        log.append((out, len(op['t']), op['script'][:12], op['bad']))
        if out == 'illegal' or (out == 'done' and len(op['t']) > 1):
            ctx.nontrivial = True
    check(given is None or same(given, np.array(list(s))), 'steps-modified')
    ctx.state(cfg['depth'], cfg['i0'], type(s).__name__, log)
