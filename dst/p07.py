"""P07: same generator state, same results; no other randomness."""
import copy
import hashlib
import json
import os
import random
import subprocess
import sys
import tempfile

import numpy as np
from sdepy import infrastructure as infra

from . import programs as P
from . import seams as S
from .coop import Scheduler
from .core import CaseTimeout, VERIF, check, same
from .seams import Seams

ID = 'P07'
LEVEL = 'exploration'
QUICK = 5000
RULE = ('a case is 1-4 seeded programs (sources, sources with memory, '
        'integrations, random variates, Monte Carlo, managed functions, '
        'algebra), each with its own generator (passed, legacy, or the '
        'default one at creation), run alone and then interleaved by a '
        'seeded scheduler switching at public calls and callbacks, together '
        'with a task that seeds and draws from the global numpy state and '
        'replaces the default generator; or 10-20 programs run in fresh '
        'interpreters with different hash seeds. Results and final generator '
        'states are compared bit by bit. Non-trivial if at least one program '
        'drew random numbers; distinct by programs and scheduling decisions')
MEASURE = 'kind, generator and shapes of programs + scheduling decisions'
REAL = ['sdepy, entire library but tests', 'numpy random generators', 'CPython'
        ' interpreters with different hash seeds']
STUB = ['thread scheduling (cooperative, seeded)', 'user equations and '
        'callables']


def generate(r, tier):
    if r.random() < (.008 if tier == 'quick' else .02):
        kinds = ('process',)*8 + P.RANDOM
        return dict(config=dict(mode='hashseed',
                                seeds=[r.randrange(1, 2**32)
                                       for _ in range(2)]),
                    ops=[P.gen(r, kinds) for _ in range(r.choice([12, 20]))])
    n = r.choice([1, 2, 2, 3, 4])
    progs = [P.gen(r) for _ in range(n)]
    if n > 1 and r.random() < .4:
        # same program, other seed; or same seed as well
        progs[1] = copy.deepcopy(progs[0])
        if r.random() < .7:
            progs[1]['seed'] = r.randrange(2**31)
    dist = []
    for _ in range(r.choice([0, 3, 10])):
        dist.append([r.choice(['seed', 'draw', 'swap', 'drawdefault',
                               'legacydraw']), r.randrange(10**6)])
    return dict(config=dict(mode='coop', sched=r.randrange(2**31),
                            p=r.choice([.2, .5, 1.]), dist=dist), ops=progs)


def run_solo(p, ctx):
    """Run alone, checking that no other generator is consumed"""
    old = infra.default_rng
    sentinel = np.random.RandomState(12345)
    infra.default_rng = sentinel
    s0, g0 = S.rng_state(sentinel), global_state()
    try:
        out, state = P.solo(p, ctx)
        check(infra.default_rng is sentinel, 'default-generator-replaced')
    finally:
        infra.default_rng = old
    check(S.rng_state(sentinel) == s0, 'default-generator-consumed',
          lambda: P.signature(p))
    check(global_state() == g0, 'global-state-consumed',
          lambda: P.signature(p))
    return out, state


def global_state():
    s = np.random.get_state(legacy=False)
    return repr((s['state']['key'].tobytes(), s['state']['pos'],
                 s['has_gauss'], s['gauss']))


class Disturber:
    """Uses the global and default generators, and knows in which state they
    should be"""

    def __init__(self, dist):
        self.dist = dist
        np.random.seed(0)
        self.g = np.random.RandomState(0)
        self.d = np.random.default_rng(0)
        infra.default_rng = np.random.default_rng(0)

    def do(self, what, n):
        if what == 'seed':
            np.random.seed(n)
            self.g = np.random.RandomState(n)
        elif what == 'draw':
            self.agree(np.random.normal(size=n % 3 + 1),
                       self.g.normal(size=n % 3 + 1))
        elif what == 'legacydraw':
            self.agree(np.random.poisson(2., size=n % 3 + 1),
                       self.g.poisson(2., size=n % 3 + 1))
        elif what == 'swap':
            mk = np.random.RandomState if n % 2 else np.random.default_rng
            self.d = mk(n)
            infra.default_rng = mk(n)
        elif what == 'drawdefault':
            self.agree(infra.default_rng.normal(size=2),
                       self.d.normal(size=2))

    def agree(self, a, b):
        check(same(a, b), 'other-generator-consumed',
              lambda: 'drew %r instead of %r' % (a, b))

    def final(self):
        self.do('draw', 2)
        self.do('drawdefault', 0)


def compare(p, out, state, want, wstate):
    check(len(out) == len(want) and
          all(same(a, b) and a.dtype == b.dtype for a, b in zip(out, want)),
          'results-differ', lambda: '%r: %r, alone %r'
          % (P.signature(p), out, want))
    check(state == wstate, 'generator-state-differs',
          lambda: P.signature(p))


def execute_coop(case, ctx):
    cfg, progs = case['config'], case['ops']
    solo = [run_solo(p, ctx) for p in progs]
    old, gstate = infra.default_rng, np.random.get_state()
    sched = Scheduler(cfg['sched'], cfg['p'])
    try:
        dist = Disturber(cfg['dist'])
        made = []
        for p in progs:
            sm = Seams(ctx)
            sm.hook = lambda seam: sched.point()
            prog = P.Program(p, sm)
            made.append(prog)

            def body(prog=prog):
                prog.prepare()
                for f in prog.steps():
                    sched.point()
                    f()
            sched.add(body)

        def disturb():
            for what, n in cfg['dist']:
                dist.do(what, n)
                sched.point()
        if cfg['dist']:
            sched.add(disturb)
        for t in sched.run():
            if t.exc is not None:
                raise t.exc
        dist.final()
    finally:
        infra.default_rng = old
        np.random.set_state(gstate)
    for p, prog, (want, wstate) in zip(progs, made, solo):
        prog.verify_given()
        compare(p, prog.out, S.rng_state(prog.rng), want, wstate)
        for x in prog.out:
            ctx.event(x)
        ctx.count('prog:' + p['kind'])
    ctx.event(sched.trace)
    ctx.count('switches', sched.switches)
    ctx.nontrivial = any(p['kind'] in P.RANDOM for p in progs)
    ctx.state([P.signature(p) for p in progs], sched.trace[:60])


# ------------------------------------------------------------------ hash seeds
def digest(out, state):
    h = hashlib.blake2b(digest_size=16)
    for x in out:
        h.update(('%s%s' % (x.shape, x.dtype)).encode())
        h.update(np.ascontiguousarray(x).tobytes())
    h.update(state.encode())
    return h.hexdigest()


def child(path):
    import warnings
    from .core import Ctx
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    with open(path) as f:
        progs = json.load(f)
    for p in progs:
        try:
            print(digest(*P.solo(p, Ctx())))
        except Exception as e:
            print(repr(e).replace('\n', ' '))
    return 0


def execute_hashseed(case, ctx):
    progs = case['ops']
    want = [digest(*P.solo(p, ctx)) for p in progs]
    fd, path = tempfile.mkstemp(suffix='.json')
    try:
        with os.fdopen(fd, 'w') as f:
            json.dump(progs, f)
        procs = []
        for seed in case['config']['seeds']:
            env = dict(os.environ, PYTHONHASHSEED=str(seed))
            procs.append(subprocess.Popen(
                [sys.executable, '-m', 'dst', 'hashseed-child', path],
                cwd=VERIF, env=env, stdout=subprocess.PIPE,
                stderr=subprocess.PIPE, text=True))
        try:
            outs = [p.communicate() for p in procs]
        except CaseTimeout:
            for p in procs:
                p.kill()
            raise
    finally:
        os.unlink(path)
    for seed, proc, (txt, err) in zip(case['config']['seeds'], procs, outs):
        lines = txt.split('\n')[:-1]
        if proc.returncode or len(lines) != len(want):
            raise RuntimeError('child failed: ' + err[-1500:])
        for p, a, b in zip(progs, lines, want):
            check(a == b, 'depends-on-hash-seed',
                  lambda: '%r: hash seed %d gives %s instead of %s'
                  % (P.signature(p), seed, a, b))
        ctx.count('interpreters')
    for w in want:
        ctx.event(w)
    ctx.nontrivial = True
    ctx.state([P.signature(p) for p in progs])


def execute(case, ctx):
    if not case['ops']:
        return
    if case['config']['mode'] == 'coop':
        execute_coop(case, ctx)
    else:
        execute_hashseed(case, ctx)
