"""P13: distinct objects can be used concurrently from different threads."""
import copy
import os
import sys
import threading

from . import programs as P
from . import seams as S
from .coop import Scheduler
from .core import SDEPY_DIR, check, same
from .seams import Seams

ID = 'P13'
LEVEL = 'exploration'
QUICK = 5000
RULE = ('a case is 2-4 seeded programs (sources, sources with memory, '
        'integrations of preset and custom processes, Monte Carlo, managed '
        'functions, algebra), often the same one with different parameters '
        'or seeds, each in its own thread with its own objects and '
        'generator. A seeded scheduler preempts threads at single lines or '
        'bytecodes of the library; results are compared bit by bit with '
        'those of each program run alone. Non-trivial if at least two '
        'preemptions took place; distinct by programs and preemption points')
MEASURE = 'kind and shapes of programs + preemption points (file, line, task)'
REAL = ['sdepy, entire library but tests', 'numpy random generators',
        'Python threads']
STUB = ['thread scheduling (one thread at a time, preempted by the '
        'simulator at library lines or bytecodes)', 'user callables']
ASSUMPTIONS = ['preemption within C code (numpy) is not simulated']


def generate(r, tier):
    n = r.choice([2, 2, 3, 4])
    progs = [P.gen(r, short=True) for _ in range(n)]
    for p in progs:
        if p['rng'] == 'default':
            p['rng'] = 'own'
    if r.random() < .6:
        # same kind of objects, different shapes, parameters, seeds
        kind = r.choice(sorted(set(P.KINDS)))
        progs[:2] = [P.gen(r, kinds=(kind,), short=True) for _ in range(2)]
        if r.random() < .5:
            progs[1] = copy.deepcopy(progs[0])
            progs[1]['seed'] = r.randrange(2**31)
            if 'cfg' in progs[1] and 'seed' in progs[1]['cfg']:
                progs[1]['cfg']['seed'] = r.randrange(2**31)
        for p in progs[:2]:
            if p['rng'] == 'default':
                p['rng'] = 'legacy'
    return dict(config=dict(sched=r.randrange(2**31),
                            p=r.choice([.003, .01, .05, .3]),
                            opcodes=r.random() < .25), ops=progs)


def execute(case, ctx):
    cfg, progs = case['config'], case['ops']
    if not progs:
        return
    solo = [P.solo(p, ctx) for p in progs]
    sched = Scheduler(cfg['sched'], cfg['p'])
    points = []
    ops = cfg['opcodes']
    p_switch = cfg['p']

    def local(frame, event, arg):
        if event == ('opcode' if ops else 'line'):
            # decide first: the scheduler's own draws are then rare
            if sched.r.random() < p_switch:
                n = sched.switches
                where = (os.path.basename(frame.f_code.co_filename),
                         frame.f_lineno)
                sched.p = 1.
                sched.point()
                if sched.switches != n and len(points) < 400:
                    points.append(where)
        return local

    def tracer(frame, event, arg):
        if frame.f_code.co_filename.startswith(SDEPY_DIR):
            if ops:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return local
        return None

    made = []
    for p in progs:
        prog = P.Program(p, Seams(ctx))
        made.append(prog)

        def body(prog=prog):
            sys.settrace(tracer)
            try:
                prog.prepare()
                for f in prog.steps():
                    f()
            finally:
                sys.settrace(None)
        sched.add(body)
    for p, t in zip(progs, sched.run()):
        if t.exc is not None:
            check(False, 'fails-if-concurrent', lambda: '%r: %r'
                  % (P.signature(p), t.exc))
    for p, prog, (want, wstate) in zip(progs, made, solo):
        prog.verify_given()
        check(len(prog.out) == len(want) and
              all(same(a, b) for a, b in zip(prog.out, want)) and
              S.rng_state(prog.rng) == wstate, 'results-differ',
              lambda: '%r: %r, alone %r' % (P.signature(p), prog.out, want))
        for x in prog.out:
            ctx.event(x)
        ctx.count('prog:' + p['kind'])
    ctx.event(points)
    ctx.count('preemptions', sched.switches)
    ctx.count('preemption-points-seen', len(set(points)))
    ctx.nontrivial = sched.switches >= 2
    ctx.state([P.signature(p) for p in progs], points)
