"""Deterministic simulation runner: seeded cases, isolation, shrinking, replay,
evidence.

A property module defines
    ID, LEVEL, QUICK (number of cases), RULE, REAL, STUB
    generate(r, tier) -> case     r: random.Random, the only source of choice
    execute(case, ctx)            drives sdepy; raises Violation
    simplify(case) -> iterator of simpler cases (optional)
A case is a JSON document: everything that happens is a function of it and of
the code under test.
"""
import hashlib
import importlib
import json
import os
import random
import signal
import struct
import subprocess
import sys
import time
import traceback
import warnings

import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
ROOT = os.environ.get('SDEPY_ROOT', '/repo')
SDEPY_DIR = os.path.join(os.path.realpath(ROOT), 'sdepy') + os.sep
CASE_TIMEOUT = 120        # s of wall clock; generous, reported as a hang
PROPS = ['P%02d' % k for k in range(1, 17)]


class Violation(Exception):
    def __init__(self, cls, msg=''):
        super().__init__(cls, msg)
        self.cls, self.msg = cls, str(msg)[:2000]


class Skip(Exception):
    """The case turned out to be inconclusive (counted, never a verdict)."""


class CaseTimeout(BaseException):
    pass


def module(pid):
    return importlib.import_module('dst.' + pid.lower())


def rand_for(seed, pid, i):
    h = hashlib.sha256(('%s|%s|%s' % (seed, pid, i)).encode()).digest()
    return random.Random(int.from_bytes(h[:8], 'big'))


# ---------------------------------------------------------------------------
# per-case context
# ---------------------------------------------------------------------------
class Ctx:
    MAX_STEPS = 200000

    def __init__(self, keep_trace=False):
        self.h = hashlib.blake2b(digest_size=16)
        self.counts = {}
        self.states = set()
        self.sim_time = 0.
        self.nontrivial = False
        self.trace = [] if keep_trace else None
        self.steps = 0
        self.events = 0

    def event(self, *items):
        """Append to the event log (its digest identifies the execution)."""
        self.events += 1
        for x in items:
            if isinstance(x, np.ndarray) and x.dtype != object:
                self.h.update(repr(x.shape).encode())
                self.h.update(np.ascontiguousarray(x).tobytes())
            else:
                self.h.update(repr(x).encode())
            self.h.update(b'|')
        if self.trace is not None and len(self.trace) < 2000:
            self.trace.append(' '.join(
                x if isinstance(x, str) else
                np.array2string(x, threshold=8, precision=8)
                .replace('\n', ' ')
                if isinstance(x, np.ndarray) else repr(x)
                for x in items)[:400])

    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n

    def state(self, *sig):
        self.states.add(hashlib.blake2b(repr(sig).encode(),
                                        digest_size=8).hexdigest())

    def time(self, span):
        span = float(span)
        if span == span and abs(span) < 1e12:
            self.sim_time += abs(span)

    def step(self, what='callback'):
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            raise Violation('no-progress',
                            'more than %d %s invocations' %
                            (self.MAX_STEPS, what))

    def digest(self):
        return self.h.hexdigest()


def check(cond, cls, msg=''):
    if not cond:
        raise Violation(cls, msg() if callable(msg) else msg)


def arr(x, what='result', shape=None):
    """x as a numeric array; anything else returned by the code under test is
    a violation."""
    try:
        a = np.array(x)
        ok = a.dtype.kind in 'fiub'
    except Exception as e:
        raise Violation('bad-result', '%s: %r' % (what, e))
    if not ok:
        raise Violation('bad-result', '%s is not numeric: %r' % (what, x))
    if shape is not None and a.shape != tuple(shape):
        raise Violation('bad-shape', '%s has shape %s, expected %s'
                        % (what, a.shape, tuple(shape)))
    return a


def close(a, b, rtol=1e-9, atol=1e-12):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    scale = max(1e-300, np.abs(b[np.isfinite(b)]).max()
                if np.isfinite(b).any() else 0.)
    return bool(np.allclose(a, b, rtol=rtol, atol=atol + rtol*scale,
                            equal_nan=True))


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(
        np.array_equal(a, b, equal_nan=a.dtype.kind == 'f'
                       and b.dtype.kind == 'f'))


# ---------------------------------------------------------------------------
# execution of one case
# ---------------------------------------------------------------------------
def in_sdepy(tb):
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if os.path.realpath(f).startswith(SDEPY_DIR):
            return True
        tb = tb.tb_next
    return False


def missing_attribute(e):
    """A public attribute of a library object was not found"""
    if not isinstance(e, AttributeError) or not e.name or \
            e.name.startswith('_'):
        return False
    obj = e.obj
    return any(getattr(c, '__module__', '').split('.')[0] == 'sdepy'
               for c in (obj.__mro__ if isinstance(obj, type)
                         else type(obj).__mro__))


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(case, keep_trace=False, timeout=CASE_TIMEOUT):
    """Returns a dict with the outcome of a case."""
    mod = module(case['property'])
    ctx = Ctx(keep_trace)
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    res = dict(viol=None, error=None, skip=None)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(timeout)
    try:
        try:
            mod.execute(case, ctx)
        except Violation as v:
            res['viol'] = [v.cls, v.msg]
        except Skip as s:
            res['skip'] = str(s)
        except CaseTimeout:
            res['viol'] = ['hang', 'no result within %d s' % timeout]
        except (Exception, KeyboardInterrupt) as e:
            tb = e.__traceback__
            txt = ''.join(traceback.format_exception(e))[-3000:]
            if in_sdepy(tb) or missing_attribute(e):
                res['viol'] = ['unexpected-exception:' + type(e).__name__,
                               txt]
            else:
                res['error'] = txt
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    res.update(counts=ctx.counts, states=sorted(ctx.states),
               sim=ctx.sim_time, nontrivial=ctx.nontrivial,
               digest=ctx.digest(), events=ctx.events)
    if keep_trace:
        res['trace'] = ctx.trace
    return res


def run_isolated(cases, timeout=CASE_TIMEOUT):
    """Run a list of cases in one forked child, return the last outcome, or
    None if the child died."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            out = None
            for c in cases:
                out = run_case(c, timeout=timeout)
            with os.fdopen(w, 'w') as f:
                json.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        txt = f.read()
    os.waitpid(pid, 0)
    try:
        return json.loads(txt)
    except ValueError:
        return None


def vclass(res):
    return res['viol'][0] if res and res['viol'] else None


# ---------------------------------------------------------------------------
# shrinking
# ---------------------------------------------------------------------------
def _sub(case, ops):
    c = json.loads(json.dumps(case))
    c['ops'] = json.loads(json.dumps(ops))
    return c


def shrink(prefix, case, cls, budget=60.):
    """ddmin over the operations, then over faults and the property's own
    simplifications, preserving the violation class."""
    end = time.monotonic() + budget
    tried = [0]

    def bad(c):
        if time.monotonic() > end:
            return False
        tried[0] += 1
        return vclass(run_isolated(prefix + [c], timeout=20)) == cls

    # operations
    if isinstance(case.get('ops'), list):
        n = 2
        while len(case['ops']) >= 2 and time.monotonic() < end:
            ops = case['ops']
            size = max(1, len(ops)//n)
            for k in range(0, len(ops), size):
                c = _sub(case, ops[:k] + ops[k+size:])
                if bad(c):
                    case, n = c, max(2, n - 1)
                    break
            else:
                if size == 1:
                    break
                n = min(len(ops), 2*n)
        # faults
        for k in range(len(case['ops'])):
            op = case['ops'][k]
            if isinstance(op, dict) and op.get('fault'):
                c = _sub(case, case['ops'])
                c['ops'][k]['fault'] = None
                if bad(c):
                    case = c
    mod = module(case['property'])
    if hasattr(mod, 'simplify'):
        progress = True
        while progress and time.monotonic() < end:
            progress = False
            for c in mod.simplify(json.loads(json.dumps(case))):
                if c != case and bad(c):
                    case, progress = c, True
                    break
    return case, tried[0]


# ---------------------------------------------------------------------------
# workers
# ---------------------------------------------------------------------------
def _worker(pid, seed, tier, w, nworkers, ncases, deadline, start, minviol,
            out):
    f = os.fdopen(out, 'w')
    i = start
    while True:
        if ncases is not None and i >= ncases:
            break
        if ncases is None and time.monotonic() > deadline:
            break
        if i > minviol.value:
            break
        f.write(json.dumps(dict(start=i)) + '\n')
        f.flush()
        try:
            case = module(pid).generate(rand_for(seed, pid, i), tier)
            case.update(property=pid)
            case = json.loads(json.dumps(case))
        except Exception:
            f.write(json.dumps(dict(i=i, error=traceback.format_exc())) +
                    '\n')
            f.flush()
            i += nworkers
            continue
        res = run_case(case)
        res['i'] = i
        if i < 3 * nworkers and i % nworkers == w:
            res['case'] = case
        if res['viol'] is None:
            del res['digest'], res['events']
        f.write(json.dumps(res) + '\n')
        f.flush()
        if res['viol'] is not None:
            with minviol.get_lock():
                minviol.value = min(minviol.value, i)
            break
        i += nworkers
    f.write(json.dumps(dict(done=w)) + '\n')
    f.flush()


def explore(pid, seed, tier, ncases, budget, nworkers, hard):
    """Run the cases over forked workers.  Returns results by index, list of
    indexes of crashed cases, worker count."""
    import multiprocessing as mp
    import selectors
    minviol = mp.get_context('fork').Value('q', 2**62)
    t0 = time.monotonic()
    deadline = t0 + (budget or 0)
    sel = selectors.DefaultSelector()
    results, crashed = {}, []
    live = {}

    def spawn(w, start):
        r, out = os.pipe()
        child = os.fork()
        if child == 0:
            code = 1
            try:
                os.close(r)
                _worker(pid, seed, tier, w, nworkers, ncases, deadline,
                        start, minviol, out)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        os.close(out)
        live[r] = dict(w=w, pid=child, buf=b'', cur=None, done=False)
        sel.register(r, selectors.EVENT_READ)

    for w in range(nworkers):
        spawn(w, w)
    timed_out = False
    while live:
        if time.monotonic() - t0 > hard:
            timed_out = True
            for st in live.values():
                os.kill(st['pid'], signal.SIGKILL)
        for key, _ in sel.select(timeout=5):
            r = key.fd
            st = live[r]
            data = os.read(r, 1 << 20)
            if data:
                st['buf'] += data
                *lines, st['buf'] = st['buf'].split(b'\n')
                for line in lines:
                    d = json.loads(line)
                    if 'start' in d:
                        st['cur'] = d['start']
                    elif 'done' in d:
                        st['done'] = True
                    else:
                        results[d['i']] = d
                        st['cur'] = None
                continue
            sel.unregister(r)
            os.close(r)
            del live[r]
            os.waitpid(st['pid'], 0)
            if not st['done'] and not timed_out:
                if st['cur'] is None:
                    crashed.append(-1)
                else:
                    crashed.append(st['cur'])
                    spawn(st['w'], st['cur'] + nworkers)
    return results, crashed, timed_out, time.monotonic() - t0


# ---------------------------------------------------------------------------
# check command
# ---------------------------------------------------------------------------
def nworkers_default():
    return int(os.environ.get('DST_WORKERS', min(8, os.cpu_count() or 1)))


def known_findings(pid):
    path = os.path.join(VERIF, 'known_findings.txt')
    found = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding: ') and \
                    ('property=%s ' % pid) in line:
                found.append(line[len('finding: '):])
    return found


def write_replay(pid, seed, index, cases, res, info):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-seed%s-%s.json' % (pid, seed, index))
    with open(path, 'w') as f:
        json.dump(dict(property=pid, verif_seed=seed, case_index=index,
                       violation=res['viol'], digest=res['digest'],
                       cases=cases, **info), f, indent=1)
        f.write('\n')
    return path


def replay_subprocess(path):
    p = subprocess.run([sys.executable, '-m', 'dst', 'replay', path],
                       cwd=VERIF, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True,
                       timeout=300 + CASE_TIMEOUT)
    return p.returncode == 1 and 'REPRODUCED exactly' in p.stdout


def report(pid, seed, tier, i, res, nworkers):
    """Minimise, write the replay file, verify it in a fresh process."""
    def case_at(k):
        c = module(pid).generate(rand_for(seed, pid, k), tier)
        c.update(property=pid)
        return json.loads(json.dumps(c))
    case = case_at(i)
    cls = res['viol'][0]
    info = dict(original_ops=len(case.get('ops', ())))
    r1 = run_isolated([case])
    prefix = []
    if vclass(r1) != cls:
        # depends on earlier cases run in the same process (state leaking
        # between objects): replay the whole history of the worker
        full = [case_at(k) for k in range(i % nworkers, i, nworkers)]
        if vclass(run_isolated(full + [case])) == cls:
            prefix = full
            end = time.monotonic() + 60
            # keep the shortest suffix, then drop single cases
            n = len(prefix)
            while n > 1 and time.monotonic() < end:
                half = prefix[len(prefix)//2:]
                if vclass(run_isolated(half + [case])) == cls:
                    prefix = half
                    n = len(prefix)
                else:
                    break
            k = 0
            while k < len(prefix) and time.monotonic() < end:
                p = prefix[:k] + prefix[k+1:]
                if vclass(run_isolated(p + [case])) == cls:
                    prefix = p
                else:
                    k += 1
        else:
            info['note'] = 'not reproduced in isolation'
    small, tried = shrink(prefix, case, cls)
    out = run_isolated(prefix + [small])
    if vclass(out) != cls:
        small, out = case, (run_isolated(prefix + [case]) or res)
        if vclass(out) != cls:
            out = res
    info.update(minimised_ops=len(small.get('ops', ())),
                shrink_executions=tried)
    path = write_replay(pid, seed, i, prefix + [small], out, info)
    ok = replay_subprocess(path)
    if not ok:
        # shrinking may have reached a case which is violated differently
        # each time: fall back to the original
        out = run_isolated(prefix + [case])
        if vclass(out) is not None:
            path = write_replay(pid, seed, i, prefix + [case], out, info)
            ok = replay_subprocess(path)
    return path, out, ok, small


def check_cmd(pid, tier):
    t0 = time.monotonic()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    mod = module(pid)
    print('property %s tier %s VERIF_SEED=%d sdepy=%s' %
          (pid, tier, seed, SDEPY_DIR), flush=True)
    if not os.path.realpath(importlib.import_module('sdepy').__file__) \
            .startswith(SDEPY_DIR):
        print('ERROR: sdepy imported from the wrong place')
        return 2
    nworkers = nworkers_default()
    if tier == 'thorough':
        ncases = None
        budget = float(os.environ.get('DST_BUDGET', '600'))
        hard = budget + 240
    else:
        ncases = int(os.environ.get('DST_CASES', mod.QUICK))
        budget, hard = None, 780
    for f in getattr(mod, 'PREPARE', ()):
        f()
    results, crashed, timed_out, wall = explore(
        pid, seed, tier, ncases, budget, nworkers, hard)

    order = sorted(results)
    errors = [results[i] for i in order if results[i].get('error')]
    viols = [i for i in order if results[i].get('viol')]
    good = [results[i] for i in order if 'counts' in results[i]]
    counts = {}
    states, digs = set(), 0
    nontrivial_sigs = set()
    sim = 0.
    for r in good:
        for k, v in r['counts'].items():
            counts[k] = counts.get(k, 0) + v
        states.update(r['states'])
        sim += r['sim']
        if r['nontrivial'] and not r['skip']:
            nontrivial_sigs.add(tuple(r['states']) or r['i'])
    samples = [results[i]['case'] for i in order
               if 'case' in results[i]][:3]
    nskip = sum(1 for r in good if r['skip'])
    cov = dict(
        evaluations=len(good),
        distinct_nontrivial=len(nontrivial_sigs),
        rule=mod.RULE,
        samples=samples,
        # each run has a seed of its own
        simulated_runs_and_seeds_per_hour=int(
            len(good)/max(wall, 1e-9)*3600),
        simulated_time_covered=sim,
        simulated_time_unit='model time of timelines and queries covered',
        fault_kinds_injected={k[len('fault_fired:'):]: v for k, v in
                              sorted(counts.items())
                              if k.startswith('fault_fired:')},
        faults_armed_but_not_reached={
            k[len('fault_not_reached:'):]: v
            for k, v in sorted(counts.items())
            if k.startswith('fault_not_reached:')},
        probes={k: v for k, v in sorted(counts.items())
                if not k.startswith('fault_')},
        distinct_states=len(states),
        distinct_states_measure=mod.MEASURE,
        inconclusive_cases=nskip,
        interpreter_crashes=len(crashed),
        real_components=mod.REAL,
        stub_components=mod.STUB,
        workers=nworkers,
    )
    nviol = 1 if viols else 0
    ev = dict(property=pid, tier=tier, seed=seed, level=mod.LEVEL,
              coverage=cov, assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
              wall_s=round(time.monotonic() - t0, 3), violations=nviol)

    def write_evidence():
        ev['wall_s'] = round(time.monotonic() - t0, 3)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        p = os.path.join(VERIF, 'evidence', pid + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        os.replace(p + '.tmp', p)

    print('%d runs (%d inconclusive) in %.1f s, %d distinct states, '
          'faults %s' % (len(good), nskip, wall, len(states),
                         cov['fault_kinds_injected']))
    for k in known_findings(pid):
        print('KNOWN-FINDING: ' + k)
    if viols:
        i = viols[0]
        path, out, ok, small = report(pid, seed, tier, i, results[i],
                                      nworkers)
        ev['coverage']['violation'] = dict(
            case_index=i, violation=out['viol'] if out else None,
            replay=path, replayed_exactly=ok)
        write_evidence()
        print('case %d: %s' % (i, (out or results[i])['viol']))
        print('minimised to %d operation(s); replayed in a fresh process: %s'
              % (len(small.get('ops', ())), 'yes' if ok else 'NO'))
        print('VIOLATION property=%s replay=%s' % (pid, path), flush=True)
        return 1
    write_evidence()
    if errors:
        print('HARNESS ERROR (%d cases):\n%s' % (len(errors),
                                                 errors[0]['error']))
        return 2
    if timed_out:
        print('HARNESS ERROR: wall clock limit reached')
        return 2
    bad_crash = [i for i in crashed if i < 0 or not tolerates_crash(
        mod, pid, seed, tier, i)]
    if bad_crash:
        print('HARNESS ERROR: worker died while running cases %s' % bad_crash)
        return 2
    if ncases is not None and len(good) + len(crashed) < ncases:
        print('HARNESS ERROR: %d cases out of %d were run'
              % (len(good), ncases))
        return 2
    if nskip > 0.2*len(good):
        print('HARNESS ERROR: %d cases out of %d inconclusive: %s'
              % (nskip, len(good),
                 [r['skip'] for r in good if r['skip']][:3]))
        return 2
    print('OK property=%s' % pid)
    return 0


def tolerates_crash(mod, pid, seed, tier, i):
    """numpy itself may crash when an allocation fails: such a case (one with
    an allocation fault) gives no verdict."""
    case = mod.generate(rand_for(seed, pid, i), tier)
    return '"alloc"' in json.dumps(case)


def replay_cmd(path, verbose=True):
    with open(path) as f:
        d = json.load(f)
    mod = module(d['property'])
    for f in getattr(mod, 'PREPARE', ()):
        f()
    out = None
    for c in d['cases']:
        out = run_case(c, keep_trace=True)
    if out['error']:
        print('HARNESS ERROR\n' + out['error'])
        return 2
    if verbose:
        for line in out['trace'][-60:]:
            print('  ' + line)
    print('recorded: %s digest %s' % (d['violation'], d['digest']))
    print('replayed: %s digest %s' % (out['viol'], out['digest']))
    if out['viol'] is None:
        print('NOT REPRODUCED (no violation)')
        return 0
    if out['viol'][0] == d['violation'][0] and out['digest'] == d['digest']:
        print('REPRODUCED exactly')
    else:
        print('violation differs from the recorded one')
    print('VIOLATION property=%s replay=%s' % (d['property'], path))
    return 1


def digests_cmd(pid, n, seed):
    """Digest of the first n cases: input of the determinism self-test."""
    mod = module(pid)
    for f in getattr(mod, 'PREPARE', ()):
        f()
    for i in range(n):
        case = mod.generate(rand_for(seed, pid, i), 'quick')
        case.update(property=pid)
        case = json.loads(json.dumps(case))
        r = run_isolated([case])
        if r is None:
            print(pid, i, 'crashed')
            continue
        print(pid, i, r['digest'], r['events'], r['viol'], r['skip'],
              (r['error'] or '')[-200:].replace('\n', ' '))
    return 0
