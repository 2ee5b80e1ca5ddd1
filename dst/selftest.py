"""Determinism of the simulator: the same cases, run in processes with
different hash seeds, yield the same event logs.  (Preemption points of P13
fall on different library lines with other hash seeds, where the library
iterates over sets: it is compared with the fixed hash seed that all checks
use.)"""
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

from . import core


def digests(pid, n, seed, hashseed):
    env = dict(os.environ, DST_HASHSEED=str(hashseed))
    if pid == 'P13':
        env['DST_HASHSEED'] = '0'
    out = subprocess.run([os.path.join(core.VERIF, 'run.sh'), 'digests', pid,
                          str(n), str(seed)], env=env, capture_output=True,
                         text=True)
    if out.returncode:
        return 'exit %d: %s' % (out.returncode, out.stderr[-500:])
    return out.stdout


def main(argv):
    n = int(argv[0]) if argv else 60
    pids = argv[1:] or core.PROPS
    bad = 0
    with ThreadPoolExecutor(os.cpu_count()) as ex:
        jobs = {(p, h): ex.submit(digests, p, n, 7, h)
                for p in pids for h in (0, 1, 12345)}
        for p in pids:
            a = [jobs[p, h].result() for h in (0, 1, 12345)]
            ok = a[0] == a[1] == a[2] and len(a[0].splitlines()) == n
            lines = a[0].splitlines()
            print('%s: %d cases, 3 hash seeds: %s' % (
                p, len(lines), 'same digests' if ok else 'DIFFERENT'))
            if not ok:
                bad += 1
                for x in zip(*[t.splitlines() for t in a]):
                    if len(set(x)) > 1:
                        print('   ', x)
                        break
                else:
                    print(a[0][-500:])
    sys.stdout.flush()
    return 1 if bad else 0
