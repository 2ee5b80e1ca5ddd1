"""Writes MANIFEST.json from the property modules."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
TECH = 'deterministic simulation with fault injection: '
WHAT = dict(
    P01='seeded query histories against a memory model',
    P02='seeded query orders with a scripted generator (exact covariances) '
        'and 8-sigma statistics',
    P03='seeded interleavings of queries with identifiable jumps against a '
        'conservation ledger',
    P04='faults at the k-th crossing of each seam (swept) inside seeded query '
        'histories',
    P05='seeded call histories with failing collaborators, scripted generator '
        'and tagged jumps',
    P06='lockstep runs of antithetic and ordinary sources with failing '
        'collaborators',
    P07='seeded cooperative schedules of programs, global state perturbation, '
        'hash seeds; bitwise comparison',
    P08='integrations driven by simulated sources against an independent '
        'Euler recursion',
    P09='scripted step routines (shortened, illegal, failing) against a '
        'reference step generator',
    P10='faults at the k-th crossing of each seam (swept) inside integrations,'
        ' then re-use against fresh twins',
    P11='seeded schedules of integrations sharing sources, with faults, '
        'against the realized noise',
    P12='seeded histories of nested, aborted and repeated integrations '
        'against independent counts',
    P13='seeded preemption of real threads at library lines and bytecodes; '
        'bitwise comparison with solo runs',
    P14='seeded histories of updates, reads and indexings against pooled '
        'data',
    P15='failing updates (invalid data, k-th allocation, swept) and live '
        'views against a fault-free twin',
    P16='seeded derivation trees with faults against plain functions and '
        'classes run in lockstep')
NOTE = ('Seeded search, not a proof: every explored run satisfied the '
        'property. %s Trusted: the reference models in /verif/dst, CPython, '
        'numpy and scipy. Faults are injected at Python-level seams and in '
        'numpy\'s allocator, not inside other C code.')
REASON = ('pure function of its input: no schedule, clock, randomness, I/O, '
          'fault or history in it for a simulator to control (%s)')
NA = dict(
    P17='process arithmetic, indexing and broadcasting on numpy arrays',
    P18='interpolation of given data, piecewise constant processes',
    P19='summaries of given arrays',
    P20='closed-form formulae',
    P21='transforms of a given histogram')


def main():
    checks = []
    for pid in sorted(WHAT):
        os.environ.setdefault('SDEPY_ROOT', '/repo')
        mod = importlib.import_module('dst.' + pid.lower())
        checks.append(dict(
            property=pid,
            quick_cmd='./run.sh check %s quick' % pid,
            thorough_cmd='./run.sh check %s thorough' % pid,
            evidence_file='evidence/%s.json' % pid,
            technique=TECH + WHAT[pid],
            level=mod.LEVEL,
            level_note=NOTE % (
                'Stubs: %s.' % '; '.join(mod.STUB) + (
                    ' Assumes: %s.' % '; '.join(mod.ASSUMPTIONS)
                    if getattr(mod, 'ASSUMPTIONS', None) else ''))))
    out = dict(
        version=1, setup_cmd='./run.sh setup',
        checks=checks,
        not_applicable=[dict(property=k, reason=REASON % v)
                        for k, v in sorted(NA.items())],
        notes='No hooks: /repo carries only "fix:" commits. All seams '
              '(generators, sources, equations, callables, random variables, '
              'allocator, thread schedule) are injected from outside. '
              'Thorough runs last DST_BUDGET seconds (default 600). See '
              'DESIGN.md.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(out, f, indent=1)
        f.write('\n')


main()
