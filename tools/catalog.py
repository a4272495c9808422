#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run this file to regenerate both."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None, note=None, bounded=False, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  observe=observe, note=note, bounded=bounded, state=state))


prop('C01', 'Identifiers are unique while outstanding and stay within their limits',
     'For every history of calls by any number of threads, the ID allocator never hands out or accepts an integer that is '
     'already outstanding, every integer it hands out lies between the start value and the (exclusive) top limit, and it '
     'reports exhaustion only when every integer of the range is outstanding. Freeing succeeds exactly for outstanding '
     'integers. The sequential issuer issues strictly increasing values, never below a requested minimum.',
     ['histories', 'schedules', 'inputs'], 'all call histories, thread schedules, start values and limits',
     'tests allocate a few integers from one thread; a duplicate needs a specific history or interleaving',
     ['satella/coding/concurrent/id_allocator.py', 'satella/coding/concurrent/monitor.py'],
     [('pool invariant', 'IDAllocator._extend_the_bound_to / allocate_int / mark_as_free / mark_as_allocated'),
      ('atomic step', 'Monitor.synchronized')], 'return values and exceptions of the allocator')
prop('C02', 'Atomic numbers behave like plain numbers, one atomic step per operation',
     'Every arithmetic, comparison and in-place operation on an atomic number reads and writes its value in one indivisible '
     'step, gives the result or exception that the same operation gives on the plain value, and never changes the value '
     'when it fails. A successful in-place change wakes the threads waiting for a change.',
     ['schedules', 'histories', 'inputs'], 'all operand values, operation histories and thread schedules',
     'lost updates and missed notifications appear only under particular interleavings and operators',
     ['satella/coding/concurrent/atomic.py', 'satella/coding/concurrent/monitor.py', 'satella/time/measure.py'],
     [('atomic step', 'AtomicNumber.* via Monitor.synchronized'), ('notification', 'AtomicNumber.condition')], 'results of operations, value after them, wake-ups')
prop('C03', 'Monitors and locked datasets exclude other threads and are always released',
     'A body protected through any of the monitor mechanisms, or a locked dataset, runs while its lock is held, exactly once, '
     'with its arguments, result and exception unchanged, and the lock is given back on return and on exception (a temporary '
     'release takes it back likewise). Data of a locked dataset can be read or written only while its lock is held, and a '
     'lock not obtained in time is reported without running the body. Insert-if-absent on a monitor set reports success to '
     'exactly one of the threads inserting the same item.',
     ['schedules', 'inputs'], 'all bodies (returning or raising), arguments and thread schedules',
     'a leaked lock or a race in entry/exit needs an exception at the right point or a particular interleaving',
     ['satella/coding/concurrent/monitor.py', 'satella/coding/concurrent/locked_dataset.py'],
     [('decorators and context managers', 'Monitor.synchronized / synchronize_on / acquire / release'),
      ('access guard', 'LockedDataset.__getattribute__ / __enter__ / __exit__'),
      ('atomic insert', 'MonitorSet.insert_and_check')], 'lock state around calls, results, refusals')

exec(open(os.path.join(HERE, 'tools', 'catalog_more.py')).read()) if os.path.exists(
    os.path.join(HERE, 'tools', 'catalog_more.py')) else None


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                 'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'],
                 'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}
            if p['observe']:
                d['anchors']['observe_at'] = p['observe']
            f.write(json.dumps(d) + '\n')
    checks = []
    for p in P:
        if p['id'] in NA:
            continue
        checks.append({
            'property': p['id'], 'quick_cmd': 'python3 /verif/check.py %s' % p['id'],
            'thorough_cmd': 'python3 /verif/check.py %s --thorough' % p['id'],
            'evidence_file': '/verif/evidence/%s.json' % p['id'],
            'technique': 'contract-based deductive verification: verification conditions generated path-wise from the real '
                         'source in /repo (pre/postconditions, class and loop invariants, monitor invariants), discharged '
                         'by z3 with cvc5 as fallback; counter-models and failed obligations are replayed by run-time '
                         'contract checks on the unmodified code',
            'level': 'exploration' if p['bounded'] else 'proof',
            'level_note': p['note'] or 'all contracts of this property are discharged without bounds; see evidence for the '
                                       'functions under contract and DESIGN.md for the trusted base'})
    m = {'version': 1, 'setup_cmd': 'python3-vt -m pyvc.selftest', 'checks': checks,
         'not_applicable': [{'property': k, 'reason': r} for k, r in (NA.items() if isinstance(NA, dict) else [])]}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
