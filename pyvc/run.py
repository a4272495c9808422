"""Discharge all contracts of one property.  Usage: python3-vt -m pyvc.run PROP --out FILE [--tier thorough]"""
import argparse
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import sys
import time
import traceback


def work(args):
    prop, idx, second, deadline = args
    from pyvc import api, instrument
    c = api.REG[prop][idx]
    t0 = time.time()
    r = {'name': c.name, 'functions': c.functions}
    try:
        import signal

        def onalarm(*a):
            from pyvc import core
            core.EXPIRED.append(1)
            raise core.Unsupported('time budget of the contract exhausted')

        signal.signal(signal.SIGALRM, onalarm)
        signal.alarm(max(5, int(deadline)))
        e = api.run_contract(c, second)
        signal.alarm(0)
        r.update(status=e.status(), paths=e.paths, completed=e.completed, queries=e.queries,
                 solver_s=round(e.solver_time, 3), unsupported=sorted(set(e.unsupported))[:5],
                 missing=sorted(set(c.must_reach) - e.reached), rounds=e.rounds, second=e.second_stats,
                 bounded=e.bounded or c.unroll is not None,
                 obligations=[{'name': o.name, 'queries': o.queries, 'time': round(o.time, 3),
                               'backends': sorted(o.backends), 'ok': not o.failed,
                               'failed': None if not o.failed else
                               {'status': o.failed[0], 'model': o.failed[1], 'negated': o.failed[2]}}
                              for o in e.obls.values()],
                 loops={s: {'havoc': sorted(i.havoc), 'not_inductive': sorted(i.dead)} for s, i in e.loops.items()})
    except BaseException as ex:
        r.update(status='error', error=''.join(traceback.format_exception(ex))[-3000:], obligations=[], paths=0,
                 completed=0, queries=0, solver_s=0, unsupported=[repr(ex)[:300]], missing=[], second={}, bounded=False)
        try:
            import signal
            signal.alarm(0)
        except Exception:
            pass
    r['wall_s'] = round(time.time() - t0, 2)
    return r


def child(job, conn):
    conn.send_bytes(json.dumps(work(job)).encode())
    conn.close()
    os._exit(0)


def scheduled(jobs, hard, width=8):
    """results in the order of the jobs, each job in a process of its own, ended if it does not end in time by itself
    (a solver that does not honour its time limit)"""
    mp = multiprocessing.get_context('fork')
    from pyvc import api
    todo, live, done, again = list(enumerate(jobs)), {}, {}, set()
    while todo or live:
        while todo and len(live) < width:
            k, job = todo.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=child, args=(job, b))
            p.start()
            b.close()
            live[k] = (p, a, time.time(), job)
        multiprocessing.connection.wait([x[1] for x in live.values()], 1)
        for k, (p, a, t, job) in list(live.items()):
            r = None
            if a.poll():
                try:
                    r = json.loads(a.recv_bytes())
                except EOFError:
                    pass
                why = 'the process of the contract ended'
            elif time.time() - t > hard:
                why = 'time budget of the contract exhausted (solver did not return)'
            else:
                continue
            if r is None and k not in again:
                again.add(k)
                p.kill()
                p.join()
                a.close()
                del live[k]
                todo.append((k, job))
                continue
            if r is None:
                c = api.REG[job[0]][job[1]]
                r = dict(name=c.name, functions=c.functions, status='unsupported', obligations=[], paths=0, completed=0, queries=0,
                         solver_s=0, unsupported=[why], missing=[], second={}, bounded=False, wall_s=round(time.time() - t, 2))
            p.kill()
            p.join()
            a.close()
            del live[k]
            done[k] = r
    return [done[k] for k in range(len(jobs))]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--out')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--only', default='')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, here)
    repo = os.environ.get('VERIF_REPO', '/repo')
    from pyvc import instrument
    instrument.install(repo)
    res = {'property': a.prop, 'contracts': [], 'error': None}
    t0 = time.time()
    try:
        importlib.import_module('props.' + a.prop)
    except BaseException as e:
        res['error'] = ''.join(traceback.format_exception(e))[-4000:]
    from pyvc import api
    cs = api.REG.get(a.prop, [])
    second = a.tier == 'thorough'
    dl = 2000 if second else 200
    jobs = [(a.prop, i, second, dl) for i, c in enumerate(cs) if a.only in c.name]
    if jobs:
        if True:
            for r in scheduled(jobs, dl + 25):
                res['contracts'].append(r)
                if a.v:
                    print('%-50s %-11s paths=%d completed=%d obl=%d solver=%.1fs wall=%.1fs %s %s' % (
                        r['name'], r['status'], r['paths'], r['completed'], len(r['obligations']), r['solver_s'],
                        r['wall_s'], r['unsupported'], r['missing'] or ''))
                    if r.get('error'):
                        print(r['error'])
                    for o in r['obligations']:
                        if not o['ok']:
                            print('     FAIL %s %s %s' % (o['name'], o['failed']['status'], o['failed']['model']))
    res['instrumentation'] = {k: v for k, v in instrument.STATS.items() if k != 'sources'}
    res['sources'] = {k: v for k, v in instrument.STATS['sources'].items()}
    res['wall_s'] = round(time.time() - t0, 2)
    if a.out:
        with open(a.out, 'w') as f:
            json.dump(res, f)
    if a.v and res['error']:
        print(res['error'])


if __name__ == '__main__':
    main()
