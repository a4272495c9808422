import fakeclock
import coop
import sys
import threading
import time
from concurrent.futures import ThreadPoolExecutor

from base import case, main
from satella.coding.concurrent import AtomicNumber, PeekableQueue, DeferredValue, Condition
from satella.coding.concurrent.futures import ExecutorWrapper
from satella.coding.concurrent.sync import sync_threadpool
from satella.coding.concurrent.thread import call_in_separate_thread
from satella.exceptions import WouldWaitMore, Empty, ResourceLocked

threading.excepthook = lambda *a: None


class Boom(Exception):
    pass


def results(rs):
    for r, e in rs:
        if e is not None:
            raise e
    return [r for r, e in rs]


# ---------------------------------------------------------------------------------------------- queue, one thread
def gen_q1(rng, size):
    for _ in range(300 * size):
        yield [rng.choice([['put', rng.randint(0, 9)], ['many', [rng.randint(0, 9) for _ in range(rng.randint(0, 3))]], ['get', 0], ['get', 2],
                           ['peek', 0], ['peek', 1], ['size']]) for _ in range(rng.randint(1, 12))]


@case('queue in one thread', gen_q1, 'up to 12 operations')
def q1(ops):
    with coop.patched(), fakeclock.Clock() as clock:
        q, ref = PeekableQueue(), []

        def go():
            for op, *a in ops:
                if op == 'put':
                    q.put(a[0])
                    ref.append(a[0])
                elif op == 'many':
                    q.put_many(a[0])
                    ref.extend(a[0])
                elif op == 'size':
                    assert q.qsize() == len(ref)
                else:
                    t0 = clock.now
                    try:
                        r = getattr(q, op)(timeout=a[0])
                        assert ref, 'got %r from an empty queue' % (r,)
                        assert r == (ref.pop(0) if op == 'get' else ref[0]), '%s gave %r' % (op, r)
                        assert clock.now == t0, 'waited although there was an element'
                    except Empty:
                        assert not ref, 'reported as empty'
                        assert clock.now - t0 >= a[0], 'gave up too early'
        results(coop.schedule(1, [go], 0))


# ---------------------------------------------------------------------------------------------- queue, many threads
def gen_q2(rng, size):
    for _ in range(700 * size):
        puts = []
        for i in range(rng.randint(1, 3)):
            puts.append([rng.randint(1, 3) for _ in range(rng.randint(1, 3))])
        total = sum(sum(p) for p in puts)
        readers = []
        for i in range(rng.randint(1, 4)):
            readers.append([])
        left = total - 1
        for i in range(rng.randint(1, 8)):
            k = rng.choice(['get', 'get', 'peek', 'tget', 'tpeek'])
            if k in ('get', 'tget'):
                if not left:
                    continue
                left -= 1
            rng.choice(readers).append(k)
        yield {'seed': rng.randint(0, 10 ** 9), 'p': rng.choice([0.05, 0.2, 0.4]), 'puts': puts, 'readers': readers}


@case('queue between threads', gen_q2, 'up to 3 writers and 4 readers')
def q2(inp):
    with coop.patched(), fakeclock.Clock() as clock:
        q, got, late = PeekableQueue(), [], []
        put = []

        def writer(i, sizes):
            def f():
                n = 0
                for s in sizes:
                    items = [(i, n + j) for j in range(s)]
                    put.extend(items)
                    n += s
                    if s == 1:
                        q.put(items[0])
                    else:
                        q.put_many(items)
            return f

        def reader(ops):
            def f():
                mine = []
                for op in ops:
                    t0 = clock.now
                    try:
                        x = getattr(q, op.lstrip('t'))(**({'timeout': 5} if op[0] == 't' else {}))
                    except Empty:
                        assert op[0] == 't', 'gave up without a timeout'
                        assert clock.now - t0 >= 5, 'gave up too early'
                        continue
                    if op in ('get', 'tget'):
                        mine.append(x)
                        got.append(x)
                    else:
                        assert x in put, 'peeked at something never put'
                for i in {x[0] for x in mine}:
                    s = [x[1] for x in mine if x[0] == i]
                    assert s == sorted(s), 'out of order'
            return f
        results(coop.schedule(inp['seed'], [writer(i, s) for i, s in enumerate(inp['puts'])] + [reader(r) for r in inp['readers']], inp['p']))
        rest = []
        while q.qsize():
            rest.append(q.get(timeout=0))
        assert sorted(got + rest) == sorted(put), 'elements lost or duplicated'


# ---------------------------------------------------------------------------------------------- numbers
OPS = {'+': lambda a, x: a.__iadd__(x), '-': lambda a, x: a.__isub__(x), '*': lambda a, x: a.__imul__(x), '/': lambda a, x: a.__itruediv__(x),
       '//': lambda a, x: a.__ifloordiv__(x), '**': lambda a, x: a.__ipow__(x), '&': lambda a, x: a.__iand__(x), '|': lambda a, x: a.__ior__(x),
       '^': lambda a, x: a.__ixor__(x), '<<': lambda a, x: a.__ilshift__(x), '>>': lambda a, x: a.__irshift__(x)}


def gen_n(rng, size):
    for _ in range(700 * size):
        start = rng.randint(0, 9)
        ops = [[rng.choice(list(OPS)), rng.randint(1, 3)] for _ in range(rng.randint(0, 4))]
        yield {'seed': rng.randint(0, 10 ** 9), 'p': rng.choice([0.05, 0.2, 0.4]), 'start': start, 'ops': ops,
               'waiters': [rng.choice([None, None, 0, 3]) for _ in range(rng.randint(1, 3))], 'atomic': rng.random() < .3, 'other': rng.random() < .2, 'never': False}
    for _ in range(60 * size):
        yield {'seed': rng.randint(0, 10 ** 9), 'p': rng.choice([0.05, 0.2, 0.4]), 'start': 3, 'ops': [[rng.choice('+-*'), rng.randint(1, 3)] for _ in range(rng.randint(1, 4))],
               'waiters': [rng.choice([0, 1, 3]) for _ in range(rng.randint(1, 3))], 'atomic': rng.random() < .3, 'other': rng.random() < .2, 'never': True}


def fix(ops, start):
    """the operations applicable to what the value is at that point, the last one giving a value not seen before"""
    v, out, seen = start, [], [start]
    for op, x in ops + [[ops[-1][0], 3], [ops[-1][0], 2], ['+', 1000]] if ops else [['+', 1000]]:
        if isinstance(v, float) and op in '& | ^ << >>' or abs(v) > 1e6 and op in '** * <<':
            op = '+'
        v = eval('v %s x' % op)
        out.append((op, x))
        if len(out) >= len(ops) and v not in seen:
            return out, v
        seen.append(v)
    return out, v


@case('waiting for a value', gen_n, 'one or two changing threads, up to 3 waiting')
def n(inp):
    ops, target = fix(inp['ops'], inp['start'])
    with coop.patched(), fakeclock.Clock() as clock:
        a = AtomicNumber(inp['start'])
        final = target
        if inp.get('never'):
            target = 0.5
        tgt = AtomicNumber(target) if inp['atomic'] else target
        start = clock.now

        def change():
            for op, x in ops:
                OPS[op](a, x)

        def extra():
            for _ in range(3):
                int(a)
                a == -1

        def wait(t):
            def f():
                t0 = clock.now
                try:
                    assert a.wait_until_equal(tgt, t) is None
                    assert a.value == target, 'returned although the value is %r' % (a.value,)
                except WouldWaitMore:
                    assert t is not None, 'gave up without a timeout'
                    assert clock.now - t0 >= t, 'gave up too early'
            return f
        results(coop.schedule(inp['seed'], [change] + [wait(t) for t in inp['waiters']] + ([extra] if inp['other'] else []), inp['p']))
        assert a.value == final, '%r instead of %r' % (a.value, final)


def gen_w(rng, size):
    for op in OPS:
        for t in (None, 5):
            for throw in (True, False):
                yield {'op': op, 'timeout': t, 'throw': throw, 'change': True, 'seed': rng.randint(0, 999)}
    for t in (0, 5):
        for throw in (True, False):
            yield {'op': '+', 'timeout': t, 'throw': throw, 'change': False, 'seed': rng.randint(0, 999)}


@case('a change wakes up', gen_w, 'every in-place operation')
def w(inp):
    with coop.patched(), fakeclock.Clock() as clock:
        a = AtomicNumber(20)
        state = []

        def waiter():
            t0 = clock.now
            try:
                a.wait(inp['timeout'], inp['throw'])
                assert inp['change'] or not inp['throw'], 'returned though nothing has changed'
                assert inp['change'] or clock.now - t0 >= inp['timeout'], 'returned early though nothing has changed'
            except WouldWaitMore:
                assert inp['throw'] and inp['timeout'] is not None and clock.now - t0 >= inp['timeout']
            state.append('done')

        def changer():
            # repeat until the other thread has certainly started waiting
            for _ in range(200):
                if state or not inp['change']:
                    return
                before = a.value
                OPS[inp['op']](a, 2)
                if a.value == before or abs(a.value) > 1e6 or a.value == 0:
                    a.value = 20
                    OPS[inp['op']](a, 3)
                coop.yp()
        results(coop.schedule(inp['seed'], [waiter, changer], 0.5))
        assert state == ['done']


# ---------------------------------------------------------------------------------------------- DeferredValue
def gen_d(rng, size):
    for _ in range(400 * size):
        yield {'seed': rng.randint(0, 10 ** 9), 'p': rng.choice([0.1, 0.4]), 'sets': rng.randint(0, 3),
               'waits': [rng.choice([None, 0, 4]) for _ in range(rng.randint(1, 3))], 'alias': rng.random() < .5}


@case('deferred value', gen_d, 'up to 3 threads setting and 3 waiting')
def d(inp):
    with coop.patched(), fakeclock.Clock() as clock:
        v, won, got = DeferredValue(), [], []

        def setter(i):
            def f():
                try:
                    v.set_value(i)
                    won.append(i)
                except ValueError:
                    pass
            return f

        def waiter(t):
            def f():
                t0 = clock.now
                if t is None and not inp['sets']:
                    return
                try:
                    got.append((v.result if inp['alias'] else v.value)(t))
                except WouldWaitMore:
                    assert t is not None and clock.now - t0 >= t, 'gave up too early'
            return f
        results(coop.schedule(inp['seed'], [setter(i) for i in range(inp['sets'])] + [waiter(t) for t in inp['waits']], inp['p']))
        assert len(won) == (1 if inp['sets'] else 0), 'the value was set successfully %d times' % len(won)
        assert all(g == won[0] for g in got), 'values seen: %r, value set: %r' % (got, won)


# ---------------------------------------------------------------------------------------------- Condition
def gen_c(rng, size):
    for _ in range(300 * size):
        yield {'seed': rng.randint(0, 10 ** 9), 'p': rng.choice([0.1, 0.4]), 'waits': [rng.choice([None, 0, 3, '4s', -1]) for _ in range(rng.randint(1, 3))],
               'quiet': rng.random() < .4, 'how': rng.choice(['all', 1, 2])}


@case('condition', gen_c, 'up to 3 threads waiting')
def c(inp):
    with coop.patched(), fakeclock.Clock() as clock:
        cond, done = Condition(), []
        told = []

        def waiter(t):
            def f():
                t0 = clock.now
                try:
                    cond.wait(t, dont_raise=inp['quiet'])
                    assert told or (inp['quiet'] and t is not None), 'woken up by nobody'
                except ResourceLocked:
                    assert t is not None
                except WouldWaitMore:
                    assert t is not None and not inp['quiet']
                    assert clock.now - t0 >= (4 if t == '4s' else max(t, 0)), 'gave up too early'
                done.append(1)
            return f

        def teller():
            for _ in range(2000):
                if len(done) == len(inp['waits']):
                    return
                told.append(1)
                if inp['how'] == 'all':
                    cond.notify_all()
                else:
                    cond.notify(inp['how'])
                coop.yp()
        results(coop.schedule(inp['seed'], [waiter(t) for t in inp['waits']] + [teller], inp['p']))


# ---------------------------------------------------------------------------------------------- pools
def gen_p(rng, size):
    for _ in range(size):
        for workers in (1, 3):
            for jobs in (0, 5):
                yield {'workers': workers, 'jobs': jobs, 'max_wait': rng.choice([None, 30]), 'wrap': rng.random() < .5, 'stuck': False, 'slow': True}
            for wrap in (False, True):
                yield {'workers': workers, 'jobs': 1, 'max_wait': 0.3, 'wrap': wrap, 'stuck': True, 'slow': False}
        for mw in (None, 30):
            yield {'workers': 4, 'jobs': 2, 'max_wait': mw, 'wrap': False, 'stuck': False, 'slow': False, 'long': 0.4}


@case('thread pool', gen_p, 'pools of 1 and 3 workers')
def p(inp):
    tpe = ThreadPoolExecutor(inp['workers'])
    e = ExecutorWrapper(tpe) if inp['wrap'] else tpe
    done, go, box = [], threading.Event(), []

    def job(i):
        if inp['stuck']:
            go.wait()
        time.sleep(inp.get('long', 0.02))
        done.append(i)
    for i in range(inp['jobs']):
        tpe.submit(job, i)

    def run():
        try:
            sync_threadpool(e, max_wait=inp['max_wait'])
            box.append(('ok', len(done)))
        except BaseException as x:
            box.append(('exc', x))
    if inp['slow']:
        # workers are slow: each goes to sleep before it starts waiting for the others
        import satella.coding.concurrent.atomic as at
        orig = at.AtomicNumber.__isub__

        def slow(self, x):
            r = orig(self, x)
            time.sleep(0.1)
            return r
        at.AtomicNumber.__isub__ = slow
    t0 = time.time()
    t = threading.Thread(target=run, daemon=True)
    t.start()
    t.join(10)
    if inp['slow']:
        at.AtomicNumber.__isub__ = orig
    try:
        assert box, 'sync_threadpool does not return'
        if inp['stuck'] and inp['workers'] >= inp['jobs']:
            assert box[0][0] == 'exc' and isinstance(box[0][1], WouldWaitMore), box[0]
            assert time.time() - t0 >= inp['max_wait'], 'gave up too early'
            go.set()
            f = [tpe.submit(lambda: 7) for _ in range(inp['workers'] * 2)]
            end = time.time() + 5
            assert all(x.result(max(0, end - time.time())) == 7 for x in f), 'workers are lost'
        else:
            assert box[0] == ('ok', inp['jobs']), 'returned with %r, %d jobs done' % (box[0], len(done))
    finally:
        go.set()
        tpe.shutdown(wait=False)


def gen_s(rng, size):
    for what in ('value', 'raise', 'exit'):
        for attr in (True, False):
            yield {'what': what, 'attr': attr, 'delay': 0}
            yield {'what': what, 'attr': attr, 'delay': 0.01}


@case('calls in separate threads', gen_s)
def s(inp):
    me = threading.current_thread()

    t0, began = time.monotonic(), []

    @call_in_separate_thread(daemon=True, no_thread_attribute=not inp['attr'], delay=inp['delay'])
    def f(a, b=0):
        began.append(time.monotonic())
        assert threading.current_thread() is not me
        if inp['what'] == 'value':
            return a, b
        raise Boom(a, b) if inp['what'] == 'raise' else SystemExit(a, b)
    fut = f(1, b=2)
    if inp['attr']:
        fut.thread.join(5)
        assert fut.thread.future is fut
        assert fut.done(), 'the thread is over, the future is not'
    else:
        assert not hasattr(fut, 'thread')
    fut.exception(5)
    assert len(began) == 1 and began[0] - t0 >= inp['delay'], 'started %r after the call' % (began[0] - t0,)
    if inp['what'] == 'value':
        assert fut.result(5) == (1, 2)
    else:
        assert fut.exception(5).args == (1, 2) and type(fut.exception()) is (Boom if inp['what'] == 'raise' else SystemExit)


if __name__ == '__main__':
    main('C16')
