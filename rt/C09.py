import threading
import time
from concurrent.futures import Future, ThreadPoolExecutor

from base import case, main
import coop
from satella.coding.structures import ExclusiveWritebackCache
from satella.exceptions import WouldWaitMore


class Fifo:
    """runs what it is given in the order of submission: at once, or when told to"""

    def __init__(self, lazy):
        self.lazy = lazy
        self.q = []

    def submit(self, f, *a, **kw):
        fut = Future()
        self.q.append((fut, f, a, kw))
        if not self.lazy:
            self.drain()
        orig = fut.result

        def result(timeout=None):
            self.drain()
            return orig(timeout)
        fut.result = result
        return fut

    def drain(self):
        while self.q:
            fut, f, a, kw = self.q.pop(0)
            try:
                fut.set_result(f(*a, **kw))
            except BaseException as e:
                fut.set_exception(e)


class Store:
    def __init__(self, init):
        self.d = dict(init)
        self.reads = []
        self.writes = []

    def read(self, k):
        self.reads.append(k)
        return self.d[k]

    def write(self, k, v):
        self.writes.append((k, v))
        self.d[k] = v

    def delete(self, k):
        self.d.pop(k, None)


def gen(rng, size):
    for _ in range(2500 * size):
        n = rng.choice([4, 8, 20, 260]) if rng.random() < .1 else rng.randint(1, 14)
        yield {'init': [[rng.randint(0, 4), rng.randint(0, 3)] for _ in range(rng.randint(0, 3))], 'lazy': rng.random() < .5,
               'ske': rng.random() < .7, 'del': rng.random() < .9,
               'ops': [[rng.choice(['get', 'get', 'set', 'del', 'drain']), rng.randint(0, 4), rng.choice([None, 0, 1, 2, 'x'])] for _ in range(n)]}


def attempt(f, *a):
    try:
        return 'ok', f(*a)
    except Exception as e:
        return 'exc', type(e)


@case('write-back histories', gen, 'up to 260 operations on 5 keys, immediate and delayed execution')
def run(inp):
    st = Store(map(tuple, inp['init']))
    ex = Fifo(inp['lazy'])
    c = ExclusiveWritebackCache(st.write, st.read, st.delete if inp['del'] else None, executor=ex, store_key_errors=inp['ske'])
    m = dict(st.d)
    known, n = set(), 0
    for op, k, v in inp['ops']:
        if op == 'get':
            r = len(st.reads)
            got = attempt(c.__getitem__, k)
            exp = ('ok', m[k]) if k in m else ('exc', KeyError)
            assert got == exp, 'reading %r gives %r, expected %r' % (k, got, exp)
            asked = len(st.reads) - r
            assert asked <= 1, 'the storage asked %d times' % asked
            if len(inp['ops']) < 90:
                assert asked == (k not in known), 'the storage asked %d times about %r (known: %r)' % (asked, k, k in known)
            if k in m or inp['ske']:
                known.add(k)
        elif op == 'set':
            nw = len(st.writes) + sum(1 for t in ex.q if t[1] == st.write)
            c[k] = v
            m[k] = v
            known.add(k)
            assert len(st.writes) + sum(1 for t in ex.q if t[1] == st.write) == nw + 1, 'not written exactly once'
        elif op == 'del':
            got = attempt(c.__delitem__, k)
            if inp['del']:
                assert got == ('ok', None), got
                m.pop(k, None)
                known.add(k)
            else:
                assert got == ('exc', TypeError), got
        else:
            ex.drain()
            assert st.d == m, 'the storage holds %r, expected %r' % (st.d, m)
    ex.drain()
    assert st.d == m, 'the storage holds %r, expected %r' % (st.d, m)


def gen_c(rng, size):
    for _ in range(400 * size):
        yield {'seed': rng.randint(0, 10 ** 9), 'init': rng.choice([[], [[1, 'old']]]),
               'pre': rng.random() < .5,
               'threads': [[rng.choice(['get', 'set', 'set', 'del']) for _ in range(rng.randint(1, 2))] for _ in range(rng.randint(2, 3))]}


@case('racing reads, writes and deletes', gen_c, '2-3 threads with 1-2 operations each on one key, seeded schedules', .7)
def race(inp):
    with coop.patched():
        st = Store(map(tuple, inp['init']))
        c = ExclusiveWritebackCache(st.write, st.read, st.delete, executor=Fifo(False))
    if inp['pre']:
        attempt(c.__getitem__, 1)
    vals = {'old'}
    res = []

    def thread(i, ops):
        def f():
            for j, op in enumerate(ops):
                if op == 'get':
                    res.append(attempt(c.__getitem__, 1))
                elif op == 'set':
                    vals.add((i, j))
                    c[1] = (i, j)
                else:
                    del c[1]
        return f
    for _, e in coop.schedule(inp['seed'], [thread(i, ops) for i, ops in enumerate(inp['threads'])], p=.3):
        if e is not None:
            raise e
    for r in res:
        assert r == ('exc', KeyError) or (r[0] == 'ok' and r[1] in vals), 'a read gave %r' % (r,)
    final = attempt(st.d.__getitem__, 1)
    for _ in range(2):
        assert attempt(c.__getitem__, 1) == final, 'cache and storage disagree after the race: %r, %r' % (attempt(c.__getitem__, 1), final)


def gen_s(rng, size):
    for n in (5, 2):
        yield {'timeout': 0.4, 'n': n}
        yield {'timeout': None, 'n': n}
    yield {'timeout': 30, 'n': 2}


@case('sync waits for the writes, up to the timeout', gen_s, 'five real-time runs')
def sync(inp):
    gate = threading.Event()
    done = []

    def write(k, v):
        gate.wait(20)
        done.append((k, v))
    ex = ThreadPoolExecutor(max_workers=2)
    c = ExclusiveWritebackCache(write, lambda k: 1 // 0, executor=ex, no_concurrent_executors=2)
    try:
        for i in range(inp['n']):
            c[i] = i
        if inp['timeout'] == 0.4:
            t = time.monotonic()
            try:
                c.sync(inp['timeout'])
            except WouldWaitMore:
                pass
            else:
                raise AssertionError('sync returned although writes are pending')
            assert inp['timeout'] * .9 <= time.monotonic() - t < inp['timeout'] + 10, 'timeout not honoured'
        else:
            threading.Timer(0.3, gate.set).start()
            c.sync(inp['timeout'])
            assert len(done) == inp['n'], 'sync returned with %d of %d writes done' % (len(done), inp['n'])
    finally:
        gate.set()
        ex.shutdown()


def gen_k(rng, size):
    yield {'workers': 'default', 'writes': [1, 2]}


@case('two writes of one key, the first of them slow', gen_k, 'one history')
def reorder(inp):
    d = {}
    first = threading.Event()

    def write(k, v):
        if v == 1:
            first.wait(1)
        d[k] = v
        if v == 2:
            first.set()
    c = ExclusiveWritebackCache(write, d.__getitem__)
    c['k'] = 1
    c['k'] = 2
    c.executor.shutdown(wait=True)
    assert d['k'] == 2, 'the storage ends with the first of two values written'


if __name__ == '__main__':
    main('C09')
