import coop
from base import case, main
from satella.coding.concurrent import Monitor, RMonitor, MonitorSet, MonitorList, MonitorDict, LockedDataset
from satella.exceptions import ResourceNotLocked, WouldWaitMore

KINDS = ['synchronized', 'on', 'attr', 'acquire', 'with', 'release', 'rsync', 'rwith']


class Boom(Exception):
    pass


def gen(rng, size):
    for _ in range(40 * size):
        for k in KINDS:
            yield {'kind': k, 'seed': rng.randint(0, 10 ** 9), 'p': rng.choice([0.1, 0.3]),
                   'fail': [[rng.random() < 0.3 for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(1, 3))]}


@case('critical sections exclude each other and are left', gen, '1-3 threads, up to 3 calls each')
def run(inp):
    kind = inp['kind']
    box = {'n': 0, 'in': 0}

    def body(fail, arg=None):
        assert box['in'] == 0, 'two threads inside'
        box['in'] += 1
        v = box['n']
        coop.yp()
        coop.yp()
        box['n'] = v + 1
        assert box['in'] == 1
        box['in'] -= 1
        if fail:
            raise Boom()
        return v

    with coop.patched():
        class P(RMonitor if kind.startswith('r') and kind != 'release' else Monitor):
            @Monitor.synchronized
            def f(self, fail, arg=None):
                assert arg == 5
                return body(fail)

            @Monitor.synchronized
            def g(self, fail):
                body(False)
                with Monitor.release(self):
                    coop.yp()
                    if fail:
                        raise Boom()
                return body(fail)
        m = P()

        class Q:
            mon = m

            @Monitor.synchronize_on_attribute('mon')
            def f(self, fail, arg=None):
                assert arg == 5
                return body(fail)

            @Monitor.synchronize_on(m)
            def h(self, fail, arg=None):
                assert arg == 5
                return body(fail)
        q = Q()

    def call(fail):
        if kind in ('synchronized', 'rsync'):
            return m.f(fail, arg=5)
        if kind == 'on':
            return q.h(fail, arg=5)
        if kind == 'attr':
            return q.f(fail, arg=5)
        if kind == 'acquire':
            with Monitor.acquire(m):
                return body(fail)
        if kind in ('with', 'rwith'):
            with m as z:
                assert z is m
                return body(fail)
        return m.g(fail)

    def thread(fails):
        def f():
            for x in fails:
                try:
                    r = call(x)
                    assert not x and r is not None, 'exception swallowed'
                except Boom:
                    assert x
        return f

    for r, e in coop.schedule(inp['seed'], [thread(f) for f in inp['fail']], inp['p']):
        if e is not None:
            raise e
    calls = sum(len(f) for f in inp['fail'])
    if kind == 'release':
        calls += sum(1 for f in inp['fail'] for x in f if not x)
    assert box['n'] == calls, 'lost update: %d of %d' % (box['n'], calls)
    assert m._monitor_lock.acquire(blocking=False), 'the lock is still held'


def gen2(rng, size):
    for _ in range(150 * size):
        yield {'seed': rng.randint(0, 10 ** 9), 'p': rng.choice([0.1, 0.3]),
               'modes': [[rng.choice(['plain', 'plain', 'with', 'nonblock', 'timeout', 'fail', 'method', 'nmeth', 'tmeth', 'nested'])
                          for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(1, 3))]}


@case('locked dataset', gen2, '1-3 threads, up to 3 accesses each')
def run2(inp):
    with coop.patched():
        class D(LockedDataset):
            def __init__(self):
                super().__init__()
                with self:
                    self.x = 0

            @LockedDataset.locked()
            def meth(self, d):
                v = self.x
                coop.yp()
                self.x = v + d
                return v

            @LockedDataset.locked(blocking=False)
            def nmeth(self, a, *, b):
                v = self.x
                coop.yp()
                self.x = v + a + b
                return [v]

            @LockedDataset.locked(timeout=1)
            def tmeth(self, d=1, **kw):
                assert kw == {'k': 3}
                v = self.x
                coop.yp()
                self.x = v + d
                return [v]
        d = D()
        e = None
    ok = [0]

    def thread(modes):
        def f():
            for m in modes:
                try:
                    if m == 'method':
                        assert type(d.meth(1)) is int
                    elif m == 'nmeth':
                        assert type(d.nmeth(2, b=-1)) is list
                    elif m == 'tmeth':
                        assert type(d.tmeth(k=3)) is list
                    elif m == 'nested':
                        with d as z:
                            v = z.x
                            for f in (lambda: d.nmeth(1, b=1), lambda: d.tmeth(k=3), d(blocking=False).__enter__, d(timeout=1).__enter__):
                                try:
                                    f()
                                    assert False, 'run though the lock could not be taken'
                                except WouldWaitMore:
                                    pass
                            z.x = v + 1
                    else:
                        cm = {'nonblock': lambda: d(blocking=False), 'timeout': lambda: d(timeout=1)}.get(
                            m, (lambda: d) if m == 'with' else lambda: d())()
                        with cm as z:
                            v = z.x
                            coop.yp()
                            z.x = v + 1
                            if m == 'fail':
                                raise Boom()
                    ok[0] += 1
                except WouldWaitMore:
                    assert m in ('nonblock', 'timeout', 'nmeth', 'tmeth'), 'gave up though no timeout was given'
                except Boom:
                    ok[0] += 1
        return f

    for r, e in coop.schedule(inp['seed'], [thread(f) for f in inp['modes']], inp['p']):
        if e is not None:
            raise e
    for f in (lambda: d.x, lambda: setattr(d, 'x', 3)):
        try:
            f()
        except ResourceNotLocked:
            continue
        raise AssertionError('access without the lock')
    with d(blocking=True, timeout=-1):
        assert d.x == ok[0], 'lost update: %d of %d' % (d.x, ok[0])


def gen3(rng, size):
    for _ in range(150 * size):
        yield {'seed': rng.randint(0, 10 ** 9), 'p': rng.choice([0.1, 0.3]),
               'items': [[rng.randint(0, 2) for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(1, 3))]}


@case('insert if absent', gen3, '1-3 threads, up to 3 inserts each')
def run3(inp):
    with coop.patched():
        s = MonitorSet()
    won = []

    def thread(items):
        def f():
            for i in items:
                r = s.insert_and_check(i)
                assert r is True or r is False
                if r:
                    won.append(i)
        return f
    for r, e in coop.schedule(inp['seed'], [thread(f) for f in inp['items']], inp['p']):
        if e is not None:
            raise e
    want = sorted({i for l in inp['items'] for i in l})
    assert sorted(won) == want and sorted(s) == want, 'insertions reported: %r' % sorted(won)


def gen4(rng, size):
    for _ in range(300 * size):
        yield {'what': rng.choice(['list', 'dict']), 'start': [[rng.randint(0, 4), rng.randint(0, 9)] for _ in range(rng.randint(0, 5))],
               'how': rng.randint(0, 2),
               'ops': [[rng.choice(['get', 'set', 'del', 'slice', 'dslice', 'add', 'len', 'in', 'copy', 'deep', 'sync', 'pop']), rng.randint(-2, 5), rng.randint(0, 9)] for _ in range(rng.randint(1, 8))]}


def outcome(f):
    try:
        return ['ok', f()]
    except (IndexError, KeyError) as e:
        return [type(e).__name__]


@case('monitor lists and dictionaries', gen4, 'up to 8 operations')
def run4(inp):
    import copy
    if inp['what'] == 'list':
        ref = [[v] for k, v in inp['start']]
        m = MonitorList(iter(ref) if inp['how'] == 1 else ref) if ref or inp['how'] else MonitorList()
    else:
        ref = {'k%d' % k: [v] for k, v in inp['start']}
        m = MonitorDict(ref) if inp['how'] == 0 else MonitorDict(**ref) if inp['how'] == 1 else MonitorDict(list(ref.items()))
    ref = copy.copy(ref)

    def delete(x, k):
        del x[k]

    def both(f, what):
        r, e = outcome(lambda: f(m)), outcome(lambda: f(ref))
        assert r == e, '%s gave %r instead of %r' % (what, r, e)
        return r
    lst = inp['what'] == 'list'
    for op, k, v in inp['ops']:
        if not lst:
            k = 'k%d' % k
        if op == 'get':
            both(lambda x: x[k], op)
        elif op == 'set':
            both(lambda x: x.__setitem__(k, [v]), op)
        elif op == 'del':
            both(lambda x: delete(x, k), op)
        elif op == 'slice' and lst:
            both(lambda x: list(x[k:v]), op)
        elif op == 'dslice' and lst:
            both(lambda x: delete(x, slice(k, v)), op)
        elif op == 'add':
            both(lambda x: x.append([v]) if lst else x.update({k: [v]}), op)
        elif op == 'pop':
            both(lambda x: x.pop(k), op)
        elif op == 'len':
            both(len, op)
        elif op == 'in':
            both(lambda x: [v] in x if lst else k in x, op)
        elif op in ('copy', 'deep'):
            c = (copy.copy if op == 'copy' else copy.deepcopy)(m)
            assert type(c) is type(m) and c == ref and c is not m
            for i in (range(len(ref)) if lst else ref):
                assert (c[i] is m[i]) == (op == 'copy')
            with c:                  # a copy has a lock of its own
                with m:
                    c.append([1]) if lst else c.update(new=1)
            assert m == ref, 'changing the copy changed the original'
        elif op == 'sync':
            with m as z:
                assert z is m and not m._monitor_lock.acquire(blocking=False)
            with Monitor.acquire(m), Monitor.release(m), m:
                pass
    assert m == ref and len(m) == len(ref) and list(m) == list(ref) and (lst or list(m.items()) == list(ref.items()))
    assert m._monitor_lock.acquire(blocking=False)


main('C03')
