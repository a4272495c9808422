import coop
import gc
import sys

from base import case, main
from satella.coding.misc import Closeable
from satella.coding.resources import CPManager


sys.unraisablehook = lambda *a: None


class Boom(Exception):
    pass


class Conn:
    def __init__(self, i):
        self.i, self.holder, self.used, self.torn, self.failed = i, None, 0, 0, False

    def __repr__(self):
        return 'connection %d' % self.i


def results(rs):
    for r, e in rs:
        if e is not None:
            raise e


def pool(inp, made):
    class Pool(CPManager):
        creations = teardowns = 0

        def create_connection(self):
            self.creations += 1
            if self.creations in inp['no_create']:
                raise Boom('create')
            coop.yp()
            for c in made if inp.get('reuse') else []:
                if c.torn and c.holder is None:
                    # a new connection may be where a former one was
                    c.used, c.torn, c.failed = 0, 0, False
                    made.remove(c)
                    break
            else:
                c = Conn(len(made))
            made.append(c)
            return c

        def teardown_connection(self, c):
            self.teardowns += 1
            c.torn += 1
            assert c.torn == 1, '%r torn down twice' % c
            assert c.holder is None, '%r torn down while it is used' % c
            coop.yp()
            if self.teardowns in inp['no_teardown']:
                raise Boom('teardown')
    return Pool(inp['max'], inp['cycle'])


def take(p, made, inp, closed):
    was_closed = bool(closed)
    try:
        c = p.acquire_connection()
    except Boom as e:
        assert str(e) == 'create'
        return None
    except RuntimeError:
        assert closed or p.terminating, 'refused although the pool is open'
        return None
    assert not was_closed, 'a closed pool gives connections'
    assert not c.torn, '%r was torn down, and is given out' % c
    assert c.holder is None, '%r is given to two holders' % c
    assert not c.failed, '%r has failed, and is given out again' % c
    c.holder = 1
    c.used += 1
    assert c.used <= inp['cycle'], '%r taken %d times' % (c, c.used)
    return c


def give(p, c, idle, closed):
    c.holder = None
    was_closed = bool(closed)
    try:
        p.release_connection(c)
    except Boom as e:
        assert str(e) == 'teardown'
    if was_closed:
        assert c.torn, '%r released to a closed pool was not torn down' % c
    if idle is not None and not closed:
        n = idle()
        assert n <= p.max_number, '%d idle connections, %d allowed' % (n, p.max_number)


def end(p, made, closed):
    for c in made:
        if closed:
            assert c.torn == 1, '%r is left open by a closed pool' % c
        if c.failed and c.holder is None:
            assert c.torn == 1, '%r has failed, and was released, but was not torn down' % c


def setting(rng):
    return {'max': rng.randint(1, 3), 'cycle': rng.randint(1, 4), 'no_create': [rng.randint(1, 6)] if rng.random() < 0.2 else [],
            'no_teardown': [rng.randint(1, 3)] if rng.random() < 0.2 else []}


def gen_one(rng, size):
    for _ in range(500 * size):
        d = setting(rng)
        d['ops'] = [rng.choice([['take'], ['take'], ['take'], ['give', rng.randint(0, 3)], ['give', rng.randint(0, 3)], ['fail', rng.randint(0, 3)],
                                ['invalidate'], ['max', rng.randint(1, 5)], ['gc']]) for _ in range(rng.randint(1, 25))]
        d['close'] = rng.random() < 0.6
        d['reuse'] = rng.random() < 0.3
        yield d


@case('pool in one thread', gen_one, 'up to 25 operations')
def one(inp):
    made, held, closed = [], [], []
    p = pool(inp, made)

    def idle():
        return len([c for c in made if not c.torn and c.holder is None])

    def go():
        lowered = False
        for op, *a in inp['ops'] + ([['close'], ['take'], ['close']] if inp['close'] else []) + [['give', 0]] * 30:
            if op == 'take':
                n, i = p.creations, idle()
                c = take(p, made, inp, closed)
                if c is not None:
                    held.append(c)
                    assert not (i and p.creations > n), 'a new connection is made although one is idle'
                elif not closed:
                    assert p.creations in inp['no_create']
            elif op == 'give' and held:
                c = held.pop(a[0] % len(held))
                i = idle()
                give(p, c, idle if not lowered else None, closed)
                if not closed and not c.failed and c.used < inp['cycle'] and i < p.max_number:
                    assert not c.torn, '%r could be used again, and was torn down' % c
                if c.used >= inp['cycle']:
                    assert c.torn, '%r used %d times and kept' % (c, c.used)
            elif op == 'fail' and held:
                c = held[a[0] % len(held)]
                p.fail_connection(c)
                c.failed = True
            elif op == 'max':
                lowered = lowered or a[0] < p.max_number
                p.max_number = a[0]
            elif op in ('invalidate', 'close'):
                if op == 'close':
                    closed.append(1)
                while True:
                    try:
                        p.invalidate() if op == 'invalidate' else p.close()
                        break
                    except Boom as e:
                        assert str(e) == 'teardown'
                        op = 'invalidate'
                assert idle() == 0, 'idle connections left by %s' % op
            elif op == 'gc':
                gc.collect()
        end(p, made, closed)
    results(coop.schedule(1, [go], 0))


def gen_many(rng, size):
    for _ in range(500 * size):
        d = setting(rng)
        d['no_teardown'] = []
        d['threads'] = [[rng.choice(['use', 'use', 'use', 'fail', 'two', 'invalidate']) for _ in range(rng.randint(1, 4))] for _ in range(rng.randint(1, 3))]
        d['close'] = rng.random() < 0.5
        d['seed'], d['p'] = rng.randint(0, 10 ** 9), rng.choice([0.05, 0.2, 0.5])
        yield d


@case('pool used by many threads', gen_many, 'up to 3 threads using the pool and one closing it')
def many(inp):
    made, closed = [], []

    with coop.patched():
        p = pool(inp, made)

        def user(ops):
            def f():
                for op in ops:
                    if op == 'invalidate':
                        p.invalidate()
                        continue
                    cs = [take(p, made, inp, closed) for _ in range(2 if op == 'two' else 1)]
                    coop.yp()
                    for c in cs:
                        if c is not None:
                            if op == 'fail':
                                p.fail_connection(c)
                                c.failed = True
                            give(p, c, None, closed)
            return f

        def closing():
            coop.yp()
            p.close()
            closed.append(1)
        results(coop.schedule(inp['seed'], [user(t) for t in inp['threads']] + ([closing] if inp['close'] else []), inp['p']))
        end(p, made, closed)
        n = len([c for c in made if not c.torn])
        assert n <= inp['max'], '%d idle connections, %d allowed' % (n, inp['max'])


def gen_c(rng, size):
    for how in ('close', 'with', 'with fail', 'del', 'never'):
        for fails in (False, True):
            for again in range(3):
                yield {'how': how, 'fails': fails, 'again': again}


@case('closing once', gen_c, 'all ways of closing')
def closing(inp):
    n = []

    class Res(Closeable):
        def __init__(self):
            if inp['how'] == 'never':
                raise Boom('not made')
            super().__init__()

        def close(self):
            if super().close():
                n.append(1)
                if inp['fails']:
                    raise Boom('close')
    if inp['how'] == 'never':
        try:
            r = Res()
        except Boom:
            r = None
        gc.collect()
        assert n == [], 'cleaned up although it was never made'
        return
    r = Res()
    assert r.closed is False and not n
    try:
        if inp['how'] == 'close':
            r.close()
        elif inp['how'] == 'del':
            r.__del__()
        else:
            with r as q:
                assert q is r and not n
                if inp['how'] == 'with fail':
                    raise KeyError()
        assert inp['how'] != 'with fail' and not inp['fails'], 'the exception was lost'
    except Boom:
        assert inp['fails']
    except KeyError:
        assert not inp['fails']
    assert n == [1] and r.closed is True, 'cleaned up %d times' % len(n)
    for _ in range(inp['again']):
        r.close()
    with r:
        pass
    del r
    gc.collect()
    assert n == [1], 'cleaned up %d times' % len(n)


main('C18')
