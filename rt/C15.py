import coop
import concurrent.futures
import logging
import threading
from concurrent.futures import Future as PythonFuture, ThreadPoolExecutor, CancelledError, wait, FIRST_EXCEPTION

from base import case, main
from satella.coding.concurrent.futures import Future, WrappingFuture, FutureCollection, wrap_if, call_in_future, ExecutorWrapper
from satella.coding.concurrent.functions import run_as_future, parallel_execute
from satella.coding.concurrent.list_processor import parallel_construct
from satella.exceptions import WouldWaitMore

logging.disable(logging.CRITICAL)


class Boom(Exception):
    pass


def outcome(f, *a):
    try:
        return ['ok', f(*a)]
    except CancelledError:
        return ['cancelled']
    except (Boom, WouldWaitMore, IndexError) as e:
        return [type(e).__name__, list(e.args)]


def gen(rng, size):
    steps = [['nop'], ['raise'], ['set', 1], ['fail', 2]]
    for a in steps:
        for b in steps:
            for fin in (['set', 7], ['fail', 8]):
                yield {'pre': [a, b], 'fin': fin, 'run': True}
    for _ in range(300 * size):
        yield {'pre': [[rng.choice(['nop', 'raise', 'set', 'fail']), rng.randint(0, 9)] for _ in range(rng.randint(0, 5))],
               'fin': [rng.choice(['set', 'fail']), rng.randint(0, 9)], 'run': rng.random() < .5}


@case('a future and its callbacks', gen, 'up to 5 pre-done callbacks')
def single(inp):
    fut = Future()
    if inp['run']:
        assert fut.set_running_or_notify_cancel()
    log, seen, done = [], [], []
    exp = list(inp['fin'])

    def expect():
        return ['ok', exp[1]] if exp[0] == 'set' else ['Boom', [exp[1]]]

    def mk(i, s):
        def pre(f):
            assert f is fut and not fut.done() and not done
            log.append(i)
            if s[0] == 'raise':
                raise Boom('callback')
            if s[0] == 'set':
                fut.set_result(s[1])
                exp[:] = s
            elif s[0] == 'fail':
                fut.set_exception(Boom(s[1]))
                exp[:] = s
            assert outcome(fut.result) == expect()
            e = fut.exception()
            assert e is None if exp[0] == 'set' else isinstance(e, Boom) and list(e.args) == [exp[1]], 'exception() is %r before done' % (e,)
        return pre
    for i, s in enumerate(inp['pre']):
        fut.add_pre_done_callback(mk(i, s))
    fut.add_done_callback(done.append)
    assert fut.on_success(lambda r: seen.append(['ok', r])) is fut
    assert fut.on_failure(lambda e: seen.append(['Boom', list(e.args)])) is fut
    chained = []
    assert fut.chain(lambda x: chained.append(x)) is fut
    if inp['fin'][0] == 'set':
        fut.set_result(inp['fin'][1])
    else:
        fut.set_exception(Boom(inp['fin'][1]))
    assert log == list(range(len(inp['pre']))), 'pre-done callbacks called: %r' % (log,)
    assert fut.done() and done == [fut]
    assert outcome(fut.result) == expect(), 'the outcome is %r instead of %r' % (outcome(fut.result), expect())
    e = fut.exception()
    assert (e is None) == (exp[0] == 'set')
    assert seen == [expect()], 'callbacks saw %r' % (seen,)
    assert len(chained) == 1 and (chained[0] is e if e is not None else chained[0] == exp[1])
    for f in (lambda: fut.set_result(1), lambda: fut.set_exception(Boom())):
        try:
            f()
        except concurrent.futures.InvalidStateError:
            pass
        else:
            assert False, 'set twice'
    assert outcome(fut.result) == expect()
    late = []

    def late_one(f):
        late.append(f)
        if inp['run']:
            raise Boom('late')
    fut.add_pre_done_callback(late_one)
    fut.add_done_callback(late_one)
    assert late == [fut, fut], 'callbacks attached to a done future called %d times' % len(late)
    seen, chained = [], []
    fut.on_success(lambda r: seen.append(['ok', r])).on_failure(lambda e: seen.append(['Boom', list(e.args)])).chain(chained.append)
    assert seen == [expect()] and len(chained) == 1, 'callbacks attached to a done future saw %r, %r' % (seen, chained)
    assert outcome(fut.result) == expect()
    d, nd = wait([fut], 0, return_when=FIRST_EXCEPTION)
    assert d == {fut}
    c = Future()
    s = []
    c.on_success(s.append)
    assert c.cancel() and c.cancelled() and not s


def gen_col(rng, size):
    kinds = ['pending', 'running', 'ok', 'fail', 'cancelled']
    for a in kinds:
        for b in kinds:
            for op in ('cancel', 'run', 'result', 'exception', 'set_result', 'set_exception', 'callback', 'one'):
                yield {'futs': [a, b], 'op': op}
    for _ in range(300 * size):
        yield {'futs': [rng.choice(kinds) for _ in range(rng.randint(0, 6))],
               'op': rng.choice(['cancel', 'run', 'result', 'exception', 'set_result', 'set_exception', 'callback', 'one', 'grow'])}


def mkfut(kind, i):
    f = (Future if i % 2 else PythonFuture)()
    if kind in ('running', 'ok', 'fail'):
        f.set_running_or_notify_cancel()
    if kind == 'ok':
        f.set_result(i)
    elif kind == 'fail':
        f.set_exception(Boom(i))
    elif kind == 'cancelled':
        f.cancel()
    return f


@case('collections of futures', gen_col, 'up to 6 futures in any state')
def col(inp):
    kinds, op = inp['futs'], inp['op']
    fs = [mkfut(k, i) for i, k in enumerate(kinds)]
    c = FutureCollection(list(fs))
    assert len(c) == len(fs) and all(c[i] is f for i, f in enumerate(fs))
    if op == 'cancel':
        r = c.cancel()
        assert r == all(k in ('pending', 'cancelled') for k in kinds), 'cancel() is %r' % r
        assert all(f.cancelled() == (k in ('pending', 'cancelled')) for f, k in zip(fs, kinds)), 'not all were cancelled'
    elif op == 'run':
        if any(k in ('running', 'ok', 'fail') for k in kinds):
            return
        r = c.set_running_or_notify_cancel()
        assert r == any(k == 'pending' for k in kinds)
        assert all(f.running() == (k == 'pending') for f, k in zip(fs, kinds)), 'not all are running'
    elif op in ('set_result', 'set_exception'):
        if any(k in ('ok', 'fail', 'cancelled') for k in kinds):
            return
        x = Boom(3)
        getattr(c, op)(x if op == 'set_exception' else 5)
        for f in fs:
            assert outcome(f.result) == (['ok', 5] if op == 'set_result' else ['Boom', [3]])
    elif op in ('result', 'exception'):
        bad = [k for k in kinds if k != 'ok']
        out = outcome(getattr(c, op), .001)
        if not bad:
            assert out == ['ok', list(range(len(fs))) if op == 'result' else None], out
        elif bad[0] == 'fail':
            if op == 'result':
                assert out == ['Boom', [kinds.index('fail')]], out
            else:
                assert out[0] == 'ok' and out[1] is fs[kinds.index('fail')].exception(), out
        elif bad[0] == 'cancelled':
            assert out == ['cancelled'], out
        else:
            assert out[0] == 'WouldWaitMore', out
    elif op == 'callback':
        seen = []
        c.add_done_callback(seen.append)
        for f, k in zip(fs, kinds):
            if k == 'pending':
                f.cancel()
            elif k == 'running':
                f.set_result(1)
        assert len(seen) == len(fs) and all(any(f is s for s in seen) for f in fs), 'called for %d of %d' % (len(seen), len(fs))
    elif op == 'one':
        seen = []
        out = outcome(lambda: c.add_done_callback(seen.append, only_one=True))
        assert out == ['ok', None] if fs else out[0] == 'IndexError'
        for f, k in zip(fs, kinds):
            if k == 'pending':
                f.cancel()
            elif k == 'running':
                f.set_result(1)
        assert len(seen) == (1 if fs else 0)
    else:
        g = [mkfut('pending', i) for i in range(2)]
        for d, extra in ((c + FutureCollection(g), g), (c + g, g), (c + g[0], g[:1]), (c + tuple(g), g)):
            assert isinstance(d, FutureCollection) and [id(f) for f in d.futures] == [id(f) for f in fs + extra]
        assert [id(f) for f in c.futures] == [id(f) for f in fs], 'the operand changed'
        d = c
        d += FutureCollection(g)
        d += g
        d += g[0]
        assert d is c and c.add(g[1]) is c and [id(f) for f in c.futures] == [id(f) for f in fs + g + g + [g[0], g[1]]]


def gen_wrap(rng, size):
    for fin in ('set', 'fail', 'cancel', 'wcancel'):
        for when in ('before', 'after', 'running'):
            yield {'fin': fin, 'when': when}


@case('wrapping futures', gen_wrap, 'all orders of wrapping and completion')
def wrapping(inp):
    src = PythonFuture()
    fin, when = inp['fin'], inp['when']
    can = 'cancel' in fin

    def finish():
        if fin == 'set':
            src.set_result(5)
        elif fin == 'fail':
            src.set_exception(Boom(5))
        elif fin == 'cancel':
            assert src.cancel() == (when != 'running')
        else:
            assert (w or src).cancel() == (when != 'running')
    w = None
    if when == 'running':
        src.set_running_or_notify_cancel()
    if when == 'before':
        if not can:
            src.set_running_or_notify_cancel()
        finish()
    w = wrap_if(src)
    assert wrap_if(w) is w and isinstance(w, Future)
    done, ok = [], []
    w.add_done_callback(done.append)
    w.on_success(ok.append)
    got = []
    t = threading.Thread(target=lambda: got.append(outcome(w.result, 10)), daemon=True)
    t.start()
    if when == 'after' and not can:
        assert w.set_running_or_notify_cancel() and w.running() and src.running()
    if when != 'before':
        assert not w.done() and not done
        import time
        time.sleep(.002)
        finish()
    if can and when == 'running':
        assert not w.done() and not w.cancelled() and not done, 'done though it could not be cancelled'
        src.set_result(5)
        exp = ['ok', 5]
    else:
        exp = {'set': ['ok', 5], 'fail': ['Boom', [5]]}.get(fin, ['cancelled'])
    t.join(3)
    assert got, 'a thread waiting for the result is not woken'
    assert got == [exp], 'a waiting thread got %r' % (got,)
    assert w.done() and done == [w] and w.cancelled() == (exp == ['cancelled']) and outcome(w.result) == exp
    assert ok == ([5] if exp[0] == 'ok' else [])
    d, nd = wait([w], .1)
    assert d == {w}, 'concurrent.futures.wait does not see that it is done'


def gen_race(rng, size):
    for _ in range(250 * size):
        yield {'seed': rng.randint(0, 10 ** 9), 'p': rng.choice([.1, .3, .6]), 'fin': rng.choice(['set', 'fail', 'cancel', 'wcancel']),
               'waiter': rng.random() < .5}


@case('wrapping futures, concurrent completion', gen_race, '2-3 threads, random schedules')
def race(inp):
    with coop.patched():
        src = PythonFuture()
        if inp['fin'] in ('set', 'fail'):
            src.set_running_or_notify_cancel()
        box, done = [], []

        def wrapper():
            w = wrap_if(src)
            w.add_done_callback(done.append)
            box.append(w)
            if inp['waiter']:
                return outcome(w.result)

        def finisher():
            if inp['fin'] == 'set':
                src.set_result(3)
            elif inp['fin'] == 'fail':
                src.set_exception(Boom(3))
            elif inp['fin'] == 'wcancel' and box:
                box[0].cancel()
            else:
                src.cancel()
        res = coop.schedule(inp['seed'], [wrapper, finisher], inp['p'])
    for r, e in res:
        if e is not None:
            raise e
    exp = {'set': ['ok', 3], 'fail': ['Boom', [3]]}.get(inp['fin'], ['cancelled'])
    w = box[0]
    assert w.done(), 'not done though the source is'
    assert done == [w]
    assert outcome(w.result, 1) == exp, 'the outcome is %r instead of %r' % (outcome(w.result, 1), exp)
    if inp['waiter']:
        assert res[0][0] == exp


def gen_wait(rng, size):
    for how in ('FIRST_EXCEPTION', 'FIRST_COMPLETED', 'ALL_COMPLETED', 'as_completed', 'result'):
        for fin in ('set', 'fail'):
            for flip in (False, True):
                yield {'how': how, 'fin': fin, 'flip': flip}


@case('waiting for futures', gen_wait, 'all ways of waiting, one future finished and one not')
def waiting(inp):
    a, b = Future(), Future()
    for f in (a, b):
        f.set_running_or_notify_cancel()
    if inp['flip']:
        a.add_pre_done_callback(lambda f: f.set_exception(Boom(1)) if inp['fin'] == 'set' else f.set_result(1))
    fails = (inp['fin'] == 'fail') != inp['flip']
    got, how = [], inp['how']

    def waiter():
        if how == 'as_completed':
            got.append([next(concurrent.futures.as_completed([a, b]))])
        elif how == 'result':
            got.append(outcome(a.result))
        else:
            d, nd = wait([a, b], return_when=how)
            got.append(d)
    t = threading.Thread(target=waiter, daemon=True)
    t.start()
    t.join(.01)
    assert not got, 'did not wait'
    if inp['fin'] == 'set':
        a.set_result(1)
    else:
        a.set_exception(Boom(1))
    if how == 'ALL_COMPLETED' or how == 'FIRST_EXCEPTION' and not fails:
        t.join(.01)
        assert not got, 'stopped waiting too early'
        b.set_result(2)
        t.join(5)
        assert got == [{a, b}], 'waiting for futures that are done: %r' % (got,)
    else:
        t.join(5)
        assert got and (list(got[0]) == [a] if how != 'result' else got[0] == (['Boom', [1]] if fails else ['ok', 1])), \
            'waiting for a future that is done: %r' % (got,)
        b.set_result(2)


def gen_shut(rng, size):
    yield {'wait': True}
    yield {'wait': False}
    yield {'wait': None}


@case('shutdown', gen_shut)
def shut(inp):
    go, done = threading.Event(), []

    def job():
        go.wait(10)
        done.append(1)
    ex = ThreadPoolExecutor(1)
    we = ExecutorWrapper(ex)
    f = we.submit(job)
    ended = []

    def stop():
        if inp['wait'] is None:
            we.shutdown()
        else:
            we.shutdown(wait=inp['wait'])
        ended.append(len(done))
    t = threading.Thread(target=stop, daemon=True)
    t.start()
    try:
        if inp['wait'] is False:
            t.join(5)
            assert ended == [0], 'waited for the jobs'
        else:
            t.join(.05)
            assert not ended, 'did not wait for the jobs'
    finally:
        go.set()
    t.join(5)
    f.result(5)
    if inp['wait'] is not False:
        assert ended == [1], 'did not wait for the jobs'
    try:
        we.submit(job)
    except RuntimeError:
        return
    assert False, 'a job submitted after the shutdown'


def gen_par(rng, size):
    for _ in range(40 * size):
        yield {'items': [rng.randint(0, 6) for _ in range(rng.randint(0, 8))]}


@case('parallel execution', gen_par, 'up to 8 items')
def par(inp):
    items = inp['items']

    def work(x):
        if x == 3:
            raise Boom(x)
        if x == 4:
            return None
        return [x]
    with ThreadPoolExecutor(3) as ex:
        got = list(parallel_execute(lambda x: ex.submit(work, x), [(i,) for i in items]))
        assert len(got) == len(items)
        for g, i in zip(got, items):
            assert (isinstance(g, Boom) and g.args == (3,)) if i == 3 else g == work(i), got
        kws = [{'k': i} if i % 2 else {} for i in items]
        got = list(parallel_execute(lambda *a, **k: ex.submit(lambda *a, **k: (a, k), *a, **k), [(i, 1) for i in items], kws))
        assert got == [((i, 1), k) for i, k in zip(items, kws)], 'arguments passed: %r' % (got,)
        f = ExecutorWrapper(ex).submit(lambda *a, **k: (a, k), 1, 2, x=3)
        assert f.result(5) == ((1, 2), {'x': 3}), f.result()
        f = run_as_future(lambda *a, **k: (a, k))(1, 2, x=3)
        assert f.result(5) == ((1, 2), {'x': 3}), f.result()
        if 3 not in items:
            assert parallel_construct(items, work, ex) == [[i] for i in items if i != 4]
        we = ExecutorWrapper(ex)
        fs = [we.submit(work, i) for i in items]
        for f, i in zip(fs, items):
            assert isinstance(f, Future)
            assert outcome(f.result, 5) == (['Boom', [3]] if i == 3 else ['ok', work(i)])
        g = call_in_future(we, work, 2)
        f = g('ignored', also='ignored')
        assert isinstance(f, Future) and f.result(5) == [2]
    futs = [run_as_future(work)(i) for i in items]
    for f, i in zip(futs, items):
        assert outcome(f.result, 5) == (['Boom', [3]] if i == 3 else ['ok', work(i)])

    @run_as_future
    def leaves():
        raise SystemExit(1)
    try:
        leaves().result(5)
    except (TimeoutError, concurrent.futures.TimeoutError):
        assert False, 'the future never completes'
    except SystemExit:
        pass


if __name__ == '__main__':
    main('C15')
