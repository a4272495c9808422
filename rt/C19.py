import fakeclock
import coop
import itertools
import time
from concurrent.futures import Future

from base import case, main
from satella.exceptions import WouldWaitMore
from satella.time import measure, ExponentialBackoff, parse_time_string, sleep


class Boom(Exception):
    pass


class Other(Exception):
    pass


def results(rs):
    for r, e in rs:
        if e is not None:
            raise e


def gen_m(rng, size):
    for _ in range(1500 * size):
        yield {'stop_on_stop': rng.random() < 0.8, 'stopped': rng.random() < 0.3, 'timeout': rng.choice([None, 2, 8]), 'adjust': rng.choice([0, 0, 3]),
               'ops': [rng.choice([['wait', rng.randint(1, 5)], ['wait', rng.randint(1, 5)], ['start'], ['stop'], ['reset'], ['update'], ['reset_and_start'],
                                   ['reset_and_stop'], ['with', rng.randint(0, 3), rng.choice([None, None, 'boom', 'stop'])]])
                       for _ in range(rng.randint(1, 10))]}


@case('measuring', gen_m, 'up to 10 operations')
def m(inp):
    with fakeclock.Clock(tick=0.0) as clock:
        stop_on_stop = inp['stop_on_stop']
        o = measure(stop_on_stop=stop_on_stop, create_stopped=inp['stopped'] and stop_on_stop, timeout=inp['timeout'], adjust=inp['adjust'],
                    time_getter_callable=lambda: clock.now)
        running = not (inp['stopped'] and stop_on_stop)
        total = -inp['adjust'] if running else 0

        def advance(t):
            nonlocal total
            clock.now += t
            if running:
                total += t

        def compare(what):
            v = o()
            assert v == total, 'counted %r, %r was measured (%s)' % (v, total, what)
            assert o.get_time_elapsed() == total
            if stop_on_stop:
                assert o.stopped is not running, what
            t = inp['timeout']
            assert o.timeouted is (t is not None and total >= t), what
            assert o.time_remaining == (None if t is None else max(0, t - total)), what
            try:
                o.assert_not_timeouted()
                assert t is None or total < t
            except WouldWaitMore:
                assert t is not None and total >= t
            assert o.has_exceeded(4) == (total > 4)
            try:
                o.raise_if_exceeded(4, Boom)
                assert total <= 4
            except Boom:
                assert total > 4
        compare('made')
        for op, *a in inp['ops']:
            if op == 'wait':
                advance(a[0])
            elif op == 'with':
                was = running
                try:
                    with o as p:
                        assert p is o
                        running = True
                        compare('in with')
                        advance(a[0])
                        compare('in with')
                        if a[1] == 'boom':
                            raise Boom()
                        if a[1] == 'stop' and stop_on_stop:
                            o.stop()
                            running = False
                            clock.now += 1
                    assert a[1] != 'boom', 'the exception was lost'
                except Boom:
                    assert a[1] == 'boom'
                running = not stop_on_stop
            else:
                legal = {'start': stop_on_stop and not running, 'update': stop_on_stop and not running, 'stop': stop_on_stop and running,
                         'reset': True, 'reset_and_start': stop_on_stop, 'reset_and_stop': stop_on_stop and running}[op]
                if not legal and op == 'reset_and_start':
                    continue
                try:
                    getattr(o, op)()
                    assert legal, '%s is allowed' % op
                except TypeError:
                    assert not legal, '%s is refused' % op
                if legal:
                    if 'reset' in op:
                        total = 0
                    running = {'start': True, 'update': True, 'stop': False, 'reset': not stop_on_stop, 'reset_and_start': True, 'reset_and_stop': False}[op]
            compare(op)


def gen_d(rng, size):
    for kind, stopped, fails, stop in itertools.product(['function', 'method', 'generator', 'future'], [False, True], [False, True], [False, True]):
        for before in [[], ['stop'], ['stop', 'start'], ['reset'], ['with'], ['stop', 'reset_and_start'], ['with', 'with'], ['reset_and_stop']]:
            if not before or not stopped and kind != 'future':
                yield {'kind': kind, 'stopped': stopped, 'fails': fails, 'stop': stop, 'before': before}


@case('measuring calls', gen_d, 'all kinds of calls')
def d(inp):
    with fakeclock.Clock(tick=0.0) as clock:
        get = lambda: clock.now
        if inp['kind'] == 'future':
            f = Future()
            f.set_running_or_notify_cancel()
            o = measure(f, time_getter_callable=get)
            clock.now += 3
            f.set_exception(Boom()) if inp['fails'] else f.set_result(1)
            clock.now += 2
            assert o() == 3 and o.stopped, 'counted %r, the future took 3' % o()
            return
        o = measure(time_getter_callable=get, create_stopped=inp['stopped'])
        for op in inp['before']:
            clock.now += 3
            if op == 'with':
                with o:
                    clock.now += 1
            else:
                getattr(o, op)()
        seen, was = [], o.stopped

        def body(m, x):
            seen.append(m)
            assert m is not o and m() == 0 and m.stopped is inp['stopped'], 'a call starts with %r' % m()
            clock.now += 2
            if inp['stopped']:
                m.start()
                clock.now += 1
            assert m() == (1 if inp['stopped'] else 2)
            if inp['stop']:
                m.stop()
            if inp['fails']:
                raise Boom()
            return x
        if inp['kind'] == 'function':
            f = o(lambda m, x: body(m, x))
        elif inp['kind'] == 'generator':
            @o
            def g(m, x):
                yield body(m, x)
            f = lambda x: list(g(x))[0]
        else:
            class C:
                @o
                def f(self, m, x):
                    assert isinstance(self, C)
                    return body(m, x)
            f = C().f
        for i in range(3):
            clock.now += 5
            try:
                assert f(i) == i and not inp['fails']
            except Boom:
                assert inp['fails']
        assert len(seen) == 3 and len(set(map(id, seen))) == 3
        assert o.stopped is was, 'calls start or stop the measurement that measures them'
        if not inp['stopped']:
            assert all(m.stopped and m() == 2 for m in seen)


def gen_b(rng, size):
    for _ in range(1000 * size):
        yield {'start': rng.choice([1, 2, 5]), 'limit': rng.choice([1, 4, 30]), 'grace': rng.choice([0, 0, 1, 3]),
               'ops': [rng.choice([['failed'], ['failed'], ['failed'], ['success'], ['sleep'], ['wait', rng.choice([0.5, 1, 3, 10])], ['until', rng.choice([None, 0, 1, 5])]])
                       for _ in range(rng.randint(1, 15))]}


@case('backing off', gen_b, 'up to 15 operations')
def b(inp):
    with coop.patched(), fakeclock.Clock(tick=0.001) as clock:
        def go():
            slept = []
            o = ExponentialBackoff(inp['start'], inp['limit'], slept.append, inp['grace'])
            fails, until, delay = 0, None, 0
            for op, *a in inp['ops']:
                if op == 'failed':
                    o.failed()
                    fails += 1
                    if fails > inp['grace']:
                        delay = min(inp['limit'], delay * 2 if delay else inp['start'])
                        until = clock.now + delay
                elif op == 'success':
                    o.success()
                    fails, until, delay = 0, None, 0
                elif op == 'sleep':
                    o.sleep()
                    assert slept.pop() == delay and not slept, 'slept %r, not %r' % (slept, delay)
                elif op == 'wait':
                    clock.now += a[0]
                else:
                    t0 = clock.now
                    left = 0 if until is None else max(0, until - t0)
                    try:
                        o.wait_until_available(timeout=a[0])
                        assert a[0] is None or left <= a[0] + 0.1, 'returned although it is not available'
                        assert abs(clock.now - t0 - left) < 0.1, 'returned after %r, ready after %r' % (clock.now - t0, left)
                    except WouldWaitMore:
                        assert a[0] is not None and left > a[0] - 0.1 and left > 0, 'gave up although it is available'
                        assert abs(clock.now - t0 - a[0]) < 0.1, 'gave up after %r' % (clock.now - t0)
                assert o.available is (delay == 0), op
                left = None if until is None else until - clock.now
                if left is not None and abs(left) < 0.1:
                    continue
                r = o.time_until_next_check()
                if left is None or left < 0:
                    assert r is None and o.ready_for_next_check is True, '%s: not ready' % op
                else:
                    assert r is not None and abs(r - left) < 0.1 and o.ready_for_next_check is False, '%s: %r left, not %r' % (op, left, r)
        results(coop.schedule(1, [go], 0))


def gen_w(rng, size):
    for _ in range(600 * size):
        yield {'ops': [rng.choice(['failed', 'failed', 'success', 'pause']) for _ in range(rng.randint(1, 5))], 'waiters': [rng.choice([None, 1, 50]) for _ in range(rng.randint(1, 2))],
               'ask': rng.random() < 0.5, 'seed': rng.randint(0, 10 ** 9), 'p': rng.choice([0.1, 0.3, 0.6])}


@case('backing off, and others waiting', gen_w, 'one thread reporting, up to 3 asking')
def w(inp):
    with coop.patched(), fakeclock.Clock(tick=0.001) as clock:
        o = ExponentialBackoff(4, 100)
        o.failed()
        times = []

        def report():
            for op in inp['ops']:
                if op == 'pause':
                    clock.now += 1
                    coop.CUR.point(always=True)
                else:
                    getattr(o, op)()
                    if op == 'success':
                        times.append(clock.now)
            t0 = clock.now
            o.failed()
            ready = o.ready_for_next_check          # the others may have waited this one out by now
            assert ready is False or clock.now - t0 >= 4, 'a failure just reported was forgotten'
            o.success()
            times.append(clock.now)

        def wait(t):
            def f():
                t0 = clock.now
                try:
                    o.wait_until_available(t)
                except WouldWaitMore:
                    assert t is not None and clock.now - t0 >= t
            return f

        def ask():
            for _ in range(3):
                r = o.time_until_next_check()
                assert r is None or r >= 0
                o.ready_for_next_check
        results(coop.schedule(inp['seed'], [report] + [wait(t) for t in inp['waiters']] + ([ask] if inp['ask'] else []), inp['p']))


def gen_l(rng, size):
    for _ in range(300 * size):
        yield {'fails': [rng.choice(['boom', 'boom', 'boom', 'key', 'other']) for _ in range(rng.randint(0, 5))], 'listed': rng.choice(['one', 'many', 'any']),
               'immediate': rng.random() < 0.4}


@case('doing until it succeeds', gen_l, 'up to 5 failures')
def l(inp):
    slept, calls = [], []
    o = ExponentialBackoff(1, 6, slept.append)
    listed = {'one': Boom, 'many': (Boom, KeyError), 'any': Exception}[inp['listed']]
    raises = {'boom': Boom, 'key': KeyError, 'other': Other}

    def f(*a, **k):
        calls.append((a, k))
        i = len(calls) - 1
        if i < len(inp['fails']):
            raise raises[inp['fails'][i]]()
        return 'result'
    n, end = 0, None
    for x in inp['fails']:
        if not issubclass(raises[x], listed):
            end = raises[x]
            break
        n += 1
    try:
        if inp['immediate']:
            o.launch(listed, immediate=True)(f)
        else:
            assert o.launch(listed)(f)(1, k=2) == 'result'
        assert end is None, 'an exception that is not listed was lost'
        assert o.available
    except (Boom, KeyError, Other) as e:
        assert type(e) is end, 'failed with %r' % e
    assert len(calls) == n + 1 and all(c == (((), {}) if inp['immediate'] else ((1,), {'k': 2})) for c in calls), 'called %d times' % len(calls)
    want = [1, 2, 4, 6, 6][:n]
    assert slept == want, 'slept %r, not %r' % (slept, want)


UNITS = {1: ('s', 'sec', 'secs', 'second', 'seconds'), 60: ('m', 'min', 'mins', 'minute', 'minutes'), 3600: ('h', 'hour', 'hours'),
         86400: ('d', 'day', 'days'), 7 * 86400: ('w', 'week', 'weeks')}


def gen_p(rng, size):
    for n in ('0', '1', '30', '2.5', '-3', '1000000'):
        yield [n, '', 1]
        for mult, us in UNITS.items():
            for u in us:
                for sp in ('', ' '):
                    yield [n, sp + u, mult]


@case('time strings', gen_p, 'all units')
def p(inp):
    n, u, mult = inp
    v = parse_time_string(n + u)
    assert v == float(n) * mult, '%r read as %r s' % (n + u, v)
    assert parse_time_string(float(n)) == float(n)


def gen_s(rng, size):
    for _ in range(500 * size):
        yield {'y': rng.choice([-1, 0, 0.5, 3, '2 s', '1 min']), 'abort': rng.random() < 0.5, 'interrupts': [rng.random() < 0.4 for _ in range(rng.randint(0, 4))],
               'tick': rng.choice([0, 0.001, 0.3])}


@case('sleeping', gen_s, 'up to 4 interruptions')
def s(inp):
    with fakeclock.Clock(tick=inp['tick']) as clock:
        left = list(inp['interrupts'])
        hit = []

        def time_sleep(t):
            if t < 0:
                raise ValueError('sleep length must be non-negative')
            if left and left.pop(0):
                clock.now += t / 2
                hit.append(1)
                raise KeyboardInterrupt()
            clock.now += t
        keep, time.sleep = time.sleep, time_sleep
        try:
            y = parse_time_string(inp['y'])
            t0 = clock.now
            r = sleep(inp['y'], inp['abort'])
            t = clock.now - t0
        finally:
            time.sleep = keep
        if y < 0:
            assert r is False and not hit
        elif hit and inp['abort']:
            assert r is False
        else:
            assert r is True and t >= y, 'slept %r, not %r' % (t, y)
            assert t <= y + 1 + 4 * inp['tick']


main('C19')
