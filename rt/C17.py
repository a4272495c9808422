import fakeclock
import coop
import logging
import threading
import time

from base import case, main
from satella.coding.concurrent import Condition
from satella.coding.concurrent.thread import (TerminableThread, IntervalTerminableThread, SingleStartThread, BogusTerminableThread)
from satella.coding.concurrent.thread_collection import ThreadCollection
from satella.coding.concurrent import timer as timer_module
from satella.coding.concurrent.timer import Timer, TimerBackgroundThread
from satella.exceptions import WouldWaitMore

logging.disable(logging.CRITICAL)
threading.excepthook = lambda *a: None


class Boom(Exception):
    pass


class Other(Exception):
    pass


class Quit(BaseException):
    pass


EXC = {'boom': Boom, 'other': Other, 'exit': SystemExit, 'sub': type('Sub', (Boom,), {})}


def results(rs):
    for r, e in rs:
        if e is not None:
            raise e


# ------------------------------------------------------------------------------------------------ terminable threads
def gen_t(rng, size):
    for _ in range(400 * size):
        yield {'interval': rng.choice([None, None, 5]), 'prepare': rng.choice([None] * 5 + list(EXC)), 'listed': rng.choice([None, 'one', 'tuple']),
               'loops': [[rng.choice([0, 0, 1, 5, 7]), rng.choice([None] * 6 + list(EXC) + ['stop'])] for _ in range(rng.randint(1, 5))],
               'outside': rng.randint(0, 6), 'via': rng.choice(['sleep', 'loop'])}


@case('a terminable thread', gen_t, 'up to 5 loops')
def t(inp):
    log = []
    with fakeclock.Clock(tick=0.0) as clock:
        class Body:
            def prepare(self):
                log.append('prepare')
                if inp['prepare']:
                    raise EXC[inp['prepare']]()

            def loop(self):
                i = len([x for x in log if x[0] == 'loop'])
                log.append(('loop', clock.now))
                assert not asked, 'loop() called after termination was requested'
                if i >= len(inp['loops']):
                    self.terminate()
                    asked.append(1)
                    return
                took, what = inp['loops'][i]
                clock.now += took
                if what == 'stop':
                    asked.append(1)
                    self.terminate()
                elif what:
                    raise EXC[what]()

            def on_overrun(self, t):
                log.append(('over', clock.now, t))

            def cleanup(self):
                log.append('cleanup')
        asked = []
        listed = {None: None, 'one': Boom, 'tuple': (KeyError, Boom)}[inp['listed']]
        if inp['interval'] is None:
            th = type('T', (Body, TerminableThread), {})(terminate_on=listed)
        else:
            th = type('T', (Body, IntervalTerminableThread), {})(inp['interval'], terminate_on=listed)
        assert th.terminating is False
        n = [0]

        def on_sleep(s):
            n[0] += 1
            if n[0] == inp['outside']:
                asked.append(1)
                th.terminate()
        clock.on_sleep = on_sleep
        exc = None
        try:
            th.run()
        except BaseException as e:
            exc = e
    assert log[0] == 'prepare' and log.count('prepare') == 1
    assert log[-1] == 'cleanup' and log.count('cleanup') == 1, 'cleanup() was called %d times' % log.count('cleanup')
    loops = [x for x in log if x[0] == 'loop']
    raised = inp['prepare'] or next((w for _, w in inp['loops'][:len(loops)] if w not in (None, 'stop')), None)
    if inp['prepare']:
        assert not loops, 'loop() called although prepare() failed'
    if raised is None:
        assert exc is None and th.terminating, 'ended with %r' % (exc,)
        assert asked, 'ended although nobody asked for it'
    elif raised == 'exit' or raised in ('boom', 'sub') and listed:
        assert exc is None, '%r was not swallowed' % (exc,)
        assert th.terminating, 'the thread does not count as terminating'
    else:
        assert type(exc) is EXC[raised], '%r instead of %r' % (exc, raised)
    if inp['interval'] is not None:
        over = [x for x in log if x[0] == 'over']
        expect = [took for (took, w), _ in zip(inp['loops'], loops) if w is None and took > inp['interval']]
        assert [x[2] for x in over] == expect, 'overruns reported: %r, expected: %r' % (over, expect)
        for i in range(1, len(loops)):
            d = loops[i][1] - loops[i - 1][1]
            assert d == max(inp['interval'], inp['loops'][i - 1][0]), 'the next time came after %r s' % d


def gen_s(rng, size):
    for _ in range(300 * size):
        yield {'interval': rng.choice([-1, 0, 0.5, 2, 3, 7, 10]), 'wake': rng.choice([0.5, 1, 2, 3]), 'stop': rng.choice([None, 0, 1, 2, 3]),
               'kind': rng.choice(['sleep', 'wait', 'wait']), 'told': rng.choice([None, None, 0, 1, 2]), 'quiet': rng.random() < .4}


@case('safe sleeping', gen_s)
def s(inp):
    with fakeclock.Clock() as clock:
        th = TerminableThread()
        n = [0]
        t0 = clock.now

        class Cond:
            def wait(self, timeout=None, dont_raise=False):
                if inp['told'] == n[0]:
                    told.append(1)
                    return
                clock.sleep(timeout)
                if not dont_raise:
                    raise WouldWaitMore()
        told = []
        stopped = [None]

        def on_sleep(x):
            assert 0 <= x <= inp['wake'] + 1e-9, 'slept for %r' % x
            assert stopped[0] is None, 'slept after termination was requested'
            n[0] += 1
            if n[0] == inp['stop']:
                th.terminate()
                stopped[0] = clock.now
        clock.on_sleep = on_sleep
        if inp['stop'] == 0:
            th.terminate()
            stopped[0] = clock.now
        out = 'ok'
        try:
            if inp['kind'] == 'sleep':
                th.safe_sleep(inp['interval'], *([] if inp['wake'] == 2 else [inp['wake']]))
            elif inp['wake'] == 2 and not inp['quiet']:
                th.safe_wait_condition(Cond(), inp['interval'])
            else:
                th.safe_wait_condition(Cond(), inp['interval'], inp['wake'], dont_raise=inp['quiet'])
        except SystemExit:
            out = 'exit'
        except WouldWaitMore:
            out = 'late'
        spent = clock.now - t0
        full = abs(spent - max(0, inp['interval'])) < 1e-9
        assert spent <= max(0, inp['interval']) + 1e-9, 'slept for too long'
        if inp['kind'] == 'sleep':
            assert out == ('exit' if stopped[0] is not None else 'ok'), out
            assert full or out == 'exit', 'slept for %r s' % spent
        elif told:
            assert out == 'ok'
        elif stopped[0] is not None:
            assert out == 'exit' or full
        else:
            assert full, 'gave up after %r s' % spent
            assert out == ('ok' if inp['quiet'] else 'late'), out


def gen_r(rng, size):
    for what in ('with', 'single', 'single2', 'force', 'bogus'):
        for i in range(2 * size):
            yield {'what': what, 'seed': rng.randint(0, 10 ** 6), 'timeout': rng.choice([None, 0.05, 0.2])}


@case('real threads', gen_r)
def r(inp):
    if inp['what'] == 'with':
        n = []

        class T(TerminableThread):
            def loop(self):
                n.append(1)
                time.sleep(0.001)
        try:
            with T(daemon=True) as x:
                time.sleep(0.02)
                assert x.is_alive()
                raise Boom()
        except Boom:
            pass
        assert not x.is_alive() and x.terminating
        k = len(n)
        time.sleep(0.005)
        assert k == len(n)
        y = T(daemon=True)
        assert y.start() is y
        assert y.terminate() is y
        y.join(5)
        assert not y.is_alive()
    elif inp['what'] == 'single':
        n = []
        x = SingleStartThread(target=lambda: n.append(1))
        assert x.start() is x
        assert x.start() is x, 'start() does not give the thread'
        x.join()
        assert x.start() is x
        assert n == [1]
    elif inp['what'] == 'single2':
        n = []

        class Base(SingleStartThread):
            pass
        orig = threading.Thread.start
        for seed in range(30):
            del n[:]
            with coop.patched():
                x = SingleStartThread()
                threading.Thread.start = lambda self: n.append(1)
                try:
                    results(coop.schedule(inp['seed'] + seed, [x.start, x.start], 0.5))
                finally:
                    threading.Thread.start = orig
            assert n == [1], 'started %d times' % len(n)
    elif inp['what'] == 'force':
        x = TerminableThread(daemon=True)
        x.loop = lambda: time.sleep(0.01)
        x.start()
        x.terminate(force=True)
        x.join(5)
        assert not x.is_alive()
    else:
        with fakeclock.Clock(tick=0.001) as clock:
            x = BogusTerminableThread()
            assert not x.is_alive()
            try:
                x.join(0)
                assert False
            except RuntimeError:
                pass
            x.start()
            assert x.is_alive()
            for _ in range(2):
                try:
                    x.start()
                    assert False
                except RuntimeError:
                    pass
            t0 = clock.now
            try:
                if inp['timeout'] is not None:
                    x.join(inp['timeout'])
                    assert False, 'joined although it was not terminated'
            except WouldWaitMore:
                assert inp['timeout'] <= clock.now - t0 < inp['timeout'] + .5, 'waited for %r instead of %r' % (clock.now - t0, inp['timeout'])
            clock.on_sleep = lambda s: x.terminate() if len(clock.slept) > 3 else None
            x.join() if inp['timeout'] is None else x.join(1000)
            assert not x.is_alive()


# ------------------------------------------------------------------------------------------------ timers
def gen_m(rng, size):
    for _ in range(250 * size):
        yield {'seed': rng.randint(0, 10 ** 9), 'p': rng.choice([0, 0.1, 0.3]),
               'threads': [[[rng.choice([0, 0, 0.5, 1, 3, '2s']), rng.choice(['ok', 'ok', 'boom', 'exit', 'cancel']), rng.random() < .2]
                            for _ in range(rng.randint(1, 4))] for _ in range(rng.randint(1, 3))]}


@case('timers', gen_m, 'up to 3 threads starting up to 4 timers')
def m(inp):
    log, expect, live = [], [], []
    cancelled, started_by, separate, apart = {}, {}, [], []
    orig = threading.Thread.start
    with coop.patched(), fakeclock.Clock() as clock:
        TimerBackgroundThread.__dict__.get('__it__') and delattr(TimerBackgroundThread, '__it__')
        started = []

        def start(self):
            started.append(self)
            if 'timer' not in self.name:
                n = len(log)
                self.run()
                apart.extend(x[:2] for x in log[n:])
        threading.Thread.start = start
        try:
            tbt = TimerBackgroundThread()
            assert started == [tbt]

            def starter(i, timers):
                def f():
                    for j, (interval, what, sep) in enumerate(timers):
                        def fun(a, b, i=i, j=j, what=what):
                            log.append((i, j, clock.now, a, b))
                            if what in ('boom', 'exit'):
                                raise (Boom if what == 'boom' else SystemExit)()
                        tm = Timer(interval, fun, args=[i], kwargs={'b': j}, spawn_separate=sep and what == 'ok')
                        due = clock.now + (2 if interval == '2s' else interval)
                        tm.start()
                        end = clock.now
                        if what == 'cancel':
                            tm.cancel()
                            cancelled[i, j] = clock.now
                        else:
                            expect.append((i, j, due))
                            started_by[i, j] = end + (2 if interval == '2s' else interval)
                            if sep and what == 'ok':
                                separate.append((i, j))
                    live.append(1)
                return f
            rounds = [0]

            def on_sleep(x):
                assert 0 <= x <= 1, 'slept for %r' % x
                if x == 0:
                    clock.now += 0.01
                coop.CUR.point(always=True)
                if len(live) == len(inp['threads']):
                    rounds[0] += 1
                    if not len(tbt.timer_objects) and rounds[0] > 4 or rounds[0] > 300:
                        raise Quit()
            clock.on_sleep = on_sleep

            def bg():
                try:
                    tbt.run()
                except Quit:
                    return
                assert False, 'the background thread has ended'
            results(coop.schedule(inp['seed'], [bg] + [starter(i, x) for i, x in enumerate(inp['threads'])], inp['p']))
        finally:
            threading.Thread.start = orig
            TimerBackgroundThread.__dict__.get('__it__') and delattr(TimerBackgroundThread, '__it__')
    for i, j, due in expect:
        runs = [x for x in log if x[:2] == (i, j)]
        if inp['threads'][i][j][1] != 'cancel':
            assert len(runs) == 1, 'timer %d of thread %d was executed %d times' % (j, i, len(runs))
            assert runs[0][2] >= due, 'executed before its time'
            assert runs[0][3:] == (i, j)
            assert runs[0][2] <= started_by[i, j] + 1.05, 'executed %r s late' % (runs[0][2] - started_by[i, j])
    for x in log:
        assert x[:2] not in cancelled or x[2] <= cancelled[x[:2]] + .3, 'executed %r s after it was cancelled' % (x[2] - cancelled[x[:2]])
    assert sorted(apart) == sorted(separate), 'executed in a separate thread: %r, asked for: %r' % (apart, separate)
    assert all((i, j) in [e[:2] for e in expect] or inp['threads'][i][j][1] == 'cancel' for i, j, *_ in log)


# ------------------------------------------------------------------------------------------------ collections
class Fake:
    def __init__(self, i, alive=False, daemon=False):
        self.i, self.alive, self.daemon, self.log = i, alive, daemon, []

    def start(self):
        self.log.append('start')

    def join(self, timeout=None):
        self.log.append(('join', timeout))

    def is_alive(self):
        return self.alive


class FakeT(Fake):
    def terminate(self, force=False):
        self.log.append(('terminate', force))


def gen_c(rng, size):
    for _ in range(200 * size):
        yield {'threads': [[rng.random() < .5, rng.random() < .2, rng.random() < .3] for _ in range(rng.randint(0, 4))], 'more': rng.randint(0, 3),
               'kind': rng.choice(['list', 'iter', 'tc', 'one'])}


@case('collections of threads', gen_c, 'up to 4 threads')
def c(inp):
    ths = [(FakeT if t else Fake)(i, a, d) for i, (t, a, d) in enumerate(inp['threads'])]
    tc = ThreadCollection(list(ths))
    assert len(tc) == len(ths) and list(tc) == ths
    assert tc.start() is tc and all(t.log == ['start'] for t in ths)
    assert tc.terminate(force=True) is tc
    assert all(t.log[1:] == ([('terminate', True)] if isinstance(t, FakeT) else []) for t in ths)
    assert tc.is_alive() == any(t.alive for t in ths)
    assert tc.daemon == any(t.daemon for t in ths)
    try:
        assert tc.join(3) is tc
        assert not any(t.alive for t in ths), 'joined although one is alive'
        assert all(t.log[-1] == ('join', 3) for t in ths)
    except WouldWaitMore:
        assert any(t.alive for t in ths)
    tc.daemon = True
    assert all(t.daemon is True for t in ths)
    more = [threading.Thread() for _ in range(inp['more'])]
    if inp['kind'] == 'one':
        more = [threading.Thread()]
    arg = {'list': more, 'iter': iter(more), 'tc': ThreadCollection(more), 'one': more[0] if more else None}[inp['kind']]
    new = tc + arg
    assert type(new) is ThreadCollection and list(new) == ths + more and list(tc) == ths
    arg = {'list': more, 'iter': iter(more), 'tc': ThreadCollection(more), 'one': more[0] if more else None}[inp['kind']]
    tc2 = tc
    tc2 += arg
    assert tc2 is tc and list(tc) == ths + more
    if inp['kind'] == 'tc':
        assert list(arg) == more
    assert tc.add(5) is tc and tc.append(6) is tc and list(tc)[-2:] == [5, 6]
    f = ThreadCollection.from_class(Fake, range(3), daemon=True)
    assert [t.i for t in f] == [0, 1, 2] and all(t.daemon for t in f)
    cur = list(ThreadCollection.get_currently_running())
    assert threading.current_thread() in cur
    go = threading.Event()
    extra = [threading.Thread(target=go.wait, daemon=True) for _ in range(inp['more'])]
    for x in extra:
        x.start()
    try:
        cur = list(ThreadCollection.get_currently_running())
        assert set(cur) >= set(extra) | {threading.main_thread()}, 'not all running threads'
        cur = list(ThreadCollection.get_currently_running(include_main_thread=False))
        assert set(cur) >= set(extra), 'not all running threads'
    finally:
        go.set()
    for x in extra:
        x.join()
    assert not set(extra) & set(ThreadCollection.get_currently_running()), 'threads that have ended'
    e = ThreadCollection()
    assert len(e) == 0 and list(e) == [] and e.add(7) is e and list(e) == [7] and list(ThreadCollection()) == []
    own = list(ths)
    e = ThreadCollection(own)
    e.add(8)
    assert own == ths, 'the list given was changed'
    assert list(ThreadCollection(tuple(ths))) == ths and list(ThreadCollection(iter(ths))) == ths
    assert threading.main_thread() not in list(ThreadCollection.get_currently_running(include_main_thread=False))


if __name__ == '__main__':
    main('C17')
