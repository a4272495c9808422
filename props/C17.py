"""C17: threads that can be terminated, periodic threads, timers and collections of threads do what they are told, once and in time."""
import threading

from pyvc.api import *
from satella.coding.concurrent import thread as thread_module, timer as timer_module
from satella.coding.concurrent.monitor import Monitor
from satella.coding.concurrent.thread import (TerminableThread, IntervalTerminableThread, SingleStartThread, BogusTerminableThread)
from satella.coding.concurrent.thread_collection import ThreadCollection
from satella.coding.concurrent.timer import Timer, TimerBackgroundThread
from satella.exceptions import WouldWaitMore


class Boom(Exception):
    pass


class Other(Exception):
    pass


def ok(ctx, out):
    ctx.check('does not fail', BoolVal(out[0] == 'ok'))
    return out[1]


def secs(t):
    t = num_term(t)
    return t if t.sort() == z3.RealSort() else z3.ToReal(t)


class G:
    """ghost state that loops may change"""


def ghost(ctx, **kw):
    g = ctx.env.g = ctx.roots['g'] = G()
    g.__dict__.update(kw)
    return g


# ------------------------------------------------------------------------------------------------ terminable threads
def stopping(ctx, base, **attrs):
    """a thread whose termination may be requested by others at any moment; termination is never taken back"""
    g = ghost(ctx, stop=False, asked=False, started=False)
    ctx.env.calls = calls = {'terminate': 0, 'cleanup': 0, 'prepare': 0}

    def rd(o):
        if ctx.dead or core.CTX is not ctx:
            return True
        if not g.stop and ctx.choose(2):
            g.stop = True
        g.asked = not g.stop        # the last look at the flag has shown that it may go on
        return g.stop

    def wr(o, v):
        ctx.check('termination is never taken back', BoolVal(v is True))
        g.stop = True
    cls = type('T', (base,), dict({'_terminating': property(rd, wr), '__module__': base.__module__}, **attrs))
    o = object.__new__(cls)
    ctx.env.o = o
    return o, g, calls


KINDS = [None, Boom, Other, SystemExit, 'listed SystemExit']


def run_contract_(ctx, base, pre):
    ctx.env.cut_while = True
    which_prepare, which_loop = KINDS[ctx.choose(4)], None
    if which_prepare is None:
        which_loop = KINDS[ctx.choose(4)]
    listed = (None, Boom, (Boom, KeyError))[ctx.choose(3)]
    calls = {}

    def prepare(self):
        ctx.check('prepared first, once', BoolVal(calls['prepare'] == 0 and not ctx.env.g.started and calls['cleanup'] == 0))
        calls['prepare'] += 1
        if which_prepare is not None:
            raise which_prepare()

    def loop(self):
        g = ctx.env.g
        ctx.check('goes on only after being prepared', BoolVal(calls['prepare'] == 1 and calls['cleanup'] == 0))
        ctx.check('goes on only if, after the previous time, termination was not requested', bool_term(g.asked))
        g.asked = False
        g.started = True
        pre(ctx)
        if which_loop is not None and ctx.choose(2):
            ctx.env.loop_raised = True
            raise which_loop()

    def cleanup(self):
        calls['cleanup'] += 1

    def terminate(self, force=False):
        calls['terminate'] += 1
        ctx.env.g.stop = True
        return self
    ctx.env.loop_raised = False
    o, g, calls = stopping(ctx, base, prepare=prepare, loop=loop, cleanup=cleanup, terminate=terminate, **ctx.env.__dict__.get('extra', {}))
    o._terminate_on = listed
    return o, g, calls, listed, which_prepare, which_loop


def ended(ctx, out, g, calls, listed, which_prepare, which_loop):
    ctx.check('cleaned up exactly once', BoolVal(calls['cleanup'] == 1))
    exc = which_prepare or (which_loop if ctx.env.loop_raised else None)
    if exc is None:
        ctx.reach('asked to stop')
        ctx.check('ends normally, and only because it was asked to', BoolVal(out[0] == 'ok'))
        ctx.check('ends normally, and only because it was asked to', bool_term(g.stop))
    elif exc is SystemExit or exc is Boom and listed is not None:
        ctx.reach('stops itself')
        ctx.check('ends quietly', BoolVal(out[0] == 'ok'))
        ctx.check('counts as terminating', bool_term(g.stop))
    else:
        ctx.reach('fails')
        ctx.check('an exception that is not listed is seen', BoolVal(out[0] == 'exc' and type(out[1]) is exc))
    if which_prepare is not None:
        ctx.check('does nothing if preparing has failed', BoolVal(g.started is False))


R = ['end', 'asked to stop', 'stops itself', 'fails']


@contract('TerminableThread.run', ['TerminableThread.run'], reach=R)
def t_run(ctx):
    o, g, calls, listed, p, l = run_contract_(ctx, TerminableThread, lambda c: None)
    out = ctx.catch(o.run)
    ended(ctx, out, g, calls, listed, p, l)


@contract('IntervalTerminableThread.run', ['IntervalTerminableThread.run'], reach=R + ['overrun', 'rest'])
def i_run(ctx):
    def pre(c):
        c.env.began = c.monotonic()
        c.env.done = c.monotonic()

    def on_overrun(self, t):
        ctx.reach('overrun')
        period = secs(self.seconds)
        ctx.check('reports the time taken', And(secs(t) >= ctx.env.done.t - ctx.env.began.t))
        ctx.check('reports only what took longer', secs(t) > period)

    def safe_sleep(self, s, wake_up_each=2):
        ctx.reach('rest')
        now = ctx.monotonic()
        period = secs(self.seconds)
        ctx.check('rests for a time that is not negative', secs(s) >= 0)
        ctx.check('the next time comes a period after the previous one, not earlier', secs(s) + (now.t - ctx.env.t0.t) >= period)
        ctx.check('and not later than needed', secs(s) <= period - (ctx.env.done.t - ctx.env.began.t))
        if self._terminating:
            raise SystemExit()
    ctx.env.extra = {'on_overrun': on_overrun, 'safe_sleep': safe_sleep, '__abstractmethods__': frozenset()}
    o, g, calls, listed, p, l = run_contract_(ctx, IntervalTerminableThread, pre)
    ctx.env.t0 = ctx.monotonic()
    o.seconds = ctx.real('seconds')
    ctx.assume(o.seconds.t > 0)
    out = ctx.catch(o.run)
    ended(ctx, out, g, calls, listed, p, l)


@contract('TerminableThread.__init__ / start / terminate / with', ['TerminableThread.__init__', 'TerminableThread.start', 'TerminableThread.terminate',
                                                                   'TerminableThread.__enter__', 'TerminableThread.__exit__', 'TerminableThread.terminating',
                                                                   'IntervalTerminableThread.__init__'], reach=['end', 'plain', 'with', 'interval'])
def t_basic(ctx):
    log = []
    ctx.models[threading.Thread.start] = lambda self: log.append('start')
    ctx.models[threading.Thread.join] = lambda self, timeout=None: log.append('join')
    k = ctx.choose(3)
    if k == 2:
        ctx.reach('interval')
        s = ctx.real('seconds')
        cls = type('I', (IntervalTerminableThread,), {'loop': lambda self: None, '__module__': 'x'})
        o = cls(s, terminate_on=Boom, daemon=True)
        ctx.check('the period is kept', secs(o.seconds) == s.t)
        ctx.check('daemon', BoolVal(o.daemon is True))
    else:
        o = TerminableThread(terminate_on=Boom)
    ctx.check('nothing is requested at first', BoolVal(o.terminating is False and not log))
    ctx.check('listed exceptions', BoolVal(o._terminate_on is Boom))
    if k == 1:
        ctx.reach('with')
        fails = ctx.choose(2)

        def go():
            with o as p:
                ctx.check('started and bound', BoolVal(p is o and log == ['start'] and not o.terminating))
                if fails:
                    raise Boom()
        out = ctx.catch(go)
        ctx.check('the exception passes', BoolVal((out[0] == 'exc' and type(out[1]) is Boom) if fails else out[0] == 'ok'))
        ctx.check('terminated and joined', BoolVal(log == ['start', 'join'] and o.terminating is True))
    else:
        ctx.reach('plain')
        ctx.check('gives the thread', BoolVal(ok(ctx, ctx.catch(o.start)) is o and log == ['start']))
        ctx.check('gives the thread', BoolVal(ok(ctx, ctx.catch(o.terminate)) is o))
        ctx.check('requested', BoolVal(o.terminating is True))


def slept_inv(L, v):
    g = cur().env.g
    return And(secs(v) == secs(g.total), secs(v) >= 0) if isinstance(v, (SNum, int, float)) and type(v) is not bool else None


def left_inv(L, v):
    g, y = cur().env.g, cur().env.interval.t
    return secs(v) == y - secs(g.total) if isinstance(v, (SNum, int, float)) and type(v) is not bool else None


def within_inv(L):
    g = cur().env.g
    return And(secs(g.total) >= 0, Or(secs(g.total) <= secs(cur().env.interval), secs(g.total) == 0))


@contract('TerminableThread.safe_sleep / safe_wait_condition', ['TerminableThread.safe_sleep', 'TerminableThread.safe_wait_condition'],
          invs=each_local('counts the time', slept_inv) + each_local('counts what is left', left_inv) + [('not too long', within_inv)], reach=['end', 'slept', 'terminated', 'notified', 'late', 'quiet'])
def t_sleep(ctx):
    ctx.env.cut_while = True
    o, g, calls = stopping(ctx, TerminableThread)
    g.total = SNum(z3.RealVal(0))
    interval, wake = ctx.real('interval'), ctx.real('wake')
    ctx.assume(wake.t > 0)
    ctx.env.interval = interval
    k = ctx.choose(2)

    def sleep(s):
        ctx.check('sleeps only after having seen that termination is not requested', bool_term(g.asked))
        g.asked = False
        ctx.check('wakes up often enough', And(secs(s) >= 0, secs(s) <= wake.t))
        g.total = SNum(secs(g.total) + secs(s))
        ctx.check('does not sleep longer than asked to', secs(g.total) <= interval.t)

    class Cond:
        def wait(self, timeout=None, dont_raise=False):
            ctx.check('waits with a limit', BoolVal(timeout is not None))
            if ctx.choose(2):
                ctx.env.told = True
                return
            sleep(timeout)
            if not dont_raise:
                raise WouldWaitMore()
    ctx.env.told = False
    import time
    ctx.models[time.sleep] = sleep
    if k == 0:
        out = ctx.catch(o.safe_sleep, interval, wake)
    else:
        quiet = ctx.choose(2) == 1
        out = ctx.catch(o.safe_wait_condition, Cond(), interval, wake, quiet)
    if out[0] == 'ok':
        if k == 0:
            ctx.reach('slept')
            ctx.check('slept exactly as long as asked to', Or(secs(g.total) == interval.t, And(interval.t <= 0, secs(g.total) == 0)))
            ctx.check('a request to terminate is noticed at the end', bool_term(g.asked))
        elif ctx.env.told:
            ctx.reach('notified')
        else:
            ctx.reach('quiet')
            ctx.check('returns only if notified, or told not to raise', BoolVal(quiet))
            ctx.check('only after the time is over', Or(secs(g.total) == interval.t, And(interval.t <= 0, secs(g.total) == 0)))
    elif isinstance(out[1], WouldWaitMore):
        ctx.reach('late')
        ctx.check('reports that only if allowed to', BoolVal(k == 1 and not quiet and not ctx.env.told))
        ctx.check('only after the time is over', Or(secs(g.total) == interval.t, And(interval.t <= 0, secs(g.total) == 0)))
    else:
        ctx.reach('terminated')
        ctx.check('ends the thread only if that was requested', And(BoolVal(isinstance(out[1], SystemExit)), bool_term(g.stop)))


@contract('SingleStartThread', ['SingleStartThread.__init__', 'SingleStartThread.start'], reach=['end'])
def s_single(ctx):
    log, locks = [], []
    ctx.models[threading.Thread.start] = lambda self: log.append(self)

    def mk():
        locks.append(GLock(ctx, 'start lock'))
        return locks[-1]
    ctx.models[threading.Lock] = mk
    o = SingleStartThread(daemon=True)
    # the flag which says that it was started is only used while the lock is held
    flags = [k for k, v in vars(o).items() if v is False and k.startswith('_SingleStartThread')]
    locks = [l for l in locks if any(v is l for v in vars(o).values())]
    if len(flags) != 1 or len(locks) != 1:
        raise Unsupported('another way of remembering the start')
    lock, flag, n = locks[0], flags[0], ctx.env
    val = [False]

    def rd(s):
        ctx.check('the flag is read while the lock is held', BoolVal(lock.depth > 0))
        return val[0]

    def wr(s, v):
        ctx.check('the flag is written while the lock is held', BoolVal(lock.depth > 0))
        val[0] = v
    cls = type('SingleStartThread', (SingleStartThread,), {flag: property(rd, wr), '__module__': SingleStartThread.__module__})
    d = dict(vars(o))
    del d[flag]
    p = object.__new__(cls)
    p.__dict__.update(d)
    a = ok(ctx, ctx.catch(p.start))
    ctx.check('started once', BoolVal(len(log) == 1 and log[0] is p and a is p))
    b = ok(ctx, ctx.catch(p.start))
    ctx.check('not started again', BoolVal(len(log) == 1 and b is p))
    ctx.check('the lock is free', BoolVal(lock.depth == 0))


@contract('BogusTerminableThread', ['BogusTerminableThread.__init__', 'BogusTerminableThread.start', 'BogusTerminableThread.terminate',
                                    'BogusTerminableThread.is_alive', 'BogusTerminableThread.join'],
          reach=['end', 'joined', 'late', 'not started', 'refused'])
def bogus(ctx):
    ctx.env.cut_while = True
    r = conforms(BogusTerminableThread(), 'started', 'terminated', 'daemon', also=())
    ctx.check('a daemon that is not started', BoolVal(r.started is False and r.terminated is False and r.daemon is True and r.is_alive() is False))
    g = ghost(ctx, stop=ctx.choose(2) == 1)
    started = ctx.choose(2) == 1
    entry = g.stop
    ctx.env.others = False

    def rd(o):
        if not g.stop and ctx.env.others and ctx.choose(2):
            g.stop = True
        return g.stop

    def wr(o, v):
        g.stop = v
    cls = type('BogusTerminableThread', (BogusTerminableThread,), {'terminated': property(rd, wr), '__slots__': (), '__module__': r.__module__})
    o = object.__new__(cls)
    object.__setattr__(o, 'started', started)
    object.__setattr__(o, 'daemon', True)
    k = ctx.choose(4)
    if k == 0:
        out = ctx.catch(o.start)
        if started or entry:
            ctx.reach('refused')
            ctx.check('started only once', BoolVal(out[0] == 'exc' and isinstance(out[1], RuntimeError) and o.started is started))
        else:
            ctx.check('started', BoolVal(out[0] == 'ok' and o.started is True and o.is_alive() is True))
    elif k == 1:
        ok(ctx, ctx.catch(o.terminate))
        ctx.check('terminated', BoolVal(g.stop is True and o.is_alive() is False))
    elif k == 2:
        ctx.check('alive exactly if started and not terminated', BoolVal(ok(ctx, ctx.catch(o.is_alive)) is (started and not entry)))
    else:
        ctx.env.others = True
        timeout = None if ctx.choose(2) else ctx.real('timeout')
        t0 = ctx.monotonic()
        out = ctx.catch(o.join) if timeout is None else ctx.catch(o.join, timeout)
        if out[0] == 'ok':
            ctx.reach('joined')
            ctx.check('only once terminated', bool_term(g.stop))
        elif isinstance(out[1], WouldWaitMore):
            ctx.reach('late')
            ctx.check('only with a timeout', BoolVal(timeout is not None and started))
            if timeout is not None:
                ctx.check('only after the time is over', ctx.monotonic().t - t0.t >= timeout.t)
        else:
            ctx.reach('not started')
            ctx.check('only if not started', BoolVal(isinstance(out[1], RuntimeError) and not started))


# ------------------------------------------------------------------------------------------------ timers
def timer(ctx, **kw):
    conforms(Timer(1, len), 'args', 'kwargs', 'spawn_separate', 'interval', 'function', 'execute_at', 'cancelled', also=())
    return Timer(**kw)


@contract('Timer', ['Timer.__init__', 'Timer.start', 'Timer.cancel', 'Timer._try_execute', 'Timer.__lt__'],
          reach=['end', 'put', 'cancelled', 'separate', 'called', 'raised'])
def t_timer(ctx):
    interval, x = ctx.real('interval'), ctx.obj('x')
    sep = ctx.choose(2) == 1
    fails = ctx.choose(2)
    calls, threads = [], []

    def fun(*a, **k):
        calls.append((a, k))
        if fails:
            raise Boom()
    with_args = ctx.choose(2)
    kw = dict(args=(x,), kwargs={'k': 7}) if with_args else {}
    t = timer(ctx, interval=interval, function=fun, spawn_separate=sep, **kw)
    expect = ((x,), {'k': 7}) if with_args else ((), {})

    def good(a, k):
        return BoolVal(len(a) == len(expect[0]) and all(p is q for p, q in zip(a, expect[0])) and k == expect[1])
    k = ctx.choose(3)
    if k == 0:
        ctx.reach('put')
        lock = GLock(ctx, 'lock')
        put = []

        class Heap:
            def put(self, at, what):
                ctx.check('put on the heap while holding its lock', BoolVal(lock.depth == 1))
                put.append((at, what))

            def push(self, p):
                self.put(*p)

        class Tbt(Monitor):
            def __init__(self):
                self._monitor_lock, self.timer_objects = lock, Heap()
        b = Tbt()
        ctx.models[TimerBackgroundThread] = lambda: b
        t0 = ctx.monotonic()
        ok(ctx, ctx.catch(t.start))
        t1 = ctx.monotonic()
        ctx.check('put once, itself', BoolVal(len(put) == 1 and put[0][1] is t and not calls))
        ctx.check('due when the interval is over', And(secs(put[0][0]) >= t0.t + interval.t, secs(put[0][0]) <= t1.t + interval.t))
        ctx.check('the lock is free', BoolVal(lock.depth == 0))
        u = timer(ctx, interval=interval, function=fun)
        ctx.check('timers due at the same moment can be kept together', BoolVal(ctx.catch(lambda: t < u)[0] == 'ok'))
        return
    ctx.models[threading.Thread.start] = lambda self: threads.append(self)
    if k == 1:
        ctx.reach('cancelled')
        ok(ctx, ctx.catch(t.cancel))
        ok(ctx, ctx.catch(t._try_execute))
        ctx.check('a cancelled timer does nothing', BoolVal(not calls and not threads))
        return
    out = ctx.catch(t._try_execute)
    if sep:
        ctx.reach('separate')
        ctx.check('one thread', BoolVal(out[0] == 'ok' and len(threads) == 1 and not calls and threads[0].daemon is True))
        out = ctx.catch(threads[0].run)
    ctx.reach('raised' if fails else 'called')
    ctx.check('called once', BoolVal(len(calls) == 1))
    ctx.check('with its arguments', good(*calls[0]))
    ctx.check('its exception passes', BoolVal((out[0] == 'exc' and type(out[1]) is Boom) if fails else out[0] == 'ok'))


class Quit(BaseException):
    pass


class GTimer:
    __slots__ = ('t', 'w')
    _pv_codec = lambda self: self.w.codec

    def __init__(self, w, t):
        self.w, self.t = w, t

    def _try_execute(self):
        c = self.w.ctx
        c.check('timers are executed without holding the lock', BoolVal(self.w.lock.depth == 0))
        self.w.log.append(ValC.wrap(self.t))
        k = c.choose(3)
        if k:
            raise (Boom(), SystemExit())[k - 1]


class TimerC(Codec):
    name, sort = 'timer', ValC.sort

    def __init__(self, w):
        self.w = w

    wrap = lambda self, t: GTimer(self.w, t)
    unwrap = lambda self, v: v.t
    ok = lambda self, v: isinstance(v, GTimer)
    __deepcopy__ = lambda self, memo: self


def executed(L):
    w = cur().env.w
    j = z3.Int('j!v')
    i = L.i
    return And(w.log.n == i, z3.ForAll([j], Implies(And(0 <= j, j < i), w.log.el(j) == w.todo_el(j))))


def all_executed(L=None):
    w = cur().env.w
    j = z3.Int('j!v')
    return And(w.log.n == w.todo.n, z3.ForAll([j], Implies(And(0 <= j, j < w.todo.n), w.log.el(j) == w.todo_el(j))))


@contract('TimerBackgroundThread.run', ['TimerBackgroundThread.run'], invs=[('executed so far', executed), ('all executed', all_executed)], reach=['round', 'slept'])
def t_bg(ctx):
    ctx.env.cut_while = True
    w = ctx.env.w = G()
    w.ctx = ctx
    w.lock = lock = GLock(ctx, 'lock')
    w.log = ctx.roots['log'] = SList('log', ValC, empty=True)
    w.codec = TimerC(w)
    codec = TupleC(RealC, w.codec)
    w.todo = ctx.roots['todo'] = SList('todo', codec, empty=True)
    w.todo_el = lambda j: codec.get(w.todo.el(j), 1)
    w.closest = None

    class Heap:
        def peek_closest(self):
            ctx.check('before going on, everything that was due has been executed once', all_executed())
            if ctx.choose(2):
                raise IndexError()
            w.closest = ctx.real('closest')
            return w.closest, ctx.obj('t')

        def pop_less_than(self, at):
            ctx.reach('round')
            ctx.check('the heap is changed only while holding the lock', BoolVal(lock.depth == 1))
            ctx.check('before going on, everything that was due has been executed once', all_executed())
            ctx.check('not before it is due', secs(at) <= ctx.monotonic().t)
            items = SList('items', codec)
            w.todo.acc(True)
            w.todo.s = dict(items.s)
            w.log.acc(True)
            w.log.s = dict(SList('log', ValC, empty=True).s)
            # lazily: whoever takes an element changes the heap
            n = [0]

            def guard(c, write):
                if not ctx.dead and lock.depth <= 0:
                    ctx.fail('the heap is changed only while holding the lock')
            items.guard = guard
            return items

    def sleep(s):
        ctx.reach('slept')
        ctx.check('never sleeps for a negative time, nor for longer than a second', And(secs(s) >= 0, secs(s) <= 1))
        ctx.check('not while holding the lock', BoolVal(lock.depth == 0))
        ctx.monotonic()
        if ctx.choose(2):
            raise Quit()
    import time
    ctx.models[time.sleep] = sleep
    cls = [c for c in TimerBackgroundThread.__mro__ if 'run' in c.__dict__][0]
    o = object.__new__(type('TBT', (threading.Thread, Monitor), {'run': cls.__dict__['run'], '__module__': cls.__module__}))
    o._monitor_lock = lock
    o.timer_objects = Heap()
    try:
        ctx.catch(o.run)
        ctx.fail('the thread goes on until the program ends')
    except Quit:
        pass


# ------------------------------------------------------------------------------------------------ collections of threads
class GThread:
    __slots__ = ('t', 'w')

    def __init__(self, w, t):
        object.__setattr__(self, 'w', w)
        object.__setattr__(self, 't', t)

    def _do(self, what, *a):
        self.w.log.append(ValC.wrap(self.t))
        self.w.what.add(what)
        self.w.args.append(a)

    def start(self):
        self._do('start')

    def terminate(self, *a, **k):
        self._do('terminate', a, k)
        if self.w.ctx.fork(Select(self.w.bad, self.t)):
            raise AttributeError('terminate')

    def join(self, timeout=None):
        self._do('join', timeout)

    def is_alive(self):
        return mk_bool(Select(self.w.alive, self.t))

    @property
    def daemon(self):
        return mk_bool(Select(self.w.demon, self.t))

    def __setattr__(self, k, v):
        self._do('set ' + k, v)


class World(Codec):
    name = 'thread'
    sort = property(lambda self: ValC.sort)

    def __init__(self, ctx):
        B = z3.ArraySort(ValC.sort, z3.BoolSort())
        self.ctx = ctx
        self.alive, self.demon, self.bad = ctx.fresh('alive', B), ctx.fresh('daemon', B), ctx.fresh('bad', B)
        self.log = ctx.roots['log'] = SList('log', ValC, empty=True)
        self.what, self.args = set(), []

    wrap = lambda self, t: GThread(self, t)
    unwrap = lambda self, v: v.t
    ok = lambda self, v: isinstance(v, GThread)
    __deepcopy__ = lambda self, memo: self


def visited(L):
    w, lst = cur().env.w, cur().env.ts
    j = z3.Int('j!v')
    return And(w.log.n == L.i, z3.ForAll([j], Implies(And(0 <= j, j < L.i), w.log.el(j) == lst.el(j))))


def none_alive(L):
    w, lst = cur().env.w, cur().env.ts
    j = z3.Int('j!v')
    return z3.ForAll([j], Implies(And(0 <= j, j < L.i), Not(Select(w.alive, lst.el(j)))))


@contract('ThreadCollection', ['ThreadCollection.start', 'ThreadCollection.terminate', 'ThreadCollection.join', 'ThreadCollection.is_alive',
                               'ThreadCollection.daemon', 'ThreadCollection.__len__'],
          invs=[('visited so far', visited), ('none alive so far', none_alive)], reach=['end', 'joined', 'late', 'start', 'terminate', 'daemon'])
def c_all(ctx):
    conforms(ThreadCollection(), 'threads')
    w = ctx.env.w = World(ctx)
    lst = ctx.env.ts = SList('threads', w)
    a, n = lst.s['arr'], lst.n
    o = ctx.new(ThreadCollection, 'self', threads=lst)
    j = z3.Int('j!v')
    k = ctx.choose(7)
    x = ctx.obj('x')
    some = lambda arr: z3.Exists([j], And(0 <= j, j < n, Select(arr, lst.el(j))))

    def all_visited(upto=None):
        m = n if upto is None else upto
        ctx.check('every thread is dealt with once, in order', And(w.log.n == m, z3.ForAll([j], Implies(And(0 <= j, j < m), w.log.el(j) == lst.el(j)))))
    if k == 0:
        ctx.reach('start')
        r = ok(ctx, ctx.catch(o.start))
        ctx.check('gives itself', BoolVal(r is o and w.what <= {'start'}))
        all_visited()
    elif k == 1:
        ctx.reach('terminate')
        r = ok(ctx, ctx.catch(o.terminate, x, force=True))
        ctx.check('gives itself', BoolVal(r is o and w.what <= {'terminate'}))
        ctx.check('with the arguments', BoolVal(all(len(p) == 1 and p[0] is x and q == {'force': True} for p, q in w.args)))
        all_visited()
    elif k == 2:
        timeout = (None, ctx.real('timeout'))[ctx.choose(2)]
        out = ctx.catch(o.join, timeout)
        ctx.check('with the timeout', BoolVal(w.what <= {'join'} and all(p[0] is timeout for p in w.args)))
        if out[0] == 'ok':
            ctx.reach('joined')
            ctx.check('only if no thread is alive', And(BoolVal(out[1] is o), Not(some(w.alive))))
            all_visited()
        else:
            ctx.reach('late')
            ctx.check('only if a thread is alive', And(BoolVal(isinstance(out[1], WouldWaitMore)), some(w.alive)))
    elif k == 3:
        ctx.check('alive exactly if one of them is', bool_term(ok(ctx, ctx.catch(o.is_alive))) == some(w.alive))
    elif k == 4:
        ctx.check('daemon exactly if one of them is', bool_term(ok(ctx, ctx.catch(lambda: o.daemon))) == some(w.demon))
    elif k == 5:
        ctx.reach('daemon')
        def setit():
            o.daemon = x
        ok(ctx, ctx.catch(setit))
        ctx.check('the flag is set', BoolVal(w.what <= {'set daemon'} and all(p[0] is x for p in w.args)))
        all_visited()
    else:
        ctx.check('length', num_term(ok(ctx, ctx.catch(o.__len__))) == n)
    ctx.check('the threads stay', And(lst.n == n, lst.s['arr'] == a))


@contract('ThreadCollection.add / +', ['ThreadCollection.add', 'ThreadCollection.append', 'ThreadCollection.__add__', 'ThreadCollection.__iadd__', 'ThreadCollection.__init__'],
          reach=['end', 'add', 'plus', 'in place'])
def c_add(ctx):
    conforms(ThreadCollection(), 'threads')
    ctx.check('empty at first', BoolVal(len(ThreadCollection()) == 0 and len(ThreadCollection([])) == 0))
    lst, more = SList('threads', ValC), SList('more', ValC)
    a, n, b, m = lst.s['arr'], lst.n, more.s['arr'], more.n
    o = ctx.new(ThreadCollection, 'self', threads=lst)
    k = ctx.choose(3)
    j = z3.Int('j!v')
    if k == 0:
        ctx.reach('add')
        x = ctx.obj('x')
        r = ok(ctx, ctx.catch((o.add, o.append)[ctx.choose(2)], x))
        ctx.check('gives itself', BoolVal(r is o))
        ctx.check('added at the end', And(lst.n == n + 1, lst.el(n) == ValC.unwrap(x)))
        ctx.check('the others stay', z3.ForAll([j], Implies(And(0 <= j, j < n), lst.el(j) == Select(a, j))))
        return
    other = ctx.new(ThreadCollection, 'other', threads=more) if ctx.choose(2) else more
    if k == 1:
        ctx.reach('plus')
        r = ok(ctx, ctx.catch(o.__add__, other))
        ctx.check('a new collection', BoolVal(r is not o and r is not other and type(r) is ThreadCollection and r.threads is not lst and r.threads is not more))
        res = r.threads
        ctx.check('the first stays', And(lst.n == n, lst.s['arr'] == a))
    else:
        ctx.reach('in place')
        r = ok(ctx, ctx.catch(o.__iadd__, other))
        ctx.check('gives itself', BoolVal(r is o))
        res = o.threads
    if isinstance(res, list):
        ctx.check('all of both, in order', And(BoolVal(res == []), n == 0, m == 0))
        return
    ctx.check('all of both, in order', And(res.n == n + m, z3.ForAll([j], Implies(And(0 <= j, j < n), res.el(j) == Select(a, j))),
                                           z3.ForAll([j], Implies(And(0 <= j, j < m), res.el(n + j) == Select(b, j)))))
    ctx.check('the second stays', And(more.n == m, more.s['arr'] == b))
    copied = ThreadCollection(more).threads
    ctx.check('a collection has its own list', BoolVal(copied is not more))
    if isinstance(copied, list):
        ctx.check('a collection has its own list', And(m == len(copied), m == 0))
    else:
        ctx.check('a collection has its own list', And(copied.n == m, z3.ForAll([j], Implies(And(0 <= j, j < m), copied.el(j) == Select(b, j)))))
