"""C19: measured time is exactly the time spent measuring; backing off, sleeping and reading time strings keep their promises."""
import inspect
import time

from pyvc.api import *
from satella.exceptions import WouldWaitMore
from satella.time import backoff as backoff_module, measure as _m, misc as misc_module
from satella.time.backoff import ExponentialBackoff
from satella.time.measure import measure
from satella.time.misc import sleep, time_as_int, time_ms, time_us
from satella.time.parse import parse_time_string


class Boom(Exception):
    pass


class Other(Exception):
    pass


def ok(ctx, out):
    ctx.check('does not fail', BoolVal(out[0] == 'ok'))
    return out[1]


def real(x):
    t = num_term(x)
    return t if t.sort() == z3.RealSort() else z3.ToReal(t)


# ------------------------------------------------------------------------------------------------------- measure
STATES = ('running', 'stopped', 'unstoppable')


class M:
    """a measurement in any state: acc(t) is what it has counted up to the moment t"""

    def __init__(self, ctx, states=STATES, timeout=None):
        conforms(measure(), 'started_on', 'elapsed', 'stopped_on', 'stop_on_stop', 'time_getter_callable', 'create_stopped', 'timeout', also=())
        self.ctx = ctx
        self.state = states[ctx.choose(len(states))]
        ctx.reach(self.state)
        self.times = []
        o = self.o = object.__new__(measure)
        o.time_getter_callable = self.tick
        o.started_on, o.timeout = ctx.real('started'), timeout
        o.create_stopped, o.stop_on_stop = False, self.state != 'unstoppable'
        if self.state == 'stopped':
            o.elapsed, o.stopped_on = ctx.real('elapsed'), ctx.real('stopped')
        else:
            o.elapsed = o.stopped_on = None
        self.before = self.snap()

    def tick(self):
        t = self.ctx.monotonic()
        self.times.append(t)
        return t

    def config(self):
        o = self.o
        return o.create_stopped, o.stop_on_stop, o.timeout, o.time_getter_callable.__func__, o.time_getter_callable.__self__

    def snap(self):
        return self.o.elapsed, self.o.started_on, self.o.stopped_on

    def acc(self, t=None, s=None):
        e, st, sp = s or self.snap()
        return real(e) if sp is not None and self.state != 'unstoppable' else t - real(st)

    def unchanged(self):
        self.ctx.check('nothing is changed', BoolVal(all(a is b for a, b in zip(self.snap(), self.before))))

    @property
    def running(self):
        return self.o.stopped_on is None


def between(ctx, v, m, t0, t1, s):
    """v is what was counted at some moment between t0 and t1"""
    ctx.check('exactly the time measured', And(real(v) >= m.acc(t0, s), real(v) <= m.acc(t1, s)))


@contract('measure: reading', ['measure.get_time_elapsed', 'measure.__call__', 'measure.stopped', 'measure.timeouted', 'measure.time_remaining',
                               'measure.assert_not_timeouted', 'measure.has_exceeded', 'measure.raise_if_exceeded'], reach=['end', 'over', 'in time'] + list(STATES))
def reading(ctx):
    import warnings
    ctx.models[warnings.warn] = lambda *a, **k: None
    limit = ctx.real('timeout')
    k = ctx.choose(7)
    given = k < 4 and ctx.choose(2) == 1
    m = M(ctx, timeout=limit if given else None)
    o = m.o
    t0 = ctx.monotonic().t
    if k == 0:
        v = ok(ctx, ctx.catch(o.get_time_elapsed if ctx.choose(2) else o))
        between(ctx, v, m, t0, ctx.monotonic().t, m.before)
        ctx.check('stopped', BoolVal(o.stopped is (m.state == 'stopped')))
    elif k == 1:
        v = ok(ctx, ctx.catch(lambda: o.timeouted))
        t1 = ctx.monotonic().t
        if not given:
            ctx.check('there is no limit', BoolVal(v is False))
        else:
            v = bool_term(v)
            ctx.check('over only if the limit was reached', Implies(v, m.acc(t1, m.before) >= limit.t))
            ctx.check('in time only if it was not', Implies(Not(v), m.acc(t0, m.before) < limit.t))
    elif k == 2:
        v = ok(ctx, ctx.catch(lambda: o.time_remaining))
        t1 = ctx.monotonic().t
        if not given:
            ctx.check('there is no limit', BoolVal(v is None))
        else:
            ctx.check('never negative', real(v) >= 0)
            ctx.check('what is left', And(Or(real(v) <= limit.t - m.acc(t0, m.before), real(v) == 0), Or(real(v) >= limit.t - m.acc(t1, m.before))))
    else:
        if k == 3:
            out = ctx.catch(o.assert_not_timeouted)
            cls = WouldWaitMore
        elif k == 4:
            cls = Boom
            out = ctx.catch(o.raise_if_exceeded, limit, Boom)
        elif k == 5:
            cls = WouldWaitMore
            out = ctx.catch(o.raise_if_exceeded, limit)
        else:
            v = ok(ctx, ctx.catch(o.has_exceeded, limit))
            cls = Boom
            out = ('exc', Boom()) if v else ('ok', None)
        t1 = ctx.monotonic().t
        if out[0] == 'exc':
            ctx.reach('over')
            ctx.check('only the exception promised', BoolVal(isinstance(out[1], cls) and (given or k > 3)))
            ctx.check('over only if the limit was reached', m.acc(t1, m.before) >= limit.t)
        else:
            ctx.reach('in time')
            ctx.check('in time only if it was not', Or(BoolVal(not given and k == 3), m.acc(t0, m.before) <= limit.t))
    m.unchanged()


@contract('measure: start, stop, reset', ['measure.start', 'measure.stop', 'measure.reset', 'measure.update', 'measure.reset_and_start', 'measure.reset_and_stop',
                                          'measure.adjust', 'measure.__enter__', 'measure.__exit__'],
          reach=['end', 'refused', 'done'] + list(STATES))
def changing(ctx):
    op = ('start', 'update', 'stop', 'reset', 'reset_and_start', 'reset_and_stop', 'adjust', 'enter', 'exit')[ctx.choose(9)]
    m = M(ctx)
    o, was = m.o, m.state
    t0 = ctx.monotonic().t
    by = ctx.real('by')
    if op == 'enter':
        out = ctx.catch(o.__enter__)
        if out[0] == 'ok':
            ctx.check('bound to the measurement', BoolVal(out[1] is o))
    elif op == 'exit':
        out = ctx.catch(o.__exit__, *((None, None, None) if ctx.choose(2) else (Boom, Boom(), None)))
        ctx.check('exceptions pass, and none is added', BoolVal(out[0] == 'ok' and not out[1]))
    else:
        out = ctx.catch(getattr(o, op), *([by] if op == 'adjust' else []))
    t1 = ctx.monotonic().t
    T = ctx.monotonic().t       # any later moment
    ctx.check('how it measures is not changed', BoolVal(m.config() == (False, was != 'unstoppable', None, M.tick, m)))
    allowed = {'start': was == 'stopped', 'update': was == 'stopped', 'stop': was == 'running', 'reset': True, 'reset_and_start': was != 'unstoppable',
               'reset_and_stop': was == 'running', 'adjust': True, 'enter': True, 'exit': True}[op]
    if not allowed:
        ctx.reach('refused')
        ctx.check('refused', BoolVal(out[0] == 'exc' and isinstance(out[1], TypeError)))
        if op != 'reset_and_start':
            m.unchanged()
        return
    ctx.reach('done')
    ok(ctx, out)
    if was == 'unstoppable':
        if op in ('enter', 'exit'):
            m.unchanged()
        elif op == 'reset':
            ctx.check('counts from zero', And(m.acc(T) <= T - t0, m.acc(T) >= T - t1))
        return
    if op in ('start', 'update') or op == 'enter':
        ctx.check('runs', BoolVal(m.running and o.elapsed is None))
        if was == 'stopped':
            ctx.check('goes on from what it had counted', And(m.acc(T) <= real(m.before[0]) + T - t0, m.acc(T) >= real(m.before[0]) + T - t1))
        else:
            m.unchanged()
    elif op in ('stop', 'exit'):
        ctx.check('stopped', BoolVal(not m.running and o.elapsed is not None))
        if was == 'running':
            ctx.check('keeps what it had counted', And(m.acc() >= m.acc(t0, m.before), m.acc() <= m.acc(t1, m.before)))
        else:
            m.unchanged()
    elif op == 'reset' or op == 'reset_and_stop':
        ctx.check('stopped', BoolVal(not m.running))
        ctx.check('at zero', m.acc() == 0)
    elif op == 'reset_and_start':
        ctx.check('runs', BoolVal(m.running))
        ctx.check('counts from zero', And(m.acc(T) <= T - t0, m.acc(T) >= T - t1))
    elif was == 'running':
        ctx.check('adjusted', m.acc(T) == m.acc(T, m.before) - by.t)


class Fut:
    def __init__(self):
        self.cb = []

    def add_done_callback(self, f):
        self.cb.append(f)


@contract('measure.__init__', ['measure.__init__'], reach=['end', 'future', 'stopped', 'running'])
def init(ctx):
    m = type('T', (), {})()
    adjust = ctx.real('adjust')
    stopped = ctx.choose(2) == 1
    fut = Fut() if not stopped and ctx.choose(2) else None
    kw = {'adjust': adjust} if ctx.choose(2) else {}
    a = adjust.t if kw else z3.RealVal(0)
    t0 = ctx.monotonic().t
    limit = ctx.real('timeout')
    o = ok(ctx, ctx.catch(lambda: measure(fut, time_getter_callable=ctx.monotonic, create_stopped=stopped, timeout=limit, **kw)))
    t1 = ctx.monotonic().t
    ctx.check('the limit is kept', BoolVal(o.timeout is limit))
    if stopped:
        ctx.reach('stopped')
        ctx.check('stopped, at zero', BoolVal(o.stopped is True))
        ctx.check('stopped, at zero', real(o()) == 0)
        return
    ctx.reach('running')
    T = ctx.monotonic().t
    v = o()
    U = ctx.monotonic().t
    ctx.check('counts since it was made', And(BoolVal(o.stopped is False), real(v) >= T - t1 - a, real(v) <= U - t0 - a))
    if fut is not None:
        ctx.reach('future')
        ctx.check('told when the future completes', BoolVal(len(fut.cb) == 1))
        ok(ctx, ctx.catch(fut.cb[0], fut))
        ctx.check('stops then', BoolVal(o.stopped is True))


@contract('measure: decorating', ['measure.__call__', 'measure.__call__.outer', 'measure.__call__.outer.inner'], reach=['end', 'function', 'generator', 'fails', 'method'])
def decorated(ctx):
    kind = ('function', 'generator', 'method')[ctx.choose(3)]
    ctx.reach(kind)
    stopped = ctx.choose(2) == 1
    fails = kind != 'generator' and ctx.choose(2) == 1
    o = measure(time_getter_callable=ctx.monotonic, create_stopped=stopped)
    if not stopped:
        o.elapsed, o.stopped_on = ((None, None), (ctx.real('elapsed'), ctx.real('stopped at')))[ctx.choose(2)]     # used before, and stopped or not
    was = (o.started_on, o.elapsed, o.stopped_on)
    x, r = ctx.obj('x'), ctx.obj('r')
    seen = []

    def body(m, x):
        seen.append((m, x, m.stopped))
        t = ctx.monotonic().t
        if not stopped:
            v = real(m())
            ctx.check('counts the time of this call only', And(v >= 0, v <= ctx.monotonic().t - t0))
        else:
            ctx.check('not started yet', real(m()) == 0)
        ctx.models['t'] = None
    if kind == 'function':
        @o
        def f(m, x):
            body(m, x)
            if fails:
                raise Boom()
            return r
    elif kind == 'generator':
        @o
        def f(m, x):
            yield 1
            body(m, x)
            yield r
    else:
        class C:
            @o
            def f(self, m, x):
                ctx.check('the measurement comes after self', BoolVal(self is c))
                body(m, x)
                if fails:
                    raise Boom()
                return r
        c = C()
        f = c.f
    t0 = ctx.monotonic().t
    out = ctx.catch(lambda: list(f(x)) if kind == 'generator' else f(x))
    if fails:
        ctx.reach('fails')
        ctx.check('exceptions pass', BoolVal(out[0] == 'exc' and type(out[1]) is Boom))
    else:
        v = ok(ctx, out)
        ctx.check('the result passes', BoolVal(v == [1, r] if kind == 'generator' else v is r))
    ctx.check('called once, with its own measurement', BoolVal(len(seen) == 1 and seen[0][0] is not o and seen[0][1] is x and seen[0][2] is stopped))
    if not stopped:
        ctx.check('stopped when the call ends', BoolVal(seen[0][0].stopped is True))
    ctx.check('the original is left alone', BoolVal(all(p is q for p, q in zip(was, (o.started_on, o.elapsed, o.stopped_on)))))


# ------------------------------------------------------------------------------------------------------- backing off
def backing(ctx, healthy=None):
    conforms(ExponentialBackoff(), 'start', 'limit', 'counter', 'sleep_fun', 'unavailable_until', 'condition', 'grace_amount', 'grace_counter', also=())
    o = object.__new__(ExponentialBackoff)
    o.start, o.limit, o.counter = ctx.real('start'), ctx.real('limit'), ctx.real('counter')
    ctx.assume(And(o.start.t > 0, o.limit.t > 0, o.counter.t >= 0, o.counter.t <= o.limit.t))
    o.grace_amount, o.grace_counter = ctx.int('grace'), ctx.int('failures')
    ctx.assume(And(0 <= o.grace_counter.t, o.grace_counter.t <= o.grace_amount.t))
    none = ctx.choose(2) == 1 if healthy is None else healthy
    o.unavailable_until = None if none else ctx.real('until')
    if none:
        ctx.assume(o.counter.t == 0)
    else:
        ctx.assume(And(o.counter.t > 0, o.grace_counter.t == o.grace_amount.t))
    ctx.env.slept, ctx.env.told = [], 0
    o.sleep_fun = lambda s: ctx.env.slept.append(s)

    class Cond:
        def notify_all(self):
            ctx.check('told only when the state has been changed', BoolVal(o.unavailable_until is None))
            ctx.env.told += 1
    o.condition = Cond()
    return o


@contract('ExponentialBackoff.failed / success', ['ExponentialBackoff.failed', 'ExponentialBackoff.success', 'ExponentialBackoff.sleep', 'ExponentialBackoff.available'],
          reach=['end', 'success', 'grace', 'first', 'again'])
def failing(ctx):
    o = backing(ctx)
    c, g, u = o.counter.t, o.grace_counter.t, o.unavailable_until
    k = ctx.choose(3)
    if k == 0:
        ctx.reach('success')
        ok(ctx, ctx.catch(o.success))
        ctx.check('as if nothing had failed', And(real(o.counter) == 0, num_term(o.grace_counter) == 0, BoolVal(o.unavailable_until is None)))
        ctx.check('those who wait are told', BoolVal(ctx.env.told >= 1))
        ctx.check('available', bool_term(ok(ctx, ctx.catch(lambda: o.available))))
        return
    if k == 1:
        ctx.check('available exactly if the last call succeeded', bool_term(ok(ctx, ctx.catch(lambda: o.available))) == (c == 0))
        ok(ctx, ctx.catch(o.sleep))
        ctx.check('sleeps once, as long as it should', BoolVal(len(ctx.env.slept) == 1))
        ctx.check('sleeps once, as long as it should', real(ctx.env.slept[0]) == c)
        return
    t0 = ctx.monotonic().t
    ok(ctx, ctx.catch(o.failed))
    t1 = ctx.monotonic().t
    n = real(o.counter)
    if ctx.fork(g < o.grace_amount.t):
        ctx.reach('grace')
        ctx.check('a failure within the grace has no effect but being counted', And(n == c, num_term(o.grace_counter) == g + 1, BoolVal(o.unavailable_until is u)))
        return
    ctx.reach('first' if u is None else 'again')
    m = lambda a: If(a < o.limit.t, a, o.limit.t)
    ctx.check('starts with the first delay' if u is None else 'doubles the delay', n == m(o.start.t if u is None else 2 * c))
    ctx.check('never over the limit', And(n > 0, n <= o.limit.t))
    ctx.check('unavailable for that long', And(BoolVal(o.unavailable_until is not None)))
    ctx.check('unavailable for that long', And(real(o.unavailable_until) >= t0 + n, real(o.unavailable_until) <= t1 + n))
    ctx.check('not available', Not(bool_term(ok(ctx, ctx.catch(lambda: o.available)))))


def volatile(ctx):
    """success() or failed() may be called by another thread at any moment"""
    o = backing(ctx)
    ctx.env.history = []

    def rd(self):
        if not ctx.dead and ctx.choose(2):
            ctx.env.u = None if ctx.choose(2) else ctx.real('until')
        ctx.env.history.append(ctx.env.u)
        return ctx.env.u

    def wr(self, v):
        ctx.fail('asking does not change anything')
    ctx.env.u = o.unavailable_until
    cls = type('B', (ExponentialBackoff,), {'unavailable_until': property(rd, wr), '__module__': ExponentialBackoff.__module__})
    p = object.__new__(cls)
    for a in ('start', 'limit', 'counter', 'sleep_fun', 'condition', 'grace_amount', 'grace_counter'):
        setattr(p, a, getattr(o, a))
    return p


@contract('ExponentialBackoff: asking', ['ExponentialBackoff.time_until_next_check', 'ExponentialBackoff.ready_for_next_check'], reach=['end', 'healthy', 'waiting', 'ready'])
def asking(ctx):
    o = volatile(ctx)
    k = ctx.choose(2)
    t0 = ctx.monotonic().t
    r = ok(ctx, ctx.catch(o.time_until_next_check if k == 0 else lambda: o.ready_for_next_check))
    t1 = ctx.monotonic().t
    h = ctx.env.history
    free = r is None if k == 0 else r is True if not isinstance(r, Sym) else ctx.fork(bool_term(r))
    if free:
        ctx.reach('healthy' if h[-1] is None else 'ready')
        ctx.check('ready only if it is healthy or the time is over', Or(*[BoolVal(True) if u is None else t1 >= real(u) for u in h]))
    else:
        ctx.reach('waiting')
        us = [real(u) for u in h if u is not None]
        ctx.check('not ready only if it failed and the time is not over', Or(*[t0 <= u for u in us]))
        if k == 0:
            ctx.check('what is left', Or(*[And(real(r) >= 0, real(r) <= u - t0, real(r) >= u - t1) for u in us]))


@contract('ExponentialBackoff.wait_until_available', ['ExponentialBackoff.wait_until_available'], reach=['end', 'ready', 'late'])
def waiting(ctx):
    ctx.env.cut_while = True
    timeout = None if ctx.choose(2) else ctx.real('timeout')
    o = backing(ctx)
    lock = GLock(ctx, 'condition', reentrant=True)
    e = ctx.env
    g = ctx.roots['g'] = type('G', (), {})()
    g.free = False

    def check(self):
        if ctx.choose(2):
            g.free = True
            return None
        g.free = False
        g.left = ctx.real('left')
        g.held = lock.depth > 0
        ctx.assume(g.left.t >= 0)
        return g.left

    class Cond:
        def __enter__(self):
            return lock.__enter__()

        def __exit__(self, *a):
            return lock.__exit__(*a)
        acquire, release = lock.acquire, lock.release

        def wait(self, timeout=None, dont_raise=False):
            lim = e.limit
            ctx.check('success cannot come unnoticed between looking and waiting', BoolVal(lock.depth == 1 and g.held is True))
            ctx.check('does not wait if ready', BoolVal(g.free is False))
            ctx.check('waits with a limit', BoolVal(timeout is not None))
            ctx.check('waits no longer than until the next check', real(timeout) <= g.left.t)
            if lim is not None:
                ctx.check('waits no longer than asked to', Or(real(timeout) <= real(lim), real(timeout) <= 0))
            ctx.check('is not reported as a failure', BoolVal(dont_raise is True))
            g.held = False
    g.left, g.held = ctx.real('left'), False
    e.limit = timeout
    cls = type('B', (ExponentialBackoff,), {'time_until_next_check': check, '__module__': ExponentialBackoff.__module__})
    p = object.__new__(cls)
    for a in ('start', 'limit', 'counter', 'sleep_fun', 'grace_amount', 'grace_counter', 'unavailable_until'):
        setattr(p, a, getattr(o, a))
    p.condition = Cond()
    t0 = ctx.monotonic().t
    out = ctx.catch(p.wait_until_available, timeout)
    t1 = ctx.monotonic().t
    ctx.check('the lock is free on return', BoolVal(lock.depth == 0))
    if out[0] == 'ok':
        ctx.reach('ready')
        ctx.check('returns only if it is ready', bool_term(g.free))
    else:
        ctx.reach('late')
        ctx.check('gives up only if it was not ready', And(BoolVal(isinstance(out[1], WouldWaitMore) and timeout is not None), Not(bool_term(g.free))))
        if timeout is not None:
            ctx.check('only after the time is over', t1 - t0 >= timeout.t)


class Quit(BaseException):
    pass


NAMES = ['', 'ok', 'boom', 'other', 'success', 'failed', 'sleep']


def again_inv(L):
    t = num_term(cur().roots['g'].last)
    return Or(t == 0, t == NAMES.index('sleep'))


@contract('ExponentialBackoff.launch', ['ExponentialBackoff.launch', 'ExponentialBackoff.launch.outer', 'ExponentialBackoff.launch.outer.inner'],
          invs=[('after a rest', again_inv)], reach=['end', 'success', 'other failure', 'immediate'])
def launch(ctx):
    ctx.env.cut_while = True
    log = ctx.roots['g'] = type('G', (), {})()
    code = lambda n: SNum(z3.IntVal(NAMES.index(n)))
    last = lambda n: num_term(log.last) == NAMES.index(n)
    log.last = code('')
    x, r = ctx.obj('x'), ctx.obj('r')

    def ev(name, after):
        def f(self):
            ctx.check('%s in its turn' % name, last(after))
            log.last = code(name)
        return f
    cls = type('B', (ExponentialBackoff,), {'success': ev('success', 'ok'), 'failed': ev('failed', 'boom'), 'sleep': ev('sleep', 'failed'),
                                            '__module__': ExponentialBackoff.__module__})
    o = object.__new__(cls)
    imm = ctx.choose(2) == 1

    def action(*a, **k):
        ctx.check('called again only after sleeping', Or(last(''), last('sleep')))
        ctx.check('with the same arguments', BoolVal((a == () and k == {}) if imm else (len(a) == 1 and a[0] is x and k.keys() == {'k'} and k['k'] is x)))
        w = ctx.choose(3)
        if w == 0:
            log.last = code('ok')
            return r
        log.last = code('boom' if w == 1 else 'other')
        raise (Boom if w == 1 else Other)()
    listed = (Boom, (KeyError, Boom))[ctx.choose(2)]
    if imm:
        ctx.reach('immediate')
        out = ctx.catch(lambda: o.launch(listed, immediate=True)(action))
    else:
        f = ok(ctx, ctx.catch(lambda: o.launch(listed)(action)))
        ctx.check('not called yet', last(''))
        out = ctx.catch(lambda: f(x, k=x))
    if out[0] == 'ok':
        ctx.reach('success')
        ctx.check('returns only after a success, which is reported', last('success'))
        ctx.check('gives the result' if not imm else 'gives the function', BoolVal(callable(out[1]) if imm else out[1] is r))
    else:
        ctx.reach('other failure')
        ctx.check('an exception that is not listed passes', And(BoolVal(type(out[1]) is Other), last('other')))


@contract('ExponentialBackoff.__init__', ['ExponentialBackoff.__init__'])
def b_init(ctx):
    start, limit, grace = ctx.real('start'), ctx.real('limit'), ctx.int('grace')
    o = ok(ctx, ctx.catch(ExponentialBackoff, start, limit, len, grace))
    ctx.check('as given', BoolVal(o.start is start and o.limit is limit and o.sleep_fun is len and o.grace_amount is grace))
    ctx.check('healthy at first', And(real(o.counter) == 0, num_term(o.grace_counter) == 0, BoolVal(o.unavailable_until is None)))


# ------------------------------------------------------------------------------------------------------- time strings
UNITS = {1: ('s', 'sec', 'secs', 'second', 'seconds'), 60: ('m', 'min', 'mins', 'minute', 'minutes'), 3600: ('h', 'hour', 'hours'),
         86400: ('d', 'day', 'days'), 7 * 86400: ('w', 'week', 'weeks')}


class Text:
    """a number written with the given number of characters, none of them a letter, and what follows it"""

    def __init__(self, number, width, rest):
        self.number, self.width, self.rest = number, width, rest

    def __contains__(self, x):
        return x in self.rest

    def index(self, x, *a):
        return self.width + self.rest.index(x)

    def find(self, x, *a):
        return self.width + self.rest.find(x) if x in self.rest else -1

    def __getitem__(self, s):
        if not isinstance(s, slice) or s.start not in (None, 0) or s.step not in (None, 1) or not isinstance(s.stop, int) or s.stop < self.width:
            raise Unsupported('looking into the number')
        return Text(self.number, self.width, self.rest[:s.stop - self.width])

    def strip(self, *a):
        return Text(self.number, self.width, self.rest.rstrip(*a))
    rstrip = strip

    def lower(self):
        return Text(self.number, self.width, self.rest.lower())

    def __getattr__(self, x):
        raise Unsupported('text.%s' % x)


@contract('parse_time_string', ['parse_time_string'], reach=['end', 'number', 'text'])
def parsing(ctx):
    n = ctx.real('n')
    k = ctx.choose(3)
    if k < 2:
        ctx.reach('number')
        x = ctx.int('i') if k else n
        ctx.check('a number is seconds', real(ok(ctx, ctx.catch(parse_time_string, x))) == real(x))
        return
    ctx.reach('text')
    unit = ctx.choose(6)
    if unit == 5:
        mult, rest = 1, ''
    else:
        mult = sorted(UNITS)[unit]
        rest = ('', ' ')[ctx.choose(2)] + UNITS[mult][ctx.choose(len(UNITS[mult]))]
    import builtins

    def to_float(t):
        if not isinstance(t, Text):
            return builtins.float(t)
        if t.rest.strip():
            raise ValueError('could not convert string to float')
        return t.number
    ctx.models[builtins.float] = to_float
    out = ctx.catch(parse_time_string, Text(n, 1 + ctx.choose(3), rest))
    v = ok(ctx, out)
    ctx.check('so many units', real(v) == n.t * mult)


def sleep_inv(L, v):
    """what remains is not more than what is left of the interval"""
    e = cur().env
    if not isinstance(v, (SNum, int, float)):
        return None
    return real(v) >= e.y.t - (real(cur().monotonic()) - e.t0)


def hit_inv(L):
    e = cur().env
    return Not(And(bool_term(cur().roots['g'].hit), BoolVal(e.abort)))


@contract('sleep', ['sleep'], invs=each_local('left', sleep_inv) + [('goes on', hit_inv)], reach=['end', 'slept', 'aborted', 'negative'])
def sleeping(ctx):
    ctx.env.cut_while = True
    e = ctx.env
    y = e.y = ctx.real('y')
    g = ctx.roots['g'] = type('G', (), {})()
    g.hit = False
    abort = e.abort = ctx.choose(2) == 1

    def time_sleep(s):
        ctx.check('never asks to sleep for a negative time', real(s) >= 0)
        ctx.check('never sleeps longer than asked to', real(s) <= e.y.t)
        t = ctx.monotonic().t
        u = ctx.monotonic().t
        if ctx.choose(2):
            g.hit = True
            raise KeyboardInterrupt()
        ctx.assume(u - t >= real(s))
    ctx.models[time.sleep] = time_sleep
    ctx.models[misc_module.parse_time_string] = lambda s: s
    e.t0 = ctx.monotonic().t
    out = ctx.catch(sleep, y, abort)
    v = ok(ctx, out)
    t1 = ctx.monotonic().t
    if not isinstance(v, bool):
        ctx.fail('reports whether it has slept')
    elif v:
        ctx.reach('slept')
        ctx.check('slept for at least that long', And(y.t >= 0, t1 - e.t0 >= y.t))
        ctx.check('not interrupted, or told to go on', Or(Not(bool_term(g.hit)), BoolVal(not abort)))
    elif g.hit is not False:
        ctx.reach('aborted')
        ctx.check('aborted only if interrupted and told to', And(bool_term(g.hit), BoolVal(abort)))
    else:
        ctx.reach('negative')
        ctx.check('nothing to sleep', y.t < 0)


@contract('time_as_int / time_ms / time_us', ['time_as_int', 'time_ms', 'time_us'])
def clock(ctx):
    ns, s = ctx.int('ns').t, ctx.real('s').t
    ctx.assume(And(ns >= 0, s >= 0))
    ctx.models[time.time_ns] = lambda: IntC.wrap(ns)
    ctx.models[time.time] = lambda: SNum(s)
    for f, t in ((time_as_int, s), (time_ms, z3.ToReal(ns) / 1000000), (time_us, z3.ToReal(ns) / 1000)):
        v = ok(ctx, ctx.catch(f))
        ctx.check('an integer', BoolVal(isinstance(v, SNum) and num_term(v).sort() == z3.IntSort()))
        ctx.check('rounded down', And(real(v) <= t, t < real(v) + 1))
