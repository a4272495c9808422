"""C16: waiting never loses a wake-up and ends exactly when what is waited for has happened (or the time is over)."""
import concurrent.futures
import threading
from concurrent.futures import ThreadPoolExecutor

from pyvc.api import *
from satella.coding.concurrent import AtomicNumber, PeekableQueue, DeferredValue
from satella.coding.concurrent import sync as sync_module
from satella.coding.concurrent import thread as thread_module
from satella.coding.concurrent.futures import ExecutorWrapper
from satella.coding.concurrent.sync import sync_threadpool
from satella.coding.concurrent.thread import Condition, call_in_separate_thread
from satella.exceptions import WouldWaitMore, Empty, ResourceLocked


class Boom(Exception):
    pass


def a_timeout(ctx):
    return None if ctx.choose(2) else ctx.real('timeout')


def time_term(t):
    return num_term(t) if num_term(t).sort() == z3.RealSort() else z3.ToReal(num_term(t))


class Waits:
    """a condition variable over a ghost lock: the rules under which no wake-up can be lost are obligations of each use"""

    def __init__(self, ctx, lock, may_wait, limit=None, name='condition'):
        self.ctx, self.lock, self.may_wait, self.limit, self.name = ctx, lock, may_wait, limit, name
        self.notified = self.all = self.waits = 0

    def __enter__(self):
        return self.lock.__enter__()

    def __exit__(self, *a):
        return self.lock.__exit__(*a)

    def acquire(self, *a, **k):
        return self.lock.acquire(*a, **k)

    def release(self):
        return self.lock.release()

    def notify_all(self):
        self.ctx.check('%s: notified while its lock is held' % self.name, BoolVal(self.lock.depth > 0))
        self.all += 1

    def notify(self, n=1):
        self.ctx.check('%s: notified while its lock is held' % self.name, BoolVal(self.lock.depth > 0))
        self.notified += 1

    def wait(self, timeout=None):
        ctx = self.ctx
        ctx.check('%s: its lock is held on wait' % self.name, BoolVal(self.lock.depth == 1))
        self.waits += 1
        self.may_wait()
        lim = self.limit
        if lim is None:
            ctx.check('waits without a limit if none was given', BoolVal(timeout is None))
        else:
            ctx.check('waits no longer than asked to', BoolVal(timeout is not None))
            ctx.check('waits no longer than asked to', Or(time_term(timeout) <= time_term(lim), time_term(timeout) <= 0))
        self.lock.release()
        self.lock.acquire()
        return bool(ctx.bool('notified')) if timeout is not None else True

    __deepcopy__ = lambda self, memo: self


# ----------------------------------------------------------------------------------------------- PeekableQueue
def queue(ctx, timeout=None):
    conforms(PeekableQueue(), 'queue', 'lock', 'inserted_condition', also=())
    real = PeekableQueue()
    if not isinstance(real.inserted_condition, threading.Condition) or real.inserted_condition._lock is not real.lock:
        raise Unsupported('the condition has a lock of its own')
    q = SList('queue', ValC)
    o, lock = monitored(ctx, PeekableQueue, {'queue': q}, {}, lambda o: [], 'lock')
    g = ctx.roots['seen'] = SList('seen', ValC)     # the queue as it was when the lock was taken
    acq = lock.on_acquire

    def on_acquire():
        acq()
        g.acc(True)
        g.s = dict(q.s)
    lock.on_acquire = on_acquire
    ctx.env.seen, ctx.env.q0 = g, q
    c = Waits(ctx, lock, lambda: ctx.check('waits only while the queue is empty', q.n == 0), timeout)
    object.__setattr__(o, 'inserted_condition', c)
    return o, lock, c, q


def free(ctx, lock):
    ctx.check('the lock is free on return', BoolVal(lock.depth == 0))


def sn(x):
    return x[2]['n'], x[2]['arr']


def same(pre, post, shift=0):
    j = z3.Int('j!s')
    return z3.ForAll([j], Implies(And(0 <= j, j < post[0]), Select(post[1], j) == Select(pre[1], j + shift)))


def untouched(L):
    q, g = cur().env.q0, cur().env.seen
    return And(q.n == g.n, q.s['arr'] == g.s['arr'])


@contract('PeekableQueue.get / peek', ['PeekableQueue.get', 'PeekableQueue.peek', 'PeekableQueue.__get'], invs=[('nothing taken yet', untouched)], reach=['end', 'got', 'empty'])
def q_get(ctx):
    timeout = a_timeout(ctx)
    o, lock, c, q = queue(ctx, timeout)
    ctx.env.cut_while = True
    peek = ctx.choose(2)
    t0 = ctx.monotonic()
    out = ctx.catch(o.peek if peek else o.get, timeout)
    free(ctx, lock)
    if not lock.sections:
        ctx.fail('the queue is looked at')
        return
    g = ctx.env.seen
    (n0, a0), (n1, a1) = (g.n, g.s['arr']), gsn(lock.sections[-1][1])
    if out[0] == 'ok':
        ctx.reach('got')
        ctx.check('only if there is an element', n0 > 0)
        ctx.check('the first element', ValC.unwrap(out[1]) == Select(a0, 0))
        ctx.check('removed by get, kept by peek', n1 == (n0 if peek else n0 - 1))
        ctx.check('the others stay in order', same((n0, a0), (n1, a1), 0 if peek else 1))
    else:
        ctx.reach('empty')
        ctx.check('fails only with Empty', BoolVal(isinstance(out[1], Empty)))
        ctx.check('only if a timeout was given', BoolVal(timeout is not None))
        ctx.check('only if there was no element', n0 == 0)
        ctx.check('and nothing is changed', n1 == n0)
        if timeout is not None:
            ctx.check('only after the time is over', ctx.monotonic().t - t0.t >= time_term(timeout))


def gsn(s):
    v = s['queue']
    d = v[-1] if isinstance(v, tuple) else v
    return d['n'], d['arr']


def put_inv(L):
    e = cur().env
    if 'q' not in e.__dict__:
        raise TypeError
    n0, a0 = gsn(e.lock.sections[-1][0])
    j = z3.Int('j!p')
    return And(e.q.n == n0 + L.i, z3.ForAll([j], Implies(And(0 <= j, j < n0), e.q.el(j) == Select(a0, j))),
               z3.ForAll([j], Implies(And(0 <= j, j < L.i), e.q.el(n0 + j) == e.items.el(j))))


@contract('PeekableQueue.put / put_many', ['PeekableQueue.put', 'PeekableQueue.put_many'], reach=['end', 'put', 'many'], invs=[('put so far', put_inv)])
def q_put(ctx):
    o, lock, c, q = queue(ctx)
    k = ctx.choose(2)
    if k == 0:
        ctx.reach('put')
        x = ctx.obj('x')
        out = ctx.catch(o.put, x)
    else:
        ctx.reach('many')
        items = SList('items', ValC)
        ctx.env.q, ctx.env.lock, ctx.env.items = q, lock, items
        out = ctx.catch(o.put_many, items)
    free(ctx, lock)
    ctx.check('does not fail', BoolVal(out[0] == 'ok'))
    (n0, a0), (n1, a1) = gsn(lock.sections[0][0]), gsn(lock.sections[-1][1])
    ctx.check('one atomic step', BoolVal(len(lock.sections) == 1))
    j = z3.Int('j!p')
    ctx.check('what was there stays in front', And(n1 >= n0, z3.ForAll([j], Implies(And(0 <= j, j < n0), Select(a1, j) == Select(a0, j)))))
    if k == 0:
        ctx.check('appended', And(n1 == n0 + 1, Select(a1, n0) == ValC.unwrap(x)))
    else:
        ctx.check('all appended in order', And(n1 == n0 + items.n, z3.ForAll([j], Implies(And(0 <= j, j < items.n), Select(a1, n0 + j) == items.el(j)))))
    ctx.check('if there were no elements before, all who wait are woken up', Or(n0 > 0, n1 == 0, BoolVal(c.all > 0)))


@contract('PeekableQueue.__init__ / qsize', ['PeekableQueue.__init__', 'PeekableQueue.qsize'])
def q_init(ctx):
    r = PeekableQueue()
    conforms(r, 'queue', 'lock', 'inserted_condition', also=())
    ctx.check('empty', BoolVal(len(r.queue) == 0))
    o, lock, c, q = queue(ctx)
    ctx.env.spec = True
    n = q.n
    out = ctx.catch(o.qsize)
    ctx.env.spec = False
    ctx.check('the number of elements', BoolVal(out[0] == 'ok') if out[0] != 'ok' else num_term(out[1]) == n)


# ----------------------------------------------------------------------------------------------- AtomicNumber
class Watched:
    """an atomic number whose value other threads change at any time, notifying its condition afterwards"""

    def __init__(self, ctx, target, limit):
        conforms(AtomicNumber(), 'value', 'condition')
        self.ctx, self.reads, self.mon = ctx, [], GLock(ctx, 'monitor', reentrant=True)
        self.cl = GLock(ctx, 'condition.lock', reentrant=True)
        if not hasattr(AtomicNumber().condition, '_lock') or not is_rlock(AtomicNumber().condition._lock):
            raise Unsupported('another kind of a condition')
        w = self
        self.cl.on_acquire = lambda: w.reads.clear()

        def get(o):
            if ctx.dead or core.CTX is not ctx:
                return 0
            v = ctx.int('value')
            if w.mon.depth and w.reads and w.reads[-1][1] == w.mon.acquired:
                v = w.reads[-1][0]
            w.reads.append((v, w.mon.acquired))
            w.last = v
            return v
        self.last = None
        self.o = object.__new__(type('AtomicNumber', (AtomicNumber,), {'value': property(get), '__slots__': (), '__module__': AtomicNumber.__module__}))
        object.__setattr__(self.o, '_monitor_lock', self.mon)
        self.target, self.limit, self.waits = target, limit, 0
        object.__setattr__(self.o, 'condition', self)
        acq = self.mon.acquire

        def acquire(*a, **k):
            ctx.check('the monitor is not taken while holding the lock of the condition (those who notify take them the other way round)',
                      BoolVal(w.cl.depth == 0 or w.mon.depth > 0))
            return acq(*a, **k)
        self.mon.acquire = acquire

    __enter__ = lambda self: self.cl.__enter__()
    __exit__ = lambda self, *a: self.cl.__exit__(*a)
    acquire = lambda self, *a, **k: self.cl.acquire(*a, **k)
    release = lambda self: self.cl.release()
    __deepcopy__ = lambda self, memo: self

    def notify_all(self):
        self.ctx.fail('waiting does not notify')

    notify = notify_all

    def wait(self, timeout=None, dont_raise=False):
        ctx = self.ctx
        self.waits += 1
        ctx.check('no notification fits between the comparison and the wait', BoolVal(self.cl.depth > 0 and bool(self.reads)))
        ctx.check('the monitor is free while waiting', BoolVal(self.mon.depth == 0))
        if self.reads:
            ctx.check('waits only if the last value seen differs', num_term(self.reads[-1][0]) != num_term(self.target))
        if self.limit is None:
            ctx.check('waits without a limit if none was given', BoolVal(timeout is None))
        else:
            ctx.check('waits no longer than asked to', BoolVal(timeout is not None))
            ctx.check('waits no longer than asked to', Or(time_term(timeout) <= time_term(self.limit), time_term(timeout) <= 0))
        self.reads.clear()
        if timeout is not None and not dont_raise and ctx.choose(2) == 1:
            raise WouldWaitMore('wait was not notified')


@contract('AtomicNumber.wait_until_equal', ['AtomicNumber.wait_until_equal', 'measure.__init__', 'measure.timeouted', 'measure.time_remaining'],
          reach=['end', 'returned', 'timed out'])
def n_until(ctx):
    timeout = a_timeout(ctx)
    v = ctx.int('v')
    w = Watched(ctx, v, timeout)
    ctx.env.cut_while = True
    t0 = ctx.monotonic()
    arg = v
    if ctx.choose(2):
        other = Watched(ctx, v, timeout)
        arg = other.o
        arg = type('Fixed', (AtomicNumber,), {'value': property(lambda s: v), '__slots__': (), '__module__': AtomicNumber.__module__})
        arg = object.__new__(arg)
        object.__setattr__(arg, '_monitor_lock', other.mon)
    out = ctx.catch(w.o.wait_until_equal, arg, timeout)
    ctx.check('the locks are free on return', BoolVal(w.mon.depth == 0 and w.cl.depth == 0))
    if out[0] == 'ok':
        ctx.reach('returned')
        ctx.check('only after the value was seen equal', BoolVal(w.last is not None) if w.last is None else num_term(w.last) == num_term(v))
    else:
        ctx.reach('timed out')
        ctx.check('gives up only with WouldWaitMore', BoolVal(isinstance(out[1], WouldWaitMore)))
        ctx.check('only if a timeout was given', BoolVal(timeout is not None))
        ctx.check('only if the value seen last differs', BoolVal(False) if w.last is None else num_term(w.last) != num_term(v))
        if timeout is not None:
            ctx.check('only after the time is over', ctx.monotonic().t - t0.t >= time_term(timeout))


@contract('AtomicNumber.wait', ['AtomicNumber.wait'], reach=['end', 'woken', 'timed out', 'quiet'])
def n_wait(ctx):
    timeout = a_timeout(ctx)
    throw = ctx.choose(2) == 1
    o = object.__new__(AtomicNumber)
    n = []
    res = ctx.choose(3)

    class C:
        def wait(self, t=None, dont_raise=False):
            ctx.check('the timeout is passed on', BoolVal(t is timeout))
            n.append(1)
            if timeout is not None and res == 2:
                raise ResourceLocked('x')
            if timeout is not None and res and not dont_raise:
                raise WouldWaitMore('x')
    object.__setattr__(o, 'condition', C())
    out = ctx.catch(o.wait, timeout, throw)
    ctx.check('waits once', BoolVal(len(n) == 1))
    if timeout is not None and res and throw:
        ctx.reach('timed out')
        ctx.check('reports that', BoolVal(out[0] == 'exc' and isinstance(out[1], WouldWaitMore)))
    else:
        ctx.reach('quiet' if res and timeout is not None else 'woken')
        ctx.check('returns', BoolVal(out[0] == 'ok'))


def mk_setter(meth):
    @contract('AtomicNumber.%s notifies' % meth, ['AtomicNumber.' + meth])
    def h(ctx):
        conforms(AtomicNumber(), 'value', 'condition')
        o, lock = monitored(ctx, AtomicNumber, dict(value=ctx.int('value')), {'value': IntC}, lambda o: [], reentrant=True)
        told = []

        class C:
            def notify_all(self):
                told.append(get(o, 'value'))

            __enter__ = lambda self: self
            __exit__ = lambda self, *a: False
        object.__setattr__(o, 'condition', C())
        x = ctx.int('other')
        out = ctx.catch(getattr(o, meth), x)
        pre, post = lock.sections[0][0]['value'], lock.sections[-1][1]['value']
        if out[0] == 'ok' and pre is not post:
            a, b = core.unify(num_term(pre), num_term(post))
            same_ = BoolVal(False)
            if told:
                c, d = core.unify(num_term(told[-1]), num_term(post))
                same_ = c == d
            ctx.check('everyone who waits is woken up after the change', Or(a == b, same_))


for _m in ('__iadd__', '__isub__', '__imul__', '__itruediv__', '__ifloordiv__', '__ipow__', '__iand__', '__ior__', '__ixor__', '__ilshift__', '__irshift__'):
    mk_setter(_m)


# ----------------------------------------------------------------------------------------------- Condition
@contract('Condition', ['Condition.wait', 'Condition.notify', 'Condition.notify_all'], reach=['end', 'woken', 'late', 'locked', 'told'])
def cond(ctx):
    base = Condition.__mro__[1]
    lock = GLock(ctx, 'lock', reentrant=True)
    real = Condition()
    o = object.__new__(Condition)
    o._lock, o.acquire, o.release = lock, lock.acquire, lock.release
    log = []
    timeout = a_timeout(ctx)
    res = ctx.choose(2)

    def p_wait(self, timeout=None):
        ctx.check('waits while holding the lock', BoolVal(lock.depth == 1))
        log.append(('wait', timeout))
        return True if timeout is None else bool(res)

    def p_notify(self, n=1):
        ctx.check('notifies while holding the lock', BoolVal(lock.depth == 1))
        log.append(('notify', n))

    def p_notify_all(self):
        ctx.check('notifies while holding the lock', BoolVal(lock.depth == 1))
        log.append(('all', None))
    ctx.models[base.wait], ctx.models[base.notify], ctx.models[base.notify_all] = p_wait, p_notify, p_notify_all
    k = ctx.choose(3)
    if k == 0:
        quiet = ctx.choose(2) == 1
        out = ctx.catch(o.wait, timeout, quiet)
        if out[0] == 'ok':
            ctx.reach('woken')
            ctx.check('waited once', BoolVal(len(log) == 1))
            ctx.check('it was notified, or did not have to report', BoolVal(timeout is None or bool(res) or quiet))
        elif isinstance(out[1], ResourceLocked):
            ctx.reach('locked')
            ctx.check('only with a timeout and without waiting', BoolVal(timeout is not None and not log))
        else:
            ctx.reach('late')
            ctx.check('reports only that it was not notified', BoolVal(isinstance(out[1], WouldWaitMore) and timeout is not None and not res and not quiet
                                                                 and len(log) == 1))
        for _, t in log:
            if timeout is None:
                ctx.check('waits without a limit if none was given', BoolVal(t is None))
            else:
                ctx.check('waits no longer than asked to', BoolVal(t is not None))
                ctx.check('waits no longer than asked to', Or(time_term(t) <= time_term(timeout), time_term(t) <= 0))
    else:
        ctx.reach('told')
        n = ctx.int('n')
        out = ctx.catch(*((o.notify, n) if k == 1 else (o.notify_all,)))
        ctx.check('does not fail', BoolVal(out[0] == 'ok'))
        ctx.check('exactly those asked for', BoolVal(len(log) == 1 and log[0][0] == ('notify', 'all')[k - 1]))
        if k == 1:
            ctx.check('exactly those asked for', num_term(log[0][1]) == num_term(n))
    free(ctx, lock)


# ----------------------------------------------------------------------------------------------- DeferredValue
@contract('DeferredValue', ['DeferredValue.set_value', 'DeferredValue.value', 'DeferredValue.result'], reach=['end', 'set', 'refused', 'value', 'late'])
def deferred(ctx):
    r = conforms(DeferredValue(), 'val', 'lock', 'set_lock', also=())
    blank = r.val
    ctx.const(blank)
    was, other, x = ctx.obj('was'), ctx.obj('other'), ctx.obj('x')
    for y in (was, other, x):
        ctx.assume(ValC.unwrap(y) != ValC.unwrap(blank))
    w = ctx.env.w = type('W', (), {})()
    w.val, w.set, w.writes = (blank, was)[ctx.choose(2)], False, 0
    lock = GLock(ctx, 'set_lock')

    def interfere():
        # another thread may set the value, unless it is set or this thread holds the lock
        if w.val is blank and lock.depth == 0 and ctx.choose(2):
            w.val = other

    def rd(o):
        interfere()
        return w.val

    def wr(o, v):
        ctx.check('the value is set while holding the lock', BoolVal(lock.depth > 0))
        ctx.check('the value is set only once', BoolVal(w.val is blank))
        w.val, w.writes = v, w.writes + 1

    class Ev:
        def set(self):
            ctx.check('waiters are released only when the value is there', BoolVal(w.val is not blank))
            w.set = True

        def wait(self, timeout=None):
            w.timeout = timeout
            if timeout is not None and ctx.choose(2):
                return False
            if w.val is blank:
                w.val = other
            return True

        def is_set(self):
            if w.val is blank:
                return False
            return ctx.choose(2) == 1
    cls = type('DeferredValue', (DeferredValue,), {'val': property(rd, wr), '__slots__': (), '__module__': DeferredValue.__module__})
    o = object.__new__(cls)
    object.__setattr__(o, 'lock', Ev())
    object.__setattr__(o, 'set_lock', lock)
    entry = w.val

    def on_acq():
        lock.depth -= 1
        interfere()
        lock.depth += 1
        w.entry = w.val
    lock.on_acquire = on_acq
    k = ctx.choose(3)
    if k == 0:
        out = ctx.catch(o.set_value, x)
        if out[0] == 'ok':
            ctx.reach('set')
            ctx.check('this value is the one set', BoolVal(w.writes == 1 and w.val is x))
            ctx.check('everyone who waits is released', BoolVal(w.set))
        else:
            ctx.reach('refused')
            ctx.check('refused with ValueError', BoolVal(isinstance(out[1], ValueError)))
            ctx.check('only if there is a value', BoolVal(w.writes == 0 and w.val is not blank))
        free(ctx, lock)
    else:
        timeout = a_timeout(ctx)
        out = ctx.catch(o.value if k == 1 else o.result, timeout)
        if out[0] == 'ok':
            ctx.reach('value')
            ctx.check('the value set', BoolVal(w.val is not blank and out[1] is w.val))
            if entry is not blank:
                ctx.check('the value set', BoolVal(out[1] is entry))
        else:
            ctx.reach('late')
            ctx.check('reports WouldWaitMore only with a timeout', BoolVal(isinstance(out[1], WouldWaitMore) and timeout is not None))
            ctx.check('only if it was not there', BoolVal(entry is blank))
        if 'timeout' in w.__dict__:
            ctx.check('waits as long as asked to', BoolVal(w.timeout is timeout))


# ----------------------------------------------------------------------------------------------- sync_threadpool
@contract('sync_threadpool', ['sync_threadpool', '_while_sync_threadpool', '_max_wait_atm_n'], reach=['end', 'done', 'late'])
def sync(ctx):
    ctx.env.cut_while = True
    limit = None if ctx.choose(2) else ctx.real('max_wait')
    workers = ctx.int('workers')
    ctx.assume(workers.t >= 1)
    jobs, atoms, evs = [], [], []
    w = type('W', (), {})()
    w.over = w.seen_zero = w.waited = False

    class Pool(ThreadPoolExecutor):
        def __init__(self):
            self._max_workers = workers
            self._work_queue = self

        def qsize(self):
            n = ctx.int('qsize')
            ctx.assume(n.t >= 0)
            return n

        def submit(self, f, *a, **k):
            ctx.check('jobs take no arguments', BoolVal(not a and not k))
            jobs.append(f)
            return Fut(ctx.fresh('future', ValC.sort))

    class Fut:
        _pv_codec = lambda self: FutC

        def __init__(self, t):
            self.t = t

        def cancel(self):
            return True

    class FutCodec(Codec):
        name, sort = 'future', ValC.sort
        wrap = lambda self, t: Fut(t)
        unwrap = lambda self, f: f.t
        ok = lambda self, f: isinstance(f, Fut)
    FutC = FutCodec()

    class Atom:
        def __init__(self, n=0):
            self.n, self.dec = n, 0
            atoms.append(self)

        def __isub__(self, x):
            ctx.check('a job counts once', num_term(x) == 1 if num_term(x) is not None else BoolVal(False))
            self.dec += 1
            return self

        def wait_until_equal(self, v, timeout=None):
            ctx.check('waits until every worker has come', num_term(v) == 0)
            ctx.check('waits without a limit only if none was given', BoolVal(limit is None or timeout is not None))
            if timeout is not None and ctx.choose(2):
                raise WouldWaitMore()
            w.seen_zero = True

    class Ev:
        def __init__(self):
            self.flag = False
            evs.append(self)

        def set(self):
            self.flag = True

        is_set = lambda self: self.flag

        def wait(self, timeout=None):
            if not self.flag and timeout is None:
                ctx.fail('a job that starts waiting late is not stuck')
            return self.flag

    class Cond:
        def __init__(self, *a):
            pass

        def wait(self, timeout=None, dont_raise=False):
            if timeout is None:
                ctx.fail('a job that starts waiting late is not stuck')

        notify_all = notify = lambda self, *a: None

    def waits(futs, *a, **k):
        w.waited = True
        ctx.check('all jobs can finish when they are waited for', BoolVal(bool(evs) and all(e.flag for e in evs)))
    ctx.models[AtomicNumber], ctx.models[threading.Event], ctx.models[Condition] = Atom, Ev, Cond
    ctx.models[concurrent.futures.wait] = waits
    p = Pool()
    arg = p
    if ctx.choose(2):
        arg = object.__new__(ExecutorWrapper)
        arg.executor = p
    t0 = ctx.monotonic()
    out = ctx.catch(sync_threadpool, arg, limit)
    if out[0] == 'ok':
        ctx.reach('done')
        ctx.check('returns only once every worker was there', BoolVal(w.seen_zero and w.waited))
    else:
        ctx.reach('late')
        ctx.check('gives up only with WouldWaitMore, only if a time was given', BoolVal(isinstance(out[1], WouldWaitMore) and limit is not None))
        if limit is not None:
            ctx.check('only after the time is over', ctx.monotonic().t - t0.t >= time_term(limit))
    ctx.check('one job for each worker, counted down from their number', BoolVal(len(atoms) == 1 and bool(jobs)))
    ctx.check('one job for each worker, counted down from their number', num_term(atoms[0].n) == workers.t)
    # a worker that is slow to take its job, or to start waiting, is not kept
    f = jobs[-1]
    o2 = ctx.catch(f)
    ctx.check('a job ends without an error', BoolVal(o2[0] == 'ok' and atoms[0].dec == 1))


# ----------------------------------------------------------------------------------------------- call_in_separate_thread
@contract('call_in_separate_thread', ['call_in_separate_thread'], reach=['end', 'result', 'raised', 'exit', 'cancelled'])
def separate(ctx):
    x, res, thread = ctx.obj('x'), ctx.obj('res'), []
    what = ctx.choose(3)
    go = ctx.choose(2)
    log = []
    exc = (None, Boom(), SystemExit())[what]

    def fun(*a, **k):
        log.append(('called', a, k))
        if what:
            raise exc
        return res

    class Fut:
        def set_running_or_notify_cancel(self):
            log.append(('run',))
            return bool(go)

        def set_result(self, r):
            log.append(('result', r))

        def set_exception(self, e):
            log.append(('exception', e))

    def start(self):
        thread.append(self)
    ctx.models[concurrent.futures.Future] = Fut
    ctx.models[threading.Thread.start] = start
    no_attr = ctx.choose(2) == 1
    f = call_in_separate_thread(daemon=True, no_thread_attribute=no_attr)(fun)
    out = ctx.catch(f, x, k=7)
    ctx.check('gives a future', BoolVal(out[0] == 'ok' and isinstance(out[1], Fut)))
    ctx.check('one thread is started, nothing is called yet', BoolVal(len(thread) == 1 and not log))
    t = thread[0]
    ctx.check('the thread has its future', BoolVal(t.future is out[1]))
    ctx.check('the future has its thread if wanted', BoolVal(getattr(out[1], 'thread', None) is (None if no_attr else t)))
    ctx.check('the thread is as asked for', BoolVal(t.daemon is True))
    ctx.catch(t.run)
    if not go:
        ctx.reach('cancelled')
        ctx.check('a cancelled call does not happen', BoolVal(log == [('run',)]))
        return
    ctx.reach(('result', 'raised', 'exit')[what])
    ctx.check('called once with the arguments', BoolVal(len(log) == 3 and log[0] == ('run',) and log[1][0] == 'called' and len(log[1][1]) == 1
                                                         and log[1][1][0] is x and log[1][2] == {'k': 7}))
    ctx.check('the future completes with the outcome', BoolVal(len(log) == 3 and (log[2][0] == 'result' and log[2][1] is res if not what else
                                                               log[2][0] == 'exception' and log[2][1] is exc)))
