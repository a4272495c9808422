"""C03: monitors and locked datasets: exclusive access, and the lock is given back on every exit."""
from pyvc.api import *
from satella.coding.concurrent import monitor as M
from satella.coding.concurrent.monitor import Monitor, RMonitor, MonitorSet
from satella.coding.concurrent.locked_dataset import LockedDataset
from satella.coding.concurrent import locked_dataset as LD
from satella.exceptions import ResourceNotLocked, WouldWaitMore


class Boom(Exception):
    pass


class Plain(Monitor):
    pass


def mon(ctx, cls=Plain, name='self'):
    conforms(cls(), '_monitor_lock', also=())
    o = object.__new__(cls)
    lock = GLock(ctx, name + '.lock', reentrant=is_rlock(cls()._monitor_lock))
    object.__setattr__(o, '_monitor_lock', lock)
    ctx.roots[name] = o
    return o, lock


def body_of(ctx, lock, arg, res, calls, want_args=None):
    fails = ctx.choose(2)

    def body(*a, **k):
        ctx.check('the body runs while the lock is held', BoolVal(lock.depth == 1))
        calls.append((a, k))
        if fails:
            raise Boom()
        return res
    return body


def verdict(ctx, out, calls, args, kw, res, lock, depth=0):
    ctx.check('the lock is given back on return and on exception', BoolVal(lock.depth == depth))
    ctx.check('the body runs exactly once', BoolVal(len(calls) == 1))
    ctx.check('the arguments reach the body unchanged', BoolVal(
        len(calls[0][0]) == len(args) and all(x is y for x, y in zip(calls[0][0], args)) and calls[0][1] == kw))
    if out[0] == 'ok':
        ctx.reach('returned')
        ctx.check('the result of the body is returned', BoolVal(out[1] is res))
    else:
        ctx.reach('raised')
        ctx.check('the exception of the body is propagated', BoolVal(type(out[1]) is Boom))


R = ['end', 'returned', 'raised']


@contract('Monitor.synchronized', ['Monitor.synchronized'], reach=R)
def h_sync(ctx):
    o, lock = mon(ctx)
    x, res = ctx.obj('x'), ctx.obj('result')
    calls = []
    f = Monitor.synchronized(body_of(ctx, lock, x, res, calls))
    out = ctx.catch(f, o, x, k=7)
    verdict(ctx, out, calls, (o, x), {'k': 7}, res, lock)


@contract('Monitor.synchronize_on', ['Monitor.synchronize_on', 'Monitor.acquire.__enter__', 'Monitor.acquire.__exit__'],
          reach=R)
def h_on(ctx):
    o, lock = mon(ctx)
    x, res = ctx.obj('x'), ctx.obj('result')
    calls = []
    f = Monitor.synchronize_on(o)(body_of(ctx, lock, x, res, calls))
    out = ctx.catch(f, x, k=7)
    verdict(ctx, out, calls, (x,), {'k': 7}, res, lock)


@contract('Monitor.synchronize_on_attribute', ['Monitor.synchronize_on_attribute'], reach=R)
def h_attr(ctx):
    o, lock = mon(ctx)

    class Owner:
        pass
    w = Owner()
    w.mon = o
    x, res = ctx.obj('x'), ctx.obj('result')
    calls = []
    f = Monitor.synchronize_on_attribute('mon')(body_of(ctx, lock, x, res, calls))
    out = ctx.catch(f, w, x, k=7)
    verdict(ctx, out, calls, (w, x), {'k': 7}, res, lock)


@contract('Monitor.acquire', ['Monitor.acquire.__init__', 'Monitor.acquire.__enter__', 'Monitor.acquire.__exit__'],
          reach=R)
def h_acq(ctx):
    o, lock = mon(ctx)
    res = ctx.obj('result')
    calls = []
    b = body_of(ctx, lock, None, res, calls)

    def go():
        with Monitor.acquire(o):
            return b()
    verdict(ctx, ctx.catch(go), calls, (), {}, res, lock)


@contract('Monitor as context manager', ['Monitor.__enter__', 'Monitor.__exit__'], reach=R)
def h_with(ctx):
    o, lock = mon(ctx)
    res = ctx.obj('result')
    calls = []
    b = body_of(ctx, lock, None, res, calls)

    def go():
        with o as p:
            ctx.check('the monitor itself is bound', BoolVal(p is o))
            return b()
    verdict(ctx, ctx.catch(go), calls, (), {}, res, lock)


@contract('Monitor.release', ['Monitor.release.__init__', 'Monitor.release.__enter__', 'Monitor.release.__exit__'],
          reach=R)
def h_rel(ctx):
    o, lock = mon(ctx)
    res = ctx.obj('result')
    fails = ctx.choose(2)
    calls = []

    def inner():
        ctx.check('the lock is free inside', BoolVal(lock.depth == 0))
        calls.append(((), {}))
        if fails:
            raise Boom()
        return res

    def go():
        with Monitor.release(o):
            return inner()
    lock.acquire()
    out = ctx.catch(go)
    ctx.check('the lock is held again afterwards', BoolVal(lock.depth == 1))
    verdict(ctx, out, calls, (), {}, res, lock, 1)


@contract('Monitor.__init__', ['Monitor.__init__', 'RMonitor.__init__'])
def h_init(ctx):
    import threading
    m, r = Monitor(), RMonitor()
    ctx.check('a monitor owns a fresh mutual exclusion lock', BoolVal(
        type(m._monitor_lock) is type(threading.Lock()) and not m._monitor_lock.locked()))
    ctx.check('a re-entrant monitor owns a re-entrant lock', BoolVal(
        type(r._monitor_lock) is type(threading.RLock())))
    ctx.check('locks are not shared between monitors', BoolVal(Monitor()._monitor_lock is not m._monitor_lock and
                                                             RMonitor()._monitor_lock is not r._monitor_lock))


class SymSet(SSet):
    """a MonitorSet with arbitrary contents (set itself is the assumed contract of the standard library)"""
    pytype = MonitorSet


@contract('MonitorSet.insert_and_check', ['MonitorSet.insert_and_check'], reach=['end', 'new', 'old'])
def h_ins(ctx):
    conforms(MonitorSet(), also=('_monitor_lock',))
    s = SymSet('self', ValC)
    lock = GLock(ctx, 'lock')
    object.__setattr__(s, '_monitor_lock', lock)

    def guard(c, w):
        if not ctx.dead and lock.depth <= 0:
            ctx.fail('the set is touched only while the lock is held')
    lock.on_acquire = lambda: s.havoc('acq')
    lock.snapfn = s.snap
    s.guard = guard
    x = ctx.obj('x')
    out = ctx.catch(MonitorSet.insert_and_check, s, x)
    ctx.check('the lock is free on return', BoolVal(lock.depth == 0 and len(lock.sections) == 1))
    pre, post = lock.sections[0]
    ctx.check('never fails', BoolVal(out[0] == 'ok'))
    was = Select(pre['pres'], x.t)
    ctx.reach('new' if ctx.fork(Not(was)) else 'old')
    ctx.check('reports whether the item was inserted', bool_term(out[1]) == Not(was))
    ctx.check('the item is present afterwards', Select(post['pres'], x.t))
    ctx.check('nothing else changes', forall(ValC, lambda y: Implies(y != x.t, Select(pre['pres'], y) ==
                                                                     Select(post['pres'], y))))


# ---------------------------------------------------------------------------------------------- LockedDataset
class DS(LockedDataset):
    pass


def dataset(ctx):
    ds = DS()
    internal = LD._get_internal(ds)
    conforms(internal, 'lock', 'locked', also=())
    lock = GLock(ctx, 'dataset lock')
    internal.lock = lock
    lock.invariant = lambda: [('nobody believes to hold a free lock', BoolVal(internal.locked is False))]

    def acq():
        internal.locked = False
    lock.on_acquire = acq
    return ds, internal, lock


@contract('LockedDataset as context manager', ['LockedDataset.__enter__', 'LockedDataset.__exit__',
                                               'LockedDataset.__getattribute__', 'LockedDataset.__setattr__'],
          reach=['end', 'returned', 'raised', 'busy'])
def h_ds(ctx):
    ds, internal, lock = dataset(ctx)
    res = ctx.obj('v')
    mode = ctx.choose(3)
    fails = ctx.choose(2)
    seen = []
    if ctx.choose(2):
        ds(blocking=False)          # somebody else is about to ask in another way

    def go():
        cm = ds if mode == 0 else (ds(blocking=False) if mode == 1 else ds(blocking=True, timeout=ctx.real('timeout')))
        with cm as d:
            ctx.check('the dataset itself is bound', BoolVal(d is ds))
            ctx.check('the body runs while the lock is held', BoolVal(lock.depth == 1))
            d.field = res
            seen.append(d.field)
            if fails:
                raise Boom()
            return res
    out = ctx.catch(go)
    ctx.check('the lock is given back', BoolVal(lock.depth == 0))
    if out[0] == 'ok':
        ctx.reach('returned')
        ctx.check('what was written is read back', BoolVal(seen[0] is res))
    elif isinstance(out[1], Boom):
        ctx.reach('raised')
        ctx.check('exceptions of the body propagate', BoolVal(bool(fails)))
    else:
        ctx.reach('busy')
        ctx.check('a lock that cannot be taken in time is reported', BoolVal(
            isinstance(out[1], WouldWaitMore) and mode > 0 and not seen))
    ctx.check('an unlocked dataset reads as unlocked', BoolVal(internal.locked is False))
    o2 = ctx.catch(lambda: ds.field)
    ctx.check('reads without the lock are refused', BoolVal(o2[0] == 'exc' and isinstance(
        o2[1], (ResourceNotLocked, AttributeError)) and (not seen or isinstance(o2[1], ResourceNotLocked))))

    def wr():
        ds.field = 5
    o3 = ctx.catch(wr)
    ctx.check('writes without the lock are refused', BoolVal(o3[0] == 'exc' and isinstance(o3[1], ResourceNotLocked)))


@contract('LockedDataset.locked', ['LockedDataset.locked', 'LockedDataset.__call__'], reach=R)
def h_dsl(ctx):
    ds, internal, lock = dataset(ctx)
    x, res = ctx.obj('x'), ctx.obj('result')
    calls = []
    f = LockedDataset.locked()(body_of(ctx, lock, x, res, calls))
    out = ctx.catch(f, ds, x, k=7)
    verdict(ctx, out, calls, (ds, x), {'k': 7}, res, lock)
