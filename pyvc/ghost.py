"""Ghost locks and guarded state: the monitor rule (acquire = havoc + assume invariant, release = assert invariant)."""
import z3

from .core import *
from .containers import Container
from . import core


class GLock:
    """Stand-in for a threading lock in the pre-state.  Taking it yields an arbitrary state allowed by the
    invariant, so that what is proved holds for every schedule of other threads that respect the same lock."""

    def __init__(self, ctx, name, reentrant=False):
        self.ctx, self.name, self.reentrant = ctx, name, reentrant
        self.depth = 0
        self.on_acquire = None
        self.invariant = None
        self.snapfn = None
        self.sections = []
        self.acquired = 0
        self.contended = False       # when True a non-blocking/timeout acquire may fail

    def acquire(self, blocking=True, timeout=-1):
        ctx = self.ctx
        if ctx.dead:
            return True
        if isinstance(blocking, Sym):
            blocking = bool(blocking)
        if self.depth and not self.reentrant:
            if not blocking:
                return False
            ctx.fail('%s: no self-deadlock' % self.name)
            raise PathEnd()
        if not self.depth:
            nonblock = not blocking
            if not nonblock and timeout is not None:
                t = num_term(timeout)
                if t is None:
                    raise Unsupported('lock timeout')
                nonblock = ctx.fork(t >= 0)
            if nonblock and ctx.choose(2) == 1:
                return False
        self.depth += 1
        self.acquired += 1
        if self.depth == 1 and self.on_acquire is not None:
            self.on_acquire()
        if self.depth == 1:
            self.sections.append([self.snapfn() if self.snapfn else None, None])
        return True

    def release(self):
        ctx = self.ctx
        if ctx.dead:
            return
        ctx.check('%s: released only while held' % self.name, z3.BoolVal(self.depth > 0))
        if self.depth == 1:
            if self.invariant is not None:
                for nm, t in self.invariant():
                    ctx.check('invariant at release: %s' % nm, t)
            self.sections[-1][1] = self.snapfn() if self.snapfn else None
        self.depth -= 1

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()
        return False

    def locked(self):
        return self.depth > 0

    def __deepcopy__(self, memo):
        return self

    __copy__ = lambda self: self


def guarded_class(cls, fields, lock, ctx):
    """a subclass whose listed attributes may be touched only while the lock is held"""
    fields = frozenset(fields)

    def __getattribute__(self, item):
        if item in fields and not ctx.dead and core.CTX is ctx and not ctx.env.__dict__.get('spec'):
            if lock.depth <= 0:
                ctx.fail('lock discipline: %s read while the lock is held' % item)
        return object.__getattribute__(self, item)

    def __setattr__(self, item, v):
        if item in fields and not ctx.dead and core.CTX is ctx and not ctx.env.__dict__.get('spec'):
            if lock.depth <= 0:
                ctx.fail('lock discipline: %s written while the lock is held' % item)
        object.__setattr__(self, item, v)

    ns = {'__getattribute__': __getattribute__, '__setattr__': __setattr__, '__module__': cls.__module__,
          '__slots__': ()}
    try:
        return type(cls)(cls.__name__, (cls,), ns)
    except TypeError:
        ns.pop('__slots__')
        return type(cls)(cls.__name__, (cls,), ns)


def get(o, f):
    return object.__getattribute__(o, f)


def monitored(ctx, cls, fields, codecs, inv, lockname='_monitor_lock', name='self', reentrant=False, consts=None):
    """An object of a lock-protected class, in an arbitrary state satisfying inv(obj) whenever the lock is free.
    fields: {attr: initial symbolic value}; scalars are listed in codecs {attr: Codec}."""
    lock = GLock(ctx, name + '.lock', reentrant)
    sub = guarded_class(cls, fields, lock, ctx)
    o = object.__new__(sub)
    for k, v in fields.items():
        object.__setattr__(o, k, v)
    for k, v in (consts or {}).items():
        object.__setattr__(o, k, v)
    object.__setattr__(o, lockname, lock)
    ctx.roots[name] = o

    def guard(container, write):
        if not ctx.dead and lock.depth <= 0 and not ctx.env.__dict__.get('spec'):
            ctx.fail('lock discipline: %s used while the lock is held' % container.name)

    for v in fields.values():
        if isinstance(v, Container):
            v.guard = guard

    def on_acquire():
        for k in fields:
            v = get(o, k)
            if isinstance(v, Container):
                v.havoc('acq.' + k)
            elif k in codecs:
                object.__setattr__(o, k, codecs[k].wrap(ctx.fresh('acq.' + k, codecs[k].sort)))
        ctx.env.spec = True
        for nm, t in inv(o):
            ctx.assume(t)
        ctx.env.spec = False

    def invariant():
        ctx.env.spec = True
        try:
            return list(inv(o))
        finally:
            ctx.env.spec = False

    def snap():
        d = {}
        for k in fields:
            v = get(o, k)
            d[k] = v.snap() if isinstance(v, Container) else v
        return d

    lock.on_acquire, lock.invariant, lock.snapfn = on_acquire, invariant, snap
    return o, lock


class GCond:
    """stand-in for a satella Condition: notifications are recorded; wait() may return or time out"""

    def __init__(self, ctx, name='condition', held=None, on_wait=None):
        self.ctx, self.name, self.notified, self.held, self.on_wait = ctx, name, 0, held, on_wait

    def notify_all(self):
        self.notified += 1

    def notify(self, n=1):
        self.notified += 1

    def wait(self, timeout=None, dont_raise=False):
        from satella.exceptions import WouldWaitMore
        if self.on_wait is not None:
            self.on_wait()
        if timeout is not None and not dont_raise and self.ctx.choose(2) == 1:
            raise WouldWaitMore('wait was not notified')

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __deepcopy__(self, memo):
        return self


def is_rlock(lock):
    import threading
    return type(lock).__name__ == 'RLock' or hasattr(lock, '_is_owned')
