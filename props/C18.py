"""C18: pooled connections have one holder at a time, are torn down once, and resources are closed once."""
import queue as queue_module

from pyvc.api import *
from satella.coding.misc import Closeable
from satella.coding.resources import cp_manager as module
from satella.coding.resources.cp_manager import CPManager


def ok(ctx, out):
    ctx.check('does not fail', BoolVal(out[0] == 'ok'))
    return out[1]


class Boom(Exception):
    pass


def same_id():
    c = z3.Const('c!id', Val)
    return z3.ForAll([c], UNID(ID(c)) == c, patterns=[ID(c)])


from pyvc.runtime import ID, UNID


class G:
    pass


class Pool:
    """The idle connections (the queue), all connections made and not torn down, and the one this thread holds.  Other
    threads use the pool at any moment, by the same rules: they take idle connections any time, put them back and make
    bookkeeping only in the monitor, and never touch what this thread holds."""

    def __init__(self, ctx, mine=False):
        self.ctx = ctx
        g = self.g = ctx.roots['g'] = G()
        g.idle, g.live = SSet('idle', ValC), SSet('live', ValC)
        g.mine = g.closed_seen = None
        self.times = SDict('times', IntC, IntC)
        self.max, self.cycle = ctx.int('max_number'), ctx.int('max_cycle_no')
        ctx.assume(And(self.max.t >= 1, self.cycle.t >= 1, same_id()))
        self.books()
        self.was_full = False
        self.log = []
        self.closed = ctx.choose(2) == 1
        self.closed_at_start = self.closed
        self.o = None
        pool = self

        def rd(o):
            if not ctx.dead and core.CTX is ctx:
                if not pool.closed and ctx.choose(2):
                    pool.closed = True
                g.open_seen = not pool.closed
            return pool.closed

        def wr(o, v):
            ctx.check('closing is never taken back', BoolVal(v is True))
            pool.closed = True
        cls = type('CPManager', (CPManager,), {'terminating': property(rd, wr), '__abstractmethods__': frozenset(), '__module__': CPManager.__module__,
                                               'create_connection': lambda s: pool.create(), 'teardown_connection': lambda s, c: pool.teardown(c),
                                               '__del__': lambda s: None})
        g.open_seen = g.full_seen = g.empty_seen = False
        g.torn = False
        self.o, self.lock = monitored(ctx, cls, {'id_to_times': self.times}, {}, self.inv,
                                      consts={'connections': self, 'max_number': self.max, 'max_cycle_no': self.cycle, '_Closeable__finalized': False})
        acq = self.lock.on_acquire

        def on_acquire():
            g.idle.havoc('idle')
            g.live.havoc('live')
            g.open_seen = g.full_seen = False
            acq()
            if g.mine is not None:
                self.entry_kept()
        invariant = self.lock.invariant

        def at_release():
            if g.mine is not None:
                self.spec(self.entry)
            return invariant()
        self.lock.on_acquire, self.lock.invariant = on_acquire, at_release
        self.times.guard = self.guard
        if mine:
            self.T = ctx.int('times of mine').t
            ctx.assume(self.T >= 1)
            self.had = BoolVal(True)
            g.mine = ctx.obj('mine')
            on_acquire()

    def spec(self, f):
        self.ctx.env.spec = True
        try:
            return f()
        finally:
            self.ctx.env.spec = False

    def guard(self, c, write):
        if not self.ctx.dead and self.lock.depth <= 0 and write and not self.ctx.env.__dict__.get('spec'):
            self.ctx.fail('bookkeeping is changed in the monitor only')

    def inv(self, o):
        g, t = self.g, self.times
        c, k = z3.Const('c!inv', Val), z3.Int('k!inv')
        m = None if g.mine is None else ValC.unwrap(g.mine)
        other = (lambda x: x != m) if g.torn else (lambda x: BoolVal(True))
        out = [('idle ones are usable', z3.ForAll([c], Implies(g.idle.has(c), And(g.live.has(c), t.has(ID(c)), t.at(ID(c)) < self.cycle.t)))),
               ('only those that are alive are kept in the books', z3.ForAll([k], Implies(And(t.has(k), other(UNID(k))), And(g.live.has(UNID(k)), ID(UNID(k)) == k))))]
        if m is not None:
            out.append(('held by one', And(Not(g.idle.has(m)), g.live.has(m) == BoolVal(not g.torn))))
        return out

    def entry(self):
        """what the books say of what this thread holds: nobody else changes that"""
        self.had, self.T = self.times.has(ID(ValC.unwrap(self.g.mine))), self.times.at(ID(ValC.unwrap(self.g.mine)))

    def entry_kept(self):
        m = ID(ValC.unwrap(self.g.mine))
        self.ctx.assume(And(self.times.has(m) == self.had, Implies(self.had, self.times.at(m) == self.T)))

    # the queue
    def get(self, block=True, timeout=None):
        ctx, g = self.ctx, self.g
        if not (block is False or timeout is not None and block is True):
            ctx.check('does not wait for an idle connection in the monitor', BoolVal(self.lock.depth == 0))
            raise Unsupported('waiting for a connection')
        if self.lock.depth:
            old = g.idle.s['pres']
            g.idle.havoc('idle')
            c = z3.Const('c!inv', Val)
            ctx.assume(z3.ForAll([c], Implies(g.idle.has(c), Select(old, c))))
        else:
            g.idle.havoc('idle')
            g.live.havoc('live')
            self.times.havoc('times')
            for nm, t in self.spec(lambda: self.inv(self.o)):
                ctx.assume(t)
        if not ctx.fork(g.idle.n > 0):
            g.empty_seen = True
            raise queue_module.Empty()
        ctx.check('takes one connection at a time', BoolVal(g.mine is None))
        c = g.idle.pop()
        g.mine, g.torn = c, False
        self.spec(self.entry)
        self.before, self.T0 = self.had, self.T
        return c

    def get_nowait(self):
        return self.get(False)

    def put(self, c, block=True, timeout=None):
        ctx, g = self.ctx, self.g
        ctx.check('put back in the monitor', BoolVal(self.lock.depth > 0))
        ctx.check('puts back what it holds', BoolVal(g.mine is not None))
        ctx.check('puts back what it holds', ValC.unwrap(c) == ValC.unwrap(g.mine))
        ctx.check('no more idle connections than the maximum', g.idle.n < self.max.t)
        ctx.check('not put back to a closed pool', BoolVal(g.open_seen))
        g.idle.add(c)
        g.mine = None
        self.log.append('put')

    def put_nowait(self, c):
        return self.put(c, False)

    def qsize(self):
        g = self.g
        if not self.lock.depth:
            return self.ctx.int('qsize')
        if self.ctx.fork(g.idle.n >= self.max.t):
            g.full_seen = self.was_full = True
        return IntC.wrap(g.idle.n)

    def empty(self):
        return self.qsize() == 0

    def full(self):
        return False

    # the connections
    def create(self):
        ctx, g = self.ctx, self.g
        ctx.check('a new connection is made only if none was idle', BoolVal(g.empty_seen))
        ctx.check('one connection at a time', BoolVal(g.mine is None))
        if ctx.choose(2):
            raise Boom()
        c = ctx.obj('created')
        ctx.assume(Not(g.live.has(c.t)))
        self.spec(lambda: ctx.assume(Not(self.times.has(ID(c.t)))))
        g.live.add(c)
        g.mine, g.torn = c, False
        self.spec(self.entry)
        self.before, self.T0 = self.had, self.T
        self.log.append('create')
        return c

    def teardown(self, c):
        ctx, g = self.ctx, self.g
        ctx.check('tears down what it holds, once', BoolVal(g.mine is not None and not g.torn))
        ctx.check('tears down what it holds', ValC.unwrap(c) == ValC.unwrap(g.mine))
        g.live.discard(c)
        self.log.append('teardown')
        g.torn = True
        self.gone()
        if ctx.choose(2):
            raise Boom()

    def books(self):
        self.had = self.T = self.before = self.T0 = None

    def gone(self):
        g = self.g
        if g.mine is not None and g.torn and not self.ctx.fork(self.spec(lambda: self.times.has(ID(ValC.unwrap(g.mine))))):
            g.mine, g.torn = None, False
            self.books()

    def forgotten(self):
        self.gone()
        self.ctx.check('what was torn down is forgotten', BoolVal(not self.g.torn))

    __deepcopy__ = lambda self, memo: self


def free(ctx, p):
    ctx.check('the monitor is free on return', BoolVal(p.lock.depth == 0))


@contract('CPManager.acquire_connection', ['CPManager.acquire_connection'], reach=['end', 'idle one', 'new one', 'closed', 'failed'])
def acquire(ctx):
    ctx.env.cut_while = True
    p = Pool(ctx)
    out = ctx.catch(p.o.acquire_connection)
    free(ctx, p)
    if out[0] == 'ok':
        ctx.check('gives what it has taken', BoolVal(p.g.mine is not None))
        ctx.check('gives what it has taken', ValC.unwrap(out[1]) == ValC.unwrap(p.g.mine))
        ctx.check('not from a closed pool', BoolVal(not p.closed_at_start))
        c = ValC.unwrap(out[1])
        ctx.env.spec = True
        ctx.check('counted', And(p.times.has(ID(c)), p.times.at(ID(c)) == If(p.before, p.T0 + 1, 1)))
        ctx.check('not used up', p.times.at(ID(c)) <= p.cycle.t)
        ctx.check('alive, and not idle at the same time', And(p.g.live.has(c), Not(p.g.idle.has(c))))
        ctx.env.spec = False
        ctx.reach('idle one' if 'create' not in p.log else 'new one')
    elif isinstance(out[1], Boom):
        ctx.reach('failed')
        ctx.check('nothing is lost', BoolVal(p.g.mine is None))
    else:
        ctx.reach('closed')
        ctx.check('refused only if the pool is closed', BoolVal(isinstance(out[1], RuntimeError) and p.closed and not p.log and p.g.mine is None))


@contract('CPManager.release_connection', ['CPManager.release_connection', 'CPManager._kill_connection'], reach=['end', 'kept', 'torn down', 'teardown fails'])
def release(ctx):
    p = Pool(ctx, mine=True)
    c, T = p.g.mine, p.T
    out = ctx.catch(p.o.release_connection, c)
    free(ctx, p)
    p.forgotten()
    ctx.check('given back', BoolVal(p.g.mine is None and len(p.log) == 1))
    if p.log == ['put']:
        ctx.reach('kept')
        ctx.check('does not fail', BoolVal(out[0] == 'ok'))
        ctx.check('kept only if it is usable', T < p.cycle.t)
    else:
        ctx.reach('torn down')
        ctx.check('torn down only if used up, not needed, or the pool is closed', Or(T >= p.cycle.t, BoolVal(p.was_full or p.closed)))
        if out[0] != 'ok':
            ctx.reach('teardown fails')
            ctx.check('only an exception of teardown', BoolVal(isinstance(out[1], Boom)))


@contract('CPManager.fail_connection', ['CPManager.fail_connection'])
def fail(ctx):
    p = Pool(ctx, mine=True)
    c = p.g.mine
    ok(ctx, ctx.catch(p.o.fail_connection, c))
    free(ctx, p)
    ctx.check('still held', BoolVal(p.g.mine is c and not p.log))
    ctx.check('not usable any more', And(p.had, p.T >= p.cycle.t))


class Mute:
    def append(self, what):
        cur().check('only tears down', BoolVal(what == 'teardown'))


def in_loop(k):
    def f(L):
        p = cur().env.pool
        if not p.lock.depth:
            raise TypeError
        return p.spec(lambda: p.inv(p.o))[k][1]
    return f


@contract('CPManager.invalidate', ['CPManager.invalidate'], invs=[('usable', in_loop(0)), ('alive', in_loop(1))], reach=['end', 'all', 'failed'])
def invalidate(ctx):
    ctx.env.cut_while = True
    p = Pool(ctx)
    p.log = Mute()
    ctx.env.pool = p
    out = ctx.catch(p.o.invalidate)
    free(ctx, p)
    p.forgotten()
    ctx.check('what was taken is torn down', BoolVal(p.g.mine is None))
    if out[0] == 'ok':
        ctx.reach('all')
        ctx.check('until none is idle', BoolVal(p.g.empty_seen))
    else:
        ctx.reach('failed')
        ctx.check('only an exception of teardown', BoolVal(isinstance(out[1], Boom)))


@contract('CPManager.__init__ / close', ['CPManager.__init__', 'CPManager.close'], reach=['end', 'new', 'closed before'])
def init_close(ctx):
    log = []
    cls = type('CPManager', (CPManager,), {'__abstractmethods__': frozenset(), '__module__': CPManager.__module__, '__del__': lambda s: None,
                                           'create_connection': None, 'teardown_connection': None, 'invalidate': lambda s: log.append(s.terminating)})
    mx, cy = ctx.int('max'), ctx.int('cycle')
    ctx.assume(And(mx.t >= 1, cy.t >= 1))
    o = ok(ctx, ctx.catch(cls, mx, cy))
    conforms(o, 'connections', 'max_number', 'max_cycle_no', 'id_to_times', 'terminating', also=('_monitor_lock', '_Closeable__finalized'))
    ctx.check('as given', And(num_term(o.max_number) == mx.t, num_term(o.max_cycle_no) == cy.t))
    ctx.check('starts open and empty', BoolVal(o.terminating is False and o.id_to_times == {} and not o._monitor_lock.locked()))
    ctx.check('starts open and empty', BoolVal(type(o.connections) is queue_module.Queue and o.connections.qsize() == 0))
    ctx.check('the queue is not smaller than the maximum', Or(num_term(o.connections.maxsize) <= 0, num_term(o.connections.maxsize) >= mx.t))
    if ctx.choose(2):
        ctx.reach('closed before')
        ok(ctx, ctx.catch(o.close))
        ok(ctx, ctx.catch(o.close))
    else:
        ctx.reach('new')
        ok(ctx, ctx.catch(o.close))
    ctx.check('idle ones are torn down, once, and after that none is put back', BoolVal(log == [True]))
    ctx.check('closed', BoolVal(o.terminating is True and o.closed is True))


@contract('Closeable', ['Closeable.__init__', 'Closeable.close', 'Closeable.closed', 'Closeable.__enter__', 'Closeable.__exit__', 'Closeable.__del__'],
          reach=['end', 'with', 'del', 'half made'])
def closeable(ctx):
    n = []

    class Res(Closeable):
        def close(self):
            if super().close():
                n.append(1)
                if fails:
                    raise Boom()
    fails = ctx.choose(2) == 1
    k = ctx.choose(4)
    o = object.__new__(Res)
    if k == 3:
        ctx.reach('half made')
        import warnings
        ctx.models[warnings.warn] = lambda *a, **k: None
        ctx.check('counts as closed', BoolVal(ok(ctx, ctx.catch(lambda: o.closed)) is True))
        ok(ctx, ctx.catch(o.close))
        ctx.check('nothing to clean up', BoolVal(n == []))
        n.append(0)     # not to be cleaned up by the destructor
        return
    Closeable.__init__(o)
    ctx.check('not closed at first', BoolVal(o.closed is False))
    if k == 0:
        ctx.check('the failure is seen', BoolVal(ctx.catch(o.close)[0] == ('exc' if fails else 'ok')))
    elif k == 1:
        ctx.reach('with')
        inner = ctx.choose(2)

        def go():
            with o as p:
                ctx.check('bound', BoolVal(p is o and not o.closed and not n))
                if inner:
                    raise KeyError()
        out = ctx.catch(go)
        ctx.check('exceptions pass', BoolVal(out[0] == ('exc' if fails or inner else 'ok') and (not inner or fails or isinstance(out[1], KeyError))))
    else:
        ctx.reach('del')
        ctx.check('the failure is seen', BoolVal(ctx.catch(o.__del__)[0] == ('exc' if fails else 'ok')))
    ctx.check('cleaned up', BoolVal(n == [1] and o.closed is True))
    for f in (o.close, o.close, o.__del__):
        ok(ctx, ctx.catch(f))
    ctx.check('cleaned up once', BoolVal(n == [1] and o.closed is True))
