"""C14: a callback group calls every live callback once, in order of registration; a rate limited function is not called early."""
import time
from pyvc.api import *
from satella.coding.concurrent.callablegroup import CallableGroup, CallNoOftenThan, CancellableCallback
from satella.coding.deleters import DictDeleter


def ok(ctx, out):
    ctx.check('does not fail', BoolVal(out[0] == 'ok'))
    return out[1]


class Boom(Exception):
    pass


class GCallback(CancellableCallback):
    """an arbitrary registered callback: identified by a term; cancelled, result and failing are arbitrary functions of it"""
    __slots__ = ('t', 'w', 'f')

    def __init__(self, w, t):
        self.w, self.t, self.f = w, t, w.call(t)

    @property
    def cancelled(self):
        return mk_bool(Select(self.w.cancelled, self.t))

    @cancelled.setter
    def cancelled(self, v):
        self.w.cancelled = z3.Store(self.w.cancelled, self.t, bool_term(v))

    @property
    def callback_fun(self):
        return self.f


class World(Codec):
    """codec of callbacks"""
    name = 'callback'

    def __init__(self, ctx):
        B = z3.ArraySort(ValC.sort, z3.BoolSort())
        self.ctx = ctx
        self.cancelled = ctx.fresh('cancelled', B)
        self.fails = ctx.fresh('fails', B)
        self.result = z3.Function(ctx.fresh_name('result'), ValC.sort, ValC.sort)
        self.calls = SDict('calls', ValC, IntC)      # how often called
        self.log = SList('log', ValC, empty=True)
        ctx.assume(self.log.n == 0)
        ctx.assume(forall(ValC, lambda x: Not(self.calls.has(x))))
        self.exc = Boom()
        self.args = self.passed = (ctx.obj('arg'), ctx.obj('kwarg'))
        self.new = {}
        ctx.roots['calls'], ctx.roots['log'] = self.calls, self.log

    sort = property(lambda self: ValC.sort)

    def call(self, t):
        def fun(*a, **kw):
            self.ctx.check('called with the arguments of the group', BoolVal(len(a) == 1 and a[0] is self.args[0] and list(kw) == ['k'] and kw['k'] is self.args[1]))
            self.ctx.check('only live callbacks are called', Not(Select(self.cancelled, t)))
            self.log.append(ValC.wrap(t))
            if self.ctx.fork(Select(self.fails, t)):
                raise self.exc
            return ValC.wrap(self.result(t))
        return fun

    def wrap(self, t):
        return GCallback(self, t)

    def unwrap(self, v):
        if isinstance(v, GCallback):
            return v.t
        if isinstance(v, CancellableCallback):
            if id(v) not in self.new:
                t = self.ctx.fresh('new', ValC.sort)
                self.new[id(v)] = (v, t)
                self.ctx.assume(Not(self.ctx.env.had(t)))     # a newly made object is none of those registered before
            return self.new[id(v)][1]
        raise Unsupported('not a callback')

    def ok(self, v):
        return isinstance(v, CancellableCallback)

    def __deepcopy__(self, memo):
        return self


def make(ctx, **kw):
    conforms(CallableGroup(), 'callables', 'gather', 'swallow_exceptions')
    w = ctx.env.w = World(ctx)
    d = SDict('callables', w, BoolC)
    pres = d.s['pres']
    ctx.env.had = lambda t: Select(pres, t)
    g = ctx.new(CallableGroup, 'group', callables=d, gather=ctx.bool('gather'), swallow_exceptions=ctx.bool('swallow'))
    return w, d, g


@contract('CallableGroup.add', ['CallableGroup.add', 'CancellableCallback.__init__', 'CancellableCallback.__hash__', 'CancellableCallback.__eq__'],
          reach=['end', 'function', 'callback', 'again'])
def add(ctx):
    w, d, g = make(ctx)
    p, v = d.s['pres'], d.s['val']
    one = ctx.bool('one shot')
    if ctx.choose(2):
        ctx.reach('function')
        f = lambda: 1
        c = ok(ctx, ctx.catch(g.add, f, one))
        ctx.check('a live callback of the function', BoolVal(type(c) is CancellableCallback and c.callback_fun is f and c.cancelled is False))
        ctx.check('true while live', BoolVal(bool(c)))
        ctx.check('calls the function', BoolVal(c() == 1))
        c.cancel()
        ctx.check('false when cancelled', BoolVal(not bool(c)))
        ctx.check('and calls it no more', BoolVal(c() is None))
        t = w.unwrap(c)
    else:
        t = ctx.fresh('cb', ValC.sort)
        c = w.wrap(t)
        r = ok(ctx, ctx.catch(g.add, c, one))
        ctx.reach('callback')
        ctx.check('the callback given', BoolVal(r is c))
    if ctx.fork(Select(p, t)):
        ctx.reach('again')
        ctx.check('adding again changes nothing', forall(ValC, lambda x: And(d.has(x) == Select(p, x), Implies(d.has(x), d.at(x) == Select(v, x)))))
        return
    ctx.check('it alone is registered', forall(ValC, lambda x: And(
        d.has(x) == Or(x == t, Select(p, x)), Implies(d.has(x), d.at(x) == If(x == t, bool_term(one), Select(v, x))))))


@contract('CallableGroup.has_cancelled_callbacks', ['CallableGroup.has_cancelled_callbacks', 'CancellableCallback.__bool__'],
          invs=[('none cancelled so far', lambda L: forall(ValC, lambda x: Implies(
              And(cur().env.d.has(x), L.view.idx(x) < L.i), Not(Select(cur().env.w.cancelled, x)))))], reach=['end'])
def has(ctx):
    w, d, g = make(ctx)
    ctx.env.d = d
    r = ok(ctx, ctx.catch(lambda: g.has_cancelled_callbacks))
    x = z3.Const('x!h', ValC.sort)
    ctx.check('exactly if some registered callback is cancelled', bool_term(r) == z3.Exists([x], And(d.has(x), Select(w.cancelled, x))))


class GDeleter:
    """the contract of DictDeleter proved in C11: all keys are visited; exactly those marked are removed on leaving"""

    def __init__(self, d):
        self.d, self.gone = d, SSet('gone', d.kc, empty=True)
        cur().roots['gone'] = self.gone
        cur().env.gone = self.gone

    def __enter__(self):
        return self

    def _pv_view(self):
        v = self.d.view()
        at = v.at

        def at2(i):
            cur().env.current = at(i)
            return cur().env.current
        v.at = at2
        return v

    def delete(self):
        self.gone.add(cur().env.current)

    def __exit__(self, *a):
        p, v, g = self.d.s['pres'], self.d.s['val'], self.gone.s['pres']
        self.d.havoc('deleted')
        cur().assume(forall(ValC, lambda x: And(self.d.has(x) == And(Select(p, x), Not(Select(g, x))), Implies(self.d.has(x), self.d.at(x) == Select(v, x)))))
        return False


@contract('CallableGroup.remove_cancelled', ['CallableGroup.remove_cancelled'],
          invs=[('marked so far', lambda L: forall(ValC, lambda x: cur().env.gone.has(x) == And(
              cur().env.d.has(x), L.view.idx(x) < L.i, Select(cur().env.w.cancelled, x))))])
def remove_cancelled(ctx):
    w, d, g = make(ctx)
    ctx.env.d = d
    ctx.models[DictDeleter] = GDeleter
    p, v = d.s['pres'], d.s['val']
    ok(ctx, ctx.catch(g.remove_cancelled))
    ctx.check('exactly the cancelled ones are removed', forall(ValC, lambda x: And(
        d.has(x) == And(Select(p, x), Not(Select(w.cancelled, x))), Implies(d.has(x), d.at(x) == Select(v, x)))))


def removed(g):
    """the contract of remove_cancelled, proved above"""
    w, d = cur().env.w, cur().env.d
    p, v = d.s['pres'], d.s['val']
    d.havoc('live')
    cur().assume(forall(ValC, lambda x: And(d.has(x) == And(Select(p, x), Not(Select(w.cancelled, x))), Implies(d.has(x), d.at(x) == Select(v, x)))))


def first(L, yes=True):
    """is this the loop that makes the calls, rather than the one that deals with those not reached (or neither of both)"""
    c = cur().env.c
    empty = is_zero(L.pre('log')['n'])
    if empty != yes:
        raise KeyError


def is_zero(t):
    return z3.is_int_value(z3.simplify(t)) and z3.simplify(t).as_long() == 0


def called(L):
    first(L)
    w = cur().env.w
    j = z3.Int('j!c')
    return And(w.log.n == L.i, z3.ForAll([j], Implies(And(0 <= j, j < L.i), w.log.el(j) == Select(cur().env.arr, j))))


def kept(L):
    first(L)
    w, d = cur().env.w, cur().env.d
    return forall(ValC, lambda x: d.has(x) == And(cur().env.c.has(x), cur().env.idx(x) < L.i, Not(cur().env.c.at(x))))


def not_one(L):
    w, d = cur().env.w, cur().env.d
    return forall(ValC, lambda x: Implies(d.has(x), d.at(x) == cur().env.c.at(x)))


def kept_rest(L):
    first(L, False)
    d, c, k = cur().env.d, cur().env.c, cur().env.w.log.n
    return forall(ValC, lambda x: d.has(x) == And(c.has(x), Or(And(cur().env.idx(x) < k, Not(c.at(x))), And(k <= cur().env.idx(x), cur().env.idx(x) < k + L.i))))


def gathered(L, r):
    if not isinstance(r, (list, SList)):
        return None
    first(L)
    w, g = cur().env.w, cur().env.g
    n, el = (IntVal(len(r)), None) if isinstance(r, list) else (r.n, r.el)
    j = z3.Int('j!c')
    c = [n == If(bool_term(g.gather), L.i, 0)]
    if el is not None:
        c.append(z3.ForAll([j], Implies(And(0 <= j, j < n), el(j) == outcome(w.log.el(j)))))
    return And(*c)


def outcome(t):
    w = cur().env.w
    return If(Select(w.fails, t), ValC.unwrap(w.exc), w.result(t))


def swallowed(L):
    first(L)
    w, g = cur().env.w, cur().env.g
    j = z3.Int('j!c')
    return Implies(Not(bool_term(g.swallow_exceptions)), z3.ForAll([j], Implies(And(0 <= j, j < L.i), Not(Select(w.fails, w.log.el(j))))))


def copied(d):
    c = d.copy()
    cur().env.c = c
    cur().env.arr, _, cur().env.idx = c.enum()
    return c


import copy
CALL_INVS = [('none cancelled so far', lambda L: forall(ValC, lambda x: Implies(
    And(cur().env.d.has(x), L.view.idx(x) < L.i), Not(Select(cur().env.w.cancelled, x))))),
    ('called so far, in order', called), ('kept so far', kept), ('kept as they were', not_one), ('the rest kept so far', kept_rest),
    ('failures so far', swallowed)] + each_local('results so far', gathered)


@contract('CallableGroup.__call__', ['CallableGroup.__call__', 'CancellableCallback.__call__'], invs=CALL_INVS, reach=['end', 'raises', 'gathered', 'not gathered'],
          timeout=20000)
def call(ctx):
    w, d, g = make(ctx)
    ctx.env.d, ctx.env.g = d, g
    ctx.models[CallableGroup.remove_cancelled] = removed
    ctx.models[copy.copy] = copied
    p, v = d.s['pres'], d.s['val']
    live = lambda x: And(Select(p, x), Not(Select(w.cancelled, x)))
    out = ctx.catch(g, w.args[0], k=w.args[1])
    log, d = w.log, g.callables
    j, k = z3.Ints('j!p k!p')
    idx = ctx.env.__dict__.get('idx')

    def was_called(x):
        return And(0 <= idx(x), idx(x) < log.n, log.el(idx(x)) == x) if idx is not None else z3.Exists([j], And(0 <= j, j < log.n, log.el(j) == x))
    ctx.check('only live callbacks are called', z3.ForAll([j], Implies(And(0 <= j, j < log.n), live(log.el(j)))))
    ctx.check('none is called twice', z3.ForAll([j, k], Implies(And(0 <= j, j < k, k < log.n), log.el(j) != log.el(k))))
    if out[0] == 'exc':
        ctx.reach('raises')
        last = log.el(log.n - 1)
        ctx.check('the failure of the last one called', And(BoolVal(out[1] is w.exc), log.n >= 1, Select(w.fails, last)))
        ctx.check('which is not to be swallowed', Not(bool_term(g.swallow_exceptions)))
        ctx.check('all callbacks stay but the one-shot ones that were called', forall(ValC, lambda x: d.has(x) == And(
            live(x), Not(And(Select(v, x), was_called(x))))))
        return
    x = z3.Const('x!p', ValC.sort)
    ctx.check('every live callback is called', z3.ForAll([x], Implies(live(x), was_called(x))))
    ctx.check('failures are swallowed only if so asked', Implies(Not(bool_term(g.swallow_exceptions)), forall(ValC, lambda x: Implies(live(x), Not(Select(w.fails, x))))))
    ctx.check('those that are not one-shot stay registered', forall(ValC, lambda x: And(
        d.has(x) == And(live(x), Not(Select(v, x))), Implies(d.has(x), Not(d.at(x))))))
    r = out[1]
    if r is None:
        ctx.reach('not gathered')
        ctx.check('no results unless gathering', Not(bool_term(g.gather)))
        return
    ctx.reach('gathered')
    n, el = (IntVal(len(r)), lambda j: None) if isinstance(r, list) else (r.n, r.el)
    ctx.check('gathers', bool_term(g.gather))
    ctx.check('one result per call', n == log.n)
    if not isinstance(r, list):
        ctx.check('in the order of the calls', z3.ForAll([j], Implies(And(0 <= j, j < n), el(j) == outcome(log.el(j)))))


@contract('CallNoOftenThan', ['CallNoOftenThan.__call__', 'CallNoOftenThan.__init__'], reach=['end', 'called', 'not called', 'raises', 'first'])
def limiter(ctx):
    iv = ctx.real('interval').t
    ctx.assume(iv >= 0)
    log = []
    r, exc, a, b = ctx.obj('result'), Boom(), ctx.obj('arg'), ctx.obj('kwarg')
    fails = ctx.choose(2)

    def f(*x, **kw):
        log.append((ctx.monotonic(), x, kw))
        ctx.check('the arguments are passed on', BoolVal(len(x) == 1 and x[0] is a and list(kw) == ['k'] and kw['k'] is b))
        if fails:
            raise exc
        return r
    c = CallNoOftenThan(RealC.wrap(iv), f)
    conforms(c, 'interval', 'callable', 'last_called')
    first = ctx.choose(2)
    if not first:
        last = ctx.real('last call').t
        now = ctx.monotonic()
        ctx.assume(num_term(now) >= last)
        c.last_called = RealC.wrap(last)
    else:
        now = ctx.monotonic()
    out = ctx.catch(c, a, k=b)
    if first:
        ctx.reach('first')
        ctx.check('the first call takes place', BoolVal(len(log) == 1))
    ctx.check('at most one call', BoolVal(len(log) <= 1))
    after = num_term(ctx.monotonic())
    if log:
        ctx.reach('called')
        t = num_term(log[0][0])
        if not first:
            ctx.check('not before the interval has passed', t - last >= iv)
        ctx.check('the call is remembered', And(num_term(c.last_called) >= t, num_term(c.last_called) <= after))
        if fails:
            ctx.reach('raises')
            ctx.check('its failure passes', BoolVal(out[0] == 'exc' and out[1] is exc))
        else:
            ctx.check('its result', BoolVal(out[0] == 'ok' and out[1] is r))
    else:
        ctx.reach('not called')
        ctx.check('nothing is done', And(BoolVal(out[0] == 'ok' and out[1] is None), num_term(c.last_called) == last))
        ctx.check('only before the interval has passed', num_term(now) - last < iv)
