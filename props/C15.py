"""C15: futures give exactly the outcome they were set to; collections and wrappers apply to every future."""
import concurrent.futures
from concurrent.futures import Future as PythonFuture
from pyvc.api import *
from satella.coding.concurrent.futures import Future, WrappingFuture, FutureCollection, wrap_if
from satella.coding.concurrent.futures.futures import InvalidStateError
from satella.exceptions import WouldWaitMore


def ok(ctx, out):
    ctx.check('does not fail', BoolVal(out[0] == 'ok'))
    return out[1]


class Boom(Exception):
    pass


# ------------------------------------------------------------------------------------------- collections
class GFuture:
    """one of the futures of a collection, identified by its term; what it does is an arbitrary function of it"""
    __slots__ = ('t', 'w')

    def __init__(self, w, t):
        self.w, self.t = w, t

    def _do(self, what, *a):
        w = self.w
        w.log.append(ValC.wrap(self.t))
        w.what.add(what)
        w.args.append(a)
        return w.ctx

    def cancel(self):
        self._do('cancel')
        return mk_bool(Select(self.w.yes, self.t))

    def set_running_or_notify_cancel(self):
        self._do('run')
        return mk_bool(Select(self.w.yes, self.t))

    def set_result(self, r):
        self._do('set_result', r)

    def set_exception(self, e):
        self._do('set_exception', e)

    def add_done_callback(self, f):
        self._do('callback', f)

    def result(self, timeout=None):
        self.w.timeout_ok(timeout)
        c = self.w.ctx
        if c.fork(Select(self.w.late, self.t)):
            raise concurrent.futures.TimeoutError()
        if c.fork(Select(self.w.fails, self.t)):
            raise self.w.exc
        return ValC.wrap(self.w.res(self.t))

    def exception(self, timeout=None):
        self.w.timeout_ok(timeout)
        self._do('exception')
        c = self.w.ctx
        if c.fork(Select(self.w.late, self.t)):
            raise concurrent.futures.TimeoutError()
        if c.fork(Select(self.w.fails, self.t)):
            return self.w.exc
        return None


class World(Codec):
    name = 'future'

    def __init__(self, ctx):
        B = z3.ArraySort(ValC.sort, z3.BoolSort())
        self.ctx = ctx
        self.yes, self.late, self.fails = ctx.fresh('yes', B), ctx.fresh('late', B), ctx.fresh('fails', B)
        self.res = z3.Function(ctx.fresh_name('res'), ValC.sort, ValC.sort)
        self.log = SList('log', ValC, empty=True)
        self.what, self.args, self.exc = set(), [], Boom()
        self.timeout = None
        ctx.const(self.exc)
        ctx.roots['log'] = self.log

    sort = property(lambda self: ValC.sort)
    wrap = lambda self, t: GFuture(self, t)
    __deepcopy__ = lambda self, memo: self

    def unwrap(self, v):
        if not isinstance(v, GFuture):
            raise Unsupported('not a future')
        return v.t

    def ok(self, v):
        return isinstance(v, GFuture)

    def timeout_ok(self, t):
        self.ctx.check('the timeout is passed on', BoolVal(t is self.timeout))


def make(ctx):
    conforms(FutureCollection(), 'futures')
    w = ctx.env.w = World(ctx)
    lst = SList('futures', w)
    ctx.env.fs, ctx.env.n = lst, lst.n
    return w, lst, ctx.new(FutureCollection, 'self', futures=lst)


def visited(L):
    w, lst = cur().env.w, cur().env.fs
    j = z3.Int('j!v')
    return And(w.log.n == L.i, z3.ForAll([j], Implies(And(0 <= j, j < L.i), w.log.el(j) == lst.el(j))))


def flag(quant, neg):
    def f(L, v):
        if not isinstance(v, (SBool, bool)):
            return None
        w, lst = cur().env.w, cur().env.fs
        j = z3.Int('j!v')
        b = Not(bool_term(v)) if neg else bool_term(v)
        if quant == 'all':
            return b == z3.ForAll([j], Implies(And(0 <= j, j < L.i), Select(w.yes, lst.el(j))))
        return b == z3.Exists([j], And(0 <= j, j < L.i, Select(w.yes, lst.el(j))))
    return f


def nofail(L):
    w, lst = cur().env.w, cur().env.fs
    j = z3.Int('j!v')
    return z3.ForAll([j], Implies(And(0 <= j, j < L.i), And(Not(Select(w.fails, lst.el(j))), Not(Select(w.late, lst.el(j))))))


def all_visited(ctx, w, lst):
    j = z3.Int('j!v')
    ctx.check('every future is dealt with once, in order', And(w.log.n == lst.n, z3.ForAll([j], Implies(And(0 <= j, j < lst.n), w.log.el(j) == lst.el(j)))))


@contract('FutureCollection for all', ['FutureCollection.cancel', 'FutureCollection.set_running_or_notify_cancel', 'FutureCollection.set_result',
                                       'FutureCollection.set_exception', 'FutureCollection.add_done_callback'],
          invs=[('visited so far', visited)] + [c for q in ('all', 'any') for neg in (False, True) for c in each_local('%s so far %s' % (q, neg), flag(q, neg))],
          reach=['end', 'cancel', 'run', 'only one'])
def for_all(ctx):
    w, lst, c = make(ctx)
    a, n = lst.s['arr'], lst.n
    j = z3.Int('j!v')
    k = ctx.choose(6)
    x = ctx.obj('x')
    if k == 0:
        ctx.reach('cancel')
        r = ok(ctx, ctx.catch(c.cancel))
        ctx.check('true exactly if all were cancelled', bool_term(r) == z3.ForAll([j], Implies(And(0 <= j, j < n), Select(w.yes, lst.el(j)))))
    elif k == 1:
        ctx.reach('run')
        r = ok(ctx, ctx.catch(c.set_running_or_notify_cancel))
        ctx.check('true exactly if one is running', bool_term(r) == z3.Exists([j], And(0 <= j, j < n, Select(w.yes, lst.el(j)))))
    elif k == 2:
        ok(ctx, ctx.catch(c.set_result, x))
    elif k == 3:
        ok(ctx, ctx.catch(c.set_exception, x))
    elif k == 4:
        ok(ctx, ctx.catch(c.add_done_callback, x))
    else:
        ctx.reach('only one')
        out = ctx.catch(c.add_done_callback, x, True)
        if out[0] == 'exc':
            ctx.check('fails only if empty', And(BoolVal(isinstance(out[1], IndexError)), n == 0))
        else:
            ctx.check('a single future', w.log.n == 1)
        return
    ctx.check('by the same operation with the same argument', BoolVal(
        w.what <= {('cancel', 'run', 'set_result', 'set_exception', 'callback')[k]} and all(len(a) == (0 if k < 2 else 1) and (k < 2 or a[0] is x) for a in w.args)))
    all_visited(ctx, w, lst)
    ctx.check('the futures stay', And(lst.n == n, lst.s['arr'] == a))


@contract('FutureCollection.result', ['FutureCollection.result', 'FutureCollection.exception'], invs=[('visited so far', visited), ('none failed so far', nofail)],
          reach=['end', 'late', 'fails', 'result', 'exception'])
def result(ctx):
    w, lst, c = make(ctx)
    w.timeout = (None, ctx.real('timeout'))[ctx.choose(2)]
    what = ctx.choose(2)
    out = ctx.catch((c.result, c.exception)[what], w.timeout)
    j, k, n = z3.Int('j!v'), z3.Int('k!v'), lst.n
    bad = lambda t: Or(Select(w.fails, t), Select(w.late, t))
    if out[0] == 'exc' and isinstance(out[1], WouldWaitMore):
        ctx.reach('late')
        ctx.check('only if one is late', z3.Exists([j], And(0 <= j, j < n, Select(w.late, lst.el(j)))))
    elif out[0] == 'exc':
        ctx.reach('fails')
        ctx.check('the failure of one of them', And(BoolVal(what == 0 and out[1] is w.exc), z3.Exists([j], And(0 <= j, j < n, Select(w.fails, lst.el(j))))))
    elif what == 0:
        ctx.reach('result')
        r = out[1]
        if isinstance(r, list):
            ctx.check('the list of all results', n == len(r))
        else:
            ctx.check('the list of all results', And(r.n == n, z3.ForAll([j], Implies(And(0 <= j, j < n), And(
                ValC.unwrap(r[0]) == ValC.unwrap(r[0]) if False else BoolVal(True), r.el(j) == w.res(lst.el(j)), Not(bad(lst.el(j))))))))
    else:
        ctx.reach('exception')
        if out[1] is None:
            ctx.check('none failed', z3.ForAll([j], Implies(And(0 <= j, j < n), Not(bad(lst.el(j))))))
        else:
            ctx.check('a failure of one of them', And(BoolVal(out[1] is w.exc), z3.Exists([j], And(0 <= j, j < n, Select(w.fails, lst.el(j))))))


@contract('FutureCollection growing', ['FutureCollection.__add__', 'FutureCollection.__iadd__', 'FutureCollection.add', 'FutureCollection.__len__',
                                       'FutureCollection.__getitem__', 'FutureCollection.__init__'])
def growing(ctx):
    w, lst, c = make(ctx)
    other = SList('others', w)
    a, n = lst.s['arr'], lst.n
    ctx.check('length', IntC.unwrap(ok(ctx, ctx.catch(c.__len__))) == n)
    k = ctx.choose(4)
    f = w.wrap(ctx.fresh('f', ValC.sort))
    j = z3.Int('j!v')
    if k == 0:
        r = ok(ctx, ctx.catch(lambda: c + ctx.new(FutureCollection, 'other', futures=other)))
    elif k == 1:
        r = ok(ctx, ctx.catch(lambda: c + f))
    elif k == 2:
        r = ok(ctx, ctx.catch(c.__iadd__, ctx.new(FutureCollection, 'other', futures=other)))
    else:
        r = ok(ctx, ctx.catch((c.__iadd__, c.add)[ctx.choose(2)], f))
    ctx.check('a collection', BoolVal(isinstance(r, FutureCollection) and (r is c) == (k >= 2)))
    m = other.n if k in (0, 2) else IntVal(1)
    g = r.futures
    ctx.check('the futures of both', And(g.n == n + m, z3.ForAll([j], And(
        Implies(And(0 <= j, j < n), g.el(j) == Select(a, j)), Implies(And(n <= j, j < n + m), g.el(j) == (other.el(j - n) if k in (0, 2) else f.t))))))
    if k < 2:
        ctx.check('the operand stays', And(c.futures.n == n, c.futures.s['arr'] == a))


# ------------------------------------------------------------------------------------------- single futures
@contract('Future.set_result', ['Future.set_result', 'Future.set_exception', 'Future._invoke_pre_callbacks', 'Future.result', 'Future.exception',
                                'Future.add_pre_done_callback', 'Future.__init__'], reach=['end', 'result', 'exception', 'again'], unroll=None)
def single(ctx):
    fut = Future()
    log = []
    err, err2 = Boom('first'), Boom('second')
    v = ctx.obj('value')
    state = {'failed': False, 'val': v, 'exc': None}
    npre = ctx.choose(3)

    def pre(k):
        what = ctx.choose(4)
        x = ctx.obj('changed')
        e = Boom(k)

        def f(fu):
            ctx.check('called with the future', BoolVal(fu is fut))
            ctx.check('before it is done', BoolVal(not fu.done() and not done))
            log.append(k)
            if what == 1:
                fu.set_result(x)
                state.update(failed=False, val=x)
            elif what == 2:
                fu.set_exception(e)
                state.update(failed=True, exc=e)
            elif what == 3:
                raise Boom()
            if state['failed']:
                ctx.check('the exception so far is visible', BoolVal(fu.exception() is state['exc']))
            else:
                ctx.check('the result so far is visible', BoolVal(fu.result() is state['val'] and fu.exception() is None))
        return f
    for k in range(npre):
        fut.add_pre_done_callback(pre(k))
    done = []
    seen = []
    fut.add_done_callback(lambda fu: done.append(fu))
    fut.on_success(lambda r: seen.append(('ok', r))).on_failure(lambda e: seen.append(('exc', e))).chain(lambda x: seen.append(('chain', x)))
    ctx.check('nothing is called early', BoolVal(not log and not done and not seen))
    if ctx.choose(2):
        fut.set_running_or_notify_cancel()
    if ctx.choose(2):
        state.update(failed=True, exc=err)
        ok(ctx, ctx.catch(fut.set_exception, err))
    else:
        ok(ctx, ctx.catch(fut.set_result, v))
    ctx.check('pre-done callbacks called once each, in order', BoolVal(log == list(range(npre))))
    ctx.check('done', BoolVal(fut.done() and done == [fut]))
    if state['failed']:
        ctx.reach('exception')
        out = ctx.catch(fut.result)
        ctx.check('fails with the last exception set', BoolVal(out[0] == 'exc' and out[1] is state['exc'] and fut.exception() is state['exc']))
        ctx.check('callbacks for failures', BoolVal(seen == [('exc', state['exc']), ('chain', state['exc'])]))
    else:
        ctx.reach('result')
        ctx.check('the last result set', BoolVal(fut.result() is state['val'] and fut.exception() is None))
        ctx.check('callbacks for successes', BoolVal([s[0] for s in seen] == ['ok', 'chain'] and all(s[1] is state['val'] for s in seen)))
    ctx.reach('again')
    out = ctx.catch((fut.set_result, fut.set_exception)[ctx.choose(2)], v)
    ctx.check('the outcome is set once', BoolVal(raised(ctx, out, InvalidStateError, concurrent.futures.InvalidStateError)))
    late = []
    fut.add_pre_done_callback(late.append)
    ctx.check('a late callback is called at once', BoolVal(late == [fut]))


@contract('WrappingFuture', ['WrappingFuture.__init__', 'WrappingFuture._state', 'WrappingFuture._on_future_completed', 'WrappingFuture.cancel',
                             'WrappingFuture.set_running_or_notify_cancel', 'wrap_if'], reach=['end', 'result', 'exception', 'cancelled', 'running'])
def wrapping(ctx):
    src = PythonFuture()
    early = ctx.choose(2)
    v, err = ctx.obj('value'), Boom()
    done, seen = [], []

    def finish(k):
        if k == 0:
            ctx.check('cancelling the wrapper cancels', BoolVal((w or src).cancel() is True))
        else:
            ((w or src) if viaw and w else src).set_running_or_notify_cancel()
            if w is not None:
                ctx.check('it runs as the source runs', BoolVal(w.running() and not w.done() and not w.cancelled()))
                ctx.check('it cannot be cancelled any more', BoolVal(w.cancel() is False))
                ctx.check('nor is it', BoolVal(not w.cancelled() and not done))
                ctx.reach('running')
            if k == 1:
                src.set_result(v)
            else:
                src.set_exception(err)
    w = None
    viaw = ctx.choose(2)
    k = ctx.choose(3)
    if early:
        finish(k)
    w = wrap_if(src)
    ctx.check('a future of this library', BoolVal(isinstance(w, Future)))
    ctx.check('which is not wrapped again', BoolVal(wrap_if(w) is w))
    w.add_done_callback(done.append)
    w.on_success(lambda r: seen.append(('ok', r))).on_failure(lambda e: seen.append(('exc', e)))
    if not early:
        ctx.check('not done before the source is', BoolVal(not w.done() and not done and not w.cancelled()))
        finish(k)
    ctx.check('done once the source is', BoolVal(w.done() and done == [w]))
    if k == 0:
        ctx.reach('cancelled')
        ctx.check('cancelled with the source', BoolVal(w.cancelled() and src.cancelled() and not seen))
        out = ctx.catch(w.result)
        ctx.check('so it says', BoolVal(out[0] == 'exc' and isinstance(out[1], concurrent.futures.CancelledError)))
    elif k == 1:
        ctx.reach('result')
        ctx.check('the result of the source', BoolVal(w.result() is v and w.exception() is None and len(seen) == 1 and seen[0][0] == 'ok' and seen[0][1] is v))
    else:
        ctx.reach('exception')
        out = ctx.catch(w.result)
        ctx.check('the exception of the source', BoolVal(out[0] == 'exc' and out[1] is err and w.exception() is err and seen == [('exc', err)]))
