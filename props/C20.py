"""C20: exceptions are translated, silenced, logged and retried exactly as told, and never lost otherwise."""
import logging
import queue
import sys
import warnings

from pyvc.api import *
from satella.coding import ctxt_managers, generators
from satella.coding.ctxt_managers import EmptyContextManager, wrap_callable_in_context_manager
from satella.coding.decorators.flow_control import repeat_forever, queue_get, loop_while
from satella.coding.decorators.retry_dec import retry
from satella.coding.expect_exception import expect_exception
from satella.coding.generators import RunActionAfterGeneratorCompletes, run_when_generator_completes
from satella.coding.recast_exceptions import (silence_excs, log_exceptions, reraise_as, rethrow_as, raises_exception, catch_exception)
from satella.exception_handling import global_eh
from satella.exception_handling.exception_handlers import BaseExceptionHandler, FunctionExceptionHandler, exception_handler


class Boom(Exception):
    pass


class SubBoom(Boom):
    pass


class Other(Exception):
    pass


class Base(KeyboardInterrupt):
    pass


class Target(Exception):
    def __init__(self, *args, **kwargs):
        super().__init__(*args)
        self.kw = kwargs


KINDS = (None, Boom, SubBoom, Other, Base, KeyboardInterrupt)


def ok(ctx, out):
    ctx.check('does not fail', BoolVal(out[0] == 'ok'))
    return out[1]


def action(ctx, kinds=KINDS):
    """something that returns r or raises one of the kinds; gives (callable, its result, the exception to be raised)"""
    r = ctx.obj('r')
    kind = kinds[ctx.choose(len(kinds))]
    exc = None if kind is None else kind('text')
    calls = []

    def f(*a, **k):
        calls.append((a, k))
        if exc is not None:
            raise exc
        return r
    return f, r, exc, calls


SOURCES = (Boom, (Boom,), (KeyError, Boom), (), Base, Exception, BaseException)


def quiet(ctx):
    ctx.models[warnings.warn] = lambda *a, **k: None


def run_as(ctx, o, f, x):
    """call f as decorated by o or in the context of o; gives the outcome and whether it was decorated"""
    if ctx.choose(2):
        return ctx.catch(lambda: o(f)(x, k=x)), True

    def block():
        with o as p:
            return f(x, k=x)
    return ctx.catch(block), False


def same_call(ctx, calls, x):
    ctx.check('called once, with the same arguments', BoolVal(len(calls) == 1 and len(calls[0][0]) == 1 and calls[0][0][0] is x
                                                         and list(calls[0][1]) == ['k'] and calls[0][1]['k'] is x))


@contract('reraise_as', ['reraise_as.__init__', 'reraise_as.__call__', 'reraise_as.__call__.inner', 'reraise_as.__enter__', 'reraise_as.__exit__'],
          reach=['end', 'nothing', 'translated', 'silenced', 'passed'])
def t_reraise(ctx):
    f, r, exc, calls = action(ctx)
    src = SOURCES[ctx.choose(len(SOURCES))]
    to = (Target, None)[ctx.choose(2)]
    x, a = ctx.obj('x'), ctx.obj('a')
    out, deco = run_as(ctx, reraise_as(src, to, a, key=a) if to else reraise_as(src, None), f, x)
    same_call(ctx, calls, x)
    if exc is None:
        ctx.reach('nothing')
        ctx.check('the result passes', BoolVal(ok(ctx, out) is r))
    elif not isinstance(exc, src):
        ctx.reach('passed')
        ctx.check('other exceptions pass', BoolVal(out[0] == 'exc' and out[1] is exc))
    elif to is None:
        ctx.reach('silenced')
        ctx.check('silenced', BoolVal(out[0] == 'ok' and out[1] is None))
    else:
        ctx.reach('translated')
        e = out[1]
        ctx.check('translated', BoolVal(out[0] == 'exc' and type(e) is Target))
        ctx.check('made of the arguments given, caused by the original', BoolVal(len(e.args) == 1 and e.args[0] is a and e.kw == {'key': a} and e.__cause__ is exc))


@contract('rethrow_as / silence_excs', ['rethrow_as.__init__', 'rethrow_as.__call__', 'rethrow_as.__call__.inner', 'rethrow_as.__enter__', 'rethrow_as.__exit__', 'silence_excs'],
          reach=['end', 'nothing', 'translated', 'silenced', 'passed', 'refused', 'value', 'made value'])
def t_rethrow(ctx):
    quiet(ctx)
    f, r, exc, calls = action(ctx)
    x, v = ctx.obj('x'), ctx.obj('v')
    form = ctx.choose(5)
    pairs = [[(Boom, Target)], [((KeyError, Boom), Target)], [(Other, None), (Boom, Target)], [(SubBoom, None), (Boom, Target)], [((Boom, Other), None)]][form]
    ret = ctx.choose(3)
    kw = [{}, {'returns': v}, {'returns_factory': lambda: v}][ret]
    if form == 4:
        how = ctx.choose(3)
        mk = [lambda: silence_excs(Boom, Other, **kw), lambda: rethrow_as((Boom, Other), None, **kw), lambda: rethrow_as(((Boom, Other), None), **kw)][how]
    elif form == 0 and ctx.choose(2):
        mk = lambda: rethrow_as(Boom, Target, **kw)
    elif form == 1 and ctx.choose(2):
        mk = lambda: rethrow_as((KeyError, Boom), Target, **kw)
    else:
        mk = lambda: rethrow_as(*pairs, **kw)
    if ctx.choose(8) == 7:
        ctx.reach('refused')
        out = ctx.catch(lambda: silence_excs(Boom, returns=v, returns_factory=lambda: v))
        ctx.check('only one of returns and returns_factory', BoolVal(out[0] == 'exc' and type(out[1]) is ValueError))
        return
    o = mk()
    out, deco = run_as(ctx, o, f, x)
    same_call(ctx, calls, x)
    to = 'none'
    for a, b in pairs:
        if exc is not None and isinstance(exc, a):
            to = b
            break
    if exc is None:
        ctx.reach('nothing')
        ctx.check('the result passes', BoolVal(ok(ctx, out) is r))
    elif to == 'none':
        ctx.reach('passed')
        ctx.check('other exceptions pass', BoolVal(out[0] == 'exc' and out[1] is exc))
    elif to is None:
        ctx.reach('silenced')
        want = v if ret and deco else None
        if ret and deco:
            ctx.reach('value' if ret == 1 else 'made value')
        ctx.check('silenced, and gives the value asked for', BoolVal(out[0] == 'ok' and out[1] is want))
    else:
        ctx.reach('translated')
        ctx.check('translated', BoolVal(out[0] == 'exc' and type(out[1]) is Target and out[1].args == (repr(exc),)))


@contract('rethrow_as: nested calls', ['rethrow_as.__call__', 'rethrow_as.__call__.inner', 'rethrow_as.__exit__'], reach=['end', 'silenced', 'result'])
def t_nested(ctx):
    quiet(ctx)
    v, r = ctx.obj('v'), ctx.obj('r')
    o = silence_excs(Boom, returns=v)
    inner_fails, outer_fails = ctx.choose(2), ctx.choose(2)
    got = []

    @o
    def f(n):
        if n:
            got.append(f(0))
        if outer_fails if n else inner_fails:
            raise Boom()
        return r
    out = ctx.catch(f, 1)
    ctx.reach('silenced' if outer_fails else 'result')
    ctx.check('the inner call gives what it should', BoolVal(len(got) == 1 and got[0] is (v if inner_fails else r)))
    ctx.check('so does the outer one', BoolVal(out[0] == 'ok' and out[1] is (v if outer_fails else r)))


class Log:
    def __init__(self):
        self.lines = []

    def log(self, severity, text, exc_info=None):
        self.lines.append((severity, text, exc_info))


@contract('log_exceptions', ['log_exceptions.__init__', 'log_exceptions.analyze_exception', 'log_exceptions.__call__', 'log_exceptions.__call__.inner',
                             'log_exceptions.__enter__', 'log_exceptions.__exit__'],
          reach=['end', 'nothing', 'logged', 'swallowed', 'passed', 'generator'])
def t_log(ctx):
    f, r, exc, calls = action(ctx)
    src = (Boom, (KeyError, Boom), [KeyError, Boom], None, Base, 'default')[ctx.choose(6)]
    swallow = ctx.choose(2) == 1
    fmt, show = (('{e}', 'text'), ('{a}: {e!r}', None), ('{args!r:>3} {kwargs} {e}', None), ('plain', 'plain'))[ctx.choose(4)]
    lg = Log()
    kw = {} if src == 'default' else {'exc_types': src}
    o = ok(ctx, ctx.catch(lambda: log_exceptions(lg, logging.WARNING, fmt, {'a': 'loc'}, swallow_exception=swallow, **kw)))
    how = ctx.choose(3)
    if how == 2:
        ctx.reach('generator')

        def gen(x):
            yield 1
            f(x)
        out = ctx.catch(lambda: list(o(gen)('X')))
    elif how == 1:
        out = ctx.catch(lambda: o(f)('X'))
    else:
        def block():
            with o:
                return f('X')
        out = ctx.catch(block)
    ctx.check('called once', BoolVal(len(calls) == 1 and calls[0] == (('X',), {})))
    listed = exc is not None and isinstance(exc, Exception if src in (None, 'default') else tuple(src) if isinstance(src, list) else src)
    if exc is None:
        ctx.reach('nothing')
        ctx.check('the result passes', BoolVal(out[0] == 'ok' and (out[1] == [1] if how == 2 else out[1] is r)))
    elif listed and swallow:
        ctx.reach('swallowed')
        ctx.check('swallowed', BoolVal(out[0] == 'ok' and (out[1] == [1] if how == 2 else out[1] is None)))
    else:
        ctx.reach('logged' if listed else 'passed')
        ctx.check('the exception passes', BoolVal(out[0] == 'exc' and out[1] is exc))
    if not listed:
        ctx.check('nothing is logged', BoolVal(lg.lines == []))
    else:
        args, kwargs = ((), {}) if how == 0 else (('X',), {})
        ctx.check('logged once, as told', BoolVal(lg.lines == [(logging.WARNING, fmt.format(a='loc', e=exc, args=args, kwargs=kwargs), exc)]))


@contract('raises_exception / catch_exception / expect_exception', ['raises_exception', 'catch_exception', 'expect_exception.__init__', 'expect_exception.__enter__',
                                                                  'expect_exception.__exit__'], reach=['end', 'raises', 'catch', 'expect'])
def t_expect(ctx):
    f, r, exc, calls = action(ctx)
    src = SOURCES[ctx.choose(len(SOURCES))]
    hit = exc is not None and isinstance(exc, src)
    k = ctx.choose(3)
    if k == 0:
        ctx.reach('raises')
        out = ctx.catch(raises_exception, src, f)
        ctx.check('tells whether it was raised, other exceptions pass', BoolVal(
            (out[0] == 'ok' and out[1] is hit) if exc is None or hit else (out[0] == 'exc' and out[1] is exc)))
    elif k == 1:
        ctx.reach('catch')
        v, instead, giv = ctx.obj('v'), ctx.choose(2) == 1, ctx.choose(2) == 1
        kw = dict(return_instead=v) if instead else {}
        if giv:
            kw['return_value_on_no_exception'] = True
        out = ctx.catch(lambda: catch_exception(src, f, **kw))
        if hit:
            ctx.check('gives the exception', BoolVal(out[0] == 'ok' and out[1] is exc))
        elif exc is not None:
            ctx.check('other exceptions pass', BoolVal(out[0] == 'exc' and out[1] is exc))
        elif instead:
            ctx.check('gives the value asked for', BoolVal(out[0] == 'ok' and out[1] is v))
        elif giv:
            ctx.check('gives the result', BoolVal(out[0] == 'ok' and out[1] is r))
        else:
            ctx.check('reports that nothing was raised', BoolVal(out[0] == 'exc' and type(out[1]) is ValueError))
    else:
        ctx.reach('expect')
        a = ctx.obj('a')

        def block():
            with expect_exception(src, Target, a, key=a):
                f()
        out = ctx.catch(block)
        if exc is None:
            ctx.check('raises what was asked for', BoolVal(out[0] == 'exc' and type(out[1]) is Target and out[1].args[0] is a and out[1].kw == {'key': a}))
        elif hit:
            ctx.check('an expected one is caught', BoolVal(out[0] == 'ok'))
        else:
            ctx.check('other exceptions pass', BoolVal(out[0] == 'exc' and out[1] is exc))
    ctx.check('called once', BoolVal(len(calls) == 1))


# ------------------------------------------------------------------------------------------------------------ retry
def attempts_inv(L):
    g = cur().roots['g']
    return And(num_term(g.tries) == L.i, num_term(g.between) == (L.i if not cur().env.limited else If(L.i < cur().env.times, L.i, L.i - 1)))


def last_inv(L):
    f = L.loc.get('f')
    return BoolVal(True) if not isinstance(f, (BaseException, SVal)) else Or(L.i == 0, ValC.unwrap(f) == ValC.unwrap(cur().roots['g'].boom))


@contract('retry', ['retry', 'retry.outer', 'retry.outer.inner'], invs=[('tries so far', attempts_inv), ('the last exception', last_inv)], reach=['end', 'success', 'given up', 'raised', 'other', 'bad callback'])
def t_retry(ctx):
    quiet(ctx)
    e = ctx.env
    e.cut_while = True
    e.sym_count = True
    e.carry = ('f', 'is_last')
    g = ctx.roots['g'] = type('G', (), {})()
    g.tries, g.between = SNum(z3.IntVal(0)), SNum(z3.IntVal(0))
    e.limited = ctx.choose(2) == 1
    times = ctx.int('times') if e.limited else None
    if e.limited:
        ctx.assume(times.t >= 1)
        e.times = times.t
    boom = g.boom = Boom('text')
    x, r = ctx.obj('x'), ctx.obj('r')
    log = []
    e.end = None
    cb_fails = ctx.choose(2) == 1

    def f(*a, **k):
        ctx.check('nothing is repeated after a success', BoolVal(e.end is None))
        ctx.check('the same arguments', BoolVal(len(a) == 1 and a[0] is x and list(k) == ['k'] and k['k'] is x))
        if e.limited:
            ctx.check('no more often than allowed', num_term(g.tries) < times.t)
        ctx.check('told between the tries', num_term(g.between) == num_term(g.tries))
        g.tries = SNum(num_term(g.tries) + 1)
        w = ctx.choose(3)
        if w == 0:
            e.end = 'ok'
            return r
        if w == 1:
            e.end = 'other'
            raise Other()
        raise boom

    def between(exc):
        ctx.check('told of the exception', BoolVal(exc is boom))
        g.between = SNum(num_term(g.between) + 1)
        if e.limited:
            ctx.check('only if there will be another try', num_term(g.tries) < times.t)

    def success(n):
        log.append('success')
        ctx.check('told how many retries it took', num_term(n) == num_term(g.tries) - 1)
        if cb_fails:
            e.end = 'callback'
            raise boom
    
    def fail(exc):
        ctx.check('told of the last exception', ValC.unwrap(exc) == ValC.unwrap(boom))
        log.append('fail')
    swallow = ctx.choose(2) == 1
    dec = retry(times, (KeyError, Boom), fail, swallow, call_on_success=success, call_between_retries=between)
    out = ctx.catch(lambda: dec(f)(x, k=x))
    if e.end == 'ok':
        ctx.reach('success')
        ctx.check('gives the result', BoolVal(out[0] == 'ok' and out[1] is r and log == ['success']))
    elif e.end == 'callback':
        ctx.reach('bad callback')
        ctx.check('the failure of the callback is seen', BoolVal(out[0] == 'exc' and out[1] is boom and log == ['success']))
    elif e.end == 'other':
        ctx.reach('other')
        ctx.check('other exceptions pass at once', BoolVal(out[0] == 'exc' and type(out[1]) is Other and log == []))
    else:
        ctx.check('gives up only after all tries', num_term(g.tries) == (times.t if e.limited else -1))
        ctx.check('told once that it has failed', BoolVal(log == ['fail']))
        if swallow:
            ctx.reach('given up')
            ctx.check('the exception is swallowed', BoolVal(out[0] == 'ok' and out[1] is None))
        else:
            ctx.reach('raised')
            ctx.check('the exception is seen', And(BoolVal(out[0] == 'exc'), ValC.unwrap(out[1]) == ValC.unwrap(boom)))


# ------------------------------------------------------------------------------------------------------ flow control
class Quit(BaseException):
    pass


@contract('queue_get', ['queue_get', 'queue_get.outer', 'queue_get.outer.inner'], reach=['end', 'empty', 'processed', 'failed'])
def t_queue(ctx):
    item, r, t = ctx.obj('item'), ctx.obj('r'), ctx.real('timeout')
    log = []
    full = ctx.choose(2) == 1
    fails = ctx.choose(2) == 1
    empty = Boom if ctx.choose(2) else queue.Empty

    class Q:
        def get(self, timeout='none'):
            log.append(('get', timeout is t))
            if not full:
                raise empty()
            return item

    class P:
        q = Q()

        def on_empty(self):
            log.append('empty')
    m = ctx.choose(3)
    by_name = ctx.choose(2)

    @queue_get('q' if by_name else lambda self: self.q, t, exception_empty=empty, **[{}, {'method_to_execute_on_empty': 'on_empty'},
                                                                               {'method_to_execute_on_empty': lambda: log.append('empty')}][m])
    def do(self, msg):
        log.append(('do', self is p and msg is item))
        if fails:
            raise empty()
        return r
    p = P()
    out = ctx.catch(do, p)
    if not full:
        ctx.reach('empty')
        ctx.check('gives None', BoolVal(out[0] == 'ok' and out[1] is None))
        ctx.check('asks once, and tells if it was empty', BoolVal(log == [('get', True)] + (['empty'] if m else [])))
    else:
        ctx.check('the element is processed once', BoolVal(log == [('get', True), ('do', True)]))
        if fails:
            ctx.reach('failed')
            ctx.check('exceptions of processing pass', BoolVal(out[0] == 'exc' and type(out[1]) is empty))
        else:
            ctx.reach('processed')
            ctx.check('gives the result', BoolVal(out[0] == 'ok' and out[1] is r))


@contract('loop_while / repeat_forever', ['loop_while', 'loop_while.outer', 'loop_while.outer.inner', 'repeat_forever', 'repeat_forever.inner'],
          invs=[('asked', lambda L: bool_term(cur().roots['g'].asked) == BoolVal(cur().env.forever))], reach=['end', 'over', 'failed', 'forever'])
def t_loop(ctx):
    e = ctx.env
    e.cut_while = True
    g = ctx.roots['g'] = type('G', (), {})()
    e.forever = ctx.choose(2) == 1
    g.asked = SBool(BoolVal(e.forever))
    e.over = False
    with_args = ctx.choose(2) == 1
    x = ctx.obj('x')

    def pred(*a):
        ctx.check('asked about the first argument', BoolVal(a == () if not with_args else len(a) == 1 and a[0] is x))
        if ctx.choose(2):
            g.asked = SBool(BoolVal(True))
            return True
        e.over = True
        return False

    def f(*a):
        ctx.check('the same arguments', BoolVal(a == () if not with_args else len(a) == 1 and a[0] is x))
        ctx.check('only while the condition holds', bool_term(g.asked))
        if not e.forever:
            g.asked = SBool(BoolVal(False))
        if ctx.choose(2):
            raise Boom()
    h = repeat_forever(f) if e.forever else loop_while(pred)(f)
    out = ctx.catch(h, *([x] if with_args else []))
    if out[0] == 'ok':
        ctx.reach('over')
        ctx.check('ends only if the condition does not hold', BoolVal(e.over and out[1] is None))
    else:
        ctx.reach('forever' if e.forever else 'failed')
        ctx.check('exceptions pass', BoolVal(type(out[1]) is Boom))


@contract('EmptyContextManager / wrap_callable_in_context_manager', ['EmptyContextManager.__init__', 'EmptyContextManager.__enter__', 'EmptyContextManager.__exit__',
                                                                 'wrap_callable_in_context_manager'])
def t_ctxt(ctx):
    f, r, exc, calls = action(ctx)
    x = ctx.obj('x')
    log = []

    class C:
        def __init__(self, *a, **k):
            log.append(('init', a, k))

        def __enter__(self):
            log.append('enter')

        def __exit__(self, *a):
            log.append('exit')
            return False
    if ctx.choose(2):
        out = ctx.catch(lambda: wrap_callable_in_context_manager(f, C, 1, b=2)(x, k=x))
        ctx.check('called within the context', BoolVal(log == [('init', (1,), {'b': 2}), 'enter', 'exit']))
    else:
        def block():
            with EmptyContextManager(1, b=2):
                return f(x, k=x)
        out = ctx.catch(block)
    same_call(ctx, calls, x)
    ctx.check('the outcome passes', BoolVal(out[0] == 'ok' and out[1] is r if exc is None else out[0] == 'exc' and out[1] is exc))


# -------------------------------------------------------------------------------------------------------- generators
@contract('RunActionAfterGeneratorCompletes', ['RunActionAfterGeneratorCompletes.__init__', 'RunActionAfterGeneratorCompletes.__next__', 'RunActionAfterGeneratorCompletes.send',
                                               'RunActionAfterGeneratorCompletes.throw', 'RunActionAfterGeneratorCompletes.close', 'RunActionAfterGeneratorCompletes.__iter__',
                                               'run_when_generator_completes'], reach=['end', 'goes on', 'completes', 'fails', 'closed'])
def t_gen(ctx):
    x, v, a = ctx.obj('x'), ctx.obj('v'), ctx.obj('a')
    log, acts = [], []

    class Gen:
        """any generator: it yields, completes or fails"""

        def step(self, *what):
            log.append(what)
            w = ctx.choose(3)
            if w == 0:
                return x
            raise (StopIteration if w == 1 else Boom)()

        def __next__(self):
            return self.step('next')

        def send(self, value):
            return self.step('send', value is v)

        def throw(self, *a):
            return self.step('throw', a[0])

        def close(self):
            log.append(('close',))
    o = run_when_generator_completes(Gen(), lambda *a, **k: acts.append((a, k)), a, key=a)
    ctx.check('iterates over itself', BoolVal(iter(o) is o))
    done = closed = False
    for i in range(2):
        k = ctx.choose(4)
        if k == 3:
            ctx.reach('closed')
            ok(ctx, ctx.catch(o.close))
            closed = True
            ctx.check('closes the generator', BoolVal(log[-1] == ('close',)))
        else:
            out = ctx.catch(*[(o.__next__,), (o.send, v), (o.throw, Other)][k])
            ctx.check('goes to the generator', BoolVal(len(log) == i + 1 and log[-1] == [('next',), ('send', True), ('throw', Other)][k]))
            if out[0] == 'ok':
                ctx.reach('goes on')
                ctx.check('gives what was yielded', BoolVal(out[1] is x))
            elif isinstance(out[1], StopIteration):
                ctx.reach('completes')
                done = done or not closed
            else:
                ctx.reach('fails')
                ctx.check('exceptions pass', BoolVal(type(out[1]) is Boom))
        ctx.check('the action is run once the generator completes, and only then', BoolVal(len(acts) == (1 if done else 0)))
    if acts:
        ctx.check('with the arguments given', BoolVal(len(acts[0][0]) == 1 and acts[0][0][0] is a and acts[0][1] == {'key': a}))


# ------------------------------------------------------------------------------------------------- unhandled exceptions
class Tb:
    pretty_print = lambda self, output=None: None


def sorted_hooks(ctx, n):
    ps = [ctx.int('priority') for _ in range(n)]
    return ps


@contract('GlobalExcepthook', ['GlobalExcepthook.__except_handle', 'GlobalExcepthook.add_hook', 'GlobalExcepthook.remove_hook', 'FunctionExceptionHandler.handle_exception',
                               'FunctionExceptionHandler.__init__', 'BaseExceptionHandler.__init__', 'exception_handler', 'exception_handler.outer'],
          reach=['end', 'intercepted', 'all', 'exit'])
def t_hooks(ctx):
    quiet(ctx)
    real = type(global_eh.GlobalExcepthook())
    o = object.__new__(real)
    o.installed_hooks, o.ignore_failed_hooks = [], True
    ctx.models[global_eh.Traceback] = Tb
    ctx.models[sys.stderr.write] = lambda x: None
    ran = []
    typ = (Boom, SystemExit)[ctx.choose(2)]
    exc = typ()

    def hook(i, what):
        def h(t, v, tb):
            ran.append((i, t is typ and v is exc and tb is None))
            if what == 3:
                raise Boom()
            return [False, True, [False, True]][what]
        return h
    n = 1 + ctx.choose(2)
    ps, whats, handlers = [], [], []
    for i in range(n):
        p, w = ctx.int('priority%d' % i), ctx.choose(4)
        ctx.assume(And(p.t >= -1000, p.t <= 1000))
        h = exception_handler(p)(hook(i, w)) if ctx.choose(2) else FunctionExceptionHandler(hook(i, w), p)
        handlers.append(h)
        ctx.check('gives the handler', BoolVal(o.add_hook(h) is h))
        ctx.check('added once', BoolVal(o.add_hook(h) is h and o.installed_hooks == handlers))
        ps.append(p.t)
        whats.append(w)
    o.old_excepthook = FunctionExceptionHandler(hook('last', 0), 10000)
    out = ctx.catch(o._GlobalExcepthook__except_handle, typ, exc, None)
    ctx.check('a failing handler does not stop the others', BoolVal(out[0] == 'ok'))
    if typ is SystemExit:
        ctx.reach('exit')
        ctx.check('not for SystemExit', BoolVal(ran == []))
        return
    names = [i for i, _ in ran]
    ctx.check('each at most once, with the exception', BoolVal(len(set(names)) == len(names) and all(f for _, f in ran)))
    for a, b in zip(names, names[1:]):
        if b != 'last':
            ctx.check('in the order of priorities', ps[a] <= ps[b])
        ctx.check('none after the one that intercepts', BoolVal(a == 'last' or whats[a] in (0, 3)))
    stops = names[-1] != 'last'
    if stops:
        ctx.reach('intercepted')
        ctx.check('stops only if intercepted', BoolVal(whats[names[-1]] in (1, 2)))
        for i in range(n):
            if i not in names:
                ctx.check('those before were asked', ps[i] >= ps[names[-1]])
    else:
        ctx.reach('all')
        ctx.check('all were asked', BoolVal(len(names) == n + 1))
    o.remove_hook(handlers[0])
    ctx.check('removed', BoolVal(o.installed_hooks == handlers[1:]))
