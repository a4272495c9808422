import contextlib
import io
import logging
import queue
import sys
import threading
import warnings

from base import case, main
from satella.coding import (silence_excs, log_exceptions, reraise_as, rethrow_as, raises_exception, catch_exception, expect_exception,
                            EmptyContextManager, wrap_callable_in_context_manager)
from satella.coding.decorators import retry, queue_get, loop_while, repeat_forever
from satella.coding.generators import run_when_generator_completes
from satella.exception_handling import GlobalExcepthook, FunctionExceptionHandler, exception_handler

warnings.simplefilter('ignore')


class Boom(Exception):
    pass


class Sub(Boom):
    pass


class Other(Exception):
    pass


class Base(BaseException):
    pass


class Target(Exception):
    def __init__(self, *a, **k):
        super().__init__(*a)
        self.kw = k


class Target2(Exception):
    pass


KINDS = {'ok': None, 'boom': Boom, 'sub': Sub, 'other': Other, 'base': Base, 'key': KeyError, 'kbd': KeyboardInterrupt}
SOURCES = {'boom': Boom, '(boom,)': (Boom,), '(key,boom)': (KeyError, Boom), 'base': Base, 'exception': Exception, 'all': BaseException}


def outcome(f, *a, **k):
    try:
        return 'ok', f(*a, **k)
    except BaseException as e:      # what the operation did is judged, not handled
        return 'exc', e


def gen_t(rng, size):
    for _ in range(3000 * size):
        yield {'kind': rng.choice(sorted(KINDS)), 'source': rng.choice(sorted(SOURCES)), 'target': rng.random() < 0.6, 'deco': rng.random() < 0.5,
               'what': rng.choice(['reraise', 'rethrow', 'pairs', 'silence', 'log', 'log_list', 'log_none', 'expect', 'raises', 'catch', 'empty', 'ctxt', 'gen']),
               'depth': rng.randint(0, 3), 'swallow': rng.random() < 0.5,
               'returns': rng.choice([None, 'value', 'factory']), 'fmt': rng.choice(['{e}', '{e!r} {args} {kwargs}', '{e!s} {l}', '{l:>5}'])}


class Rec:
    def __init__(self):
        self.got = []

    def log(self, sev, msg, exc_info=None):
        self.got.append((sev, msg, exc_info))


@case('translating', gen_t, '7 outcomes, 6 kinds of sources, 11 tools, 3 nested calls')
def t(inp):
    kind, src, deco, what = KINDS[inp['kind']], SOURCES[inp['source']], inp['deco'], inp['what']
    exc = None if kind is None else kind('text')
    hit = exc is not None and isinstance(exc, src)
    calls = []

    def f(x, k=None):
        calls.append((x, k))
        if exc is not None:
            raise exc
        return 'result'

    def run(o):
        if deco:
            return outcome(lambda: o(f)(1, k=2))

        def block():
            with o:
                return f(1, k=2)
        return outcome(block)
    if what == 'reraise':
        out = run(reraise_as(src, Target if inp['target'] else None, 'a', 'b', c=3))
    elif what == 'rethrow':
        out = run(rethrow_as(src, Target if inp['target'] else None) if not isinstance(src, tuple) else
                  rethrow_as((src, Target if inp['target'] else None)))
    elif what == 'pairs':
        out = run(rethrow_as((src, Target if inp['target'] else None), (BaseException, Target2), exception_preprocessor=lambda e: 'pp'))
    elif what == 'silence':
        kw = {None: {}, 'value': {'returns': 5}, 'factory': {'returns_factory': lambda: 7}}[inp['returns']]
        o = silence_excs(*(src if isinstance(src, tuple) else (src, )), **kw)
        out = run(o)
    elif what.startswith('log'):
        rec = Rec()
        types = src if what == 'log' else (list(src) if isinstance(src, tuple) else [src]) if what == 'log_list' else None
        hit = exc is not None and isinstance(exc, src if what != 'log_none' else Exception)
        out = run(log_exceptions(rec, logging.WARNING, inp['fmt'], {'l': 'loc'}, types, inp['swallow']))
        assert len(rec.got) == hit, '%d records for %r' % (len(rec.got), exc)
        if hit:
            text = inp['fmt'].format(e=exc, args=(1,) if deco else (), kwargs={'k': 2} if deco else {}, l='loc')
            assert rec.got == [(logging.WARNING, text, exc)], rec.got
        if hit and inp['swallow']:
            assert out == ('ok', None), out
        else:
            assert out[1] is exc if exc is not None else out == ('ok', 'result'), out
        return
    elif what == 'expect':
        def g():
            with expect_exception(src, Target, 'a', b=4) as z:
                assert isinstance(z, expect_exception)
                return f(1, k=2)
        out = outcome(g)
        if exc is None:
            assert type(out[1]) is Target and out[1].args == ('a',) and out[1].kw == {'b': 4}, out
        elif hit:
            assert out == ('ok', None), out
        else:
            assert out[1] is exc, out
        return
    elif what == 'raises':
        out = outcome(lambda: raises_exception(src, lambda: f(1, k=2)))
        assert out == ('ok', hit) if exc is None or hit else out[1] is exc, out
        return
    elif what == 'catch':
        out = outcome(lambda: catch_exception(src, lambda: f(1, k=2)))
        assert (type(out[1]) is ValueError if exc is None else out[1] is exc and (out[0] == 'ok') is hit), out
        out = outcome(lambda: catch_exception(src, lambda: f(1, k=2), return_value_on_no_exception=True))
        assert (out == ('ok', 'result') if exc is None else out[1] is exc and (out[0] == 'ok') is hit), out
        out = outcome(lambda: catch_exception(src, lambda: f(1, k=2), 0))
        assert (out == ('ok', 0) if exc is None else out[1] is exc and (out[0] == 'ok') is hit), out
        return
    elif what == 'ctxt':
        ev = []

        @contextlib.contextmanager
        def manager(*a, **kw):
            ev.append((a, kw))
            try:
                yield
            except src:
                ev.append('caught')
                if not inp['swallow']:
                    raise
            finally:
                ev.append('left')
        g = wrap_callable_in_context_manager(f, manager, 3, z=4)
        assert not ev
        for _ in range(2):
            del ev[:], calls[:]
            out = outcome(lambda: g(1, k=2))
            assert ev == [((3,), {'z': 4})] + ['caught'] * hit + ['left'] and calls == [(1, 2)], (ev, calls)
            if exc is None:
                assert out == ('ok', 'result')
            else:
                assert out == ('ok', None) if hit and inp['swallow'] else out[1] is exc
        return
    elif what == 'gen':
        rec = Rec()

        @log_exceptions(rec, logging.INFO, '{e!s} {args} {kwargs}', exc_types=src, swallow_exception=inp['swallow'])
        def gen(x, k):
            try:
                got.append((yield x))
            except Other:
                got.append('other')
            yield f(x, k)
        got = []
        o = gen(1, k=2)
        assert outcome(next, o) == ('ok', 1) and not calls
        out = outcome((lambda: o.throw(Other())) if inp['target'] else lambda: o.send('sent'))
        assert got == ['other' if inp['target'] else 'sent'] and calls == [(1, 2)], 'what was sent did not reach the generator: %r' % (got,)
        assert rec.got == ([(logging.INFO, str(exc) + " (1,) {'k': 2}", exc)] if hit else []), rec.got
        if exc is None:
            assert out == ('ok', 'result') and isinstance(outcome(next, o)[1], StopIteration)
        else:
            assert type(out[1]) is StopIteration if hit and inp['swallow'] else out[1] is exc, out
        return
    else:
        c = EmptyContextManager()
        out = outcome(lambda: wrap_callable_in_context_manager(f, lambda: c)(1, k=2))
        assert out == ('ok', 'result') if exc is None else out[1] is exc, out

        def g():
            with EmptyContextManager(1, b=2) as z:
                assert isinstance(z, EmptyContextManager)
                return f(1, k=2)
        out = outcome(g)
        assert out == ('ok', 'result') if exc is None else out[1] is exc, out
        return
    assert calls == [(1, 2)], calls
    if exc is None:
        assert out == ('ok', 'result'), out
    elif what == 'silence':
        if hit:
            assert out == ('ok', (5 if inp['returns'] == 'value' else 7 if inp['returns'] else None) if deco else None), out
        else:
            assert out[1] is exc, out
    elif hit and not inp['target']:
        assert out == ('ok', None), out
    elif hit:
        assert out[0] == 'exc' and type(out[1]) is Target, out
        assert out[1].args == (('a', 'b') if what == 'reraise' else ('pp',) if what == 'pairs' else (repr(exc),)), out[1].args
        if what == 'reraise':
            assert out[1].kw == {'c': 3}, out[1].kw
            assert out[1].__cause__ is exc
    elif what == 'pairs':
        assert type(out[1]) is Target2, out
    else:
        assert out[1] is exc, out


def gen_n(rng, size):
    for _ in range(500 * size):
        yield {'fails': [rng.random() < 0.5 for _ in range(rng.randint(1, 4))], 'tool': rng.choice(['silence', 'rethrow', 'reraise'])}


@case('nested calls', gen_n, 'recursion up to 4 deep, some of the calls fail')
def n(inp):
    fails, log = inp['fails'], []
    deco = {'silence': lambda: silence_excs(Boom, returns=-1), 'rethrow': lambda: rethrow_as(Boom, None, returns=-1),
            'reraise': lambda: reraise_as(Boom, None)}[inp['tool']]()

    @deco
    def f(d):
        if d + 1 < len(fails):
            log.append((d, f(d + 1)))
        if fails[d]:
            raise Boom()
        return d
    log.append((-1, f(0)))
    lost = None if inp['tool'] == 'reraise' else -1
    for d, r in log:
        assert r == (lost if fails[d + 1] else d + 1), 'call %d gave %r' % (d + 1, r)


def gen_r(rng, size):
    for _ in range(1500 * size):
        yield {'times': rng.choice([None, 1, 2, 3, 5]), 'fails': rng.randint(0, 6), 'other': rng.choice([None, None, 0, 1, 2]),
               'swallow': rng.random() < 0.5, 'cb_fails': rng.random() < 0.3, 'style': rng.choice(['all', 'all', 'none', 'old'])}


@case('retrying', gen_r, 'up to 6 failures')
def r(inp):
    times, fails, other = inp['times'], inp['fails'], inp['other']
    log = []

    def f(x, k):
        assert (x, k) == (1, 2)
        n = sum(1 for e in log if e[0] == 'try')
        log.append(('try', n))
        assert n < 20, 'repeated after a success'
        if n == other:
            raise Other()
        if n < fails:
            raise Boom(n)
        return 'result'

    def success(n):
        log.append(('success', n))
        if inp['cb_fails']:
            raise Boom('callback')
    style = inp.get('style', 'all')
    if style != 'all' and times is not None:
        # without the optional callbacks
        kw = {'call_on_failure': lambda e: log.append(('fail', e.args[0]))} if style == 'old' else {}
        out = outcome(retry(times, Boom, swallow_exception=inp['swallow'], **kw)(f) if not inp['swallow'] else retry(times, Boom, **kw)(f), 1, k=2)
        tries = sum(1 for e in log if e[0] == 'try')
        good = min(fails, times) if other is None or other > min(fails, times) else None
        if other is not None and other <= fails and other < times:
            assert type(out[1]) is Other and tries == other + 1, (out, log)
        elif fails < times:
            assert out == ('ok', 'result') and tries == fails + 1, (out, log)
        else:
            assert out == ('ok', None) if inp['swallow'] else (type(out[1]) is Boom and out[1].args == (times - 1,)), out
            assert tries == times and log[times:] == ([('fail', times - 1)] if style == 'old' else []), log
        return
    out = outcome(retry(times, Boom, lambda e: log.append(('fail', e.args[0])), inp['swallow'], call_on_success=success,
                        call_between_retries=lambda e: log.append(('between', e.args[0])))(f), 1, k=2)
    exp = []
    i = 0
    while True:
        exp.append(('try', i))
        if i == other:
            assert type(out[1]) is Other, out
            break
        if i >= fails:
            exp.append(('success', i))
            assert out == ('ok', 'result') if not inp['cb_fails'] else out[1].args == ('callback',), out
            break
        i += 1
        if i == times:
            exp.append(('fail', i - 1))
            assert out == ('ok', None) if inp['swallow'] else (type(out[1]) is Boom and out[1].args == (i - 1,)), out
            break
        exp.append(('between', i - 1))
    assert log == exp, '%r instead of %r' % (log, exp)


def gen_q(rng, size):
    for _ in range(400 * size):
        yield {'full': rng.random() < 0.6, 'fails': rng.random() < 0.5, 'exc': rng.choice(['empty', 'boom']), 'm': rng.randint(0, 2),
               'loops': rng.randint(0, 5)}


@case('queues and loops', gen_q, 'full and empty queues, up to 5 loops')
def q(inp):
    log = []
    que = queue.Queue()
    if inp['full']:
        que.put('item')
    exc = {'empty': queue.Empty, 'boom': Boom}[inp['exc']]

    class P:
        q = que
        n = 0

        def on_empty(self):
            log.append('empty')

        @queue_get('q', 0.001, method_to_execute_on_empty=[None, 'on_empty', lambda: log.append('empty')][inp['m']])
        def do(self, item):
            log.append(item)
            if inp['fails']:
                raise exc()
            return 'result'

        @loop_while(lambda self: self.n < inp['loops'])
        def loop(self, x, y=None):
            assert x == 3 and y == 5
            self.n += 1

        @queue_get(lambda self: self.q, 0.001)
        def do2(self, item):
            return [item]

        @loop_while()
        def forever():
            count.append(1)
            if len(count) > inp['loops']:
                raise Boom()

        @loop_while(lambda: len(count) < 3 * inp['loops'])
        def more():
            count.append(1)

        @repeat_forever
        def again(a, k):
            assert (a, k) == (1, 2)
            count.append(1)
            if len(count) > inp['loops']:
                raise Boom()
    count = []
    p = P()
    out = outcome(p.do)
    if not inp['full']:
        assert out == ('ok', None) and log == (['empty'] if inp['m'] else []), (out, log)
    else:
        assert log == ['item'], log
        assert type(out[1]) is exc if inp['fails'] else out == ('ok', 'result'), out
    p.loop(3, y=5)
    assert p.n == inp['loops']
    que2 = queue.Queue()
    P.q = que2
    assert p.do2() is None
    que2.put(7)
    assert p.do2() == [7]
    assert type(outcome(P.forever)[1]) is Boom and len(count) == inp['loops'] + 1, 'looped %d times' % len(count)
    del count[:]
    P.more()
    assert len(count) == 3 * inp['loops'], 'looped %d times' % len(count)
    del count[:]
    assert type(outcome(P.again, 1, k=2)[1]) is Boom and len(count) == inp['loops'] + 1, 'looped %d times' % len(count)


def gen_g(rng, size):
    for _ in range(1000 * size):
        yield {'items': rng.randint(0, 3), 'ends': rng.choice(['returns', 'returns', 'raises']),
               'ops': [rng.choice(['next', 'next', 'send', 'throw', 'close']) for _ in range(rng.randint(1, 6))]}


@case('completing generators', gen_g, 'up to 6 operations')
def g(inp):
    log = []

    def gen():
        for i in range(inp['items']):
            try:
                x = yield i
            except Boom:
                x = 'thrown'
            seen.append(x)
        if inp['ends'] == 'raises':
            raise Other()
        return 'value'
    runs = []
    for wrap in (False, True):
        seen = []
        o = gen()
        if wrap:
            o = run_when_generator_completes(o, lambda *a, **k: log.append((a, k)), 1, x=2)
        res = []
        done = 0
        for op in inp['ops']:
            out = outcome({'next': lambda: next(o), 'send': lambda: o.send(None if not res else 'v'), 'throw': lambda: o.throw(Boom, Boom('x')),
                           'close': lambda: o.close()}[op])
            if wrap and 'close' not in inp['ops'] and out[0] == 'exc' and type(out[1]) is StopIteration:
                done = 1
                assert log == [((1,), {'x': 2})], 'run %r when the generator is complete' % log
            res.append((out[0], type(out[1]).__name__, getattr(out[1], 'args', out[1])))
        if wrap and 'close' not in inp['ops']:
            assert len(log) == done, log
        runs.append((res, seen))
    assert runs[0] == runs[1], '%r, %r without the action' % (runs[1], runs[0])


def gen_h(rng, size):
    for _ in range(500 * size):
        yield {'hooks': [[rng.randint(-2, 2), rng.random() < 0.3, rng.random() < 0.2 ]
                         for _ in range(rng.randint(0, 5))], 'remove': rng.choice([None, 0, 1]), 'kind': rng.choice(['boom', 'sub', 'other', 'exit']),
               'how': [rng.randint(0, 4) for _ in range(5)], 'thread': rng.random() < .3, 'strict': rng.random() < .2}


@case('global hooks', gen_h, 'up to 5 hooks')
def h(inp):
    eh = GlobalExcepthook()
    saved, old = list(eh.installed_hooks), eh.old_excepthook
    eh.installed_hooks = []
    log = []
    try:
        eh.old_excepthook = FunctionExceptionHandler(lambda *a: log.append('old'), priority=10000)
        hooks = []
        for i, (prio, last, fails) in enumerate(inp['hooks']):
            style = inp['how'][i] if 'how' in inp else 0

            def fn(t_, v_, tb_, i=i, last=last, fails=fails, style=style):
                log.append(i)
                assert v_ is e and t_ is type(e)
                if fails:
                    raise Other()
                return [False, last] if style == 4 else last
            style = inp['how'][i] if 'how' in inp else 0
            if style == 1:
                hook = exception_handler(priority=prio)(fn)
                assert hook.install() is hook
            elif style == 2:
                prio = 0
                hook = eh.add_hook(fn)
            elif style == 3:
                prio = 0
                hook = eh.add_hook(exception_handler(fn))
                assert eh.add_hook(hook) is hook        # already there
            else:
                hook = eh.add_hook(FunctionExceptionHandler(fn, prio))
            assert isinstance(hook, FunctionExceptionHandler) and hook.priority == prio
            hooks.append((prio, i, last and not fails, hook))
        if inp['remove'] is not None and inp['remove'] < len(hooks):
            h_ = hooks.pop(inp['remove'])[3]
            if inp.get('strict'):
                h_.uninstall()
            else:
                eh.remove_hook(h_)
        e = (SystemExit if inp['kind'] == 'exit' else KINDS[inp['kind']])('x')
        err = io.StringIO()
        with contextlib.redirect_stderr(err):
            if inp.get('thread'):
                def body(*a, **k):
                    args.append((a, k))
                    raise e
                args, hook_ = [], threading.excepthook
                threading.excepthook = lambda *a: None
                try:
                    th = threading.Thread(target=body, args=(1,), kwargs={'k': 2})
                    th.start()
                    th.join()
                finally:
                    threading.excepthook = hook_
                assert args == [((1,), {'k': 2})]
            else:
                sys.excepthook(type(e), e, None)
        exp = []
        for prio, i, last, _ in sorted(hooks, key=lambda x: (x[0], x[1])):
            exp.append(i)
            if last:
                break
        else:
            exp.append('old')
        if inp['kind'] == 'exit':
            exp = []
        assert log == exp, '%r were called instead of %r' % (log, exp)
    finally:
        eh.installed_hooks, eh.old_excepthook = saved, old


# ---- exceptions of one's own ----------------------------------------------------------------------------------------
def gen_own(rng, size):
    for args in ([], [1], ['a', None], [[1], {'k': 2}]):
        for kw in ({}, {'a': 1}, {'a': 'x', 'b': [2]}):
            yield {'args': args, 'kw': kw}


@case('own exceptions', gen_own, 'up to 2 arguments of each kind')
def own(inp):
    from satella.exceptions import CustomException

    class Mine(CustomException):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
    e = Mine(*inp['args'], **inp['kw'])
    assert list(e.args) == inp['args'] and e.kwargs == inp['kw'], 'arguments %r %r' % (e.args, e.kwargs)
    for text in (str(e), repr(e)):
        assert 'Mine(' in text and text.endswith(')'), text
        for x in inp['args']:
            assert repr(x) in text, '%r is not in %s' % (x, text)
        for k, v in inp['kw'].items():
            assert '%s=%r' % (k, v) in text, '%s=%r is not in %s' % (k, v, text)


main('C20')
