import threading
import warnings

from base import case, main
from satella.coding import get_arguments, call_with_arguments, chain_callables, chain_functions, for_argument, precondition, postcondition, attach_arguments, auto_adapt_to_methods, short_none
from satella.coding.decorators import (transform_arguments, transform_result, execute_before, replace_argument_if, copy_arguments, default_return, return_as_list,
                                       call_method_on_exception, cache_memoize, memoize, execute_if_attribute_none, execute_if_attribute_not_none, cached_property)
from satella.exceptions import PreconditionError

warnings.simplefilter('ignore')
SIGS = ['a', 'a, b', 'a, b=20', 'a=10, b=20', 'a, *args', 'a, **kwargs', 'a, *, k=30', 'a, *args, k', 'a, b=20, *args, k=30, **kwargs', 'a, /, b=20', '', '*args, **kwargs']


def make(sig):
    d = {}
    exec('def f(%s):\n    return dict(locals())' % sig, d)
    return d['f']


def outcome(f, *a, **k):
    try:
        return 'ok', f(*a, **k)
    except Exception as e:
        return 'exc', e


def gen_a(rng, size):
    for _ in range(3000 * size):
        yield {'sig': rng.choice(SIGS), 'args': [rng.randint(1, 9) for _ in range(rng.randint(0, 3))],
               'kwargs': {n: rng.randint(1, 9) for n in ('a', 'b', 'k', 'z') if rng.random() < 0.25},
               't_ops': rng.randint(0, 2), 'kw_ops': [n for n in ('a', 'b', 'k') if rng.random() < 0.3], 'returns': rng.random() < 0.3,
               'drop': rng.random() < 0.5}


@case('arguments', gen_a, '12 kinds of signatures, up to 7 arguments')
def a(inp):
    f, args, kwargs = make(inp['sig']), inp['args'], inp['kwargs']
    want = outcome(f, *args, **kwargs)
    out = outcome(get_arguments, f, *args, **kwargs)
    if want[0] == 'exc':
        assert isinstance(out[1], TypeError), out
        return
    assert out == want, 'get_arguments gave %r, it is %r' % (out, want)
    given = dict(want[1])
    if inp['drop']:
        given = {k: v for k, v in given.items() if v not in (10, 20, 30)}
    assert outcome(call_with_arguments, f, given) == want
    assert isinstance(outcome(call_with_arguments, f, dict(want[1], q=1))[1], ValueError)

    names = [n.strip().split('=')[0] for n in inp['sig'].split('*')[0].split(',') if n.strip() not in ('', '/')]
    t_ops = inp['t_ops']
    if t_ops > len(names):
        return
    ops = {n: (lambda v, i=i: ('t', i, v)) for i, n in enumerate(names[:t_ops])}
    kw = {n: (lambda v, n=n: ('k', n, v)) for n in inp['kw_ops'] if n not in ops and ('kwargs' not in inp['sig'] or n in names) and (n in inp['sig'].replace('args', ''))}
    ops.update(kw)
    if inp['returns']:
        kw = dict(kw, returns=lambda r: ('r', r))
    exp = {n: ops[n](v) if n in ops else v for n, v in want[1].items()}
    out = outcome(for_argument(*[ops[n] for n in names[:t_ops]], **kw)(f), *args, **kwargs)
    assert out == ('ok', ('r', exp) if inp['returns'] else exp), 'for_argument gave %r instead of %r' % (out, exp)
    if 'a' in want[1]:
        d = make(inp['sig'])
        out = outcome(transform_arguments(a='a * 2')(d), *args, **kwargs)
        assert out == ('ok', dict(want[1], a=want[1]['a'] * 2)), out
        out = outcome(transform_result('(x, a)')(d), *args, **kwargs)
        assert out == ('ok', (want[1], want[1]['a'])), out
        for pred in (lambda v: v > 4, lambda v: v <= 4):
            out = outcome(replace_argument_if('a', (1, 2), predicate=pred)(d), *args, **kwargs)
            assert out == ('ok', dict(want[1], a=(1, 2)) if pred(want[1]['a']) else want[1]), out
        assert outcome(replace_argument_if('a', [3], (int, str))(d), *args, **kwargs) == ('ok', dict(want[1], a=[3]))
        assert outcome(replace_argument_if('a', [3], str)(d), *args, **kwargs) == want


def gen_c(rng, size):
    for _ in range(1000 * size):
        yield {'conds': [rng.choice([None, '>', 'str', 'bad']) for _ in range(rng.randint(0, 3))], 'args': [rng.randint(0, 9) for _ in range(3)],
               'kw': rng.choice([None, 1, 7]), 'post': rng.choice(['x > 10', 'x % 2 == 0', 'fn']), 'kc': rng.choice(['s', 'fn', None])}


@case('conditions', gen_c, 'up to 3 positional conditions')
def c(inp):
    conds = {None: None, '>': lambda v: v > 4, 'str': 'x < 8', 'bad': lambda v: v + ''}
    calls = []

    def f(p, q, r, k=0):
        calls.append((p, q, r, k))
        return p + q + r + k
    kwargs = {} if inp['kw'] is None else {'k': inp['kw']}
    out = outcome(precondition(*[conds[n] for n in inp['conds']], k={None: None, 'fn': lambda v: v > 5}.get(inp.get('kc', 's'), 'x > 5'))(f), *inp['args'], **kwargs)
    holds = all({None: True, '>': v > 4, 'str': v < 8, 'bad': False}[n] for n, v in zip(inp['conds'], inp['args'])) and (inp['kw'] is None or inp['kw'] > 5 or inp.get('kc', 's') is None)
    total = sum(inp['args']) + (inp['kw'] or 0)
    if holds:
        assert out == ('ok', total) and calls == [tuple(inp['args']) + (inp['kw'] or 0,)], (out, calls)
    else:
        assert isinstance(out[1], PreconditionError) and isinstance(out[1], ValueError) and not calls, (out, calls)
    post = {'fn': lambda v: v < 15}.get(inp['post'], inp['post'])
    out = outcome(postcondition(post)(f), *inp['args'], **kwargs)
    good = {'x > 10': total > 10, 'x % 2 == 0': total % 2 == 0, 'fn': total < 15}[inp['post']]
    assert out == ('ok', total) if good else isinstance(out[1], PreconditionError), out


def gen_s(rng, size):
    for _ in range(500 * size):
        yield {'n': rng.randint(0, 5), 'ret': rng.choice([None, 0, 1, [1, 2]]), 'null': rng.random() < 0.5, 'deep': rng.random() < 0.5, 'kind': rng.randint(0, 9)}


@case('other decorators', gen_s, 'a few values of each kind')
def s(inp):
    log = []

    def f(*a, **k):
        log.append(('f', a, k))
        return inp['ret']
    g = lambda *a, **k: log.append(('g', a, k))
    before = execute_before(g)
    assert before(f)(1, k=2) == inp['ret'] and log == [('g', (), {}), ('f', (1,), {'k': 2})], log
    log.clear()
    assert before(5, j=6)(f)(1, k=2) == inp['ret'] and log == [('g', (5,), {'j': 6}), ('f', (1,), {'k': 2})], log
    log.clear()
    assert attach_arguments(3, k=4)(f)(1, k=2, l=7) == inp['ret'] and log == [('f', (1, 3), {'k': 4, 'l': 7})], log
    assert default_return(99)(f)() == (99 if inp['ret'] is None else inp['ret'])
    vals = [None if i % 2 else i for i in range(inp['n'])]
    assert return_as_list(inp['null'])(lambda: (v for v in vals))() == [v for v in vals if v is not None or not inp['null']]
    arg, karg = [[1]], {'x': [2]}

    @copy_arguments(inp['deep'])
    def change(p, k):
        p[0].append(5)
        p.append(6)
        k['x'].append(7)
        k['y'] = 8
        return p, k
    out = change(arg, k=karg)
    assert out == ([[1, 5], 6], {'x': [2, 7], 'y': 8})
    assert arg == ([[1]] if inp['deep'] else [[1, 5]]) and karg == ({'x': [2]} if inp['deep'] else {'x': [2, 7]}), (arg, karg)
    ret, exp = [((1, 2), ((1, 2), {})), ((1,), ((1,), {})), (5, ((5,), {})), ({'k': 1}, ((), {'k': 1})), (((1, 2), {'k': 3}), ((1, 2), {'k': 3})), ((), ((), {})),
                ((1, 2, 3), ((1, 2, 3), {})), ([1, 2], (([1, 2],), {})), ((1, {'k': 2}), ((1, {'k': 2}), {})), (((1,), (2,)), (((1,), (2,)), {}))][inp['kind']]
    log.clear()
    def first(*a, **k):
        assert a == (1,) and k == {'z': 2}
        return ret
    chain_functions(first)(f)(1, z=2)
    assert log == [('f',) + exp], '%r instead of %r' % (log, exp)
    assert short_none('x + 1')(None) is None and short_none(lambda v: v + 1)(3) == 4

    class O:
        def __init__(self, v):
            self.attr, self._c, self.n, self._d, self._e = v, None, 0, None, 'unset'

        @execute_if_attribute_none('attr')
        def none(self, q):
            return q

        @execute_if_attribute_not_none('attr')
        def some(self, q):
            return q

        @cached_property('_d')
        def d(self, *a, **k):
            self.n += 100
            return a, k

        @cached_property('_e', 'unset')
        def e(self):
            self.n += 1000
            return None

        @property
        @cached_property('_c')
        def c(self):
            self.n += 1
            return [self.n]

        @call_method_on_exception((KeyError, ValueError), 'other', 3, j=4)
        def do(self, e, **kw):
            if e is not None:
                raise e
            return 'done'

        def other(self, *a, **k):
            return a, k
    o = O(inp['ret'])
    assert o.none(5) == (5 if inp['ret'] is None else None) and o.some(5) == (None if inp['ret'] is None else 5)
    assert o.c is o.c and o.n == 1
    assert o.d(1, k=2) == ((1,), {'k': 2}) and o.d(3) == ((1,), {'k': 2}) and o.n == 101 and o.e() is None and o.e() is None and o.n == 1101
    assert o.do(None) == 'done' and o.do(KeyError()) == ((3,), {'j': 4}) == o.do(UnicodeError())
    assert isinstance(outcome(o.do, TypeError())[1], TypeError)
    seen = []

    def second(v):
        seen.append(v)
        raise TypeError('second() takes 0 positional arguments but 1 was given')
    assert isinstance(outcome(chain_callables(lambda: 1, second))[1], TypeError) and seen == [1]
    assert chain_callables(lambda q: q, lambda: 7)(1) == 7 and chain_callables(lambda q: q, lambda v: v + 1)(q=1) == 2

    @auto_adapt_to_methods
    def twice(fun):
        return lambda v: fun(v * 2)

    class M:
        @twice
        def m(self, v):
            assert isinstance(self, M)
            return v + 1
    assert M().m(2) == 5 and twice(lambda v: v)(2) == 4


def gen_m(rng, size):
    for _ in range(500 * size):
        yield {'ops': [[rng.choice(['call', 'call', 'tick', 'fail']), rng.randint(0, 2), rng.choice([None, 0, 1]), rng.randint(1, 4)] for _ in range(rng.randint(2, 12))],
               'timed': rng.random() < 0.6}


@case('memoizing', gen_m, 'up to 12 calls')
def m(inp):
    now, n, fail = [0], [0], [False]

    def f(p, k=None):
        n[0] += 1
        if fail[0]:
            raise KeyError()
        return p, k, n[0]
    g = cache_memoize(3, lambda: now[0])(f) if inp['timed'] else memoize(f)
    model = {}
    for op, p, k, t in inp['ops']:
        if op == 'tick':
            now[0] += t
            continue
        if not inp['timed']:
            k = None
        fail[0] = op == 'fail'
        was = n[0]
        out = outcome(lambda: g(p) if k is None else g(p, k=k))
        have = model.get((p, k))
        if have is not None and (not inp['timed'] or now[0] - have[0] <= 3):
            assert out == ('ok', have[1]) and n[0] == was, 'gave %r instead of the memoized %r' % (out, have[1])
        else:
            assert n[0] == was + 1, 'not computed'
            if fail[0]:
                assert isinstance(out[1], KeyError)
            else:
                assert out == ('ok', (p, k, n[0])), out
                model[p, k] = now[0], out[1]


def gen_k(rng, size):
    yield {'threads': 2}


@case('two threads that memoize at once', gen_k, '2 threads')
def k(inp):
    inside, most = [0], [0]
    ready = threading.Event()

    @memoize
    def f(p):
        inside[0] += 1
        most[0] = max(most[0], inside[0])
        if p == 0:
            ready.set()
            threading.Event().wait(0.3)
        inside[0] -= 1
    t = threading.Thread(target=f, args=(0,))
    t.start()
    ready.wait(5)
    f(1)
    t.join()
    assert most[0] == 1, 'the function ran in %d threads at once' % most[0]


main('C21')
