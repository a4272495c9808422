import asyncio
import copy
import math
import operator
import pickle

from base import case, main
from satella.coding.optionals import Optional, call_if_nnone, extract_optional, iterate_if_nnone
from satella.coding.structures import Proxy, HashableWrapper, PushIterable, Vector, SetZip

VALS = ['3', '0', '-7', '2.5', '-0.5', '[1, 2]', '(1, 2, 3)', '{1, 2}', '{"a": 1}', '"ab%s"', 'True', 'None', '1j', 'frozenset([1])', '0.1', '10**20']
BIN = ['add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow', 'lshift', 'rshift', 'and_', 'or_', 'xor', 'matmul', 'eq', 'ne', 'lt', 'le', 'gt', 'ge']
INP = ['iadd', 'isub', 'imul', 'itruediv', 'ifloordiv', 'imod', 'ipow', 'ilshift', 'irshift', 'iand', 'ior', 'ixor', 'imatmul']
UN = {'neg': operator.neg, 'pos': operator.pos, 'invert': operator.invert, 'abs': abs, 'len': len, 'bool': bool, 'int': int, 'float': float,
      'complex': complex, 'str': str, 'repr': repr, 'hash': hash, 'round': round, 'round1': lambda x: round(x, 1), 'trunc': math.trunc,
      'floor': math.floor, 'ceil': math.ceil, 'index': operator.index, 'iter': lambda x: list(iter(x)), 'rev': lambda x: list(reversed(x)),
      'in': lambda x: 1 in x, 'get0': lambda x: x[0], 'dir': dir, 'fmt': lambda x: format(x, ''), 'hex': hex, 'oct': oct,
      'pow3': lambda x: pow(x, 2, 5), 'dm': lambda x: divmod(x, 2), 'rdm': lambda x: divmod(17, x), 'range': lambda x: list(range(abs(x) % 5))}
WRAPPED = {'neg', 'pos', 'invert', 'abs', 'round', 'round1', 'trunc', 'floor', 'ceil', 'pow3', 'add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow',
           'lshift', 'rshift', 'and_', 'or_', 'xor', 'matmul'}


def attempt(f, *a):
    try:
        return 'ok', f(*a)
    except Exception as e:
        return 'exc', None


def raw(p):
    return getattr(p, '_Proxy__obj')


def same(r, e, what):
    if e[0] == 'exc':
        assert r[0] == 'exc', '%s: %r where the object fails' % (what, r[1])
        return
    assert r[0] == 'ok', '%s fails where the object gives %r' % (what, e[1])
    assert type(r[1]) is type(e[1]) and (r[1] == e[1] or r[1] != r[1]), '%s gives %r, the object gives %r' % (what, r[1], e[1])


def gen(rng, size):
    for v in VALS:
        for n in UN:
            yield {'v': v, 'op': n, 'w': '1', 'wrap': False}
            yield {'v': v, 'op': n, 'w': '1', 'wrap': True}
        for w in VALS:
            for n in BIN + INP:
                if n in ('pow', 'lshift', 'ipow', 'ilshift') and ('10**20' in (v, w)):
                    continue
                yield {'v': v, 'op': n, 'w': w, 'wrap': False}
                if n in WRAPPED:
                    yield {'v': v, 'op': n, 'w': w, 'wrap': True}
                    yield {'v': v, 'op': 'r' + n, 'w': w, 'wrap': True}
                    yield {'v': v, 'op': 'r' + n, 'w': w, 'wrap': False}


@case('operators of proxies', gen, 'all pairs of 16 values and 60 operations')
def run(inp):
    v, w = eval(inp['v']), eval(inp['w'])
    op = inp['op']
    p = Proxy(v, inp['wrap'])
    if op in UN:
        f = UN[op]
        e, r = attempt(f, v), attempt(f, p)
    elif op in INP:
        f = getattr(operator, op)
        vv = eval(inp['v'])
        e = attempt(f, vv, w)
        r = attempt(f, p, w)
        if e[0] == 'ok':
            assert r[0] == 'ok' and r[1] is p, '%s does not give the proxy itself' % op
            r = ('ok', raw(p))
        same(r, e, op)
        return
    elif op[0] == 'r' and op[1:] in BIN:
        f = getattr(operator, op[1:])
        e, r = attempt(f, w, v), attempt(f, w, p)
        op = op[1:]
        if isinstance(w, str) and op == 'mod':
            return      # formatting of the proxy by the string itself
    else:
        f = getattr(operator, op)
        e, r = attempt(f, v, w), attempt(f, p, w)
    if inp['wrap'] and op in WRAPPED and e[0] == 'ok':
        assert r[0] == 'ok' and type(r[1]) is Proxy, '%s gives %r, not a proxy' % (op, r[1])
        r = ('ok', raw(r[1]))
    same(r, e, op)
    assert raw(p) is v, 'the proxy changed its object'


def gen_m(rng, size):
    for _ in range(300 * size):
        yield {'ops': [[rng.choice(['set', 'get', 'del', 'setitem', 'delitem', 'call', 'with']), rng.choice(['a', 'b'])] for _ in range(rng.randint(1, 8))]}


class T(dict):
    def __call__(self, *a, **k):
        return a, k

    def __enter__(self):
        self['in'] = 1
        return 'entered'

    def __exit__(self, *a):
        self['in'] = a[0]
        return True

    def __await__(self):
        yield from ()
        return 'awaited'


@case('attributes, items and calls of proxies', gen_m, 'up to 8 operations')
def attrs(inp):
    o, m = T(), T()
    p = Proxy(o)
    for op, n in inp['ops']:
        if op == 'set':
            setattr(p, n, n)
            setattr(m, n, n)
        elif op == 'get':
            assert attempt(getattr, p, n) == attempt(getattr, m, n)
        elif op == 'del':
            assert attempt(delattr, p, n) == attempt(delattr, m, n)
        elif op == 'setitem':
            p[n] = m[n] = 5
        elif op == 'delitem':
            assert attempt(operator.delitem, p, n) == attempt(operator.delitem, m, n)
        elif op == 'call':
            assert p(1, n, k=n) == m(1, n, k=n)
        else:
            with p as x:
                assert x == 'entered'
                m['in'] = ValueError
                raise ValueError()
        assert o == m and vars(o) == vars(m), '%r %r, expected %r %r' % (o, vars(o), m, vars(m))
    for how in (copy.copy, copy.deepcopy, lambda p: pickle.loads(pickle.dumps(p))):
        c = how(p)
        assert type(c) is Proxy and c == o and (raw(c) is o) == (how is copy.copy), 'a copy is %r' % (c, )
        assert vars(raw(c)) == vars(o)
    assert asyncio.run(_aw(p)) == 'awaited'


async def _aw(p):
    return await p


class Res:
    """what a recording object gives"""

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Res) and self.n == o.n

    def __hash__(self):
        return 0


BIN2 = [n.strip('_') for n in BIN if n not in ('eq', 'ne', 'lt', 'le', 'gt', 'ge')]
KNOWN = {'len': 5, 'hash': 8, 'int': 4, 'index': 4, 'float': 2.5, 'complex': 1j, 'str': 's', 'repr': 'r', 'bool': False, 'contains': True,
         'length_hint': 6, 'format': 'f', 'iter': iter([]), 'reversed': iter([]), 'dir': ['a']}
ONE = {'len': len, 'hash': hash, 'int': int, 'index': operator.index, 'float': float, 'complex': complex, 'str': str, 'repr': repr, 'bool': bool,
       'contains': lambda p: 3 in p, 'length_hint': operator.length_hint, 'format': lambda p: format(p, 'spec'), 'iter': iter, 'reversed': reversed,
       'neg': operator.neg, 'pos': operator.pos, 'invert': operator.invert, 'abs': abs, 'round': round, 'trunc': math.trunc, 'floor': math.floor,
       'ceil': math.ceil, 'next': next, 'divmod': lambda p: divmod(p, 3), 'rdivmod': lambda p: divmod(3, p), 'getitem': lambda p: p[3],
       'call': lambda p: p(3, x=4), 'enter': lambda p: p.__enter__(), 'exit': lambda p: p.__exit__(None, None, None),
       'aenter': lambda p: p.__aenter__(), 'aexit': lambda p: p.__aexit__(1, 2, 3), 'aiter': lambda p: p.__aiter__(), 'await': lambda p: p.__await__(),
       'setitem': lambda p: p.__setitem__(3, 4), 'delitem': lambda p: p.__delitem__(3)}
for _n in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
    ONE[_n] = lambda p, f=getattr(operator, _n): f(p, 3)
for _n in BIN2:
    _f = getattr(operator, _n + '_' if _n in ('and', 'or') else _n)
    ONE[_n] = lambda p, f=_f: f(p, 3)
    ONE['r' + _n] = lambda p, f=_f: f(3, p)
    ONE['i' + _n] = lambda p, f=getattr(operator, 'i' + _n): f(p, 3)


def recorder(name, log, fails):
    """an object with nothing but this method"""
    def f(self, *a, **k):
        log.append([repr(a), repr(k)])
        if fails:
            raise LookupError(name)
        return KNOWN.get(name, Res(name))
    return type('Rec', (), {'__%s__' % name: f})()


def gen_rec(rng, size):
    for n in ONE:
        for wrap in (False, True):
            for fails in (False, True):
                yield {'op': n, 'wrap': wrap, 'fails': fails}


@case('every operation is performed once', gen_rec, 'all operations on objects that know nothing else')
def rec(inp):
    op = inp['op']
    res = []
    for k in range(2):
        log = []
        v = recorder(op, log, inp['fails'])
        p = Proxy(v, inp['wrap']) if k else v
        try:
            r = ONE[op](p)
            if k and op[0] == 'i' and op[1:] in BIN2:
                assert r is p, 'an in-place operation gives %r' % (r,)
                r = raw(p)
            elif k and inp['wrap'] and type(r) is Proxy:
                assert op.lstrip('r') in WRAPPED or op in WRAPPED or op[0] == 'r' and op[1:] in BIN2 or op in BIN2, 'wrapped'
                r = raw(r)
            elif k:
                assert type(r) is not Proxy, 'wrapped although that was not asked for'
        except LookupError as e:
            assert inp['fails'] and e.args == (op, )
            r = LookupError
        res.append([r, log])
    (e, elog), (r, log) = res
    assert e is r or e == r or op in ('setitem', 'delitem'), '%s gives %r, the object gives %r' % (op, r, e)
    assert log == elog or op in ('pow', 'round') and len(log) == len(elog), '%s is performed as %r instead of %r' % (op, log, elog)


def gen_opt(rng, size):
    for v in ['None', '5', '0', '[1, 2]', '[]', '{1: 2}', '"abc"', 'T(a=1)']:
        for w in ['0', '1', '5', '[1, 2]', '"a"', 'None', '-1', 'opt']:
            yield {'v': v, 'w': w}


@case('optionals', gen_opt, 'all pairs of 8 values')
def opt(inp):
    v = eval(inp['v'])
    twin = eval(inp['v'])
    o = Optional(v)
    w = Optional(eval(inp['v'])) if inp['w'] == 'opt' else eval(inp['w'])
    empty = lambda x: type(x) is Optional and extract_optional(x) is None
    for name, f in (('eq', lambda p: p == w), ('lt', lambda p: p < w), ('le', lambda p: p <= w), ('gt', lambda p: p > w), ('ge', lambda p: p >= w),
                    ('bool', bool), ('len', len), ('in', lambda p: w in p), ('call', lambda p: p(w, k=2)), ('getitem', lambda p: p[w]),
                    ('get', lambda p: p.keys), ('missing', lambda p: p.missing), ('set', lambda p: operator.setitem(p, w, 7)),
                    ('del', lambda p: operator.delitem(p, w)), ('dict', dict)):
        if v is None and name == 'dict':
            continue
        r = attempt(f, o)
        if v is None:
            assert r[0] == 'ok', '%s of nothing fails' % name
            if name in ('call', 'getitem', 'get', 'missing'):
                assert empty(r[1]), '%s of nothing gives %r' % (name, r[1])
            elif name in ('set', 'del'):
                assert r[1] is None
            else:
                assert r[1] is (0 if name == 'len' else False), '%s of nothing gives %r' % (name, r[1])
        else:
            e = attempt(f, twin)
            assert r[0] == e[0] and (r[1] == e[1] or callable(e[1])), '%s gives %r, the object gives %r' % (name, r, e)
        assert extract_optional(o) is v and v == twin, 'the wrapped object is %r' % (extract_optional(o), )
    for how in (copy.copy, copy.deepcopy):
        c = how(Optional(v)) if not isinstance(v, (list, dict)) else o
        assert type(c) is Optional and extract_optional(c) == v
    assert extract_optional(v) is v
    assert list(iterate_if_nnone(v if v is None or hasattr(v, '__len__') else [v])) == ([] if v is None else list(v) if hasattr(v, '__len__') else [v])
    f = None if v is None else lambda *a, **k: (a, k)
    assert call_if_nnone(f, 1, k=2) == (None if v is None else ((1, ), {'k': 2}))


def gen_h(rng, size):
    yield {}


@case('hashable wrappers', gen_h, 'one run')
def hw(inp):
    x, y = [1], [1]
    a, b, c = HashableWrapper(x), HashableWrapper(x), HashableWrapper(y)
    assert a == b and not (a != b) and hash(a) == hash(b)
    assert not (a == c) and a != c
    assert a == x and a != y and len({a, b, c}) == 2


def gen_p(rng, size):
    for _ in range(500 * size):
        yield {'src': [rng.randint(0, 9) for _ in range(rng.randint(0, 4))],
               'ops': [rng.choice(['pop', 'pop', 'next', 'push', 'left']) for _ in range(rng.randint(1, 12))]}


@case('iterables that can be pushed to', gen_p, 'up to 12 operations')
def pi(inp):
    p = PushIterable(inp['src'])
    src, st = list(inp['src']), []
    for i, op in enumerate(inp['ops']):
        if op == 'push':
            p.push(100 + i)
            st.append(100 + i)
        elif op == 'left':
            p.push_left(100 + i)
            st.insert(0, 100 + i)
        else:
            try:
                v = p.pop() if op == 'pop' else next(p)
            except StopIteration:
                v = None
            e = st.pop() if st else src.pop(0) if src else None
            assert v == e, '%r, expected %r' % (v, e)


def gen_v(rng, size):
    for _ in range(500 * size):
        n = rng.randint(0, 4)
        yield {'a': [rng.randint(-5, 5) for _ in range(n)], 'b': [rng.randint(-5, 5) for _ in range(n)], 'k': rng.choice([2, 3, .5, -1])}


@case('vectors and zipped sets', gen_v, 'up to 4 entries')
def vec(inp):
    a, b, k = Vector(inp['a']), Vector(inp['b']), inp['k']
    for f, e in ((a + b, [x + y for x, y in zip(a, b)]), (a - b, [x - y for x, y in zip(a, b)]), (a * k, [x * k for x in a]), (a / k, [x / k for x in a])):
        assert type(f) is Vector and list(f) == e, '%r, expected %r' % (f, e)
    c = a
    c += b
    assert type(c) is Vector and list(c) == [x + y for x, y in zip(a, b)]
    c = a
    c -= b
    assert list(c) == [x - y for x, y in zip(a, b)]
    c = a
    c *= k
    assert list(c) == [x * k for x in a]
    c = a
    c /= k
    assert list(c) == [x / k for x in a]
    z = SetZip(set(inp['a']))
    z += set(inp['b'])
    assert sorted(z) == sorted(list(set(inp['a'])) + list(set(inp['b']))) and len(z) == len(list(z))
    for i in range(-6, 7):
        assert (i in z) is (i in inp['a'] or i in inp['b'])


if __name__ == '__main__':
    main('C13')
