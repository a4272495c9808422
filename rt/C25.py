import collections
import copy
import enum
import itertools
import json
import math
from fractions import Fraction as F

from base import case, main
from satella.coding import Inequal, InequalityReason, assert_equal, contains, enum_value, length, merge_dicts, update_attr_if_none, update_key_if_none, \
    update_key_if_not_none, update_key_if_true
from satella.coding import transforms as T
from satella.json import JSONAble


class Boom(Exception):
    pass


def outcome(f, *a, **k):
    try:
        return 'ok', f(*a, **k)
    except Exception as e:
        return 'exc', type(e)


# ---- time series and sorted lists -----------------------------------------------------------------------------------
class Counted:
    """an iterator that knows how much was taken from it"""

    def __init__(self, data):
        self.it, self.taken = iter(data), 0

    def __iter__(self):
        return self

    def __next__(self):
        v = next(self.it)
        self.taken += 1
        return v


def gen_merge(rng, size):
    for _ in range(1500 * size):
        yield {'lists': [sorted(rng.choices(range(8), k=rng.randint(0, 6))) for _ in range(rng.randint(0, 4))], 'lazy': rng.random() < .5}


@case('merging sorted lists', gen_merge, 'up to 4 lists of up to 6 elements')
def merge_list(inp):
    lists = [[(k, [[k, i, j]]) for j, k in enumerate(x)] for i, x in enumerate(inp['lists'])]
    its = [Counted(x) if inp['lazy'] else list(x) for x in lists]
    calls = []

    def fun(a, b):
        assert a[0][0] == b[0][0], 'values of different keys are merged'
        calls.append(1)
        return a + b
    want = {}
    for k, v in sorted((e for x in lists for e in x), key=lambda e: e[0]):
        want.setdefault(k, []).extend(v)
    m = T.merge_list(*its, merge_function=fun)
    assert iter(m) is m
    got = []
    for k, v in m:
        got.append(k)
        assert sorted(v) == sorted(want.get(k, [])), 'key %r has %r instead of %r' % (k, v, want.get(k))
        if inp['lazy']:
            for x, it in zip(lists, its):
                assert it.taken <= len([e for e in x if e[0] <= k]) + 2, 'elements are taken before they are needed'
    assert got == list(want), 'keys %r instead of %r' % (got, list(want))
    assert len(calls) == sum(len(v) - 1 for v in want.values())
    for _ in range(2):
        assert outcome(next, m) == ('exc', StopIteration)


def gen_series(rng, size):
    for _ in range(1500 * size):
        yield {'series': [sorted(rng.sample(range(12), rng.randint(1, 6))) for _ in range(rng.randint(1, 4))], 'iter': rng.random() < .5}


@case('merging time series', gen_series, 'up to 4 series of up to 6 entries')
def merge_series(inp):
    series = [[(t, {i: t}) for t in ts] for i, ts in enumerate(inp['series'])]
    start = max(ts[0] for ts in inp['series'])
    want = []
    for t in sorted({t for ts in inp['series'] for t in ts if t >= start}):
        want.append((t, ) + tuple([v for k, v in s if k <= t][-1] for s in series))
    got = list(T.merge_series(*[iter(s) if inp['iter'] else list(s) for s in series]))
    assert got == want, '%r instead of %r' % (got, want)


def gen_interp(rng, size):
    for _ in range(1500 * size):
        ts = sorted(rng.sample(range(0, 20), rng.randint(1, 6)))
        yield {'s': [[t, rng.randint(-9, 9)] for t in ts], 't': rng.choice(ts + [rng.randint(-2, 22), rng.randint(-4, 44) / 2]), 'clip': rng.random() < .5, 'p': rng.randint(0, 12)}


@case('interpolating, percentiles and clipping', gen_interp, 'series of up to 6 points')
def interp(inp):
    s = [(F(a), F(b)) for a, b in inp['s']]
    t = F(inp['t'])
    before = list(s)
    r = outcome(T.linear_interpolate, s, t, inp['clip']) if inp['clip'] else outcome(T.linear_interpolate, s, t)
    assert s == before
    if t < s[0][0] or t > s[-1][0]:
        want = ('ok', s[0][1] if t < s[0][0] else s[-1][1]) if inp['clip'] else ('exc', ValueError)
    else:
        want = [('ok', v) for k, v in s if k == t]
        if want:
            want = want[0]
        else:
            a = [e for e in s if e[0] < t][-1]
            b = [e for e in s if e[0] > t][0]
            want = ('ok', a[1] + (b[1] - a[1]) * (t - a[0]) / (b[0] - a[0]))
    assert r == want, '%r at %s gives %r instead of %r' % (s, t, r, want)
    vals = sorted(v for _, v in s)
    p = F(inp['p'], 12)
    k = (len(vals) - 1) * p
    lo = vals[math.floor(k)]
    hi = vals[math.ceil(k)]
    want = lo + (hi - lo) * (k - math.floor(k))
    assert T.percentile(vals, p) == want, 'percentile %s of %r is %r instead of %r' % (p, vals, T.percentile(vals, p), want)
    assert abs(T.percentile([float(v) for v in vals], float(p)) - float(want)) < 1e-9
    a, b = min(vals), max(vals)
    v = T.clip(t, a, b)
    assert v == (a if t < a else b if t > b else t), 'clipped to %r' % v


# ---- conversions ----------------------------------------------------------------------------------------------------
class Colour(enum.Enum):
    RED = 'red'
    BLUE = 2
    PAIR = (1, 'x')


class Number(enum.IntEnum):
    ONE = 1


class Able(JSONAble):
    def __init__(self, v):
        self.v = v

    def to_json(self):
        return {'able': self.v}


class Plain:
    def __init__(self, fails):
        self.fails = fails

    def __str__(self):
        if self.fails:
            raise Boom
        return 'text'

    def __repr__(self):
        return 'represented'


def make(spec):
    """-> (object, what jsonify gives, what stringify gives)"""
    k, a = spec[0], spec[1:]
    if k == 'list' or k == 'tuple' or k == 'gen' or k == 'set':
        if k == 'set':
            a = [['int', 7]]
        els = [make(x) for x in a]
        o = [e[0] for e in els]
        return {'list': list, 'tuple': tuple, 'gen': iter, 'set': set}[k](o), [e[1] for e in els], [e[2] for e in els] if k in ('list', 'tuple') else None
    if k == 'dict':
        els = [(key(i, x), make(y)) for i, (x, y) in enumerate(a)]
        return {x[0]: y[0] for x, y in els}, {x[1]: y[1] for x, y in els}, {x[2]: y[2] for x, y in els}
    if k == 'able':
        o, j, s = make(a[0])
        return Able(o), {'able': j}, 'ignored'
    return {'int': (a[0], a[0], str(a[0])), 'str': ('s%s' % a[0], ) * 3, 'float': (a[0] + .5, a[0] + .5, str(a[0] + .5)), 'none': (None, None, None),
            'bool': (True, True, 'True'), 'enum': (Colour.RED, 'red', 'RED'), 'enum2': (Colour.BLUE, 2, 'BLUE'), 'enum3': (Colour.PAIR, [1, 'x'], 'PAIR'),
            'ienum': (Number.ONE, 1, 'ONE'), 'plain': (Plain(False), 'text', 'text'), 'failing': (Plain(True), 'represented', None)}[k]


def key(i, k):
    return {'int': (i, i, str(i)), 'str': ('k%d' % i, ) * 3, 'tuple': ((i, i), str((i, i)), None), 'enum': (Colour.RED, 'red', 'RED'), 'none': (None, None, None)}[k]


ATOMS = ['int', 'str', 'float', 'none', 'bool', 'enum', 'enum2', 'ienum', 'plain']


def spec(rng, depth, more):
    k = rng.choice(ATOMS + more) if depth == 0 or rng.random() < .3 else rng.choice(['list', 'tuple', 'dict'] + (['gen', 'set', 'able'] if more else []))
    if k in ('list', 'tuple', 'gen'):
        return [k] + [spec(rng, depth - 1, more) for _ in range(rng.randint(0, 3))]
    if k == 'dict':
        ks = [rng.choice(['int', 'str'] + (['tuple'] if more else [])) for _ in range(rng.randint(0, 3))] + (['enum'] if rng.random() < .3 else [])
        return [k] + [[x, spec(rng, depth - 1, more)] for x in ks]
    if k == 'able':
        return [k, spec(rng, depth - 1, more)]
    return [k, rng.randint(-3, 9)]


def gen_conv(rng, size):
    for _ in range(1500 * size):
        yield {'json': spec(rng, rng.randint(0, 3), ['enum3', 'failing']), 'str': spec(rng, rng.randint(0, 3), []), 'none': rng.random() < .5}


def same(a, b):
    """equal, and of the same types"""
    if isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(map(same, a, b))
    if isinstance(b, dict):
        return type(a) is dict and list(a) == list(b) and all(same(a[k], b[k]) for k in b)
    return a == b and isinstance(a, bool) == isinstance(b, bool)


def nones(x, s):
    if x is None:
        return s
    if isinstance(x, list):
        return [nones(e, s) for e in x]
    return {k: nones(v, s) for k, v in x.items()} if isinstance(x, dict) else x


@case('conversions', gen_conv, 'structures of depth up to 3')
def conv(inp):
    o, want, _ = make(inp['json'])
    got = T.jsonify(o)
    assert same(got, want), '%r instead of %r' % (got, want)
    json.dumps(got)
    o, _, want = make(inp['str'])
    before = repr(o)
    got = T.stringify(o, recursively=True, str_none=inp['none'])
    want = nones(want, 'None' if inp['none'] else None)
    assert same(got, want), '%r instead of %r' % (got, want)
    assert repr(o) == before
    got = T.stringify(o, lambda x: '<%s>' % (x, ), recursively=True, str_none=True)

    def mark(x):
        if isinstance(x, (str, enum.Enum)):
            return x if isinstance(x, str) else x.name
        if isinstance(x, (list, tuple)):
            return [mark(e) for e in x]
        if isinstance(x, dict):
            return {mark(k): mark(v) for k, v in x.items()}
        return '<%s>' % (x, )
    assert same(got, mark(o)), '%r instead of %r' % (got, mark(o))


def gen_int(rng, size):
    for v in ['None', '5', '-3', '2.7', '-2.7', '"12"', '"-4"', '"abc"', '""', '[]', '[1, 2]', '{1: 2}', '(1, )', '{1, 2}', 'True', 'object()', 'float("inf")', 'float("nan")',
              'b"7"', 'b"ab"', '10**20', 'range(4)', 'Colour.RED', 'Number.ONE', 'iter([])', 'Plain(False)', '0', '0.0', '{}', 'F(7, 2)', '1j', '[None]', '[[]]', '()', '" "']:
        yield {'v': v}


@case('single values', gen_int, 'some 35 values')
def ints(inp):
    v = eval(inp['v'])
    try:
        want = ('ok', 0 if v is None else int(v))
    except (TypeError, ValueError, OverflowError):
        try:
            want = ('ok', len(v))
        except TypeError:
            want = ('exc', ValueError)
    got = outcome(T.intify, v)
    assert got == want and type(got[1]) is type(want[1]), '%r instead of %r' % (got, want)
    assert T.none_if_false(v) is (v if v else None), 'none_if_false'
    assert enum_value(v) is (v.value if isinstance(v, enum.Enum) else v), 'enum_value'
    if inp['v'] not in ('iter([])', ):
        assert outcome(length, v) == (('ok', len(v)) if hasattr(v, '__len__') else ('exc', TypeError)), 'length'


# ---- sequences ------------------------------------------------------------------------------------------------------
def gen_seq(rng, size):
    for _ in range(1500 * size):
        yield {'x': [rng.randint(0, 6) for _ in range(rng.randint(0, 9))], 'm': rng.randint(1, 5), 'with': rng.choice([None, 0, 9, 'f', 'both']), 'kind': rng.choice(['list', 'tuple', 'iter']),
               'cut': rng.randint(0, 6), 'front': rng.choice([None, True, False])}


@case('padding, shuffling and numbering', gen_seq, 'up to 9 elements')
def seqs(inp):
    x, m, w = inp['x'], inp['m'], inp['with']
    src = {'list': list, 'tuple': tuple, 'iter': iter}[inp['kind']](x)
    n = []

    def factory():
        n.append(1)
        return len(n)
    more = -len(x) % m
    if w == 'both':
        assert outcome(T.pad_to_multiple_of_length, src, m, 0, factory) == ('exc', ValueError), 'both'
    else:
        got = T.pad_to_multiple_of_length(src, m, pad_with_factory=factory) if w == 'f' else T.pad_to_multiple_of_length(src, m, w)
        want = x + (list(range(1, more + 1)) if w == 'f' else [w] * more)
        assert list(got) == want, '%r instead of %r' % (got, want)
        assert len(n) == (more if w == 'f' else 0)
    assert inp['kind'] == 'iter' or list(src) == x or inp['kind'] == 'list' and src[:len(x)] == x
    assert list(T.one_tuple(iter(x))) == [(v, ) for v in x]
    before = list(x)
    pred = lambda v: v < inp['cut']
    got = T.split_shuffle_and_join(x, pred) if inp['front'] is None else T.split_shuffle_and_join(x, pred, inp['front'])
    assert x == before
    stay = [v for v in x if not pred(v)]
    k = len(x) - len(stay)
    part, moved = (got[k:], got[:k]) if inp['front'] is False else (got[:len(stay)], got[len(stay):])
    assert part == stay and sorted(moved) == sorted(v for v in x if pred(v)), 'split into %r and %r' % (part, moved)
    assert sorted(T.split_shuffle_and_join(x)) == sorted(x)
    r = outcome(T.list_values_to_indices, x)
    want = ('ok', {v: i for i, v in enumerate(x)}) if len(set(x)) == len(x) else ('exc', ValueError)
    assert r == want, '%r instead of %r' % (r, want)
    h = T.hashables_to_int(x)
    assert set(h) == set(x) and sorted(h.values()) == list(range(len(set(x)))), h
    assert contains(m, x) is (m in x) and length(v for v in x) == len(x) == length(x)
    assert T.b64encode(bytes(x)) == __import__('base64').b64encode(bytes(x)).decode()


# ---- dictionaries ---------------------------------------------------------------------------------------------------
def nested(rng, depth):
    r = rng.random()
    if depth == 0 or r < .3:
        return rng.choice([0, 1, 'a', None, 2.5])
    if r < .5:
        return [nested(rng, depth - 1) for _ in range(rng.randint(0, 3))]
    return {k: nested(rng, depth - 1) for k in rng.sample('abcd', rng.randint(0, 4))}


def gen_dict(rng, size):
    for _ in range(2000 * size):
        a, b = nested(rng, 3), nested(rng, 3)
        if rng.random() < .4:
            b = copy.deepcopy(a)
            if rng.random() < .5:
                # one change
                x = b
                while isinstance(x, (list, dict)) and x:
                    k = rng.randrange(len(x)) if isinstance(x, list) else rng.choice(sorted(x))
                    if not isinstance(x[k], (list, dict)) or rng.random() < .3:
                        x[k] = 'changed'
                        break
                    x = x[k]
        yield {'a': a, 'b': b, 'd': {k: rng.choice([None, 0, 1]) for k in rng.sample('abcd', rng.randint(0, 4))}, 'e': {k: rng.choice([None, 0, 1]) for k in rng.sample('abcd', rng.randint(0, 4))},
               'keys': rng.choices('abcd', k=rng.randint(0, 4)), 'k': rng.choice('abcd'), 'v': rng.choice([None, 0, 1, False, '']), 'flags': [rng.random() < .5 for _ in range(3)]}


def merged(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        r = {k: merged(v, b[k]) if k in b else v for k, v in a.items()}
        r.update({k: v for k, v in b.items() if k not in a})
        return r
    return a + b if isinstance(a, list) and isinstance(b, list) else b


def difference(a, b):
    """the first difference"""
    if isinstance(a, list) and isinstance(b, list) or isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return a, b, InequalityReason.LENGTH_MISMATCH
        for k in range(len(a)) if isinstance(a, list) else a:
            if isinstance(a, dict) and k not in b:
                return k, None, InequalityReason.KEY_NOT_FOUND
            d = difference(a[k], b[k])
            if d:
                return d
        return None
    return None if a == b else (a, b, InequalityReason.NOT_EQUAL)


class Attrs:
    pass


@case('dictionaries and comparing', gen_dict, 'structures of depth up to 3')
def dicts(inp):
    a, b, d, e, k, v = (inp[n] for n in 'abdekv')
    want = difference(a, b)
    try:
        assert_equal(a, b)
        assert want is None, 'unequal objects are reported equal'
    except Inequal as x:
        assert want is not None and (x.obj1, x.obj2, x.reason) == want, 'reported %r %r %r instead of %r' % (x.obj1, x.obj2, x.reason, want)
    s, t = set(map(str, d)), frozenset(map(str, e))
    r = outcome(assert_equal, s, t)
    assert r == (('ok', None) if s == t else ('exc', Inequal))
    want = merged(copy.deepcopy(a), copy.deepcopy(b))
    b0, a0 = copy.deepcopy(b), copy.deepcopy(a)
    got = merge_dicts(a, b)
    assert got == want and str(got) == str(want), '%r instead of %r' % (got, want)
    assert b == b0, 'the second argument was changed'
    if isinstance(a, (dict, list)) and type(a) is type(b):
        assert got is a, 'the first is not updated in place'
    else:
        assert a == a0
    assert T.is_subset(d, e) is all(x in e and e[x] == d[x] for x in d), 'subset'
    f, g = inp['flags'][:2]
    boom = lambda x: (x, 'm')
    kw = dict([('map_through', boom)] * f + [('raise_if_not_found', False)] * g)
    it = T.unpack_dict(d, *inp['keys'], **kw)
    for x in inp['keys']:
        if x in d:
            want = ('ok', boom(d[x]) if f else d[x])
        else:
            want = ('ok', None) if g else ('exc', KeyError)
        got = outcome(next, it)
        assert got == want, 'key %r gives %r instead of %r' % (x, got, want)
        if want[0] == 'exc':
            break
    else:
        assert outcome(next, it) == ('exc', StopIteration)
    base = copy.deepcopy(d)

    def mk():
        d.clear()
        d.update(base)
    for name, fun, cond in (('not none', lambda: update_key_if_not_none(d, k, v), v is not None), ('none', lambda: update_key_if_none(d, k, v), v is not None),
                            ('true', lambda: update_key_if_true(d, k, v), bool(v)), ('flag', lambda: update_key_if_true(d, k, v, f), f)):
        mk()
        assert fun() is d and d == (dict(base, **{k: v}) if cond else base), 'update if %s: %r' % (name, d)
    mk()
    assert update_key_if_not_none(d, e) is d and d == dict(base, **{x: y for x, y in e.items() if y is not None}), 'update of many'
    o, had = Attrs(), inp['flags'][2]
    if had:
        o.x = e.get('a')
    got = outcome(update_attr_if_none, o, 'x', v, on_attribute_error=f, if_value_is_not_none=g)
    old = {'x': e.get('a')} if had else {}
    if g:
        want = dict(old, x=v) if v is not None else old
    elif had:
        want = {'x': v} if old['x'] is None else old
    elif f:
        want = {'x': v}
    else:
        want = None
    assert got == (('ok', o) if want is not None else ('exc', AttributeError)), got
    assert vars(o) == (want if want is not None else old), 'attribute: %r instead of %r' % (vars(o), want)


main('C25')
