import operator
from base import case, main
from satella.coding.predicates import x, build_structure, PredicateClass
from satella.coding.structures.hashable_objects import HashableWrapper

BIN = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv, '//': operator.floordiv, '%': operator.mod, '&': operator.and_,
       '|': operator.or_, '^': operator.xor, '<<': lambda a, b: a << b, '>>': operator.rshift, '**': lambda a, b: a ** b,
       '==': operator.eq, '!=': operator.ne, '<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}
UN = ['neg', 'abs', 'not', 'str', 'int', 'float', 'false', 'type', 'identity', 'isint', 'oneof', 'numerator', 'bit_length', 'inst']


def expr(rng, d):
    if d == 0 or rng.random() < 0.15:
        return 'x' if rng.random() < 0.7 else rng.randint(0, 4)
    if rng.random() < 0.35:
        return [rng.choice(UN), expr(rng, d - 1)]
    return [rng.choice(sorted(BIN)), expr(rng, d - 1), expr(rng, d - 1)]


def gen_e(rng, size):
    for _ in range(4000 * size):
        yield {'expr': expr(rng, rng.randint(1, 4)), 'values': [rng.choice([-3, 0, 1, 2, 5, True, False, 2.5, 'ab', None]) for _ in range(3)]}


def inv(v):
    return (not v) if isinstance(v, bool) else ~v


def ev(e, v):
    if e == 'x':
        return v
    if not isinstance(e, list):
        return e
    if len(e) == 3:
        return BIN[e[0]](ev(e[1], v), ev(e[2], v))
    a = ev(e[1], v)
    return {'neg': lambda: -a, 'abs': lambda: abs(a), 'not': lambda: inv(a), 'str': lambda: str(a), 'int': lambda: int(a), 'float': lambda: float(a),
            'false': lambda: not a, 'type': lambda: type(a), 'identity': lambda: a, 'isint': lambda: isinstance(a, (int, str)), 'oneof': lambda: a in (1, 2),
            'numerator': lambda: a.numerator, 'bit_length': lambda: a.bit_length(), 'inst': lambda: isinstance(a, int)}[e[0]]()


def build(e):
    if e == 'x':
        return x
    if not isinstance(e, list):
        return e
    if len(e) == 3:
        return BIN[e[0]](build(e[1]), build(e[2]))
    a = build(e[1])
    if not isinstance(a, PredicateClass):
        return ev([e[0], a], None)
    return {'neg': lambda: -a, 'abs': lambda: abs(a), 'not': lambda: ~a, 'str': lambda: a.str(), 'int': lambda: a.int(), 'float': lambda: a.float(),
            'false': lambda: a.false(), 'type': lambda: a.type(), 'identity': lambda: a.identity(), 'isint': lambda: a.is_instance(int, str),
            'oneof': lambda: a.one_of(1, 2), 'numerator': lambda: a.numerator, 'bit_length': lambda: a.bit_length(), 'inst': lambda: a.instanceof(int)}[e[0]]()


def big(e):
    """no towers of powers and shifts"""
    return isinstance(e, list) and ((e[0] in ('**', '<<', '*') and any(isinstance(s, list) for s in e[1:])) or any(big(s) for s in e[1:]))


def outcome(f, *a):
    try:
        r = f(*a)
        return 'ok', type(r), r
    except Exception as ex:
        return 'exc', type(ex)


def same(a, b):
    return a[:2] == b[:2] and (a[0] == 'exc' or a[2] == b[2] or a[2] != a[2])


@case('expressions', gen_e, 'up to 4 operators deep')
def e(inp):
    if big(inp['expr']):
        return
    try:
        p = build(inp['expr'])
    except Exception:
        return                  # a part without x fails by itself
    if not isinstance(p, PredicateClass):
        return
    for v in inp['values'] * 2:
        want, got = outcome(ev, inp['expr'], v), outcome(p, v)
        assert same(want, got), 'on %r: %r, not %r' % (v, got, want)


def gen_c(rng, size):
    for _ in range(800 * size):
        yield {'keys': [rng.randint(0, 4) for _ in range(rng.randint(0, 4))], 'held': [rng.randint(0, 4) for _ in range(rng.randint(0, 5))], 'v': rng.randint(0, 4)}


@case('containers', gen_c, 'up to 5 elements')
def c(inp):
    ks, held, v = inp['keys'], inp['held'], inp['v']
    d = {k: k for k in held}
    assert x.has_keys(*ks)(d) is all(k in d for k in ks)
    assert x.one_of(*ks)(v) is (v in ks)
    assert x.inside(v)(held) is (v in held)
    assert x.inside(x[0])(held + [v]) is True
    assert x.has(x == v)(held) is (v in held)
    assert x.has(x > v)(iter(held)) is any(h > v for h in held)
    assert x.has(x['a'] > v)([{'a': h} for h in held]) is any(h > v for h in held)
    assert x.length()(held) == x.len()(held) == len(held)
    assert (x.length() == len(held))(held) is True
    assert x[v](list(range(9))) == v and (x[0] + x[v])([7, 8, 9, 10, 11]) == 7 + [7, 8, 9, 10, 11][v]
    assert x.real(v) == v and x.copy()(d) == d
    assert ((x > v) & (x < 4))(3) is ((3 > v) and True) and ((x > v) | (x < 0))(3) is (3 > v) and (~(x > v))(3) is (not 3 > v)
    a, b = x.identity(), x.identity()
    assert len({a: 1, b: 2}) == 2 and a(v) == v
    assert x.is_valid_schema(a=int)({'a': v}) is True and x.is_valid_schema(a=int)({'a': 'no'}) is False
    assert x.is_valid_schema({'a': int})({'b': v}) is False


def struct(rng, d):
    r = rng.random()
    if d == 0 or r < 0.3:
        return rng.choice(['x', 'x*2', 'x[0]', 'x.y', 3, 'text', None, 2.5])
    if r < 0.85:
        return [rng.choice(['list', 'tuple', 'sub']), [struct(rng, d - 1) for _ in range(rng.randint(0, 3))]]
    return ['dict', [[rng.choice(['x*3', 'k', 7, 'tuple']), struct(rng, d - 1)] for _ in range(rng.randint(0, 3))]]


def gen_s(rng, size):
    for _ in range(1500 * size):
        yield {'struct': struct(rng, 3), 'arg': rng.randint(-2, 5)}


class Sub(list):
    pass


class Arg(int):
    y = 'why'

    def __getitem__(self, i):
        return self + 100 + i


LEAF = {'x': (lambda: x, lambda v: v), 'x*2': (lambda: x * 2, lambda v: v * 2), 'x[0]': (lambda: x[0], lambda v: v[0]), 'x.y': (lambda: x.y, lambda v: v.y),
        'x*3': (lambda: x * 3, lambda v: v * 3), 'tuple': (lambda: (x, 1), lambda v: (v, 1)), 'k': (lambda: 'k', lambda v: 'k'),
        'text': (lambda: 'text', lambda v: 'text')}
TYPES = {'list': list, 'tuple': tuple, 'sub': Sub}


def make(s, v=None, which=0):
    if isinstance(s, list):
        if s[0] == 'dict':
            return {make(k, v, which): make(w, v, which) for k, w in s[1]}
        return TYPES[s[0]]([make(y, v, which) for y in s[1]])
    if isinstance(s, str):
        return LEAF[s][0]() if which == 0 else LEAF[s][1](v)
    return s


def eq(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return len(a) == len(b) and all(eq(p, q) and eq(a[p], b[q]) for p, q in zip(a, b))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(eq(p, q) for p, q in zip(a, b))
    return a == b


@case('structures', gen_s, 'up to 3 levels of up to 3 elements')
def s(inp):
    v = Arg(inp['arg'])
    st = make(inp['struct'])
    want = make(inp['struct'], v, 1)
    got = build_structure(st, v)
    assert eq(got, want), '%r, not %r' % (got, want)
    assert eq(build_structure(st, v), want), 'the structure was changed'
    calls = []
    assert build_structure(st, v, lambda y: (calls.append(y), 'final')[1]) == 'final' and len(calls) == 1 and eq(calls[0], want)
    if isinstance(st, (list, dict)):
        assert eq(build_structure({HashableWrapper(st): 1} and [HashableWrapper(st)], v), [want])


main('C24')
