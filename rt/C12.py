import enum
import gc
import itertools

from base import case, main
from satella.coding.structures import (Immutable, frozendict, DictionaryEQAble, OmniHashableMixin, ComparableAndHashableBy,
                                       ComparableAndHashableByInt, ComparableIntEnum, HashableMixin, Singleton, SingletonWithRegardsTo,
                                       get_instances_for_singleton, delete_singleton_for, HashableIntEnum, ComparableEnum, OnStrOnlyName, NOT_EQUAL_TO_ANYTHING)
from satella.coding.structures.mixins import ComparableAndHashableByStr, StrEqHashableMixin


def attempt(f, *a, **k):
    try:
        return 'ok', f(*a, **k)
    except Exception as e:
        return 'exc', type(e)


def gen_i(rng, size):
    for names in (['a'], ['a', 'b'], []):
        for slots in (0, 1):
            for op in ('set', 'del', 'aug', 'new'):
                yield {'names': names, 'slots': slots, 'op': op, 'level': 0}
                yield {'names': names, 'slots': slots, 'op': op, 'level': 1}


@case('immutable objects', gen_i, 'attribute sets of up to 2, with and without slots, subclassed')
def imm(inp):
    names = inp['names']
    ns = {'__init__': lambda self: [setattr(self, n, 5) for n in names] and None or None}
    if inp['slots']:
        ns['__slots__'] = tuple(names)
    cls = type('C', (Immutable,), ns)
    if inp['level']:
        def init(self):
            cls.__init__(self)
            self.extra = 1
        sub = type('D', (cls,), {'__init__': init})
    else:
        sub = cls
    o = sub()
    for n in names + ['other', 'extra']:
        if inp['op'] == 'set' or inp['op'] == 'new':
            r = attempt(setattr, o, n, 6)
        elif inp['op'] == 'del':
            r = attempt(delattr, o, n)
        else:
            if not hasattr(o, n):
                continue
            def aug():
                exec('o.%s += 1' % n, {'o': o})
            r = attempt(aug)
        assert r == ('exc', TypeError), '%s of %s gives %r' % (inp['op'], n, r)
    for n in names:
        assert getattr(o, n) == 5, 'attribute %s changed' % n
    assert not hasattr(o, 'other')


def gen_f(rng, size):
    for _ in range(600 * size):
        items = [[rng.choice(['a', 'b', 'c', 1, 2]), rng.choice([0, 1, 'x', None])] for _ in range(rng.randint(0, 5))]
        yield {'items': items, 'shuffle': rng.randint(0, 10 ** 6),
               'op': rng.choice(['setitem', 'delitem', 'pop', 'popd', 'popitem', 'clear', 'setdefault', 'update', 'updatekw', 'ior'])}


@case('frozen dictionaries', gen_f, 'up to 5 entries, every mutating method')
def frozen(inp):
    import random
    d0 = {a: b for a, b in inp['items']}
    d = frozendict(d0)
    sh = list(d0.items())
    random.Random(inp['shuffle']).shuffle(sh)
    e = frozendict(sh)
    assert d == e and hash(d) == hash(e), 'equal frozen dictionaries with different hashes'
    assert len({d, e}) == 1
    k = next(iter(d0), 'a')

    def ior():
        x = d
        x |= {'q': 1}
    ops = {'setitem': lambda: d.__setitem__(k, 9), 'delitem': lambda: d.__delitem__(k), 'pop': lambda: d.pop(k), 'popd': lambda: d.pop(k, None),
           'popitem': lambda: d.popitem(), 'clear': lambda: d.clear(), 'setdefault': lambda: d.setdefault('zz', 1),
           'update': lambda: d.update({k: 9}), 'updatekw': lambda: d.update(a=9), 'ior': ior}
    h = hash(d)
    r = attempt(ops[inp['op']])
    assert r == ('exc', TypeError), '%s gives %r' % (inp['op'], r)
    assert d == d0 and hash(d) == h, '%s changed a frozen dictionary' % inp['op']


VALS = [0, 1, 2, 'x', None, (1, 2)]


def gen_e(rng, size):
    for _ in range(1500 * size):
        yield {'a': [[n, rng.randint(0, 5)] for n in 'xyz' if rng.random() < .6], 'b': [[n, rng.randint(0, 5)] for n in 'xyz' if rng.random() < .6],
               'same': rng.random() < .5, 'sub': rng.random() < .2}


class N(DictionaryEQAble):
    def __init__(self, kv):
        for k, v in kv:
            setattr(self, k, VALS[v])


class NS(N):
    z = 0


class O2(OmniHashableMixin):
    _HASH_FIELDS_TO_USE = ('x', 'y')
    __init__ = N.__init__


class O1(OmniHashableMixin):
    _HASH_FIELDS_TO_USE = 'x'
    __init__ = N.__init__


@case('objects compared by attributes', gen_e, 'up to 3 attributes')
def eqs(inp):
    kb = inp['a'] if inp['same'] else inp['b']
    a, b = N(inp['a']), (NS if inp['sub'] else N)(kb)
    want = not inp['sub'] and dict(map(tuple, inp['a'])) == dict(map(tuple, kb))
    for p, q in ((a, b), (b, a)):
        assert (p == q) is want and (p != q) is (not want), '%r == %r' % (vars(p), vars(q))
    for cls, f in ((O2, ('x', 'y')), (O1, ('x',))):
        a, b = cls(inp['a']), cls(kb)
        full = all(hasattr(a, n) and hasattr(b, n) for n in f)
        want = full and all(getattr(a, n) == getattr(b, n) for n in f)
        assert (a == b) is want and (b == a) is want and (a != b) is (not want) and (b != a) is (not want), '%r == %r' % (vars(a), vars(b))
        if want:
            assert hash(a) == hash(b), 'equal objects with different hashes'
            assert len({a, b}) == 1
        assert a != 5 and not (a == 5) and (O2(inp['a']) == O1(inp['a'])) is False


class By(ComparableAndHashableBy):
    _COMPARABLE_BY = 'v'

    def __init__(self, v):
        self.v = v


class ByI(ComparableAndHashableByInt):
    def __init__(self, v):
        self.v = v

    def __int__(self):
        return self.v


class ByS(ComparableAndHashableByStr):
    def __init__(self, v):
        self.v = v

    def __str__(self):
        return str(self.v)


class SEq(StrEqHashableMixin):
    def __init__(self, v):
        self.v = v

    def __str__(self):
        return str(self.v)


def gen_o(rng, size):
    for a, b in itertools.product(range(-2, 13, 3), repeat=2):
        yield {'a': a, 'b': b}


@case('objects ordered by a field', gen_o, '25 pairs')
def order(inp):
    a, b = inp['a'], inp['b']
    import operator
    for cls, f in ((By, lambda x: x), (ByI, lambda x: x), (ByS, str)):
        p, q = cls(a), cls(b)
        for op in (operator.eq, operator.ne, operator.lt, operator.le, operator.gt, operator.ge):
            assert op(p, q) is op(f(a), f(b)), '%s of %s' % (op.__name__, cls.__name__)
        if a == b:
            assert hash(p) == hash(q)
    p, q = SEq(a), SEq(b)
    assert (p == q) is (a == b) and (p != q) is (a != b)
    if a == b:
        assert hash(p) == hash(q)
    E = ComparableIntEnum('E', {'A%d' % (i + 2): i for i in range(-2, 13)})
    for op in (operator.eq, operator.ne, operator.lt, operator.le, operator.gt, operator.ge):
        assert op(E(a), ByI(b)) is op(a, b) and op(ByI(a), b) is op(a, b), op.__name__
        assert op(E(a), E(b)) is op(a, b) and op(E(a), b) is op(a, b) and op(E(a), b + .5) is op(a, b + .5), op.__name__
    assert hash(E(a)) == hash(a) if a == E(a).value else True
    h1, h2 = HashableMixin(), HashableMixin()
    assert h1 == h1 and h1 != h2 and len({h1, h2}) == 2


def gen_x(rng, size):
    for _ in range(300 * size):
        yield {'a': [rng.randint(0, 5) for _ in range(rng.randint(1, 4))], 'b': [rng.randint(0, 5) for _ in range(rng.randint(1, 4))], 'plain': rng.random() < .3}


EV = [0, 1, 'x', (1, 2), None, 2.5]


@case('comparable enumerations', gen_x, 'two enumerations of up to 4 members')
def enums(inp):
    A = ComparableEnum('A', {'M%d' % i: EV[v] for i, v in enumerate(dict.fromkeys(inp['a']))})
    B = (enum.Enum if inp['plain'] else ComparableEnum)('B', {'N%d' % i: EV[v] for i, v in enumerate(dict.fromkeys(inp['b']))})
    for p in A:
        for v in EV + [[1], {}, 'M0']:
            same = p.value == v and not (v in (0, 1) and type(v) is bool)
            assert (p == v) is same and (v == p) is same and (p != v) is (not same) and (v != p) is (not same), '%r == %r' % (p, v)
        for q in list(B) + list(A):
            same = p.value == q.value
            assert (p == q) is same and (q == p) is same and (p != q) is (not same) and (q != p) is (not same), '%r == %r' % (p, q)
    H = HashableIntEnum('H', {'A': 1, 'B': 5})
    assert hash(H.A) == hash(1) and {H.A: 3}[1] == 3 and H.A == 1 and H.A != H.B
    C = ComparableIntEnum('C', {'A': 1, 'B': 5})
    assert hash(C.A) == hash(1) and {C.A: 3}[1] == 3 and len({C.A, C.B, 1, 5}) == 2
    O = enum.Enum('O', {'AA': 1, 'BB': 'z'}, type=OnStrOnlyName)
    assert str(O.AA) == 'AA' and str(O.BB) == 'BB'


def gen_k(rng, size):
    for keep in (0, 1):
        for slots in (0, 1):
            yield {'keep': keep, 'slots': slots}


@case('constructing what will be immutable', gen_k)
def construct(inp):
    ns = {'__slots__': ('a', 'k', 't')} if inp['slots'] else {}

    def init(self, a, k=None):
        self.a, self.k, self.t = a, k, 0
        self.t = 5
        if not inp['keep']:
            del self.t
    o = type('C', (Immutable,), dict(ns, __init__=init))(1, k=2)
    assert (o.a, o.k) == (1, 2) and getattr(o, 't', None) == (5 if inp['keep'] else None)
    for n in 'akt':
        assert attempt(setattr, o, n, 1) == ('exc', TypeError) == attempt(delattr, o, n)

    @Singleton
    class S:
        def __init__(self, a, k=None):
            self.v = a, k
    assert S(1, k=2).v == (1, 2) and S().v == (1, 2) and S() is S(4)

    @SingletonWithRegardsTo(1)
    class R:
        def __init__(self, a, k=None):
            self.v = a, k
    assert R(1, k=2).v == (1, 2) and R(1) is R(1, k=5) and R(2, k=6).v == (2, 6)
    assert not NOT_EQUAL_TO_ANYTHING == NOT_EQUAL_TO_ANYTHING and NOT_EQUAL_TO_ANYTHING != NOT_EQUAL_TO_ANYTHING


def gen_s(rng, size):
    for _ in range(600 * size):
        yield {'n': rng.randint(1, 2), 'weak': rng.random() < .3, 'ops': [[rng.choice(['make', 'make', 'make', 'fail', 'del', 'drop']), rng.randint(0, 2), rng.randint(0, 2)]
                                                                         for _ in range(rng.randint(1, 10))]}


@case('singletons', gen_s, 'up to 10 constructions, failing ones and deletions included')
def singles(inp):
    log = []
    fail = [False]

    def init(self, *args, **kw):
        log.append(args)
        if fail[0]:
            raise ValueError('boom')
        self.args = args
    cls = SingletonWithRegardsTo(inp['n'], weak_refs=inp['weak'])(type('R', (), {'__init__': init}))
    one = Singleton(type('S', (), {'__init__': init}))
    insts, single = {}, None
    for op, x, y in inp['ops']:
        key = (x, y)[:inp['n']]
        if op in ('make', 'fail'):
            fail[0] = op == 'fail'
            log.clear()
            r = attempt(cls, x, y)
            if key in insts:
                assert r[0] == 'ok' and r[1] is insts[key] and not log, 'not the instance made for %r' % (key,)
            else:
                assert log == [(x, y)], 'constructed with %r' % (log,)
                if op == 'fail':
                    assert r == ('exc', ValueError), r
                else:
                    assert r[0] == 'ok' and all(r[1] is not i for i in insts.values()) and r[1].args == (x, y)
                    insts[key] = r[1]
            r = None
            log.clear()
            r = attempt(one, x, y)
            if single is not None:
                assert r[1] is single and not log
            elif op == 'fail':
                assert r == ('exc', ValueError), r
            else:
                assert r[0] == 'ok' and r[1].args == (x, y) and log == [(x, y)]
                single = r[1]
            r = None
        elif op == 'del':
            if insts:
                k = sorted(insts)[0]
                delete_singleton_for(cls, *k)
                del insts[k]
        elif inp['weak'] and insts:
            del insts[sorted(insts)[0]]
            gc.collect()
        if hasattr(cls, '__it__'):
            assert sorted(get_instances_for_singleton(cls)) == sorted(insts), 'instances exist for %r, expected %r' % (get_instances_for_singleton(cls), sorted(insts))


if __name__ == '__main__':
    main('C12')
