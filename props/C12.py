"""C12: immutable objects never change, singletons are single, and equal objects have equal hashes."""
from pyvc.api import *
from satella.coding.structures.immutable import Immutable, frozendict, NotEqualToAnything
from satella.coding.structures.mixins.eqable import DictionaryEQAble
from satella.coding.structures.mixins.hashable import (ComparableAndHashableBy, ComparableAndHashableByInt, OmniHashableMixin, HashableMixin,
                                                       ComparableAndHashableByStr)
from satella.coding.structures.mixins.enums import ComparableIntEnum
from satella.coding.structures.singleton import Singleton, SingletonWithRegardsTo, get_instances_for_singleton, delete_singleton_for


def ok(ctx, out):
    ctx.check('does not fail', BoolVal(out[0] == 'ok'))
    return out[1]


def raised_(ctx, out, cls, what='refused'):
    ctx.check(what, BoolVal(out[0] == 'exc' and isinstance(out[1], cls)))


class Point(Immutable):
    def __init__(self, x):
        self.x = x
        self.y = x
        self.y = 5
        del self.y


class Slotted(Immutable):
    __slots__ = ('x',)

    def __init__(self, x):
        self.x = x


@contract('Immutable', ['Immutable.__setattr__', 'Immutable.__delattr__', 'ImmutableMetaType.__call__'], reach=['end', 'set', 'del'])
def immutable(ctx):
    v = ctx.obj('value')
    cls = (Point, Slotted)[ctx.choose(2)]
    p = ok(ctx, ctx.catch(cls, v))
    ctx.check('the constructor assigns', BoolVal(p.x is v))
    ctx.check('and may delete', BoolVal(not hasattr(p, 'y')))
    attr = ctx.obj('attribute name')
    ctx.assume(attr.t != ctx.const('_Immutable__locked_for_writes'))
    w = ctx.obj('other value')
    which = ctx.choose(2)
    if which:
        ctx.reach('set')
        out = ctx.catch(Immutable.__setattr__, p, attr, w)
    else:
        ctx.reach('del')
        out = ctx.catch(Immutable.__delattr__, p, attr)
    raised_(ctx, out, TypeError, 'TypeError whatever the attribute')
    ctx.check('nothing changes', BoolVal(p.x is v and set(getattr(p, '__dict__', {})) - {'x', '_Immutable__locked_for_writes'} == set()))
    for nm in ('x', 'other'):
        raised_(ctx, ctx.catch(setattr, p, nm, w), TypeError)
        raised_(ctx, ctx.catch(delattr, p, nm), TypeError)
    ctx.check('still nothing changes', BoolVal(p.x is v and not hasattr(p, 'other')))


MUTATORS = {'__setitem__': 2, '__delitem__': 1, 'pop': 1, 'popitem': 0, 'clear': 0, 'setdefault': 2, 'update': 1, '__ior__': 1}


@contract('frozendict', ['frozendict.__setitem__', 'frozendict.update'])
def frozen(ctx):
    nm = sorted(MUTATORS)[ctx.choose(len(MUTATORS))]
    v = ctx.obj('v')
    d = frozendict({'a': v})
    args = [{'a': 1}] if nm in ('update', '__ior__') else ['a', ctx.obj('w')][:MUTATORS[nm]]
    raised_(ctx, ctx.catch(getattr(d, nm), *args), TypeError, 'every mutating method is refused')
    if nm == 'update':
        raised_(ctx, ctx.catch(d.update, b=ctx.obj('w')), TypeError, 'also with keywords')
    if nm == 'pop':
        raised_(ctx, ctx.catch(d.pop, 'a', None), TypeError, 'also with a default')
    ctx.check('and changes nothing', BoolVal(len(d) == 1 and d['a'] is v))


class Named(DictionaryEQAble):
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Sub(Named):
    pass


@contract('DictionaryEQAble', ['DictionaryEQAble.__eq__', 'DictionaryEQAble.__ne__'], reach=['end', 'equal', 'different'])
def dicteq(ctx):
    """(values arbitrary; up to two attributes)"""
    names = [(), ('a',), ('b',), ('a', 'b')]
    na, nb = names[ctx.choose(4)], names[ctx.choose(4)]
    va, vb = {n: ctx.obj('x' + n) for n in na}, {n: ctx.obj('y' + n) for n in nb}
    o, p = Named(**va), (Named, Sub)[ctx.choose(2)](**vb)
    want = And(BoolVal(na == nb and type(p) is Named), *[va[n].t == vb[n].t for n in na if n in nb])
    r = ok(ctx, ctx.catch(o.__eq__, p))
    ctx.check('equal exactly if of one type with equal attributes', bool_term(r) == want)
    r = ok(ctx, ctx.catch(o.__ne__, p))
    ctx.check('and unequal otherwise', bool_term(r) == Not(want))
    if ctx.fork(want):
        ctx.reach('equal')
    else:
        ctx.reach('different')


class F2(OmniHashableMixin):
    _HASH_FIELDS_TO_USE = ('x', 'y')

    def __init__(self, x, y, z):
        self.x, self.y, self.z = x, y, z


class F1(OmniHashableMixin):
    _HASH_FIELDS_TO_USE = 'x'
    __init__ = F2.__init__


@contract('OmniHashableMixin', ['OmniHashableMixin.__eq__', 'OmniHashableMixin.__ne__', 'OmniHashableMixin.__hash__', '_generic_eq'],
          reach=['end', 'equal', 'different'])
def omni(ctx):
    cls = (F1, F2)[ctx.choose(2)]
    a, b = cls(*[ctx.obj('a%d' % i) for i in range(3)]), cls(*[ctx.obj('b%d' % i) for i in range(3)])
    want = a.x.t == b.x.t if cls is F1 else And(a.x.t == b.x.t, a.y.t == b.y.t)
    r = ok(ctx, ctx.catch(a.__eq__, b))
    ctx.check('equal exactly if the fields are', bool_term(r) == want)
    r = ok(ctx, ctx.catch(a.__ne__, b))
    ctx.check('and unequal otherwise', bool_term(r) == Not(want))
    o = (F2 if cls is F1 else F1)(a.x, a.y, a.z)
    ctx.check('objects of another class are different', BoolVal(a.__eq__(o) is False and a.__ne__(o) is True and a.__eq__(5) is False))
    if ctx.fork(want):
        ctx.reach('equal')
        ctx.check('equal objects have equal hashes', IntC.unwrap(ok(ctx, ctx.catch(a.__hash__))) == IntC.unwrap(ok(ctx, ctx.catch(b.__hash__))))
    else:
        ctx.reach('different')


class By(ComparableAndHashableBy):
    _COMPARABLE_BY = 'f'

    def __init__(self, f):
        self.f = f


class ByInt(ComparableAndHashableByInt):
    def __init__(self, f):
        self.f = f

    def __int__(self):
        return self.f


OPS = {'__eq__': lambda a, b: a == b, '__lt__': lambda a, b: a < b, '__le__': lambda a, b: a <= b,
       '__gt__': lambda a, b: a > b, '__ge__': lambda a, b: a >= b}


@contract('ComparableAndHashableBy', ['ComparableAndHashableBy.' + m for m in sorted(OPS) + ['__hash__']] +
          ['ComparableAndHashableByInt.' + m for m in sorted(OPS) + ['__hash__']], reach=['end', 'equal'])
def by(ctx):
    cls = (By, ByInt)[ctx.choose(2)]
    x, y = ctx.int('x'), ctx.int('y')
    a, b = cls(x), cls(y)
    if cls is ByInt:
        ctx.models[int] = lambda v=0, *r: v.f if isinstance(v, ByInt) else v
    for m in sorted(OPS):
        r = ok(ctx, ctx.catch(getattr(a, m), b))
        ctx.check('%s compares the fields' % m, bool_term(r) == OPS[m](x.t, y.t))
    if ctx.fork(x.t == y.t):
        ctx.reach('equal')
        ctx.check('equal objects have equal hashes', IntC.unwrap(ok(ctx, ctx.catch(a.__hash__))) == IntC.unwrap(ok(ctx, ctx.catch(b.__hash__))))


@contract('Singleton', ['Singleton'], reach=['end', 'ok', 'fails'])
def single(ctx):
    made = []
    boom = [bool(ctx.choose(2))]

    @Singleton
    class S:
        def __init__(self, *args, **kw):
            made.append((self, args, kw))
            if boom[0]:
                raise ValueError('boom')
            self.args = args

    x, y = ctx.obj('x'), ctx.obj('y')
    out = ctx.catch(S, x, k=y)
    if boom[0]:
        ctx.reach('fails')
        raised_(ctx, out, ValueError, 'the failure of the constructor is reported')
        boom[0] = False
        n = len(made)
        s = ok(ctx, ctx.catch(S, x, k=y))
        ctx.check('and the next construction starts anew', BoolVal(len(made) == n + 1 and made[-1][0] is s and s.args == (x,)))
    else:
        ctx.reach('ok')
        s = out[1]
        ctx.check('constructed with the arguments', BoolVal(out[0] == 'ok' and len(made) == 1 and made[0] == (s, (x,), {'k': y})))
    n = len(made)
    for a in ((), (y,), (x,)):
        t = ok(ctx, ctx.catch(S, *a))
        ctx.check('the same instance, not constructed again', BoolVal(t is s and len(made) == n))


@contract('SingletonWithRegardsTo', ['SingletonWithRegardsTo', 'get_instances_for_singleton', 'delete_singleton_for'],
          reach=['end', 'new', 'old', 'fails'])
def regards(ctx):
    made = []
    boom = bool(ctx.choose(2))

    @SingletonWithRegardsTo(num_args=1)
    class S:
        def __init__(self, *args, **kw):
            made.append((self, args, kw))
            if boom:
                raise ValueError('boom')

    it = SDict('instances', TupleC(ValC), ValC)
    S.__it__ = it
    has, at = it.s['pres'], it.s['val']
    k, rest = ctx.obj('key'), ctx.obj('other argument')
    kt = TupleC(ValC).unwrap((k,))
    q = z3.Const('q!key', TupleC(ValC).sort)
    ctx.models[S] = None
    del ctx.models[S]
    out = ctx.catch(S, k, rest)
    same = lambda exc: z3.ForAll([q], Implies(q != kt if exc else BoolVal(True), And(
        it.has(q) == Select(has, q), Implies(it.has(q), it.at(q) == Select(at, q)))))
    if ctx.entails(Select(has, kt)):
        ctx.reach('old')
        ctx.check('the instance made for the same arguments', And(BoolVal(out[0] == 'ok' and not made), ValC.unwrap(out[1]) == Select(at, kt)))
        ctx.check('nothing changes', same(False))
        return
    ctx.check('constructed once with all arguments', BoolVal(len(made) == 1 and made[0][1] == (k, rest) and made[0][2] == {}))
    ctx.check('the other instances stay', same(True))
    if boom:
        ctx.reach('fails')
        raised_(ctx, out, ValueError, 'the failure of the constructor is reported')
        ctx.check('and forgotten', Not(it.has(kt)))
    else:
        ctx.reach('new')
        ctx.check('remembered', And(BoolVal(out[0] == 'ok' and out[1] is made[0][0]), it.has(kt), it.at(kt) == ValC.unwrap(out[1])))
        ok(ctx, ctx.catch(delete_singleton_for, S, k))
        ctx.check('deleted', And(Not(it.has(kt)), same(True)))
