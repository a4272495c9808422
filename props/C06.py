"""C06: the dictionary variants agree with a plain dict on their contents and keep their extra promise."""
from pyvc.api import *
from satella.coding.structures.dictionaries.objects import TwoWayDictionary, DirtyDict, KeyAwareDefaultDict
from satella.coding.structures.dictionaries.counting import CountingDict


def ok(ctx, out):
    ctx.check('does not fail', BoolVal(out[0] == 'ok'))
    return out[1]


def dct(o, f):
    d = get(o, f)
    if isinstance(d, dict) and not d:
        return SDict(cur().fresh_name('empty'), ValC, ValC, True)
    if not isinstance(d, SDict):
        raise Unsupported('representation')
    return d


def same_map(a, pres, val):
    return forall(ValC, lambda k: And(a.has(k) == pres(k), Implies(pres(k), a.at(k) == val(k))))


class Old:
    def __init__(self, d):
        self.p, self.v, self.n = d.s['pres'], d.s['val'], d.n

    def has(self, k):
        return Select(self.p, k)

    def at(self, k):
        return Select(self.v, k)


def agrees(ctx, a, has, at, name):
    ctx.check(name, same_map(a, has, at))


def unchanged(ctx, a, old):
    agrees(ctx, a, old.has, old.at, 'the contents are unchanged')


def stored(ctx, a, old, k, v):
    agrees(ctx, a, lambda x: Or(x == k, old.has(x)), lambda x: If(x == k, v, old.at(x)), 'exactly that key is set')
    ctx.check('the size follows', a.n == If(old.has(k), old.n, old.n + 1))


def deleted(ctx, a, old, k):
    agrees(ctx, a, lambda x: And(x != k, old.has(x)), old.at, 'exactly that key is removed')
    ctx.check('the size follows', a.n == old.n - 1)


# ---- TwoWayDictionary --------------------------------------------------------------------------------------------
def twinv(o):
    a, r = dct(o, 'data'), dct(o, 'reverse_data')
    yield 'every entry is found backwards', forall(ValC, lambda k: Implies(a.has(k), And(r.has(a.at(k)), r.at(a.at(k)) == k)))
    yield 'every backward entry is found forwards', forall(ValC, lambda v: Implies(r.has(v), And(a.has(r.at(v)), a.at(r.at(v)) == v)))
    yield 'as many keys as values', a.n == r.n


def tw(ctx):
    conforms(TwoWayDictionary(), 'data', 'reverse_data', '_reverse')
    o = ctx.new(TwoWayDictionary, 'self', data=SDict('data', ValC, ValC), reverse_data=SDict('reverse', ValC, ValC))
    r = ctx.new(TwoWayDictionary, 'back', data=o.reverse_data, reverse_data=o.data, _reverse=o)
    object.__setattr__(o, '_reverse', r)
    for _, c in twinv(o):
        ctx.assume(c)
    # both directions are the same kind of object: either may be operated on
    if ctx.choose(2):
        o = r
        ctx.roots['self'], ctx.roots['back'] = ctx.roots['back'], ctx.roots['self']
    return o, Old(o.data), Old(o.reverse_data)


def linked(ctx, o):
    for n, c in twinv(o):
        ctx.check('invariant: ' + n, c)
    r = ok(ctx, ctx.catch(lambda: o.reverse))
    ctx.check('the reverse is the same mapping, backwards', BoolVal(
        r.data is o.reverse_data and r.reverse_data is o.data and r.reverse is o))


@contract('TwoWayDictionary.__setitem__', ['TwoWayDictionary.__setitem__'], reach=['end', 'set', 'refused'])
def twset(ctx):
    o, a, r = tw(ctx)
    k, v = ctx.obj('key'), ctx.obj('value')
    out = ctx.catch(o.__setitem__, k, v)
    if out[0] == 'ok':
        ctx.reach('set')
        stored(ctx, dct(o, 'data'), a, k.t, v.t)
    else:
        ctx.reach('refused')
        ctx.check('refused with ValueError', BoolVal(isinstance(out[1], ValueError)))
        ctx.check('refused only if the value belongs to another key', And(r.has(v.t), r.at(v.t) != k.t))
        unchanged(ctx, dct(o, 'data'), a)
    linked(ctx, o)


@contract('TwoWayDictionary.__delitem__', ['TwoWayDictionary.__delitem__'], reach=['end', 'deleted', 'missing'])
def twdel(ctx):
    o, a, r = tw(ctx)
    k = ctx.obj('key')
    out = ctx.catch(o.__delitem__, k)
    if out[0] == 'ok':
        ctx.reach('deleted')
        ctx.check('it was there', a.has(k.t))
        deleted(ctx, dct(o, 'data'), a, k.t)
    else:
        ctx.reach('missing')
        ctx.check('KeyError only if missing', And(BoolVal(isinstance(out[1], KeyError)), Not(a.has(k.t))))
        unchanged(ctx, dct(o, 'data'), a)
    linked(ctx, o)


@contract('TwoWayDictionary.__getitem__', ['TwoWayDictionary.__getitem__', 'TwoWayDictionary.__len__'],
          reach=['end', 'got', 'missing'])
def twget(ctx):
    o, a, r = tw(ctx)
    k = ctx.obj('key')
    out = ctx.catch(o.__getitem__, k)
    if out[0] == 'ok':
        ctx.reach('got')
        ctx.check('the value', And(a.has(k.t), ValC.unwrap(out[1]) == a.at(k.t)))
        back = ctx.catch(lambda: o.reverse[out[1]])
        ctx.check('found backwards', ValC.unwrap(ok(ctx, back)) == k.t)
    else:
        ctx.reach('missing')
        ctx.check('KeyError only if missing', And(BoolVal(isinstance(out[1], KeyError)), Not(a.has(k.t))))
    ctx.check('length', IntC.unwrap(o.__len__()) == a.n)
    unchanged(ctx, dct(o, 'data'), a)
    linked(ctx, o)


@contract('TwoWayDictionary.__init__', ['TwoWayDictionary.__init__'], reach=['end', 'made', 'refused'])
def twinit(ctx):
    conforms(TwoWayDictionary(), 'data', 'reverse_data', '_reverse')
    d = SDict('given', ValC, ValC)
    d.len_facts()
    ctx.assume(d.n > 0)
    old = Old(d)
    out = ctx.catch(TwoWayDictionary, d)
    if out[0] == 'ok':
        ctx.reach('made')
        o = out[1]
        agrees(ctx, dct(o, 'data'), old.has, old.at, 'holds the given entries')
        ctx.check('the given dictionary is not shared', BoolVal(o.data is not d))
        linked(ctx, o)
    else:
        ctx.reach('refused')
        x, y = z3.Consts('x!r y!r', ValC.sort)
        ctx.check('refused only if a value repeats', And(BoolVal(isinstance(out[1], ValueError)), z3.Exists(
            [x, y], And(x != y, old.has(x), old.has(y), old.at(x) == old.at(y)))))
    unchanged(ctx, d, old)


@contract('TwoWayDictionary.done', ['TwoWayDictionary.done', 'TwoWayDictionary.__exit__', 'TwoWayDictionary.__enter__'])
def twdone(ctx):
    o, a, r = tw(ctx)
    back = o.reverse
    if ctx.choose(2):
        ok(ctx, ctx.catch(o.done))
    else:
        ctx.check('entering gives the dictionary', BoolVal(ok(ctx, ctx.catch(o.__enter__)) is o))
        ctx.check('exceptions pass', BoolVal(not ok(ctx, ctx.catch(o.__exit__, None, None, None))))
    ctx.check('the reference cycle is broken', BoolVal(o._reverse is None or back._reverse is None))
    unchanged(ctx, dct(o, 'data'), a)


# ---- DirtyDict ---------------------------------------------------------------------------------------------------
def dd(ctx):
    conforms(DirtyDict(), 'data', 'dirty')
    o = ctx.new(DirtyDict, 'self', data=SDict('data', ValC, ValC), dirty=ctx.bool('dirty'))
    return o, Old(o.data), bool_term(o.dirty)


def flag(o):
    return bool_term(get(o, 'dirty'))


@contract('DirtyDict.__setitem__', ['DirtyDict.__setitem__'])
def ddset(ctx):
    o, a, f = dd(ctx)
    k, v = ctx.obj('key'), ctx.obj('value')
    ok(ctx, ctx.catch(o.__setitem__, k, v))
    stored(ctx, dct(o, 'data'), a, k.t, v.t)
    ctx.check('dirty exactly if it was, or the contents changed', flag(o) == Or(f, Not(And(a.has(k.t), a.at(k.t) == v.t))))


@contract('DirtyDict.__delitem__', ['DirtyDict.__delitem__'], reach=['end', 'deleted', 'missing'])
def dddel(ctx):
    o, a, f = dd(ctx)
    k = ctx.obj('key')
    out = ctx.catch(o.__delitem__, k)
    if out[0] == 'ok':
        ctx.reach('deleted')
        ctx.check('it was there', a.has(k.t))
        deleted(ctx, dct(o, 'data'), a, k.t)
        ctx.check('dirty', flag(o))
    else:
        ctx.reach('missing')
        ctx.check('KeyError only if missing', And(BoolVal(isinstance(out[1], KeyError)), Not(a.has(k.t))))
        unchanged(ctx, dct(o, 'data'), a)
        ctx.check('dirty only if it was', flag(o) == f)


@contract('DirtyDict reads', ['DirtyDict.__getitem__', 'DirtyDict.__contains__', 'DirtyDict.__len__', 'DirtyDict.__bool__'],
          reach=['end', 'got', 'missing'])
def ddget(ctx):
    o, a, f = dd(ctx)
    k = ctx.obj('key')
    out = ctx.catch(o.__getitem__, k)
    if out[0] == 'ok':
        ctx.reach('got')
        ctx.check('the value', And(a.has(k.t), ValC.unwrap(out[1]) == a.at(k.t)))
    else:
        ctx.reach('missing')
        ctx.check('KeyError only if missing', And(BoolVal(isinstance(out[1], KeyError)), Not(a.has(k.t))))
    ctx.check('membership', bool_term(o.__contains__(k)) == a.has(k.t))
    ctx.check('length', IntC.unwrap(o.__len__()) == a.n)
    ctx.check('truth', bool_term(o.__bool__()) == (a.n > 0))
    unchanged(ctx, dct(o, 'data'), a)
    ctx.check('reading does not dirty', flag(o) == f)


@contract('DirtyDict.swap_and_clear_dirty', ['DirtyDict.swap_and_clear_dirty', 'DirtyDict.copy_and_clear_dirty',
                                             'DirtyDict.clear_dirty'], reach=['end', 'swap', 'copy', 'clear'])
def ddswap(ctx):
    o, a, f = dd(ctx)
    which = ctx.choose(3)
    ctx.reach(['swap', 'copy', 'clear'][which])
    r = ok(ctx, ctx.catch([o.swap_and_clear_dirty, o.copy_and_clear_dirty, o.clear_dirty][which]))
    ctx.check('clean afterwards', Not(flag(o)))
    if which < 2:
        ctx.check('a plain dictionary with the contents', same_map(r, a.has, a.at))
        ctx.check('not shared', BoolVal(r is not get(o, 'data')))
    if which == 0:
        ctx.check('empty afterwards', forall(ValC, lambda k: Not(dct(o, 'data').has(k))))
    else:
        unchanged(ctx, dct(o, 'data'), a)


@contract('DirtyDict.__copy__', ['DirtyDict.__copy__', 'DirtyDict.__init__'])
def ddcopy(ctx):
    o, a, f = dd(ctx)
    r = ok(ctx, ctx.catch(o.__copy__))
    agrees(ctx, dct(r, 'data'), a.has, a.at, 'the copy holds the same entries')
    ctx.check('the copy is as dirty', flag(r) == f)
    ctx.check('not shared', BoolVal(r is not o and r.data is not o.data))
    unchanged(ctx, dct(o, 'data'), a)


# ---- KeyAwareDefaultDict -----------------------------------------------------------------------------------------
FACT = z3.Function('factory', ValC.sort, ValC.sort)


@contract('KeyAwareDefaultDict', ['KeyAwareDefaultDict.__getitem__', 'KeyAwareDefaultDict.__contains__',
                                  'KeyAwareDefaultDict.__setitem__', 'KeyAwareDefaultDict.__delitem__'],
          reach=['end', 'get', 'made', 'in', 'set', 'del'])
def kad(ctx):
    calls = []

    def factory(k):
        calls.append(ValC.unwrap(k))
        return ValC.wrap(FACT(ValC.unwrap(k)))
    conforms(KeyAwareDefaultDict(factory), 'dict', 'factory_function')
    o = ctx.new(KeyAwareDefaultDict, 'self', dict=SDict('data', ValC, ValC), factory_function=factory)
    a = Old(o.dict)
    k, v = ctx.obj('key'), ctx.obj('value')
    which = ctx.choose(4)
    if which == 0:
        ctx.reach('get')
        r = ValC.unwrap(ok(ctx, ctx.catch(o.__getitem__, k)))
        exp = If(a.has(k.t), a.at(k.t), FACT(k.t))
        ctx.check('the stored value, or the default for that key', r == exp)
        ctx.check('it is remembered', And(dct(o, 'dict').has(k.t), dct(o, 'dict').at(k.t) == exp))
        agrees(ctx, dct(o, 'dict'), lambda x: Or(x == k.t, a.has(x)), lambda x: If(x == k.t, exp, a.at(x)), 'nothing else changes')
        if calls:
            ctx.reach('made')
            ctx.check('the factory is called once, with the key, only if it is missing',
                      And(BoolVal(len(calls) == 1), calls[0] == k.t, Not(a.has(k.t))))
    elif which == 1:
        ctx.reach('in')
        ctx.check('membership', bool_term(ok(ctx, ctx.catch(o.__contains__, k))) == a.has(k.t))
        unchanged(ctx, dct(o, 'dict'), a)
    elif which == 2:
        ctx.reach('set')
        ok(ctx, ctx.catch(o.__setitem__, k, v))
        stored(ctx, dct(o, 'dict'), a, k.t, v.t)
    else:
        out = ctx.catch(o.__delitem__, k)
        if out[0] == 'ok':
            ctx.reach('del')
            deleted(ctx, dct(o, 'dict'), a, k.t)
        else:
            ctx.check('KeyError only if missing', And(BoolVal(isinstance(out[1], KeyError)), Not(a.has(k.t))))
            unchanged(ctx, dct(o, 'dict'), a)


# ---- CountingDict ------------------------------------------------------------------------------------------------
@contract('CountingDict.count', ['CountingDict.count', 'CountingDict.__getitem__', 'CountingDict.__len__'])
def cnt(ctx):
    conforms(CountingDict(), 'dct')
    o = ctx.new(CountingDict, 'self', dct=SDict('dct', ValC, IntC))
    a = Old(o.dct)
    k, n = ctx.obj('elem'), ctx.int('pieces')
    if ctx.choose(2):
        ok(ctx, ctx.catch(o.count, k, n))
        add = n.t
    else:
        ok(ctx, ctx.catch(o.count, k))
        add = IntVal(1)
    d = get(o, 'dct')
    agrees(ctx, d, lambda x: Or(x == k.t, a.has(x)),
           lambda x: If(x == k.t, add + If(a.has(x), a.at(x), IntVal(0)), a.at(x)), 'exactly the pieces are added')
    ctx.check('read back', IntC.unwrap(o[k]) == d.at(k.t))
    ctx.check('length', IntC.unwrap(o.__len__()) == d.n)
