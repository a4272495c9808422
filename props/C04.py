"""C04: heaps keep exactly the elements put on them, give out the smallest, and set heaps hold each element once."""
from pyvc.api import *
from pyvc.core import RANK
from satella.coding.structures.heaps.base import Heap, SetHeap
from satella.coding.structures.heaps.time import TimeBasedHeap, TimeBasedSetHeap

TV = TupleC(RealC, ValC)
ts, it = (lambda t: TV.get(t, 0)), (lambda t: TV.get(t, 1))


def vless(a, b):
    return RANK(a) < RANK(b)


def tless(a, b):
    return Or(ts(a) < ts(b), And(ts(a) == ts(b), RANK(it(a)) < RANK(it(b))))


LESS = {ValC: vless, TV: tless}


def bag(name, ec, empty=False):
    return SBag(name, ec, LESS[ec], empty)


def data(o):
    d = get(o, 'data')
    if isinstance(d, list) and not d:
        return bag(cur().fresh_name('empty'), ValC if type(o) in (Heap, SetHeap) else TV, True)
    if not isinstance(d, SBag):
        raise Unsupported('the heap is not kept in a list')
    return d


def one(c):
    return If(c, IntVal(1), IntVal(0))


def inv(o):
    d = data(o)
    yield 'the heap order is kept', d.s['heap']
    if isinstance(o, SetHeap):
        s = get(o, 'set')
        if isinstance(s, set) and not s:
            yield 'no element twice, and exactly the elements are looked up', forall(ValC, lambda x: d.cnt(x) == 0)
        else:
            yield 'no element twice, and exactly the elements are looked up', forall(
                ValC, lambda x: d.cnt(x) == one(s.has(x)))
    if isinstance(o, TimeBasedSetHeap):
        m = get(o, 'item_to_timestamp')
        if isinstance(m, dict) and not m:
            yield 'no item twice, timestamps as looked up', forall2(RealC, ValC, lambda t, v: d.cnt(TV.mk(t, v)) == 0)
        else:
            yield 'no item twice, timestamps as looked up', forall2(
                RealC, ValC, lambda t, v: d.cnt(TV.mk(t, v)) == one(And(m.has(v), m.at(v) == t)))


REAL = {Heap: lambda: conforms(Heap(), 'data'), SetHeap: lambda: conforms(SetHeap(), 'data', 'set'),
        TimeBasedHeap: lambda: conforms(TimeBasedHeap(), 'data', 'default_clock_source'),
        TimeBasedSetHeap: lambda: conforms(TimeBasedSetHeap(), 'data', 'default_clock_source', 'item_to_timestamp')}


class St:
    pass


def heap(ctx, cls, name='self'):
    """an arbitrary heap of that class satisfying the invariant"""
    REAL[cls]()
    ec = ValC if cls in (Heap, SetHeap) else TV
    ctx.env.bags = {c.name: LESS[c] for c in (ValC, TV)}
    f = dict(data=bag(name + '.data', ec))
    if cls is SetHeap:
        f['set'] = SSet(name + '.set', ValC)
    if cls is TimeBasedSetHeap:
        f['item_to_timestamp'] = SDict(name + '.map', ValC, RealC)
    o = ctx.new(cls, name, **f)
    clk = []
    if ec is TV:
        def clock():
            clk.append(ctx.real('clock'))
            return clk[-1]
        object.__setattr__(o, 'default_clock_source', clock)
    for _, c in inv(o):
        ctx.assume(c)
    d = f['data']
    pre = d.make(d.s['cnt'], d.n, d.s['heap'], 'pre')
    ctx.env.pre = pre
    return o, pre, clk


def keep(ctx, o):
    for n, c in inv(o):
        ctx.check('invariant: ' + n, c)


def delta(ctx, o, pre, name, f):
    """the new contents, as a function of the old multiplicity"""
    d = data(o)
    ctx.check(name, forall(d.ec, lambda x: d.cnt(x) == f(x, pre.cnt(x))))
    keep(ctx, o)


def same(ctx, o, pre, name='the contents are unchanged'):
    delta(ctx, o, pre, name, lambda x, c: c)


def ok(ctx, out):
    ctx.check('does not fail', BoolVal(out[0] == 'ok'))
    return out[1]


def me():
    return cur().roots['self']


def D(f):
    return forall(IntC, f, 'j')


# candidate loop clauses -----------------------------------------------------------------------------------------
def scan(key):
    def f(L):
        d, k = data(me()), cur().env.key
        return D(lambda j: Implies(And(0 <= j, j < L.i), key(d.nth(j)) != k))
    return f


SCAN = [('no earlier match by item', scan(it)), ('no earlier match by time', scan(ts))]


def rest(L):
    bs = [v for v in L.loc.values() if isinstance(v, SBag)]
    return bs[0] if bs else data(me())


def yielded():
    return cur().roots['yielded']


GEN = [
    ('nothing lost', lambda L: forall(rest(L).ec, lambda x: yielded().cnt(x) + rest(L).cnt(x) == cur().env.pre.cnt(x))),
    ('sizes', lambda L: yielded().n + rest(L).n == cur().env.pre.n),
    ('still a heap', lambda L: rest(L).s['heap']),
    ('all given out before are not greater', lambda L: z3.ForAll([Q1(L), Q2(L)], Implies(
        And(yielded().has(Q1(L)), rest(L).has(Q2(L))), Not(rest(L).less(Q2(L), Q1(L)))))),
    ('all given out are early', lambda L: forall(TV, lambda x: Implies(yielded().has(x), ts(x) < cur().env.limit))),
    ('lookup', lambda L: And(*[c for _, c in inv(me())])),
    ('untouched', lambda L: forall(rest(L).ec, lambda x: data(me()).cnt(x) == cur().env.pre.cnt(x))),
]


def Q1(L):
    return z3.Const('q1!', rest(L).ec.sort)


def Q2(L):
    return z3.Const('q2!', rest(L).ec.sort)


def drain(ctx, o, g, ec):
    y = bag('yielded', ec, True)
    ctx.roots['yielded'] = y
    for v in g:
        t = ec.unwrap(v)
        ctx.check('given out in ascending order', forall(ec, lambda x: Implies(y.has(x), Not(y.less(t, x)))))
        y.push(v, BoolVal(False))
    return y


BASIC = [(Heap, ValC), (SetHeap, ValC), (TimeBasedHeap, TV), (TimeBasedSetHeap, TV)]


def put_effect(cls, vt):
    if cls is SetHeap:
        return lambda x, c: If(x == vt, IntVal(1), c)
    if cls is TimeBasedSetHeap:
        return lambda x, c: If(x == vt, IntVal(1), If(it(x) == it(vt), IntVal(0), c))
    return lambda x, c: c + one(x == vt)


def mk(cls, ec):
    N = cls.__name__
    F = lambda m: ['%s.%s' % (k.__name__, m) for k in cls.__mro__ if m in k.__dict__ and k.__module__.startswith('satella')]
    elem = (lambda ctx, n='item': ctx.obj(n)) if ec is ValC else (lambda ctx, n='item': (ctx.real(n + '.ts'), ctx.obj(n)))

    @contract(N + '.push', F('push'), invs=SCAN)
    def push(ctx):
        o, pre, _ = heap(ctx, cls)
        v = elem(ctx)
        vt = ec.unwrap(v)
        if ec is TV:
            ctx.env.key = it(vt)
        ok(ctx, ctx.catch(o.push, v))
        delta(ctx, o, pre, 'exactly the item is added', put_effect(cls, vt))

    @contract(N + '.pop', F('pop'), reach=['end', 'got', 'empty'])
    def pop(ctx):
        o, pre, _ = heap(ctx, cls)
        out = ctx.catch(o.pop)
        if out[0] == 'ok':
            ctx.reach('got')
            r = ec.unwrap(out[1])
            ctx.check('the element was on the heap', pre.has(r))
            ctx.check('nothing smaller is on the heap', forall(ec, lambda x: Implies(pre.has(x), Not(pre.less(x, r)))))
            delta(ctx, o, pre, 'exactly that element is removed', lambda x, c: c - one(x == r))
        else:
            ctx.reach('empty')
            ctx.check('fails with IndexError', BoolVal(isinstance(out[1], IndexError)))
            ctx.check('fails only when empty', forall(ec, lambda x: pre.cnt(x) == 0))
            same(ctx, o, pre)

    @contract(N + '.__len__', F('__len__') + F('__bool__') + ['%s.__contains__' % N])
    def length(ctx):
        o, pre, _ = heap(ctx, cls)
        ctx.check('length', IntC.unwrap(ok(ctx, ctx.catch(o.__len__))) == pre.n)
        ctx.check('truth value', bool_term(ok(ctx, ctx.catch(o.__bool__))) == (pre.n > 0))
        v = elem(ctx)
        ctx.check('membership', bool_term(ok(ctx, ctx.catch(o.__contains__, v))) == pre.has(ec.unwrap(v)))
        same(ctx, o, pre)

    @contract(N + '.iter_ascending', F('iter_ascending'), invs=GEN)
    def asc(ctx):
        o, pre, _ = heap(ctx, cls)
        ctx.env.cut_while = True
        ctx.env.limit = z3.Real('unused')
        y = drain(ctx, o, o.iter_ascending(), ec)
        ctx.check('every element is given out, as often as it is there',
                  forall(ec, lambda x: y.cnt(x) == pre.cnt(x)))
        same(ctx, o, pre)

    @contract(N + '.push_many', F('push_many') + F('push'), invs=MANY)
    def many(ctx):
        o, pre, _ = heap(ctx, cls)
        xs = SList('items', ec) if cls in (SetHeap, TimeBasedSetHeap) else bag('items', ec)
        ctx.env.items = xs
        if cls is TimeBasedSetHeap:
            m = get(o, 'item_to_timestamp')
            ctx.env.premap = dict(m.s)
            # the caller is checked against the contract of push, which is proved separately
            ctx.models[TimeBasedSetHeap.push] = push_contract
        ok(ctx, ctx.catch(o.push_many, xs))
        if cls is TimeBasedSetHeap:
            keep(ctx, o)
            ctx.check('every item has its last timestamp, the others keep theirs', last_wins(xs, xs.n))
        elif cls is SetHeap:
            q = z3.Int('j!q')
            delta(ctx, o, pre, 'exactly the items are added', lambda x, c: If(
                z3.Exists([q], And(0 <= q, q < xs.n, xs.el(q) == x)), IntVal(1), c))
        else:
            delta(ctx, o, pre, 'exactly the items are added', lambda x, c: c + xs.cnt(x))

    @contract(N + '.filter_map', F('filter_map'), max_paths=600)
    def fm(ctx):
        o, pre, _ = heap(ctx, cls)
        p = z3.Function('keep', ec.sort, z3.BoolSort())
        ok(ctx, ctx.catch(o.filter_map, lambda v: mk_bool(p(ec.unwrap(v)))))
        delta(ctx, o, pre, 'exactly the selected elements stay', lambda x, c: If(p(x), c, IntVal(0)))

    @contract(N + '.filter_map with a mapping', F('filter_map'), max_paths=600)
    def fmm(ctx):
        o, pre, _ = heap(ctx, cls)
        if cls is TimeBasedSetHeap:
            g = z3.Function('image', ec.sort, ec.sort)
            ok(ctx, ctx.catch(o.filter_map, None, lambda v: (RealC.wrap(ts(g(ec.unwrap(v)))), ValC.wrap(it(g(ec.unwrap(v)))))))
        else:
            g = z3.Function('image', ec.sort, ec.sort)
            ok(ctx, ctx.catch(o.filter_map, None, lambda v: ec.wrap(g(ec.unwrap(v)))))
        d = data(o)
        if cls is not TimeBasedSetHeap:
            ctx.check('the image of every element is there', forall(ec, lambda x: Implies(pre.has(x), d.has(g(x)))))
        q = z3.Const('q!src', ec.sort)
        ctx.check('only images of elements are there', forall(ec, lambda y: Implies(d.has(y), z3.Exists(
            [q], And(pre.has(q), g(q) == y)))))
        keep(ctx, o)

    @contract(N + '.__copy__', F('__copy__') + F('__deepcopy__') + F('__init__'), invs=MANY)
    def cp(ctx):
        o, pre, _ = heap(ctx, cls)
        if cls is TimeBasedSetHeap:
            ctx.env.lits = {('dict', 'TimeBasedSetHeap.__init__'): lambda: SDict('new.map', ValC, RealC, True)}
            ctx.models[TimeBasedSetHeap.push] = push_contract
        ctx.env.empty_list = ec
        deep = ctx.choose(2)
        r = ok(ctx, ctx.catch(o.__deepcopy__ if deep else o.__copy__))
        ctx.check('same class', BoolVal(type(r) is cls))
        ctx.check('a separate object', BoolVal(r is not o and get(r, 'data') is not get(o, 'data')))
        same(ctx, o, pre)
        delta(ctx, r, pre, 'the copy holds the same elements', lambda x, c: c)


def push_contract(self, item):
    v = TV.unwrap(item)
    d, m = data(self), get(self, 'item_to_timestamp')
    c = d.s['cnt']
    q = z3.Const('q!push', TV.sort)
    f = put_effect(TimeBasedSetHeap, v)
    m[item[1]] = item[0]
    d.set(cnt=z3.Lambda([q], f(q, Select(c, q))), n=m.n, heap=BoolVal(True))


def last_wins(xs, n):
    m, p = get(me(), 'item_to_timestamp'), cur().env.premap
    j, k = z3.Ints('j!w k!w')
    inr = lambda a: And(0 <= a, a < n)
    return And(
        forall(ValC, lambda x: Implies(Select(p['pres'], x), m.has(x))),
        D(lambda a: Implies(inr(a), m.has(it(xs.el(a))))),
        forall(ValC, lambda x: Implies(m.has(x), Or(
            And(Select(p['pres'], x), m.at(x) == Select(p['val'], x), z3.ForAll([k], Implies(inr(k), it(xs.el(k)) != x))),
            z3.Exists([j], And(inr(j), xs.el(j) == TV.mk(m.at(x), x),
                               z3.ForAll([k], Implies(And(j < k, k < n), it(xs.el(k)) != x))))))))


def newheap(L):
    for v in L.loc.values():
        if isinstance(v, TimeBasedSetHeap) and v is not me():
            return v
    raise KeyError


MANY = [
    ('copy: invariant', lambda L: And(*[c for _, c in inv(newheap(L))])),
    ('copy: only given entries', lambda L: forall(TV, lambda x: Implies(data(newheap(L)).has(x), L.view.src.has(x)))),
    ('copy: all so far', lambda L: D(lambda j: Implies(And(0 <= j, j < L.i), data(newheap(L)).has(L.view.src.nth(j))))),
    ('last wins', lambda L: last_wins(cur().env.items, L.i)),
    ('kept', lambda L: forall(ValC, lambda x: Implies(cur().env.pre.has(x), data(me()).has(x)))),
    ('added', lambda L: D(lambda j: Implies(And(0 <= j, j < L.i), data(me()).has(cur().env.items.el(j))))),
    ('nothing else', lambda L: forall(ValC, lambda x: Implies(And(data(me()).has(x), Not(cur().env.pre.has(x))), z3.Exists(
        [z3.Int('j!x')], And(0 <= z3.Int('j!x'), z3.Int('j!x') < L.i, cur().env.items.el(z3.Int('j!x')) == x))))),
    ('lookup', lambda L: And(*[c for _, c in inv(me())])),
]
for _c, _e in BASIC:
    mk(_c, _e)

for cls in (Heap, SetHeap):
    def mk2(cls):
        N = cls.__name__

        @contract(N + '.__init__', ['Heap.__init__'] + (['SetHeap.__init__'] if cls is SetHeap else []),
                  reach=['end', 'list', 'none'])
        def init(ctx):
            REAL[cls]()
            ctx.env.bags = {ValC.name: vless}
            if ctx.choose(2):
                xs = bag('items', ValC)
                ctx.reach('list')
                o = ok(ctx, ctx.catch(cls, xs))
                ctx.check('exactly the given elements', forall(ValC, lambda x: data(o).cnt(x) == (
                    xs.cnt(x) if cls is Heap else one(xs.has(x)))))
                ctx.check('the given list is not shared', BoolVal(get(o, 'data') is not xs))
            else:
                ctx.reach('none')
                o = ok(ctx, ctx.catch(cls))
                ctx.check('empty', forall(ValC, lambda x: data(o).cnt(x) == 0))
            keep(ctx, o)

        @contract(N + '.pop_item', [N + '.pop_item', 'Heap.pop_item'], reach=['end', 'got', 'missing'])
        def popi(ctx):
            o, pre, _ = heap(ctx, cls)
            v = ctx.obj('item')
            out = ctx.catch(o.pop_item, v)
            if out[0] == 'ok':
                ctx.reach('got')
                ctx.check('the item is returned', ValC.unwrap(out[1]) == v.t)
                ctx.check('it was there', pre.has(v.t))
                delta(ctx, o, pre, 'one occurrence is removed', lambda x, c: c - one(x == v.t))
            else:
                ctx.reach('missing')
                ctx.check('fails with ValueError', BoolVal(isinstance(out[1], ValueError)))
                ctx.check('it was not there', Not(pre.has(v.t)))
                same(ctx, o, pre)
    mk2(cls)

for cls in (TimeBasedHeap, TimeBasedSetHeap):
    def mk3(cls):
        N = cls.__name__

        @contract(N + '.put', [N + '.put', N + '.push'], reach=['end', 'clock', 'explicit'], invs=SCAN)
        def put(ctx):
            o, pre, clk = heap(ctx, cls)
            v = ctx.obj('value')
            ctx.env.key = v.t
            if ctx.choose(2):
                ctx.reach('clock')
                ok(ctx, ctx.catch(o.put, v))
                ctx.check('the clock is asked once', BoolVal(len(clk) == 1))
                t = clk[0].t
            else:
                ctx.reach('explicit')
                w = ctx.real('timestamp')
                ok(ctx, ctx.catch(o.put, w, v))
                t = w.t
            delta(ctx, o, pre, 'exactly the item is added', put_effect(cls, TV.mk(t, v.t)))

        @contract(N + '.pop_item', [N + '.pop_item'], reach=['end', 'got', 'missing'], invs=SCAN)
        def popi(ctx):
            o, pre, clk = heap(ctx, cls)
            v = ctx.obj('item')
            ctx.env.key = v.t
            out = ctx.catch(o.pop_item, v)
            if out[0] == 'ok':
                ctx.reach('got')
                r = TV.unwrap(out[1])
                ctx.check('an entry of that item', And(pre.has(r), it(r) == v.t))
                delta(ctx, o, pre, 'that entry is removed', lambda x, c: c - one(x == r))
            else:
                ctx.reach('missing')
                ctx.check('fails with ValueError', BoolVal(isinstance(out[1], ValueError)))
                ctx.check('it was not there', forall(TV, lambda x: Implies(pre.has(x), it(x) != v.t)))
                same(ctx, o, pre)

        @contract(N + '.pop_timestamp', [N + '.pop_timestamp'], reach=['end', 'got', 'missing'], invs=SCAN)
        def popt(ctx):
            o, pre, clk = heap(ctx, cls)
            w = ctx.real('timestamp')
            ctx.env.key = w.t
            out = ctx.catch(o.pop_timestamp, w)
            if out[0] == 'ok':
                ctx.reach('got')
                r = TV.mk(w.t, ValC.unwrap(out[1]))
                ctx.check('an entry of that time', pre.has(r))
                delta(ctx, o, pre, 'that entry is removed', lambda x, c: c - one(x == r))
            else:
                ctx.reach('missing')
                ctx.check('fails with ValueError', BoolVal(isinstance(out[1], ValueError)))
                ctx.check('it was not there', forall(TV, lambda x: Implies(pre.has(x), ts(x) != w.t)))
                same(ctx, o, pre)

        @contract(N + '.get_timestamp', [N + '.get_timestamp'], reach=['end', 'got', 'missing'], invs=SCAN)
        def gett(ctx):
            o, pre, clk = heap(ctx, cls)
            v = ctx.obj('item')
            ctx.env.key = v.t
            out = ctx.catch(o.get_timestamp, v)
            if out[0] == 'ok' and out[1] is not None:
                ctx.reach('got')
                ctx.check('the item is there with that time', pre.has(TV.mk(RealC.unwrap(out[1]), v.t)))
            else:
                ctx.reach('missing')
                ctx.check('missing items are reported', BoolVal(
                    out == ('ok', None) if cls is TimeBasedHeap else isinstance(out[1], ValueError)))
                ctx.check('it was not there', forall(TV, lambda x: Implies(pre.has(x), it(x) != v.t)))
            same(ctx, o, pre)

        @contract(N + '.remove', [N + '.remove', 'Heap.filter_map'])
        def rem(ctx):
            o, pre, clk = heap(ctx, cls)
            v = ctx.obj('item')
            ok(ctx, ctx.catch(o.remove, v))
            delta(ctx, o, pre, 'exactly the entries of that item are removed',
                  lambda x, c: If(it(x) == v.t, IntVal(0), c))

        @contract(N + '.pop_less_than', [N + '.pop_less_than', N + '.pop'], reach=['end', 'clock', 'explicit'], invs=GEN)
        def plt(ctx):
            o, pre, clk = heap(ctx, cls)
            ctx.env.cut_while = True
            if ctx.choose(2):
                ctx.reach('clock')
                now = ctx.real('now')
                calls = []
                object.__setattr__(o, 'default_clock_source', lambda: (calls.append(1), now)[1])
                ctx.env.limit = now.t
                g = o.pop_less_than()
            else:
                ctx.reach('explicit')
                lim = ctx.real('less')
                ctx.env.limit = lim.t
                g = o.pop_less_than(lim)
            y = drain(ctx, o, g, TV)
            lim = ctx.env.limit
            ctx.check('exactly the earlier entries are given out', forall(TV, lambda x: y.cnt(x) == If(
                ts(x) < lim, pre.cnt(x), IntVal(0))))
            delta(ctx, o, pre, 'exactly the later entries stay', lambda x, c: If(ts(x) < lim, IntVal(0), c))

        @contract(N + '.__init__', [N + '.__init__'])
        def init(ctx):
            REAL[cls]()
            f = lambda: 0
            o = ok(ctx, ctx.catch(cls, f))
            ctx.check('empty', forall(TV, lambda x: data(o).cnt(x) == 0))
            ctx.check('keeps the clock', BoolVal(o.default_clock_source is f))
            keep(ctx, o)
    mk3(cls)


@contract('TimeBasedHeap.peek_closest', ['TimeBasedHeap.peek_closest'], reach=['end', 'got', 'empty'])
def peek(ctx):
    o, pre, clk = heap(ctx, TimeBasedHeap)
    out = ctx.catch(o.peek_closest)
    if out[0] == 'ok':
        ctx.reach('got')
        r = TV.unwrap(out[1])
        ctx.check('an earliest entry', And(pre.has(r), forall(TV, lambda x: Implies(pre.has(x), ts(x) >= ts(r)))))
    else:
        ctx.reach('empty')
        ctx.check('IndexError on an empty heap', And(BoolVal(isinstance(out[1], IndexError)),
                                                     forall(TV, lambda x: pre.cnt(x) == 0)))
    same(ctx, o, pre)
