"""C05: sorted lists and rankings stay sorted by key, hold exactly what was added, and report true positions."""
from pyvc.api import *
from pyvc.runtime import ID, UNID
from satella.coding.structures.sorted_list import SortedList, SliceableDeque
from satella.coding.structures.ranking import Ranking

KEY = z3.Function('key', ValC.sort, z3.RealSort())


def key(v):
    return RealC.wrap(KEY(ValC.unwrap(v)))


class Abs(SDeque):
    """SliceableDeque as its contract describes it: a deque that can be sliced"""
    __slots__ = ()


def seq(o):
    d = get(o, 'items')
    if isinstance(d, SliceableDeque):
        d = get(d, 'deque')
    if not isinstance(d, SList):
        raise Unsupported('representation')
    return d


def keys(o):
    d = get(o, 'keys')
    if not isinstance(d, SList):
        raise Unsupported('representation')
    return d


def D(f):
    return forall(IntC, f, 'j')


def D2(f):
    return forall2(IntC, IntC, f)


def within(j, n):
    return And(0 <= j, j < n)


def inv(o):
    a, k = seq(o), keys(o)
    yield 'as many keys as items', a.n == k.n
    yield 'every key belongs to its item', D(lambda j: Implies(within(j, a.n), k.el(j) == KEY(a.el(j))))
    yield 'sorted by key', D2(lambda i, j: Implies(And(0 <= i, i <= j, j < k.n), k.el(i) <= k.el(j)))


def fields(o):
    conforms(SliceableDeque(), 'deque')
    conforms(SortedList(), 'items', 'keys', 'key')


def sl(ctx, abstract=False):
    fields(ctx)
    d = (Abs if abstract else SDeque)('items', ValC)
    if not abstract:
        sd = ctx.new(SliceableDeque, 'sd', deque=d)
    else:
        sd = d
    o = ctx.new(SortedList, 'sl', items=sd, keys=SDeque('keys', RealC), key=key)
    for _, c in inv(o):
        ctx.assume(c)
    pre = (d.arr, d.n)
    ctx.env.pre = pre
    return o, pre


def keep(ctx, o):
    for n, c in inv(o):
        ctx.check('invariant: ' + n, c)


def same(ctx, o, pre):
    d = seq(o)
    ctx.check('the items are unchanged', And(d.n == pre[1], D(lambda j: Implies(within(j, pre[1]), d.el(j) == Select(pre[0], j)))))
    keep(ctx, o)


def inserted(ctx, o, pre, r, v):
    d = seq(o)
    ctx.check('the item is inserted at the position returned, the others keep their order',
              And(within(r, pre[1] + 1), d.n == pre[1] + 1, d.el(r) == v,
                  D(lambda j: Implies(within(j, r), d.el(j) == Select(pre[0], j))),
                  D(lambda j: Implies(And(r <= j, j < pre[1]), d.el(j + 1) == Select(pre[0], j)))))


def removed(ctx, o, pre, r):
    d = seq(o)
    ctx.check('exactly the item at that position is removed, the others keep their order',
              And(within(r, pre[1]), d.n == pre[1] - 1,
                  D(lambda j: Implies(within(j, r), d.el(j) == Select(pre[0], j))),
                  D(lambda j: Implies(And(r <= j, j < pre[1] - 1), d.el(j) == Select(pre[0], j + 1)))))


INVS = [
    ('all smaller so far', lambda L: D(lambda j: Implies(within(j, L.i), Not(cur().env.kv <= keys(cur().roots['sl']).el(j))))),
    ('no match so far', lambda L: D(lambda j: Implies(within(j, L.i), seq(cur().roots['sl']).el(j) != cur().env.v))),
    ('in range', lambda L: L.i <= seq(cur().roots['sl']).n),
]


def ok(ctx, out):
    ctx.check('does not fail', BoolVal(out[0] == 'ok'))
    return out[1]


@contract('SortedList.add', ['SortedList.add', 'SliceableDeque.insert'], invs=INVS)
def add(ctx):
    o, pre = sl(ctx)
    v = ctx.obj('item')
    ctx.env.kv = KEY(v.t)
    ctx.env.v = v.t
    r = IntC.unwrap(ok(ctx, ctx.catch(o.add, v)))
    inserted(ctx, o, pre, r, v.t)
    keep(ctx, o)


@contract('SortedList.remove', ['SortedList.remove', 'SliceableDeque.__delitem__', 'SliceableDeque.__getitem__'], invs=INVS,
          reach=['end', 'removed', 'missing'])
def remove(ctx):
    o, pre = sl(ctx)
    ctx.env.cut_while = True
    v = ctx.obj('item')
    ctx.env.v = v.t
    out = ctx.catch(o.remove, v)
    d = seq(o)
    if out[0] == 'ok':
        ctx.reach('removed')
        r = z3.Int('r!w')
        ctx.check('exactly one occurrence is removed, the others keep their order', z3.Exists([r], And(
            within(r, pre[1]), d.n == pre[1] - 1, Select(pre[0], r) == v.t,
            D(lambda j: Implies(within(j, r), d.el(j) == Select(pre[0], j))),
            D(lambda j: Implies(And(r <= j, j < pre[1] - 1), d.el(j) == Select(pre[0], j + 1))))))
        keep(ctx, o)
    else:
        ctx.reach('missing')
        ctx.check('ValueError only if missing', And(BoolVal(isinstance(out[1], ValueError)),
                                                    D(lambda j: Implies(within(j, pre[1]), Select(pre[0], j) != v.t))))
        same(ctx, o, pre)


@contract('SortedList.index', ['SortedList.index', 'SliceableDeque.__getitem__'], invs=INVS, reach=['end', 'found', 'missing'])
def index(ctx):
    o, pre = sl(ctx)
    ctx.env.cut_while = True
    v = ctx.obj('item')
    ctx.env.v = v.t
    out = ctx.catch(o.index, v)
    if out[0] == 'ok':
        ctx.reach('found')
        r = IntC.unwrap(out[1])
        ctx.check('the item is at that position', And(within(r, pre[1]), Select(pre[0], r) == v.t))
    else:
        ctx.reach('missing')
        ctx.check('ValueError only if missing', And(BoolVal(isinstance(out[1], ValueError)),
                                                    D(lambda j: Implies(within(j, pre[1]), Select(pre[0], j) != v.t))))
    same(ctx, o, pre)


def mkpop(meth, where):
    @contract('SortedList.' + meth, ['SortedList.' + meth], reach=['end', 'got', 'empty'])
    def pop(ctx):
        o, pre = sl(ctx)
        out = ctx.catch(getattr(o, meth))
        if out[0] == 'ok':
            ctx.reach('got')
            r = where(pre[1])
            ctx.check('the item at the end is returned', And(pre[1] > 0, ValC.unwrap(out[1]) == Select(pre[0], r)))
            best = KEY(ValC.unwrap(out[1]))
            ctx.check('it has the extreme key', D(lambda j: Implies(within(j, pre[1]), (
                KEY(Select(pre[0], j)) >= best if meth == 'popleft' else KEY(Select(pre[0], j)) <= best))))
            removed(ctx, o, pre, r)
            keep(ctx, o)
        else:
            ctx.reach('empty')
            ctx.check('IndexError only if empty', And(BoolVal(isinstance(out[1], IndexError)), pre[1] == 0))
            same(ctx, o, pre)


mkpop('pop', lambda n: n - 1)
mkpop('popleft', lambda n: IntVal(0))


@contract('SortedList.__init__', ['SortedList.__init__', 'SliceableDeque.__init__'])
def init(ctx):
    fields(ctx)
    xs = SList('xs', ValC)
    o = ok(ctx, ctx.catch(SortedList, xs, key))
    d = seq(o)
    ctx.check('as many items as given', d.n == xs.n)
    q = z3.Int('q!w')
    ctx.check('only given items', D(lambda j: Implies(within(j, d.n), z3.Exists([q], And(within(q, xs.n), xs.el(q) == d.el(j))))))
    ctx.check('every given item', D(lambda j: Implies(within(j, xs.n), z3.Exists([q], And(within(q, d.n), d.el(q) == xs.el(j))))))
    keep(ctx, o)


@contract('SortedList.__getitem__', ['SortedList.__getitem__', 'SliceableDeque.__getitem__', 'SortedList.__len__',
                                     'SortedList.__bool__', 'SortedList.__contains__'], reach=['end', 'got', 'range'])
def getitem(ctx):
    o, pre = sl(ctx)
    i = ctx.int('i')
    out = ctx.catch(o.__getitem__, i)
    if out[0] == 'ok':
        ctx.reach('got')
        ctx.check('the i-th item, negative positions from the end', And(
            -pre[1] <= i.t, i.t < pre[1], ValC.unwrap(out[1]) == Select(pre[0], If(i.t < 0, i.t + pre[1], i.t))))
    else:
        ctx.reach('range')
        ctx.check('IndexError only out of range', And(BoolVal(isinstance(out[1], IndexError)), Or(i.t < -pre[1], i.t >= pre[1])))
    ctx.check('length', IntC.unwrap(o.__len__()) == pre[1])
    ctx.check('truth', bool_term(o.__bool__()) == (pre[1] > 0))
    v = ctx.obj('v')
    q = z3.Int('q!w')
    ctx.check('membership', bool_term(o.__contains__(v)) == z3.Exists([q], And(within(q, pre[1]), Select(pre[0], q) == v.t)))
    same(ctx, o, pre)


@contract('SliceableDeque slice', ['SliceableDeque.__getitem__'],
          invs=[('so far', lambda L: cur().roots['got'].n == L.i),
                ('exact', lambda L: D(lambda j: Implies(within(j, L.i), cur().roots['got'].el(j) == Select(
                    cur().env.pre[0], cur().env.start + j))))])
def slc(ctx):
    conforms(SliceableDeque(), 'deque')
    d = SDeque('items', ValC)
    o = ctx.new(SliceableDeque, 'sd', deque=d)
    pre = ctx.env.pre = (d.arr, d.n)
    a, b = ctx.int('a'), ctx.int('b')
    which = ctx.choose(3)
    s = slice(a if which != 1 else None, b if which != 0 else None)
    clip = lambda t: If(t < 0, If(t + d.n < 0, IntVal(0), t + d.n), If(t > d.n, d.n, t))
    st = clip(a.t) if which != 1 else IntVal(0)
    en = clip(b.t) if which != 0 else d.n
    ctx.env.start = st
    got = SList('got', ValC, empty=True)
    ctx.roots['got'] = got
    for x in o[s]:
        got.append(x)
    ln = If(en > st, en - st, IntVal(0))
    ctx.check('as many elements as the slice has', got.n == ln)
    ctx.check('the elements of the slice, in order', D(lambda j: Implies(within(j, ln), got.el(j) == Select(pre[0], st + j))))


DQ = [(lambda q, v, i: q.append(v), lambda d, v, i: d.append(v)), (lambda q, v, i: q.insert(i, v), lambda d, v, i: d.insert(i, v)),
      (lambda q, v, i: q.__setitem__(i, v), lambda d, v, i: d.__setitem__(i, v)), (lambda q, v, i: q.__delitem__(i), lambda d, v, i: d.__delitem__(i)),
      (lambda q, v, i: q[i], lambda d, v, i: d[i]), (lambda q, v, i: q.appendleft(v), lambda d, v, i: d.appendleft(v)),
      (lambda q, v, i: q.pop(), lambda d, v, i: d.pop()), (lambda q, v, i: q.popleft(), lambda d, v, i: d.popleft()),
      (lambda q, v, i: v in q, lambda d, v, i: v in d), (lambda q, v, i: q.index(v), lambda d, v, i: d.index(v))]


@contract('SliceableDeque operations', ['SliceableDeque.append', 'SliceableDeque.insert', 'SliceableDeque.__setitem__', 'SliceableDeque.__delitem__',
                                        'SliceableDeque.__getitem__', 'SliceableDeque.__len__', 'SliceableDeque.__bool__', 'SliceableDeque.__getattr__',
                                        'SliceableDeque.__contains__'])
def sdops(ctx):
    conforms(SliceableDeque(), 'deque')
    d, m = SDeque('items', ValC), SDeque('items', ValC)
    ctx.assume(m.n == d.n)
    ctx.assume(m.arr == d.arr)
    o = ctx.new(SliceableDeque, 'sd', deque=d)
    v, i = ctx.obj('v'), ctx.int('i')
    k = ctx.choose(8)
    if 3 <= k <= 4 or k == 2:
        ctx.assume(within(i.t, d.n))
    op, ref = DQ[k]
    a, b = ctx.catch(op, o, v, i), ctx.catch(ref, m, v, i)
    ctx.check('fails exactly where the deque fails', BoolVal(a[0] == b[0] and (a[0] == 'ok' or type(a[1]) is type(b[1]))))
    if a[0] == 'ok' and a[1] is not None:
        ctx.check('gives what the deque gives', ValC.unwrap(a[1]) == ValC.unwrap(b[1]))
    d = get(o, 'deque')
    ctx.check('holds what the deque holds', And(d.n == m.n, D(lambda j: Implies(within(j, m.n), d.el(j) == m.el(j)))))
    ctx.check('length', IntC.unwrap(o.__len__()) == m.n)
    ctx.check('truth', BoolC.unwrap(o.__bool__()) == (m.n > 0))


# ---- Ranking: a set of objects (distinct), positions looked up by identity ------------------------------------------
def rinv(o, ctx):
    s = get(o, 'ranking')
    a = seq(s)
    m = get(o, 'element_to_position')
    yield from inv(s)
    yield 'every element knows its position', D(lambda j: Implies(within(j, a.n), And(
        m.has(ID(a.el(j))), m.at(ID(a.el(j))) == j)))
    yield 'only elements have a position', forall(ValC, lambda x: Implies(m.has(ID(x)), And(
        within(m.at(ID(x)), a.n), a.el(m.at(ID(x))) == x)))


def distinct(a):
    return D2(lambda i, j: Implies(And(0 <= i, i < j, j < a.n), a.el(i) != a.el(j)))


def ranking(ctx):
    s, pre = sl(ctx, True)
    conforms(Ranking([], key), 'items', 'key', 'ranking', 'element_to_position')
    m = SDict('positions', IntC, IntC)
    ctx.assume(forall(ValC, lambda x: UNID(ID(x)) == x, pat=lambda x: ID(x)))
    o = ctx.new(Ranking, 'self', items=[], key=key, ranking=s, element_to_position=m)
    ctx.assume(distinct(seq(s)))
    for _, c in rinv(o, ctx):
        ctx.assume(c)
    return o, s, pre


def pos_from(L, start):
    o = cur().roots['self']
    a, m = seq(get(o, 'ranking')), get(o, 'element_to_position')
    p0 = L.pre('self.element_to_position')
    return a, m, p0


RINV = [
    ('positions so far', lambda L: (lambda a, m, p0: D(lambda j: Implies(within(j, cur().env.idx() + L.i), And(
        m.has(ID(a.el(j))), m.at(ID(a.el(j))) == j))))(*pos_from(L, 0))),
    ('other positions as on entry', lambda L: (lambda a, m, p0: forall(IntC, lambda k: Implies(m.has(k), Or(
        And(Select(p0['pres'], k), m.at(k) == Select(p0['val'], k)),
        And(0 <= m.at(k), m.at(k) < cur().env.idx() + L.i, ID(a.el(m.at(k))) == k)))))(*pos_from(L, 0))),
]


def frozen(ctx, d, how, r, pre, v=None):
    """name the new sequence by a constant, described elementwise"""
    A = ctx.fresh('items.new', z3.ArraySort(z3.IntSort(), ValC.sort))
    old = pre[0]
    j = z3.Int('j!fz')
    if how == 'insert':
        ctx.assume(z3.ForAll([j], Implies(And(0 <= j, j < r), Select(A, j) == Select(old, j)), patterns=[Select(A, j)]))
        ctx.assume(z3.ForAll([j], Implies(And(r < j, j <= pre[1]), Select(A, j) == Select(old, j - 1)), patterns=[Select(A, j)]))
        ctx.assume(z3.ForAll([j], Implies(And(0 <= j, j < pre[1]), Select(A, If(j < r, j, j + 1)) == Select(old, j)),
                             patterns=[Select(old, j)]))
        ctx.assume(Select(A, r) == v)
        n = pre[1] + 1
    else:
        ctx.assume(z3.ForAll([j], Implies(And(0 <= j, j < pre[1] - 1), Select(A, j) == Select(old, If(j < r, j, j + 1))),
                             patterns=[Select(A, j)]))
        ctx.assume(z3.ForAll([j], Implies(And(0 <= j, j < pre[1], j != r), Select(A, If(j < r, j, j - 1)) == Select(old, j)),
                             patterns=[Select(old, j)]))
        n = pre[1] - 1
    d.set(arr=A, n=n)
    ctx.check('lemma: still distinct', distinct(d))


@contract('Ranking.add', ['Ranking.add'], invs=RINV, timeout=5000)
def radd(ctx):
    o, s, pre = ranking(ctx)
    v = ctx.obj('item')
    ctx.env.kv, ctx.env.v = KEY(v.t), v.t
    ctx.assume(D(lambda j: Implies(within(j, pre[1]), Select(pre[0], j) != v.t)))
    got = []

    def add_contract(self, other):
        # proved above for SortedList.add
        r = ctx.int('r')
        ctx.assume(within(r.t, pre[1] + 1))
        d = seq(self)
        frozen(ctx, d, 'insert', r.t, pre, ValC.unwrap(other))
        keys(self).insert(r, key(other))
        for _, c in inv(self):
            ctx.assume(c)
        got.append(r.t)
        return r
    ctx.models[SortedList.add] = add_contract
    ctx.env.idx = lambda: got[0]
    ok(ctx, ctx.catch(o.add, v))
    ctx.check('added once', BoolVal(len(got) == 1))
    for n, c in rinv(o, ctx):
        ctx.check('invariant: ' + n, c)


@contract('Ranking.remove', ['Ranking.remove'], invs=RINV, timeout=5000, reach=['end', 'removed', 'missing'])
def rremove(ctx):
    o, s, pre = ranking(ctx)
    v = ctx.obj('item')
    ctx.env.v = v.t
    m = get(o, 'element_to_position')
    p = m.at(ID(v.t))
    ctx.env.idx = lambda: p

    def remove_contract(self, other):
        # proved above for SortedList.remove; elements are distinct here
        t = ValC.unwrap(other)
        d = seq(self)
        i = d._find(other)
        if i is None:
            raise ValueError()
        frozen(ctx, d, 'remove', i, pre)
        del keys(self)[IntC.wrap(i)]
        for _, c in inv(self):
            ctx.assume(c)
    ctx.models[SortedList.remove] = remove_contract
    out = ctx.catch(o.remove, v)
    if out[0] == 'ok':
        ctx.reach('removed')
        ctx.check('the item was ranked', And(within(p, pre[1]), Select(pre[0], p) == v.t))
        removed(ctx, s, pre, p)
        for n, c in rinv(o, ctx):
            ctx.check('invariant: ' + n, c)
        ctx.check('the removed item has no position', Not(get(o, 'element_to_position').has(ID(v.t))))
    else:
        ctx.reach('missing')
        ctx.check('ValueError only if missing', And(BoolVal(isinstance(out[1], ValueError)),
                                                    D(lambda j: Implies(within(j, pre[1]), Select(pre[0], j) != v.t))))


@contract('Ranking lookups', ['Ranking.calculate_ranking_for', 'Ranking.get_position_of', 'Ranking.__getitem__'],
          reach=['end', 'found', 'missing'])
def rlook(ctx):
    o, s, pre = ranking(ctx)
    v = ctx.obj('item')
    r1 = ctx.catch(o.calculate_ranking_for, v)
    r2 = ctx.catch(o.get_position_of, v)
    ctx.check('both lookups agree', BoolVal(r1[0] == r2[0]))
    if r1[0] == 'ok':
        ctx.reach('found')
        a, b = IntC.unwrap(r1[1]), IntC.unwrap(r2[1])
        ctx.check('the position of the item', And(a == b, within(a, pre[1]), Select(pre[0], a) == v.t))
        ctx.check('the item at that position', ValC.unwrap(o[r1[1]]) == v.t)
    else:
        ctx.reach('missing')
        ctx.check('refused only if missing', And(BoolVal(isinstance(r2[1], ValueError)),
                                                 D(lambda j: Implies(within(j, pre[1]), Select(pre[0], j) != v.t))))


@contract('Ranking.__init__', ['Ranking.__init__'], invs=[
    ('m', lambda L: D(lambda j: Implies(within(j, L.i), And(cur().env.m.has(ID(cur().env.a.el(j))),
                                                            cur().env.m.at(ID(cur().env.a.el(j))) == j)))),
    ('only', lambda L: forall(ValC, lambda x: Implies(cur().env.m.has(ID(x)), And(
        within(cur().env.m.at(ID(x)), L.i), cur().env.a.el(cur().env.m.at(ID(x))) == x))))])
def rinit(ctx):
    s, pre = sl(ctx, True)
    a = seq(s)
    ctx.assume(distinct(a))
    ctx.assume(forall(ValC, lambda x: UNID(ID(x)) == x, pat=lambda x: ID(x)))
    xs = SList('xs', ValC)
    calls = []

    def make(items=(), key=None):
        calls.append((items, key))
        return a
    ctx.models[SortedList] = make
    m = SDict('positions', IntC, IntC, True)
    ctx.env.m, ctx.env.a = m, a
    ctx.roots['m'] = m
    ctx.env.lits = {('dict', 'Ranking.__init__'): lambda: m}
    o = ok(ctx, ctx.catch(Ranking, xs, key))
    ctx.check('ranks the given items by the given key', BoolVal(len(calls) == 1 and calls[0][0] is xs and calls[0][1] is key))
    object.__setattr__(o, 'ranking', s)
    for n, c in rinv(o, ctx):
        ctx.check('invariant: ' + n, c)
