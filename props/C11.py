"""C11: deleting while iterating removes exactly the marked elements and visits every element once."""
from pyvc.api import *
from satella.coding.deleters import DictDeleter, ListDeleter, DIR_FORWARD, DIR_BACKWARD


def ok(ctx, out):
    ctx.check('does not fail', BoolVal(out[0] == 'ok'))
    return out[1]


class Count:
    """ghost: how many marked indices there are below j.  Defined by recursion; the lemmas are proved by induction in the
    contract 'lemma: marks below' from the same defining clauses"""

    def __init__(self, ctx, marked):
        self.f = z3.Function(ctx.fresh_name('marks'), z3.IntSort(), z3.IntSort())
        self.m = marked

    def define(self, ctx):
        j = z3.Int('j!c')
        ctx.assume(self.f(0) == 0)
        ctx.assume(z3.ForAll([j], Implies(j >= 0, self.f(j + 1) == self.f(j) + If(self.m(j), 1, 0)), patterns=[self.f(j + 1)]))

    def step(self, j):
        return Implies(j >= 0, self.f(j + 1) == self.f(j) + If(self.m(j), 1, 0))

    def lemma(self, j, k):
        """for 0 <= j <= k"""
        f = self.f
        return Implies(And(0 <= j, j <= k), And(0 <= f(k) - f(j), f(k) - f(j) <= k - j,
                                                Implies(And(j < k, Not(self.m(j))), f(k) - f(j) <= k - j - 1)))

    def use(self, ctx):
        j, k = z3.Ints('j!c k!c')
        ctx.assume(z3.ForAll([j, k], self.lemma(j, k), patterns=[z3.MultiPattern(self.f(j), self.f(k))]))


@contract('lemma: marks below', [])
def lemma(ctx):
    s = SSet('marked', IntC)
    c = Count(ctx, s.has)
    j, k = ctx.int('j').t, ctx.int('k').t
    ctx.assume(And(0 <= j, j <= k))
    ctx.assume(c.f(0) == 0)
    ctx.assume(And(c.step(j), c.step(k)))
    ctx.check('base', c.lemma(j, j))
    ctx.assume(c.lemma(j, k))
    ctx.check('step', c.lemma(j, k + 1))


def make(ctx, direction=None):
    conforms(ListDeleter([]), 'list_to_process', 'current_index', 'indices_to_delete', 'direction', 'removed')
    lst = SList('list', ValC)
    o = ctx.new(ListDeleter, 'self', list_to_process=lst, current_index=ctx.int('current'),
                indices_to_delete=SSet('marked', IntC), removed=False,
                direction=direction if direction is not None else (DIR_FORWARD, DIR_BACKWARD)[ctx.choose(2)])
    ctx.assume(And(o.current_index.t >= -1, o.current_index.t <= lst.n))
    ctx.roots['list'] = lst
    return o, lst


def so_far(L):
    e = cur().env
    j = z3.Int('j!i')
    c, i, lst = e.c, L.i, e.lst
    return [lst.n == e.n - c.f(i),
            z3.ForAll([j], Implies(And(0 <= j, j < i, Not(c.m(j))), lst.el(j - c.f(j)) == Select(e.arr, j))),
            z3.ForAll([j], Implies(And(i <= j, j < e.n), lst.el(j - c.f(i)) == Select(e.arr, j)))]


def offset(L, v):
    return num_term(v) == cur().env.c.f(L.i) if isinstance(v, SNum) or type(v) is int else None


def part(k):
    def f(L):
        c = cur().env.c
        cur().assume(And(c.step(L.i), c.f(0) == 0, Implies(L.i >= 0, And(c.f(L.i) >= 0, c.f(L.i) <= L.i))), always=True)
        return so_far(L)[k]
    return f


@contract('ListDeleter.remove_items', ['ListDeleter.remove_items', 'ListDeleter.__exit__'], timeout=20000,
          invs=[('shorter by the marks so far', part(0)), ('kept so far', part(1)), ('the rest', part(2))] + each_local('offset', offset))
def remove_items(ctx):
    o, lst = make(ctx)
    marked = o.indices_to_delete.s['pres']
    c = ctx.env.c = Count(ctx, lambda j: Select(marked, j))
    c.use(ctx)
    ctx.env.lst, ctx.env.n, ctx.env.arr = lst, lst.n, lst.s['arr']
    n, arr = lst.n, lst.s['arr']
    ok(ctx, ctx.catch(o.remove_items))
    ctx.check('the list itself is changed', BoolVal(o.list_to_process is lst))
    ctx.check('shorter by the number of marks', lst.n == n - c.f(n))
    j = z3.Int('j!i')
    ctx.check('every element not marked stays, in order', z3.ForAll([j], Implies(
        And(0 <= j, j < n, Not(Select(marked, j))), lst.el(j - c.f(j)) == Select(arr, j))))
    m, b = lst.n, lst.s['arr']
    ok(ctx, ctx.catch(o.remove_items))
    ctx.check('done once', And(lst.n == m, lst.s['arr'] == b))


@contract('ListDeleter.__next__', ['ListDeleter.__next__', 'ListDeleter.next', 'ListDeleter.__call__', 'ListDeleter.value', 'ListDeleter.delete'],
          reach=['end', 'stop', 'got'])
def nxt(ctx):
    o, lst = make(ctx)
    i, n = o.current_index.t, lst.n
    step = 1 if o.direction == DIR_FORWARD else -1
    out = ctx.catch(o.next)
    if out[0] == 'exc':
        ctx.reach('stop')
        ctx.check('stops only past the end', And(BoolVal(isinstance(out[1], StopIteration)), Or(i + step < 0, i + step >= n)))
        ctx.check('stays past the end', IntC.unwrap(o.current_index) == (n if step == 1 else -1))
        return
    ctx.reach('got')
    k = IntC.unwrap(o.current_index)
    ctx.check('the adjacent element', And(k == i + step, 0 <= k, k < n, ValC.unwrap(out[1]) == lst.el(k)))
    ctx.check('which is then the current one', And(ValC.unwrap(o()) == lst.el(k), ValC.unwrap(o.value) == lst.el(k)))
    m = o.indices_to_delete.s['pres']
    ok(ctx, ctx.catch(o.delete))
    ctx.check('marking marks it', forall(IntC, lambda x: o.indices_to_delete.has(x) == Or(x == k, Select(m, x))))


@contract('ListDeleter.prev', ['ListDeleter.prev'], reach=['end', 'stop', 'got'])
def prev(ctx):
    o, lst = make(ctx)
    i, n = o.current_index.t, lst.n
    step = -1 if o.direction == DIR_FORWARD else 1
    out = ctx.catch(o.prev)
    if out[0] == 'exc':
        ctx.reach('stop')
        ctx.check('stops only before the beginning', And(BoolVal(isinstance(out[1], StopIteration)), Or(i + step < 0, i + step >= n)))
        ctx.check('stays within reach', And(IntC.unwrap(o.current_index) >= -1, IntC.unwrap(o.current_index) <= n))
        return
    ctx.reach('got')
    k = IntC.unwrap(o.current_index)
    ctx.check('the adjacent element', And(k == i + step, 0 <= k, k < n, ValC.unwrap(out[1]) == lst.el(k)))


@contract('ListDeleter.__iter__', ['ListDeleter.__iter__', 'ListDeleter.__init__', 'ListDeleter.__reversed__'])
def it(ctx):
    o, lst = make(ctx)
    r = ok(ctx, ctx.catch(o.__reversed__))
    ctx.check('a deleter of the same list in the other direction', BoolVal(
        isinstance(r, ListDeleter) and r.list_to_process is lst and r.direction != o.direction and r is not o))
    for d in (o, r):
        x = ok(ctx, ctx.catch(d.__iter__))
        ctx.check('itself', BoolVal(x is d))
        ctx.check('starts before the first element', IntC.unwrap(d.current_index) == (-1 if d.direction == DIR_FORWARD else lst.n))
        m = d.indices_to_delete
        ctx.check('nothing is marked', BoolVal(True) if isinstance(m, set) and not m else forall(IntC, lambda q: Not(m.has(q))))


@contract('DictDeleter.__exit__', ['DictDeleter.__exit__'], invs=[
    ('marked so far are gone', lambda L: forall(ValC, lambda x: And(
        cur().env.d.has(x) == And(Select(cur().env.p, x), Not(And(cur().env.k.has(x), L.view.idx(x) < L.i))),
        Implies(cur().env.d.has(x), cur().env.d.at(x) == Select(cur().env.v, x)))))])
def dexit(ctx):
    d = SDict('dict', ValC, ValC)
    k = SSet('marked', ValC)
    ctx.assume(forall(ValC, lambda x: Implies(k.has(x), d.has(x))))
    o = ctx.new(DictDeleter, 'self', dict_to_process=d, keys_to_delete=k, iter_mode=0, current_key=ctx.obj('cur'), current_iterator=None)
    ctx.env.d, ctx.env.k, ctx.env.p, ctx.env.v = d, k, d.s['pres'], d.s['val']
    p, v, kp = d.s['pres'], d.s['val'], k.s['pres']
    r = ok(ctx, ctx.catch(o.__exit__, None, None, None))
    ctx.check('exceptions pass', BoolVal(not r))
    ctx.check('exactly the marked entries are removed', forall(ValC, lambda x: And(
        d.has(x) == And(Select(p, x), Not(Select(kp, x))), Implies(d.has(x), d.at(x) == Select(v, x)))))


@contract('DictDeleter.__next__', ['DictDeleter.__next__', 'DictDeleter.__iter__', 'DictDeleter.delete', 'DictDeleter.items', 'DictDeleter.keys',
                                   'DictDeleter.values', 'DictDeleter.__enter__', 'DictDeleter.__init__'], reach=['end', 'stop', 'got'])
def dnext(ctx):
    d = SDict('dict', ValC, ValC)
    o = DictDeleter(d)
    ctx.check('itself', BoolVal(o.__enter__() is o))
    mode = ctx.choose(4)
    if mode:
        x = (o.keys, o.values, o.items)[mode - 1]()
        ctx.check('itself ', BoolVal(x is o))
    it = o.__iter__()
    ctx.check('an iterator', BoolVal(it is o))
    ks = SSet('marked', ValC)
    o.keys_to_delete = ks
    out = ctx.catch(o.__next__)
    if out[0] == 'exc':
        ctx.reach('stop')
        ctx.check('stops at the end', And(BoolVal(isinstance(out[1], StopIteration)), d.n == 0))
        return
    ctx.reach('got')
    v = out[1]
    m = ks.s['pres']
    ok(ctx, ctx.catch(o.delete))
    k = ctx.fresh('which', ValC.sort)
    c = ValC.unwrap(o.current_key)
    ctx.check('an entry of the dictionary', d.has(c))
    want = {0: lambda: ValC.unwrap(v) == c, 1: lambda: ValC.unwrap(v) == c, 2: lambda: ValC.unwrap(v) == d.at(c),
            3: lambda: And(ValC.unwrap(v[0]) == c, ValC.unwrap(v[1]) == d.at(c))}[mode]()
    ctx.check('given as asked for', want)
    ctx.check('its key is marked', forall(ValC, lambda x: ks.has(x) == Or(x == c, Select(m, x))))
