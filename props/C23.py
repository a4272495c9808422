"""C23: iterator and sequence tools produce exactly the documented elements, in order, for every sequence."""
from pyvc.api import *
from pyvc.runtime import SIter
import satella.coding.sequences
import satella.coding.sequences.iterators as I
import atexit
import sys
from satella.coding.sequences.average import RollingArithmeticAverage
from satella.coding.iterators import chain, exhaust, SelfClosingGenerator, hint_with_length

Q, C = (sys.modules['satella.coding.sequences.' + m] for m in ('sequences', 'choose'))
N = num_term


def el(xs, k):
    return cur().val(xs.el(k))



def ok(ctx, out):
    ctx.check('does not fail', BoolVal(out[0] == 'ok'))
    return out[1]


def same(a, b):
    """the two values are the same"""
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return And(BoolVal(type(a) is type(b) and len(a) == len(b)), *[same(x, y) for x, y in zip(a, b)])
    if hasattr(type(b), 'equals'):
        return b.equals(a)
    if isinstance(b, Maybe):
        return b.none if a is None else And(Not(b.none), same(a, b.v))
    if a is b:
        return BoolVal(True)
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return bool_term(a) == bool_term(b)
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        return BoolVal(a is b)
    if isinstance(a, SVal) and isinstance(b, SVal):
        return a.t == b.t
    x, y = N(a), N(b)
    if x is None or y is None:
        return BoolVal(False)
    return x == y


class Out:
    """ghost: how many elements were given out"""
    def __init__(self):
        self.k = 0


def src(ctx, name='xs'):
    s = SList(name, ValC)
    setattr(ctx.env, name, s)
    return s


class Rows:
    """a sequence of rows of two values"""
    pytype = object

    def __init__(self, xs, make):
        self.xs, self.make = xs, make

    def _pv_view(self):
        v = self.xs.view()
        return View(v.n, lambda i: self.make(v.at(i), IntC.wrap(i)), self)


def consume(ctx, it, n, at, most=4, after=None):
    """every element `it` gives out is the next one of the specified sequence; it ends exactly when that does (n None: never)"""
    o = ctx.roots['out'] = Out()
    it = ok(ctx, ctx.catch(iter, it)) if not hasattr(it, '__next__') else it
    for _ in range(most):
        d = getattr(it, 'gi_yieldfrom', None)
        if isinstance(d, SIter):            # all that remains of another iterator is given out as it is
            m, p = d.v.n, d.pos
            j = ctx.fresh('j', z3.IntSort())
            k = N(o.k)
            ctx.check('no element after the last', Or(p >= m, k + m - p <= n))
            here = And(p <= j, j < m)
            if ctx.feasible() and ctx.fork(here):
                ctx.check('the next element', same(d.v.at(j), at(k + j - p)))
            d.pos = If(p < m, m, p)
            o.k = SNum(z3.simplify(If(p < m, k + m - p, k)))
        try:
            v = next(it)
        except StopIteration:
            ctx.reach('over')
            ctx.check('ends only after the last element', BoolVal(False) if n is None else N(o.k) == n)
            if after:
                after(N(o.k))
            return
        except Exception as e:
            ctx.check('does not fail', BoolVal(False))
            return
        ctx.reach('given')
        k = N(o.k)
        if n is not None:
            ctx.check('no element after the last', k < n)
        ctx.check('the next element', same(v, at(k)))
        o.k = o.k + 1 if isinstance(o.k, SNum) else SNum(k + 1)
    ctx.check('gives no more elements at a time', BoolVal(False))


def k_is(f):
    """invariant: the number of elements given out so far, after i iterations"""
    return lambda L: N(cur().roots['out'].k) == f(L.i)


K = [('one element each', k_is(lambda i: i)), ('as many as allowed', lambda L: L.i <= cur().env.bound)]


def as_source(ctx, s):
    """the sequence itself, or a one-shot iterator of it"""
    return [s, SIter(s.view())][ctx.choose(2)]


@contract('enumerating', ['enumerate2', 'smart_enumerate', 'count', 'append_sequence', 'to_iterator', 'infinite_counter'],
          reach=['end', 'over', 'given'], invs=K)
def t_enum(ctx):
    ctx.env.cut_while = True
    xs = src(ctx)
    n, start, step = xs.n, ctx.int('start'), ctx.int('step')
    ctx.env.steps = [step.t]
    w = ctx.choose(10)
    s = as_source(ctx, xs) if w != 8 else xs
    if w == 0:
        consume(ctx, I.enumerate2(s, start, step), n, lambda k: (SNum(start.t + k * step.t), el(xs, k)))
    elif w == 1:
        ctx.env.steps = [z3.IntVal(1)]
        consume(ctx, I.enumerate2(s), n, lambda k: (SNum(k), el(xs, k)))
    elif w in (2, 3):
        rows = Rows(xs, (lambda x, i: (x, i)) if w == 2 else (lambda x, i: [x, i]))
        consume(ctx, I.smart_enumerate(rows, start, step), n, lambda k: (SNum(start.t + k * step.t), el(xs, k), SNum(k)))
    elif w == 4:
        kw = [{'start': start}, {'start_at': start}, {}][ctx.choose(3)]
        consume(ctx, I.count(s, step=step, **kw), n, lambda k: SNum((start.t if kw else 0) + k * step.t))
    elif w in (5, 6):
        rows = Rows(xs, (lambda x, i: (x, i)) if w == 5 else (lambda x, i: [x, i]))
        a, b = ctx.obj('a'), ctx.obj('b')
        consume(ctx, I.append_sequence(rows, a, b), n, lambda k: (el(xs, k), SNum(k), a, b))
    elif w == 7:
        f = z3.Function('f', ValC.sort, ValC.sort)
        fun = lambda x: ctx.val(f(x.t))
        consume(ctx, I.to_iterator(fun)(s), n, lambda k: ctx.val(f(xs.el(k))))
    elif w == 8:
        r = ok(ctx, ctx.catch(I.infinite_counter, start, step))
        consume(ctx, r, None, lambda k: SNum(start.t + k * step.t))
    else:
        ctx.env.sym_count = True
        limit = ctx.int('limit')
        f = z3.Function('f', z3.IntSort(), ValC.sort)
        ctx.assume(limit.t >= 0)
        kw = [{}, {'start_from': start}][ctx.choose(2)]
        st = start.t if kw else z3.IntVal(0)

        def clbl(i):
            if ctx.fork(N(i) - st >= limit.t):
                raise [IndexError, ValueError][ctx.choose(2)]()
            return ctx.val(f(N(i)))
        ctx.env.bound = limit.t
        consume(ctx, I.iterate_callable(clbl, **kw), limit.t, lambda k: ctx.val(f(st + k)))


def siters(L):
    """cursors of the iterators the loop uses"""
    r = [v.pos for v in L.loc.values() if isinstance(v, SIter)] + [v.pos for v in cur().env.__dict__.get('its', ())]
    if not r:
        raise KeyError
    return r


def its(f):
    return lambda L: And(*[p == f(L.i) for p in siters(L)])


def lo(a, b):
    return If(a < b, a, b)


def nat(a):
    return If(a < 0, z3.IntVal(0), a)


@contract('picking by position', ['even', 'odd', 'other_sequence_no_longer_than', 'stop_after', 'skip_first'],
          reach=['end', 'over', 'given'], invs=K + [('cursor 2i', its(lambda i: 2 * i)), ('cursor i', its(lambda i: i))])
def t_pick(ctx):
    ctx.env.cut_while = True
    xs, ys = src(ctx), src(ctx, 'ys')
    n, k = xs.n, ctx.int('n')
    w = ctx.choose(5)
    s, t = as_source(ctx, xs), as_source(ctx, ys)
    ctx.env.its = [v for v in ((s, t) if w == 2 else (s, )) if isinstance(v, SIter)]
    ctx.env.bound = nat(k.t)
    if w == 0:
        consume(ctx, I.even(s), (n + 1) / 2, lambda j: el(xs, 2 * j))
    elif w == 1:
        consume(ctx, I.odd(s), n / 2, lambda j: el(xs, 2 * j + 1))
    elif w == 2:
        ctx.env.bound = lo(n, ys.n)
        consume(ctx, I.other_sequence_no_longer_than(s, t), lo(n, ys.n), lambda j: el(ys, j))
    elif w == 3:
        r = ok(ctx, ctx.catch(I.stop_after, s, k))
        consume(ctx, r, lo(nat(k.t), n), lambda j: el(xs, j),
                after=lambda j: ctx.check('no more elements are taken than given out', BoolVal(not isinstance(s, SIter)) if not isinstance(s, SIter) else s.pos == j))
    else:
        r = ok(ctx, ctx.catch(I.skip_first, s, k))
        consume(ctx, r, nat(n - nat(k.t)), lambda j: el(xs, j + nat(k.t)))


def rank(ctx, n, p, name='rank'):
    """ghost: rank(i) of the positions before i satisfy p; pick(k) is the k-th of them"""
    f = z3.Function(ctx.fresh_name(name), z3.IntSort(), z3.IntSort())
    g = z3.Function(ctx.fresh_name('pick'), z3.IntSort(), z3.IntSort())
    i, j = z3.Ints('i!r j!r')
    ctx.assume(f(0) == 0)

    def at(k):
        ctx.assume(f(k + 1) == f(k) + If(p(k), 1, 0))       # the definition of the rank, where it is needed
        return f(k)
    at.f = f

    def pick(k):
        ctx.assume(Implies(And(0 <= k, k < f(n)), And(0 <= g(k), g(k) < n, p(g(k)), f(g(k)) == k)))
        return g(k)
    # monotone: by induction on j; the step is an obligation
    c, d = ctx.fresh('c', z3.IntSort()), ctx.fresh('d', z3.IntSort())
    at(c), at(d)
    ctx.check('lemma: the rank is monotone, base', f(c) + If(p(c), 1, 0) <= f(c + 1))
    ctx.check('lemma: the rank is monotone', Implies(And(c < d, f(c) + If(p(c), 1, 0) <= f(d)), f(c) + If(p(c), 1, 0) <= f(d + 1)))
    ctx.assume(z3.ForAll([i, j], Implies(And(0 <= i, i < j), f(i) + If(p(i), 1, 0) <= f(j)), patterns=[z3.MultiPattern(f(i), f(j))]))
    ctx.assume(z3.ForAll([i], Implies(And(0 <= i, p(i)), g(f(i)) == i), patterns=[f(i)]))
    return at, pick


def is_list_of(ctx, r, n, at, what=''):
    """the list has the n elements at(0) ... at(n-1)"""
    if isinstance(r, list):
        ctx.check(what + 'the length of the list', BoolVal(True) if not r and n is None else N(len(r)) == n)
        for j, v in enumerate(r):
            ctx.check(what + 'the elements of the list', same(v, at(z3.IntVal(j))))
        return
    ctx.check(what + 'a list', BoolVal(isinstance(r, SList)))
    ctx.check(what + 'the length of the list', r.n == n)
    j = ctx.fresh('j', z3.IntSort())
    if ctx.fork(And(0 <= j, j < n)):
        ctx.check(what + 'the elements of the list', same(r.view().at(j), at(j)))


def P(i):
    return cur().env.P(i)


def none_before(L):
    return cur().env.rank(L.i) == 0


def at_most_one(L):
    return cur().env.rank(L.i) <= 1


def picked_so_far(L):
    e = cur().env
    j = z3.Int('j!b')
    r = []
    mine = {id(v) for v in cur().roots.values()} | {id(v) for v in e.__dict__.values()}
    for v in L.loc.values():
        if isinstance(v, SList) and id(v) not in mine:
            r.append(And(v.n == e.rank(L.i), z3.ForAll([j], Implies(And(0 <= j, j < L.i, P(j)), v.el(e.rank.f(j)) == e.value(j)), patterns=[e.rank.f(j)])))
        elif isinstance(v, list) and not v:
            r.append(e.rank(L.i) == 0)
    if not r:
        raise KeyError
    return And(*r)


@contract('filtering into a list', ['filter_out_nones', 'filter_out_false'], reach=['end', 'nones', 'false', 'kept'], invs=[('kept so far', picked_so_far)])
def t_filter(ctx):
    w = ctx.choose(2)
    codec = [OptC(ValC), OptC(IntC)][w]
    xs = ctx.env.xs = SList('xs', codec)
    ctx.reach(['nones', 'false'][w])
    p = [lambda i: Not(codec.is_none(xs.el(i))), lambda i: And(Not(codec.is_none(xs.el(i))), codec.the(xs.el(i)) != 0)][w]
    ctx.env.P, ctx.env.value = p, (lambda j: codec.the(xs.el(j)))
    ctx.env.rank, pick = rank(ctx, xs.n, p)
    s = as_source(ctx, xs)
    r = ok(ctx, ctx.catch([Q.filter_out_nones, Q.filter_out_false][w], s))
    j = ctx.fresh('j', z3.IntSort())
    if isinstance(r, list):
        ctx.check('as many as match', BoolVal(not r) if not r else BoolVal(False))
        ctx.check('none matches', ctx.env.rank(xs.n) == 0)
        return
    ctx.check('as many as match', r.n == ctx.env.rank(xs.n))
    if ctx.fork(And(0 <= j, j < xs.n, p(j))):
        ctx.reach('kept')
        ctx.check('every matching element, in order', r.el(ctx.env.rank(j)) == (codec.the(xs.el(j))))


def some_found(L):
    """candidate for the search for the only match: a flag tells if there was one"""
    e = cur().env
    flags = [bool_term(v) for k, v in L.loc.items() if isinstance(v, (SBool, bool)) and k != 'check_multiple']
    return And(*[v == (e.rank(L.i) > 0) for v in flags]) if flags else None


def value_found(L):
    """... and a value is it"""
    e = cur().env
    vals = [L.loc[k[4:]] for k, c in L.cut.info.havoc.items() if k[4:] in L.loc and isinstance(c, type(OptC(ValC)))]
    return Implies(e.rank(L.i) > 0, And(*[v.t == e.xs.el(e.pick(0)) if isinstance(v, SVal) else BoolVal(False) for v in vals]))


def search(ctx):
    xs = ctx.env.xs = src(ctx)
    p = z3.Function('matches', ValC.sort, z3.BoolSort())
    ctx.env.P = lambda i: p(xs.el(i))
    pred = lambda x: SBool(p(x.t))
    ctx.env.rank, ctx.env.pick = rank(ctx, xs.n, ctx.env.P)
    s = as_source(ctx, xs)
    first = lambda i: And(0 <= i, i < xs.n, P(i), ctx.env.rank(i) == 0)
    return xs, pred, s, first, ctx.env.rank(xs.n)


@contract('the first match', ['choose', 'choose_with_index', 'index_of'], reach=['end', 'found', 'not found'], invs=[('none before', none_before)])
def t_first(ctx):
    xs, pred, s, first, many = search(ctx)
    w = ctx.choose(3)
    out = ctx.catch([Q.index_of, C.choose_with_index, C.choose][w], pred, s)
    if out[0] == 'exc':
        ctx.reach('not found')
        ctx.check('ValueError, if nothing matches', And(BoolVal(type(out[1]) is ValueError), many == 0))
        return
    r = out[1]
    ctx.reach('found')
    if w == 0:
        ctx.check('the first match', first(N(r)))
    elif w == 1:
        ctx.check('the first match, with its index', And(first(N(r[1])), same(r[0], el(xs, N(r[1])))))
    else:
        m = ctx.env.pick(0)
        ctx.check('the first match', And(first(m), same(r, el(xs, m))))
        if isinstance(s, SIter):
            ctx.check('looks no further', s.pos == m + 1)


@contract('the only match', ['choose', 'choose_one'], reach=['end', 'found', 'many'],
          invs=[('one at most', at_most_one), ('a match is known', some_found), ('it is the match', value_found)])
def t_only(ctx):
    xs, pred, s, first, many = search(ctx)
    out = ctx.catch([C.choose_one, lambda a, b: C.choose(a, b, check_multiple=True)][ctx.choose(2)], pred, s)
    if out[0] == 'exc':
        ctx.reach('many')
        ctx.check('ValueError, if not exactly one matches', And(BoolVal(type(out[1]) is ValueError), many != 1))
        return
    ctx.reach('found')
    m = ctx.env.pick(0)
    ctx.check('the only match', And(many == 1, first(m), same(out[1], el(xs, m))))
    if isinstance(s, SIter):
        ctx.check('looks at all of them', s.pos == xs.n)


def best_so_far(L):
    xs = cur().env.xs
    j = z3.Int('j!m')
    nums = [v for k, v in L.loc.items() if isinstance(v, (SNum, int)) and 'loc.' + k in L.cut.info.havoc]
    if len(nums) != 2:
        return None
    r = []
    for i, m in (nums, nums[::-1]):
        i, m = N(i), N(m)
        r.append(And(0 <= i, i < xs.n, m == xs.el(i), z3.ForAll([j], Implies(And(0 <= j, j < L.i), xs.el(j) <= m), patterns=[xs.el(j)]),
                     z3.ForAll([j], Implies(And(0 <= j, j < i), xs.el(j) < m), patterns=[xs.el(j)]), Or(i < L.i, i == 0)))
    return r[0], r[1]


@contract('index_of_max', ['index_of_max'], reach=['end', 'found', 'empty'],
          invs=[('best so far', lambda L: best_so_far(L)[0]), ('best so far (swapped)', lambda L: best_so_far(L)[1])])
def t_max(ctx):
    xs = ctx.env.xs = SList('xs', IntC)
    out = ctx.catch(Q.index_of_max, xs)
    if out[0] == 'exc':
        ctx.reach('empty')
        ctx.check('ValueError, if empty', And(BoolVal(type(out[1]) is ValueError), xs.n == 0))
        return
    ctx.reach('found')
    i, j = N(out[1]), ctx.fresh('j', z3.IntSort())
    ctx.check('an index', And(0 <= i, i < xs.n))
    ctx.assume(And(0 <= j, j < xs.n))
    ctx.check('of a maximum, the first one', And(xs.el(j) <= xs.el(i), Implies(j < i, xs.el(j) < xs.el(i))))


def listed(L):
    """every list the loop builds has n(i) elements, the j-th of them at(j)"""
    n, at = cur().env.listed
    mine = {id(v) for v in cur().roots.values()} | {id(v) for v in cur().env.__dict__.values()}
    r = []
    j = z3.Int('j!b')
    for k, v in L.loc.items():
        if type(v) is SList and id(v) not in mine:
            r.append(And(v.n == n(L), z3.ForAll([j], Implies(And(0 <= j, j < v.n), v.el(j) == at(L, j)), patterns=[v.el(j)])))
        elif type(v) is list and not v:
            r.append(n(L) == 0)
    return And(*r) if r else None


@contract('taking', ['take_n', 'n_th', 'is_empty', 'length', 'exhaust', 'try_close'], reach=['end', 'taken', 'too short', 'nth', 'length'],
          invs=[('taken so far', listed), ('cursor i', its(lambda i: i)), ('cursor skip+i', its(lambda i: lo(nat(cur().env.skip), cur().env.n) + i))])
def t_take(ctx):
    ctx.env.cut_while = True
    xs = src(ctx)
    n, k, skip = xs.n, ctx.int('n'), ctx.int('skip')
    w = ctx.choose(5)
    s = as_source(ctx, xs) if w < 4 else SIter(xs.view())
    ctx.env.its = [s] if isinstance(s, SIter) else []
    ctx.env.n, ctx.env.skip = n, skip.t
    if w == 0:
        kw = [{}, {'skip': skip}][ctx.choose(2)]
        z = lo(nat(skip.t), n) if kw else z3.IntVal(0)
        ctx.env.skip = skip.t if kw else z3.IntVal(0)
        ctx.env.listed = (lambda L: L.i), (lambda L, j: xs.el(z + j))
        r = ok(ctx, ctx.catch(I.take_n, s, k, **kw))
        ctx.reach('taken')
        is_list_of(ctx, r, lo(nat(k.t), n - z), lambda j: el(xs, z + j))
        if isinstance(s, SIter):
            ctx.check('takes no more than it gives', s.pos == z + lo(nat(k.t), n - z))
    elif w == 1:
        out = ctx.catch(I.n_th, s, *([(), (k, )][0 if ctx.fork(k.t == 0) else 1]))
        if out[0] == 'exc':
            ctx.reach('too short')
            ctx.check('IndexError, if too short', And(BoolVal(type(out[1]) is IndexError), nat(k.t) >= n))
        else:
            ctx.reach('nth')
            ctx.check('the n-th', And(nat(k.t) < n, same(out[1], el(xs, nat(k.t)))))
    elif w == 2:
        ex = [True, False][ctx.choose(2)]
        r = ok(ctx, ctx.catch(I.is_empty, s, *([(), (True, )][ctx.choose(2)] if ex else (False, ))))
        ctx.check('empty if it has no elements', bool_term(r) == (n == 0))
        if not ex and isinstance(s, SIter):
            ctx.check('looks at one element', s.pos <= 1)
    elif w == 3:
        ctx.reach('length')
        ctx.check('the number of elements', N(ok(ctx, ctx.catch(I.length, s))) == n)
    else:
        ctx.check('gives None', BoolVal(ok(ctx, ctx.catch(exhaust, s)) is None))
        ctx.check('to the end', s.pos == n)


def previous_known(L):
    """the values carried over are the elements before the cursor"""
    xs, e = cur().env.xs, L.cut.info.havoc
    vals = [L.loc[k[4:]] for k, c in e.items() if k.startswith('loc.') and k[4:] in L.loc and isinstance(L.loc[k[4:]], SVal)]
    return And(*[v.t == xs.el(L.i) for v in vals]) if vals else None


class Maybe:
    def __init__(self, none, v):
        self.none, self.v = none, v


@contract('neighbours', ['is_last', 'add_next'], reach=['end', 'over', 'given', 'empty'], invs=K + [('the previous one', previous_known)])
def t_next(ctx):
    xs = src(ctx)
    n = xs.n
    s = as_source(ctx, xs)
    if not ctx.fork(n > 0):
        ctx.reach('empty')
    w = ctx.choose(4)
    if w == 0:
        consume(ctx, Q.is_last(s), n, lambda k: (SBool(k == n - 1), el(xs, k)))
    elif w == 1:
        consume(ctx, Q.add_next(s), n, lambda k: (el(xs, k), Maybe(k == n - 1, el(xs, k + 1))))
    elif w == 2:
        consume(ctx, Q.add_next(s, wrap_over=True), n, lambda k: (el(xs, k), ctx.val(If(k == n - 1, xs.el(0), xs.el(k + 1)))))
    else:
        consume(ctx, Q.add_next(s, skip_last=True), nat(n - 1), lambda k: (el(xs, k), el(xs, k + 1)))


def offsets(ctx, length):
    """ghost: off(i) elements come from the rows before row i; row(k) and col(k) locate the k-th element"""
    I_ = z3.IntSort()
    f, row, col = (z3.Function(ctx.fresh_name(x), I_, I_) for x in ('off', 'row', 'col'))
    ctx.assume(f(0) == 0)

    def off(i):
        ctx.assume(f(i + 1) == f(i) + nat(length(i)))
        return f(i)

    def at(i, j):
        """row and column of the j-th element of row i are i and j"""
        off(i)
        ctx.assume(Implies(And(0 <= i, 0 <= j, j < length(i)), And(row(off(i) + j) == i, col(off(i) + j) == j)))
    c, d = ctx.fresh('c', I_), ctx.fresh('d', I_)
    off(c), off(d)
    ctx.check('lemma: the offsets are monotone', And(f(c) <= f(c + 1), Implies(And(c < d, f(c + 1) <= f(d)), f(c + 1) <= f(d + 1))))
    i, j = z3.Ints('i!o j!o')
    ctx.assume(z3.ForAll([i, j], Implies(And(0 <= i, i < j), f(i + 1) <= f(j)), patterns=[z3.MultiPattern(f(i + 1), f(j))]))
    return off, row, col, at


def outer(L):
    """the outer loop: all rows before have been given out"""
    e = cur().env
    if e.__dict__.setdefault('outer_site', L.site) != L.site:
        return None
    e.row = L.i
    return N(cur().roots['out'].k) == e.off(L.i)


def inner(L):
    """an inner loop: its elements follow those given out before it"""
    e = cur().env
    if e.__dict__.get('outer_site') in (None, L.site):
        return None
    e.at(e.row, e.col(L))
    return N(cur().roots['out'].k) == N(L.pre('out')['k']) + nat(e.col(L))


class Pairs:
    """a dictionary of lists"""
    def __init__(self, xs, ys, length):
        self.xs, self.ys, self.length = xs, ys, length

    def items(self):
        v = self.xs.view()
        ys, ln = self.ys, self.length
        return View(v.n, lambda i: (v.at(i), View(nat(ln(i)), lambda j: cur().val(ys(i, j)))))


@contract('nested', ['half_cartesian', 'iter_dict_of_list'], reach=['end', 'over', 'given'], invs=[('rows before', outer), ('within the row', inner)])
def t_nested(ctx):
    xs = src(ctx)
    n = xs.n
    w = ctx.choose(3)
    if w < 2:
        o = w
        ctx.env.off, row, col, ctx.env.at = offsets(ctx, lambda i: n - i - o)
        s = as_source(ctx, xs)
        ctx.env.col = lambda L: L.i - ctx.env.row - o
        kw = [{}, {'include_same_pairs': False}][w]
        cell = lambda k: (el(xs, row(k)), el(xs, row(k) + o + col(k)))
        consume(ctx, Q.half_cartesian(s, **kw), ctx.env.off(n), cell)
    else:
        ln = z3.Function('length', z3.IntSort(), z3.IntSort())
        ys = z3.Function('ys', z3.IntSort(), z3.IntSort(), ValC.sort)
        ctx.env.off, row, col, ctx.env.at = offsets(ctx, ln)
        ctx.env.col = lambda L: L.i
        consume(ctx, I.iter_dict_of_list(Pairs(xs, ys, ln)), ctx.env.off(n), lambda k: (el(xs, row(k)), ctx.val(ys(row(k), col(k)))))


def chunked(L):
    """lists of a grouping loop: the elements since the last group given out"""
    e = cur().env
    k = N(cur().roots['out'].k)
    r = []
    mine = {id(v) for v in cur().roots.values()} | {id(v) for v in e.__dict__.values()}
    j = z3.Int('j!c')
    for v in L.loc.values():
        if type(v) is SList and id(v) not in mine:
            r.append(And(v.n == L.i - k * e.size, z3.ForAll([j], Implies(And(0 <= j, j < v.n), v.el(j) == e.xs.el(k * e.size + j)), patterns=[v.el(j)])))
            r.append(And(v.n <= e.size, Or(v.n > 0, L.i == 0)))
        elif type(v) is list:
            r.append(And(L.i == k * e.size + len(v), len(v) <= e.size, *[x.t == e.xs.el(k * e.size + j) for j, x in enumerate(v)]))
    return And(k >= 0, *r) if r else None


class Group:
    def __init__(self, xs, start, n):
        self.xs, self.start, self.n = xs, start, n

    def equals(self, v):
        ctx = cur()
        if not isinstance(v, (SList, list)) or isinstance(v, list) and not v:
            return BoolVal(False)
        if isinstance(v, list):
            return And(self.n == len(v), *[same(x, el(self.xs, self.start + j)) for j, x in enumerate(v)])
        j = ctx.fresh('j', z3.IntSort())
        return And(v.n == self.n, Implies(And(0 <= j, j < self.n), v.el(j) == self.xs.el(self.start + j)))


@contract('group_quantity', ['group_quantity'], reach=['end', 'over', 'given'], invs=K + [('since the last group', chunked),
    ('the group before began within', lambda L: Or(N(cur().roots['out'].k) == 0, (N(cur().roots['out'].k) - 1) * cur().env.size < cur().env.xs.n))])
def t_group(ctx):
    ctx.env.cut_while = True
    xs = src(ctx)
    n, size = xs.n, ctx.int('size')
    ctx.assume(size.t >= 1)
    ctx.env.size = size.t
    ctx.env.steps = [size.t]
    s = as_source(ctx, xs)
    groups = ctx.fresh('groups', z3.IntSort())
    ctx.assume(And(groups >= 0, groups * size.t >= n, (groups - 1) * size.t < n))     # ghost: n / size, rounded up
    consume(ctx, Q.group_quantity(size, s), groups, lambda k: Group(xs, k * size.t, lo(size.t, n - k * size.t)))


@contract('unique', ['unique'], reach=['end', 'over', 'given'], invs=[
    ('one element each', lambda L: N(cur().roots['out'].k) == cur().env.rank(L.i)),
    ('those seen', lambda L: cur().env.seen_before(L))])
def t_unique(ctx):
    xs = src(ctx)
    n = xs.n
    w = z3.Function('first position', ValC.sort, z3.IntSort())       # ghost: where a value occurs first
    j = z3.Int('j!u')
    ctx.assume(z3.ForAll([j], Implies(And(0 <= j, j < n), And(0 <= w(xs.el(j)), w(xs.el(j)) <= j, xs.el(w(xs.el(j))) == xs.el(j))), patterns=[xs.el(j)]))
    ctx.env.rank, pick = rank(ctx, n, lambda i: w(xs.el(i)) == i)
    sets = []

    def make():
        sets.append(SSet('seen', ValC, empty=True))
        return sets[-1]
    ctx.env.lits = {'set': make}
    ctx.models[set] = lambda: make()
    x = z3.Const('x!u', ValC.sort)

    def seen(L):
        s = sets[-1]
        return z3.ForAll([x], s.has(x) == And(0 <= w(x), w(x) < L.i, xs.el(w(x)) == x), patterns=[s.has(x)])
    ctx.env.seen_before = seen
    consume(ctx, I.unique(as_source(ctx, xs)), ctx.env.rank(n), lambda k: el(xs, pick(k)))


@contract('AlreadySeen', ['AlreadySeen.__init__', 'AlreadySeen.is_unique'], reach=['end', 'new', 'seen', 'unhashable'])
def t_seen(ctx):
    a = conforms(I.AlreadySeen(), 'set', 'list', also=('_monitor_lock', '__orig_class__'))
    ctx.check('nothing is seen at first', BoolVal(not a.set and not a.list))
    a.set, a.list = SSet('set', ValC), SList('list', ValC)
    key = ctx.obj('key')
    unhashable = ctx.choose(2)

    def h(x):
        if unhashable:
            raise TypeError('unhashable')
        return 1
    ctx.models[hash] = h
    x = z3.Const('x!s', ValC.sort)
    j = z3.Int('j!s')
    l0, n0 = a.list.arr, a.list.n
    before_set = a.set.has(key.t)
    before = Or(before_set, z3.Exists([j], And(0 <= j, j < n0, z3.Select(l0, j) == key.t)))
    y = ctx.obj('other').t
    other = Or(a.set.has(y), z3.Exists([j], And(0 <= j, j < n0, z3.Select(l0, j) == y)))
    if unhashable:
        ctx.reach('unhashable')
    r = ok(ctx, ctx.catch(a.is_unique, key))
    r = bool(r)
    ctx.reach('new' if r else 'seen')
    ctx.check('unique exactly the first time', before == BoolVal(not r))
    now = lambda t: Or(a.set.has(t), z3.Exists([j], And(0 <= j, j < a.list.n, a.list.el(j) == t)))
    ctx.check('seen from now on', now(key.t))
    ctx.check('nothing else is', Implies(y != key.t, now(y) == other))


def inserted(L):
    """add_many_immediate: the first i of the new elements are in front of the old ones"""
    e = cur().env
    d, ts, a0, n0 = e.d, e.ts, e.a0, e.n0
    j = z3.Int('j!i')
    return And(d.n == n0 + L.i, z3.ForAll([j], Implies(And(0 <= j, j < d.n), d.el(j) == If(j < L.i, ts.el(j), z3.Select(a0, j - L.i)))))


def a_queue(ctx):
    c = I.ConstruableIterator()
    conforms(c, 'entries')
    c.entries = ctx.env.d = SDeque('entries', ValC)
    return c, c.entries


@contract('ConstruableIterator', ['ConstruableIterator.*'], reach=['end', 'given', 'over'], invs=[('in front', inserted)])
def t_queue(ctx):
    c, d = a_queue(ctx)
    n0, a0 = d.n, d.arr
    ctx.env.n0, ctx.env.a0 = n0, a0
    ts = ctx.env.ts = SList('ts', ValC)
    x = ctx.obj('x')
    j = ctx.fresh('j', z3.IntSort())
    old = lambda i: z3.Select(a0, i)
    w = ctx.choose(6)
    if w == 5:
        out = ctx.catch(c.__next__)
        if out[0] == 'exc':
            ctx.reach('over')
            ctx.check('ends only if there is nothing left', And(BoolVal(type(out[1]) is StopIteration), n0 == 0))
            return
        ctx.reach('given')
        ctx.check('the first', And(n0 > 0, out[1].t == old(0)))
        n, at = n0 - 1, old(j + 1)
    elif w == 4:
        ctx.check('its length', N(ok(ctx, ctx.catch(c.__length_hint__))) == n0)
        ctx.check('its own iterator', BoolVal(ok(ctx, ctx.catch(c.__iter__)) is c))
        n, at = n0, old(j)
    else:
        ok(ctx, ctx.catch([c.add, c.add_immediate, c.add_many, c.add_many_immediate][w], x if w < 2 else ts))
        n = n0 + (1 if w < 2 else ts.n)
        at = [If(j < n0, old(j), x.t), If(j == 0, x.t, old(j - 1)), If(j < n0, old(j), ts.el(j - n0)), If(j < ts.n, ts.el(j), old(j - ts.n))][w]
    ctx.check('as many are queued', d.n == n)
    ctx.check('in order', Implies(And(0 <= j, j < n), d.el(j) == at))


@contract('walk', ['walk'], reach=['end', 'given', 'over', 'skipped', 'leaf'])
def t_walk(ctx):
    deep, leaves = bool(ctx.choose(2)), bool(ctx.choose(2))
    root = ctx.obj('root')
    q = SDeque('queue', ValC)          # any state of the worklist
    c = I.ConstruableIterator()
    log = []

    def make(it):
        ctx.check('starts with the children of the structure', BoolVal(it is q))
        c.entries = q
        return c
    ctx.models[I.ConstruableIterator] = make

    def front(self, t):
        log.append(('front', t))

    def back(self, t):
        log.append(('back', t))
    ctx.models[I.ConstruableIterator.add_many_immediate] = front
    ctx.models[I.ConstruableIterator.add_many] = back
    kids = {}

    def getter(o):
        if o is root:
            return q
        if kids:                        # the second element of the worklist: the step is over
            ctx.reach('skipped')
            ctx.check('only an inner node is skipped, and only if leaves are asked for', And(BoolVal(leaves), kids['n'] > 0))
            check_step()
            raise PathEnd()
        w = ctx.choose(3)
        r = [None, 7, SList('children', ValC)][w]
        kids.update(of=o, r=r, n=r.n if w == 2 else z3.IntVal(0))
        return r
    n0, a0 = q.n, q.arr

    def check_step():
        j = ctx.fresh('j', z3.IntSort())
        ctx.check('the first of the worklist', And(n0 > 0, kids['of'].t == z3.Select(a0, 0)))
        r = kids['r']
        ctx.check('the children go where told to, if there are any',
                  If(kids['n'] > 0, BoolVal(len(log) == 1 and log[0][0] == ('front' if deep else 'back') and log[0][1] is r), BoolVal(not log)))
    g = ok(ctx, ctx.catch(I.walk, root, getter, deep, leaves))
    try:
        v = next(g)
    except StopIteration:
        ctx.reach('over')
        if kids:
            check_step()
            ctx.check('ends with nothing left', And(n0 == 1, BoolVal(leaves), kids['n'] > 0))
        else:
            ctx.check('ends with nothing left', n0 == 0)
        return
    ctx.reach('given')
    check_step()
    if leaves:
        ctx.reach('leaf')
        ctx.check('leaves only', kids['n'] == 0)
    ctx.check('the node', same(v, kids['of']))
    ctx.check('no other is taken yet', q.n == n0 - 1)


@contract('make_list', ['make_list', 'map_list', 'infinite_iterator'], reach=['end', 'made', 'mapped', 'infinite'],
          invs=[('made so far', listed), ('a copy each', lambda L: N(cur().roots['copies'].k) == L.i)] + K)
def t_make(ctx):
    import copy
    ctx.env.cut_while = True
    w = ctx.choose(3)
    if w == 0:
        e, n = ctx.obj('element'), ctx.int('n')
        deep = bool(ctx.choose(2))
        made = [z3.Function('shallow copy', z3.IntSort(), ValC.sort), z3.Function('deep copy', z3.IntSort(), ValC.sort)]
        o = ctx.roots['copies'] = Out()

        def cp(kind):
            def f(x):
                ctx.check('the element is copied', same(x, e))
                ctx.check('as told to', BoolVal(kind == deep))
                k = N(o.k)
                o.k = SNum(k + 1)
                return ctx.val(made[kind](k))
            return f
        ctx.models[copy.copy], ctx.models[copy.deepcopy] = cp(False), cp(True)
        ctx.env.listed = (lambda L: L.i), (lambda L, j: made[deep](j))
        ctx.env.copies = o
        r = ok(ctx, ctx.catch(Q.make_list, e, n, *([(), (False, )][ctx.choose(2)] if not deep else (True, ))))
        ctx.reach('made')
        is_list_of(ctx, r, nat(n.t), lambda j: ctx.val(made[deep](j)))
    elif w == 1:
        xs = src(ctx)
        f = z3.Function('f', ValC.sort, ValC.sort)
        r = ok(ctx, ctx.catch(I.map_list, lambda x: ctx.val(f(x.t)), xs))
        ctx.reach('mapped')
        is_list_of(ctx, r, xs.n, lambda j: ctx.val(f(xs.el(j))))
    else:
        ctx.reach('infinite')
        v = [ctx.obj('value'), None][ctx.choose(2)]
        h = ctx.choose(2) if v is None else 0
        made = ctx.obj('made')
        g = Q.infinite_iterator(v, (lambda: made) if h else None) if v is None else Q.infinite_iterator(returns=v)
        consume(ctx, g, None, lambda k: made if h else v)


@contract('RollingArithmeticAverage', ['RollingArithmeticAverage.*'], reach=['end', 'full', 'room', 'average', 'empty', 'clear'])
def t_avg(ctx):
    n = ctx.int('n')
    ctx.assume(n.t >= 1)
    a = RollingArithmeticAverage(n)
    conforms(a, 'n', 'queue', 'tot_sum')
    ctx.check('starts empty', And(BoolVal(len(a.queue) == 0), N(a.tot_sum) == 0, N(a.n) == n.t))
    h = z3.Function('history', z3.IntSort(), z3.RealSort())
    S = z3.Function('sum of the first', z3.IntSort(), z3.RealSort())
    m = ctx.fresh('inserted', z3.IntSort())
    a.queue, a.tot_sum = SDeque('queue', RealC), ctx.real('total')
    q = a.queue
    j = z3.Int('j!a')

    def inv(m):
        return And(q.n <= n.t, q.n <= m, N(a.tot_sum) == S(m) - S(m - q.n), z3.ForAll([j], Implies(And(0 <= j, j < q.n), q.el(j) == h(m - q.n + j))))
    ctx.assume(And(inv(m), m >= 0))
    n0 = q.n
    w = ctx.choose(3)
    if w == 0:
        ctx.fork(n0 == n.t)
        ctx.reach('full' if ctx.entails(n0 == n.t) else 'room')
        x = ctx.real('x')
        ctx.assume(And(h(m) == x.t, S(m + 1) == S(m) + h(m), S(m - n0 + 1) == S(m - n0) + h(m - n0)))
        ok(ctx, ctx.catch(a.insert, x))
        ctx.check('the last n values, and their sum', inv(m + 1))
        ctx.check('as many as there may be', q.n == lo(n0 + 1, n.t))
    elif w == 1:
        out = ctx.catch(a.avg)
        if out[0] == 'exc':
            ctx.reach('empty')
            ctx.check('ZeroDivisionError, if empty', And(BoolVal(type(out[1]) is ZeroDivisionError), n0 == 0))
        else:
            ctx.reach('average')
            ctx.check('the average', And(n0 > 0, N(out[1]) * z3.ToReal(n0) == S(m) - S(m - n0)))
    else:
        ctx.reach('clear')
        ok(ctx, ctx.catch(a.clear))
        ctx.check('empty again', And(q.n == 0, inv(m)))




def a_wrapper(ctx):
    """a ListWrapperIterator in any state its invariant allows"""
    xs = src(ctx)
    o = I.ListWrapperIterator(())
    conforms(o, 'iterator', 'exhausted', 'list', 'internal_pointer', also=('_monitor_lock', '__orig_class__'))
    o.iterator = SIter(xs.view())
    o.iterator.pos = ctx.fresh('taken', z3.IntSort())
    o.list = SList('loaded', ValC)
    o.exhausted = bool(ctx.choose(2))
    o.internal_pointer = ctx.int('pointer')
    ctx.roots['wrapper'] = o
    ctx.assume(wrapped(o, xs))
    return o, xs


def wrapped(o, xs):
    j = z3.Int('j!w')
    n, p = o.list.n, N(o.internal_pointer)
    return And(n == o.iterator.pos, 0 <= n, n <= xs.n, 0 <= p, p <= n, Implies(bool_term(o.exhausted), n == xs.n),
               z3.ForAll([j], Implies(And(0 <= j, j < n), o.list.el(j) == xs.el(j)), patterns=[o.list.el(j)]))


def still_wrapped(L):
    return wrapped(cur().roots['wrapper'], cur().env.xs)


def not_yet(L):
    """the elements passed are not the one looked for"""
    e = cur().env
    o = cur().roots['wrapper']
    if not hasattr(e, 'sought'):
        return None
    j = z3.Int('j!y')
    return And(z3.ForAll([j], Implies(And(0 <= j, j < N(o.internal_pointer)), e.xs.el(j) != e.sought.t), patterns=[e.xs.el(j)]))


def not_loaded(L):
    e = cur().env
    o = cur().roots['wrapper']
    if not hasattr(e, 'sought'):
        return None
    j = z3.Int('j!y')
    return And(z3.ForAll([j], Implies(And(0 <= j, j < o.list.n), e.xs.el(j) != e.sought.t), patterns=[e.xs.el(j)]))


@contract('ListWrapperIterator', ['ListWrapperIterator.*', '_ListWrapperIteratorIterator.*'], reach=['end', 'next', 'over', 'item', 'IndexError', 'slice', 'contains', 'length'],
          invs=[('the elements loaded', still_wrapped), ('not among the loaded', not_loaded), ('not before the pointer', not_yet),
                ('more than before', lambda L: cur().roots['wrapper'].list.n >= cur().env.n0), ('no more than needed', lambda L: cur().roots['wrapper'].list.n <= cur().env.need)])
def t_wrapper(ctx):
    ctx.env.cut_while = True
    o, xs = a_wrapper(ctx)
    n = xs.n
    p0 = N(o.internal_pointer)
    l0 = ctx.env.n0 = o.list.n
    w = ctx.choose(7)
    i = ctx.int('index')
    stays = True
    big = lambda a, b: If(a < b, b, a)
    if w == 0:
        ctx.env.need = big(l0, p0 + 1)
        out = ctx.catch(o.__next__)
        stays = False
        if out[0] == 'exc':
            ctx.reach('over')
            ctx.check('ends after the last', And(BoolVal(type(out[1]) is StopIteration), p0 == n, N(o.internal_pointer) == p0))
        else:
            ctx.reach('next')
            ctx.check('the next element', And(p0 < n, same(out[1], el(xs, p0)), N(o.internal_pointer) == p0 + 1))
    elif w == 1:
        ctx.assume(i.t >= -3)
        ctx.env.need = If(i.t < 0, n, big(l0, i.t + 1))
        out = ctx.catch(o.__getitem__, i)
        t = If(i.t < 0, i.t + n, i.t)
        if out[0] == 'exc':
            ctx.reach('IndexError')
            ctx.check('IndexError, if there is no such element', And(BoolVal(type(out[1]) is IndexError), Or(t < 0, t >= n)))
        else:
            ctx.reach('item')
            ctx.check('the element', And(0 <= t, t < n, same(out[1], el(xs, t))))
    elif w == 2:
        j = ctx.int('to')
        ctx.reach('slice')
        sl = [slice(i, j), slice(None, j), slice(i, None)][ctx.choose(3)]
        a = z3.IntVal(0) if sl.start is None else i.t
        b = n if sl.stop is None else j.t
        norm = lambda v: If(v < 0, nat(v + n), lo(v, n))
        ctx.env.need = n if sl.stop is None else If(Or(a < 0, b < 0), n, big(l0, b))
        r = ok(ctx, ctx.catch(o.__getitem__, sl))
        is_list_of(ctx, r, nat(norm(b) - norm(a)), lambda j: el(xs, norm(a) + j))
    elif w == 3:
        x = ctx.env.sought = ctx.obj('sought')
        ctx.reach('contains')
        ctx.env.need = n
        r = ok(ctx, ctx.catch(o.__contains__, x))
        j = z3.Int('j!x')
        ctx.check('contained exactly if it is one of the elements', bool_term(r) == z3.Exists([j], And(0 <= j, j < n, xs.el(j) == x.t)))
        stays = False
    elif w == 4:
        ctx.reach('length')
        ctx.env.need = n
        ctx.check('the number of elements', N(ok(ctx, ctx.catch(o.__len__))) == n)
        ctx.check('all loaded', And(o.list.n == n, bool_term(o.exhausted)))
    elif w == 5:
        ctx.env.need = big(l0, i.t)
        ok(ctx, ctx.catch(o.advance_to_item, i))
        ctx.check('as many loaded as possible', o.list.n >= lo(i.t, n))
    else:
        it = ok(ctx, ctx.catch(iter, o))
        ctx.check('an iterator of its own', BoolVal(it is not o))
        conforms(it, 'parent', 'pos', also=('_monitor_lock', '__orig_class__'))
        ctx.check('that starts at the first element', And(BoolVal(it.parent is o and it.__iter__() is it), N(it.pos) == 0))
        it.pos = i
        ctx.assume(And(i.t >= 0, i.t <= l0))
        ctx.env.need = big(l0, i.t + 1)
        out = ctx.catch(it.__next__)
        if out[0] == 'exc':
            ctx.check('ends after the last', And(BoolVal(type(out[1]) is StopIteration), i.t == n, N(it.pos) == i.t))
        else:
            ctx.check('the next element', And(i.t < n, same(out[1], el(xs, i.t)), N(it.pos) == i.t + 1))
    ctx.check('what is loaded are the first elements', wrapped(o, xs))
    ctx.check('none is lost', o.list.n >= l0)
    ctx.check('no more are loaded than needed', o.list.n <= ctx.env.need)
    if stays:
        ctx.check('iterating is not disturbed', N(o.internal_pointer) == p0)


class Boom(Exception):
    pass


KEEP = []           # deallocating a SelfClosingGenerator runs its code: not during the proof of something else


@atexit.register
def discard():
    for o in KEEP:
        object.__setattr__(o, 'stopped', True)


@contract('chain', ['chain'], reach=['end', 'single', 'nothing', 'raises'])
def t_chain(ctx):
    """the elements one after another; each of them in turn is a symbolic sequence, an iterator of one, or no iterable at all"""
    xs, ys = src(ctx), src(ctx, 'ys')
    if ctx.choose(3) == 0:
        class Bad:
            def __init__(self, e):
                self.e = e

            def __iter__(self):
                return self

            def __next__(self):
                raise self.e
        e = [Boom(), TypeError('within')][ctx.choose(2)]
        g = chain(Bad(e))
        out = ctx.catch(next, g)
        ctx.reach('raises')
        ctx.check('an exception of an element passes through', BoolVal(out[0] == 'exc' and out[1] is e))
        return
    a, b = object(), object()
    parts = [[(xs, xs.n, lambda j: el(xs, j)), (ys, ys.n, lambda j: el(ys, j))],
             [(a, None, a), (xs, xs.n, lambda j: el(xs, j)), (b, None, b)],
             [(xs, xs.n, lambda j: el(xs, j)), (a, None, a), (ys, ys.n, lambda j: el(ys, j)), (b, None, b)]][ctx.choose(3)]
    args = [SIter(p[0].view()) if p[1] is not None and ctx.choose(2) else p[0] for p in parts]
    total, spec = z3.IntVal(0), []
    for p, n, f in parts:
        spec.append((total, n, f))
        total = total + (1 if n is None else n)

    class Any:
        def __init__(self, k):
            self.k = k

        def equals(self, v):
            r = []
            for start, n, f in spec:
                here = self.k == start if n is None else And(start <= self.k, self.k < start + n)
                r.append(Implies(here, BoolVal(v is f) if n is None else same(v, f(self.k - start)) if isinstance(v, SVal) else BoolVal(False)))
            return And(*r)
    ctx.reach('single')
    ctx.reach('nothing')
    consume(ctx, chain(*args), total, lambda k: Any(k), most=8)


@contract('SelfClosingGenerator', ['SelfClosingGenerator.*'], reach=['end', 'given', 'over', 'closed', 'sent'])
def t_closing(ctx):
    ctx.env.cut_while = True
    xs = src(ctx)
    log = []

    class Gen:
        """a generator that gives out xs"""
        def __init__(self):
            self.it = SIter(xs.view())

        def __iter__(self):
            return self

        def __next__(self):
            return next(self.it)

        def send(self, o):
            log.append(o)
            return next(self.it)

        def __call__(self, *a, **kw):
            log.append((a, kw))
            return made
    g, made = Gen(), Gen()
    ctx.roots['gen'] = g
    o = SelfClosingGenerator(g)
    KEEP.append(o)
    conforms(o, 'generator', 'stopped')
    w = ctx.choose(5)
    p0 = g.it.pos = ctx.fresh('position', z3.IntSort())
    ctx.assume(And(0 <= p0, p0 <= xs.n))
    if w < 2:
        x = ctx.obj('sent')
        out = ctx.catch(*[(next, o), (o.send, x)][w])
        if out[0] == 'exc':
            ctx.reach('over')
            ctx.check('ends exactly with the generator', And(BoolVal(type(out[1]) is StopIteration), p0 == xs.n))
        else:
            ctx.reach('given')
            ctx.check('the next element', And(same(out[1], el(xs, p0)), g.it.pos == p0 + 1))
        if w:
            ctx.reach('sent')
            ctx.check('what is sent arrives', BoolVal(len(log) == 1 and log[0] is x))
        ok(ctx, ctx.catch(o.close))
        ctx.check('it completes when closed', g.it.pos == xs.n)
    elif w == 2:
        ok(ctx, ctx.catch([o.close, o.__del__, lambda: o.__exit__(None, None, None)][ctx.choose(3)]))
        ctx.reach('closed')
        ctx.check('it completes when closed', g.it.pos == xs.n)
        ok(ctx, ctx.catch(o.close))
    elif w == 3:
        r = ok(ctx, ctx.catch(o, 1, k=2))
        KEEP.append(r)
        ctx.check('wraps the generator made', BoolVal(isinstance(r, SelfClosingGenerator) and r is not o and r.generator is made and log == [((1, ), {'k': 2})]))
    else:
        ctx.check('itself', BoolVal(o.__enter__() is o and iter(o) is o))
        out = ctx.catch(o.__exit__, Boom, Boom(), None)
        ctx.check('does not silence exceptions', BoolVal(out[0] == 'ok' and not out[1]))


@contract('hint_with_length', ['hint_with_length.*'], reach=['end', 'refused', 'hinted'])
def t_hint(ctx):
    n = ctx.int('length') if ctx.choose(2) else None
    made = ctx.int('made')
    f = (lambda: made) if ctx.choose(2) else None
    log = []

    class Gen:
        def __next__(self):
            log.append('next')
            return 'n'

        def send(self, o):
            log.append(('send', o))
            return 's'

        def close(self):
            log.append('close')
            return 'c'

        def __call__(self, *a, **kw):
            log.append((a, kw))
            return g2
    g, g2 = Gen(), Gen()
    out = ctx.catch(hint_with_length, g, n, f)
    if (n is None) == (f is None):
        ctx.reach('refused')
        ctx.check('ValueError', BoolVal(out[0] == 'exc' and type(out[1]) is ValueError))
        return
    o = ok(ctx, out)
    want = made.t if n is None else n.t
    for h, x in ((o, g), (ok(ctx, ctx.catch(o, 1, k=2)), g2)):
        ctx.reach('hinted')
        ctx.check('the hint', N(ok(ctx, ctx.catch(h.__length_hint__))) == want)
        del log[:]
        r = (ok(ctx, ctx.catch(next, h)), ok(ctx, ctx.catch(h.send, 5)), ok(ctx, ctx.catch(h.close)))
        ctx.check('the generator itself', BoolVal(r == ('n', 's', 'c') and log == ['next', ('send', 5), 'close'] and h.__iter__() is x and isinstance(h, hint_with_length)))
