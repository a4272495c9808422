"""C25: value transforms, merges of series and dictionary helpers give exactly the documented result."""
import enum
from pyvc.api import *
from pyvc.runtime import SIter
from satella.coding import algos, misc
from satella.coding import transforms as T
from satella.coding import deep_compare as DC
from satella.coding.deep_compare import Inequal, InequalityReason, assert_equal
from satella.coding.transforms import interpol, jsonify as J, merge_list as ML, misc as TM, percentile as PC, predicates as TP, words
from satella.json import JSONAble

N = num_term
PairC = TupleC(RealC, RealC)


def ok(ctx, out):
    ctx.check('does not fail', BoolVal(out[0] == 'ok'))
    return out[1]


def D(f):
    return forall(IntC, f, 'j')


def within(j, n):
    return And(0 <= j, j < n)


class Plain:
    pass


class Boom(Exception):
    pass


# ---- numbers --------------------------------------------------------------------------------------------------------
@contract('clip', ['clip'])
def t_clip(ctx):
    v, a, b = ctx.real('v'), ctx.real('a'), ctx.real('b')
    ctx.assume(a.t <= b.t)
    r = N(ok(ctx, ctx.catch(T.clip, v, a, b)))
    ctx.check('within the limits', And(a.t <= r, r <= b.t))
    ctx.check('the value itself if it is within them, else the nearer one', r == If(v.t < a.t, a.t, If(v.t > b.t, b.t, v.t)))


@contract('none_if_false', ['none_if_false'], reach=['end', 'true', 'false'])
def t_none(ctx):
    b = bool(ctx.choose(2))
    ctx.reach('true' if b else 'false')

    class V:
        def __bool__(self):
            return b
    v = V()
    r = ok(ctx, ctx.catch(T.none_if_false, v))
    ctx.check('the value if it is true, else None', BoolVal(r is (v if b else None)))


@contract('linear_interpolate', ['linear_interpolate'], reach=['end', 'below', 'above', 'inside'])
def t_interp(ctx):
    s = SList('series', PairC)
    at = lambda j: PairC.get(s.el(j), 0)
    val = lambda j: PairC.get(s.el(j), 1)
    i, j = z3.Int('i!s'), z3.Int('j!s')
    ctx.assume(s.n > 0)
    ctx.assume(z3.ForAll([i, j], Implies(And(0 <= i, i < j, j < s.n), at(i) < at(j)), patterns=[z3.MultiPattern(s.el(i), s.el(j))]))
    pre = (s.arr, s.n)
    t = ctx.real('t')
    first, last = IntVal(0), s.n - 1
    where = ctx.choose(4)
    k = ctx.fresh('k', z3.IntSort())
    ctx.assume([t.t < at(first), t.t > at(last), t.t == at(first), And(0 <= k, k + 1 < s.n, at(k) < t.t, t.t <= at(k + 1))][where])
    clip = bool(ctx.choose(2))
    out = ctx.catch(interpol.linear_interpolate, s, t, clip) if clip or ctx.choose(2) else ctx.catch(interpol.linear_interpolate, s, t)
    ctx.check('the series is unchanged', And(s.n == pre[1], s.arr == pre[0]))
    if out[0] == 'exc':
        ctx.check('refused only outside of the series, if not asked to clip', BoolVal(isinstance(out[1], ValueError) and not clip and where < 2))
        return
    r = N(out[1])
    if where == 0:
        ctx.reach('below')
        ctx.check('the first value before the first point', And(BoolVal(clip), r == val(first)))
    elif where == 1:
        ctx.reach('above')
        ctx.check('the last value after the last point', And(BoolVal(clip), r == val(last)))
    elif where == 2:
        ctx.check('the first value at the first point', r == val(first))
    else:
        ctx.reach('inside')
        ctx.check('on the line between the points around it', r == (val(k + 1) - val(k)) / (at(k + 1) - at(k)) * (t.t - at(k)) + val(k))


@contract('percentile', ['percentile'], reach=['end'])
def t_perc(ctx):
    s = SList('values', RealC)
    p = ctx.real('percent')
    ctx.assume(s.n > 0)
    ctx.assume(And(p.t >= 0, p.t <= 1))
    r = N(ok(ctx, ctx.catch(T.percentile, s, p)))
    k = z3.ToReal(s.n - 1) * p.t
    f = z3.ToInt(k)
    rest = k - z3.ToReal(f)
    ctx.check('the value at the position, between the neighbours if it is not whole',
              If(rest == 0, r == s.el(f), r == s.el(f) * (1 - rest) + s.el(f + 1) * rest))


# ---- sequences ------------------------------------------------------------------------------------------------------
def padded(L=None):
    e = cur().env
    xs, made = e.xs, cur().roots['made']
    given = (lambda j: made.el(j - e.n)) if e.factory else (lambda j: e.w.t)
    return And(xs.n >= e.n, D(lambda j: Implies(within(j, e.n), xs.el(j) == Select(e.arr, j))), made.n == (xs.n - e.n if e.factory else IntVal(0)),
               D(lambda j: Implies(And(e.n <= j, j < xs.n), And(j % e.m.t != 0, xs.el(j) == given(j)))))


@contract('pad_to_multiple_of_length', ['pad_to_multiple_of_length'], invs=[('padded so far', padded)], reach=['end', 'both', 'value', 'factory'])
def t_pad(ctx):
    f = getattr(T.pad_to_multiple_of_length, '__wrapped__', None)
    if f is None:
        raise Unsupported('pad_to_multiple_of_length is not decorated')
    ctx.env.cut_while = True
    e = ctx.env
    xs = e.xs = SList('xs', ValC)
    e.n, e.arr, e.m, e.w = xs.n, xs.arr, ctx.int('multiple_of'), ctx.obj('with')
    ctx.assume(e.m.t > 0)
    made = ctx.roots['made'] = SList('made', ValC, empty=True)
    ctx.roots['xs'] = xs

    def factory():
        v = ctx.val(ctx.fresh('made', ValC.sort))
        made.append(v)
        return v
    kind = ctx.choose(3)
    if kind == 0:
        ctx.reach('both')
        out = ctx.catch(f, xs, e.m, e.w, factory)
        ctx.check('a value and a factory are refused', BoolVal(out[0] == 'exc' and isinstance(out[1], ValueError)))
        return
    e.factory = kind == 1
    ctx.reach('factory' if e.factory else 'value')
    r = ok(ctx, ctx.catch(f, xs, e.m, pad_with_factory=factory) if e.factory else ctx.catch(f, xs, e.m, e.w))
    ctx.check('the sequence itself', BoolVal(r is xs))
    ctx.check('its length is a multiple', xs.n % e.m.t == 0)
    ctx.check('the least one, of the elements followed by the padding', padded())


@contract('one_tuple', ['one_tuple'], invs=[
    ('so far', lambda L: cur().roots['got'].n == L.i),
    ('exact', lambda L: D(lambda j: Implies(within(j, L.i), cur().roots['got'].el(j) == cur().env.xs.el(j))))])
def t_one(ctx):
    xs = ctx.env.xs = SList('xs', ValC)
    got = SList('got', ValC, empty=True)
    ctx.roots['got'] = got
    for e in T.one_tuple(xs):
        ctx.check('a tuple of one', BoolVal(type(e) is tuple and len(e) == 1))
        got.append(e[0])
    ctx.check('every element once, in order', And(got.n == xs.n, D(lambda j: Implies(within(j, xs.n), got.el(j) == xs.el(j)))))


def numbered(L):
    d, xs = cur().roots['d'], cur().env.xs
    return And(D(lambda j: Implies(within(j, L.i), And(d.has(xs.el(j)), d.at(xs.el(j)) == j))),
               forall(ValC, lambda x: Implies(d.has(x), And(within(d.at(x), L.i), xs.el(d.at(x)) == x))))


@contract('list_values_to_indices', ['list_values_to_indices'], reach=['end', 'unique', 'repeated'], invs=[('numbered so far', numbered)])
def t_idx(ctx):
    xs = ctx.env.xs = SList('xs', ValC)
    d = SDict('d', ValC, IntC, empty=True)
    ctx.roots['d'] = d
    ctx.env.lits = {('dict', 'list_values_to_indices'): lambda: d}
    out = ctx.catch(TM.list_values_to_indices, xs)
    i, j = z3.Int('i!d'), z3.Int('j!d')
    twice = z3.Exists([i, j], And(0 <= i, i < j, j < xs.n, xs.el(i) == xs.el(j)))
    if out[0] == 'exc':
        ctx.reach('repeated')
        ctx.check('refused only if an entry is there twice', And(BoolVal(isinstance(out[1], ValueError)), twice))
    else:
        ctx.reach('unique')
        r = out[1]
        ctx.check('a dictionary', BoolVal(isinstance(r, SDict)))
        ctx.check('given only if they are unique', Not(twice))
        ctx.check('every entry has its position', D(lambda j: Implies(within(j, xs.n), And(r.has(xs.el(j)), r.at(xs.el(j)) == j))))
        ctx.check('nothing else has one', forall(ValC, lambda x: Implies(r.has(x), And(within(r.at(x), xs.n), xs.el(r.at(x)) == x))))


@contract('unpack_dict', ['unpack_dict'], reach=['end', 'all', 'missing', 'none'])
def t_unpack(ctx):
    d = SDict('d', ValC, ValC)
    ks = [ctx.val(ctx.fresh('k', ValC.sort)) for _ in range(ctx.choose(4))]
    through, lenient = bool(ctx.choose(2)), bool(ctx.choose(2))
    calls = []
    fails = through and bool(ctx.choose(2))

    def f(v):
        r = Plain()
        calls.append((v, r))
        if fails:
            raise KeyError('within')
        return r
    kw = {}
    if through:
        kw['map_through'] = f
    if lenient:
        kw['raise_if_not_found'] = False
    it = T.unpack_dict(d, *ks, **kw)
    for k in ks:
        n = len(calls)
        out = ctx.catch(next, it)
        if out[0] == 'exc' and not (fails and len(calls) > n):
            ctx.reach('missing')
            ctx.check('refused only if the key is missing', And(BoolVal(isinstance(out[1], KeyError) and not lenient and len(calls) == n), Not(d.has(k.t))))
            return
        if len(calls) > n:
            ctx.check('the function is given the value of the key, once', And(BoolVal(len(calls) == n + 1), d.has(k.t), ValC.unwrap(calls[n][0]) == d.at(k.t)))
            ctx.check('its outcome passes', BoolVal(out[0] == 'exc' if fails else out[1] is calls[n][1]))
            if fails:
                ctx.check('its exception', BoolVal(isinstance(out[1], KeyError) and out[1].args == ('within', )))
                return
        elif out[1] is None:
            ctx.reach('none')
            ctx.check('None only for a missing key, if so asked', And(BoolVal(lenient), Not(d.has(k.t))))
        else:
            ctx.check('the value of the key', And(BoolVal(not through), d.has(k.t), ValC.unwrap(out[1]) == d.at(k.t)))
    ctx.reach('all')
    out = ctx.catch(next, it)
    ctx.check('nothing more', BoolVal(out[0] == 'exc' and isinstance(out[1], StopIteration)))


# ---- dictionaries ---------------------------------------------------------------------------------------------------
def same_so_far(L):
    a, b = cur().env.a, cur().env.b
    arr, n, idx = a.enum()
    j = z3.Int('j!k')
    return z3.ForAll([j], Implies(And(0 <= j, j < L.i), And(b.has(Select(arr, j)), b.at(Select(arr, j)) == a.at(Select(arr, j)))), patterns=[Select(arr, j)])


@contract('is_subset', ['is_subset'], reach=['end', 'yes', 'no'], invs=[('equal so far', same_so_far)])
def t_subset(ctx):
    a, b = SDict('subset', ValC, ValC), SDict('superset', ValC, ValC)
    ctx.env.a, ctx.env.b = a, b
    r = ok(ctx, ctx.catch(TP.is_subset, a, b))
    ctx.reach('yes' if r else 'no')
    every = forall(ValC, lambda k: Implies(a.has(k), And(b.has(k), b.at(k) == a.at(k))))
    ctx.check('true exactly if every entry is in the superset', every if r else Not(every))
    ctx.check('a truth value', BoolVal(type(r) is bool))


def changed(ctx, d, pre, k, v, cond):
    p, val = pre
    ctx.check('exactly this entry is changed, and only if the condition holds', forall(ValC, lambda x: And(
        d.has(x) == If(And(cond, x == k), BoolVal(True), Select(p, x)), Implies(d.has(x), d.at(x) == If(And(cond, x == k), v, Select(val, x))))))


@contract('update_key', ['update_key_if_not_none', 'update_key_if_none', 'update_key_if_true'], reach=['end', 'none', 'flag', 'truth'])
def t_upd(ctx):
    d = SDict('d', ValC, ValC)
    pre = d.s['pres'], d.s['val']
    k, v = ctx.obj('k'), ctx.obj('v')
    which = ctx.choose(4)
    if which <= 1:
        ctx.reach('none')
        f = misc.update_key_if_not_none if which else misc.update_key_if_none
        nothing = bool(ctx.choose(2))
        d = SDict('e', ValC, IntC)
        pre = d.s['pres'], d.s['val']
        n = ctx.int('n')
        r = ok(ctx, ctx.catch(f, d, k, None if nothing else n))
        changed(ctx, d, pre, k.t, n.t, BoolVal(not nothing))
    elif which == 2:
        ctx.reach('flag')
        flag = bool(ctx.choose(2))
        r = ok(ctx, ctx.catch(misc.update_key_if_true, d, k, v, flag))
        changed(ctx, d, pre, k.t, v.t, BoolVal(flag))
    else:
        ctx.reach('truth')
        n = ctx.int('n')
        d = SDict('e', ValC, IntC)
        pre = d.s['pres'], d.s['val']
        r = ok(ctx, ctx.catch(misc.update_key_if_true, d, k, n))
        changed(ctx, d, pre, k.t, n.t, n.t != 0)
    ctx.check('the dictionary itself is given', BoolVal(r is d))


@contract('update_key_if_not_none of many', ['update_key_if_not_none'])
def t_upd_many(ctx):
    d = SDict('d', ValC, ValC)
    pre = d.s['pres'], d.s['val']
    ks = [ctx.obj('k%d' % i) for i in range(ctx.choose(4))]
    vs = [None if ctx.choose(2) else ctx.obj('v') for _ in ks]
    for i, a in enumerate(ks):
        for b in ks[:i]:
            ctx.assume(a.t != b.t)

    class Given:
        def items(self):
            return list(zip(ks, vs))
    r = ok(ctx, ctx.catch(misc.update_key_if_not_none, d, Given()))
    ctx.check('the dictionary itself is given', BoolVal(r is d))
    has = lambda x: Or(Select(pre[0], x), *[x == k.t for k, v in zip(ks, vs) if v is not None])

    def at(x):
        t = Select(pre[1], x)
        for k, v in zip(ks, vs):
            if v is not None:
                t = If(x == k.t, v.t, t)
        return t
    ctx.check('exactly the entries that are not None are set', forall(ValC, lambda x: And(d.has(x) == has(x), Implies(d.has(x), d.at(x) == at(x)))))


@contract('update_attr_if_none', ['update_attr_if_none'], reach=['end', 'missing', 'there'])
def t_attr(ctx):
    o, v, had, w = Plain(), ctx.obj('v'), ctx.choose(3), ctx.obj('old')
    if had:
        o.x = w if had == 1 else None
    nothing, on_error, always = (bool(ctx.choose(2)) for _ in range(3))
    v = None if nothing else v
    ctx.reach('there' if had else 'missing')
    out = ctx.catch(misc.update_attr_if_none, o, 'x', v, on_attribute_error=on_error, if_value_is_not_none=always)
    old = vars(o).get('x', Boom)
    was = w if had == 1 else None if had else Boom
    if always:
        want = was if nothing else v
    elif had:
        want = w if had == 1 else v
    else:
        want = v if on_error else Boom
    ctx.check('refused exactly if the attribute is missing and that matters', BoolVal((out[0] == 'exc') == (not always and not had and not on_error)))
    ctx.check('set exactly if the condition holds', BoolVal(old is want))
    ctx.check('the object itself is given', BoolVal(out[1] is o if out[0] == 'ok' else isinstance(out[1], AttributeError)))


@contract('merge_dicts', ['merge_dicts'], reach=['end', 'dicts', 'lists', 'others'])
def t_merge(ctx):
    """one level; values that are in both by the contract of merge_dicts itself"""
    calls = []

    def rec(a, b):
        r = Plain()
        calls.append((a, b, r))
        return r
    ctx.models[algos.merge_dicts] = rec
    kind = ctx.choose(3)
    if kind == 0:
        ctx.reach('dicts')
        names = 'abc'
        a = {n: Plain() for n in names if ctx.choose(2)}
        b = {n: Plain() for n in 'bcd' if ctx.choose(2)}
        a0, b0 = dict(a), dict(b)
        r = ok(ctx, ctx.catch(algos.merge_dicts, a, b))
        both = [n for n in b0 if n in a0]
        ctx.check('the first is updated in place, the second stays', BoolVal(r is a and list(b.items()) == list(b0.items())))
        ctx.check('values in both are merged, in order', BoolVal(len(calls) == len(both) and all(x is a0[n] and y is b0[n] for n, (x, y, _) in zip(both, calls))))
        want = dict(a0)
        want.update(b0)
        want.update({n: c[2] for n, c in zip(both, calls)})
        ctx.check('exactly the keys of both, with the values of the one that has them', BoolVal(list(a) == list(want) and all(a[n] is want[n] for n in want)))
    elif kind == 1:
        ctx.reach('lists')
        a, b = [Plain() for _ in range(ctx.choose(3))], [Plain() for _ in range(ctx.choose(3))]
        a0, b0 = list(a), list(b)
        r = ok(ctx, ctx.catch(algos.merge_dicts, a, b))
        ctx.check('joined in place', BoolVal(r is a and a == a0 + b0 and b == b0 and not calls))
    else:
        ctx.reach('others')
        values = [{}, [], Plain(), None, 5, (1, ), 'text']
        i, j = ctx.choose(len(values)), ctx.choose(len(values))
        if i == j and i < 2:
            return
        r = ok(ctx, ctx.catch(algos.merge_dicts, values[i], values[j]))
        ctx.check('the second one', BoolVal(r is values[j] and not calls and values[0] == {} and values[1] == []))


# ---- conversions ----------------------------------------------------------------------------------------------------
class Enum(enum.Enum):
    A = 0


@contract('stringify', ['stringify', '_stringify_none'], reach=['end', 'text', 'enum', 'mapping', 'sequence', 'none', 'other'], max_paths=2000)
def t_str(ctx):
    """one level; the elements by the contract of stringify itself"""
    calls, marks = [], []

    def rec(x, f=str, recursively=False, str_none=False):
        r = 'r%d' % len(calls)
        calls.append((x, f, recursively, str_none, r))
        return r

    def f(x):
        r = 's%d' % len(marks)
        marks.append((x, r))
        return r
    ctx.models[T.stringify] = rec
    none = bool(ctx.choose(2))
    deep = bool(ctx.choose(2))
    go = lambda o: ok(ctx, ctx.catch(T.stringify, o, f, deep, none))
    made = lambda: [(c[0], c[4]) for c in calls] if deep else marks
    good = lambda: all(c[1] is f and c[2] is True and c[3] is none for c in calls) and not (marks if deep else calls)
    kind = ctx.choose(6)
    if kind == 0:
        ctx.reach('text')
        ctx.check('text stays', BoolVal(go('text') == 'text' and not marks and not calls))
    elif kind == 1:
        ctx.reach('enum')
        ctx.check('the label', BoolVal(go(Enum.A) == 'A' and not marks and not calls))
    elif kind == 2:
        ctx.reach('mapping')
        d = {Plain(): Plain() for _ in range(ctx.choose(3))}
        r = go(d)
        m = made()
        ctx.check('keys and values are converted, each once', BoolVal(good() and len(m) == 2 * len(d) and [x[0] for x in m] == [y for kv in d.items() for y in kv]))
        ctx.check('a dictionary of them', BoolVal(type(r) is dict and list(r.items()) == [(m[2 * i][1], m[2 * i + 1][1]) for i in range(len(d))]))
    elif kind == 3:
        ctx.reach('sequence')
        x = [list, tuple][ctx.choose(2)](Plain() for _ in range(ctx.choose(3)))
        r = go(x)
        m = made()
        ctx.check('the elements are converted, each once', BoolVal(good() and [e[0] for e in m] == list(x)))
        ctx.check('a list of them, in order', BoolVal(type(r) is list and r == [e[1] for e in m]))
    elif kind == 4:
        ctx.reach('none')
        r = go(None)
        ctx.check('None, or its text if so asked', BoolVal(r is None and not marks if not none else len(marks) == 1 and marks[0] == (None, r)))
    else:
        ctx.reach('other')
        o = Plain()
        r = go(o)
        ctx.check('the text of the object', BoolVal(len(marks) == 1 and marks[0] == (o, r) and not calls))


class Able(JSONAble):
    def __init__(self, v):
        self.v = v

    def to_json(self):
        return self.v


class Shown:
    def __init__(self, fails):
        self.fails = fails

    def __str__(self):
        if self.fails:
            raise Boom
        return 'text'

    def __repr__(self):
        return 'represented'


@contract('jsonify', ['jsonify'], reach=['end', 'plain', 'enum', 'able', 'mapping', 'iterable', 'other'], max_paths=2000)
def t_json(ctx):
    """one level; the elements by the contract of jsonify itself"""
    calls = []

    def rec(x):
        r = getattr(x, 'made', None) or Plain()
        calls.append((x, r))
        return r
    ctx.models[T.jsonify] = rec
    go = lambda o: ok(ctx, ctx.catch(T.jsonify, o))
    kind = ctx.choose(6)
    if kind == 0:
        ctx.reach('plain')
        v = [None, 5, 2.5, 'text', True, 0, ''][ctx.choose(7)]
        ctx.check('stays as it is', BoolVal(go(v) is v and not calls))
    elif kind == 1:
        ctx.reach('enum')
        e = enum.Enum('E', {'A': Plain()}).A
        r = go(e)
        ctx.check('its value, converted', BoolVal(len(calls) == 1 and calls[0][0] is e.value and r is calls[0][1]))
    elif kind == 2:
        ctx.reach('able')
        o = Able(Plain())
        r = go(o)
        ctx.check('what it says, converted', BoolVal(len(calls) == 1 and calls[0][0] is o.v and r is calls[0][1]))
    elif kind == 3:
        ctx.reach('mapping')
        d = {}
        for i in range(ctx.choose(3)):
            k = Shown(False)
            k.made = [None, [], {}][ctx.choose(3)] if i == 0 else None
            d[k] = Plain()
        r = go(d)
        keys, vals = calls[::2], calls[1::2]
        ctx.check('keys and values are converted, each once', BoolVal([c[0] for c in keys] == list(d) and [c[0] for c in vals] == list(d.values())))
        ctx.check('a dictionary of them', BoolVal(type(r) is dict and list(r.items()) == [(x[1], y[1]) for x, y in zip(keys, vals)]))
    elif kind == 4:
        ctx.reach('iterable')
        els = [Plain() for _ in range(ctx.choose(3))]
        r = go([list, tuple, iter][ctx.choose(3)](els))
        ctx.check('a list of the elements, converted, in order', BoolVal(type(r) is list and [c[0] for c in calls] == els and all(x is c[1] for x, c in zip(r, calls))
                                                                         and len(r) == len(els)))
    else:
        ctx.reach('other')
        fails = bool(ctx.choose(2))
        ctx.check('its text, or its representation if there is none', BoolVal(go(Shown(fails)) == ('represented' if fails else 'text') and not calls))


@contract('intify', ['intify'], reach=['end', 'none', 'whole', 'length', 'neither'])
def t_int(ctx):
    if ctx.choose(2):
        ctx.reach('none')
        ctx.check('None is 0', BoolVal(ok(ctx, ctx.catch(T.intify, None)) == 0))
        return
    has_int, has_len = ctx.choose(5), ctx.choose(3)

    class V:
        pass
    if has_int:
        def to_int(self):
            if has_int > 1:
                raise [TypeError, ValueError, OverflowError][has_int - 2]
            return 7
        V.__int__ = to_int
    if has_len:
        def to_len(self):
            if has_len > 1:
                raise ValueError
            return 3
        V.__len__ = to_len
    out = ctx.catch(T.intify, V())
    if has_int == 1:
        ctx.reach('whole')
        ctx.check('its whole number', BoolVal(out == ('ok', 7)))
    elif has_len == 1:
        ctx.reach('length')
        ctx.check('failing that, its length', BoolVal(out == ('ok', 3)))
    else:
        ctx.reach('neither')
        ctx.check('failing that, ValueError', BoolVal(out[0] == 'exc' and type(out[1]) is ValueError))


# ---- comparing ------------------------------------------------------------------------------------------------------
@contract('assert_equal', ['assert_equal', 'Inequal.__init__'], reach=['end', 'numbers', 'lists', 'dicts', 'objects', 'sets', 'kinds'], max_paths=2000)
def t_equal(ctx):
    """one level; the elements by the contract of assert_equal itself"""
    calls = []
    bad = ctx.choose(4)

    def rec(a, b):
        calls.append((a, b))
        if len(calls) == bad:
            raise Inequal(a, b, InequalityReason.NOT_EQUAL)
    kind = ctx.choose(6)
    if kind != 0:
        ctx.models[DC.assert_equal] = rec

    def verdict(out, want):
        """want: None (equal) or (obj1, obj2, reason)"""
        if want is None:
            ctx.check('equal objects pass', BoolVal(out == ('ok', None)))
        else:
            e = out[1]
            ctx.check('unequal ones are reported', BoolVal(out[0] == 'exc' and type(e) is Inequal))
            if type(e) is Inequal:
                ctx.check('with the difference', BoolVal(e.obj1 is want[0] and e.obj2 is want[1] and e.reason == want[2]))
    if kind == 0:
        ctx.reach('numbers')
        a, b = ctx.int('a'), ctx.int('b')
        out = ctx.catch(assert_equal, a, b)
        if out[0] == 'ok':
            ctx.check('passes only if equal', a.t == b.t)
        else:
            ctx.check('reported only if different', And(BoolVal(type(out[1]) is Inequal and out[1].reason == InequalityReason.NOT_EQUAL), a.t != b.t))
    elif kind == 1:
        ctx.reach('lists')
        a, b = [Plain() for _ in range(ctx.choose(4))], [Plain() for _ in range(ctx.choose(4))]
        if ctx.choose(2):
            a, b = tuple(a), tuple(b)
        out = ctx.catch(assert_equal, a, b)
        if len(a) != len(b):
            verdict(out, (a, b, InequalityReason.LENGTH_MISMATCH))
        else:
            n = bad if 0 < bad <= len(a) else len(a)
            ctx.check('elements are compared in order, up to the first difference', BoolVal(len(calls) == n and all(x is c[0] and y is c[1] for x, y, c in zip(a, b, calls))))
            verdict(out, (a[bad - 1], b[bad - 1], InequalityReason.NOT_EQUAL) if 0 < bad <= len(a) else None)
    elif kind == 2:
        ctx.reach('dicts')
        a, b = {n: Plain() for n in 'ab' if ctx.choose(2)}, {n: Plain() for n in 'bac' if ctx.choose(2)}
        out = ctx.catch(assert_equal, a, b)
        if len(a) != len(b):
            verdict(out, (a, b, InequalityReason.LENGTH_MISMATCH))
        else:
            want = None
            n = 0
            for k in a:
                if k not in b:
                    want = k, None, InequalityReason.KEY_NOT_FOUND
                    break
                n += 1
                ctx.check('values of the same key are compared', BoolVal(len(calls) >= n and calls[n - 1] == (a[k], b[k])))
                if n == bad:
                    want = a[k], b[k], InequalityReason.NOT_EQUAL
                    break
            verdict(out, want)
    elif kind == 3:
        ctx.reach('objects')

        class O:
            def __init__(self, eq):
                self.eq = eq

            def __eq__(self, o):
                return self.eq
        eq = bool(ctx.choose(2))
        a, b = O(eq), Plain()
        verdict(ctx.catch(assert_equal, a, b), None if eq else (a, b, InequalityReason.NOT_EQUAL))
    elif kind == 4:
        ctx.reach('sets')
        t = [set, frozenset][ctx.choose(2)]
        a, b = t(n for n in 'ab' if ctx.choose(2)), t(n for n in 'abc' if ctx.choose(2))
        want = None if a == b else (a, b, InequalityReason.NOT_EQUAL if len(a) == len(b) else InequalityReason.LENGTH_MISMATCH)
        verdict(ctx.catch(assert_equal, a, b), want)
    else:
        ctx.reach('kinds')
        vs = [[], {}, set(), None, 'text', 5]
        i, j = ctx.choose(6), ctx.choose(6)
        verdict(ctx.catch(assert_equal, vs[i], vs[j]), None if i == j else (vs[i], vs[j], InequalityReason.NOT_EQUAL))
