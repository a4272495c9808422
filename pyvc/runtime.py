"""Functions injected into the instrumented modules, models of builtins, and the loop-cut rule."""
import bisect
import builtins
import collections
import copy
import functools
import heapq
import itertools
import logging
import math
import operator
import os
import sys
import time
import types
import typing
import warnings

import z3

from . import core
from .core import *
from .containers import *

_builtin_types = (types.BuiltinFunctionType, types.MethodWrapperType, types.WrapperDescriptorType,
                  types.MethodDescriptorType, types.ClassMethodDescriptorType)


# ------------------------------------------------------------------------------------------------ helpers
def isi(x, c):
    """isinstance without consulting a user-defined __class__ / __getattribute__"""
    return issubclass(type(x), c)


def pv_is(a, b):
    c = core.CTX
    if c is not None:
        if isi(a, SVal) or isi(b, SVal):
            if a is None or b is None:
                return False
            if a is b:
                return True
            if isi(a, SVal) and isi(b, SVal):
                return c.fork(a.t == b.t)
            v, o = (a, b) if isi(a, SVal) else (b, a)
            if isi(o, Sym):
                return False
            return c.fork(v.t == c.const(o))
        if isi(a, Poison) or isi(b, Poison):
            raise Unsupported('identity of a possibly unbound local')
        if isi(a, SBool) and isi(b, bool):
            return c.fork(a.t == b)
        if isi(b, SBool) and isi(a, bool):
            return c.fork(b.t == a)
    return a is b


def _any_sym(args, kwargs):
    for a in args:
        if isi(a, (Sym, View, SRange)):
            return True
    for a in kwargs.values():
        if isi(a, (Sym, View, SRange)):
            return True
    return False


MODELS = {}
SAFE = set()


def model(*fs):
    def deco(g):
        for f in fs:
            MODELS[f] = g
        return g

    return deco


@model(len)
def _len(x):
    if hasattr(x, 'sym_len') and isinstance(x, (Container, SRange)):
        return x.sym_len()
    if isinstance(x, View):
        return IntC.wrap(x.n)
    if isinstance(x, Sym):
        raise Unsupported('len of a symbolic scalar')
    f = getattr(type(x), '__len__', None)
    if isinstance(f, types.FunctionType):
        return f(x)
    return len(x)


@model(bool)
def _bool(x=False):
    if isinstance(x, SBool):
        return x
    if isinstance(x, SNum):
        return mk_bool(x.t != 0)
    return bool(x)


@model(int)
def _int(x=0, *a):
    if isinstance(x, SNum):
        if x.t.sort() == z3.IntSort():
            return x
        t = x.t
        return mk_num(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))
    if isinstance(x, SBool):
        return SNum(num_term(x))
    if isinstance(x, Sym):
        raise Unsupported('int() of this symbolic value')
    return int(x, *a)


@model(float)
def _float(x=0.0):
    if isinstance(x, SNum):
        return SNum(RealC.unwrap(x))
    if isinstance(x, Sym):
        raise Unsupported('float() of this symbolic value')
    return float(x)


@model(math.floor)
def _floor(x):
    if isinstance(x, SNum):
        return x if x.t.sort() == z3.IntSort() else mk_num(z3.ToInt(x.t))
    if isinstance(x, Sym):
        raise Unsupported('floor')
    return math.floor(x)


@model(math.ceil)
def _ceil(x):
    if isinstance(x, SNum):
        return x if x.t.sort() == z3.IntSort() else mk_num(-z3.ToInt(-x.t))
    if isinstance(x, Sym):
        raise Unsupported('ceil')
    return math.ceil(x)


@model(abs)
def _abs(x):
    return abs(x)


ISINST = {}


def isinst_pred(cls):
    f = ISINST.get(cls)
    if f is None:
        f = ISINST[cls] = z3.Function('isinstance_%s' % getattr(cls, '__name__', str(cls)), Val, z3.BoolSort())
    return f


@model(isinstance)
def _isinstance(x, c):
    if isinstance(x, (Sym, View, SRange)):
        if isinstance(c, tuple):
            for d in c:
                if _isinstance(x, d):
                    return True
            return False
        if isinstance(x, SVal):
            if x.cls is not object:
                return issubclass(x.cls, c)
            if c is object:
                return True
            return cur().fork(isinst_pred(c)(x.t))
        if isinstance(x, View):
            raise Unsupported('isinstance of a symbolic sequence')
        pt = x.pytype
        try:
            return issubclass(pt, c)
        except TypeError:
            raise Unsupported('isinstance')
    return isinstance(x, c)


@model(type)
def _type(*a):
    if len(a) == 1 and isinstance(a[0], (Sym, View, SRange)):
        if isinstance(a[0], SVal) and a[0].cls is object:
            raise Unsupported('type() of an opaque value')
        return a[0].pytype
    return type(*a)


@model(callable)
def _callable(x):
    if isinstance(x, SVal):
        return cur().fork(isinst_pred(typing.Callable)(x.t))
    if isinstance(x, (Sym, View, SRange)):
        return False
    return callable(x)


@model(range)
def _range(*a):
    if any(isinstance(x, SNum) for x in a):
        if len(a) == 1:
            return SRange(0, a[0])
        return SRange(*a)
    return range(*a)


def _minmax(name, native):
    def f(*a, **kw):
        if len(a) == 1:
            v = as_view(a[0])
            if v is not None:
                return view_minmax(name, v, **kw)
            a = list(a[0])
            if not a:
                if 'default' in kw:
                    return kw['default']
                raise ValueError('%s() arg is an empty sequence' % name)
        key = kw.get('key')
        if any(isinstance(x, (SNum, SBool)) for x in a) and key is None and all(num_term(x) is not None for x in a):
            r = a[0]
            for x in a[1:]:
                p, q = unify(num_term(r), num_term(x))
                r = mk_num(z3.If(q < p, q, p) if name == 'min' else z3.If(q > p, q, p))
            return r
        if any(isinstance(x, Sym) for x in a) or key is not None:
            r = a[0]
            kr = key(r) if key else r
            for x in a[1:]:
                kx = key(x) if key else x
                if (kx < kr) if name == 'min' else (kx > kr):
                    r, kr = x, kx
            return r
        return native(a)

    return f


MODELS[min] = _minmax('min', min)
MODELS[max] = _minmax('max', max)


def elem_lt(a, b):
    """boolean term a < b for two Python values (no fork)"""
    r = a < b
    return bool_term(r)


def view_minmax(name, v, key=None, **kw):
    ctx = cur()
    if v.n is None or key is not None:
        raise Unsupported('%s over this iterable' % name)
    if ctx.fork(v.n <= 0):
        if 'default' in kw:
            return kw['default']
        raise ValueError('%s() arg is an empty sequence' % name)
    j = z3.Int('j!m')
    w = ctx.fresh(name + '.arg', z3.IntSort())
    ctx.assume(z3.And(0 <= w, w < v.n))
    best = v.at(w)
    if ctx.sub is not None:
        raise Unsupported('nested min/max')
    pairs = ctx.summarize(lambda: v.at(j))
    conds = []
    for g, val in pairs:
        lt = elem_lt(val, best) if name == 'min' else elem_lt(best, val)
        conds.append(z3.Implies(g, z3.Not(lt)))
    ctx.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < v.n), z3.And(*conds))))
    return best


def _lift_quant(v, fn, is_all):
    ctx = cur()
    if v.n is None:
        raise Unsupported('any/all over an infinite iterable')
    j = z3.Int('j!q')
    pairs = ctx.summarize(lambda: truth_term(v.at(j)))
    body = z3.Or(*[z3.And(g, t) for g, t in pairs])
    rng = z3.And(0 <= j, j < v.n)
    if is_all:
        return mk_bool(z3.ForAll([j], z3.Implies(rng, body)))
    return mk_bool(z3.Exists([j], z3.And(rng, body)))


def truth_term(x):
    if isinstance(x, SBool):
        return x.t
    if isinstance(x, SNum):
        return x.t != 0
    return z3.BoolVal(bool(x))


@model(any)
def _any(it):
    v = as_view(it)
    if v is not None:
        return _lift_quant(v, None, False)
    for x in it:
        if x:
            return True
    return False


@model(all)
def _all(it):
    v = as_view(it)
    if v is not None:
        return _lift_quant(v, None, True)
    for x in it:
        if not x:
            return False
    return True


@model(enumerate)
def _enumerate(it, start=0):
    if isinstance(it, SIter):
        st = IntC.unwrap(start)
        return LinkIter(it, lambda i, x: (IntC.wrap(i + st), x))
    v = as_view(it)
    if v is None:
        return enumerate(it, start)
    st = IntC.unwrap(start)
    return View(v.n, lambda i: (IntC.wrap(i + st), v.at(i)), v.src)


@model(reversed)
def _reversed(it):
    if isinstance(it, SRange):
        if it.step == 1:
            return View(it.n, lambda i: IntC.wrap(it.a + it.n - 1 - i), it)
        return View(it.n, lambda i: IntC.wrap(it.a - it.n + 1 + i), it)
    v = as_view(it)
    if v is None:
        return reversed(it)
    return View(v.n, lambda i: v.at(v.n - 1 - i), v.src, (lambda i: v.term(v.n - 1 - i)) if v.term else None)


@model(zip)
def _zip(*its):
    vs = [as_view(i) for i in its]
    if not any(v is not None for v in vs):
        return zip(*its)
    fin = []
    if any(v is None for v in vs):
        if not all(v is not None or isinstance(i, (list, tuple)) for i, v in zip(its, vs)):
            raise Unsupported('zip')
        out = []
        for j in range(min(len(i) for i, v in zip(its, vs) if v is None)):     # the concrete ones limit its length
            ns = [v.n > j for v in vs if v is not None and v.n is not None]
            if ns and not cur().fork(z3.And(*ns)):
                break
            out.append(tuple(i[j] if v is None else v.at(z3.IntVal(j)) for i, v in zip(its, vs)))
        return iter(out)
    for i, v in zip(its, vs):
        fin.append(v)
    ns = [v.n for v in fin if v.n is not None]
    n = None
    if ns:
        n = ns[0]
        for m in ns[1:]:
            n = z3.If(m < n, m, n)
    return View(n, lambda i: tuple(v.at(i) for v in fin), [v.src for v in fin])


@model(iter)
def _iter(x, *a):
    v = as_view(x)
    if v is not None:
        return SIter(v)
    return iter(x, *a)


class SIter:
    """a one-shot iterator over a symbolic sequence, with an explicit cursor"""

    def __init__(self, v):
        self.v = v
        self.pos = z3.IntVal(0)

    def __iter__(self):
        return self

    def __next__(self):
        ctx = cur()
        if self.v.n is not None and ctx.fork(self.pos >= self.v.n):
            raise StopIteration
        r = self.v.at(self.pos)
        self.pos = z3.simplify(self.pos + 1)
        return r


class LinkIter:
    """an iterator that takes each of its elements from a SIter (enumerate or map of it)"""

    def __init__(self, it, f):
        self.it, self.f, self.base = it, f, it.pos

    def __iter__(self):
        return self

    def __next__(self):
        p = self.it.pos
        return self.f(z3.simplify(p - self.base), next(self.it))


@model(next)
def _next(it, *d):
    if isinstance(it, SIter):
        try:
            return it.__next__()
        except StopIteration:
            if d:
                return d[0]
            raise
    if isinstance(it, (View, Sym)):
        raise Unsupported('next() of a symbolic sequence')
    return next(it, *d)


@model(list)
def _list(x=()):
    if isinstance(x, tuple) and not x:
        return pv_lit('list')
    if isinstance(x, SIter):
        if x.v.n is None:
            raise Unsupported('list(infinite iterator)')
        src, p, n = x.v, x.pos, x.v.n
        x.pos = z3.simplify(z3.If(p < n, n, p))
        x = View(z3.simplify(z3.If(p < n, n - p, z3.IntVal(0))), lambda i: src.at(p + i), src.src)
    if isinstance(x, SBag):
        return x.copy()
    if isinstance(x, KeysOnly):
        x = x.s
    if isinstance(x, SSet):
        hint = cur().env.__dict__.get('bags', {}).get(x.kc.name)
        if hint is not None:
            x.acc()
            b = SBag(cur().fresh_name('list'), x.kc, hint)
            q = z3.Const('x!' + x.kc.name, x.kc.sort)
            b.s['cnt'] = z3.Lambda([q], z3.If(x.has(q), z3.IntVal(1), z3.IntVal(0)))
            b.s['n'] = x.n
            return b
    v = as_view(x)
    if v is None:
        return list(x)
    return list_of_view(v)


def list_of_view(v, cls=SList):
    ctx = cur()
    if v.n is None:
        raise Unsupported('list() of an infinite iterable')
    j = z3.Int('j!l')
    if v.term is not None and v.src is not None and hasattr(v, 'ec'):
        ec, t = v.ec, v.term(j)
    else:
        pairs = ctx.summarize(lambda: v.at(j), bound=(j, v.n))
        ec = infer_codec(*[p[1] for p in pairs])
        if ec is None:
            raise Unsupported('list() of this symbolic iterable')
        t = ite_merge(pairs, ec)
    hint = ctx.env.__dict__.get('bags', {}).get(ec.name)
    if hint is not None and cls is SList:
        return bag_of_terms(v, j, t, ec, hint)
    r = cls(ctx.fresh_name('list'), ec, empty=True)
    r.s['arr'] = z3.Lambda([j], t)
    r.s['n'] = v.n
    if hasattr(v, 'idx'):
        r.cache['idx'] = v.idx
    return r


def bag_of_terms(v, j, t, ec, less):
    """the list of the elements t(j), 0<=j<n, tracked as a bag; multiplicities only where the elements are distinct"""
    ctx = cur()
    r = SBag(ctx.fresh_name('list'), ec, less)
    k = z3.Int('k!l')
    x = z3.Const('x!' + ec.name, ec.sort)
    w = z3.Function(ctx.fresh_name('bagidx'), ec.sort, z3.IntSort())
    ctx.assume(r.n == v.n)
    ctx.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < v.n), r.cnt(t) > 0)))
    ctx.assume(z3.ForAll([x], z3.Implies(r.cnt(x) > 0, z3.And(0 <= w(x), w(x) < v.n, z3.substitute(t, (j, w(x))) == x)),
                         patterns=[r.cnt(x)]))
    if ctx.entails(z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < v.n), t != z3.substitute(t, (j, k)))), 4000):
        ctx.assume(z3.ForAll([x], r.cnt(x) <= 1))
    return r


def bag_image(src, f, ec=None):
    """[f(x) for x in bag]: membership is exact, multiplicities are not tracked"""
    ctx = cur()
    x = z3.Const('x!' + src.ec.name, src.ec.sort)
    pairs = ctx.summarize(lambda: f(src.ec.wrap(x)))
    oc = infer_codec(*[p[1] for p in pairs])
    if oc is None:
        raise Unsupported('map over a bag')
    t = ite_merge(pairs, oc)
    less = src.less if oc is src.ec else ctx.env.__dict__.get('bags', {}).get(oc.name)
    if less is None:
        raise Unsupported('map over a bag')
    r = SBag(ctx.fresh_name('image'), oc, less)
    y = z3.Const('y!' + oc.name, oc.sort)
    w = z3.Function(ctx.fresh_name('preimage'), oc.sort, src.ec.sort)
    ctx.assume(r.n == src.n)
    ctx.assume(z3.ForAll([x], z3.Implies(src.cnt(x) > 0, r.cnt(t) > 0)))
    ctx.assume(z3.ForAll([y], z3.Implies(r.cnt(y) > 0, z3.And(src.cnt(w(y)) > 0, z3.substitute(t, (x, w(y))) == y)),
                         patterns=[r.cnt(y)]))
    return r


@model(filter)
def _filter(f, it):
    v = as_view(it)
    if v is None:
        if core.CTX is None:
            return filter(f, it)
        return filter((lambda x: pv_call(f, x)) if f is not None else None, it)
    return pv_comp('gen', it, False, lambda x: x, (lambda x: pv_call(f, x)) if f is not None else (lambda x: x))


@model(collections.deque)
def _deque(x=(), maxlen=None):
    v = as_view(x)
    if v is None:
        return collections.deque(x, maxlen)
    if maxlen is not None:
        raise Unsupported('deque maxlen')
    return list_of_view(v, SDeque)


@model(tuple)
def _tuple(x=()):
    v = as_view(x)
    if v is None:
        return tuple(x)
    r = list_of_view(v)
    return r


@model(set, frozenset)
def _set(x=()):
    if isinstance(x, tuple) and not x:
        return pv_lit('set')
    if isinstance(x, SSet):
        return x.copy()
    if isinstance(x, SDict):
        ctx = cur()
        r = SSet(ctx.fresh_name('set'), x.kc, empty=True)
        r.s['pres'], r.s['n'] = x.s['pres'], x.n
        return r
    if isinstance(x, SBag):
        ctx = cur()
        x.acc()
        r = SSet(ctx.fresh_name('set'), x.ec)
        q = z3.Const('x!' + x.ec.name, x.ec.sort)
        r.s['pres'] = z3.Lambda([q], x.cnt(q) > 0)
        ctx.assume(r.n <= x.n)
        ctx.assume((r.n == x.n) == z3.ForAll([q], x.cnt(q) <= 1))
        return r
    v = as_view(x)
    if v is None:
        return set(x)
    return set_of_view(v)


def set_of_view(v):
    ctx = cur()
    if v.n is None:
        raise Unsupported('set() of an infinite iterable')
    if isinstance(v.src, SDict) and v.term is not None and not getattr(v, 'is_items', False) and \
            v.at is not None and getattr(v, 'idx', None) is not None and v.term(z3.IntVal(0)).sort() == v.src.kc.sort \
            and v.term(z3.IntVal(0)).decl().kind() == z3.Z3_OP_SELECT and v.term(z3.IntVal(0)).arg(0).eq(v.src.enum()[0]):
        return _set(v.src)
    j = z3.Int('j!l')
    pairs = ctx.summarize(lambda: v.at(j))
    ec = infer_codec(*[p[1] for p in pairs])
    if ec is None:
        raise Unsupported('set() of this symbolic iterable')
    t = ite_merge(pairs, ec)
    r = SSet(ctx.fresh_name('set'), ec)
    x = z3.Const('x!' + ec.name, ec.sort)
    pres = r.s['pres']
    sk = z3.Function(ctx.fresh_name('setidx'), ec.sort, z3.IntSort())
    ctx.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < v.n), z3.Select(pres, t))))
    ctx.assume(z3.ForAll([x], z3.Implies(z3.Select(pres, x),
                                         z3.And(0 <= sk(x), sk(x) < v.n,
                                                z3.substitute(t, (j, sk(x))) == x))))
    ctx.assume(r.n <= v.n)
    return r


@model(dict)
def _dict(*a, **k):
    if not a and not k:
        return pv_lit('dict')
    if a and isinstance(a[0], SDict):
        r = a[0].copy()
        r.update(**k)
        return r
    if a and isinstance(a[0], View):
        raise Unsupported('dict(view)')
    return dict(*a, **k)


@model(sum)
def _sum(it, start=0):
    v = as_view(it)
    if v is None:
        r = start
        for x in it:
            r = r + x
        return r
    raise Unsupported('sum over a symbolic sequence')


@model(sorted)
def _sorted(it, key=None, reverse=False):
    v = as_view(it)
    if v is None:
        return sorted(it, key=key, reverse=reverse)
    return sorted_view(v, key, reverse)


def sorted_view(v, key=None, reverse=False):
    """assumed contract of sorted(): a permutation (tracked as two-way index maps) in non-decreasing key order"""
    ctx = cur()
    src = list_of_view(v)
    r = SList(ctx.fresh_name('sorted'), src.ec)
    ctx.assume(r.n == src.n)
    j, k = z3.Ints('j!p k!p')
    f = z3.Function(ctx.fresh_name('perm'), z3.IntSort(), z3.IntSort())
    g = z3.Function(ctx.fresh_name('perminv'), z3.IntSort(), z3.IntSort())
    rng = lambda x: z3.And(0 <= x, x < src.n)
    ctx.assume(z3.ForAll([j], z3.Implies(rng(j), z3.And(rng(f(j)), g(f(j)) == j, r.el(j) == z3.Select(src.arr, f(j)))),
                         patterns=[r.el(j)]))
    ctx.assume(z3.ForAll([j], z3.Implies(rng(j), z3.And(rng(g(j)), f(g(j)) == j)), patterns=[g(j)]))
    kf = key if key is not None else (lambda x: x)
    pj = ctx.summarize(lambda: bool_term(kf(r.ec.wrap(r.el(k))) < kf(r.ec.wrap(r.el(j)))))
    lt = z3.Or(*[z3.And(gd, t) for gd, t in pj])
    if reverse:
        pj = ctx.summarize(lambda: bool_term(kf(r.ec.wrap(r.el(j))) < kf(r.ec.wrap(r.el(k)))))
        lt = z3.Or(*[z3.And(gd, t) for gd, t in pj])
    ctx.assume(z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < r.n), z3.Not(lt))))
    r.cache['perm'] = (f, g, src)
    return r


@model(map)
def _map(f, *its):
    vs = [as_view(i) for i in its]
    if not any(v is not None for v in vs):
        return map(lambda *a: pv_call(f, *a), *its)
    if len(vs) != 1:
        raise Unsupported('map over several iterables')
    if isinstance(its[0], SBag):
        return bag_image(its[0], lambda x: pv_call(f, x))
    return View(vs[0].n, lambda i: pv_call(f, vs[0].at(i)), vs[0].src)


@model(hash)
def _hash(x):
    if isinstance(x, (SVal, SNum)):
        # some function of the value: equal values have equal hashes
        return IntC.wrap(z3.Function('hash_' + str(x.t.sort()), x.t.sort(), z3.IntSort())(x.t))
    if isinstance(x, Sym):
        raise Unsupported('hash/id of a symbolic value')
    return hash(x)


@model(id)
def _id(x):
    if isinstance(x, SVal):
        # identity: in the model equal opaque values are the same object
        cur().assume(UNID(ID(x.t)) == x.t)
        return IntC.wrap(ID(x.t))
    if isinstance(x, Sym):
        raise Unsupported('id of a symbolic value')
    return id(x)


@model(hasattr)
def _hasattr(o, name):
    if isinstance(o, SVal):
        return cur().fork(z3.Function('hasattr_' + name, Val, z3.BoolSort())(o.t))
    return hasattr(o, name)


@model(copy.copy)
def _copy(x):
    if isinstance(x, Container):
        return x.copy()
    if isinstance(x, Sym):
        return x
    return copy.copy(x)


@model(time.monotonic, time.time, time.perf_counter)
def _now():
    c = core.CTX
    if c is None:
        return time.monotonic()
    return c.monotonic()


@model(time.sleep)
def _sleep(x):
    c = core.CTX
    if c is None:
        return time.sleep(x)
    t = num_term(x)
    if t is None:
        raise Unsupported('sleep')
    if c.fork(t < 0):
        raise ValueError('sleep length must be non-negative')
    before = c.monotonic()
    after = c.monotonic()
    c.assume(after.t >= before.t + (z3.ToReal(t) if t.sort() == z3.IntSort() else t))


@model(warnings.warn)
def _warn(*a, **k):
    return None


def slice_indices(s, n):
    if s.step is not None and s.step != 1:
        raise Unsupported('slice step')
    n = IntC.unwrap(n)

    def norm(v, d):
        if v is None:
            return d
        t = IntC.unwrap(v)
        t = z3.If(t < 0, t + n, t)
        return z3.If(t < 0, z3.IntVal(0), z3.If(t > n, n, t))
    return IntC.wrap(norm(s.start, z3.IntVal(0))), IntC.wrap(norm(s.stop, n)), 1


ID = z3.Function('id', Val, z3.IntSort())
UNID = z3.Function('unid', z3.IntSort(), Val)


# ---- methods of standard library classes written in Python, replaced by their documented effect
METHODS = {}


def _home(f):
    q = getattr(f.__func__, '__qualname__', '').split('.')[0]
    for k in type(f.__self__).__mro__:
        if k.__name__ == q and k.__dict__.get(f.__func__.__name__) is f.__func__:
            return k.__module__


def _userlist_init(self, initlist=None):
    ec = cur().env.__dict__.get('empty_list')
    if ec is not None and (initlist is None or (isinstance(initlist, (list, tuple)) and not initlist)):
        self.data = SBag(cur().fresh_name('data'), ec, cur().env.bags[ec.name], True)
    elif initlist is None:
        self.data = []
    elif isinstance(initlist, collections.UserList):
        self.data = _list(initlist.data)
    else:
        self.data = _list(initlist)


METHODS[('UserList.__init__', 'collections')] = _userlist_init


@model(dict.fromkeys)
def _fromkeys(it, value=None):
    v = as_view(it)
    if v is None:
        return dict.fromkeys(it, value)
    if value is not None:
        raise Unsupported('dict.fromkeys with a value')
    return KeysOnly(_set(it))


class KeysOnly:
    """dict.fromkeys(symbolic iterable): only the key set matters"""

    def __init__(self, s):
        self.s = s

    def __contains__(self, x):
        return x in self.s

    def sym_len(self):
        return self.s.sym_len()


@model(copy.deepcopy)
def _deepcopy(x, memo=None, **k):
    if isinstance(x, SBag):
        # the elements are values: a deep copy has equal elements
        return x.copy()
    if isinstance(x, Container):
        return x.copy()
    if isinstance(x, Sym):
        return x
    return copy.deepcopy(x, memo)


# ---- heapq on bags (assumed contracts of the standard library)
@model(heapq.heappush)
def _heappush(h, x):
    if isinstance(h, SBag):
        s = h.s['heap']
        h.push(x, z3.If(s, z3.BoolVal(True), h._unk()))
        return
    return heapq.heappush(h, x)


@model(heapq.heappop)
def _heappop(h):
    if isinstance(h, SBag):
        return h.heappop()
    return heapq.heappop(h)


@model(heapq.heapify)
def _heapify(h):
    if isinstance(h, SBag):
        h.set(heap=z3.BoolVal(True))
        return
    if isinstance(h, Container):
        raise Unsupported('heapify of this container')
    return heapq.heapify(h)


@model(heapq.heappushpop)
def _heappushpop(h, x):
    if isinstance(h, SBag):
        if h and h.ec.wrap(h.top()) < x:
            r = h.heappop()
            _heappush(h, x)
            return r
        return x
    return heapq.heappushpop(h, x)


@model(heapq.heapreplace)
def _heapreplace(h, x):
    if isinstance(h, SBag):
        r = h.heappop()
        _heappush(h, x)
        return r
    return heapq.heapreplace(h, x)


# ---- bisect on symbolic sorted lists (assumed contract; the precondition "sorted" is an obligation)
def _bisect(side):
    native = bisect.bisect_left if side == 'left' else bisect.bisect_right

    def f(a, x, lo=0, hi=None, *, key=None):
        if not isinstance(a, SList):
            return native(a, x, lo, hi, key=key) if key else native(a, x, lo, hi)
        ctx = cur()
        a.acc()
        if hi is not None or key is not None or not (isinstance(lo, int) and lo == 0):
            raise Unsupported('bisect with bounds')
        j, k = z3.Ints('j!b k!b')

        def lt(p, q):
            prs = ctx.summarize(lambda: bool_term(p() < q()))
            return z3.Or(*[z3.And(g, t) for g, t in prs])

        el = lambda i: (lambda: a.ec.wrap(a.el(i)))
        X = lambda: x
        ctx.check('bisect.pre.sorted', z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < a.n),
                                                                    z3.Not(lt(el(k), el(j))))))
        i = ctx.fresh('bisect', z3.IntSort())
        ctx.assume(z3.And(0 <= i, i <= a.n))
        if side == 'left':
            ctx.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < i), lt(el(j), X))))
            ctx.assume(z3.ForAll([j], z3.Implies(z3.And(i <= j, j < a.n), z3.Not(lt(el(j), X)))))
        else:
            ctx.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < i), z3.Not(lt(X, el(j))))))
            ctx.assume(z3.ForAll([j], z3.Implies(z3.And(i <= j, j < a.n), lt(X, el(j)))))
        return IntC.wrap(i)

    return f


MODELS[bisect.bisect_left] = _bisect('left')
MODELS[bisect.bisect_right] = _bisect('right')
MODELS[bisect.bisect] = _bisect('right')


@model(bisect.insort_left)
def _insort_left(a, x, *r, **k):
    if isinstance(a, SList):
        a.insert(_bisect('left')(a, x, *r, **k), x)
        return
    return bisect.insort_left(a, x, *r, **k)


@model(bisect.insort_right, bisect.insort)
def _insort_right(a, x, *r, **k):
    if isinstance(a, SList):
        a.insert(_bisect('right')(a, x, *r, **k), x)
        return
    return bisect.insort_right(a, x, *r, **k)


# ---- itertools
@model(itertools.count)
def _count(start=0, step=1):
    if core.CTX is None or not core.CTX.env.__dict__.get('sym_count'):
        return itertools.count(start, step)
    st = IntC.unwrap(start)
    return View(None, lambda i: IntC.wrap(i * step + st), None)


SAFE_TYPES = (type, )
SAFE |= {getattr, setattr, delattr, print, repr, str, format, issubclass, property, staticmethod, classmethod,
         super, functools.partial, object.__new__, object.__setattr__, object.__getattribute__, itertools.chain,
         divmod, pow, round, filter, slice, object.__init__, operator.itemgetter, operator.attrgetter,
         type.__call__} | {getattr(operator, _n) for _n in ('eq', 'ne', 'lt', 'le', 'gt', 'ge', 'add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'neg')}


def pv_call(f, /, *a, **k):
    c = core.CTX
    if c is None:
        return f(*a, **k)
    # contracts / per-harness models, keyed by function object
    key = getattr(f, '__func__', f)
    if c.models:
        try:
            m = c.models.get(key)
        except TypeError:
            m = None
        if m is not None:
            if key is not f:
                return m(f.__self__, *a, **k)
            return m(*a, **k)
    try:
        m = MODELS.get(f)
    except TypeError:
        m = None
    if m is not None:
        return m(*a, **k)
    tf = type(f)
    if tf is types.MethodType and METHODS:
        m = METHODS.get((getattr(f.__func__, '__qualname__', None), _home(f)))
        if m is not None:
            return m(f.__self__, *a, **k)
    if isi(f, logging.Logger) or (tf is types.MethodType and isi(f.__self__, logging.Logger)):
        return None
    if tf in _builtin_types or tf is types.BuiltinMethodType:
        s = getattr(f, '__self__', None)
        if isi(s, slice) and f.__name__ == 'indices' and (_any_sym(a, k) or _any_sym((s.start, s.stop, s.step), {})):
            return slice_indices(s, *a)
        if s is not None and not isi(s, types.ModuleType):
            # method of a native object
            if isi(s, (list, collections.deque, tuple)):
                if f.__name__ in ('extend', 'extendleft') and _any_sym(a, k):
                    raise Unsupported('native %s with a symbolic iterable' % f.__name__)
                return f(*a, **k)
            if isi(s, (dict, set, frozenset)):
                if f.__name__ == 'update' and any(isi(x, (Container, View)) for x in a):
                    raise Unsupported('native update with a symbolic mapping')
                return f(*a, **k)
            if isi(s, str) and _any_sym(a, k):
                if f.__name__ == 'format':
                    return f(*a, **k)
                raise Unsupported('str.%s with symbolic argument' % f.__name__)
            if _any_sym(a, k) and not isi(s, type):
                if type(s).__module__ in ('_thread', 'threading', '_io'):
                    return f(*a, **k)
                if isi(s, BaseException) or tf is types.MethodWrapperType or isi(s, types.GeneratorType):
                    return f(*a, **k)
                raise Unsupported('native method %s.%s with symbolic argument' % (type(s).__name__, f.__name__))
            return f(*a, **k)
        if _any_sym(a, k):
            try:
                ok = f in SAFE
            except TypeError:
                ok = False
            if not ok:
                raise Unsupported('builtin %s with symbolic argument' % getattr(f, '__name__', f))
        return f(*a, **k)
    if isi(f, type) and f.__module__ == 'builtins' and _any_sym(a, k):
        if not (issubclass(f, BaseException) or f in SAFE):
            raise Unsupported('builtin type %s with symbolic argument' % f.__name__)
    elif isi(f, type) and f.__module__ in ('itertools', 'collections') and _any_sym(a, k) and f not in SAFE \
            and f not in (collections.UserDict, collections.UserList):
        raise Unsupported('%s with symbolic argument' % f.__name__)
    return f(*a, **k)


# ------------------------------------------------------------------------------------------------ comprehensions
def pv_comp(kind, it, star, elt, cond):
    c = core.CTX
    v = as_view(it) if c is not None else None
    if v is None and isinstance(it, SIter):
        v = None
    if v is None:
        if star:
            def g():
                for x in it:
                    x = tuple(x)
                    if cond is None or cond(*x):
                        yield elt(*x)
        else:
            def g():
                for x in it:
                    if cond is None or cond(x):
                        yield elt(x)
        if kind == 'gen':
            return g()
        if kind == 'list':
            return list(g())
        if kind == 'set':
            return set(g())
        return dict(g())
    ap = (lambda f, x: f(*x)) if star else (lambda f, x: f(x))
    src = v.src
    if cond is None:
        nv = View(v.n, lambda i: ap(elt, v.at(i)), src)
        nv.idx = getattr(v, 'idx', None)
        if kind == 'gen':
            return nv
        if kind == 'list':
            if isinstance(src, SBag):
                r = bag_map(v, src, elt, None, ap)
                if r is not None:
                    return r
            return list_of_view(nv)
        if kind == 'set':
            return set_of_view(nv)
        return dict_comp(v, src, elt, None, ap)
    if isinstance(src, SBag) and kind in ('list', 'gen'):
        r = bag_map(v, src, elt, cond, ap)
        if r is not None:
            return r
    if kind == 'dict':
        return dict_comp(v, src, elt, cond, ap)
    if kind == 'gen':
        fv = View(v.n, lambda i: ap(elt, v.at(i)), src)
        return FilterView(v, elt, cond, ap)
    if kind == 'set' and isinstance(src, SSet):
        x = z3.Const('x!' + src.kc.name, src.kc.sort)
        pairs = c.summarize(lambda: ap(elt, src.kc.wrap(x)))
        if len(pairs) == 1 and src.kc.ok(pairs[0][1]) and src.kc.unwrap(pairs[0][1]).eq(x):
            cp = c.summarize(lambda: truth_term(ap(cond, src.kc.wrap(x))))
            r = SSet(c.fresh_name('set'), src.kc)
            p = z3.Or(*[z3.And(g, t) for g, t in cp])
            r.s['pres'] = z3.Lambda([x], z3.And(src.has(x), p))
            c.assume(r.n <= src.n)
            return r
    return filter_list(v, elt, cond, ap)


class FilterView(View):
    def __init__(self, v, elt, cond, ap):
        self.v, self.elt, self.cond, self.ap = v, elt, cond, ap
        self.n = None
        self.term = None
        self.src = v.src

    @property
    def at(self):
        raise Unsupported('iteration over a filtered symbolic sequence')


def filter_list(v, elt, cond, ap):
    """[elt(x) for x in v if cond(x)]: order-preserving selection, given by a strictly increasing index map"""
    c = cur()
    if v.n is None:
        raise Unsupported('filter of an infinite sequence')
    j, k = z3.Ints('j!f k!f')
    cp = c.summarize(lambda: truth_term(ap(cond, v.at(j))))
    p = z3.Or(*[z3.And(g, t) for g, t in cp])
    ep = c.summarize(lambda: ap(elt, v.at(j)))
    ec = infer_codec(*[x[1] for x in ep])
    if ec is None:
        raise Unsupported('filtered comprehension')
    et = ite_merge(ep, ec)
    r = SList(c.fresh_name('filtered'), ec)
    f = z3.Function(c.fresh_name('sel'), z3.IntSort(), z3.IntSort())
    g = z3.Function(c.fresh_name('selinv'), z3.IntSort(), z3.IntSort())
    sub = lambda t, x: z3.substitute(t, (j, x))
    c.assume(r.n <= v.n)
    c.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < r.n),
                                       z3.And(0 <= f(j), f(j) < v.n, sub(p, f(j)), r.el(j) == sub(et, f(j)),
                                              g(f(j)) == j)), patterns=[r.el(j), f(j)]))
    c.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < v.n, p), z3.And(0 <= g(j), g(j) < r.n, f(g(j)) == j)),
                       patterns=[g(j)]))
    c.assume(z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < r.n), f(j) < f(k)), patterns=[z3.MultiPattern(f(j), f(k))]))
    return r


def bag_map(v, src, elt, cond, ap):
    c = cur()
    x = z3.Const('x!' + src.ec.name, src.ec.sort)
    pairs = c.summarize(lambda: ap(elt, src.ec.wrap(x)))
    if len(pairs) != 1 or not src.ec.ok(pairs[0][1]):
        return None
    try:
        same = z3.simplify(src.ec.unwrap(pairs[0][1]) == x)
    except Unsupported:
        c.dead = False
        return None
    if not z3.is_true(same):
        # eta: tuple rebuilt from its parts
        s = z3.Solver()
        s.add(z3.Not(same))
        if s.check() != z3.unsat:
            return None
    if cond is None:
        return src.copy()
    cp = c.summarize(lambda: truth_term(ap(cond, src.ec.wrap(x))))
    p = z3.Or(*[z3.And(g, t) for g, t in cp])
    n = c.fresh(src.name + '.n', z3.IntSort())
    c.assume(z3.And(0 <= n, n <= src.n))
    return src.make(z3.Lambda([x], z3.If(p, src.cnt(x), z3.IntVal(0))), n, c.fresh('heap', z3.BoolSort()))


def dict_comp(v, src, elt, cond, ap):
    c = cur()
    if not isinstance(src, (SDict, SSet)) or (isinstance(src, SDict) and not getattr(v, 'is_items', False)):
        return dict_comp_general(v, elt, cond, ap)
    x = z3.Const('x!' + src.kc.name, src.kc.sort)
    if isinstance(src, SDict):
        item = lambda: (src.kc.wrap(x), src.vc.wrap(src.at(x)))
    else:
        item = lambda: src.kc.wrap(x)
    pairs = c.summarize(lambda: ap(elt, item()))
    if not all(src.kc.ok(p[0]) for g, p in pairs):
        return dict_comp_general(v, elt, cond, ap)
    kt = ite_merge([(g, p[0]) for g, p in pairs], src.kc)
    if not kt.eq(x):
        return dict_comp_general(v, elt, cond, ap)
    vc = infer_codec(*[p[1][1] for p in pairs])
    if vc is None:
        raise Unsupported('dict comprehension')
    vt = ite_merge([(g, p[1]) for g, p in pairs], vc)
    r = SDict(c.fresh_name('dict'), src.kc, vc)
    if cond is None:
        r.s['pres'], r.s['n'] = src.s['pres'], src.n
    else:
        cp = c.summarize(lambda: truth_term(ap(cond, item())))
        p = z3.Or(*[z3.And(g, t) for g, t in cp])
        r.s['pres'] = z3.Lambda([x], z3.And(src.has(x), p))
        c.assume(r.n <= src.n)
    r.s['val'] = z3.Lambda([x], vt)
    return r


def dict_comp_general(v, elt, cond, ap):
    """{k(x): v(x) for x in view if c(x)}: the last occurrence of a key wins"""
    c = cur()
    if v.n is None:
        raise Unsupported('dict comprehension over an infinite iterable')
    j, k = z3.Ints('j!d k!d')
    pairs = c.summarize(lambda: ap(elt, v.at(j)))
    kc = infer_codec(*[p[1][0] for p in pairs])
    vc = infer_codec(*[p[1][1] for p in pairs])
    if kc is None or vc is None:
        raise Unsupported('dict comprehension')
    kt = ite_merge([(g, p[0]) for g, p in pairs], kc)
    vt = ite_merge([(g, p[1]) for g, p in pairs], vc)
    p = z3.BoolVal(True)
    if cond is not None:
        cp = c.summarize(lambda: truth_term(ap(cond, v.at(j))))
        p = z3.Or(*[z3.And(g, t) for g, t in cp])
    r = SDict(c.fresh_name('dict'), kc, vc)
    x = z3.Const('x!' + kc.name, kc.sort)
    w = z3.Function(c.fresh_name('dictidx'), kc.sort, z3.IntSort())
    sub = lambda t, i: z3.substitute(t, (j, i))
    rng = lambda i: z3.And(0 <= i, i < v.n, sub(p, i))
    c.assume(z3.ForAll([j], z3.Implies(rng(j), z3.And(r.has(kt), w(kt) >= j))))
    c.assume(z3.ForAll([x], z3.Implies(r.has(x), z3.And(rng(w(x)), sub(kt, w(x)) == x, r.at(x) == sub(vt, w(x)))),
                       patterns=[r.has(x)]))
    c.assume(r.n <= v.n)
    if cond is None:
        c.assume(z3.Implies(r.n == v.n, z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < v.n),
                                                                     kt != sub(kt, k)))))
        c.assume(z3.Implies(r.n < v.n, z3.Exists([j, k], z3.And(0 <= j, j < k, k < v.n, kt == sub(kt, k)))))
    return r


# ------------------------------------------------------------------------------------------------ loops
PROPS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'props') + os.sep


class LoopInfo:
    def __init__(self, site):
        self.site = site
        self.havoc = {}          # path key -> codec (or True for containers)
        self.dead = set()        # names of candidate clauses that are not inductive
        self.alive = set()


def _same(a, b):
    if a is b:
        return True
    if isinstance(a, Container) or isinstance(b, Container):
        return False
    if isinstance(a, Sym) and isinstance(b, Sym):
        if type(a) is type(b) and a.t is not None and b.t is not None:
            return a.t.sort() == b.t.sort() and a.t.eq(b.t)
        return False
    if isinstance(a, Sym) or isinstance(b, Sym):
        return False
    if type(a) is not type(b):
        return False
    if isinstance(a, tuple):
        return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float, str, bytes, type(None))):
        return a == b
    return False


def _is_inst(o):
    m = type(o).__module__
    return m.startswith('satella') or m.startswith('props') or getattr(type(o), '__pv_track__', False)


def _attrs(o):
    d = {}
    try:
        d.update(object.__getattribute__(o, '__dict__'))       # whatever __getattr__ of the class would say
    except AttributeError:
        pass
    for k in type(o).__mro__:
        sl = k.__dict__.get('__slots__', ())
        if isinstance(sl, str):
            sl = (sl,)
        for s in sl:
            if s.startswith('__') and not s.endswith('__'):
                s = '_%s%s' % (k.__name__.lstrip('_'), s)
            try:
                d[s] = object.__getattribute__(o, s)
            except AttributeError:
                pass
    return d


def reach(roots, limit=400):
    """path -> object, for instances of the code under verification, containers and native mutable containers"""
    out = {}
    seen = set()
    work = [(k, v) for k, v in sorted(roots.items(), key=lambda kv: kv[0])]
    while work and len(out) < limit:
        p, o = work.pop(0)
        if isinstance(o, SIter):
            if id(o) not in seen:
                seen.add(id(o))
                out[p] = o
            continue
        if isinstance(o, Container):
            if id(o) not in seen:
                seen.add(id(o))
                out[p] = o
            continue
        if isinstance(o, (Sym, View, SRange)) or o is None or isinstance(o, (int, float, str, bytes, type,
                                                                            types.ModuleType, types.FunctionType)):
            continue
        if id(o) in seen:
            continue
        if isinstance(o, (list, collections.deque, set, dict)):
            seen.add(id(o))
            out[p] = o
            if isinstance(o, dict):
                for k in list(o):
                    if isinstance(k, (str, int)):
                        work.append(('%s[%r]' % (p, k), o[k]))
            elif not isinstance(o, set):
                for i, x in enumerate(o):
                    work.append(('%s[%d]' % (p, i), x))
        elif isinstance(o, tuple):
            for i, x in enumerate(o):
                work.append(('%s[%d]' % (p, i), x))
        elif _is_inst(o):
            seen.add(id(o))
            out[p] = o
            for k, v in sorted(_attrs(o).items()):
                work.append(('%s.%s' % (p, k), v))
    return out


class LoopView:
    """what a candidate invariant may talk about"""

    def __init__(self, cut, i, loc):
        self.cut = cut
        self.i = i
        self.n = cut.view.n if cut.view is not None else None
        self.view = cut.view
        self.loc = loc
        self.site = cut.site
        self.entry = cut.entry_locals

    def at(self, j):
        return self.view.at(j)

    def term(self, j):
        return self.view.term(j)

    def pre(self, path):
        """state of a container at loop entry, by path from a root of the contract or a local"""
        s = self.cut.entry_snap
        for k in ('env.' + path, 'loc.' + path):
            if k in s:
                return s[k]
        raise Skip(path)


class Skip(Exception):
    pass


class CutIter:
    __slots__ = ('_head', 'ctx', 'view', 'site', 'info', 'mode', 'state', 'i', 'frame', 'entry_locals', 'snapshot', 'cands',
                 'names', 'objs', 'siter', 'entry_snap')

    def __init__(self, ctx, view, site, siter=None):
        self.ctx, self.view, self.site = ctx, view, site
        self.info = ctx.engine.loops.setdefault(site, LoopInfo(site))
        self.state = 0
        self.siter = siter
        self.entry_locals = {}

    # -- state capture
    def _roots(self, loc):
        r = {'env.' + k: v for k, v in self.ctx.roots.items()}
        r.update({'loc.' + k: v for k, v in loc.items() if not k.startswith(('_pv_', '__pv'))})
        return r

    def _capture(self, loc):
        snap = {}
        objs = reach(self._roots(loc))
        for p, o in objs.items():
            if isinstance(o, Container):
                snap[p] = o.snap()
            elif isinstance(o, SIter):
                snap[p] = o.pos
            elif isinstance(o, dict):
                snap[p] = dict(o)
            elif isinstance(o, (list, collections.deque)):
                snap[p] = list(o)
            elif isinstance(o, set):
                snap[p] = set(o)
            else:
                snap[p] = _attrs(o)
        return snap, objs

    def _vals(self, loc, names):
        return {n: loc[n] for n in names if n in loc}

    def enter(self, names):
        ctx, info = self.ctx, self.info
        frame = sys._getframe(1)
        self.frame = frame
        if frame.f_code.co_flags & 0x20:
            # a generator: the state of whoever consumes it is not in the frame rule, unless it is the contract itself
            b = frame.f_back
            if b is None or not b.f_code.co_filename.startswith(PROPS):
                raise Unsupported('a symbolic loop in a generator consumed by other code')
        loc = dict(frame.f_locals)
        self.names = names
        self.entry_locals = self._vals(loc, names)
        self.entry_snap = self._capture(loc)[0]
        # 1. candidate clauses must hold on entry
        self._init_cands(loc)
        self._filter(z3.IntVal(0), loc, 'entry')
        # 2. choose: an arbitrary iteration, or the exit
        if self.view is None:
            self.mode = 'while'
        elif self.view.n is None:
            self.mode = 'iter'
        else:
            self.mode = 'iter' if ctx.choose(2) == 0 else 'exit'
        # 3. havoc what the loop may change
        lifted = {}
        newloc = dict(loc)
        snap, objs = self._capture(loc)
        for p in sorted(info.havoc):
            codec = info.havoc[p]
            self._havoc(p, codec, objs, newloc, lifted, loc)
        self.i = ctx.fresh('iter', z3.IntSort())
        if self.mode == 'exit':
            ctx.assume(self.i == self.view.n)
        elif self.view is None or self.view.n is None:
            ctx.assume(self.i >= 0)
        else:
            ctx.assume(z3.And(0 <= self.i, self.i < self.view.n))
        carried = [n for n in ctx.env.__dict__.get('carry', ()) if n in names and n not in loc
                   and isinstance(info.havoc.get('loc.' + n), Codec)]
        if carried and ctx.fork(self.i == 0):       # first bound by the loop: unbound at the head of the first iteration only
            for n in carried:
                newloc.pop(n, None)
        for nm, f in self._alive():
            t = self._eval(f, self.i, newloc)
            if t is not None:
                ctx.assume(t)
        if not ctx.feasible():
            raise PathEnd()
        for n in carried:
            v = newloc.get(n)
            if isinstance(v, SVal):                 # known to be one of the objects that exist already (an exception to raise, say)
                for o, t in ctx._constorder:
                    if isi(o, BaseException) and ctx.entails(v.t == t):
                        newloc[n] = o
        self.snapshot, self.objs = self._capture(newloc)
        out = []
        for n in names:
            out.append(newloc[n] if n in newloc else POISON)
        self._head = dict(zip(names, out))
        return out

    def _havoc(self, p, codec, objs, newloc, lifted, loc):
        ctx = self.ctx
        if p.startswith('loc.') and '.' not in p[4:] and '[' not in p[4:]:
            name = p[4:]
            v = newloc.get(name)
            if codec == 'poison':
                newloc[name] = POISON
                return
            if isinstance(codec, Codec):
                newloc[name] = codec.wrap(ctx.fresh('h.' + name, codec.sort))
                return
            if isinstance(codec, tuple) and codec[0] == 'fresh':
                if any(o is v for q, o in reach({k: x for k, x in self._roots(loc).items() if k != p}).items()):
                    raise Unsupported('a list bound in a symbolic loop is known elsewhere')
                newloc[name] = SList(ctx.fresh_name('h.' + p), codec[1])
                return
        o = objs.get(p)
        if isinstance(o, Container):
            o.havoc(ctx.fresh_name('h.' + p))
            return
        if p.endswith('~'):
            o = objs.get(p[:-1])
            if not isinstance(o, SIter):
                return
            o.pos = ctx.fresh('h.pos', z3.IntSort())
            ctx.assume(o.pos >= 0)
            if o.v.n is not None:
                ctx.assume(o.pos <= o.v.n)          # a cursor never moves past the end
            return
        if isinstance(codec, tuple) and codec[0] == 'lift' and isinstance(o, list):
            s = SList(ctx.fresh_name('h.' + p), codec[1])
            # rebind every reference we know of
            for n in list(newloc):
                if newloc[n] is o:
                    newloc[n] = s
            for q, oo in objs.items():
                if _is_inst(oo):
                    for k, v in _attrs(oo).items():
                        if v is o:
                            object.__setattr__(oo, k, s)
            return
        if '#' in p:
            op, attr = p.split('#')
            oo = objs.get(op)
            if oo is None:
                return
            if isinstance(codec, Codec):
                object.__setattr__(oo, attr, codec.wrap(ctx.fresh('h.%s' % attr, codec.sort)))
            elif isinstance(codec, tuple) and codec[0] == 'obj':
                pass
            return

    # -- candidate clauses
    def _init_cands(self, loc):
        self.cands = [(nm, f) for nm, f in self.ctx.engine.invs]
        # generic templates over integer locals / attributes that the loop changes
        for p, codec in self.info.havoc.items():
            if isinstance(codec, Codec) and codec is IntC and p.startswith('loc.'):
                name = p[4:]
                v0 = loc.get(name)
                t0 = num_term(v0)
                if t0 is None or t0.sort() != z3.IntSort():
                    continue
                self.cands.append(('auto %s==entry+i' % name, lambda L, name=name, t0=t0: IntC.unwrap(L.loc[name]) == t0 + L.i))
                self.cands.append(('auto %s>=entry' % name, lambda L, name=name, t0=t0: IntC.unwrap(L.loc[name]) >= t0))
                self.cands.append(('auto %s<=entry' % name, lambda L, name=name, t0=t0: IntC.unwrap(L.loc[name]) <= t0))
                for k, st in enumerate(self.ctx.env.__dict__.get('steps', ())):
                    self.cands.append(('auto %s==entry+i*step%d' % (name, k),
                                       lambda L, name=name, t0=t0, st=st: IntC.unwrap(L.loc[name]) == t0 + L.i * st))
                self.cands.append(('auto %s<=entry+i' % name, lambda L, name=name, t0=t0: IntC.unwrap(L.loc[name]) <= t0 + L.i))
            elif codec is RealC and p.startswith('loc.'):
                name = p[4:]
                t0 = num_term(loc.get(name))
                if t0 is None:
                    continue
                self.cands.append(('auto %s>=entry' % name, lambda L, name=name, t0=t0: RealC.unwrap(L.loc[name]) >= t0))
                self.cands.append(('auto %s<=entry' % name, lambda L, name=name, t0=t0: RealC.unwrap(L.loc[name]) <= t0))
        if self.siter is not None:
            s = self.siter
            p0 = s.pos
            self.cands.append(('auto pos==entry+i', lambda L: s.pos == p0 + L.i))

    def _alive(self):
        return [(n, f) for n, f in self.cands if n not in self.info.dead]

    def _eval(self, f, i, loc):
        dead = self.ctx.dead
        try:
            t = f(LoopView(self, i, loc))
        except (Skip, KeyError, AttributeError, TypeError, Unsupported, z3.Z3Exception):
            self.ctx.dead = dead
            return None
        if t is None:
            return None
        return bool_term(t)

    def _filter(self, i, loc, what):
        ctx = self.ctx
        if ctx.dead:
            return
        for nm, f in self._alive():
            t = self._eval(f, i, loc)
            if t is None:
                # clause not expressible in this state: cannot be relied on
                if what == 'end':
                    self.info.dead.add(nm)
                    ctx.engine.dirty = True
                else:
                    self.info.dead.add(nm)
                    ctx.engine.dirty = True
                continue
            if not ctx.entails(t):
                self.info.dead.add(nm)
                ctx.engine.dirty = True
        if ctx.engine.dirty:
            raise Restart()

    # -- iteration protocol
    def __iter__(self):
        return self

    def __next__(self):
        ctx = self.ctx
        if ctx.dead:
            raise StopIteration
        if self.state == 0:
            self.state = 1
            if self.mode == 'exit':
                if self.siter is not None:
                    self.siter.pos = self.siter.v.n
                raise StopIteration
            if self.mode == 'while':
                return None
            if self.siter is not None:
                self.siter.pos = z3.simplify(self.siter.pos + 1)
            return self.view.at(self.i)
        # end of the arbitrary iteration
        frame = self.frame
        loc = dict(frame.f_locals)
        self._check_frame(loc)
        self._filter(z3.simplify(self.i + 1), loc, 'end')
        raise PathEnd()

    def _check_frame(self, loc):
        """everything the iteration changed must have been havoced"""
        info, ctx = self.info, self.ctx
        new = {}
        # locals
        ent = self.entry_locals
        for n in self.names:
            a = self.head_val(n)
            b = loc.get(n, POISON)
            key = 'loc.' + n
            if n not in self.entry_locals and n in ctx.env.__dict__.get('carry', ()):
                old = info.havoc.get(key)
                if old == 'poison' or (isinstance(old, Codec) and not isinstance(b, Poison)
                                       and (old.ok(b) or infer_codec(b) is old)):
                    continue
                c = None if isinstance(b, Poison) or old is not None else infer_codec(b)
                new[key] = c if isinstance(c, Codec) else 'poison'
                continue
            if a is POISON and n not in self.entry_locals:
                if info.havoc.get(key) != 'poison':
                    pass
                continue
            if _same(a, b):
                continue
            if isinstance(b, Container) and isinstance(a, Container) and a is b:
                continue
            if isinstance(a, list) and a is b:
                continue
            if isinstance(b, Poison):
                new[key] = 'poison'
                continue
            old = info.havoc.get(key)
            if type(a) in (SList, list) and type(b) in (SList, list):
                # bound to another list: at the head of an iteration it is some list nothing else refers to
                c = b.ec if isinstance(b, SList) else old[1] if isinstance(old, tuple) and not b else infer_codec(*b)
                others = reach({k: v for k, v in self._roots(loc).items() if k != key})
                if isinstance(c, Codec) and not any(o is b for o in others.values()) and old in (None, ('fresh', c), ('lift', c)):
                    if old != ('fresh', c):
                        new[key] = ('fresh', c)
                    continue
            c = infer_codec(self.entry_locals.get(n), b)
            if c is None or not isinstance(c, Codec):
                if old is None:
                    new[key] = 'poison'
                continue
            if old is None:
                new[key] = c
            elif old != 'poison' and not old.ok(b):
                nc = infer_codec(self.entry_locals.get(n), b, old.wrap(ctx.fresh('tmp', old.sort)) if not isinstance(old, OptC) else None)
                if nc is None or nc is old:
                    new[key] = 'poison'
                else:
                    new[key] = nc
        # heap
        cur_objs = reach(self._roots(loc))
        for p, o in self.objs.items():
            s0 = self.snapshot[p]
            if isinstance(o, Container):
                if o.changed(s0) and p not in info.havoc:
                    new[p] = True
            elif isinstance(o, SIter):
                if (o is self.siter or not o.pos.eq(s0)) and p + '~' not in info.havoc:
                    new[p + '~'] = True                 # ~: the cursor of an iterator
            elif isinstance(o, dict):
                if set(o) != set(s0) or any(not _same(o[k], s0[k]) for k in o):
                    raise Unsupported('native dict %s changed in a symbolic loop' % p)
            elif isinstance(o, set):
                if o != s0:
                    raise Unsupported('native set %s changed in a symbolic loop' % p)
            elif isinstance(o, (list, collections.deque)):
                l1 = list(o)
                if len(l1) != len(s0) or any(not _same(x, y) for x, y in zip(l1, s0)):
                    if not isinstance(o, list):
                        raise Unsupported('native deque %s changed in a symbolic loop' % p)
                    c = infer_codec(*l1)
                    if c is None:
                        raise Unsupported('native list %s changed in a symbolic loop' % p)
                    new[p] = ('lift', c)
            else:
                a1 = _attrs(o)
                for k in set(a1) | set(s0):
                    x, y = s0.get(k, POISON), a1.get(k, POISON)
                    if _same(x, y):
                        continue
                    key = '%s#%s' % (p, k)
                    old = info.havoc.get(key)
                    c = infer_codec(x, y)
                    if c is None:
                        raise Unsupported('attribute %s changed in a symbolic loop' % key)
                    if old is None:
                        new[key] = c
                    elif not old.ok(y):
                        raise Unsupported('attribute %s changes type in a symbolic loop' % key)
        if new:
            info.havoc.update(new)
            info.dead.clear()
            ctx.engine.dirty = True
            raise Restart()

    def head_val(self, n):
        return self._head[n] if n in self._head else POISON



def pv_iscut(it):
    return type(it) is CutIter


def pv_for(it, site):
    c = core.CTX
    if c is None:
        return it
    link = None
    if isi(it, LinkIter):
        link, it = it, it.it
    if isi(it, SIter):
        n = it.v.n
        base = it.pos
        v = it.v
        rest = View(None if n is None else z3.simplify(z3.If(n - base > 0, n - base, z3.IntVal(0))),
                    (lambda i: v.at(base + i)) if link is None else lambda i: link.f(z3.simplify(base - link.base + i), v.at(base + i)), v.src)
        return CutIter(c, rest, site, siter=it)
    v = as_view(it)
    if v is None:
        return it
    if v.n is not None:
        k = c.concrete(v.n)
        if k is not None and k <= 8:
            return iter([v.at(z3.IntVal(i)) for i in range(k)])
    if c.engine.unroll is not None:
        return unrolled(c, v, site)
    return CutIter(c, v, site)


def unrolled(c, v, site):
    i = 0
    while True:
        if v.n is not None and c.fork(v.n <= i):
            return
        if i >= c.engine.unroll:
            raise BoundHit(site)
        yield v.at(z3.IntVal(i))
        i += 1


class WhileUnroll:
    __slots__ = ('c', 'k', 'site')

    def __init__(self, c, site):
        self.c, self.k, self.site = c, 0, site

    def __iter__(self):
        return self

    def __next__(self):
        self.k += 1
        if self.k > 64 and not self.c.dead:
            raise BoundHit(self.site)
        if self.c.dead and self.k > 200:
            raise PathEnd()
        return None


_forever = itertools.repeat(None)


def pv_while(site):
    c = core.CTX
    if c is None:
        return _forever
    pol = c.env.__dict__.get('cut_while')
    if pol and (pol is True or any(p in site for p in pol)):
        return CutIter(c, None, site)
    return WhileUnroll(c, site)


def pv_retbool(x):
    return bool(x) if isinstance(x, Sym) else x


_EMPTY = {'dict': dict, 'list': list, 'set': set}


def pv_lit(kind, qual=None):
    c = core.CTX
    if c is not None:
        lits = c.env.__dict__.get('lits')
        if lits:
            m = lits.get((kind, qual)) or lits.get(kind)
            if m is not None:
                return m()
    return _EMPTY[kind]()


def inject(g):
    g['__pv_lit__'] = pv_lit
    g['__pv_retbool__'] = pv_retbool
    g['__pv_call__'] = pv_call
    g['__pv_is__'] = pv_is
    g['__pv_for__'] = pv_for
    g['__pv_while__'] = pv_while
    g['__pv_iscut__'] = pv_iscut
    g['__pv_comp__'] = pv_comp
    g['__pv_Control__'] = Control
