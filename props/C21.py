"""C21: conditions, argument and result decorators do to a call exactly what they are told, and nothing else."""
import copy
import inspect
import warnings

from pyvc.api import *
from pyvc.runtime import SAFE
from satella.coding import misc
from satella.coding.decorators import arguments as da, decorators as dd, preconditions as dp
from satella.coding.concurrent import monitor
from satella.coding.predicates import x as X
from satella.exceptions import PreconditionError

for _f in (eval, inspect.signature, inspect.Signature.bind, inspect.BoundArguments.apply_defaults):
    SAFE.add(_f)


class Boom(Exception):
    pass


def ok(ctx, out):
    ctx.check('does not fail', BoolVal(out[0] == 'ok'))
    return out[1]


def same(a, b):
    """the same object, or dicts / tuples of the same objects"""
    if isinstance(a, dict):
        return isinstance(b, dict) and list(sorted(a)) == list(sorted(b)) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, tuple):
        return isinstance(b, tuple) and len(a) == len(b) and all(same(p, q) for p, q in zip(a, b))
    return a is b


# functions of all kinds of parameters, that tell what they got
def p1(a):
    return {'a': a}


def p2(a, b):
    return {'a': a, 'b': b}


def d2(a, b='default'):
    return {'a': a, 'b': b}


def dd2(a='da', b='db'):
    return {'a': a, 'b': b}


def va(a, *args):
    return {'a': a, 'args': args}


def vk(a, **kwargs):
    return {'a': a, 'kwargs': kwargs}


def ko(a, *, k='dk'):
    return {'a': a, 'k': k}


def rk(a, *args, k):
    return {'a': a, 'args': args, 'k': k}


def full(a, b='db', *args, k='dk', **kwargs):
    return {'a': a, 'b': b, 'args': args, 'k': k, 'kwargs': kwargs}


SHAPES = (p1, p2, d2, dd2, va, vk, ko, rk, full)
CALLS = (((), ()), (('x',), ()), (('x', 'y'), ()), (('x', 'y', 'z'), ()), ((), ('a',)), ((), ('a', 'b')), (('x',), ('b',)), (('x',), ('k',)),
         (('x', 'y'), ('k',)), (('x', 'y', 'z'), ('k',)), (('x',), ('other',)), (('x', 'y'), ('k', 'other')), ((), ('b',)), (('x',), ('a',)), ((), ('a', 'k')))


def a_call(ctx):
    f = SHAPES[ctx.choose(len(SHAPES))]
    c = CALLS[ctx.choose(len(CALLS))]
    args = tuple(ctx.obj(n) for n in c[0])
    kwargs = {n: ctx.obj('k' + n) for n in c[1]}
    return f, args, kwargs


def native(f, *a, **k):
    try:
        return 'ok', f(*a, **k)
    except TypeError as e:
        return 'exc', e


@contract('get_arguments / call_with_arguments', ['get_arguments', 'call_with_arguments'], reach=['end', 'refused', 'defaults'])
def t_arguments(ctx):
    f, args, kwargs = a_call(ctx)
    want = native(f, *args, **kwargs)
    out = ctx.catch(misc.get_arguments, f, *args, **kwargs)
    if want[0] == 'exc':
        ctx.reach('refused')
        ctx.check('refused as the call is', BoolVal(out[0] == 'exc' and isinstance(out[1], TypeError)))
        return
    d = ok(ctx, out)
    ctx.check('all the variables, with their values', BoolVal(same(want[1], d)))
    if any(isinstance(v, str) for v in want[1].values()):
        ctx.reach('defaults')
    missing = ctx.choose(2) == 1
    if missing:         # some with defaults are not given
        d = {k: v for k, v in d.items() if not isinstance(v, str)}
    out = ctx.catch(misc.call_with_arguments, f, dict(d))
    ctx.check('called with the same', BoolVal(same(want[1], ok(ctx, out))))
    if not missing:
        out = ctx.catch(misc.call_with_arguments, f, dict(d, nonexistent=ctx.obj('n')))
        ctx.check('too many are refused', BoolVal(out[0] == 'exc' and isinstance(out[1], ValueError)))
        d.pop('a')
        if f is not dd2:
            out = ctx.catch(misc.call_with_arguments, f, d)
            ctx.check('too few are refused', BoolVal(out[0] == 'exc' and isinstance(out[1], TypeError)))


class Op:
    """an operation on an argument: gives an object of its own for each argument"""
    def __init__(self, ctx, name):
        self.ctx, self.name, self.got = ctx, name, []

    def __call__(self, v):
        r = self.ctx.obj(self.name)
        self.got.append((v, r))
        return r


def applied(op, v, got):
    """got is what op gives for v"""
    return v is got if op is None else any(a is v and r is got for a, r in op.got)


@contract('for_argument', ['for_argument', 'for_argument.outer', 'for_argument.outer.inner', 'for_argument.outer.call_by_name', '_get_operations'],
          reach=['end', 'refused', 'defaults'])
def t_for_argument(ctx):
    f, args, kwargs = a_call(ctx)
    want = native(f, *args, **kwargs)
    style = ctx.choose(4)
    A, B, K = Op(ctx, 'A'), Op(ctx, 'B'), Op(ctx, 'K')
    ret = ctx.choose(2) == 1
    R = Op(ctx, 'R')
    if style == 0:
        t, kw, ops = (A,), {}, {'a': A}
    elif style == 1:
        t, kw, ops = (), {'a': A, 'k': K}, {'a': A, 'k': K}
    elif style == 2:
        ctx.assume(BoolVal(f in (p2, d2, dd2, full)))
        t, kw, ops = (None, B), {'k': K}, {'b': B, 'k': K}
    else:
        t, kw, ops = ('self',), {'k': None}, {}
    calls = []

    def call(*a, **k):
        calls.append(1)
        return f(*a, **k)
    call.__wrapped__ = f
    dec = da.for_argument(*t, **kw, **({'returns': R} if ret else {}))(call)
    out = ctx.catch(dec, *args, **kwargs)
    if want[0] == 'exc':
        ctx.reach('refused')
        ctx.check('refused as the call is', BoolVal(out[0] == 'exc' and isinstance(out[1], TypeError)))
        return
    r = ok(ctx, out)
    ctx.check('called once', BoolVal(len(calls) == 1))
    if ret:
        ctx.check('the result is processed', BoolVal(len(R.got) == 1 and R.got[0][1] is r))
        if not R.got:
            return
        r = R.got[0][0]
    ctx.check('all variables', BoolVal(isinstance(r, dict) and sorted(r) == sorted(want[1])))
    for n, v in want[1].items():
        if isinstance(v, str):
            ctx.reach('defaults')
        if n in ('args', 'kwargs'):
            ctx.check('further arguments are passed on', BoolVal(same(v, r.get(n)) if n == 'args' or 'k' not in v else True))
        else:
            ctx.check('each is processed by its operation', BoolVal(applied(ops.get(n), v, r.get(n))))
    ctx.check('each operation once', BoolVal(all(len(o.got) <= 1 for o in (A, B))))


@contract('transform_arguments / transform_result', ['transform_arguments.outer.inner', 'transform_result.outer.inner'], reach=['end', 'keyword', 'mixed'])
def t_transform(ctx):
    a, b = ctx.int('a'), ctx.int('b')
    got = []

    def f(a, b=7):
        got.append((a, b))
        return a + b + b
    how = ctx.choose(3)
    args, kwargs, bv = [((a, b), {}, b), ((), {'b': b, 'a': a}, b), ((a,), {}, 7)][how]
    ctx.reach(['end', 'keyword', 'mixed'][how])
    r = ok(ctx, ctx.catch(da.transform_arguments(a='a + b', b='a - b')(f), *args, **kwargs))
    ctx.check('old values are used', And(num_term(got[0][0]) == num_term(a + bv), num_term(got[0][1]) == num_term(a - bv)))
    ctx.check('gives the result', num_term(r) == num_term((a + bv) + (a - bv) + (a - bv)))
    r = ok(ctx, ctx.catch(da.transform_arguments(b='a')(f), *args, **kwargs))
    ctx.check('others are left alone', And(num_term(got[1][0]) == num_term(a), num_term(got[1][1]) == num_term(a)))
    r = ok(ctx, ctx.catch(da.transform_result('x - a + b')(f), *args, **kwargs))
    ctx.check('called as it is', BoolVal(len(got) == 3 and got[2][0] is a and got[2][1] is bv))
    ctx.check('the result is transformed', num_term(r) == num_term(bv + bv + bv))


@contract('precondition / postcondition', ['precondition', 'precondition.outer', 'precondition.outer.inner', 'postcondition', 'postcondition.outer', 'postcondition.outer.inner'],
          reach=['end', 'refused', 'accepted', 'result refused', 'result accepted', 'failed'])
def t_conditions(ctx):
    ctx.models[warnings.warn] = lambda *a, **k: None
    a, b, k, r = ctx.int('a'), ctx.int('b'), ctx.int('k'), ctx.int('r')
    passed = ctx.choose(2) == 1
    calls = []

    def f(*args, **kwargs):
        calls.append((args, kwargs))
        return r
    style = ctx.choose(4)
    seen = []

    def cond(v):
        seen.append(v)
        return v > 3
    if style == 3:
        def bad(v):
            raise TypeError()
        out = ctx.catch(dp.precondition(bad)(f), a, b)
        ctx.reach('failed')
        ctx.check('a condition that cannot be computed is not met', BoolVal(out[0] == 'exc' and isinstance(out[1], PreconditionError) and not calls))
        return
    dec = dp.precondition(*[(cond,), (None, 'x > 3'), (None,)][style], **({'k': 'x > 5', 'j': None} if style else {'k': lambda v: v > 5}))
    out = ctx.catch(dec(f), a, b, **({'k': k} if passed else {}))
    holds = [a.t > 3, b.t > 3, BoolVal(True)][style]
    if passed:
        holds = And(holds, k.t > 5)
    if out[0] == 'ok':
        ctx.reach('accepted')
        ctx.check('called only if the conditions hold', holds)
        ctx.check('called once, with the same, and gives the result', BoolVal(len(calls) == 1 and same(calls[0], ((a, b), {'k': k} if passed else {})) and out[1] is r))
    else:
        ctx.reach('refused')
        ctx.check('refused only if a condition fails', Not(holds))
        ctx.check('PreconditionError, and not called', BoolVal(isinstance(out[1], PreconditionError) and not calls))
    calls.clear()
    out = ctx.catch(dp.postcondition([lambda v: v > 3, 'x > 3'][ctx.choose(2)])(f), a, k=k)
    ctx.check('called as it is', BoolVal(len(calls) == 1 and same(calls[0], ((a,), {'k': k}))))
    if out[0] == 'ok':
        ctx.reach('result accepted')
        ctx.check('the result is given if it is good', And(BoolVal(out[1] is r), r.t > 3))
    else:
        ctx.reach('result refused')
        ctx.check('refused only if it is not', And(BoolVal(isinstance(out[1], PreconditionError)), Not(r.t > 3)))


@contract('replace_argument_if', ['replace_argument_if.outer.inner'], reach=['end', 'replaced', 'left', 'instance'])
def t_replace(ctx):
    a, b = ctx.int('a'), ctx.int('b')
    got = []

    def f(a, b=7):
        got.append((a, b))
        return b
    how = ctx.choose(3)
    args, kwargs = [((a, b), {}), ((a,), {'b': b}), ((), {'b': b, 'a': a})][how]
    kind = ctx.choose(3)
    new = [X + 1, 5, X][ctx.choose(3)]
    want = b if new is X else 5 if isinstance(new, int) else b + 1
    if kind == 0:
        dec = da.replace_argument_if('b', new, predicate=lambda v: v > 3)
    elif kind == 1:
        dec = da.replace_argument_if('b', new, int)
    else:
        dec = da.replace_argument_if('b', new, str)
    r = ok(ctx, ctx.catch(dec(f), *args, **kwargs))
    ctx.check('called once, and its result given', BoolVal(len(got) == 1 and got[0][1] is r and got[0][0] is a))
    if kind == 0:
        if ctx.fork(b.t > 3):
            ctx.reach('replaced')
            ctx.check('replaced', num_term(r) == num_term(want))
        else:
            ctx.reach('left')
            ctx.check('left alone', num_term(r) == b.t)
    else:
        ctx.reach('instance')
        ctx.check('replaced if it is an instance', num_term(r) == (num_term(want) if kind == 1 else b.t))


@contract('small decorators', ['execute_before', 'execute_before.outer', 'attach_arguments.outer.inner', 'copy_arguments.outer.inner', 'execute_if_attribute_none.outer.inner',
                               'execute_if_attribute_not_none.outer.inner', 'default_return.outer.inner', 'return_as_list.outer.inner', 'call_method_on_exception.outer.inner',
                               'chain_functions.outer.inner', 'short_none', 'short_none.inner', 'has_keys.inner', 'auto_adapt_to_methods', '_MethodDecoratorAdaptor.__call__',
                               '_MethodDecoratorAdaptor.__get__', 'chain_callables', '_takes_no_arguments'], reach=['end'] + ['case %d' % i for i in range(13)])
def t_small(ctx):
    x, y, r = ctx.int('x'), ctx.int('y'), ctx.int('r')
    log = []
    nothing = ctx.choose(2) == 1

    def f(*a, **k):
        log.append(('f', a, k))
        return None if nothing else r

    def calls(*want):
        ctx.check('the calls, in order', BoolVal(len(log) == len(want) and all(p[0] == q[0] and same(p[1:], q[1:]) for p, q in zip(log, want))))
    w = ctx.choose(13)
    ctx.reach('case %d' % w)
    res = None if nothing else r
    if w == 0:
        def g(*a, **k):
            log.append(('g', a, k))
        before = da.execute_before(g)
        how = ctx.choose(3)
        dec = before(f) if how == 0 else before(x)(f) if how == 1 else before(x, k=y)(f)
        out = ok(ctx, ctx.catch(dec, x, k=y))
        calls(('g', (x,) if how else (), {'k': y} if how == 2 else {}), ('f', (x,), {'k': y}))
        ctx.check('gives the result', BoolVal(out is res))
    elif w == 1:
        out = ok(ctx, ctx.catch(da.attach_arguments(y, k=x, j=y)(f), x, k=y, l=x))
        calls(('f', (x, y), {'k': x, 'j': y, 'l': x}))
        ctx.check('gives the result', BoolVal(out is res))
    elif w == 2:
        deep = ctx.choose(2) == 1
        made = []

        def cp(v, kind):
            c = ctx.obj('copy')
            made.append((v, c, kind))
            return c
        ctx.models[copy.copy] = lambda v: cp(v, 'copy')
        ctx.models[copy.deepcopy] = lambda v: cp(v, 'deepcopy')
        out = ok(ctx, ctx.catch(da.copy_arguments(deep)(f), x, k=y))
        ctx.check('copied as asked for', BoolVal(len(made) == 2 and made[0][0] is x and made[1][0] is y and all(m[2] == ('deepcopy' if deep else 'copy') for m in made)))
        calls(('f', (made[0][1],), {'k': made[1][1]}))
        ctx.check('gives the result', BoolVal(out is res))
    elif w in (3, 4):
        class O:
            pass
        o = O()
        o.attr = None if ctx.choose(2) else y
        out = ok(ctx, ctx.catch((da.execute_if_attribute_none if w == 3 else da.execute_if_attribute_not_none)('attr')(f), o, x, k=y))
        if (o.attr is None) == (w == 3):
            calls(('f', (o, x), {'k': y}))
            ctx.check('gives the result', BoolVal(out is res))
        else:
            calls()
            ctx.check('gives None', BoolVal(out is None))
    elif w == 5:
        out = ok(ctx, ctx.catch(dd.default_return(y)(f), x, k=y))
        calls(('f', (x,), {'k': y}))
        ctx.check('None is replaced, all else is not', BoolVal(out is (y if nothing else r)))
    elif w == 6:
        def gen(a, k):
            log.append(('f', (a,), {'k': k}))
            yield x
            yield None
            yield y
        out = ok(ctx, ctx.catch(dd.return_as_list(nothing)(gen), x, k=y))
        calls(('f', (x,), {'k': y}))
        want = (x, y) if nothing else (x, None, y)
        ctx.check('all the elements', BoolVal(type(out) is list and same(tuple(out), want)))
    elif w == 7:
        kind = ctx.choose(4)

        class E(Boom):
            pass

        class O:
            def do(self, *a, **k):
                log.append(('do', a, k))
                if kind:
                    raise (E, Boom, KeyError)[kind - 1]()
                return r

            def other(self, *a, **k):
                log.append(('other', (self is o,) + a, k))
                return y
        o = O()
        out = ctx.catch(dd.call_method_on_exception((Boom, ValueError), 'other', y, j=x)(O.do), o, x, k=y)
        if kind == 3:
            calls(('do', (x,), {'k': y}))
            ctx.check('other exceptions pass', BoolVal(out[0] == 'exc' and type(out[1]) is KeyError))
        elif kind:
            calls(('do', (x,), {'k': y}), ('other', (True, y), {'j': x}))
            ctx.check('gives what the method gives', BoolVal(out[0] == 'ok' and out[1] is y))
        else:
            calls(('do', (x,), {'k': y}))
            ctx.check('gives the result', BoolVal(out[0] == 'ok' and out[1] is r))
    elif w == 8:
        ret, want = [(({'k': y}), ((), {'k': y})), (((x, y), {'k': x}), ((x, y), {'k': x})), ((x, y), ((x, y), {})), ((x,), ((x,), {})), ((x, y, r), ((x, y, r), {})),
                     (x, ((x,), {})), (((x,), y), (((x,), y), {})), ((), ((), {}))][ctx.choose(8)]

        def first(*a, **k):
            log.append(('g', a, k))
            return ret
        out = ok(ctx, ctx.catch(dd.chain_functions(first)(f), y, j=x))
        calls(('g', (y,), {'j': x}), ('f',) + want)
        ctx.check('gives the result', BoolVal(out is res))
    elif w == 9:
        n = ctx.int('n')
        s = dd.short_none('x + 1') if nothing else dd.short_none(lambda v: v + 1)
        ctx.check('None stays None', BoolVal(ok(ctx, ctx.catch(s, None)) is None))
        ctx.check('else the callable is called', num_term(ok(ctx, ctx.catch(s, n))) == n.t + 1)
    elif w == 10:
        ctx.models[warnings.warn] = lambda *a, **k: None
        have = {'a': x, 'b': y} if nothing else {'a': x}
        out = ctx.catch(dd.has_keys(['a', 'b']), have)
        ctx.check('all the keys, or refused', BoolVal(out == ('ok', True) if nothing else out[0] == 'exc' and isinstance(out[1], PreconditionError)))
    elif w == 11:
        def twice(fun):
            def inner(a):
                log.append(('dec', (a,), {}))
                return fun(a)
            return inner

        class O:
            @da.auto_adapt_to_methods(twice)
            def m(self, a):
                log.append(('m', (self is o, a), {}))
                return r
        o = O()
        ctx.check('result of the method', BoolVal(ok(ctx, ctx.catch(lambda: o.m(x))) is r))
        calls(('dec', (x,), {}), ('m', (True, x), {}))
        log.clear()
        ctx.check('result of the function', BoolVal(ok(ctx, ctx.catch(da.auto_adapt_to_methods(twice)(f), x)) is res))
        calls(('dec', (x,), {}), ('f', (x,), {}))
    else:
        kind = ctx.choose(6)

        def none():
            log.append(('second', (), {}))
            return y

        def one(v):
            log.append(('second', (v,), {}))
            return y

        def opt(v=None):
            return one(v)

        def fails(v):
            one(v)
            raise TypeError('g() takes 0 positional arguments but 1 was given')

        def fails0():
            none()
            raise TypeError()

        def any_(*a):
            return one(*a)
        second = (none, one, opt, fails, fails0, any_)[kind]
        out = ctx.catch(misc.chain_callables(f, second), x, k=y)
        calls(('f', (x,), {'k': y}), ('second', () if kind in (0, 4) else (res,), {}))
        ctx.check('result or exception of the second', BoolVal(out[0] == 'exc' and isinstance(out[1], TypeError) if kind in (3, 4) else out[0] == 'ok' and out[1] is y))


@contract('cached_property', ['cached_property.outer.inner'], reach=['end', 'computed', 'cached'])
def t_cached(ctx):
    v, u = ctx.obj('value'), ctx.obj('unloaded')
    cur_ = ctx.obj('current')
    calls = []

    class O:
        @property
        @da.cached_property('_a', u)
        def a(self):
            calls.append(self)
            return v
    o = O()
    o._a = cur_
    out = ctx.catch(lambda: o.a)
    r = ok(ctx, out)
    if calls:
        ctx.reach('computed')
        ctx.check('only if not loaded', cur_.t == u.t)
        ctx.check('stored and given', BoolVal(len(calls) == 1 and r is v and o._a is v))
    else:
        ctx.reach('cached')
        ctx.check('only if loaded', Not(cur_.t == u.t))
        ctx.check('given as it is', BoolVal(r is cur_ and o._a is cur_))


# ------------------------------------------------------------------------------------------------------- memoizers
@contract('memoize / cache_memoize: what is served', ['memoize.inner', 'cache_memoize.outer', 'cache_memoize.outer.inner'],
          reach=['end', 'served', 'computed', 'expired', 'failed'])
def t_memo(ctx):
    now = [ctx.real('now')]
    dur = ctx.real('duration')
    ctx.assume(dur.t >= 0)
    timed = ctx.choose(2) == 1
    made, failed = [], []
    a1, a2 = ctx.int('a1'), ctx.int('a2')
    k1, k2 = ctx.int('k1'), ctx.int('k2')
    fails = ctx.choose(2) == 1
    kw = timed and ctx.choose(2) == 1
    CALL = ctx.choose(3)

    def f(*args, **kwargs):
        ctx.check('the monitor is not held during the call', BoolVal(not locked[0]))
        if fails and len(made) == 1 and not failed:
            failed.append(1)
            raise Boom()
        r = ctx.obj('r%d' % len(made))
        made.append((args, kwargs, r))
        return r
    locked = [0]

    class Lock:
        def acquire(self):
            locked[0] += 1

        def release(self):
            locked[0] -= 1

        def __enter__(self):
            locked[0] += 1

        def __exit__(self, *e):
            locked[0] -= 1
    class MD(dict):
        def __init__(self):
            super().__init__()
            self._monitor_lock = Lock()
    ctx.models[monitor.MonitorDict] = lambda: SymMemo()

    class SymMemo:
        """a dict of symbolic keys: an association list"""
        def __init__(self):
            self.items = []
            self._monitor_lock = Lock()

        def find(self, key):
            for i, (k, v) in enumerate(self.items):
                if eq_key(ctx, k, key):
                    return i
            return None

        def __contains__(self, key):
            ctx.check('under the lock', BoolVal(locked[0] == 1))
            return self.find(key) is not None

        def __getitem__(self, key):
            return self.items[self.find(key)][1]

        def __setitem__(self, key, v):
            ctx.check('under the lock', BoolVal(locked[0] == 1))
            i = self.find(key)
            if i is not None:
                self.items[i] = (key, v)
            else:
                self.items.append((key, v))
    if timed:
        ctx.env.lits = {('dict', 'cache_memoize.<locals>.outer'): SymMemo, ('dict', 'cache_memoize.outer'): SymMemo, 'dict': SymMemo}
        g = dd.cache_memoize(dur, lambda: now[0])(f)
    else:
        g = dd.memoize(f)
    first = ok(ctx, ctx.catch(g, a1, **({'k': k1} if kw else {})))
    ctx.check('computed at first', BoolVal(len(made) == 1 and first is made[0][2]))
    t1 = now[0]
    now[0] = ctx.real('later')
    ctx.assume(now[0].t >= t1.t)
    out = ctx.catch(g, a2, **({'k': k2} if kw else {}))
    ctx.check('the lock is released', BoolVal(locked[0] == 0))
    eq = And(a1.t == a2.t, k1.t == k2.t) if kw else a1.t == a2.t
    fresh = now[0].t - t1.t <= dur.t if timed else BoolVal(True)
    if out[0] == 'exc':
        ctx.reach('failed')
        ctx.check('fails only if the function does', And(BoolVal(fails), Not(And(eq, fresh))))
        t2, now[0] = now[0], ctx.real('still later')
        ctx.assume(now[0].t >= t2.t)
        out = ctx.catch(g, a2, **({'k': k2} if kw else {}))
        ctx.check('a failure is not memoized, nor a value made valid by it', BoolVal(len(made) == 2 and ok(ctx, out) is made[1][2] and locked[0] == 0))
        return
    if len(made) == 1:
        ctx.reach('served')
        ctx.check('served only to the same arguments, not too old', And(eq, fresh))
        ctx.check('the same value', BoolVal(out[1] is first))
    else:
        ctx.reach('computed')
        ctx.check('computed only if it must be', Not(And(eq, fresh)))
        if timed and ctx.fork(eq):
            ctx.reach('expired')
        ctx.check('of these arguments', BoolVal(made[1][0][0] is a2 and out[1] is made[1][2] and (not kw or made[1][1]['k'] is k2)))


def eq_key(ctx, a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(eq_key(ctx, p, q) for p, q in zip(a, b))
    if isinstance(a, tuple) or isinstance(b, tuple):
        return False
    return bool(a == b)
