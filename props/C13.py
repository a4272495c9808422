"""C13: a proxy acts as the object it wraps, whatever that object does."""
import math
import operator
from pyvc.api import *
from satella.coding.optionals import Optional, extract_optional
from satella.coding.structures.proxy import Proxy
from satella.coding.structures.hashable_objects import HashableWrapper
from satella.coding.structures.push_iterable import PushIterable

P_GET = Proxy._get_object


def ok(ctx, out):
    ctx.check('does not fail', BoolVal(out[0] == 'ok'))
    return out[1]


class Boom(Exception):
    pass


BIN = ['add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow', 'lshift', 'rshift', 'and', 'or', 'xor', 'matmul']
UN = ['neg', 'pos', 'invert', 'abs']
CMP = ['eq', 'ne', 'lt', 'le', 'gt', 'ge']


def ghost(ctx, script, drop=()):
    """an object with every special method; each call is logged and does what the script says"""
    log = []

    def method(nm):
        def f(self, *a, **kw):
            log.append((nm, a, kw))
            if script['raises']:
                raise script['exc']
            return script['result']
        return f
    ns = {'__%s%s__' % (p, n): method('__%s%s__' % (p, n)) for n in BIN for p in ('', 'r', 'i')}
    ns.update({'__%s__' % n: method('__%s__' % n) for n in UN + CMP + ['divmod', 'rdivmod', 'getitem', 'setitem', 'delitem', 'call', 'iter', 'next',
                                                                    'contains', 'enter', 'exit', 'reversed', 'round', 'trunc', 'floor', 'ceil',
                                                                    'aenter', 'aexit', 'aiter', 'await', 'len', 'hash', 'bool', 'int', 'float',
                                                                    'complex', 'index', 'str', 'repr', 'format', 'length_hint']})
    ns['some_method'] = method('some_method')
    for n in drop:
        del ns[n]
    return type('Wrapped', (), ns)(), log


def rows():
    o = operator
    for n in BIN:
        f = getattr(o, n if n not in ('and', 'or') else n + '_')
        yield n, lambda p, x, f=f: f(p, x), ['__%s__' % n], 1, True, None
        yield 'r' + n, lambda p, x, f=f: f(x, p), ['__r%s__' % n], 1, True, None
        yield 'i' + n, lambda p, x, f=getattr(o, 'i' + n): f(p, x), ['__i%s__' % n], 1, 'inplace', None
    for n in UN:
        yield n, lambda p, x, f=getattr(o, n): f(p), ['__%s__' % n], 0, True, None
    for n in CMP:
        yield n, lambda p, x, f=getattr(o, n): f(p, x), ['__%s__' % n], 1, False, None
    yield 'pow mod', lambda p, x: pow(p, x, 7), ['__pow__'], 2, True, None
    yield 'divmod', lambda p, x: divmod(p, x), ['__divmod__'], 1, False, None
    yield 'rdivmod', lambda p, x: divmod(x, p), ['__rdivmod__'], 1, False, None
    yield 'getitem', lambda p, x: p[x], ['__getitem__'], 1, False, None
    yield 'call', lambda p, x: p(x, k=x), ['__call__'], 1, False, None
    yield 'next', lambda p, x: next(p), ['__next__'], 0, False, None
    yield 'enter', lambda p, x: p.__enter__(), ['__enter__'], 0, False, None
    yield 'exit', lambda p, x: p.__exit__(None, None, None), ['__exit__'], 3, False, None
    yield 'aenter', lambda p, x: p.__aenter__(), ['__aenter__'], 0, False, None
    yield 'aexit', lambda p, x: p.__aexit__(None, None, None), ['__aexit__'], 3, False, None
    yield 'aiter', lambda p, x: p.__aiter__(), ['__aiter__'], 0, False, None
    yield 'await', lambda p, x: p.__await__(), ['__await__'], 0, False, None
    yield 'reversed', lambda p, x: reversed(p), ['__reversed__'], 0, False, None
    yield 'round', lambda p, x: round(p), ['__round__'], 0, True, None
    yield 'round to', lambda p, x: round(p, 2), ['__round__'], 1, True, None
    yield 'trunc', lambda p, x: math.trunc(p), ['__trunc__'], 0, True, None
    yield 'floor', lambda p, x: math.floor(p), ['__floor__'], 0, True, None
    yield 'ceil', lambda p, x: math.ceil(p), ['__ceil__'], 0, True, None
    yield 'method', lambda p, x: p.some_method(x), ['some_method'], 1, False, None
    for n, f, v in (('len', len, 3), ('hash', hash, 77), ('bool', bool, False), ('bool ', bool, True), ('int', int, 4), ('float', float, 2.5),
                    ('complex', complex, 1j), ('index', operator.index, 9), ('str', str, 'text'), ('repr', repr, 'rep'),
                    ('format', lambda p: format(p, 'spec'), 'fmt'), ('contains', lambda p: 5 in p, True), ('contains ', lambda p: 5 in p, False)):
        yield n, lambda p, x, f=f: f(p), ['__%s__' % n.strip()], 1 if n.strip() in ('format', 'contains') else 0, 'native', v
    yield 'iter', lambda p, x: iter(p), ['__iter__'], 0, 'native', iter(())
    yield 'setitem', lambda p, x: operator.setitem(p, x, 4), ['__setitem__'], 2, 'none', None
    yield 'delitem', lambda p, x: operator.delitem(p, x), ['__delitem__'], 1, 'none', None


ROWS = list(rows())


@contract('Proxy operations', ['Proxy.__%s%s__' % (p, n) for n in BIN for p in ('', 'r', 'i')] + ['Proxy.__%s__' % n for n in UN + CMP + [
    'divmod', 'rdivmod', 'getitem', 'setitem', 'delitem', 'call', 'iter', 'next', 'contains', 'enter', 'exit', 'reversed', 'round', 'trunc',
    'floor', 'ceil', 'aenter', 'aexit', 'aiter', 'await', 'len', 'hash', 'bool', 'int', 'float', 'complex', 'index', 'str', 'repr', 'format']] +
    ['wrap_operation', 'Proxy.__getattr__'], reach=['end', 'raises', 'returns', 'wrapped'], max_paths=3000)
def ops(ctx):
    n, f, nm, argc, kind, native = ROWS[ctx.choose(len(ROWS))]
    x, r = ctx.obj('operand'), ctx.obj('result')
    script = {'raises': bool(ctx.choose(2)), 'exc': Boom(), 'result': native if kind == 'native' else r}
    g, log = ghost(ctx, script, ('__hash__', '__eq__') if n == 'call' else ())
    wrap = bool(ctx.choose(2))
    p = Proxy(g, wrap)
    # operators of opaque operands decline, so that the reflected operator of the proxy is used
    arg = x
    if n.startswith('r') and n[1:] in BIN + ['divmod']:
        class Operand:
            pass
        arg = Operand()
    elif kind in (True, 'inplace', False) or kind == 'none':
        arg = type('Arg', (), {})()
    out = ctx.catch(f, p, arg)
    what = '%s: ' % n.strip()
    ctx.check(what + 'one call of the wrapped object', BoolVal(len(log) == 1 and log[0][0] == nm[0]))
    a = log[0][1] if log else ()
    if argc == 1 and n in ('round to', 'format', 'contains', 'contains '):
        ctx.check(what + 'argument', BoolVal(len(a) == 1 and a[0] == {'round to': 2, 'format': 'spec'}.get(n, 5)))
    elif argc >= 1 and n not in ('exit', 'aexit'):
        ctx.check(what + 'the argument is passed on', BoolVal(len(a) == argc and a[0] is arg and (n != 'pow mod' or a[1] == 7)))
    elif n in ('exit', 'aexit'):
        ctx.check(what + 'the arguments are passed on', BoolVal(a == (None, None, None)))
    else:
        ctx.check(what + 'no arguments', BoolVal(len(a) == 0))
    if script['raises']:
        ctx.reach('raises')
        ctx.check(what + 'its exception passes', BoolVal(out[0] == 'exc' and out[1] is script['exc']))
        ctx.check(what + 'the wrapped object stays', BoolVal(P_GET(p) is g))
        return
    ctx.reach('returns')
    ctx.check(what + 'succeeds', BoolVal(out[0] == 'ok'))
    v = out[1]
    if kind == 'inplace':
        ctx.check(what + 'the proxy itself, now of the result', BoolVal(v is p and P_GET(p) is r))
        return
    ctx.check(what + 'the wrapped object stays', BoolVal(P_GET(p) is g))
    if kind == 'none':
        return
    if kind == 'native':
        ctx.check(what + 'its result', BoolVal(type(v) is type(native) and (v is native or v == native)))
    elif kind is True and wrap:
        ctx.reach('wrapped')
        ctx.check(what + 'the result is wrapped if so asked', BoolVal(type(v) is Proxy and P_GET(v) is r))
    else:
        ctx.check(what + 'its result', BoolVal(v is r))


@contract('Proxy attributes', ['Proxy.__setattr__', 'Proxy.__getattr__', 'Proxy.__delattr__', 'Proxy.__dir__'])
def attrs(ctx):
    class O:
        pass
    g = O()
    g.a = ctx.obj('a')
    p = Proxy(g)
    ctx.check('read', BoolVal(p.a is g.a))
    v = ctx.obj('v')
    p.a = v
    p.b = v
    ctx.check('written to the wrapped object', BoolVal(g.a is v and g.b is v and p.b is v))
    del p.a
    ctx.check('deleted from the wrapped object', BoolVal(not hasattr(g, 'a') and not hasattr(p, 'a') and dir(p) == dir(g)))
    out = ctx.catch(lambda: p.zz)
    ctx.check('missing ones are missing', BoolVal(out[0] == 'exc' and isinstance(out[1], AttributeError)))
    ctx.check('the wrapped object stays', BoolVal(P_GET(p) is g))


OPT = {'contains': lambda o, x: x in o, 'eq': lambda o, x: o == x, 'lt': lambda o, x: o < x, 'le': lambda o, x: o <= x, 'gt': lambda o, x: o > x,
       'ge': lambda o, x: o >= x, 'bool': lambda o, x: bool(o), 'call': lambda o, x: o(x, k=x), 'getitem': lambda o, x: o[x], 'getattr': lambda o, x: o.some_method(x),
       'setitem': lambda o, x: operator.setitem(o, x, 4), 'delitem': lambda o, x: operator.delitem(o, x), 'len': lambda o, x: len(o)}
NATIVE = {'contains': True, 'bool': False, 'len': 3}


@contract('Optional', ['Optional.__%s__' % n for n in OPT] + ['Optional.__init__', 'extract_optional'], reach=['end', 'nothing', 'raises', 'returns'])
def optional(ctx):
    x, r = ctx.obj('operand'), ctx.obj('result')
    n = list(OPT)[ctx.choose(len(OPT))]
    arg = type('Arg', (), {})()
    what = '%s: ' % n
    if ctx.choose(2):
        ctx.reach('nothing')
        o = Optional(None)
        out = ctx.catch(OPT[n], o, arg)
        if n in ('call', 'getitem', 'getattr'):
            v = ok(ctx, out)
            ctx.check(what + 'an empty optional', BoolVal(type(v) is Optional and extract_optional(v) is None))
        elif n in ('setitem', 'delitem'):
            ok(ctx, out)
        elif n == 'len':
            ctx.check('empty', BoolVal(ok(ctx, out) == 0))
        else:
            ctx.check(what + 'false', BoolVal(ok(ctx, out) is False))
        ctx.check(what + 'still nothing', BoolVal(extract_optional(o) is None))
        return
    res = NATIVE.get(n, r)
    script = {'raises': bool(ctx.choose(2)), 'exc': Boom(), 'result': res}
    g, log = ghost(ctx, script, ('__hash__', '__eq__') if n == 'call' else ())
    o = Optional(g)
    out = ctx.catch(OPT[n], o, arg)
    nm = '__%s__' % n if n != 'getattr' else 'some_method'
    ctx.check(what + 'one call of the object', BoolVal(len(log) == 1 and log[0][0] == nm))
    a = log[0][1] if log else ()
    ctx.check(what + 'with the argument', BoolVal(len(a) == {'bool': 0, 'len': 0, 'setitem': 2}.get(n, 1) and (not a or a[0] is arg)))
    if script['raises']:
        ctx.reach('raises')
        ctx.check(what + 'its exception passes', BoolVal(out[0] == 'exc' and out[1] is script['exc']))
    else:
        ctx.reach('returns')
        v = ok(ctx, out)
        ctx.check(what + 'its result', BoolVal(v is res or n in ('setitem', 'delitem') or n in NATIVE and v == res))
    ctx.check(what + 'the wrapped object stays', BoolVal(extract_optional(o) is g and extract_optional(g) is g))


@contract('HashableWrapper', ['HashableWrapper.__eq__', 'HashableWrapper.__ne__', 'HashableWrapper.__hash__'], reach=['end', 'same', 'other'])
def hw(ctx):
    x, y = {1: 2}, {1: 2}
    other = bool(ctx.choose(2))
    ctx.reach('other' if other else 'same')
    a, b = HashableWrapper(x), HashableWrapper(y if other else x)
    for p, q in ((a, b), (a, y if other else x)):
        ctx.check('equal exactly if of the same object', BoolVal((p == q) is (not other)))
        ctx.check('unequal otherwise', BoolVal((p != q) is other))
    if not other:
        ctx.check('equal wrappers have equal hashes', BoolVal(hash(a) == hash(b)))
    t = (1, 2)
    ctx.check('hashable objects keep their hash', BoolVal(hash(HashableWrapper(t)) == hash(t)))


@contract('PushIterable', ['PushIterable.pop', 'PushIterable.push', 'PushIterable.push_left', 'PushIterable.__next__'],
          reach=['end', 'pushed', 'source'])
def push(ctx):
    src = [ctx.obj('s0'), ctx.obj('s1')]
    o = PushIterable(src)
    conforms(o, 'iterable', 'collection')
    c = SDeque('pushed', ValC)
    o.collection = c
    a, n = c.s['arr'], c.n
    which = ctx.choose(3)
    x = ctx.obj('item')
    if which == 0:
        ok(ctx, ctx.catch(o.push, x))
        v = ok(ctx, ctx.catch(o.pop))
        ctx.check('a pushed item comes next', ValC.unwrap(v) == x.t)
        j = z3.Int('j!p')
        ctx.check('and the rest as before', And(c.n == n, z3.ForAll([j], Implies(And(0 <= j, j < n), c.el(j) == Select(a, j)))))
    elif which == 1:
        ok(ctx, ctx.catch(o.push_left, x))
        j = z3.Int('j!p')
        ctx.check('comes last of those pushed', And(c.n == n + 1, c.el(IntVal(0)) == x.t,
                                                    z3.ForAll([j], Implies(And(0 <= j, j < n), c.el(j + 1) == Select(a, j)))))
    else:
        v = ok(ctx, ctx.catch(o.__next__ if ctx.choose(2) else o.pop))
        if ctx.entails(n == 0):
            ctx.reach('source')
            ctx.check('then the source', BoolVal(v is src[0]))
            v = ok(ctx, ctx.catch(o.pop))
            ctx.check('in order', BoolVal(v is src[1]))
            out = ctx.catch(o.pop)
            ctx.check('and the end', BoolVal(out[0] == 'exc' and isinstance(out[1], StopIteration)))
        else:
            ctx.reach('pushed')
            j = z3.Int('j!p')
            ctx.check('the last pushed first', And(n > 0, ValC.unwrap(v) == Select(a, n - 1), c.n == n - 1,
                                                   z3.ForAll([j], Implies(And(0 <= j, j < n - 1), c.el(j) == Select(a, j)))))
