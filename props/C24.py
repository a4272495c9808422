"""C24: a predicate computes what its expression says of the value in place of x; structures are rebuilt exactly."""
import operator
from pyvc.api import *
from pyvc.runtime import SIter
import satella.coding.predicates as P
from satella.coding.predicates import PredicateClass, build_structure, x as X
from satella.coding.structures.hashable_objects import HashableWrapper

N = num_term
BIN = ['add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow', 'lshift', 'rshift', 'and', 'or', 'xor', 'matmul']
CMP = ['eq', 'ne', 'lt', 'le', 'gt', 'ge']


def ok(ctx, out):
    ctx.check('does not fail', BoolVal(out[0] == 'ok'))
    return out[1]


class Boom(Exception):
    pass


def ghost(script, log, also=()):
    """an object with every special method; each call is logged and does what the script says"""
    def method(nm):
        def f(self, *a, **kw):
            log.append((nm, self, a, kw))
            if script['raises']:
                raise script['exc']
            return script.get(nm, script['result'])
        return f
    ns = {'__%s%s__' % (p, n): method(n) for n in BIN for p in ('', 'r')}
    for n in BIN:
        ns['__r%s__' % n] = method('r' + n)
    ns.update({'__%s__' % n: method(n) for n in CMP + ['neg', 'abs', 'invert', 'len', 'str', 'int', 'float', 'bool', 'getitem', 'call', 'contains']})
    ns['some'] = property(lambda self: method('some')(self))
    ns['method'] = method('method')
    ns['__hash__'] = object.__hash__
    return type('Ghost', (), ns)()


class Plain:
    """an operand without operators of its own"""


def rows():
    """name, the expression on x, the expression on the value (None: the same), does it take an operand"""
    o = operator
    for n in BIN:
        f = getattr(o, n if n not in ('and', 'or') else n + '_')
        yield n, lambda p, a, f=f: f(p, a), None, True
        yield 'r' + n, lambda p, a, f=f: f(a, p), None, 'plain'
        yield 'explicit r' + n, lambda p, a, n=n: getattr(p, '__r%s__' % n)(a), lambda g, a, f=f: f(a, g), True
    for n in CMP:
        f = getattr(o, n)
        yield n, lambda p, a, f=f: f(p, a), None, True
        yield 'reflected ' + n, lambda p, a, f=f: f(a, p), None, 'plain'
    for n in ('neg', 'invert', 'abs'):
        yield n, lambda p, a, f=getattr(o, n): f(p), None, False
    yield 'getitem', lambda p, a: p[a], None, True
    yield 'attribute', lambda p, a: p.some, None, False
    yield 'method call', lambda p, a: p.method(), None, False
    yield 'length', lambda p, a: p.length(), lambda g, a: len(g), False
    yield 'len', lambda p, a: p.len(), lambda g, a: len(g), False
    yield 'str', lambda p, a: p.str(), lambda g, a: str(g), False
    yield 'int', lambda p, a: p.int(), lambda g, a: int(g), False
    yield 'float', lambda p, a: p.float(), lambda g, a: float(g), False
    yield 'false', lambda p, a: p.false(), lambda g, a: not g, False
    yield 'inside', lambda p, a: p.inside(a), lambda g, a: a in g, True
    yield 'type', lambda p, a: p.type(), lambda g, a: type(g), False
    yield 'identity', lambda p, a: p.identity(), lambda g, a: g, False
    yield 'instanceof', lambda p, a: p.instanceof(Plain), lambda g, a: isinstance(g, Plain), False
    yield 'is_instance', lambda p, a: p.is_instance(int, object), lambda g, a: True, False
    yield 'not is_instance', lambda p, a: p.is_instance(int, Plain), lambda g, a: False, False


ROWS = list(rows())
NATIVE = {'len': 3, 'str': 'text', 'int': 4, 'float': 2.5, 'bool': True, 'contains': True}


@contract('operators of predicates', ['make_operation_two_args.operation', 'make_operation_two_args.operation.op', 'make_operation_single_arg.operation_v',
                                      'PredicateClass.__init__', 'PredicateClass.__call__', 'PredicateClass.type', 'PredicateClass.identity',
                                      'PredicateClass.is_instance', '_invert'], reach=['end', 'raises', 'gives', 'predicate', 'value'], max_paths=2000)
def t_ops(ctx):
    n, f, h, takes = ROWS[ctx.choose(len(ROWS))]
    script = dict(NATIVE, raises=bool(ctx.choose(2)), exc=Boom(), result=ctx.obj('result'))
    if n == 'false' and ctx.choose(2):
        script['bool'] = False
    log = []
    g, a, v = ghost(script, log), Plain(), ctx.obj('value')
    seen = []

    def F(y):
        seen.append(('self', y))
        return g

    def G(y):
        seen.append(('operand', y))
        return a
    p = PredicateClass(F)
    q = None
    if takes is True and ctx.choose(2):
        ctx.reach('predicate')
        q = PredicateClass(G)
    else:
        ctx.reach('value')
    # what the expression does with the value itself
    want = ctx.catch(h or f, g, a)
    wlog, log[:] = list(log), []
    r = ctx.catch(f, p, a if q is None else q)
    what = n + ': '
    ctx.check(what + 'gives a predicate', BoolVal(r[0] == 'ok' and type(r[1]) is PredicateClass and r[1] is not p))
    ctx.check(what + 'nothing happens before it is called', BoolVal(not log and not seen))
    if r[0] != 'ok':
        return
    got = ctx.catch(r[1], v)
    ctx.check(what + 'the operands are computed once, of the value', BoolVal(
        sorted(s for s, y in seen) == ['operand', 'self'][q is None:] and all(y is v for s, y in seen)))
    ctx.check(what + 'does exactly what the expression does', BoolVal(
        len(log) == len(wlog) and all(k[0] == w[0] and k[1] is w[1] and len(k[2]) == len(w[2]) and all(i is j for i, j in zip(k[2], w[2]))
                                      for k, w in zip(log, wlog))))
    ctx.reach('raises' if want[0] == 'exc' else 'gives')
    ctx.check(what + 'same outcome', BoolVal(got[0] == want[0] and (got[1] is want[1] if want[0] == 'ok' and not isinstance(want[1], (str, float)) else
                                                                    got[1] == want[1] if want[0] == 'ok' else type(got[1]) is type(want[1]))))
    ctx.check(what + 'the predicate it was made of stays', BoolVal(p.operation is F))


@contract('~ of truth values', ['_invert'])
def t_not(ctx):
    b = bool(ctx.choose(2))
    p = ~PredicateClass(lambda y: b)
    ctx.check('negated', BoolVal(ctx.catch(p, ctx.obj('v')) == ('ok', not b)))


def none_before(L):
    xs, pred = cur().env.xs, cur().env.pred
    j = z3.Int('j!n')
    return z3.ForAll([j], Implies(And(0 <= j, j < L.i), Not(pred(xs.el(j)))), patterns=[xs.el(j)])


@contract('has', ['PredicateClass.has'], reach=['end', 'one', 'none'], invs=[('none before', none_before)])
def t_has(ctx):
    xs = ctx.env.xs = SList('xs', ValC)
    pred = ctx.env.pred = z3.Function('pred', ValC.sort, z3.BoolSort())
    v = ctx.obj('value')
    got = []

    def F(y):
        got.append(y)
        return xs
    r = ok(ctx, ctx.catch(PredicateClass(F).has(PredicateClass(lambda e: SBool(pred(ValC.unwrap(e))))), v))
    ctx.check('of the value', BoolVal(len(got) == 1 and got[0] is v and type(r) is bool))
    j = z3.Int('j!e')
    ctx.reach('one' if r else 'none')
    some = z3.Exists([j], And(0 <= j, j < xs.n, pred(xs.el(j))))
    ctx.check('true exactly if the predicate holds for an element', some if r else Not(some))


def keys_so_far(L):
    d, ks = cur().env.d, cur().env.ks
    j = z3.Int('j!k')
    return z3.ForAll([j], Implies(And(0 <= j, j < L.i), d.has(ks.el(j))), patterns=[ks.el(j)])


@contract('has_keys', ['_has_keys'], reach=['end', 'all', 'missing'], invs=[('all before', keys_so_far)])
def t_keys(ctx):
    if not hasattr(P, '_has_keys'):
        raise Unsupported('_has_keys is gone')
    d = ctx.env.d = SDict('d', ValC, ValC)
    ks = ctx.env.ks = SList('ks', ValC)
    r = ok(ctx, ctx.catch(P._has_keys, d, ks))
    j = z3.Int('j!e')
    ctx.reach('all' if r else 'missing')
    every = z3.ForAll([j], Implies(And(0 <= j, j < ks.n), d.has(ks.el(j))))
    ctx.check('true exactly if every key is there', every if r else Not(every))
    ctx.check('a truth value', BoolVal(type(r) is bool))


@contract('has_keys / one_of', ['PredicateClass.has_keys', 'PredicateClass.one_of', '_has_keys', '_one_of'], reach=['end', 'keys', 'values'])
def t_some(ctx):
    d = SDict('d', ValC, ValC)
    vs = [ctx.val(ctx.fresh('k', ValC.sort)) for _ in range(ctx.choose(4))]
    v = ctx.obj('value')
    if ctx.choose(2):
        ctx.reach('keys')
        r = ok(ctx, ctx.catch(PredicateClass(lambda y: d).has_keys(*vs), v))
        ctx.check('true exactly if every key is there', bool_term(r) == And(BoolVal(True), *[d.has(k.t) for k in vs]))
    else:
        ctx.reach('values')
        e = ctx.val(ctx.fresh('e', ValC.sort))
        r = ok(ctx, ctx.catch(PredicateClass(lambda y: e).one_of(*vs), v))
        ctx.check('true exactly if it is one of the values', bool_term(r) == Or(BoolVal(False), *[e.t == k.t for k in vs]))


class Pair(list):
    pass


@contract('build_structure', ['build_structure'], reach=['end', 'mapping', 'sequence', 'predicate', 'text', 'other', 'wrapper'], max_paths=3000)
def t_build(ctx):
    """one level; the elements by the contract of build_structure itself"""
    arg, calls = ctx.obj('argument'), []

    def rec(struct, argument, final_operator=None, nested_call=False):
        calls.append(struct)
        ctx.check('elements are built of the same argument', BoolVal(argument is arg and nested_call is True))
        if isinstance(struct, PredicateClass):
            return struct(argument)
        return struct.built
    ctx.models[build_structure] = rec

    class Elem:
        def __init__(self):
            self.built = Plain()

        def __hash__(self):
            return id(self)

    def elem():
        """(an element, what is made of it)"""
        if ctx.choose(2):
            e = Elem()
            return e, e.built
        r = Plain()
        return PredicateClass(lambda y: (ctx.check('predicates are called with the argument', BoolVal(y is arg)), r)[1]), r
    kind = ctx.choose(7)
    if kind == 0:
        ctx.reach('mapping')
        es = [(elem(), elem()) for _ in range(ctx.choose(3))]
        s = {k[0]: v[0] for k, v in es}
        r = ok(ctx, ctx.catch(build_structure, s, arg, None, True))
        ctx.check('a mapping of the same keys and values, built', BoolVal(
            type(r) is dict and r is not s and len(r) == len(es) and all(k[1] in r and r[k[1]] is v[1] for k, v in es)
            and list(r) == [k[1] for k, v in es]))
    elif kind == 1:
        ctx.reach('sequence')
        t = [list, tuple, Pair][ctx.choose(3)]
        es = [elem() for _ in range(ctx.choose(4))]
        s = t(e[0] for e in es)
        r = ok(ctx, ctx.catch(build_structure, s, arg, None, True))
        ctx.check('a sequence of the same type, of the elements built, in order', BoolVal(
            type(r) is t and len(r) == len(es) and all(y is e[1] for y, e in zip(r, es))))
        ctx.check('the structure stays', BoolVal(len(s) == len(es) and all(y is e[0] for y, e in zip(s, es))))
    elif kind == 2:
        ctx.reach('predicate')
        e = Plain()
        r = ok(ctx, ctx.catch(build_structure, PredicateClass(lambda y: e if y is arg else None), arg, None, True))
        ctx.check('the value of the predicate', BoolVal(r is e))
    elif kind == 3:
        ctx.reach('text')
        r = ok(ctx, ctx.catch(build_structure, 'text', arg, None, True))
        ctx.check('text stays as it is', BoolVal(r == 'text'))
    elif kind == 4:
        ctx.reach('other')
        e = Plain()
        r = ok(ctx, ctx.catch(build_structure, e, arg, None, True))
        ctx.check('anything else stays as it is', BoolVal(r is e))
    elif kind == 5:
        ctx.reach('wrapper')
        e = Elem()
        r = ok(ctx, ctx.catch(build_structure, HashableWrapper(e), arg, None, True))
        ctx.check('what is wrapped is built', BoolVal(r is e.built))
    else:
        e, fin, ops = Elem(), Plain(), []

        def final(y):
            ops.append(y)
            return fin
        r = ok(ctx, ctx.catch(build_structure, e, arg, final))
        ctx.check('the final operator is called once, with the whole', BoolVal(r is fin and len(ops) == 1 and ops[0] is e.built))
        r = ok(ctx, ctx.catch(build_structure, e, arg))
        ctx.check('no operator needs to be given', BoolVal(r is e.built))
