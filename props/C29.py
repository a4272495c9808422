"""C29: layers of context, named queues, wrapping and documenting classes, typed tuples and random helpers."""
import queue
from pyvc.api import *
from satella import random as RN
from satella.coding import environment as EN, metaclasses as MC, fun_static as SV
from satella.coding.concurrent import locked_structure as LS
from satella.coding.structures import queues as QU, typednamedtuple as TN_
from satella.coding.structures.mixins import strings as ST
import sys
TN = sys.modules['satella.coding.structures.typednamedtuple']


class Boom(Exception):
    pass


def ok(ctx, out):
    ctx.check('does not fail', BoolVal(out[0] == 'ok'))
    return out[1]


def same(a, b):
    return bool_term(a == b)


# ---- contexts -------------------------------------------------------------------------------------------------------
@contract('Context', ['Context.__init__', 'Context.__enter__', 'Context.__exit__', 'Context.get', 'Context.__getattr__', 'Context.__setattr__', 'Context.__delattr__', 'Context.does_exist',
                      'Context.push_up'], reach=['end', 'entered', 'left', 'deleted', 'pushed'])
def t_context(ctx):
    """up to three layers (after another was entered and left, or not), each with an arbitrary value of its own, none, or a deletion"""
    class Local:
        pass
    EN.local = Local()
    if ctx.choose(2):
        cm = EN.Context(v=Boom())
        ok(ctx, ctx.catch(cm.__enter__))
        ok(ctx, ctx.catch(cm.__exit__, None, None, None))
    base = ok(ctx, ctx.catch(EN.Context.get))
    ctx.check('a new context has no variables', BoolVal(ctx.catch(base.does_exist, 'v') == ('ok', False)))
    depth = ctx.choose(4)
    layers, ctxs = [{}], [(base, None)]

    def lookup(upto):
        for l in reversed(layers[:upto]):
            if 'v' in l:
                return l['v']
        return None

    def agree(what):
        ctx.check(what + ': the innermost layer is the context', BoolVal(ctx.catch(EN.Context.get) == ('ok', ctxs[-1][0])))
        for i, (c, _) in enumerate(ctxs):
            want = lookup(i + 1)
            out = ctx.catch(getattr, c, 'v')
            ctx.check(what + ': existence', BoolVal(ctx.catch(c.does_exist, 'v') == ('ok', want is not None)))
            ctx.check(what + ': the value', BoolVal(out[1] is want if want is not None else isinstance(out[1], AttributeError)))
    for i in range(depth):
        kind = ctx.choose(4)
        v = Boom(i)
        cm = EN.Context(v=v) if kind == 3 else EN.Context()
        c = ok(ctx, ctx.catch(cm.__enter__))
        ctxs.append((c, cm))
        layers.append({'v': v} if kind == 3 else {})
        if kind == 1:
            c.v = v
            layers[-1]['v'] = v
        elif kind == 2:
            del c.v
            layers[-1]['v'] = None
            ctx.reach('deleted')
        ctx.reach('entered')
        agree('entered')
    if depth and ctx.choose(2):
        w = Boom('w')
        ok(ctx, ctx.catch(ctxs[-1][0].push_up, 'v', w))
        layers[-2]['v'] = w
        ctx.reach('pushed')
        agree('pushed up')
    while len(ctxs) > 1:
        c, cm = ctxs.pop()
        layers.pop()
        out = ctx.catch(cm.__exit__, None, None, None)
        ctx.check('exceptions pass', BoolVal(out[0] == 'ok' and not out[1]))
        ctx.reach('left')
        agree('left')


# ---- queues by name -------------------------------------------------------------------------------------------------
asked = []


class Q:
    """queue.Queue by its contract: first in, first out, Empty when there is nothing"""

    def __init__(self):
        self.items = []

    def put(self, x):
        self.items.append(x)

    def get(self, block=True, timeout=None):
        asked.append((bool(block), timeout))
        if not self.items:
            raise queue.Empty()
        return self.items.pop(0)

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        return not self.items

    def qsize(self):
        return len(self.items)


@contract('Subqueue', ['Subqueue.__init__', 'Subqueue.assert_queue', 'Subqueue.put', 'Subqueue.get', 'Subqueue.qsize', 'Subqueue.get_any'], reach=['end', 'put', 'got', 'any', 'empty'])
def t_subqueue(ctx):
    """up to three messages for two names, then taken out in any way"""
    ctx.models[queue.Queue] = Q
    q = QU.Subqueue()
    model = {'x': [], 'y': []}
    for i in range(ctx.choose(4)):
        n = 'xy'[ctx.choose(2)]
        v = ctx.obj('m%d' % i)
        ok(ctx, ctx.catch(q.put, n, v))
        model[n].append(v)
        ctx.reach('put')
    for i in range(2):
        if ctx.choose(2):
            n = 'xy'[ctx.choose(2)]
            how = [(False, None), (True, 5), (True, None)][ctx.choose(3)]
            asked.clear()
            out = ctx.catch(q.get, n) if how == (True, None) else ctx.catch(q.get, n, *how)
            ctx.check('waits as asked, that long', BoolVal(asked == [how]))
            if model[n]:
                ctx.reach('got')
                ctx.check('the oldest of that name', same(ok(ctx, out), model[n].pop(0)))
            else:
                ctx.reach('empty')
                ctx.check('nothing of that name', BoolVal(isinstance(out[1], queue.Empty)))
        else:
            out = ctx.catch(q.get_any)
            if out[0] == 'exc':
                ctx.reach('empty')
                ctx.check('nothing at all', BoolVal(isinstance(out[1], queue.Empty) and not any(model.values())))
            else:
                ctx.reach('any')
                n, v = out[1]
                ctx.check('the oldest of the name given', same(v, model[n].pop(0)) if model[n] else BoolVal(False))
        out = ctx.catch(q.qsize)
        ctx.check('as many as are left', BoolVal(out == ('ok', len(model['x']) + len(model['y']))))


@contract('LockedStructure', ['LockedStructure.__init__', 'LockedStructure.__enter__', 'LockedStructure.__exit__', 'LockedStructure.__setattr__'], reach=['end', 'raised', 'left'])
def t_locked(ctx):
    log = []

    class Lock:
        def acquire(self, *a):
            log.append('acquire')
            return True

        def release(self):
            log.append('release')
    class D(dict):
        pass
    inner = D()
    s = LS.LockedStructure(inner, Lock())
    fails = Boom() if ctx.choose(2) else None
    v = ctx.obj('v')

    def body():
        with s as x:
            ctx.check('it is itself what is entered, locked', BoolVal(x is s and log == ['acquire']))
            s['k'] = v
            s.attr = v
            if fails:
                raise fails
    out = ctx.catch(body)
    ctx.check('released once', BoolVal(log == ['acquire', 'release']))
    ctx.check('what is set is set inside', And(same(inner['k'], v), same(inner.__dict__.get('attr', 5), v)))
    ctx.reach('raised' if fails else 'left')
    ctx.check('exceptions pass', BoolVal(out == ('exc', fails) if fails else out[0] == 'ok'))


# ---- metaclasses ----------------------------------------------------------------------------------------------------
def function(doc, result=None):
    def f(self, *a):
        return result
    f.__doc__ = doc
    return f


@contract('documentation', ['CopyDocsFrom', 'CopyDocsFrom.inner', 'DocsFromParent', '_extract_bases'], reach=['end', 'copied', 'own', 'none'])
def t_docs(ctx):
    """two methods and the class, each documented or not, at the source and here; the source the parent or the grandparent"""
    src = [[None, 'sf'], [None, 'sg'], [None, 'sc']]
    own = [[None, 'f'], [None, 'g'], [None, 'c']]
    src, own = [x[ctx.choose(2)] for x in src], [x[ctx.choose(2)] for x in own]
    Source = type('Source', (), {'f': function(src[0]), 'g': function(src[1]), '__doc__': src[2]})
    body = {'f': function(own[0]), 'g': function(own[1])}
    if own[2]:
        body['__doc__'] = own[2]
    if ctx.choose(2):
        Base = type('Base', (Source,), {'__doc__': None}) if ctx.choose(2) else Source
        C = ok(ctx, ctx.catch(MC.DocsFromParent, 'C', (Base,), body))
        ctx.check('its bases', BoolVal(C.__bases__ == (Base,)))
    else:
        C = ok(ctx, ctx.catch(MC.CopyDocsFrom(Source), 'C', (), body))
    for n, s, o in zip(('f', 'g', '__doc__'), src, own):
        got = C.__doc__ if n == '__doc__' else getattr(C, n).__doc__
        ctx.reach('own' if o else 'copied' if s else 'none')
        ctx.check('documentation: its own, else that of the source', BoolVal(got == (o or s)))


@contract('wrap_with', ['wrap_with', 'wrap_with.WrapAllMethodsWithMetaclass', 'dont_wrap', 'wrap_property', 'wrap_property.inner'], reach=['end', 'wrapped', 'kept'])
def t_wrap(ctx):
    a, b = ctx.obj('a'), ctx.obj('b')
    f, g = function(None, a), property(lambda self: b)
    if ctx.choose(2):
        MC.dont_wrap(f)
        kept = True
    else:
        kept = False
    pick_f, pick_g = bool(ctx.choose(2)), bool(ctx.choose(2))
    asked = []

    def select(flag):
        def s(x):
            asked.append(x)
            return flag
        return s
    w = MC.wrap_with(lambda fun: lambda self: ('w', fun(self)), MC.wrap_property(lambda get: lambda self: ('p', get(self))), select(pick_f), select(pick_g))
    C = ok(ctx, ctx.catch(w, 'C', (), {'f': f, 'g': g, 'n': 5}))
    c = C()
    r, p = c.f(), c.g
    on = pick_f and not kept
    ctx.reach('wrapped' if on else 'kept')
    ctx.check('callables are wrapped exactly if selected', same(r[1], a) if on and type(r) is tuple and r[0] == 'w' else And(BoolVal(not on), same(r, a)))
    ctx.check('properties are wrapped exactly if selected', same(p[1], b) if pick_g and type(p) is tuple and p[0] == 'p' else And(BoolVal(not pick_g), same(p, b)))
    ctx.check('other members are not touched', BoolVal(C.n == 5 and all(callable(x) or isinstance(x, property) for x in asked)))


# ---- typed tuples, random helpers -----------------------------------------------------------------------------------
@contract('typednamedtuple', ['typednamedtuple', 'typednamedtuple.Wrapper.__new__', '_adjust'], reach=['end', 'converted', 'kept', 'refused'])
def t_typed(ctx):
    """up to three fields, of arbitrary values that are or are not of the type asked for, given by position or by name"""
    n = ctx.choose(4)
    calls, vals, types, want = [], [], [], []

    class A:
        def __new__(cls, x=None):
            calls.append(x)
            o = object.__new__(cls)
            return o
    for i in range(n):
        kind = ctx.choose(3)
        if kind == 0:
            v = object.__new__(A)
            types.append(A)
            want.append(v)
        elif kind == 1:
            v = Boom(i)
            types.append(A)
            want.append(None)
        else:
            v = Boom(i)
            types.append([None, 'self'][ctx.choose(2)])
            want.append(v)
        vals.append(v)
    names = ['f%d' % i for i in range(n)]
    cls = ok(ctx, ctx.catch(TN.typednamedtuple, 'Cls', *zip(names, types)))
    p = ctx.choose(n + 1)
    args, kw = vals[:p], dict(zip(names[p:], vals[p:]))
    wrong = ctx.choose(4)
    if wrong == 1:
        args, kw = vals + [5], {}
    elif wrong == 2:
        kw['zzz'] = 1
    elif wrong == 3:
        if not n:
            return
        if kw:
            kw.pop(names[-1])
        else:
            args = args[:-1]
    out = ctx.catch(lambda: cls(*args, **kw))
    if wrong:
        ctx.reach('refused')
        ctx.check('refused', BoolVal(isinstance(out[1], TypeError)))
        return
    r = ok(ctx, out)
    ctx.check('an instance of it', BoolVal(isinstance(r, cls) and isinstance(r, tuple) and len(r) == n))
    done = iter(calls)
    for i in range(n):
        if want[i] is None:
            ctx.reach('converted')
            ctx.check('converted, by its type', BoolVal(type(r[i]) is A and next(done) is vals[i]))
        else:
            ctx.reach('kept')
            ctx.check('taken as it is', BoolVal(r[i] is want[i]))
        ctx.check('by name as by position', BoolVal(getattr(r, names[i]) is r[i]))
    ctx.check('nothing else is converted', BoolVal(next(done, None) is None))


@contract('shuffle_together', ['shuffle_together'], reach=['end', 'shuffled', 'none'])
def t_shuffle(ctx):
    """up to two sequences of three elements, under every permutation"""
    k = ctx.choose(3)
    perm = [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)][ctx.choose(6)]

    def shuffle(x):
        x[:] = [x[i] for i in perm]
    RN.random = type('random', (), {'shuffle': staticmethod(shuffle)})      # stands for the module
    seqs = [[ctx.obj('s%d%d' % (j, i)) for i in range(3)] for j in range(k)]
    given = [list(s) for s in seqs]
    got = ok(ctx, ctx.catch(RN.shuffle_together, *seqs))
    ctx.reach('shuffled' if k else 'none')
    ctx.check('as many', BoolVal(len(got) == k and all(len(g) == 3 for g in got) and all(x is y for s, g in zip(seqs, given) for x, y in zip(s, g))))
    ctx.check('all by the same permutation', And(*[same(got[j][i], seqs[j][perm[i]]) for j in range(k) for i in range(3)]) if k else BoolVal(True))


@contract('random_word', ['random_word'], reach=['end'])
def t_word(ctx):
    n = ctx.choose(4)
    picked, seen = [], []
    pool = [1, 2]

    def choice(x):
        ctx.check('of what is given', BoolVal(x is pool))
        picked.append(ctx.obj('p%d' % len(picked)))
        return picked[-1]
    RN.random = type('random', (), {'choice': staticmethod(choice)})
    res = ctx.obj('res')

    def join(x):
        seen.append(list(x))
        return res
    out = ok(ctx, ctx.catch(RN.random_word, n, pool, join))
    ctx.check('joined once, of that many', And(BoolVal(len(seen) == 1 and len(seen[0]) == n == len(picked)), same(out, res), *[same(a, b) for a, b in zip(seen[0], picked)]) if len(seen) == 1 else BoolVal(False))


@contract('mix-ins', ['StrEqHashableMixin.__eq__', 'StrEqHashableMixin.__hash__', 'ReprableMixin.__repr__', 'static_var', 'static_var.decorate'], reach=['end'])
def t_mixins(ctx):
    a, b = ['x', 'y'][ctx.choose(2)], ['x', 'y'][ctx.choose(2)]

    class S(ST.StrEqHashableMixin):
        def __init__(self, v):
            self.v = v

        def __str__(self):
            return self.v
    eq = ok(ctx, ctx.catch(lambda: S(a) == S(b)))
    ctx.check('equal exactly if they print the same', BoolVal(eq is (a == b)))
    ctx.check('equal ones hash the same', BoolVal(a != b or hash(S(a)) == hash(S(b))))
    n, full = ctx.choose(3), bool(ctx.choose(2))

    class R(ST.ReprableMixin):
        _REPR_FIELDS = ('p', 'q')[:n]
        _REPR_FULL_CLASSNAME = full
        p, q = 5, 'z'
    name = '%s.%s' % (R.__module__, R.__qualname__) if full else 'R'
    ctx.check('every field, in order', BoolVal(ok(ctx, ctx.catch(lambda: repr(R()))) == name + '(' + ', '.join(['5', "'z'"][:n]) + ')'))
    v = ctx.obj('v')
    f = function('d')
    g = SV.static_var('counter', v)(f)
    ctx.check('the same function, with the value', And(BoolVal(g is f), same(g.counter, v)))
