"""Small functions with known verdicts, taken through the same instrumentation as the code of /repo."""
from pyvc.api import *
from pyvc import instrument, runtime

SRC = '''
import heapq
def clamp(x, lo, hi):
    if x < lo:
        return lo
    if x > hi:
        return hi
    return x
def clamp_bad(x, lo, hi):
    if x < lo:
        return lo
    if x > hi:
        return lo
    return x
def fill(s, n):
    for i in range(n):
        s.add(i)
def fill_bad(s, n):
    for i in range(n):
        if i != 7:
            s.add(i)
def total(n):
    k = 0
    while k < n:
        k += 1
    return k
def find(lst, x):
    for i, y in enumerate(lst):
        if y == x:
            return i
    return -1
def find_bad(lst, x):
    for i, y in enumerate(lst):
        if y == x:
            return i + 1
    return -1
def swallow(f):
    try:
        return f()
    except ValueError:
        return None
    finally:
        pass
def weird(x):
    return __import__('struct').pack('>i', x)
'''
ns = {}
runtime.inject(ns)
exec(compile(instrument.transform_source(SRC, 'canary', 'canary'), 'canary', 'exec'), ns)


def clamp_spec(f):
    def h(ctx):
        x, lo, hi = ctx.int('x'), ctx.int('lo'), ctx.int('hi')
        ctx.assume(lo <= hi)
        r = f(x, lo, hi)
        ctx.check('in range', And(num_term(r) >= lo.t, num_term(r) <= hi.t))
        ctx.check('identity inside', Implies(And(x.t >= lo.t, x.t <= hi.t), num_term(r) == x.t))
        ctx.check('upper', Implies(x.t > hi.t, num_term(r) == hi.t))
    return h


contract('proved:clamp')(clamp_spec(ns['clamp']))
contract('failed:clamp_bad')(clamp_spec(ns['clamp_bad']))


def fill_spec(f):
    def h(ctx):
        s, n = SSet('s', IntC), ctx.int('n')
        ctx.roots['s'] = s
        pre = s.snap()
        f(s, n)
        ctx.check('filled', forall(IntC, lambda x: s.has(x) == Or(Select(pre['pres'], x), And(0 <= x, x < n.t))))
    return h


INV = [('prefix', lambda L: forall(IntC, lambda x: cur().roots['s'].has(x) == Or(
    Select(L.pre('s')['pres'], x), And(0 <= x, x < L.i))))]
contract('proved:fill', invs=INV)(fill_spec(ns['fill']))
contract('failed:fill_bad', invs=INV)(fill_spec(ns['fill_bad']))


@contract('vacuous:inconsistent precondition')
def h_vac(ctx):
    x = ctx.int('x')
    ctx.assume(x > 0)
    ctx.assume(x < 0)
    ctx.check('anything', BoolVal(False))


@contract('vacuous:no obligations')
def h_none(ctx):
    ns['clamp'](ctx.int('x'), 0, 1)


@contract('proved:while with inferred invariant', invs=[('k<=n', lambda L: Or(num_term(L.loc['k']) <= num_term(L.loc['n']),
                                                                          num_term(L.loc['k']) == 0))])
def h_while(ctx):
    ctx.env.cut_while = True
    n = ctx.int('n')
    r = ns['total'](n)
    ctx.check('result', num_term(r) == If(n.t > 0, n.t, IntVal(0)))


def find_spec(f):
    def h(ctx):
        l, x = SList('l', ValC), ctx.obj('x')
        r = num_term(f(l, x))
        j = z3.Int('jj')
        ctx.check('found at', Implies(r >= 0, And(r < l.n, l.el(r) == x.t)))
        ctx.check('not found', Implies(r < 0, z3.ForAll([j], Implies(And(0 <= j, j < l.n), l.el(j) != x.t))))
    return h


FI = [('none before', lambda L: z3.ForAll([z3.Int('jf')], Implies(And(0 <= z3.Int('jf'), z3.Int('jf') < L.i),
                                                                  L.loc['lst'].el(z3.Int('jf')) != L.loc['x'].t)))]
contract('proved:find', invs=FI)(find_spec(ns['find']))
contract('failed:find_bad', invs=FI)(find_spec(ns['find_bad']))
contract('failed:find without invariant')(find_spec(ns['find']))


@contract('unsupported:outside reach is reported')
def h_weird(ctx):
    r = ns['weird'](ctx.int('x'))
    ctx.check('x', BoolVal(True))
