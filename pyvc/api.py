from .core import *
from .containers import *
from .ghost import *
from . import core
import z3

REG = {}


class Contract:
    def __init__(self, prop, name, fn, functions, must_reach, invs, timeout, unroll, max_paths):
        self.__dict__.update(locals())
        del self.__dict__['self']


def contract(name, functions=(), reach=('end',), invs=(), timeout=10000, unroll=None, max_paths=4000):
    """declare the contract of one function of the code under verification"""

    def deco(fn):
        prop = fn.__module__.split('.')[-1]
        REG.setdefault(prop, []).append(
            Contract(prop, name, fn, list(functions), reach, list(invs), timeout, unroll, max_paths))
        return fn

    return deco


def run_contract(c, second=False):
    e = core.Engine(c.name, c.fn, c.functions, c.timeout, c.max_paths, c.unroll, c.must_reach, c.invs, second)
    e.run()
    if e.status() in ('failed', 'unknown') and (e.undecided or e.status() == 'unknown'):
        # a clause or an obligation was given up for lack of time: once more with four times the budget
        e2 = core.Engine(c.name, c.fn, c.functions, c.timeout * 4, c.max_paths, c.unroll, c.must_reach, c.invs, second)
        e2.run()
        e2.solver_time += e.solver_time
        return e2
    return e


def forall(codec, f, name='q', pat=None):
    x = z3.Const('%s!%s' % (name, codec.name), codec.sort)
    if pat is not None:
        return z3.ForAll([x], f(x), patterns=[pat(x)])
    return z3.ForAll([x], f(x))


def forall2(c1, c2, f):
    x = z3.Const('qa!%s' % c1.name, c1.sort)
    y = z3.Const('qb!%s' % c2.name, c2.sort)
    return z3.ForAll([x, y], f(x, y))


def raised(ctx, out, *classes):
    return out[0] == 'exc' and isinstance(out[1], classes)
And, Or, Not, Implies, If, Select, BoolVal, IntVal = z3.And, z3.Or, z3.Not, z3.Implies, z3.If, z3.Select, z3.BoolVal, z3.IntVal


def each_local(name, f, n=20):
    """a candidate invariant about each of the local variables of the function that has the loop, whatever they are called"""
    def at(k):
        def g(L):
            co = L.cut.frame.f_code
            names = co.co_varnames + co.co_cellvars + co.co_freevars
            return f(L, L.loc[names[k]]) if k < len(names) and names[k] in L.loc else None
        return g
    return [('%s #%d' % (name, k), at(k)) for k in range(n)]


def conforms(obj, *attrs, also=('_monitor_lock',)):
    """the representation the contract talks about must be the one the code has; otherwise the contract does not apply
    to this tree (a renamed or added private attribute is not a violation)"""
    from .runtime import _attrs
    have = set(_attrs(obj))
    miss = [a for a in attrs if a not in have]
    extra = have - set(attrs) - set(also) - {'__dict__', '__weakref__', '__orig_class__'}
    if miss or extra:
        raise Unsupported('representation of %s differs: missing %s, additional %s' % (
            type(obj).__name__, miss, sorted(extra)))
    return obj
