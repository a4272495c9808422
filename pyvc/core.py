"""
pyvc core: path-wise generation of verification conditions.

A *harness* is a Python function ``h(ctx)`` that sets up a symbolic pre-state (an arbitrary state satisfying the
contract's precondition / class invariant), calls the real function, and states the postcondition with
``ctx.check``.  The engine enumerates all feasible paths (by deterministic re-execution) and sends every obligation to
the solver.  Loops over symbolic data are cut at their head: the invariant is the largest inductive subset
(Houdini) of the candidate clauses given by the contract and of generic templates.
"""
import contextlib
import fractions
import math
import os
import sys
import time as _time

import z3

CTX = None


class Control(BaseException):
    """engine control flow; once raised, the path is dead: finally blocks and __exit__ methods that run while it
    unwinds neither fork nor emit obligations"""

    def __init__(self, *a):
        super().__init__(*a)
        if CTX is not None:
            CTX.dead = True


class PathEnd(Control):
    """this path is finished (infeasible, or ended at a loop cut)"""


class Unsupported(Control):
    """the construct lies outside what the verifier can express"""


class BoundHit(Control):
    """a loop without contract was unrolled more often than the bound allows"""


class Restart(Control):
    pass


Val = z3.DeclareSort('Val')
RANK = z3.Function('rank', Val, z3.RealSort())
TRUTHY = z3.Function('truthy', Val, z3.BoolSort())


def cur():
    if CTX is None:
        raise RuntimeError('symbolic value used outside of a verification context')
    return CTX


# --------------------------------------------------------------------------------------------------- values
class Sym:
    __slots__ = ('t', '__weakref__')
    pytype = object

    def __init__(self, t):
        self.t = t

    def __getattr__(self, item):
        if item.startswith('__') and item.endswith('__'):
            raise AttributeError(item)
        raise Unsupported('attribute %s of a symbolic %s' % (item, type(self).__name__))

    def __str__(self):
        return '<sym>'

    __repr__ = __str__

    def __format__(self, spec):
        return '<sym>'

    def __hash__(self):
        raise Unsupported('hash of a symbolic value')

    def __int__(self):
        raise Unsupported('native int() of a symbolic value')

    __index__ = __float__ = __len__ = __int__

    def __iter__(self):
        raise Unsupported('iteration over a symbolic scalar')

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def is_sym(x):
    return isinstance(x, Sym)


def num_term(x):
    """z3 arithmetic term of a Python number / symbolic number, or None"""
    if isinstance(x, SNum):
        return x.t
    if isinstance(x, SBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(int(x))
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x):
            return None
        f = fractions.Fraction(x)
        return z3.RealVal(str(f))
    if isinstance(x, fractions.Fraction):
        return z3.RealVal(str(x))
    return None


def unify(a, b):
    if a.sort() == b.sort():
        return a, b
    if a.sort() == z3.IntSort():
        a = z3.ToReal(a)
    if b.sort() == z3.IntSort():
        b = z3.ToReal(b)
    return a, b


def mk_num(t):
    return SNum(z3.simplify(t))


def mk_bool(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


def _arith(op, swap=False):
    def f(self, other):
        o = num_term(other)
        if o is None:
            if isinstance(other, float) and math.isinf(other) and op in ('add', 'sub'):
                s = 1
                if op == 'sub' and not swap:
                    s = -1
                return s * other
            if op == 'mul' and type(other) is list and len(other) == 1 and self.t.sort() == z3.IntSort():
                # [x] * n
                from .containers import SList
                ec = OptC(ValC) if other[0] is None else infer_codec(other[0])
                if ec is not None:
                    r = SList(cur().fresh_name('rep'), ec, empty=True)
                    r.s['arr'] = z3.K(z3.IntSort(), ec.unwrap(other[0]))
                    r.s['n'] = z3.If(self.t > 0, self.t, z3.IntVal(0))
                    return r
            return NotImplemented
        a, b = unify(self.t, o)
        if swap:
            a, b = b, a
        if op == 'add':
            return mk_num(a + b)
        if op == 'sub':
            return mk_num(a - b)
        if op == 'mul':
            return mk_num(a * b)
        if op == 'truediv':
            if cur().fork(b == 0):
                raise ZeroDivisionError('division by zero')
            if a.sort() == z3.IntSort():
                a, b = z3.ToReal(a), z3.ToReal(b)
            return mk_num(a / b)
        if op in ('floordiv', 'mod'):
            if cur().fork(b == 0):
                raise ZeroDivisionError('division by zero')
            if a.sort() == z3.IntSort():
                # z3 div: remainder in [0,|b|).  Python: floor.
                q = z3.If(b > 0, a / b, (-a) / (-b))
            else:
                q = z3.ToReal(z3.ToInt(a / b))
            if op == 'floordiv':
                return mk_num(q)
            return mk_num(a - q * b)
        raise Unsupported(op)

    return f


def _cmp(op):
    def f(self, other):
        if isinstance(other, float) and math.isinf(other):
            neg = other < 0
            return {'lt': not neg, 'le': not neg, 'gt': neg, 'ge': neg, 'eq': False, 'ne': True}[op]
        o = num_term(other)
        if o is None:
            if op == 'eq':
                if isinstance(other, SVal):
                    return mk_bool(cur().const(self) == other.t)
                return NotImplemented
            if op == 'ne':
                if isinstance(other, SVal):
                    return mk_bool(cur().const(self) != other.t)
                return NotImplemented
            return NotImplemented
        a, b = unify(self.t, o)
        r = {'lt': lambda: a < b, 'le': lambda: a <= b, 'gt': lambda: a > b, 'ge': lambda: a >= b,
             'eq': lambda: a == b, 'ne': lambda: a != b}[op]()
        return mk_bool(r)

    return f


def _uf(name, a, b, mod=None):
    """an operation that is only known to be a function of its operands"""
    x, y = num_term(a), num_term(b)
    if x is None or y is None or mod is not None:
        raise Unsupported(name)
    if name != 'pow' and not (x.sort() == y.sort() == z3.IntSort()):
        raise TypeError('unsupported operand type(s) for a bit operation')
    f = z3.Function('%s_%s_%s' % (name, x.sort(), y.sort()), x.sort(), y.sort(), x.sort())
    return mk_num(f(x, y))


def _shift(name, a, b):
    if IntC.ok(a) and IntC.ok(b) and cur().fork(num_term(b) < 0):
        raise ValueError('negative shift count')
    return _uf(name, a, b)


class SNum(Sym):
    __slots__ = ()

    @property
    def pytype(self):
        return int if self.t.sort() == z3.IntSort() else float

    def __bool__(self):
        return cur().fork(self.t != 0)

    __add__ = _arith('add')
    __radd__ = _arith('add', True)
    __sub__ = _arith('sub')
    __rsub__ = _arith('sub', True)
    __mul__ = _arith('mul')
    __rmul__ = _arith('mul', True)
    __truediv__ = _arith('truediv')
    __rtruediv__ = _arith('truediv', True)
    __floordiv__ = _arith('floordiv')
    __rfloordiv__ = _arith('floordiv', True)
    __mod__ = _arith('mod')
    __rmod__ = _arith('mod', True)
    __lt__ = _cmp('lt')
    __le__ = _cmp('le')
    __gt__ = _cmp('gt')
    __ge__ = _cmp('ge')
    __eq__ = _cmp('eq')
    __ne__ = _cmp('ne')
    __hash__ = Sym.__hash__

    def __neg__(self):
        return mk_num(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return mk_num(z3.If(self.t >= 0, self.t, -self.t))

    def __pow__(self, other, mod=None):
        if mod is None and isinstance(other, int) and 0 <= other <= 6:
            r = 1
            for _ in range(other):
                r = self * r
            return r
        return _uf('pow', self, other, mod)

    def __rpow__(self, other, mod=None):
        return _uf('pow', other, self, mod)

    def _bit(self, *a):
        raise Unsupported('bit operation on a symbolic integer')

    __and__, __or__, __xor__ = [lambda s, o, n=n: _uf(n, s, o) for n in ('band', 'bor', 'bxor')]
    __rand__, __ror__, __rxor__ = [lambda s, o, n=n: _uf(n, o, s) for n in ('band', 'bor', 'bxor')]

    def __lshift__(self, o):
        return _shift('shl', self, o)

    def __rlshift__(self, o):
        return _shift('shl', o, self)

    def __rshift__(self, o):
        return _shift('shr', self, o)

    def __rrshift__(self, o):
        return _shift('shr', o, self)

    __divmod__ = __rdivmod__ = __round__ = _bit

    def __invert__(self):
        if self.t.sort() != z3.IntSort():
            raise TypeError('bad operand type for unary ~')
        return mk_num(-self.t - 1)

    def __index__(self):
        v = cur().concrete(self.t)
        if v is None or self.t.sort() != z3.IntSort():
            raise Unsupported('symbolic integer used where CPython needs a concrete one')
        return v

    def __int__(self):
        return self.__index__()

    def __float__(self):
        raise Unsupported('native float() of a symbolic value')

    def __trunc__(self):
        raise Unsupported('trunc')


class SBool(Sym):
    __slots__ = ()
    pytype = bool

    def __bool__(self):
        return cur().fork(self.t)

    def __eq__(self, other):
        if isinstance(other, SBool):
            return mk_bool(self.t == other.t)
        if isinstance(other, bool):
            return mk_bool(self.t == other)
        if isinstance(other, (int, float, SNum)):
            return SNum(num_term(self)) == other
        return NotImplemented

    def __ne__(self, other):
        r = self.__eq__(other)
        if r is NotImplemented:
            return r
        return mk_bool(z3.Not(r.t)) if isinstance(r, SBool) else not r

    __hash__ = Sym.__hash__

    def __and__(self, o):
        return mk_bool(z3.And(self.t, bool_term(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mk_bool(z3.Or(self.t, bool_term(o)))

    __ror__ = __or__

    def __invert__(self):
        raise Unsupported('~bool')

    def _n(self):
        return SNum(num_term(self))

    def __add__(self, o):
        return self._n() + o

    def __radd__(self, o):
        return o + self._n()

    def __sub__(self, o):
        return self._n() - o

    def __rsub__(self, o):
        return o - self._n()

    def __mul__(self, o):
        return self._n() * o

    __rmul__ = __mul__

    def __lt__(self, o):
        return self._n() < o

    def __le__(self, o):
        return self._n() <= o

    def __gt__(self, o):
        return self._n() > o

    def __ge__(self, o):
        return self._n() >= o


def bool_term(x):
    if isinstance(x, SBool):
        return x.t
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if z3.is_expr(x):
        return x
    if isinstance(x, SNum):
        return x.t != 0
    raise Unsupported('not a boolean: %r' % (type(x),))


class SVal(Sym):
    """An opaque object.  Equality is equality of the denoted object; the order (if the code asks for one) is an
    arbitrary total preorder ``rank``.  Never None."""
    __slots__ = ('cls', 'meths')
    pytype = object

    def __init__(self, t, cls=object):
        super().__init__(t)
        self.cls = cls

    def _o(self, other):
        if other is None:
            return None
        return cur().const(other)

    def __eq__(self, other):
        if other is self:
            return True
        o = self._o(other)
        if o is None:
            return False
        return mk_bool(self.t == o)

    def __ne__(self, other):
        if other is self:
            return False
        o = self._o(other)
        if o is None:
            return True
        return mk_bool(self.t != o)

    __hash__ = Sym.__hash__

    def __bool__(self):
        return cur().fork(TRUTHY(self.t))

    def __lt__(self, other):
        return mk_bool(RANK(self.t) < RANK(self._o(other)))

    def __le__(self, other):
        return mk_bool(RANK(self.t) <= RANK(self._o(other)))

    def __gt__(self, other):
        return mk_bool(RANK(self.t) > RANK(self._o(other)))

    def __ge__(self, other):
        return mk_bool(RANK(self.t) >= RANK(self._o(other)))

    def _no(self, *a, **k):
        raise Unsupported('operation on an opaque value')

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __call__ = __getitem__ = __setitem__ = \
        __enter__ = __exit__ = __contains__ = __delitem__ = _no


class Poison:
    """value of a local that may be unbound at a loop cut"""

    def _no(self, *a, **k):
        raise Unsupported('use of a local that may be unbound at a loop cut')

    __bool__ = __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __add__ = __radd__ = __sub__ = __iter__ = \
        __len__ = __call__ = __getitem__ = __hash__ = __contains__ = _no

    def __getattr__(self, item):
        raise Unsupported('use of a local that may be unbound at a loop cut')


POISON = Poison()


# --------------------------------------------------------------------------------------------------- codecs
class Codec:
    """bijection between Python values and terms of one sort"""


class _IntC(Codec):
    name = 'int'

    @property
    def sort(self):
        return z3.IntSort()

    def wrap(self, t):
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        return SNum(t)

    def unwrap(self, v):
        t = num_term(v)
        if t is None or t.sort() != z3.IntSort():
            raise Unsupported('expected an int, got %r' % (type(v),))
        return t

    def ok(self, v):
        t = num_term(v)
        return t is not None and t.sort() == z3.IntSort()


class _RealC(Codec):
    name = 'real'

    @property
    def sort(self):
        return z3.RealSort()

    def wrap(self, t):
        return SNum(t)

    def unwrap(self, v):
        t = num_term(v)
        if t is None:
            raise Unsupported('expected a number, got %r' % (type(v),))
        return z3.ToReal(t) if t.sort() == z3.IntSort() else t

    def ok(self, v):
        return num_term(v) is not None


class _BoolC(Codec):
    name = 'bool'

    @property
    def sort(self):
        return z3.BoolSort()

    def wrap(self, t):
        return mk_bool(t)

    def unwrap(self, v):
        return bool_term(v)

    def ok(self, v):
        return isinstance(v, (bool, SBool))


class _ValC(Codec):
    name = 'val'

    @property
    def sort(self):
        return Val

    def wrap(self, t):
        return cur().val(t)

    def unwrap(self, v):
        return cur().const(v)

    def ok(self, v):
        return isinstance(v, SVal)


IntC, RealC, BoolC, ValC = _IntC(), _RealC(), _BoolC(), _ValC()
_TUPLES = {}


class TupleC(Codec):
    def __new__(cls, *parts):
        key = tuple(id(p) for p in parts)
        if key in _TUPLES:
            return _TUPLES[key]
        self = object.__new__(cls)
        self.parts = parts
        nm = 'Tup' + '_'.join(p.name for p in parts)
        self.name = nm
        dt = z3.Datatype(nm)
        dt.declare('mk' + nm, *[('%s_%d' % (nm, i), p.sort) for i, p in enumerate(parts)])
        self._sort = dt.create()
        _TUPLES[key] = self
        return self

    @property
    def sort(self):
        return self._sort

    def get(self, t, i):
        return self._sort.accessor(0, i)(t)

    def mk(self, *terms):
        return self._sort.constructor(0)(*terms)

    def wrap(self, t):
        return tuple(p.wrap(z3.simplify(self.get(t, i))) for i, p in enumerate(self.parts))

    def unwrap(self, v):
        if not isinstance(v, tuple) or len(v) != len(self.parts):
            raise Unsupported('expected a %d-tuple' % len(self.parts))
        return self.mk(*[p.unwrap(x) for p, x in zip(self.parts, v)])

    def ok(self, v):
        return isinstance(v, tuple) and len(v) == len(self.parts) and all(p.ok(x) for p, x in zip(self.parts, v))


class OptC(Codec):
    """None or a value of the inner codec; reading forks"""

    def __new__(cls, inner):
        key = ('opt', id(inner))
        if key in _TUPLES:
            return _TUPLES[key]
        self = object.__new__(cls)
        self.inner = inner
        nm = 'Opt' + inner.name
        self.name = nm
        dt = z3.Datatype(nm)
        dt.declare('none' + nm)
        dt.declare('some' + nm, ('the' + nm, inner.sort))
        self._sort = dt.create()
        _TUPLES[key] = self
        return self

    @property
    def sort(self):
        return self._sort

    def is_none(self, t):
        return self._sort.recognizer(0)(t)

    def the(self, t):
        return self._sort.accessor(1, 0)(t)

    def none(self):
        return self._sort.constructor(0)()

    def some(self, t):
        return self._sort.constructor(1)(t)

    def wrap(self, t):
        if cur().fork(self.is_none(t)):
            return None
        return self.inner.wrap(z3.simplify(self.the(t)))

    def unwrap(self, v):
        if v is None:
            return self.none()
        return self.some(self.inner.unwrap(v))

    def ok(self, v):
        return v is None or self.inner.ok(v)


def infer_codec(*vals):
    """smallest codec covering all given values"""
    none = any(v is None for v in vals)
    vs = [v for v in vals if v is not None and not isinstance(v, Poison)]
    if not vs:
        return None
    c = None
    own = getattr(type(vs[0]), '_pv_codec', None)       # ghost objects that denote terms
    if own is not None and all(getattr(type(v), '_pv_codec', None) is own for v in vs):
        c = own(vs[0])
    for cand in () if c is not None else (BoolC, IntC, RealC):
        if all(cand.ok(v) for v in vs):
            c = cand
            break
    if c is None and all(isinstance(v, tuple) for v in vs) and len({len(v) for v in vs}) == 1:
        parts = [infer_codec(*[v[i] for v in vs]) for i in range(len(vs[0]))]
        if all(p is not None for p in parts):
            c = TupleC(*parts)
    if c is None and (any(isinstance(v, SVal) for v in vs) or all(isinstance(v, BaseException) for v in vs)):
        c = ValC
    if c is None:
        return None
    return OptC(c) if none else c


# --------------------------------------------------------------------------------------------------- context
class Obligation:
    def __init__(self, harness, name):
        self.harness, self.name = harness, name
        self.queries = 0
        self.failed = None      # (status, model dict)
        self.time = 0.0
        self.backends = set()


EXPIRED = []


class Engine:
    """runs one harness to completion"""

    def __init__(self, name, fn, functions=(), timeout_ms=10000, max_paths=4000, unroll=None, must_reach=(),
                 invs=(), second=False):
        self.name, self.fn = name, fn
        self.functions = functions
        self.timeout = timeout_ms
        self.quick_ms = 250
        self.max_paths = max_paths
        self.unroll = unroll
        self.must_reach = set(must_reach)
        self.loops = {}
        self.invs = list(invs)
        self.obls = {}
        self.paths = 0
        self.completed = 0
        self.solver_time = 0.0
        self.queries = 0
        self.unsupported = []
        self.bounded = False
        self.reached = set()
        self.second = second
        self.second_stats = {'agree': 0, 'unknown': 0, 'disagree': 0}
        self.inference = False
        self.dirty = False
        self.assumed = set()
        self.error = None
        self.undecided = 0

    def run(self):
        rounds = 0
        while True:
            rounds += 1
            self.dirty = False
            self.obls = {}
            self.paths = self.completed = 0
            self.reached = set()
            self.unsupported = []
            self.bounded = False
            self._explore()
            if not self.dirty:
                break
            if rounds > 60 or EXPIRED:
                self.unsupported.append('loop inference did not converge')
                break
        self.rounds = rounds
        return self

    def _explore(self):
        global CTX
        work = [()]
        while work:
            if self.paths >= self.max_paths:
                self.unsupported.append('path limit %d' % self.max_paths)
                return
            if EXPIRED:
                self.unsupported.append('time budget of the contract exhausted')
                return
            prefix = work.pop()
            self.paths += 1
            ctx = Ctx(self, prefix)
            CTX = ctx
            try:
                self.fn(ctx)
                ctx.finish()
                self.completed += 1
            except PathEnd:
                pass
            except Unsupported as e:
                if os.environ.get('PV_EXC'):
                    import traceback
                    traceback.print_exc()
                self.unsupported.append(str(e))
            except BoundHit as e:
                self.bounded = True
                self.unsupported.append('bound: %s' % e)
            except Restart:
                self.dirty = True
                CTX = None
                return
            finally:
                ctx.dead = True
                CTX = None
            work.extend(ctx.alternatives)
            if len(self.unsupported) > 20:
                return

    # result ------------------------------------------------------------------------------------------
    def failures(self):
        return [o for o in self.obls.values() if o.failed]

    def status(self):
        if self.error:
            return 'error'
        if any(o.failed and o.failed[0] == 'sat' for o in self.obls.values()):
            return 'failed'
        if self.unsupported:
            return 'unsupported'
        if any(o.failed for o in self.obls.values()):
            return 'unknown'
        if not self.obls or self.completed == 0 or not self.must_reach <= self.reached:
            return 'vacuous'
        return 'proved'


class Ctx:
    def __init__(self, engine, prefix):
        self.engine = engine
        self.prefix = prefix
        self.pos = 0
        self.trail = []
        self.alternatives = []
        self.solver = z3.Solver()
        self.solver.set('timeout', engine.timeout)
        self.pc = []
        self.names = {}
        self.inputs = {}
        self.dead = False
        self.roots = {}
        self._vals = {}
        self._consts = {}
        self._constorder = []
        self.now = None
        self.contracts = {}
        self.models = {}
        self.trace = []
        self.nofork = 0
        self.sub = None
        self.locks = []
        self.env = type('Env', (), {})()

    # ---- names
    def fresh_name(self, base):
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        return base if n == 0 else '%s!%d' % (base, n)

    def fresh(self, base, sort):
        return z3.Const(self.fresh_name(base), sort)

    # ---- inputs
    def _inp(self, name, t):
        self.inputs[name] = t
        return t

    def int(self, name):
        return SNum(self._inp(name, self.fresh(name, z3.IntSort())))

    def real(self, name):
        return SNum(self._inp(name, self.fresh(name, z3.RealSort())))

    def bool(self, name):
        return SBool(self._inp(name, self.fresh(name, z3.BoolSort())))

    def obj(self, name, cls=object):
        """opaque object"""
        t = self._inp(name, self.fresh(name, Val))
        return self.val(t, cls)

    def val(self, t, cls=object):
        t = z3.simplify(t)
        k = t.get_id()
        v = self._vals.get(k)
        if v is None:
            # a term that is syntactically a named Python constant denotes that very object
            for o, ct in self._constorder:
                if ct.get_id() == k and not isinstance(o, Sym):
                    return o
            v = self._vals[k] = SVal(t, cls)
        return v

    def const(self, v):
        """term of sort Val denoting a Python value"""
        if isinstance(v, SVal):
            return v.t
        if isinstance(v, Sym):
            f = z3.Function('box_' + str(v.t.sort()), v.t.sort(), Val)
            return f(v.t)
        for o, t in self._constorder:
            if o is v:
                return t
            try:
                if type(o) is type(v) and o == v and isinstance(v, (int, str, bytes, float, bool, tuple)):
                    return t
            except Control:
                raise
            except Exception:
                pass
        t = self.fresh('const_%s' % type(v).__name__, Val)
        for o, u in self._constorder:
            self.assume(t != u, always=True)
        self._constorder.append((v, t))
        return t

    # ---- assumptions / branching
    def assume(self, c, always=False):
        if self.dead:
            return
        if self.sub is not None and not always:
            return          # a fact learnt under a guard of a pure expression: dropping it is sound
        if isinstance(c, bool):
            if not c:
                raise PathEnd()
            return
        t = bool_term(c)
        self.pc.append(t)
        self.solver.add(t)

    def _check(self, *extra):
        t0 = _time.time()
        r = self.solver.check(*extra)
        self.engine.solver_time += _time.time() - t0
        self.engine.queries += 1
        return r

    def quick(self, *extra):
        """feasibility: unknown counts as feasible, so a small time budget is sound"""
        self.solver.set('timeout', self.engine.quick_ms)
        r = self._check(*extra)
        self.solver.set('timeout', self.engine.timeout)
        return r != z3.unsat

    def feasible(self):
        return self.quick()

    def fork(self, cond):
        """decide a symbolic condition on this path"""
        if self.dead:
            return False
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.sub is not None:
            return self.sub.fork(self, cond)
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trail.append(d)
            self.assume(cond if d else z3.Not(cond))
            return d
        if len(self.trail) > 400:
            raise Unsupported('too many decisions on one path (an unbounded loop outside the instrumented code?)')
        t = self.quick(cond)
        f = self.quick(z3.Not(cond))
        if t and f:
            self.alternatives.append(tuple(self.trail) + (False,))
            d = True
        elif t:
            d = True
        elif f:
            d = False
        else:
            raise PathEnd()
        self.pos += 1
        self.trail.append(d)
        self.assume(cond if d else z3.Not(cond))
        return d

    def choose(self, n, what='choice'):
        """nondeterministic choice 0..n-1"""
        if self.dead:
            return 0
        if self.sub is not None:
            raise Unsupported('nondeterminism inside a pure expression')
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trail.append(d)
            return d
        for k in range(n - 1, 0, -1):
            self.alternatives.append(tuple(self.trail) + (k,))
        self.pos += 1
        self.trail.append(0)
        return 0

    def concrete(self, t):
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        return None

    def entails(self, c, timeout=None):
        if timeout is not None:
            self.solver.set('timeout', timeout)
        r = self._check(z3.Not(bool_term(c)))
        if timeout is not None:
            self.solver.set('timeout', self.engine.timeout)
        elif r == z3.unknown:
            s = z3.Solver()
            s.set('timeout', self.engine.timeout)
            s.add(*self.pc)
            s.add(z3.Not(bool_term(c)))
            t0 = _time.time()
            r = s.check()
            self.engine.solver_time += _time.time() - t0
            if r == z3.unknown:
                self.engine.undecided += 1
        return r == z3.unsat

    # ---- obligations
    def reach(self, label):
        """vacuity guard: this point must be reachable on at least one satisfiable path"""
        if self.dead or label in self.engine.reached:
            return
        if self.quick():
            self.engine.reached.add(label)

    def check(self, name, cond, kind='post'):
        if self.dead:
            return
        o = self.engine.obls.get(name)
        if o is None:
            o = self.engine.obls[name] = Obligation(self.engine.name, name)
        o.queries += 1
        t = bool_term(cond)
        t0 = _time.time()
        neg = z3.Not(t)
        backend = 'z3'
        r = self._check(neg)
        model = self.solver.model() if r == z3.sat else None
        if r == z3.unknown:
            r, model, backend = self._retry(neg)
        o.time += _time.time() - t0
        o.backends.add(backend)
        if r == z3.unsat:
            if self.engine.second:
                s = self._cvc5(neg)
                k = {'unsat': 'agree', 'sat': 'disagree'}.get(s, 'unknown')
                self.engine.second_stats[k] += 1
                if k == 'agree':
                    o.backends.add('cvc5')
        elif o.failed is None or (o.failed[0] != 'sat' and r == z3.sat):
            o.failed = ('sat' if r == z3.sat else 'unknown', self._model(model), str(neg)[:2000],
                        list(self.trace)[-40:])
        # continue the path under the asserted fact
        self.assume(t)
        if r != z3.unsat and not self.feasible():
            raise PathEnd()

    def _retry(self, neg):
        for seed in (7, 23):
            s = z3.Solver()
            s.set('timeout', self.engine.timeout * 2)
            s.set('random_seed', seed)
            s.set('smt.random_seed', seed)
            s.add(*self.pc)
            s.add(neg)
            r = s.check()
            if r != z3.unknown:
                return r, (s.model() if r == z3.sat else None), 'z3(seed)'
        s = self._cvc5(neg)
        if s == 'unsat':
            return z3.unsat, None, 'cvc5'
        return z3.unknown, None, 'z3'

    def _cvc5(self, neg):
        import subprocess
        s = z3.Solver()
        s.add(*self.pc)
        s.add(neg)
        txt = s.to_smt2()
        txt = '(set-logic ALL)\n' + '\n'.join(l for l in txt.splitlines() if not l.startswith('; '))
        try:
            p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=8000', '-'], input=txt, capture_output=True,
                               text=True, timeout=15)
        except Exception:
            return 'error'
        o = p.stdout.strip().splitlines()
        return o[0] if o else 'error'

    def _model(self, m):
        if m is None:
            return {}
        out = {}
        for k, t in self.inputs.items():
            try:
                out[k] = str(m.eval(t, model_completion=True))[:400]
            except Exception as e:
                out[k] = repr(e)
        return out

    def fail(self, name):
        """this point must be unreachable"""
        self.check(name, z3.BoolVal(False))

    def finish(self):
        self.reach('end')

    # ---- environment helpers
    def track(self, name, o):
        self.roots[name] = o
        return o

    def new(self, cls, name='self', **fields):
        """an object of the real class in an arbitrary state: the constructor is *not* run"""
        o = object.__new__(cls)
        for k, v in fields.items():
            object.__setattr__(o, k, v)
        self.roots[name] = o
        return o

    def monotonic(self):
        t = self.fresh('now', z3.RealSort())
        if self.now is not None:
            self.assume(t >= self.now)
        self.now = t
        return SNum(t)

    def catch(self, fn, *a, **k):
        """call; returns ('ok', value) or ('exc', exception)"""
        try:
            return 'ok', fn(*a, **k)
        except Control:
            raise
        except (Exception, SystemExit, KeyboardInterrupt) as e:
            if isinstance(e, z3.Z3Exception):
                raise Unsupported('engine: %r' % (e,))
            if isinstance(e, (AttributeError, TypeError, NameError, z3.Z3Exception, RecursionError, AssertionError)):
                tb = e.__traceback__
                while tb is not None and tb.tb_next is not None:
                    tb = tb.tb_next
                if tb is not None and '/pyvc/' in tb.tb_frame.f_code.co_filename \
                        and tb.tb_frame.f_code.co_name != 'pv_call':
                    raise Unsupported('engine: %r at %s:%d' % (e, tb.tb_frame.f_code.co_filename, tb.tb_lineno))
            self.last_exc = e
            if os.environ.get('PV_EXC'):
                import traceback
                traceback.print_exc()
            return 'exc', e

    # ---- pure summaries ------------------------------------------------------------------------------
    def summarize(self, fn, *args, bound=None):
        """evaluate a pure fn on symbolic args along all its internal paths; list of (guard, value).  bound=(j, n): fn is
        evaluated for each j below n in turn, and the first one for which it fails, if any, ends the evaluation"""
        if self.sub is not None:
            # nested summaries share the outer decision oracle
            return [(z3.BoolVal(True), fn(*args))]
        out = []
        excs = []
        work = [()]
        while work:
            pre = work.pop()
            sub = _Sub(self, pre)
            self.sub = sub
            n = len(self.pc)
            exc = None
            try:
                v = fn(*args)
            except Control:
                raise
            except Exception as e:
                exc = e
            finally:
                self.sub = None
                # facts learnt inside a pure expression are guarded by its path condition: drop them
            g = z3.And(*sub.conds) if sub.conds else z3.BoolVal(True)
            if exc is None:
                out.append((g, v))
            else:
                excs.append((g, exc))
            work.extend(sub.alternatives)
            if len(out) + len(excs) > 64:
                raise Unsupported('pure expression with too many paths')
        if excs:
            if bound is None:
                if out:
                    raise Unsupported('an expression over a symbolic sequence that may fail (%r)' % (excs[0][1],))
                raise excs[0][1]
            j, n = bound
            w = self.choose(len(excs) + 1)
            bad = z3.Or(*[g for g, _ in excs])
            if w < len(excs):
                k = self.fresh('first_failing', z3.IntSort())
                self.assume(z3.And(0 <= k, k < n, z3.substitute(excs[w][0], (j, k)),
                                   z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), z3.Not(bad)))))
                if not self.feasible():
                    raise PathEnd()
                raise excs[w][1]
            self.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.Not(bad))))
            if not self.feasible():
                raise PathEnd()
            if not out:
                self.assume(n <= 0)
                raise PathEnd() if not self.feasible() else Unsupported('an expression that always fails')
        return out


class _Sub:
    def __init__(self, ctx, prefix):
        self.prefix, self.pos, self.trail, self.alternatives, self.conds = prefix, 0, [], [], []

    def fork(self, ctx, cond):
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            d = True
            # both sides are explored; infeasible guards are harmless (they are vacuous)
            self.alternatives.append(tuple(self.trail) + (False,))
        self.pos += 1
        self.trail.append(d)
        self.conds.append(cond if d else z3.Not(cond))
        return d


def ite_merge(pairs, codec):
    """merge (guard, value) pairs into one term"""
    t = codec.unwrap(pairs[-1][1])
    for g, v in reversed(pairs[:-1]):
        t = z3.If(g, codec.unwrap(v), t)
    return z3.simplify(t)
