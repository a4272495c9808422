"""C02: every operation on an AtomicNumber is one atomic step of ordinary arithmetic; changes wake waiters."""
import operator

from pyvc.api import *
from satella.coding.concurrent import AtomicNumber
from satella.coding.concurrent.monitor import Monitor
from satella.exceptions import WouldWaitMore


def num(ctx, codec=None):
    c = codec or [IntC, RealC][ctx.choose(2)]
    real = conforms(AtomicNumber(), 'value', 'condition')
    o, lock = monitored(ctx, AtomicNumber, dict(value=c.wrap(ctx.fresh('value', c.sort))), {'value': c}, lambda o: [],
                        reentrant=is_rlock(real._monitor_lock))
    cond = GCond(ctx)
    object.__setattr__(o, 'condition', cond)
    return o, lock, cond, c


def one_section(ctx, lock):
    ctx.check('the lock is free on return', BoolVal(lock.depth == 0))
    ctx.check('the operation is one critical section', BoolVal(len(lock.sections) == 1))
    return lock.sections[0][0]['value'], lock.sections[0][1]['value']


def eqv(a, b):
    if a is b:
        return BoolVal(True)
    x, y = num_term(a), num_term(b)
    if x is None or y is None:
        if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
            return bool_term(a) == bool_term(b)
        return BoolVal(a == b)
    x, y = core.unify(x, y)
    return x == y


def outcome(ctx, f, *a):
    return ctx.catch(f, *a)


INPLACE = {'__iadd__': operator.add, '__isub__': operator.sub, '__imul__': operator.mul,
           '__itruediv__': operator.truediv, '__ifloordiv__': operator.floordiv, '__ipow__': operator.pow,
           '__iand__': operator.and_, '__ior__': operator.or_, '__ixor__': operator.xor,
           '__ilshift__': operator.lshift, '__irshift__': operator.rshift}
BINARY = {'__add__': operator.add, '__sub__': operator.sub, '__mul__': operator.mul,
          '__truediv__': operator.truediv, '__floordiv__': operator.floordiv, '__and__': operator.and_,
          '__or__': operator.or_, '__xor__': operator.xor, '__lshift__': operator.lshift,
          '__rshift__': operator.rshift, '__gt__': operator.gt, '__lt__': operator.lt, '__ge__': operator.ge,
          '__le__': operator.le, '__eq__': operator.eq, '__pow__': operator.pow}
REVERSED = {'__radd__': operator.add, '__rsub__': operator.sub, '__rmul__': operator.mul,
            '__rtruediv__': operator.truediv, '__rfloordiv__': operator.floordiv, '__rand__': operator.and_,
            '__ror__': operator.or_, '__rxor__': operator.xor, '__rlshift__': operator.lshift,
            '__rrshift__': operator.rshift, '__rpow__': operator.pow}
UNARY = {'__neg__': operator.neg, '__pos__': operator.pos, '__abs__': operator.abs}
INTONLY = {operator.and_, operator.or_, operator.xor, operator.lshift, operator.rshift}


def codec_for(ctx, op):
    return IntC if op in INTONLY else None


def same_outcome(ctx, out, exp, what):
    if exp[0] == 'exc':
        ctx.check('%s: fails like plain arithmetic' % what,
                  BoolVal(out[0] == 'exc' and type(out[1]) is type(exp[1])))
        return False
    ctx.check('%s: succeeds where plain arithmetic does' % what, BoolVal(out[0] == 'ok'))
    return out[0] == 'ok'


def mk_inplace(meth, op):
    @contract('AtomicNumber.' + meth, ['AtomicNumber.' + meth, 'Monitor.synchronized'])
    def h(ctx):
        o, lock, cond, c = num(ctx, codec_for(ctx, op))
        other = (c if op in INTONLY else [IntC, RealC][ctx.choose(2)]).wrap(ctx.int('other').t) \
            if c is IntC or op in INTONLY else ctx.real('other')
        out = outcome(ctx, getattr(o, meth), other)
        pre, post = one_section(ctx, lock)
        exp = outcome(ctx, op, pre, other)
        if same_outcome(ctx, out, exp, 'update'):
            ctx.check('returns the number itself', BoolVal(out[1] is o))
            ctx.check('new value is the old value combined with the operand', eqv(post, exp[1]))
            ctx.check('waiters are notified of the change', Or(eqv(pre, post), BoolVal(cond.notified > 0)))
        else:
            ctx.check('a failed update leaves the value alone', eqv(post, pre))


def mk_read(meth, op, swap=False):
    @contract('AtomicNumber.' + meth, ['AtomicNumber.' + meth, 'Monitor.synchronized'])
    def h(ctx):
        o, lock, cond, c = num(ctx, codec_for(ctx, op))
        other = ctx.int('other') if c is IntC else ctx.real('other')
        out = outcome(ctx, getattr(o, meth), other)
        pre, post = one_section(ctx, lock)
        exp = outcome(ctx, op, *((other, pre) if swap else (pre, other)))
        if same_outcome(ctx, out, exp, 'operation'):
            ctx.check('result is plain arithmetic on the value', eqv(out[1], exp[1]))
        ctx.check('the value is unchanged', eqv(pre, post))


def mk_un(meth, op):
    @contract('AtomicNumber.' + meth, ['AtomicNumber.' + meth, 'Monitor.synchronized'])
    def h(ctx):
        o, lock, cond, c = num(ctx)
        out = outcome(ctx, getattr(o, meth))
        pre, post = one_section(ctx, lock)
        ctx.check('succeeds', BoolVal(out[0] == 'ok'))
        ctx.check('result is plain arithmetic on the value', eqv(out[1], op(pre)))
        ctx.check('the value is unchanged', eqv(pre, post))


for _m, _op in INPLACE.items():
    mk_inplace(_m, _op)
for _m, _op in BINARY.items():
    mk_read(_m, _op)
for _m, _op in REVERSED.items():
    mk_read(_m, _op, True)
for _m, _op in UNARY.items():
    mk_un(_m, _op)


@contract('AtomicNumber.__bool__', ['AtomicNumber.__bool__'])
def h_bool(ctx):
    o, lock, cond, c = num(ctx)
    out = ctx.catch(o.__bool__)
    pre, post = one_section(ctx, lock)
    ctx.check('truth of the value', And(BoolVal(out[0] == 'ok'), bool_term(out[1]) == (num_term(pre) != 0)))
    ctx.check('the value is unchanged', eqv(pre, post))


@contract('AtomicNumber.__int__', ['AtomicNumber.__int__'])
def h_int(ctx):
    o, lock, cond, c = num(ctx, IntC)
    out = ctx.catch(o.__int__)
    pre, post = one_section(ctx, lock)
    ctx.check('the value itself', And(BoolVal(out[0] == 'ok'), eqv(out[1], pre)))
    ctx.check('the value is unchanged', eqv(pre, post))


@contract('AtomicNumber.__float__', ['AtomicNumber.__float__'])
def h_float(ctx):
    o, lock, cond, c = num(ctx)
    out = ctx.catch(o.__float__)
    pre, post = one_section(ctx, lock)
    ctx.check('the value itself', And(BoolVal(out[0] == 'ok'), eqv(out[1], pre)))
    ctx.check('the value is unchanged', eqv(pre, post))


def mk_self(meth):
    @contract('AtomicNumber.%s with itself' % meth, ['AtomicNumber.' + meth])
    def h(ctx):
        o, lock, cond, c = num(ctx, IntC)
        out = ctx.catch(getattr(o, meth), o)
        pre, post = one_section(ctx, lock)
        ctx.check('combining a number with itself returns', BoolVal(out[0] == 'ok'))
        v = out[1] if not meth.startswith('__i') else post
        exp = {'__add__': lambda: pre + pre, '__eq__': lambda: True, '__iadd__': lambda: pre + pre,
               '__le__': lambda: True}[meth]()
        ctx.check('result is plain arithmetic', eqv(v, exp))


for _m in ('__add__', '__eq__', '__iadd__', '__le__'):
    mk_self(_m)


@contract('AtomicNumber.__eq__ two numbers', ['AtomicNumber.__eq__', 'Monitor.acquire.__enter__',
                                              'Monitor.acquire.__exit__'])
def h_eq2(ctx):
    o, lock, cond, c = num(ctx, IntC)
    p, lock2, cond2, c2 = num(ctx, IntC)
    ctx.roots['other'] = p
    ctx.roots['self'] = o
    out = ctx.catch(o.__eq__, p)
    ctx.check('both locks are free on return', BoolVal(lock.depth == 0 and lock2.depth == 0))
    ctx.check('succeeds', BoolVal(out[0] == 'ok'))
    a, b = lock.sections[-1][0]['value'], lock2.sections[-1][0]['value']
    ctx.check('compares the two values', bool_term(out[1]) == eqv(a, b))


@contract('AtomicNumber.__init__', ['AtomicNumber.__init__'])
def h_init(ctx):
    v = ctx.int('v')
    o = AtomicNumber(v)
    conforms(o, 'value', 'condition')
    ctx.check('holds the initial value', eqv(o.value, v))
