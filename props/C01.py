"""C01: identifiers handed out by the allocator and by the sequential issuer are unique and in range."""
import math

from pyvc.api import *
from satella.coding.concurrent.id_allocator import IDAllocator, SequentialIssuer
from satella.exceptions import Empty, AlreadyAllocated


def alloc_state(ctx):
    limited = ctx.choose(2)
    start = ctx.int('start_at')
    top = ctx.int('top_limit') if limited else math.inf
    if limited:
        ctx.assume(top >= start)
    alloc = SSet('ints_allocated', IntC)
    free = SSet('free_ints', IntC)
    bound = ctx.int('bound')

    def inv(o):
        a, f, b = get(o, 'ints_allocated'), get(o, 'free_ints'), IntC.unwrap(get(o, 'bound'))
        yield 'bound is non-negative', b >= 0
        yield 'no integer is both free and allocated', forall(IntC, lambda x: Not(And(a.has(x), f.has(x))))
        yield 'every integer below the bound is tracked', forall(
            IntC, lambda x: Implies(And(0 <= x, x < b), Or(a.has(x), f.has(x))))
        yield 'only integers below the bound are tracked', forall(
            IntC, lambda x: Implies(Or(a.has(x), f.has(x)), And(0 <= x, x < b)))
        if limited:
            yield 'bound respects the top limit', b <= IntC.unwrap(top) - IntC.unwrap(start)

    conforms(IDAllocator(), 'ints_allocated', 'free_ints', 'bound', 'start_at', 'top_limit')
    o, lock = monitored(ctx, IDAllocator, dict(ints_allocated=alloc, free_ints=free, bound=bound), {'bound': IntC}, inv,
                        consts=dict(start_at=start, top_limit=top))
    return o, lock, start, top


def allocated(snap, x, start):
    return Select(snap['ints_allocated']['pres'], x - start.t)


def me(f):
    return get(cur().roots['self'], f)


def bnd():
    return IntC.unwrap(me('bound'))


INVS = [
    # the loop that extends the pool: after i iterations exactly [bound, bound+i) was added to what was free on entry
    ('range added', lambda L: forall(IntC, lambda x: me('free_ints').has(x) == Or(
        Select(L.pre('self.free_ints')['pres'], x),
        And(bnd() <= x, x < bnd() + L.i)))),
    ('no loss', lambda L: forall(IntC, lambda x: Implies(Select(L.pre('self.free_ints')['pres'], x),
                                                         me('free_ints').has(x)))),
    ('only in range', lambda L: forall(IntC, lambda x: Implies(
        And(me('free_ints').has(x), Not(Select(L.pre('self.free_ints')['pres'], x))), x >= bnd()))),
]


def same_except(ctx, pre, post, start, *xs):
    ctx.check('only the requested identifier changes state', forall(IntC, lambda x: Implies(
        And(*[x != e for e in xs]) if xs else BoolVal(True), allocated(pre, x, start) == allocated(post, x, start))))


def sections(ctx, lock):
    ctx.check('the lock is free on return', BoolVal(lock.depth == 0))
    ctx.check('one critical section', BoolVal(len(lock.sections) == 1))
    return lock.sections[0]


@contract('IDAllocator.allocate_int', ['IDAllocator.allocate_int', 'IDAllocator._extend_the_bound_to',
                                       'Monitor.synchronized'],
          reach=['end', 'ok', 'empty'], invs=INVS)
def h_alloc(ctx):
    o, lock, start, top = alloc_state(ctx)
    out = ctx.catch(o.allocate_int)
    pre, post = sections(ctx, lock)
    if out[0] == 'ok':
        r = IntC.unwrap(out[1])
        ctx.reach('ok')
        ctx.check('returned identifier was not outstanding', Not(allocated(pre, r, start)))
        ctx.check('returned identifier is outstanding afterwards', allocated(post, r, start))
        ctx.check('returned identifier is at least start_at', r >= start.t)
        if top is not math.inf:
            ctx.check('returned identifier is below the top limit', r < top.t)
        same_except(ctx, pre, post, start, r)
    else:
        ctx.reach('empty')
        ctx.check('fails only with Empty', BoolVal(isinstance(out[1], Empty)))
        ctx.check('Empty only when the pool is exhausted', BoolVal(top is not math.inf) if top is math.inf else
                  forall(IntC, lambda x: Implies(And(x >= start.t, x < top.t), allocated(pre, x, start))))
        same_except(ctx, pre, post, start)


@contract('IDAllocator.mark_as_free', ['IDAllocator.mark_as_free', 'Monitor.synchronized'],
          reach=['end', 'ok', 'refused'])
def h_free(ctx):
    o, lock, start, top = alloc_state(ctx)
    x = ctx.int('x')
    out = ctx.catch(o.mark_as_free, x)
    pre, post = sections(ctx, lock)
    if out[0] == 'ok':
        ctx.reach('ok')
        ctx.check('only an outstanding identifier is freed', And(allocated(pre, x.t, start), x.t >= start.t))
        ctx.check('freed identifier is no longer outstanding', Not(allocated(post, x.t, start)))
        same_except(ctx, pre, post, start, x.t)
    else:
        ctx.reach('refused')
        ctx.check('refusal is a ValueError', BoolVal(isinstance(out[1], ValueError)))
        ctx.check('refused only if not outstanding', Or(x.t < start.t, Not(allocated(pre, x.t, start))))
        same_except(ctx, pre, post, start)


@contract('IDAllocator.mark_as_allocated', ['IDAllocator.mark_as_allocated', 'IDAllocator._extend_the_bound_to',
                                            'Monitor.synchronized'],
          reach=['end', 'ok', 'already', 'range'], invs=INVS)
def h_mark(ctx):
    o, lock, start, top = alloc_state(ctx)
    x = ctx.int('x')
    out = ctx.catch(o.mark_as_allocated, x)
    pre, post = sections(ctx, lock)
    inr = x.t >= start.t if top is math.inf else And(x.t >= start.t, x.t < top.t)
    if out[0] == 'ok':
        ctx.reach('ok')
        ctx.check('was not outstanding', And(inr, Not(allocated(pre, x.t, start))))
        ctx.check('is outstanding afterwards', allocated(post, x.t, start))
        same_except(ctx, pre, post, start, x.t)
    else:
        same_except(ctx, pre, post, start)
        if isinstance(out[1], AlreadyAllocated):
            ctx.reach('already')
            ctx.check('AlreadyAllocated only if outstanding', allocated(pre, x.t, start))
        else:
            ctx.reach('range')
            ctx.check('otherwise a ValueError', BoolVal(isinstance(out[1], ValueError)))
            ctx.check('ValueError only out of range', Not(inr))


@contract('IDAllocator.__init__', ['IDAllocator.__init__', 'Monitor.__init__'], reach=['end'])
def h_init(ctx):
    start = ctx.int('start_at')
    limited = ctx.choose(2)
    top = ctx.int('top_limit') if limited else None
    out = ctx.catch(IDAllocator, start, top)
    ctx.check('constructor does not fail', BoolVal(out[0] == 'ok'))
    o = out[1]
    conforms(o, 'ints_allocated', 'free_ints', 'bound', 'start_at', 'top_limit')
    ctx.check('nothing is outstanding', BoolVal(o.ints_allocated == set() and o.free_ints == set()))
    ctx.check('nothing is tracked', IntC.unwrap(o.bound) == 0)
    ctx.check('start kept', IntC.unwrap(o.start_at) == start.t)
    if limited:
        ctx.check('limit kept', BoolVal(not isinstance(o.top_limit, float)) if isinstance(o.top_limit, float)
                  else IntC.unwrap(o.top_limit) == top.t)
    else:
        ctx.check('no limit', BoolVal(o.top_limit == math.inf))


def issuer(ctx):
    conforms(SequentialIssuer(), 'start')
    return monitored(ctx, SequentialIssuer, dict(start=ctx.int('start')), {'start': IntC}, lambda o: [])


@contract('SequentialIssuer.issue', ['SequentialIssuer.issue', 'Monitor.synchronized'])
def h_issue(ctx):
    o, lock = issuer(ctx)
    out = ctx.catch(o.issue)
    pre, post = sections(ctx, lock)
    ctx.check('never fails', BoolVal(out[0] == 'ok'))
    p, q = IntC.unwrap(pre['start']), IntC.unwrap(post['start'])
    ctx.check('issues the next value', IntC.unwrap(out[1]) == p)
    ctx.check('later values are strictly greater', q == p + 1)


@contract('SequentialIssuer.no_less_than', ['SequentialIssuer.no_less_than', 'Monitor.synchronized'])
def h_nlt(ctx):
    o, lock = issuer(ctx)
    x = ctx.int('no_less_than')
    out = ctx.catch(o.no_less_than, x)
    pre, post = sections(ctx, lock)
    ctx.check('never fails', BoolVal(out[0] == 'ok'))
    p, q, r = IntC.unwrap(pre['start']), IntC.unwrap(post['start']), IntC.unwrap(out[1])
    ctx.check('not below the requested value', r >= x.t)
    ctx.check('not below any value issued before', r >= p)
    ctx.check('smallest such value', Or(r == x.t, r == p))
    ctx.check('later values are strictly greater', q == r + 1)
