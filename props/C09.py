"""C09: an exclusive write-back cache always shows, and finally stores, the last write."""
from pyvc.api import *
from satella.coding.concurrent.monitor import Monitor
from satella.coding.structures.dictionaries.writeback_cache import ExclusiveWritebackCache


def ok(ctx, out):
    ctx.check('does not fail', BoolVal(out[0] == 'ok'))
    return out[1]


class W:
    """the storage, as it will be once every task submitted so far has run (tasks run in the order of submission)"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.fin = SDict('storage', ValC, ValC)
        self.writes, self.reads, self.deletes = [], [], []
        self.has_delete = True

    def write(self, k, v):
        self.writes.append((ValC.unwrap(k), ValC.unwrap(v)))
        self.fin[k] = v

    def read(self, k):
        self.reads.append(ValC.unwrap(k))
        return self.fin[k]

    def delete(self, k):
        self.deletes.append(ValC.unwrap(k))
        if k in self.fin:
            del self.fin[k]

    def submit(self, f, *a, **kw):
        return GFut(self.ctx.catch(f, *a, **kw))


class GFut:
    def __init__(self, out):
        self.out = out

    def result(self, timeout=None):
        if self.out[0] == 'ok':
            return self.out[1]
        raise self.out[1]


def parts(o):
    c, i = get(o, 'cache'), get(o, 'in_cache')
    if not isinstance(c, SDict) or not isinstance(i, SSet):
        raise Unsupported('representation')
    return c, i


def inv(o, w):
    c, i = parts(o)
    f = w.fin
    yield 'what is cached is known', forall(ValC, lambda x: Implies(c.has(x), i.has(x)))
    yield 'a cached value is the one finally stored', forall(ValC, lambda x: Implies(c.has(x), And(f.has(x), f.at(x) == c.at(x))))
    yield 'a key known to be missing will be missing', forall(ValC, lambda x: Implies(And(i.has(x), Not(c.has(x))), Not(f.has(x))))


class Sn:
    def __init__(self, o, w):
        c, i = parts(o)
        self.c, self.i, self.f, self.fv = c.s['pres'], i.s['pres'], w.fin.s['pres'], w.fin.s['val']
        self.cv = c.s['val']

    def has(self, x):
        return Select(self.f, x)

    def at(self, x):
        return Select(self.fv, x)


def make(ctx, interfere=True):
    w = W(ctx)
    sk, hd = bool(ctx.choose(2)), True
    conforms(ExclusiveWritebackCache(None, None, None, w), 'executor', 'read_method', 'write_method', 'delete_method',
             'no_concurrent_executors', 'in_cache', 'cache_lock', 'cache', 'operations', 'store_key_errors')
    lock = GLock(ctx, 'cache lock')
    o = ctx.new(ExclusiveWritebackCache, 'self', executor=w, read_method=w.read, write_method=w.write, delete_method=w.delete,
                no_concurrent_executors=4, in_cache=SSet('known', ValC), cache=SDict('cache', ValC, ValC),
                cache_lock=ctx.new(Monitor, 'lock', _monitor_lock=lock), operations=ctx.int('operations'), store_key_errors=sk)
    for _, c in inv(o, w):
        ctx.assume(c)
    ctx.roots['storage'] = w.fin
    ctx.env.w = w

    def on_acquire():
        # other threads may have run whole operations of theirs: the invariant holds, and what changed in the storage is known
        a = Sn(o, w)
        for x in parts(o) + (w.fin,):
            x.havoc('other.' + x.name)
        for _, c in inv(o, w):
            ctx.assume(c)
        b = Sn(o, w)
        ctx.assume(rely(a, b))
        ctx.env.seen.append(b)
    lock.on_acquire = on_acquire if interfere else None
    lock.invariant = lambda: inv(o, w)
    ctx.env.seen = [Sn(o, w)]
    return o, w, lock


def rely(a, b):
    """a thread changes the fate of a key only by making the key known"""
    return forall(ValC, lambda x: Implies(Not(Select(b.i, x)), And(b.has(x) == a.has(x), Implies(b.has(x), b.at(x) == a.at(x)))))


def finish(ctx, o, w, lock):
    ctx.check('the lock is free on return', BoolVal(lock.depth == 0))
    for n, c in inv(o, w):
        ctx.check('invariant: ' + n, c)


OPS = ['ExclusiveWritebackCache._operate', 'Monitor.__enter__', 'Monitor.__exit__']


@contract('ExclusiveWritebackCache.__setitem__', ['ExclusiveWritebackCache.__setitem__'] + OPS)
def setitem(ctx):
    o, w, lock = make(ctx)
    k, v = ctx.obj('key'), ctx.obj('value')
    # the step that matters is the one critical section in which the value is stored
    states = []
    acq = lock.on_acquire

    def on():
        acq()
        states.append([Sn(o, w), None])
    lock.on_acquire = on
    i0 = lock.invariant

    def rel():
        states[-1][1] = Sn(o, w)
        return i0()
    lock.invariant = rel
    ok(ctx, ctx.catch(o.__setitem__, k, v))
    a, b = states[0]
    ctx.check('the value is written once', And(BoolVal(len(w.writes) == 1), *[And(x[0] == k.t, x[1] == v.t) for x in w.writes]))
    ctx.check('exactly that key is set, in one step', forall(ValC, lambda x: And(
        b.has(x) == Or(x == k.t, a.has(x)), Implies(b.has(x), b.at(x) == If(x == k.t, v.t, a.at(x))))))
    ctx.check('and known from then on', Select(b.i, k.t))
    ctx.check('others rely on it: changes are known', rely(a, b))
    ctx.check('reads see it without asking the storage', And(Select(b.c, k.t), Select(b.cv, k.t) == v.t))
    finish(ctx, o, w, lock)


@contract('ExclusiveWritebackCache.__delitem__', ['ExclusiveWritebackCache.__delitem__'] + OPS)
def delitem(ctx):
    o, w, lock = make(ctx)
    k = ctx.obj('key')
    states = []
    acq = lock.on_acquire

    def on():
        acq()
        states.append([Sn(o, w), None])
    lock.on_acquire = on
    i0 = lock.invariant

    def rel():
        states[-1][1] = Sn(o, w)
        return i0()
    lock.invariant = rel
    ok(ctx, ctx.catch(o.__delitem__, k))
    a, b = states[0]
    ctx.check('deleted once', And(BoolVal(len(w.deletes) == 1), *[x == k.t for x in w.deletes]))
    ctx.check('exactly that key is removed, in one step', forall(ValC, lambda x: And(
        b.has(x) == And(x != k.t, a.has(x)), Implies(b.has(x), b.at(x) == a.at(x)))))
    ctx.check('others rely on it: changes are known', rely(a, b))
    finish(ctx, o, w, lock)


@contract('ExclusiveWritebackCache.__delitem__ unsupported', ['ExclusiveWritebackCache.__delitem__'])
def deln(ctx):
    o, w, lock = make(ctx, False)
    o.delete_method = None
    a = Sn(o, w)
    out = ctx.catch(o.__delitem__, ctx.obj('key'))
    ctx.check('TypeError', BoolVal(out[0] == 'exc' and isinstance(out[1], TypeError)))
    b = Sn(o, w)
    ctx.check('nothing changes', And(a.c == b.c, a.i == b.i, a.f == b.f, a.fv == b.fv, a.cv == b.cv))
    finish(ctx, o, w, lock)


@contract('ExclusiveWritebackCache.__getitem__', ['ExclusiveWritebackCache.__getitem__'] + OPS,
          reach=['end', 'got', 'missing', 'from storage'])
def getitem(ctx):
    """run alone: the last value written is read; the storage is asked only if the key is not known"""
    o, w, lock = make(ctx, False)
    k = ctx.obj('key')
    a = Sn(o, w)
    ctx.assume(IntC.unwrap(o.operations) < 100)
    out = ctx.catch(o.__getitem__, k)
    if out[0] == 'ok':
        ctx.reach('got')
        ctx.check('the last value written', And(a.has(k.t), ValC.unwrap(out[1]) == a.at(k.t)))
    else:
        ctx.reach('missing')
        ctx.check('KeyError only if there is none', And(BoolVal(isinstance(out[1], KeyError)), Not(a.has(k.t))))
    if w.reads:
        ctx.reach('from storage')
        ctx.check('the storage is asked only about unknown keys', And(BoolVal(len(w.reads) == 1), w.reads[0] == k.t, Not(Select(a.i, k.t))))
    b = Sn(o, w)
    ctx.check('reading does not change what is stored', And(a.f == b.f, a.fv == b.fv))
    ctx.check('failures are remembered only if asked to', Implies(And(BoolVal(not o.store_key_errors), Not(a.has(k.t))),
                                                                 Select(b.i, k.t) == Select(a.i, k.t)))
    finish(ctx, o, w, lock)


@contract('ExclusiveWritebackCache.__getitem__, concurrently', ['ExclusiveWritebackCache.__getitem__'] + OPS)
def getconc(ctx):
    """others may write or delete while the storage is being read: what is remembered stays in agreement with the storage"""
    o, w, lock = make(ctx)
    k = ctx.obj('key')
    out = ctx.catch(o.__getitem__, k)
    seen = ctx.env.seen
    if out[0] == 'ok':
        v = ValC.unwrap(out[1])
        ctx.check('a value the key had during the operation', Or(*[And(a.has(k.t), v == a.at(k.t)) for a in seen]))
    else:
        ctx.check('KeyError only if it was missing during the operation', And(
            BoolVal(isinstance(out[1], KeyError)), Or(*[Not(a.has(k.t)) for a in seen])))
    finish(ctx, o, w, lock)


@contract('ExclusiveWritebackCache._operate', ['ExclusiveWritebackCache._operate'])
def operate(ctx):
    o, w, lock = make(ctx, False)
    a = Sn(o, w)
    ok(ctx, ctx.catch(o._operate))
    b = Sn(o, w)
    ctx.check('cached values and the storage do not change', And(a.c == b.c, a.cv == b.cv, a.f == b.f, a.fv == b.fv))
    ctx.check('keys are only forgotten', forall(ValC, lambda x: Implies(Select(b.i, x), Select(a.i, x))))
    finish(ctx, o, w, lock)
