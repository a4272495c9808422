"""C07: expiring dictionaries serve exactly the entries that have not expired; self-cleaning ones hold no default values."""
from pyvc.api import *
from satella.coding.structures.dictionaries.expiring import ExpiringEntryDict, SelfCleaningDefaultDict
from satella.coding.structures.heaps import TimeBasedSetHeap


def ok(ctx, out):
    ctx.check('does not fail', BoolVal(out[0] == 'ok'))
    return out[1]


# ---- contract of TimeBasedSetHeap, as verified under C04, in terms of its lookup map ---------------------------------
class Opaque(Sym):
    def __init__(self, what):
        object.__setattr__(self, 'what', what)

    def __getattribute__(self, item):
        if item in ('__class__', '__dict__'):
            return object.__getattribute__(self, item)
        raise Unsupported('use of ' + object.__getattribute__(self, 'what'))


def m_of(h):
    m = object.__getattribute__(h, 'item_to_timestamp')
    if not isinstance(m, SDict):
        raise Unsupported('representation')
    return m


def h_push(self, item):
    ts, x = item
    m_of(self)[x] = ts


def h_put(self, a, value=None):
    if value is None:
        raise Unsupported('put with the clock of the heap')
    if isinstance(value, Sym) and value is not None:
        # put(timestamp, None) means something else: the item must be shown not to be None
        if cur().fork(ValC.unwrap(value) == ValC.unwrap(None)):
            raise Unsupported('put of None')
    m_of(self)[value] = a


def h_pop_item(self, item):
    m = m_of(self)
    if item not in m:
        raise ValueError('Element not found!')
    t = m[item]
    del m[item]
    return t, item


def h_get(self, item):
    m = m_of(self)
    if item not in m:
        raise ValueError('not found')
    return m[item]


def h_plt(self, less=None):
    """the generator is consumed to its end by every caller under contract; it is modelled as taking the entries at once"""
    ctx = cur()
    m = m_of(self)
    if less is None:
        raise Unsupported('pop_less_than with the clock of the heap')
    lim = RealC.unwrap(less)
    m.acc(True)
    due = SDict(ctx.fresh_name('due'), ValC, RealC)
    pres, val, n = m.s['pres'], m.s['val'], m.n
    x = z3.Const('x!due', ValC.sort)
    due.set(val=val)
    ctx.assume(z3.ForAll([x], due.has(x) == And(Select(pres, x), Select(val, x) < lim)))
    rest = ctx.fresh('rest.pres', pres.sort())
    ctx.assume(z3.ForAll([x], Select(rest, x) == And(Select(pres, x), Not(Select(val, x) < lim))))
    ctx.assume(due.n <= n)
    due.len_facts()
    arr, k, idx = due.enum()
    m.set(pres=rest, n=n - due.n)
    ctx.env.due = due
    v = View(k, lambda i: (RealC.wrap(Select(val, Select(arr, i))), ValC.wrap(Select(arr, i))), due)
    v.idx = idx
    return v


def h_pop(self):
    raise Unsupported('pop')


def heap_models(ctx):
    T = TimeBasedSetHeap
    for meth, f in dict(push=h_push, put=h_put, pop_item=h_pop_item, get_timestamp=h_get, pop_less_than=h_plt, pop=h_pop).items():
        ctx.models[getattr(T, meth)] = f


# ---- ExpiringEntryDict ---------------------------------------------------------------------------------------------
def einv(o):
    d, m = get(o, 'data'), m_of(get(o, 'key_to_expiration_time'))
    yield 'every entry has a time of expiry, and the other way round', forall(ValC, lambda x: d.has(x) == m.has(x))
    yield 'as many entries as times', d.n == m.n


class Clock:
    def __init__(self, ctx):
        self.ctx, self.t = ctx, []

    def __call__(self):
        v = self.ctx.real('now')
        if self.t:
            self.ctx.assume(v.t >= self.t[-1])
        self.t.append(v.t)
        return v


def eed(ctx, guard=True):
    from satella.coding.concurrent.monitor import Monitor
    real = ExpiringEntryDict(5)
    conforms(real, 'data', 'expire_on', 'time_getter', 'expiration_timeout', 'key_to_expiration_time')
    heap_models(ctx)
    exp = SDict('expiry', ValC, RealC)
    h = ctx.new(TimeBasedSetHeap, 'heap', item_to_timestamp=exp, data=Opaque('the raw heap'), default_clock_source=None)
    clk, tmo = Clock(ctx), ctx.real('timeout')
    data = SDict('data', ValC, ValC)
    consts = dict(key_to_expiration_time=h, time_getter=clk, expiration_timeout=tmo, expire_on={})
    if guard:
        o, lock = monitored(ctx, ExpiringEntryDict, dict(data=data, pv_exp=exp), {}, einv,
                            reentrant=is_rlock(real._monitor_lock), consts=consts)
    else:
        lock = GLock(ctx, 'self.lock', is_rlock(real._monitor_lock))
        o = ctx.new(ExpiringEntryDict, 'self', data=data, _monitor_lock=lock, **consts)
        for _, c in einv(o):
            ctx.assume(c)
    return o, lock, clk, tmo


class St:
    def __init__(self, s, e):
        self.p, self.v, self.e = s['pres'], s['val'], e['val']
        self.n = s['n']

    def has(self, x):
        return Select(self.p, x)

    def at(self, x):
        return Select(self.v, x)

    def ts(self, x):
        return Select(self.e, x)


def section(ctx, lock):
    ctx.check('the lock is free on return', BoolVal(lock.depth == 0))
    ctx.check('one critical section', BoolVal(len(lock.sections) == 1))
    a, b = lock.sections[0]
    return St(a['data'], a['pv_exp']), St(b['data'], b['pv_exp'])


def is_state(ctx, name, post, has, at, ts):
    ctx.check(name, forall(ValC, lambda x: And(post.has(x) == has(x), Implies(has(x), And(post.at(x) == at(x), post.ts(x) == ts(x))))))


def same(ctx, pre, post):
    is_state(ctx, 'nothing changes', post, pre.has, pre.at, pre.ts)


ONLY = 'only expired entries are dropped'


def pruned(ctx, pre, post, now):
    ctx.check(ONLY, forall(ValC, lambda x: And(
        Implies(post.has(x), And(pre.has(x), post.at(x) == pre.at(x), post.ts(x) == pre.ts(x))),
        Implies(And(pre.has(x), pre.ts(x) >= now), post.has(x)))))


def asked(ctx, clk):
    ctx.check('the clock of the dictionary is asked', BoolVal(len(clk.t) >= 1))
    return clk.t[-1] if clk.t else z3.RealVal(0)


@contract('ExpiringEntryDict.__getitem__', ['ExpiringEntryDict.__getitem__', 'Monitor.synchronized'],
          reach=['end', 'got', 'missing'])
def eget(ctx):
    o, lock, clk, tmo = eed(ctx)
    k = ctx.obj('key')
    out = ctx.catch(o.__getitem__, k)
    pre, post = section(ctx, lock)
    if out[0] == 'ok':
        now = asked(ctx, clk)
        ctx.reach('got')
        ctx.check('served only if held and not expired', And(pre.has(k.t), pre.ts(k.t) >= now))
        ctx.check('the value stored', ValC.unwrap(out[1]) == pre.at(k.t))
        same(ctx, pre, post)
    else:
        ctx.reach('missing')
        ctx.check('KeyError', BoolVal(isinstance(out[1], KeyError)))
        if clk.t:
            now = clk.t[-1]
            ctx.check('refused only if missing or expired', Or(Not(pre.has(k.t)), pre.ts(k.t) < now))
            pruned(ctx, pre, post, now)
        else:
            ctx.check('refused only if missing', Not(pre.has(k.t)))
            same(ctx, pre, post)


@contract('ExpiringEntryDict.__contains__', ['ExpiringEntryDict.__contains__', 'ExpiringEntryDict.__getitem__'],
          reach=['end', 'yes', 'no'])
def ehas(ctx):
    o, lock, clk, tmo = eed(ctx)
    k = ctx.obj('key')
    r = ok(ctx, ctx.catch(o.__contains__, k))
    r = bool(r)
    ctx.reach('yes' if r else 'no')
    pre, post = section(ctx, lock)
    if clk.t:
        now = clk.t[-1]
        ctx.check('held exactly if stored and not expired', BoolVal(r) == And(pre.has(k.t), pre.ts(k.t) >= now))
        pruned(ctx, pre, post, now)
    else:
        ctx.check('without asking the clock, only missing keys can be told', And(BoolVal(not r), Not(pre.has(k.t))))
        same(ctx, pre, post)


@contract('ExpiringEntryDict.__setitem__', ['ExpiringEntryDict.__setitem__'])
def eset(ctx):
    o, lock, clk, tmo = eed(ctx)
    k, v = ctx.obj('key'), ctx.obj('value')
    ok(ctx, ctx.catch(o.__setitem__, k, v))
    pre, post = section(ctx, lock)
    now = asked(ctx, clk)
    is_state(ctx, 'stored with the full life time, nothing else changes', post, lambda x: Or(x == k.t, pre.has(x)),
             lambda x: If(x == k.t, v.t, pre.at(x)), lambda x: If(x == k.t, now + tmo.t, pre.ts(x)))


@contract('ExpiringEntryDict.__delitem__', ['ExpiringEntryDict.__delitem__'], reach=['end', 'deleted', 'missing'])
def edel(ctx):
    o, lock, clk, tmo = eed(ctx)
    k = ctx.obj('key')
    out = ctx.catch(o.__delitem__, k)
    pre, post = section(ctx, lock)
    if out[0] == 'ok':
        ctx.reach('deleted')
        is_state(ctx, 'exactly that entry is removed', post, lambda x: And(x != k.t, pre.has(x)), pre.at, pre.ts)
        ctx.check('it was there', pre.has(k.t))
    else:
        ctx.reach('missing')
        ctx.check('KeyError only if it is missing or expired', And(BoolVal(isinstance(out[1], KeyError)), Or(
            Not(pre.has(k.t)), pre.ts(k.t) < clk.t[-1] if clk.t else BoolVal(False))))
        if clk.t:
            pruned(ctx, pre, post, clk.t[-1])
        else:
            same(ctx, pre, post)


def sdict(o):
    d = get(o, 'data')
    if not isinstance(d, SDict):
        raise Unsupported('representation')
    return d


def me():
    return cur().roots['self']


CLEAN = [
    ('removed so far', lambda L: forall(ValC, lambda x: sdict(me()).has(x) == And(
        Select(L.pre('self.data')['pres'], x), Not(And(cur().env.due.has(x), L.view.idx(x) < L.i))))),
    ('removed exactly', lambda L: sdict(me()).n == L.pre('self.data')['n'] - L.i),
    ('values kept', lambda L: sdict(me()).s['val'] == L.pre('self.data')['val']),
]


@contract('ExpiringEntryDict.cleanup', ['ExpiringEntryDict.cleanup'], invs=CLEAN)
def eclean(ctx):
    o, lock, clk, tmo = eed(ctx)
    ok(ctx, ctx.catch(o.cleanup))
    pre, post = section(ctx, lock)
    now = asked(ctx, clk)
    is_state(ctx, 'exactly the expired entries are dropped', post, lambda x: And(pre.has(x), pre.ts(x) >= now), pre.at, pre.ts)


@contract('ExpiringEntryDict iteration', ['ExpiringEntryDict.__iter__', 'ExpiringEntryDict.__len__', 'ExpiringEntryDict.cleanup'],
          reach=['end', 'iter', 'len'], invs=CLEAN)
def eiter(ctx):
    o, lock, clk, tmo = eed(ctx, guard=False)
    d = sdict(o)
    pre = St(dict(d.s), dict(m_of(o.key_to_expiration_time).s))
    if ctx.choose(2):
        ctx.reach('iter')
        it = ok(ctx, ctx.catch(o.__iter__))
        v = it.v if hasattr(it, 'v') else as_view(it)
        if v is None or not hasattr(v, 'idx'):
            raise Unsupported('iterator')
        now = asked(ctx, clk)
        j = z3.Int('j!it')
        ctx.check('every key given is alive', z3.ForAll([j], Implies(And(0 <= j, j < v.n), And(
            pre.has(v.term(j)), pre.ts(v.term(j)) >= now))))
        ctx.check('every live key is given, once', forall(ValC, lambda x: Implies(And(pre.has(x), pre.ts(x) >= now), And(
            0 <= v.idx(x), v.idx(x) < v.n, v.term(v.idx(x)) == x))))
    else:
        ctx.reach('len')
        r = ok(ctx, ctx.catch(o.__len__))
        now = asked(ctx, clk)
        ctx.check('the number of entries held', IntC.unwrap(r) == sdict(o).n)
    post = St(sdict(o).s, m_of(o.key_to_expiration_time).s)
    is_state(ctx, 'exactly the expired entries are dropped', post, lambda x: And(pre.has(x), pre.ts(x) >= now), pre.at, pre.ts)
    ctx.check('the lock is free on return', BoolVal(lock.depth == 0))


# ---- SelfCleaningDefaultDict -----------------------------------------------------------------------------------------
def scd(ctx, guard=True):
    real = SelfCleaningDefaultDict(list, False)
    conforms(real, 'data', 'default_factory', 'default_value', 'background_maintenance')
    dflt = ctx.obj('default')
    made = []

    def factory():
        made.append(1)
        return dflt
    data = SDict('data', ValC, ValC)
    consts = dict(default_factory=factory, default_value=dflt, background_maintenance=bool(ctx.choose(2)))
    if guard:
        o, lock = monitored(ctx, SelfCleaningDefaultDict, dict(data=data), {}, lambda o: [],
                            reentrant=is_rlock(real._monitor_lock), consts=consts)
    else:
        lock = GLock(ctx, 'self.lock', is_rlock(real._monitor_lock))
        o = ctx.new(SelfCleaningDefaultDict, 'self', data=data, _monitor_lock=lock, **consts)
    return o, lock, dflt, made


class SS:
    def __init__(self, s):
        self.p, self.v = s['pres'], s['val']

    def has(self, x):
        return Select(self.p, x)

    def at(self, x):
        return Select(self.v, x)


def ssection(ctx, lock):
    ctx.check('the lock is free on return', BoolVal(lock.depth == 0))
    ctx.check('one critical section', BoolVal(len(lock.sections) == 1))
    a, b = lock.sections[0]
    return SS(a['data']), SS(b['data'])


def live(s, d):
    """what the dictionary is seen to hold: values equal to the default do not count"""
    return lambda x: And(s.has(x), s.at(x) != d.t)


def seen(ctx, name, post, d, has, at):
    lv = live(post, d)
    ctx.check(name, forall(ValC, lambda x: And(lv(x) == has(x), Implies(has(x), post.at(x) == at(x)))))


def nothing_new(ctx, pre, post):
    ctx.check('nothing is inserted', forall(ValC, lambda x: Implies(post.has(x), And(pre.has(x), post.at(x) == pre.at(x)))))


@contract('SelfCleaningDefaultDict.__getitem__', ['SelfCleaningDefaultDict.__getitem__'], reach=['end', 'made', 'held'])
def sget(ctx):
    o, lock, d, made = scd(ctx)
    k = ctx.obj('key')
    r = ok(ctx, ctx.catch(o.__getitem__, k))
    pre, post = ssection(ctx, lock)
    ctx.reach('made' if made else 'held')
    ctx.check('the value held, or the default', ValC.unwrap(r) == If(pre.has(k.t), pre.at(k.t), d.t))
    ctx.check('the factory is asked only for a missing key', And(BoolVal(len(made) <= 1), Implies(BoolVal(len(made) == 1), Not(pre.has(k.t)))))
    seen(ctx, 'what is held does not change', post, d, live(pre, d), pre.at)
    ctx.check('only the key asked for is inserted', forall(ValC, lambda x: Implies(And(post.has(x), Not(pre.has(x))), x == k.t)))
    if get(o, 'background_maintenance'):
        nothing_new(ctx, pre, post)
    else:
        ctx.check('a created default is kept for the caller to fill', Implies(Not(pre.has(k.t)), post.has(k.t)))


@contract('SelfCleaningDefaultDict.__setitem__', ['SelfCleaningDefaultDict.__setitem__'])
def sset(ctx):
    o, lock, d, made = scd(ctx)
    k, v = ctx.obj('key'), ctx.obj('value')
    ok(ctx, ctx.catch(o.__setitem__, k, v))
    pre, post = ssection(ctx, lock)
    old = live(pre, d)
    seen(ctx, 'exactly that key is set, or removed if the value is the default', post, d,
         lambda x: If(x == k.t, v.t != d.t, old(x)), lambda x: If(x == k.t, v.t, pre.at(x)))
    ctx.check('a default value is not stored', Implies(v.t == d.t, Not(post.has(k.t))))


@contract('SelfCleaningDefaultDict.__delitem__', ['SelfCleaningDefaultDict.__delitem__'])
def sdel(ctx):
    o, lock, d, made = scd(ctx)
    k = ctx.obj('key')
    ok(ctx, ctx.catch(o.__delitem__, k))
    pre, post = ssection(ctx, lock)
    ctx.check('exactly that key is removed', forall(ValC, lambda x: And(
        post.has(x) == And(x != k.t, pre.has(x)), Implies(post.has(x), post.at(x) == pre.at(x)))))


@contract('SelfCleaningDefaultDict.__contains__', ['SelfCleaningDefaultDict.__contains__'])
def shas(ctx):
    o, lock, d, made = scd(ctx)
    k = ctx.obj('key')
    r = bool_term(ok(ctx, ctx.catch(o.__contains__, k)))
    pre, post = ssection(ctx, lock)
    ctx.check('held exactly if stored with a value other than the default', r == live(pre, d)(k.t))
    nothing_new(ctx, pre, post)
    seen(ctx, 'what is held does not change', post, d, live(pre, d), pre.at)


SCLEAN = [
    ('removed so far', lambda L: forall(ValC, lambda x: sdict(me()).has(x) == And(
        Select(L.pre('self.data')['pres'], x), Not(And(Select(L.pre('self.data')['val'], x) == get(me(), 'default_value').t, L.view.idx(x) < L.i))))),
    ('values kept', lambda L: sdict(me()).s['val'] == L.pre('self.data')['val']),
]


@contract('SelfCleaningDefaultDict.cleanup', ['SelfCleaningDefaultDict.cleanup'], invs=SCLEAN)
def sclean(ctx):
    o, lock, d, made = scd(ctx)
    ok(ctx, ctx.catch(o.cleanup))
    pre, post = ssection(ctx, lock)
    ctx.check('exactly the default values are removed', forall(ValC, lambda x: And(
        post.has(x) == live(pre, d)(x), Implies(post.has(x), post.at(x) == pre.at(x)))))


@contract('SelfCleaningDefaultDict iteration', ['SelfCleaningDefaultDict.__iter__', 'SelfCleaningDefaultDict.__len__'],
          reach=['end', 'iter', 'len'], invs=SCLEAN)
def siter(ctx):
    o, lock, d, made = scd(ctx, guard=False)
    pre = SS(dict(sdict(o).s))
    lv = live(pre, d)
    if ctx.choose(2):
        ctx.reach('iter')
        it = ok(ctx, ctx.catch(o.__iter__))
        v = it.v if hasattr(it, 'v') else as_view(it)
        if v is None or not hasattr(v, 'idx'):
            raise Unsupported('iterator')
        j = z3.Int('j!it')
        ctx.check('every key given is held', z3.ForAll([j], Implies(And(0 <= j, j < v.n), lv(v.term(j)))))
        ctx.check('every key held is given, once', forall(ValC, lambda x: Implies(lv(x), And(
            0 <= v.idx(x), v.idx(x) < v.n, v.term(v.idx(x)) == x))))
    else:
        ctx.reach('len')
        ctx.check('the number of entries held', IntC.unwrap(ok(ctx, ctx.catch(o.__len__))) == sdict(o).n)
    post = SS(sdict(o).s)
    ctx.check('exactly the default values are removed', forall(ValC, lambda x: And(
        post.has(x) == lv(x), Implies(post.has(x), post.at(x) == pre.at(x)))))
