"""C08: cache dictionaries serve fresh values, refresh stale ones, never serve expired ones; LRU caches stay within size."""
from pyvc.api import *
from satella.coding.structures.dictionaries.cache_dict import CacheDict, LRUCacheDict
from satella.coding.structures.lru import LRU


def ok(ctx, out):
    ctx.check('does not fail', BoolVal(out[0] == 'ok'))
    return out[1]


class GOrder:
    """stand-in for OrderedDict (as documented): keys carry ranks; a new or moved key ranks above all others"""

    def __init__(self, name='order'):
        self.rank = SDict(name, ValC, IntC)

    def top(self):
        ctx = cur()
        r = ctx.fresh('rank', z3.IntSort())
        m = self.rank
        ctx.assume(forall(ValC, lambda x: Implies(m.has(x), m.at(x) < r)))
        return IntC.wrap(r)

    def __contains__(self, k):
        return k in self.rank

    def __len__(self):
        return self.rank.sym_len()

    def __bool__(self):
        return bool(self.rank)

    def __setitem__(self, k, v):
        if k not in self.rank:
            self.rank[k] = self.top()

    def __delitem__(self, k):
        del self.rank[k]

    def move_to_end(self, k, last=True):
        if not last:
            raise Unsupported('move to the front')
        if k not in self.rank:
            raise KeyError(k)
        self.rank[k] = self.top()

    def pop(self, k, *d):
        return self.rank.pop(k, *d)

    def popitem(self, last=True):
        if not self.rank:
            raise KeyError('empty')
        ctx = cur()
        m = self.rank
        w = ctx.fresh('popped', ValC.sort)
        ctx.assume(m.has(w))
        ctx.assume(forall(ValC, lambda x: Implies(m.has(x), m.at(x) <= m.at(w) if last else m.at(w) <= m.at(x))))
        m._del_key(w)
        return ValC.wrap(w), True


class GFuture:
    def __init__(self, out):
        self.out, self.cbs, self.ran = out, [], False

    def result(self, timeout=None):
        if self.out[0] == 'ok':
            return self.out[1]
        raise self.out[1]

    def add_done_callback(self, cb):
        self.cbs.append(cb)
        if cur().choose(2):
            # already finished: the callback is run at once
            self.ran = True
            try:
                cb(self)
            except RuntimeError:
                pass        # a Future logs and ignores what its callbacks raise


class GExecutor:
    def __init__(self, ctx):
        self.ctx, self.futures = ctx, []

    def submit(self, f, *a, **kw):
        try:
            out = ('ok', f(*a, **kw))
        except (KeyError, RuntimeError) as e:
            out = ('exc', e)
        f = GFuture(out)
        self.futures.append(f)
        return f


class Getter:
    """the user's value getter: any value, KeyError, or another error"""

    def __init__(self, ctx):
        self.ctx, self.calls = ctx, []

    def __call__(self, key):
        which = self.ctx.choose(3)
        if which == 0:
            v = self.ctx.obj('fetched')
            self.calls.append((ValC.unwrap(key), 'ok', v))
            return v
        e = KeyError('no such thing') if which == 1 else RuntimeError('failed')
        self.calls.append((ValC.unwrap(key), 'key' if which == 1 else 'other', e))
        raise e


def D_(o):
    d, t, m = get(o, 'data'), get(o, 'timestamp_data'), get(o, 'cache_missed')
    if not (isinstance(d, SDict) and isinstance(t, SDict) and isinstance(m, SSet)):
        raise Unsupported('representation')
    return d, t, m


def order(o):
    return get(get(o, 'lru'), 'od').rank


def inv(o):
    d, t, m = D_(o)
    yield 'a time is known for exactly the entries and the cached failures', forall(ValC, lambda x: t.has(x) == Or(d.has(x), m.has(x)))
    yield 'nothing is both an entry and a failure', forall(ValC, lambda x: Not(And(d.has(x), m.has(x))))
    yield 'failures are remembered only if asked to', Implies(Not(BoolVal(bool(get(o, 'cache_failures')))), forall(ValC, lambda x: Not(m.has(x))))
    if isinstance(o, LRUCacheDict):
        r = order(o)
        yield 'every entry has a place in the order of use', forall(ValC, lambda x: Implies(d.has(x), r.has(x)))
        yield 'places are distinct', forall2(ValC, ValC, lambda x, y: Implies(And(r.has(x), r.has(y), r.at(x) == r.at(y)), x == y))
        yield 'within the size', d.n <= IntC.unwrap(get(o, 'max_size'))


class Clock:
    def __init__(self, ctx):
        self.ctx, self.t = ctx, []

    def __call__(self):
        v = self.ctx.real('now')
        self.t.append(v.t)
        return v


class S:
    pass


def cache(ctx, cls):
    ex = GExecutor(ctx)
    attrs = ['data', 'timestamp_data', 'cache_missed', 'cache_failures', 'cache_failures_interval', 'time_getter', 'stale_interval',
             'expiration_interval', 'default_value_factory', 'value_getter', 'value_getter_executor']
    if cls is CacheDict:
        conforms(CacheDict(1, 2, lambda k: k, ex), *attrs)
    else:
        r = conforms(LRUCacheDict(1, 2, lambda k: k, ex), 'max_size', 'lru', *attrs)
        conforms(r.lru, 'od')
    s = S()
    s.get, s.ex, s.clk = Getter(ctx), ex, Clock(ctx)
    s.stale, s.exp = ctx.real('stale_interval'), ctx.real('expiration_interval')
    ctx.assume(s.stale.t <= s.exp.t)
    cf = ctx.choose(2)
    s.fint = ctx.real('cache_failures_interval') if cf else None
    s.dflt = ctx.obj('default') if ctx.choose(2) else None
    f = dict(data=SDict('data', ValC, ValC), timestamp_data=SDict('times', ValC, RealC), cache_missed=SSet('missed', ValC),
             cache_failures=bool(cf), cache_failures_interval=s.fint, time_getter=s.clk, stale_interval=s.stale,
             expiration_interval=s.exp, default_value_factory=(lambda: s.dflt) if s.dflt is not None else None,
             value_getter=s.get, value_getter_executor=ex)
    if cls is LRUCacheDict:
        s.max = ctx.int('max_size')
        ctx.assume(s.max.t >= 1)
        s.ord = GOrder()
        f.update(max_size=s.max, lru=ctx.new(LRU, 'lru', od=s.ord))
        ctx.roots['rank'] = s.ord.rank
    s.o = ctx.new(cls, 'self', **f)
    ctx.env.o = s.o
    for _, c in inv(s.o):
        ctx.assume(c)
    s.pre = snap(s.o)
    ctx.env.cut_while = True
    if cls is LRUCacheDict:
        ctx.models[LRUCacheDict.make_room] = room_contract
    return s


def snap(o):
    d, t, m = D_(o)
    s = S()
    s.p, s.v, s.t, s.m, s.n = d.s['pres'], d.s['val'], t.s['val'], m.s['pres'], d.n
    s.has = lambda x: Select(s.p, x)
    s.at = lambda x: Select(s.v, x)
    s.ts = lambda x: Select(s.t, x)
    s.missed = lambda x: Select(s.m, x)
    if isinstance(o, LRUCacheDict):
        r = order(o)
        s.rp, s.rv = r.s['pres'], r.s['val']
        s.rank = lambda x: Select(s.rv, x)
        s.ranked = lambda x: Select(s.rp, x)
    return s


def keep(ctx, o):
    for n, c in inv(o):
        ctx.check('invariant: ' + n, c)


def others(ctx, s, k, evict=False):
    """nothing but the key changes (a size-limited cache may drop others, least recently used first, when it is full)"""
    o, a, b = s.o, s.pre, snap(s.o)
    if not evict or isinstance(o, CacheDict) and not isinstance(o, LRUCacheDict):
        ctx.check('other keys are not affected', forall(ValC, lambda x: Implies(x != k, And(
            b.has(x) == a.has(x), b.missed(x) == a.missed(x), Implies(a.has(x), b.at(x) == a.at(x)),
            Implies(Or(a.has(x), a.missed(x)), b.ts(x) == a.ts(x))))))
        return
    ctx.check('other keys do not change', forall(ValC, lambda x: Implies(And(x != k, Or(b.has(x), b.missed(x))), And(
        Implies(b.has(x), And(a.has(x), b.at(x) == a.at(x))), Implies(b.missed(x), a.missed(x)), b.ts(x) == a.ts(x)))))
    ctx.check('entries are dropped only to make room for a new one', Implies(
        Or(a.has(k), a.n < s.max.t), forall(ValC, lambda x: Implies(And(x != k, a.has(x)), b.has(x)))))
    ctx.check('the least recently used are dropped', forall2(ValC, ValC, lambda x, y: Implies(
        And(x != k, y != k, a.has(x), Not(b.has(x)), b.has(y)), a.rank(x) < a.rank(y))))
    ctx.check('only as many as necessary are dropped', Implies(b.has(k), If(
        a.has(k), b.n == a.n, Or(b.n == a.n + 1, b.n == s.max.t))))


def o_():
    return cur().env.o


def Lrank(L):
    return L.pre('rank')


ROOM = [
    ('cache: ' + n, (lambda i: lambda L: list(inv(o_()))[i][1])(i)) for i, n in enumerate(
        ['times', 'disjoint', 'failures', 'placed', 'distinct', 'size'])] + [
    ('nothing new', lambda L: forall(ValC, lambda x: Implies(D_(o_())[0].has(x), And(
        Select(L.pre('self.data')['pres'], x), D_(o_())[0].at(x) == Select(L.pre('self.data')['val'], x))))),
    ('no new failures', lambda L: forall(ValC, lambda x: Implies(D_(o_())[2].has(x), Select(L.pre('self.cache_missed')['pres'], x)))),
    ('times kept', lambda L: forall(ValC, lambda x: Implies(D_(o_())[1].has(x), D_(o_())[1].at(x) == Select(L.pre('self.timestamp_data')['val'], x)))),
    ('ranks kept', lambda L: forall(ValC, lambda x: Implies(order(o_()).has(x), And(
        Select(L.pre('rank')['pres'], x), order(o_()).at(x) == Select(L.pre('rank')['val'], x))))),
    ('dropped are least recent', lambda L: forall2(ValC, ValC, lambda x, y: Implies(
        And(Select(L.pre('rank')['pres'], x), Not(order(o_()).has(x)), order(o_()).has(y)),
        Select(L.pre('rank')['val'], x) < Select(L.pre('rank')['val'], y)))),
    ('dropped entries left the order', lambda L: forall(ValC, lambda x: Implies(
        And(Select(L.pre('self.data')['pres'], x), Not(D_(o_())[0].has(x))), And(Select(L.pre('rank')['pres'], x), Not(order(o_()).has(x)))))),
    ('not more than necessary', lambda L: Or(D_(o_())[0].n >= IntC.unwrap(get(o_(), 'max_size')) - 1,
                                             And(D_(o_())[0].n == L.pre('self.data')['n'],
                                                 D_(o_())[0].s['pres'] == L.pre('self.data')['pres']))),
    ('at least one less than the size', lambda L: D_(o_())[0].n >= If(
        L.pre('self.data')['n'] < IntC.unwrap(get(o_(), 'max_size')) - 1, L.pre('self.data')['n'], IntC.unwrap(get(o_(), 'max_size')) - 1)),
    ('dropped only if full', lambda L: Implies(L.pre('self.data')['n'] < IntC.unwrap(get(o_(), 'max_size')), And(
        D_(o_())[0].n == L.pre('self.data')['n'], D_(o_())[0].s['pres'] == L.pre('self.data')['pres']))),
]


def room(o, a):
    """the contract of make_room, a: the state before"""
    b = snap(o)
    mx = IntC.unwrap(get(o, 'max_size'))
    for x in inv(o):
        yield x
    yield 'there is room', b.n <= mx - 1
    yield 'nothing new', forall(ValC, lambda x: Implies(b.has(x), And(a.has(x), b.at(x) == a.at(x))))
    yield 'no new failures', forall(ValC, lambda x: Implies(b.missed(x), a.missed(x)))
    yield 'times kept', forall(ValC, lambda x: Implies(Or(b.has(x), b.missed(x)), b.ts(x) == a.ts(x)))
    yield 'ranks kept', forall(ValC, lambda x: Implies(b.ranked(x), And(a.ranked(x), b.rank(x) == a.rank(x))))
    yield 'the least recently used are dropped', forall2(ValC, ValC, lambda x, y: Implies(
        And(a.ranked(x), Not(b.ranked(x)), b.ranked(y)), a.rank(x) < a.rank(y)))
    yield 'dropped entries left the order', forall(ValC, lambda x: Implies(And(a.has(x), Not(b.has(x))), And(a.ranked(x), Not(b.ranked(x)))))
    yield 'only as many as necessary are dropped', b.n == If(a.n < mx - 1, a.n, mx - 1)
    yield 'dropped only if full', Implies(a.n < mx, forall(ValC, lambda x: Implies(a.has(x), b.has(x))))


def room_contract(self):
    a = snap(self)
    for n, c in inv(self):
        cur().check('make_room requires: ' + n, c)
    for c in D_(self) + (order(self),):
        c.havoc('room.' + c.name)
    for _, c in room(self, a):
        cur().assume(c)


@contract('LRUCacheDict.make_room', ['LRUCacheDict.make_room', 'LRUCacheDict.evict', 'LRUCacheDict.invalidate', 'LRUCacheDict.__delitem__',
                                     'LRU.get_item_to_evict', 'LRU.remove'], invs=ROOM, timeout=20000)
def make_room(ctx):
    s = cache(ctx, LRUCacheDict)
    ctx.models.pop(LRUCacheDict.make_room, None)
    ok(ctx, ctx.catch(s.o.make_room))
    for n, c in room(s.o, s.pre):
        ctx.check(n, c)


def stored(ctx, s, k, v, t, what):
    b = snap(s.o)
    ctx.check(what, And(b.has(k), Not(b.missed(k)), b.at(k) == v, b.ts(k) == t))


def recent(ctx, s, k):
    if isinstance(s.o, LRUCacheDict):
        r = order(s.o)
        ctx.check('now the most recently used', forall(ValC, lambda x: Implies(And(r.has(x), x != k), r.at(x) < r.at(k))))


for cls in (CacheDict, LRUCacheDict):
    def mk(cls):
        N = cls.__name__
        L = ['LRU.mark_as_used', 'LRU.add', 'LRU.remove', 'LRU.get_item_to_evict', N + '.make_room'] if cls is LRUCacheDict else []

        @contract(N + '.__getitem__', [N + '.__getitem__', N + '.get_value_block', 'CacheDict._on_cache_hit', 'CacheDict._on_cache_hit_empty',
                                       'CacheDict.schedule_a_fetch', 'CacheDict._on_failure', N + '.invalidate'] + L, invs=ROOM,
                  reach=['end', 'fetched', 'fresh', 'stale', 'cached failure', 'failed', 'defaulted', 'error'], timeout=20000)
        def getitem(ctx):
            s = cache(ctx, cls)
            o, a = s.o, s.pre
            k = ctx.obj('key')
            out = ctx.catch(o.__getitem__, k)
            k = k.t
            calls, clk = s.get.calls, s.clk.t
            bg = [f for f in s.ex.futures if f.cbs]
            ctx.check('the value is asked for at most once, for that key', And(BoolVal(len(calls) <= 1), *[c[0] == k for c in calls]))
            if calls and not bg:
                # blocking fetch
                if clk:
                    now = clk[0]
                    ctx.check('blocks only if there is nothing to serve', Or(
                        And(Not(a.has(k)), Not(a.missed(k))), And(a.has(k), now - a.ts(k) > s.exp.t),
                        And(a.missed(k), now - a.ts(k) > s.fint.t) if s.fint is not None else BoolVal(False)))
                else:
                    ctx.check('blocks only if there is nothing to serve', And(Not(a.has(k)), Not(a.missed(k))))
                kind = calls[0][1]
                if kind == 'ok':
                    ctx.reach('fetched')
                    ctx.check('the fetched value is served', BoolVal(out[0] == 'ok' and out[1] is calls[0][2]))
                    stored(ctx, s, k, calls[0][2].t, clk[-1], 'and remembered, from now on')
                    others(ctx, s, k, True)
                    recent(ctx, s, k)
                elif kind == 'key':
                    b = snap(o)
                    if s.dflt is not None:
                        ctx.reach('defaulted')
                        ctx.check('the default is served', BoolVal(out[0] == 'ok' and out[1] is s.dflt))
                    else:
                        ctx.reach('failed')
                        ctx.check('KeyError', BoolVal(out[0] == 'exc' and isinstance(out[1], KeyError)))
                    ctx.check('the entry is gone', Not(b.has(k)))
                    ctx.check('the failure is remembered, from now on, exactly if asked to', And(b.missed(k), b.ts(k) == clk[-1])
                              if s.fint is not None else Not(b.missed(k)))
                    others(ctx, s, k)
                else:
                    ctx.reach('error')
                    ctx.check('other errors reach the caller', BoolVal(out[0] == 'exc' and out[1] is calls[0][2]))
                    b = snap(o)
                    ctx.check('nothing changes', And(b.p == a.p, b.v == a.v, b.m == a.m, b.t == a.t))
            else:
                ctx.check('the clock is asked', BoolVal(len(clk) > 0))
                now = clk[0] if clk else z3.RealVal(0)
                if bg:
                    ctx.reach('stale')
                    ctx.check('refreshed in the background only if stale', And(a.has(k), now - a.ts(k) > s.stale.t))
                if out[0] == 'ok' and out[1] is not s.dflt:
                    ctx.reach('fresh')
                    ctx.check('an expired value is never served', And(a.has(k), now - a.ts(k) <= s.exp.t))
                    ran = bool(bg) and bg[0].ran
                    ctx.check('the value stored', Or(ValC.unwrap(out[1]) == a.at(k),
                                                     BoolVal(ran and calls[0][1] == 'ok' and out[1] is calls[0][2])))
                    if not bg:
                        ctx.check('a stale value is refreshed', now - a.ts(k) <= s.stale.t)
                else:
                    ctx.reach('cached failure')
                    ctx.check('a failure is repeated only while it is cached', And(a.missed(k), now - a.ts(k) <= s.fint.t)
                              if s.fint is not None else BoolVal(False))
                    ctx.check('the default, or KeyError', BoolVal(out[1] is s.dflt if s.dflt is not None else isinstance(out[1], KeyError)))
                b = snap(o)
                if bg and bg[0].ran:
                    others(ctx, s, k)
                else:
                    ctx.check('reading changes nothing', And(b.p == a.p, b.v == a.v, b.m == a.m, b.t == a.t))
                    if out[0] == 'ok':
                        recent(ctx, s, k)
            keep(ctx, o)

        @contract(N + '.schedule_a_fetch', [N + '.schedule_a_fetch', N + '.__setitem__', 'CacheDict._on_failure'] + L, invs=ROOM,
                  reach=['end', 'refreshed', 'failed', 'error'], timeout=20000)
        def fetch(ctx):
            s = cache(ctx, cls)
            o = s.o
            k = ctx.obj('key')
            # the refresh is requested in some state, and finishes in another
            f = ok(ctx, ctx.catch(o.schedule_a_fetch, k))
            ctx.check('a task was queued for that key', BoolVal(f in s.ex.futures and len(s.ex.futures) == 1 and len(s.get.calls) == 1))
            ctx.check('for that key', s.get.calls[0][0] == k.t)
            b = snap(o)
            if f.ran:
                return
            ctx.check('nothing changes yet', And(b.p == s.pre.p, b.v == s.pre.v, b.m == s.pre.m, b.t == s.pre.t))
            ctx.check('to be told when done', BoolVal(len(f.cbs) == 1))
            out = ctx.catch(f.cbs[0], f)
            kind, v = s.get.calls[0][1:]
            b = snap(o)
            if kind == 'ok':
                ctx.reach('refreshed')
                ok(ctx, out)
                stored(ctx, s, k.t, v.t, s.clk.t[-1], 'the value is replaced, from now on')
                others(ctx, s, k.t, True)
            elif kind == 'key':
                ctx.reach('failed')
                ok(ctx, out)
                ctx.check('the entry is gone', Not(b.has(k.t)))
                ctx.check('the failure is remembered exactly if asked to', b.missed(k.t) == BoolVal(s.fint is not None))
                others(ctx, s, k.t)
            else:
                ctx.reach('error')
                ctx.check('nothing changes', And(b.p == s.pre.p, b.v == s.pre.v, b.m == s.pre.m, b.t == s.pre.t))
            keep(ctx, o)

        @contract(N + '.__setitem__', [N + '.__setitem__', N + '.feed'] + L, invs=ROOM, reach=['end', 'set', 'feed', 'feed at'], timeout=20000)
        def setitem(ctx):
            s = cache(ctx, cls)
            k, v = ctx.obj('key'), ctx.obj('value')
            which = ctx.choose(3)
            ctx.reach(['set', 'feed', 'feed at'][which])
            t = ctx.real('timestamp')
            if which == 0:
                ok(ctx, ctx.catch(s.o.__setitem__, k, v))
            elif which == 1:
                ok(ctx, ctx.catch(s.o.feed, k, v))
            else:
                ok(ctx, ctx.catch(s.o.feed, k, v, t))
            stored(ctx, s, k.t, v.t, t.t if which == 2 else s.clk.t[-1], 'stored with the time given, or now')
            others(ctx, s, k.t, True)
            keep(ctx, s.o)

        @contract(N + '.__delitem__', [N + '.__delitem__', N + '.invalidate'], reach=['end', 'deleted', 'missing', 'invalidated'])
        def delitem(ctx):
            s = cache(ctx, cls)
            k = ctx.obj('key')
            if ctx.choose(2):
                out = ctx.catch(s.o.__delitem__, k)
                if out[0] == 'ok':
                    ctx.reach('deleted')
                else:
                    ctx.reach('missing')
                    ctx.check('KeyError only if nothing is known', And(BoolVal(isinstance(out[1], KeyError)), Not(s.pre.has(k.t))))
            else:
                ctx.reach('invalidated')
                ok(ctx, ctx.catch(s.o.invalidate, k))
            b = snap(s.o)
            ctx.check('nothing is known about the key afterwards', And(Not(b.has(k.t)), Not(b.missed(k.t))))
            others(ctx, s, k.t)
            keep(ctx, s.o)

        @contract(N + '.has_info_about', ['CacheDict.has_info_about', 'CacheDict.__len__'])
        def info(ctx):
            s = cache(ctx, cls)
            k = ctx.obj('key')
            r = bool_term(ok(ctx, ctx.catch(s.o.has_info_about, k)))
            a = s.pre
            now = s.clk.t[-1] if s.clk.t else z3.RealVal(0)
            if s.clk.t:
                ctx.check('exactly while a value or a failure can be served', r == Or(
                    And(a.has(k.t), now - a.ts(k.t) <= s.exp.t),
                    And(a.missed(k.t), now - a.ts(k.t) <= s.fint.t) if s.fint is not None else BoolVal(False)))
            else:
                ctx.check('nothing is known', And(Not(r), Not(a.has(k.t)), Not(a.missed(k.t))))
            b = snap(s.o)
            ctx.check('asking changes nothing', And(b.p == a.p, b.v == a.v, b.m == a.m, b.t == a.t, BoolVal(not s.get.calls)))
            ctx.check('length', IntC.unwrap(ok(ctx, ctx.catch(s.o.__len__))) == a.n)
    mk(cls)


@contract('LRU', ['LRU.add', 'LRU.remove', 'LRU.mark_as_used', 'LRU.get_item_to_evict', 'LRU.__contains__', 'LRU.__len__'],
          reach=['end', 'add', 'remove', 'use', 'evict', 'empty', 'in'])
def lru(ctx):
    conforms(LRU(), 'od')
    g = GOrder()
    o = ctx.new(LRU, 'self', od=g)
    m = g.rank
    ctx.assume(forall2(ValC, ValC, lambda x, y: Implies(And(m.has(x), m.has(y), m.at(x) == m.at(y)), x == y)))
    m.len_facts()
    p, v, n = m.s['pres'], m.s['val'], m.n
    k = ctx.obj('item')
    which = ctx.choose(5)

    def rest(name='the order of the others is kept'):
        ctx.check(name, forall(ValC, lambda x: Implies(x != k.t, And(m.has(x) == Select(p, x), Implies(m.has(x), m.at(x) == Select(v, x))))))
    if which == 0:
        ctx.reach('add')
        ok(ctx, ctx.catch(o.add, k))
        ctx.check('tracked', m.has(k.t))
        rest()
    elif which == 1:
        out = ctx.catch(o.remove, k)
        if out[0] == 'ok':
            ctx.reach('remove')
            ctx.check('not tracked', And(Select(p, k.t), Not(m.has(k.t))))
        else:
            ctx.check('KeyError only if not tracked', And(BoolVal(isinstance(out[1], KeyError)), Not(Select(p, k.t))))
        rest()
    elif which == 2:
        ctx.reach('use')
        ok(ctx, ctx.catch(o.mark_as_used, k))
        ctx.check('the most recently used', And(m.has(k.t), forall(ValC, lambda x: Implies(And(m.has(x), x != k.t), m.at(x) < m.at(k.t)))))
        rest()
    elif which == 3:
        out = ctx.catch(o.get_item_to_evict)
        if out[0] == 'ok':
            ctx.reach('evict')
            k = out[1]
            ctx.check('the least recently used', And(Select(p, k.t), forall(ValC, lambda x: Implies(Select(p, x), Select(v, k.t) <= Select(v, x)))))
            ctx.check('no longer tracked', Not(m.has(k.t)))
            rest()
        else:
            ctx.reach('empty')
            ctx.check('KeyError only if empty', And(BoolVal(isinstance(out[1], KeyError)), forall(ValC, lambda x: Not(Select(p, x)))))
    else:
        ctx.reach('in')
        ctx.check('membership', bool_term(ok(ctx, ctx.catch(o.__contains__, k))) == Select(p, k.t))
        ctx.check('length', IntC.unwrap(ok(ctx, ctx.catch(o.__len__))) == n)
