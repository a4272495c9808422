from concurrent.futures import Future

from base import case, main
import coop
from satella.coding.structures import CacheDict, LRUCacheDict, LRU


class Exec:
    """runs blocking fetches at once; background ones when told to"""

    def __init__(self):
        self.pending = []
        self.eager = False
        self.done = []
        self.n = 0

    def submit(self, f, *a):
        fut = Future()
        self.n += 1
        try:
            v = f(*a)
            fut.pv = ('ok', v)
        except BaseException as e:
            fut.pv = ('exc', e)
        orig = fut.add_done_callback

        def adc(cb):
            orig(cb)
            if self.eager:
                self.finish(fut)
                self.done.append((fut, a[0]))
            else:
                self.pending.append((fut, a[0]))
        fut.add_done_callback = adc
        res = fut.result

        def result(timeout=None):
            if not fut.done():
                self.finish(fut)
            return res(timeout)
        fut.result = result
        return fut

    def finish(self, fut):
        if fut.pv[0] == 'ok':
            fut.set_result(fut.pv[1])
        else:
            fut.set_exception(fut.pv[1])


def gen(rng, size):
    for _ in range(2500 * size):
        ops = [[rng.choice(['get', 'get', 'get', 'set', 'feed', 'feedat', 'del', 'inv', 'info', 'finish', 'break', 'mend', 'len']),
                rng.randint(0, 4), rng.choice([0, 0, 0, 1, 2, 3, 5])] for _ in range(rng.randint(1, 18))]
        st = rng.choice([1, 2])
        yield {'stale': st, 'exp': st + rng.choice([0, 1, 2]), 'fail': rng.choice([None, 0, 1, 4]), 'dflt': rng.random() < .4,
               'max': rng.choice([None, 1, 2, 3]), 'eager': rng.random() < .3, 'ops': ops}


def attempt(f, *a):
    try:
        return 'ok', f(*a)
    except Exception as e:
        return 'exc', type(e)


@case('cache histories', gen, 'up to 18 operations on 5 keys, controlled clock and background tasks')
def run(inp):
    now = [0.0]
    ver = [0]
    broken = set()

    def getter(k):
        if k in broken:
            raise KeyError(k)
        ver[0] += 1
        return (k, ver[0])
    ex = Exec()
    ex.eager = inp['eager']
    kw = dict(value_getter_executor=ex, cache_failures_interval=inp['fail'], time_getter=lambda: now[0],
              default_value_factory=(lambda: 'dflt') if inp['dflt'] else None)
    mx = inp['max']
    c = CacheDict(inp['stale'], inp['exp'], getter, **kw) if mx is None else LRUCacheDict(inp['stale'], inp['exp'], getter, max_size=mx, **kw)
    data, missed, use = {}, {}, []      # key -> (value, time); key -> time; order of use

    def touch(k):
        if k in use:
            use.remove(k)
        use.append(k)

    def forget(k):
        data.pop(k, None)
        missed.pop(k, None)
        if k in use:
            use.remove(k)

    def store(k, v, t, touching=True):
        if mx is not None and k not in data and len(data) >= mx:
            victim = next(x for x in use if x in data)
            forget(victim)
        data[k] = (v, t)
        missed.pop(k, None)
        if touching or k not in use:
            touch(k)

    def fetch(k):
        if k in broken:
            forget(k)
            if inp['fail'] is not None:
                missed[k] = now[0]
            return ('ok', 'dflt') if inp['dflt'] else ('exc', KeyError)
        v = (k, ver[0])
        store(k, v, now[0])
        return 'ok', v

    def background(fut, kk):
        if fut.pv[0] == 'ok':
            store(kk, fut.pv[1], now[0])
        else:
            forget(kk)
            if inp['fail'] is not None:
                missed[kk] = now[0]

    for op, k, dt in inp['ops']:
        now[0] += dt
        if op == 'get':
            n, np = ex.n, len(ex.pending)
            r = attempt(c.__getitem__, k)
            block = stale = False
            touch(k)
            if k in data:
                age = now[0] - data[k][1]
                block, stale = age > inp['exp'], age > inp['stale']
                if not block:
                    exp = ('ok', data[k][0])
            elif k in missed:
                block = now[0] - missed[k] > inp['fail']
                exp = ('ok', 'dflt') if inp['dflt'] else ('exc', KeyError)
            else:
                block = True
            if block:
                exp = fetch(k)
            for fut, kk in ex.done:
                background(fut, kk)
            ex.done.clear()
            assert r == exp, 'reading %r gives %r, expected %r' % (k, r, exp)
            want = 1 if block or stale else 0
            assert ex.n - n == want, '%d fetches, expected %d' % (ex.n - n, want)
        elif op == 'set':
            ver[0] += 1
            c[k] = (k, ver[0])
            store(k, (k, ver[0]), now[0])
        elif op in ('feed', 'feedat'):
            ver[0] += 1
            if op == 'feed':
                c.feed(k, (k, ver[0]))
            else:
                c.feed(k, (k, ver[0]), 0)
            store(k, (k, ver[0]), now[0] if op == 'feed' else 0, False)
        elif op == 'del':
            r = attempt(c.__delitem__, k)
            if k in data:
                assert r[0] == 'ok', r
            elif k not in missed:
                assert r == ('exc', KeyError), r
            if r[0] == 'ok':
                forget(k)
        elif op == 'inv':
            c.invalidate(k)
            forget(k)
        elif op == 'info':
            exp = (k in data and now[0] - data[k][1] <= inp['exp']) or (k in missed and now[0] - missed[k] <= inp['fail'])
            assert c.has_info_about(k) == exp, 'has_info_about(%r) is %r' % (k, not exp)
        elif op == 'finish':
            if ex.pending:
                fut, kk = ex.pending.pop(0)
                if not fut.done():
                    ex.finish(fut)
                    background(fut, kk)
        elif op == 'break':
            broken.add(k)
        elif op == 'mend':
            broken.discard(k)
        if mx is not None:
            for x in list(missed):      # a size-limited cache may drop a cached failure to make room
                if not c.has_info_about(x):
                    missed.pop(x)
        assert len(c) == len(data), 'holds %d entries, expected %d' % (len(c), len(data))
        assert mx is None or len(c) <= mx
        assert set(c) == set(data), 'holds %r, expected %r' % (set(c), set(data))
    if mx is not None:
        assert len(c.lru) <= len(data) + len(missed) + 5


def gen_l(rng, size):
    for _ in range(500 * size):
        yield {'ops': [[rng.choice(['add', 'use', 'use', 'remove', 'evict', 'in']), rng.randint(0, 4)] for _ in range(rng.randint(1, 15))]}


@case('LRU histories', gen_l, 'up to 15 operations on 5 items', 0.3)
def lru(inp):
    o, m = LRU(), []
    for op, k in inp['ops']:
        if op == 'add':
            o.add(k)
            if k not in m:
                m.append(k)
        elif op == 'use':
            o.mark_as_used(k)
            if k in m:
                m.remove(k)
            m.append(k)
        elif op == 'remove':
            r = attempt(o.remove, k)
            assert r == (('ok', None) if k in m else ('exc', KeyError)), r
            if k in m:
                m.remove(k)
        elif op == 'evict':
            r = attempt(o.get_item_to_evict)
            assert r == (('ok', m.pop(0)) if m else ('exc', KeyError)), r
        assert len(o) == len(m) and all((x in o) == (x in m) for x in range(5))


main('C08')
