from base import case, main
import coop
from satella.coding.concurrent import Monitor
from satella.coding.structures import ExpiringEntryDict, SelfCleaningDefaultDict
from satella.coding.structures.dictionaries import expiring

KEYS = ['a', 'b', 'c', 'd']


def attempt(f, *a):
    try:
        return 'ok', f(*a)
    except Exception as e:
        return 'exc', type(e)


def gen(rng, size):
    yield {'timeout': 5, 'init': [], 'ops': [['set', None, 1, 0], ['get', None, 0, 0], ['iter', None, 0, 6], ['in', None, 0, 0]]}
    for _ in range(1500 * size):
        ops = []
        for _ in range(rng.randint(1, 16)):
            ops.append([rng.choice(['set', 'set', 'set', 'get', 'get', 'in', 'del', 'iter', 'len', 'items', 'cleanup', 'pop', 'held', 'getd', 'clear', 'update']),
                        rng.choice(KEYS), rng.randint(0, 3), rng.choice([0, 0, 0, 1, 2, 3, 6])])
        yield {'timeout': rng.choice([0, 1, 3, 5]), 'init': [[rng.choice(KEYS), rng.randint(0, 3)] for _ in range(rng.choice([0, 0, 3]))],
               'ops': ops}


@case('expiring dictionary histories', gen, 'up to 16 operations on 4 keys, controlled clock')
def run(inp):
    now = [100]
    model = {}
    d = ExpiringEntryDict(inp['timeout'], dict(map(tuple, inp['init'])), time_getter=lambda: now[0])
    for k, v in inp['init']:
        model[k] = (v, 100 + inp['timeout'])
    for op, k, v, dt in inp['ops']:
        now[0] += dt
        live = {a: b[0] for a, b in model.items() if b[1] >= now[0]}
        if op == 'set':
            d[k] = v
            model[k] = (v, now[0] + inp['timeout'])
        elif op == 'update':
            d.update({k: v})
            model[k] = (v, now[0] + inp['timeout'])
        elif op in ('get', 'pop'):
            r = attempt(d.__getitem__ if op == 'get' else d.pop, k)
            exp = ('ok', live[k]) if k in live else ('exc', KeyError)
            assert r == exp, '%s %r gives %r, expected %r' % (op, k, r, exp)
            if op == 'pop':
                model.pop(k, None)
        elif op == 'getd':
            assert d.get(k, 'none') == live.get(k, 'none')
        elif op == 'in':
            assert (k in d) == (k in live), '%r in d is %r' % (k, k in d)
        elif op == 'del':
            r = attempt(d.__delitem__, k)
            if k in live:
                assert r[0] == 'ok', r
            elif k not in model:
                assert r == ('exc', KeyError), 'deleting a missing key: %r' % (r,)
            else:
                assert r[0] == 'ok' or r == ('exc', KeyError), r
            model.pop(k, None)
        elif op == 'iter':
            assert sorted(map(str, d)) == sorted(map(str, live)), 'iteration gives %r, expected %r' % (list(d), list(live))
        elif op == 'items':
            assert dict(d.items()) == live
        elif op == 'held':
            with Monitor.acquire(d):
                assert sorted(d) == sorted(live)
                assert (k in d) == (k in live)
        elif op == 'len':
            assert len(d) == len(live), 'length %d, expected %d' % (len(d), len(live))
        elif op == 'clear':
            d.clear()
            model = {}
        else:
            d.cleanup()
            assert set(d.data) == set(live), 'after cleanup %r, expected %r' % (set(d.data), set(live))


def gen_mixed(rng, size):
    yield {'keys': ['a', 1]}


@case('keys that cannot be compared, inserted at the same time', gen_mixed, 'one input', 0.05)
def mixed(inp):
    d = ExpiringEntryDict(5, time_getter=lambda: 0)
    for k in inp['keys']:
        d[k] = k
    assert sorted(map(str, d)) == sorted(map(str, inp['keys']))


def gen_sc(rng, size):
    for _ in range(1500 * size):
        ops = [[rng.choice(['set', 'set', 'get', 'get', 'add', 'in', 'del', 'iter', 'len', 'items', 'cleanup', 'empty', 'held']),
                rng.choice(KEYS), rng.randint(0, 3)] for _ in range(rng.randint(1, 16))]
        yield {'bg': rng.random() < .5, 'init': [[rng.choice(KEYS), rng.randint(0, 1)] for _ in range(rng.choice([0, 0, 3]))], 'ops': ops}


class NoThread:
    def add_dict(self, d):
        pass


@case('self-cleaning dictionary histories', gen_sc, 'up to 16 operations on 4 keys')
def scd(inp):
    old = expiring.ExpiringEntryDictThread
    expiring.ExpiringEntryDictThread = NoThread
    try:
        d = SelfCleaningDefaultDict(list, inp['bg'], {k: [0] * v for k, v in inp['init']})
    finally:
        expiring.ExpiringEntryDictThread = old
    held = {k: [0] * v for k, v in inp['init']}       # may hold empty lists: these do not count
    for op, k, v in inp['ops']:
        live = {a: b for a, b in held.items() if b}
        if op == 'set':
            d[k] = [v] * v
            held.pop(k, None)
            if v:
                held[k] = [v] * v
        elif op == 'get':
            r = d[k]
            assert r == live.get(k, []), 'reading %r gives %r, expected %r' % (k, r, live.get(k, []))
        elif op == 'add':
            if k in live:
                d[k].append(9)
                held[k].append(9)
        elif op == 'empty':
            if k in live:
                d[k].clear()
                held[k].clear()
        elif op == 'in':
            before = set(d.data)
            assert (k in d) == (k in live), '%r in d is %r' % (k, k in d)
            assert set(d.data) <= before, 'membership inserts'
        elif op == 'del':
            attempt(d.__delitem__, k)
            held.pop(k, None)
        elif op == 'iter':
            assert sorted(d) == sorted(live), 'iteration gives %r, expected %r' % (list(d), list(live))
        elif op == 'items':
            assert dict(d.items()) == live
        elif op == 'held':
            with Monitor.acquire(d):
                assert sorted(d) == sorted(live)
        elif op == 'len':
            assert len(d) == len(live), 'length %d, expected %d' % (len(d), len(live))
        else:
            d.cleanup()
            assert {a: b for a, b in d.data.items()} == live
    if not inp['bg']:
        e = SelfCleaningDefaultDict(list, False)
        e['x'].append(1)
        assert e['x'] == [1]


def gen_c(rng, size):
    for _ in range(250 * size):
        yield {'seed': rng.randint(0, 10 ** 9), 'p': rng.choice([.02, .1, .3]), 'kind': rng.choice(['exp', 'self']),
               'ops': [[[rng.choice(['get', 'in', 'set', 'cleanup', 'del', 'len', 'tick']), rng.choice(KEYS[:2])]
                        for _ in range(rng.randint(1, 4))] for _ in range(rng.randint(2, 3))]}


@case('expiring dictionaries, concurrent', gen_c, '2-3 threads, up to 4 operations each, random schedules')
def conc(inp):
    now = [0]
    with coop.patched():
        if inp['kind'] == 'exp':
            d = ExpiringEntryDict(1, time_getter=lambda: now[0])
        else:
            old = expiring.ExpiringEntryDictThread
            expiring.ExpiringEntryDictThread = NoThread
            try:
                d = SelfCleaningDefaultDict(list, True)
            finally:
                expiring.ExpiringEntryDictThread = old

    for k in KEYS[:2]:
        d[k] = [1]

    def body(ops):
        def f():
            for op, k in ops:
                if op == 'get':
                    r = attempt(d.__getitem__, k)
                    assert r == ('ok', [1]) or r == (('exc', KeyError) if inp['kind'] == 'exp' else ('ok', [])), r
                elif op == 'in':
                    k in d
                elif op == 'set':
                    d[k] = [1]
                elif op == 'cleanup':
                    d.cleanup()
                elif op == 'len':
                    assert 0 <= len(d) <= 2
                elif op == 'tick':
                    now[0] += 2
                else:
                    r = attempt(d.__delitem__, k)
                    assert r[0] == 'ok' or r[1] is KeyError, r
        return f

    for r, e in coop.schedule(inp['seed'], [body(o) for o in inp['ops']], inp['p']):
        if e is not None:
            raise e
    seen = set(d)
    assert seen == set(d.data), 'entries without a time of expiry'
    if inp['kind'] == 'exp':
        assert set(d.key_to_expiration_time.item_to_timestamp) == set(d.data)
    now[0] += 5
    if inp['kind'] == 'exp':
        assert list(d) == []


def gen_t(rng, size):
    for _ in range(30 * size):
        yield {'n': rng.randint(1, 6), 'drop': [rng.random() < .4 for _ in range(6)], 'rounds': rng.randint(1, 3)}


@case('background maintenance', gen_t, 'up to 6 dictionaries, some garbage collected')
def bg(inp):
    t = expiring.ExpiringEntryDictThread()
    saved, t.entries = t.entries, []
    try:
        now = [0]
        ds = [ExpiringEntryDict(1, {'a': 1}, time_getter=lambda: now[0], external_cleanup=True) for _ in range(inp['n'])]
        ss = [SelfCleaningDefaultDict(list, True, {'a': [1]}) for _ in range(inp['n'])]
        for r in range(inp['rounds']):
            for s in ss:
                if s is not None:
                    s['a'] = [1]
                    s['a'].clear()
            now[0] += 2
            ds = [d for i, d in enumerate(ds) if not (inp['drop'][i] and r == 0)]
            ss = [d for i, d in enumerate(ss) if not (inp['drop'][-i] and r == 0)]
            d = s = None
            t.cleanup()
            for d in ds + ss:
                assert not d.data, 'a dictionary is not maintained in the background'
                d['a'] = [1]
    finally:
        t.entries = saved + t.entries


main('C07')
