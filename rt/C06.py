import copy
import warnings

from base import case, main
from satella.coding.structures import TwoWayDictionary, DirtyDict, KeyAwareDefaultDict, CountingDict, DictionaryView, \
    DefaultDict, DictObject, apply_dict_object
warnings.simplefilter('ignore')


def ops(rng, names, lo=1, hi=16):
    return [[rng.choice(names), rng.randint(0, 5), rng.randint(0, 5)] for _ in range(rng.randint(lo, hi))]


def attempt(f, *a):
    try:
        return 'ok', f(*a)
    except Exception as e:
        return 'exc', type(e)


def gen(names, n=500):
    def g(rng, size):
        for _ in range(n * size):
            yield {'init': [[rng.randint(0, 5), rng.randint(0, 5)] for _ in range(rng.choice([0, 0, 2, 4]))],
                   'ops': ops(rng, names), 'flags': [rng.random() < .5 for _ in range(4)]}
    return g


def twview(d, model):
    assert dict(d.items()) == model, '%r, expected %r' % (dict(d.items()), model)
    assert len(d) == len(model)
    rev = {v: k for k, v in model.items()}
    assert dict(d.reverse.items()) == rev, 'reverse is %r, expected %r' % (dict(d.reverse.items()), rev)
    assert d.reverse.reverse is d
    for i in range(6):
        assert (i in d) == (i in model) and (i in d.reverse) == (i in rev)


@case('two way dictionary', gen(['set', 'set', 'set', 'del', 'rset', 'rdel', 'pop', 'setdefault', 'popitem', 'update', 'clear']),
      'up to 16 operations, 6 keys, 6 values')
def two(inp):
    model = dict(map(tuple, inp['init']))
    r = attempt(TwoWayDictionary, dict(model))
    if len(set(model.values())) != len(model):
        assert r == ('exc', ValueError), 'repeated value accepted: %r' % (r,)
        return
    assert r[0] == 'ok', r
    d = r[1]
    twview(d, model)
    for op, k, v in inp['ops']:
        rev = {b: a for a, b in model.items()}
        if op in ('set', 'rset', 'update'):
            tgt, m, other = (d.reverse, rev, model) if op == 'rset' else (d, model, rev)
            r = attempt(tgt.__setitem__, k, v) if op != 'update' else attempt(tgt.update, {k: v})
            if v in other and other[v] != k:
                assert r == ('exc', ValueError), 'value of another key accepted'
            else:
                assert r[0] == 'ok', 'assignment refused: %r' % (r,)
                m[k] = v
                if op == 'rset':
                    model = {b: a for a, b in m.items()}
        elif op in ('del', 'rdel', 'pop'):
            tgt, m = (d.reverse, rev) if op == 'rdel' else (d, model)
            r = attempt(tgt.pop if op == 'pop' else tgt.__delitem__, k)
            if k in m:
                assert r[0] == 'ok'
                del m[k]
                if op == 'rdel':
                    model = {b: a for a, b in m.items()}
            else:
                assert r == ('exc', KeyError), r
        elif op == 'setdefault':
            if k not in model and v in rev:
                continue
            assert d.setdefault(k, v) == model.setdefault(k, v)
        elif op == 'popitem':
            r = attempt(d.popitem)
            if model:
                assert model.pop(r[1][0]) == r[1][1]
            else:
                assert r == ('exc', KeyError)
        else:
            d.clear()
            model = {}
        twview(d, model)
    if inp['flags'][0]:
        d.done()
    else:
        with d as e:
            assert e is d
    assert {k: d[k] for k in model} == model


@case('dirty dict', gen(['set', 'set', 'del', 'pop', 'update', 'clear', 'setdefault', 'swap', 'copyclear', 'cleardirty', 'copy', 'popitem']),
      'up to 16 operations, 6 keys, 6 values')
def dirty(inp):
    model = dict(map(tuple, inp['init']))
    d = DirtyDict(model)
    model = dict(model)
    flag = False
    for op, k, v in inp['ops']:
        before = dict(model)
        if op == 'set':
            d[k] = v
            model[k] = v
        elif op in ('del', 'pop'):
            r = attempt(d.__delitem__ if op == 'del' else d.pop, k)
            assert (r[0] == 'ok') == (k in model), r
            model.pop(k, None)
        elif op == 'popitem':
            r = attempt(d.popitem)
            if r[0] == 'ok':
                assert model.pop(r[1][0]) == r[1][1]
            else:
                assert not model
        elif op == 'update':
            d.update({k: v, v: k})
            model.update({k: v, v: k})
        elif op == 'clear':
            d.clear()
            model.clear()
        elif op == 'setdefault':
            assert d.setdefault(k, v) == model.setdefault(k, v)
        elif op == 'swap':
            r = d.swap_and_clear_dirty()
            assert type(r) is dict and r == model
            model, flag, before = {}, False, {}
            r['x'] = 1
        elif op == 'copyclear':
            r = d.copy_and_clear_dirty()
            assert type(r) is dict and r == model
            flag = False
            r['x'] = 1
        elif op == 'cleardirty':
            d.clear_dirty()
            flag = False
        else:
            e = copy.copy(d)
            e['y'] = 1
            assert 'y' not in d
            e = copy.copy(d)
            assert e.dirty == d.dirty and dict(e) == model
            d = e
        flag = flag or model != before
        assert dict(d) == model and len(d) == len(model) and bool(d) == bool(model), dict(d)
        assert d.dirty == flag, 'after %s: dirty is %r, expected %r' % (op, d.dirty, flag)


@case('key aware default dict', gen(['get', 'get', 'in', 'set', 'del', 'none'], 300), 'up to 16 operations, 6 keys')
def kad(inp):
    calls = []

    def f(k):
        calls.append(k)
        if inp['flags'][0] and k == 4:
            raise ValueError('no')
        if inp['flags'][1] and k == 3:
            return None
        return -k
    d = KeyAwareDefaultDict(f, dict(map(tuple, inp['init'])))
    model = dict(map(tuple, inp['init']))
    for op, k, v in inp['ops']:
        n = len(calls)
        if op == 'get':
            r = attempt(d.__getitem__, k)
            if k in model:
                assert r == ('ok', model[k]) and len(calls) == n
            else:
                assert calls[n:] == [k]
                if inp['flags'][0] and k == 4:
                    assert r == ('exc', ValueError)
                else:
                    model[k] = None if inp['flags'][1] and k == 3 else -k
                    assert r == ('ok', model[k]), r
        elif op == 'in':
            assert (k in d) == (k in model), '%r in the dictionary: %r' % (k, k in d)
            assert len(calls) == n
        elif op == 'set':
            d[k] = v
            model[k] = v
        elif op == 'del':
            r = attempt(d.__delitem__, k)
            assert (r[0] == 'ok') == (k in model) and (r[0] == 'ok' or r[1] is KeyError)
            model.pop(k, None)
        assert list(d) == list(model) and len(d) == len(model) and {k: d[k] for k in model} == model


@case('counting and default dicts', gen(['count', 'count', 'pieces', 'get', 'clear'], 300), 'up to 16 operations')
def counting(inp):
    src = [k for k, v in inp['init']]
    d = CountingDict(src)
    model = {}
    for k in src:
        model[k] = model.get(k, 0) + 1
    dd = DefaultDict(list, {1: [1]})
    ddm = {1: [1]}
    for op, k, v in inp['ops']:
        if op == 'count':
            d.count(k)
            model[k] = model.get(k, 0) + 1
        elif op == 'pieces':
            d.count(k, v - 2)
            model[k] = model.get(k, 0) + v - 2
            dd[k] = [v]
            ddm[k] = [v]
        elif op == 'get':
            r = attempt(d.__getitem__, k)
            assert r == (('ok', model[k]) if k in model else ('exc', KeyError))
            assert dd[k] == ddm.get(k, [])
        else:
            d.clear()
            model = {}
        assert dict(d.items()) == model and len(d) == len(model) and bool(d) == bool(model) and set(d) == set(model)
        assert list(d.keys()) == list(model.keys()) and list(d.values()) == list(model.values())
        assert dict(dd) == ddm, 'a generated default was stored'


@case('dictionary view', gen(['set', 'set', 'del', 'get', 'copy', 'deepcopy'], 400), 'up to 16 operations, 1-4 dictionaries')
def dview(inp):
    k = 1 + sum(inp['flags'][:3])
    real = [{} for _ in range(k)]
    for i, (a, b) in enumerate(inp['init'] * 3):
        real[(i + b) % k][a] = b + 10 * i
    model = copy.deepcopy(real)
    prop, assign = inp['flags'][2], inp['flags'][3]
    d = DictionaryView(*real, propagate_deletes=prop, assign_to_same_dict=assign)
    for op, a, b in inp['ops']:
        holder = next((m for m in model if a in m), None)
        if op == 'set':
            d[a] = b
            (holder if assign and holder is not None else model[0])[a] = b
        elif op == 'del':
            r = attempt(d.__delitem__, a)
            tgt = holder if prop else (model[0] if a in model[0] else None)
            assert (r[0] == 'ok') == (tgt is not None) and (r[0] == 'ok' or r[1] is KeyError), r
            if tgt is not None:
                del tgt[a]
        elif op == 'copy':
            d = copy.copy(d)
        elif op == 'deepcopy':
            old, before = real, copy.deepcopy(real)
            d = copy.deepcopy(d)
            d[a] = 77
            assert old == before, 'the deep copy shares its dictionaries'
            (holder if assign and holder is not None else model[0])[a] = 77
            real = None
        if real is not None:
            assert real == model, '%r, expected %r' % (real, model)
        flat = {}
        for m in reversed(model):
            flat.update(m)
        assert dict(d.items()) == flat and len(d) == len(flat), '%r, expected %r' % (dict(d.items()), flat)
        assert sorted(d) == sorted(flat), 'iteration'
        for i in range(6):
            assert (i in d) == (i in flat)
            assert attempt(d.__getitem__, i) == (('ok', flat[i]) if i in flat else ('exc', KeyError))


@case('dict object', gen(['set', 'attr', 'del', 'delattr', 'copy', 'deepcopy'], 300), 'up to 16 operations')
def dobj(inp):
    N = lambda k: 'abcdef'[k]
    model = {N(k): [v] for k, v in inp['init']}
    d = DictObject(copy.deepcopy(model))
    for op, k, v in inp['ops']:
        n = N(k)
        if op == 'set':
            d[n] = [v]
            model[n] = [v]
        elif op == 'attr':
            setattr(d, n, [v])
            model[n] = [v]
        elif op == 'del':
            assert attempt(d.__delitem__, n) == (('ok', None) if n in model else ('exc', KeyError))
            model.pop(n, None)
        elif op == 'delattr':
            assert attempt(delattr, d, n) == (('ok', None) if n in model else ('exc', AttributeError))
            model.pop(n, None)
        else:
            e = (copy.copy if op == 'copy' else copy.deepcopy)(d)
            assert type(e) is DictObject and e == model
            e['zz'] = 1
            assert 'zz' not in d, 'the copy is shared'
            if op == 'deepcopy' and model:
                e[sorted(model)[0]].append(5)
                assert d == model, 'the deep copy shares its values'
        assert d == model and isinstance(d, dict)
        for i in range(6):
            assert attempt(getattr, d, N(i)) == (('ok', model[N(i)]) if N(i) in model else ('exc', AttributeError))


def gen_n(rng, size):
    def val(d):
        r = rng.random()
        if d and r < .3:
            return {'abc'[i]: val(d - 1) for i in range(rng.randint(0, 3))}
        if d and r < .5:
            return [val(d - 1) for _ in range(rng.randint(0, 3))]
        if d and r < .6:
            return {'obj': {'k': val(d - 1)}}
        return rng.choice([1, 'x', None])
    for _ in range(200 * size):
        yield {'v': val(4), 'kw': {k: rng.randint(0, 9) for k in 'abc' if rng.random() < .5}, 'pos': [[k, rng.randint(0, 9)] for k in 'cde' if rng.random() < .5]}


@case('nested dict objects', gen_n, 'values nested up to 4 deep')
def nested(inp):
    def obj(x):
        if isinstance(x, dict):
            return DictObject(x['obj']) if 'obj' in x else {k: obj(v) for k, v in x.items()}
        return [obj(e) for e in x] if isinstance(x, list) else x
    src = obj(inp['v'])
    before = copy.deepcopy(src)
    out = apply_dict_object(src)

    def same(a, b):
        if isinstance(a, DictObject):
            assert b is a
        elif isinstance(a, dict):
            assert type(b) is DictObject and list(a) == list(b)
            for k in a:
                same(a[k], b[k])
                assert getattr(b, k) is b[k]
        elif isinstance(a, list):
            assert type(b) is list and len(a) == len(b) and b is not a
            for x, y in zip(a, b):
                same(x, y)
        else:
            assert a is b
    same(src, out)
    assert src == before, 'the original has changed'
    pos, kw = inp['pos'], inp['kw']
    for args in ([dict(pos)], [[tuple(p) for p in pos]], [iter(pos)], [DictObject(pos)], []):
        want = dict(dict(pos) if args else {}, **kw)
        d = DictObject(*args, **kw)
        assert type(d) is DictObject and d == want, '%r instead of %r' % (d, want)
        if kw and args and isinstance(args[0], DictObject):
            assert d is not args[0] and args[0] == dict(pos), 'the original has changed'


main('C06')
