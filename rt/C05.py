import collections
import copy

from base import case, main
from satella.coding.structures import SortedList, Ranking, SliceableDeque


class Obj:
    """not comparable, ranked by k"""

    def __init__(self, k, tag):
        self.k, self.tag = k, tag

    def __repr__(self):
        return 'Obj(%d,%d)' % (self.k, self.tag)


def gen(rng, size):
    for _ in range(1500 * size):
        yield {'mode': rng.choice(['plain', 'obj', 'neg']), 'init': [rng.randint(0, 6) for _ in range(rng.choice([0, 0, 3, 7]))],
               'ops': [[rng.choice(['add', 'add', 'add', 'extend', 'remove', 'remove', 'pop', 'popleft', 'index', 'slice', 'get']),
                        rng.randint(0, 7), rng.randint(-9, 9), [rng.randint(0, 6) for _ in range(rng.randint(0, 3))]]
                       for _ in range(rng.randint(1, 14))]}


def has(model, x):
    return any(y is x or y == x for y in model)


def drop(model, x):
    for i, y in enumerate(model):
        if y is x or y == x:
            del model[i]
            return
    assert False, 'extra element %r' % (x,)


def view(s, model, key):
    got = list(s)
    assert len(s) == len(got) == len(model), 'length %d, expected %d' % (len(s), len(model))
    assert bool(s) == bool(model)
    ks = [key(x) for x in got]
    assert ks == sorted(ks), 'not sorted: %r' % (got,)
    left = list(model)
    for x in got:
        drop(left, x)
    for i in range(-len(got), len(got)):
        assert s[i] is got[i]


@case('sorted list histories', gen, 'up to 14 operations, keys 0-6')
def sl(inp):
    mode = inp['mode']
    n = [0]

    def V(i):
        n[0] += 1
        return Obj(i, n[0]) if mode == 'obj' else i
    key = {'plain': lambda a: a, 'obj': lambda a: a.k, 'neg': lambda a: -a}[mode]
    model = [V(i) for i in inp['init']]
    s = SortedList(list(model), key) if mode != 'plain' else SortedList(list(model))
    view(s, model, key)
    for op, i, j, xs in inp['ops']:
        x = V(i)
        if op == 'add':
            r = s.add(x)
            model.append(x)
            assert s[r] is x, 'add returned %r, but the item is elsewhere' % r
        elif op == 'extend':
            ys = [V(k) for k in xs]
            s.extend(ys)
            model.extend(ys)
        elif op == 'remove':
            if model and mode == 'obj':
                x = model[i % len(model)]
            try:
                s.remove(x)
            except ValueError:
                assert not has(model, x)
            else:
                drop(model, x)
        elif op in ('pop', 'popleft'):
            try:
                r = getattr(s, op)()
            except IndexError:
                assert not model
            else:
                ext = (max if op == 'pop' else min)(key(y) for y in model)
                assert key(r) == ext, '%s gave %r' % (op, r)
                drop(model, r)
        elif op == 'index':
            if model and mode == 'obj':
                x = model[i % len(model)]
            try:
                r = s.index(x)
            except ValueError:
                assert not has(model, x)
            else:
                assert s[r] is x or s[r] == x
            assert (x in s) == has(model, x)
        elif op == 'slice':
            got = list(s)
            for sl in (slice(None, j), slice(j, None), slice(j, i), slice(None, None, -1), slice(i, j, 2), slice(i, j, -2)):
                assert list(s[sl]) == got[sl], 'slice %r' % (sl,)
        view(s, model, key)


def gen_q(rng, size):
    for _ in range(800 * size):
        yield {'init': [rng.randint(0, 6) for _ in range(rng.randint(0, 6))], 'max': rng.choice([None, None, 4]),
               'ops': [[rng.choice(['set', 'del', 'insert', 'append', 'appendleft', 'pop', 'popleft', 'extend', 'rotate', 'reverse', 'remove']), rng.randint(-7, 7),
                        rng.randint(0, 6)] for _ in range(rng.randint(1, 8))],
               'slice': [rng.choice([None, rng.randint(-7, 7)]), rng.choice([None, rng.randint(-7, 7)]), rng.choice([None, -3, -2, -1, 1, 2, 3])]}


@case('sliceable deques', gen_q, 'up to 8 operations')
def sd(inp):
    q, m = SliceableDeque(inp['init'], maxlen=inp['max']), collections.deque(inp['init'], inp['max'])
    for op, i, v in inp['ops']:
        res = []
        for d in (q, m):
            try:
                if op == 'set':
                    d[i] = v
                elif op == 'del':
                    del d[i]
                elif op == 'insert':
                    d.insert(i, v)
                elif op in ('pop', 'popleft', 'reverse'):
                    res.append(getattr(d, op)())
                elif op == 'extend':
                    d.extend([v, i])
                elif op == 'rotate':
                    d.rotate(i)
                else:
                    getattr(d, op)(v)
            except (IndexError, ValueError) as e:
                res.append(type(e))
        assert len(res) < 2 or res[0] == res[1], '%s gives %r instead of %r' % (op, *res)
        assert len(res) != 1, op
        want = list(m)
        assert list(q) == want and list(reversed(q)) == want[::-1] and len(q) == len(want) and bool(q) == bool(want)
        assert (v in q) == (v in want) and [q[k] for k in range(-len(want), len(want))] == want + want
        for how in (copy.copy, copy.deepcopy):
            c = how(q)
            assert type(c) is SliceableDeque and list(c) == want and c.maxlen == m.maxlen, 'a copy holds %r' % list(c)
            c.append(1)
            c.append(2)
            assert list(q) == want, 'changing a copy changes the original'
        s = slice(*(inp['slice'] + [None] * 3)[:3])
        assert list(q[s]) == want[s], 'slice %r of %r gives %r' % (s, want, list(q[s]))


@case('ranking histories', gen, 'up to 14 operations, keys 0-6')
def rk(inp):
    n = [0]

    def V(i):
        n[0] += 1
        return Obj(i, n[0])
    key = lambda a: a.k
    model = [V(i) for i in inp['init']]
    gone = []
    r = Ranking(list(model), key)
    for op, i, j, xs in [['none', 0, 0, []]] + inp['ops']:
        if op in ('add', 'extend'):
            x = V(i)
            r.add(x)
            model.append(x)
        elif op in ('remove', 'pop', 'popleft'):
            x = model[i % len(model)] if model and j > -8 else V(i)
            try:
                r.remove(x)
            except ValueError:
                assert not has(model, x)
            else:
                drop(model, x)
            gone.append(x)
        got = list(r.get_sorted())
        ks = [x.k for x in got]
        assert ks == sorted(ks), 'not sorted'
        left = list(model)
        for p, x in enumerate(got):
            drop(left, x)
            assert r.get_position_of(x) == p, 'get_position_of'
            assert r.calculate_ranking_for(x) == p, 'calculate_ranking_for(%r) is %r, not %r' % (x, r.calculate_ranking_for(x), p)
            assert r[p] is x and r[p - len(got)] is x
        assert not left
        for x in gone:
            for f in (r.get_position_of, r.calculate_ranking_for):
                try:
                    p = f(x)
                except (ValueError, KeyError):
                    pass
                else:
                    assert False, 'removed element still has position %r' % p


main('C05')
