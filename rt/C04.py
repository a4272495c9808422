import copy

from base import case, main
from satella.coding.structures import Heap, SetHeap, TimeBasedHeap, TimeBasedSetHeap


class Item:
    """items of equal rank that are not equal"""

    def __init__(self, rank, tag):
        self.rank, self.tag = rank, tag

    def __lt__(self, o):
        return self.rank < o.rank

    def __eq__(self, o):
        return isinstance(o, Item) and (self.rank, self.tag) == (o.rank, o.tag)

    def __hash__(self):
        return hash((self.rank, self.tag))

    def __repr__(self):
        return 'Item(%d,%r)' % (self.rank, self.tag)


def val(i, fancy):
    return Item(i // 2, i % 2) if fancy else i


def histories(rng, size, ops, n=4000):
    for _ in range(n * size):
        yield {'fancy': rng.random() < .4, 'init': [rng.randint(0, 9) for _ in range(rng.choice([0, 0, 3, 6, 8]))],
               'ops': [[rng.choice(ops), rng.randint(0, 9), rng.randint(0, 9), [rng.randint(0, 9) for _ in range(rng.randint(0, 4))]]
                       for _ in range(rng.randint(1, 14))]}


def rm(model, x):
    for i, y in enumerate(model):
        if y == x:
            del model[i]
            return True
    return False


def smallest(model, r):
    return not any(x < r for x in model)


def view(h, model, isset):
    assert len(h) == len(model), 'length %d, expected %d' % (len(h), len(model))
    assert bool(h) == bool(model)
    left = list(model)
    for x in h:
        assert rm(left, x), 'extra element %r' % (x,)
    assert not left, 'lost %r' % left
    asc = list(h.iter_ascending())
    left = list(model)
    for a, b in zip(asc, asc[1:]):
        assert not b < a, 'not ascending: %r' % asc
    for x in asc:
        assert rm(left, x), 'iter_ascending gives the extra element %r' % (x,)
    assert not left, 'iter_ascending lost %r' % left
    desc = list(h.iter_descending())
    for a, b in zip(desc, desc[1:]):
        assert not a < b, 'not descending: %r' % desc
    assert len(desc) == len(model)
    assert len(h) == len(model), 'iteration changed the heap'


PLAIN = ['push', 'push', 'push_many', 'pop', 'pop', 'pop_item', 'contains', 'filter', 'map', 'fmap', 'copy', 'deepcopy']


@case('plain and set heaps', lambda r, s: histories(r, s, PLAIN), 'up to 14 operations over 10 values')
def plain(inp):
    for cls in (Heap, SetHeap):
        isset = cls is SetHeap
        V = lambda i: val(i, inp['fancy'])

        def add(x):
            if not isset or x not in model:
                model.append(x)
        src = [V(i) for i in inp['init']]
        model = []
        for x in src:
            add(x)
        h = cls(src) if src else cls()
        view(h, model, isset)
        before = list(src)
        assert src == before and len(src) == len(inp['init']), 'the given list was changed'
        for op, i, j, xs in inp['ops']:
            x = V(i)
            if op == 'push':
                h.push(x)
                add(x)
            elif op == 'push_many':
                h.push_many(V(k) for k in xs)
                for k in xs:
                    add(V(k))
            elif op == 'pop':
                try:
                    r = h.pop()
                except IndexError:
                    assert not model, 'IndexError from a heap with %r' % model
                else:
                    assert r in model, 'popped %r, not on the heap' % (r,)
                    assert smallest(model, r), 'popped %r from %r' % (r, model)
                    rm(model, r)
            elif op == 'pop_item':
                try:
                    r = h.pop_item(x)
                except ValueError:
                    assert x not in model
                else:
                    assert r == x and rm(model, x), 'pop_item of a missing element succeeded'
            elif op == 'contains':
                assert (x in h) == (x in model), '%r in heap' % (x,)
            elif op in ('filter', 'map', 'fmap'):
                flt = (lambda v: not v < x) if op != 'map' else None
                mp = (lambda v: V((v.rank if inp['fancy'] else v) // 2 + j % 3)) if op != 'filter' else None
                new = [mp(v) if mp else v for v in model if flt is None or flt(v)]
                h.filter_map(flt, mp)
                model = []
                for v in new:
                    add(v)
            else:
                old = h
                h = copy.copy(h) if op == 'copy' else copy.deepcopy(h)
                assert type(h) is cls
                old.push(V(3))
            view(h, model, isset)


TIMED = ['collide', 'put', 'put', 'put', 'put_clock', 'put_clock', 'push', 'push_many', 'pop', 'pop_item', 'pop_timestamp', 'get', 'remove', 'less',
         'less', 'less_clock', 'less_part', 'filter', 'fmap', 'copy', 'deepcopy', 'items', 'peek']


@case('time based heaps', lambda r, s: histories(r, s, TIMED, 5000), 'up to 14 operations over 10 times and 10 items')
def timed(inp):
    for cls in (TimeBasedHeap, TimeBasedSetHeap):
        isset = cls is TimeBasedSetHeap
        V = lambda i: val(i, inp['fancy'])
        now = [0]
        clock = lambda: now[0]
        h = cls(clock)
        model = []

        def add(t, x):
            if isset:
                model[:] = [e for e in model if e[1] != x]
            model.append((t, x))

        more = [['push_many', 0, 0, [3 * k % 10 for k in inp['init']] + inp['init']]] if len(inp['init']) >= 6 else []
        for op, i, j, xs in more + inp['ops']:
            x = V(i)
            now[0] = j
            if op == 'put':
                h.put(i - 4, x)
                add(i - 4, x)
            elif op == 'push':
                h.push((j, x))
                add(j, x)
            elif op == 'put_clock':
                h.put(x)
                add(now[0], x)
            elif op == 'push_many':
                h.push_many([(k, V(k // 2)) for k in xs])
                for k in xs:
                    add(k, V(k // 2))
            elif op == 'pop':
                try:
                    r = h.pop()
                except IndexError:
                    assert not model
                else:
                    assert r in model and smallest(model, r), 'popped %r from %r' % (r, model)
                    rm(model, r)
            elif op == 'pop_item':
                try:
                    r = h.pop_item(x)
                except ValueError:
                    assert all(e[1] != x for e in model), 'refused pop_item'
                else:
                    assert r[1] == x and rm(model, r), 'pop_item gave %r' % (r,)
            elif op == 'pop_timestamp':
                try:
                    r = h.pop_timestamp(j)
                except ValueError:
                    assert all(e[0] != j for e in model), 'refused pop_timestamp'
                else:
                    assert rm(model, (j, r)), 'pop_timestamp gave %r' % (r,)
            elif op == 'get':
                try:
                    r = h.get_timestamp(x)
                except ValueError:
                    r = None
                if r is None:
                    assert all(e[1] != x for e in model), 'get_timestamp lost %r' % (x,)
                else:
                    assert (r, x) in model, 'get_timestamp(%r) is %r' % (x, r)
            elif op == 'remove':
                h.remove(x)
                model = [e for e in model if e[1] != x]
            elif op in ('less', 'less_clock', 'less_part'):
                g = h.pop_less_than(j) if op != 'less_clock' else h.pop_less_than()
                if op == 'less_part':
                    got = [e for e, _ in zip(g, range(1))]
                    g.close() if hasattr(g, 'close') else None
                else:
                    got = list(g)
                if op == 'less_part':
                    # zip asks for one more element before it stops
                    left = list(model)
                    for e in h:
                        assert rm(left, e), 'extra %r' % (e,)
                    assert len(left) in (len(got), len(got) + 1), 'entries lost: %r' % left
                    for e in left:
                        assert e[0] < j, 'lost an entry that is not due'
                    model = [e for e in h]
                    continue
                prev = None
                for e in got:
                    assert e[0] < j, 'gave out %r, which is not earlier than %r' % (e, j)
                    assert rm(model, e), 'gave out %r' % (e,)
                    assert prev is None or not e < prev, 'not in order'
                    prev = e
                assert not any(e[0] < j for e in model), 'pop_less_than(%r) left earlier entries: %r' % (j, model)
            elif op == 'filter':
                h.filter_map(lambda e: e[0] < j)
                model = [e for e in model if e[0] < j]
            elif op == 'fmap':
                h.filter_map(None, lambda e: (e[0] + 1, e[1]))
                model = [(e[0] + 1, e[1]) for e in model]
            elif op == 'collide':
                old = model
                h.filter_map(None, lambda e: (e[0], x))
                model = [(t, x) for t, _ in old]
                if isset and model:
                    # one entry survives: the item cannot be there twice
                    assert len(h) == 1 and list(h)[0] in model, '%r instead of one of %r' % (list(h), model)
                    model = list(h)
            elif op == 'items':
                left = [e[1] for e in model]
                for v in h.items():
                    assert rm(left, v), 'items gives %r' % (v,)
                assert not left
            elif op == 'peek' and not isset:
                try:
                    r = h.peek_closest()
                except IndexError:
                    assert not model
                else:
                    assert r in model and not any(e[0] < r[0] for e in model), 'peeked %r' % (r,)
            elif op in ('copy', 'deepcopy'):
                old = h
                h = copy.copy(h) if op == 'copy' else copy.deepcopy(h)
                assert type(h) is cls
                old.put(1, V(3))
            view(h, model, isset)


main('C04')
