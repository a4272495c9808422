from base import case, main
import coop
from satella.coding.concurrent import IDAllocator, SequentialIssuer
from satella.exceptions import Empty, AlreadyAllocated


def gen(rng, size):
    for start in (0, 1, -2):
        for top in (None, 0, 1, 3, 12):
            if top is not None and top < start:
                continue
            yield {'start': start, 'top': top, 'ops': [['alloc']] * 25}
    for _ in range(1500 * size):
        start = rng.randint(-3, 5)
        top = rng.choice([None, None, start, start + 1, start + rng.randint(0, 40)])
        ops = []
        for _ in range(rng.randint(1, 50)):
            ops.append(rng.choice([['alloc'], ['alloc'], ['free', rng.randint(-5, 45)],
                                   ['mark', rng.randint(-5, 45)], ['mark', rng.randint(-5, 12)]]))
        yield {'start': start, 'top': top, 'ops': ops}


@case('allocator histories', gen, 'up to 50 operations')
def run(inp):
    start, top = inp['start'], inp['top']
    if top is not None and top < start:
        return
    a = IDAllocator(start, top)
    out = set()
    for op in inp['ops']:
        if op[0] == 'alloc':
            try:
                r = a.allocate_int()
            except Empty:
                assert top is not None and len(out) >= top - start, 'Empty although %r is free' % (
                    set(range(start, top or 0)) - out,)
                continue
            assert r not in out, '%d handed out twice' % r
            assert r >= start and (top is None or r < top), '%d out of [%r,%r)' % (r, start, top)
            out.add(r)
        elif op[0] == 'free':
            try:
                a.mark_as_free(op[1])
                assert op[1] in out, 'freed %d, which was not allocated' % op[1]
                out.discard(op[1])
            except ValueError:
                assert op[1] not in out, 'refused to free %d' % op[1]
        else:
            x = op[1]
            try:
                a.mark_as_allocated(x)
                assert x not in out and x >= start and (top is None or x < top), 'marked %d' % x
                out.add(x)
            except AlreadyAllocated:
                assert x in out, 'AlreadyAllocated for %d' % x
            except ValueError:
                assert x < start or (top is not None and x >= top), 'ValueError for %d' % x


def gen2(rng, size):
    for _ in range(300 * size):
        k = rng.randint(2, 3)
        yield {'seed': rng.randint(0, 10 ** 9), 'p': rng.choice([0.02, 0.1, 0.3]), 'start': rng.randint(0, 2),
               'top': rng.choice([None, 4, 12]),
               'ops': [[rng.choice([['alloc'], ['alloc'], ['mark', rng.randint(0, 5)], ['freelast']])
                        for _ in range(rng.randint(1, 4))] for _ in range(k)]}


@case('allocator, concurrent', gen2, '2-3 threads, up to 4 operations each, random schedules', 1.0)
def run2(inp):
    with coop.patched():
        a = IDAllocator(inp['start'], inp['top'])
    out = set()

    def body(ops):
        def f():
            mine = []
            for op in ops:
                if op[0] == 'alloc':
                    try:
                        r = a.allocate_int()
                    except Empty:
                        continue
                    assert r not in out, '%d handed out while outstanding' % r
                    out.add(r)
                    mine.append(r)
                elif op[0] == 'mark':
                    try:
                        a.mark_as_allocated(op[1])
                    except (AlreadyAllocated, ValueError):
                        continue
                    assert op[1] not in out, '%d marked while outstanding' % op[1]
                    out.add(op[1])
                    mine.append(op[1])
                elif mine:
                    r = mine.pop()
                    out.discard(r)
                    a.mark_as_free(r)
        return f

    for r, e in coop.schedule(inp['seed'], [body(o) for o in inp['ops']], inp['p']):
        if e is not None:
            raise e


def gen3(rng, size):
    for _ in range(300 * size):
        yield {'seed': rng.randint(0, 10 ** 9), 'p': rng.choice([0.02, 0.1, 0.3]), 'start': rng.randint(-2, 2),
               'ops': [[rng.choice([['issue'], ['nlt', rng.randint(-3, 12)]])
                        for _ in range(rng.randint(1, 5))] for _ in range(rng.choice([1, 2, 3]))]}


@case('sequential issuer', gen3, '1-3 threads, up to 5 operations each, random schedules', 1.0)
def run3(inp):
    with coop.patched():
        s = SequentialIssuer(inp['start'])
    got = []

    def body(ops):
        def f():
            last = None
            for op in ops:
                r = s.issue() if op[0] == 'issue' else s.no_less_than(op[1])
                assert r not in got, '%d issued twice' % r
                assert last is None or r > last, 'not increasing'
                assert r >= inp['start'] and (op[0] == 'issue' or r >= op[1]), 'below the requested value'
                last = r
                got.append(r)
        return f

    for r, e in coop.schedule(inp['seed'], [body(o) for o in inp['ops']], inp['p']):
        if e is not None:
            raise e


main('C01')
