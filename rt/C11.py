import copy

from base import case, main
from satella.coding.deleters import DictDeleter, ListDeleter


def gen(rng, size):
    for n in range(0, 5):
        for bits in range(1 << n):
            for back in (False, True):
                yield {'items': [0] * n, 'mark': [i for i in range(n) if bits >> i & 1], 'back': back, 'ctx': back, 'exc': False}
    for _ in range(1500 * size):
        n = rng.randint(0, 12)
        yield {'items': [rng.randint(0, 3) for _ in range(n)], 'mark': [i for i in range(n) if rng.random() < .5],
               'back': rng.random() < .5, 'ctx': rng.random() < .6, 'exc': rng.random() < .2}


class Boom(Exception):
    pass


@case('marking elements of a list', gen, 'all markings of up to 4 elements; random up to 12')
def run(inp):
    lst = [[i, x] for i, x in enumerate(inp['items'])]
    orig = list(lst)
    exp = [x for i, x in enumerate(lst) if i not in inp['mark']]
    ld = ListDeleter(lst)
    if inp['back']:
        ld = reversed(ld)
    seen = []

    def go(ld):
        for e in ld:
            seen.append(e)
            assert ld.value is e and ld() is e
            if e[0] in inp['mark']:
                ld.delete()
                if e[1] == 1:
                    ld.delete()
            assert lst == orig, 'the list changed while iterating'
        if inp['exc']:
            raise Boom()
    try:
        if inp['ctx']:
            with ld as z:
                assert z is ld
                go(ld)
        else:
            go(ld)
            ld.remove_items()
    except Boom:
        if not inp['ctx']:
            ld.remove_items()
    else:
        assert not inp['exc'], 'an exception was swallowed'
    assert seen == (orig[::-1] if inp['back'] else orig), 'visited %r' % (seen,)
    assert lst == exp and all(a is b for a, b in zip(lst, exp)), 'left %r, expected %r' % (lst, exp)
    ld.remove_items()
    assert lst == exp, 'removing again removed more'


def gen_w(rng, size):
    for _ in range(2000 * size):
        yield {'n': rng.randint(0, 5), 'back': rng.random() < .5,
               'ops': [rng.choice(['next', 'next', 'prev', 'mark', 'mark', 'iter', 'copy', 'rev', 'cont']) for _ in range(rng.randint(1, 14))]}


@case('walking to and fro', gen_w, 'up to 14 moves in lists of up to 5')
def walk(inp):
    n = inp['n']
    lst = list(range(n))
    ld = ListDeleter(lst)
    step = 1
    if inp['back']:
        ld = reversed(ld)
        step = -1
    pos = -1 if step == 1 else n
    marks = set()
    for op in inp['ops']:
        if op in ('next', 'prev'):
            s = step if op == 'next' else -step
            want = pos + s
            try:
                v = ld.next() if op == 'next' else ld.prev()
            except StopIteration:
                v = None
            if 0 <= want < n:
                assert v == want, '%s at %d gives %r' % (op, pos, v)
                pos = want
            else:
                assert v is None, '%s at %d gives %r' % (op, pos, v)
                pos = max(-1, min(n, want))
        elif op == 'mark':
            if 0 <= pos < n:
                ld.delete()
                marks.add(pos)
        elif op == 'iter':
            iter(ld)
            pos = -1 if step == 1 else n
            marks = set()
        elif op == 'rev':
            ld = reversed(ld)
            step = -step
            pos = -1 if step == 1 else n
            marks = set()
        elif op == 'cont':
            # going on in a copy
            was, ld = ld, copy.copy(ld)
            if 0 <= pos < n:
                was.delete()
        else:
            c = copy.copy(ld)
            if 0 <= pos < n:
                c.delete()
                assert c() == pos
    ld.remove_items()
    assert lst == [i for i in range(n) if i not in marks], 'left %r after marking %r' % (lst, marks)


def gen_d(rng, size):
    for _ in range(1500 * size):
        n = rng.randint(0, 8)
        yield {'n': n, 'mark': [i for i in range(n) if rng.random() < .5], 'mode': rng.choice(['', 'keys', 'values', 'items']),
               'exc': rng.random() < .2, 'twice': rng.random() < .3}


@case('marking entries of a dictionary', gen_d, 'up to 8 entries')
def dic(inp):
    d = {i: 'v%d' % i for i in range(inp['n'])}
    orig = dict(d)
    try:
        with DictDeleter(d) as dd:
            for _ in range(2 if inp['twice'] else 1):
                seen = []
                it = dd if not inp['mode'] else getattr(dd, inp['mode'])()
                for e in it:
                    seen.append(e)
                    k = e[0] if inp['mode'] == 'items' else int(e[1:]) if inp['mode'] == 'values' else e
                    if k in inp['mark']:
                        dd.delete()
                    assert d == orig
                exp = list(orig.items()) if inp['mode'] == 'items' else list(orig.values()) if inp['mode'] == 'values' else list(orig)
                assert seen == exp, 'visited %r' % (seen,)
            if inp['exc']:
                raise Boom()
    except Boom:
        pass
    else:
        assert not inp['exc'], 'an exception was swallowed'
    assert d == {k: v for k, v in orig.items() if k not in inp['mark']}, 'left %r after marking %r' % (d, inp['mark'])


if __name__ == '__main__':
    main('C11')
