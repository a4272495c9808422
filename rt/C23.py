import collections
import itertools
import operator

from base import case, main
from satella.coding import sequences as S
from satella.coding.iterators import SelfClosingGenerator, chain, exhaust, hint_with_length
from satella.coding.sequences import iterators as I


def kinds(kind, data):
    """the same elements as different kinds of sequences"""
    return {'list': lambda: list(data), 'tuple': lambda: tuple(data), 'iter': lambda: iter(list(data)), 'gen': lambda: (x for x in data),
            'deque': lambda: collections.deque(data)}[kind]()


KINDS = ['list', 'tuple', 'iter', 'gen', 'deque']


def data(rng, top=7):
    return [rng.randint(0, 4) for _ in range(rng.randint(0, top))]


def rotate(x, k):
    return x[k % len(x):] + x[:k % len(x)] if x else []


def grouped(x, n):
    return [x[i:i + n] for i in range(0, len(x), n)]


def first_seen(x):
    return [v for i, v in enumerate(x) if v not in x[:i]]


def neighbours(x, wrap, skip):
    r = list(zip(x, x[1:]))
    if x and wrap:
        r.append((x[-1], x[0]))
    elif x and not skip:
        r.append((x[-1], None))
    return r


def even(v):
    return v % 2 == 0


# name -> (code under test, oracle); s, t: sequences of the elements x, y; n, m: numbers
OPS = {
    'enumerate2': (lambda s, t, n, m: S.enumerate2(s, n, m), lambda x, y, n, m: [(n + i * m, v) for i, v in enumerate(x)]),
    'smart_enumerate': (lambda s, t, n, m: S.smart_enumerate([(v, v) for v in s], n, m), lambda x, y, n, m: [(n + i * m, v, v) for i, v in enumerate(x)]),
    'smart_enumerate lists': (lambda s, t, n, m: S.smart_enumerate([[v, v] for v in s]), lambda x, y, n, m: [(i, v, v) for i, v in enumerate(x)]),
    'count': (lambda s, t, n, m: S.count(s, n, m), lambda x, y, n, m: [n + i * m for i in range(len(x))]),
    'count start_at': (lambda s, t, n, m: S.count(s, start_at=n, step=m), lambda x, y, n, m: [n + i * m for i in range(len(x))]),
    'append_sequence': (lambda s, t, n, m: S.append_sequence([(v, ) if v % 2 else [v] for v in s], n, m), lambda x, y, n, m: [(v, n, m) for v in x]),
    'even': (lambda s, t, n, m: S.even(s), lambda x, y, n, m: x[::2]),
    'odd': (lambda s, t, n, m: S.odd(s), lambda x, y, n, m: x[1::2]),
    'other': (lambda s, t, n, m: S.other_sequence_no_longer_than(s, t), lambda x, y, n, m: y[:len(x)]),
    'stop_after': (lambda s, t, n, m: S.stop_after(s, abs(n)), lambda x, y, n, m: x[:abs(n)]),
    'skip_first': (lambda s, t, n, m: S.skip_first(s, abs(n)), lambda x, y, n, m: x[abs(n):]),
    'take_n': (lambda s, t, n, m: S.take_n(s, abs(n), abs(m)), lambda x, y, n, m: x[abs(m):][:abs(n)]),
    'take_n unskipped': (lambda s, t, n, m: S.take_n(s, abs(n)), lambda x, y, n, m: x[:abs(n)]),
    'n_th': (lambda s, t, n, m: [S.n_th(s, abs(n))], lambda x, y, n, m: [x[abs(n)]]),
    'n_th 0': (lambda s, t, n, m: [S.n_th(s)], lambda x, y, n, m: [x[0]]),
    'shift': (lambda s, t, n, m: S.shift(s, n), lambda x, y, n, m: rotate(x, n)),
    'zip_shifted': (lambda s, t, n, m: S.zip_shifted((s, n), (t, m)), lambda x, y, n, m: list(zip(rotate(x, n), rotate(y, m)))),
    'zip_shifted not': (lambda s, t, n, m: S.zip_shifted(list(s) if isinstance(s, tuple) else s, (t, m)), lambda x, y, n, m: list(zip(x, rotate(y, m)))),
    'is_last': (lambda s, t, n, m: S.is_last(s), lambda x, y, n, m: [(i == len(x) - 1, v) for i, v in enumerate(x)]),
    'add_next': (lambda s, t, n, m: S.add_next(s), lambda x, y, n, m: neighbours(x, False, False)),
    'add_next wrap': (lambda s, t, n, m: S.add_next(s, True), lambda x, y, n, m: neighbours(x, True, False)),
    'add_next skip': (lambda s, t, n, m: S.add_next(s, skip_last=True), lambda x, y, n, m: neighbours(x, False, True)),
    'half_cartesian': (lambda s, t, n, m: S.half_cartesian(s), lambda x, y, n, m: [(x[i], x[j]) for i in range(len(x)) for j in range(i, len(x))]),
    'half_cartesian proper': (lambda s, t, n, m: S.half_cartesian(s, False), lambda x, y, n, m: [(x[i], x[j]) for i in range(len(x)) for j in range(i + 1, len(x))]),
    'group_quantity': (lambda s, t, n, m: map(list, S.group_quantity(abs(n) + 1, s)), lambda x, y, n, m: grouped(x, abs(n) + 1)),
    'group_quantity range': (lambda s, t, n, m: S.group_quantity(abs(n) + 1, range(abs(m))), lambda x, y, n, m: grouped(list(range(abs(m))), abs(n) + 1)),
    'filter_out_false': (lambda s, t, n, m: S.filter_out_false(s), lambda x, y, n, m: [v for v in x if v]),
    'filter_out_nones': (lambda s, t, n, m: S.filter_out_nones(v or None for v in s), lambda x, y, n, m: [v for v in x if v]),
    'unique': (lambda s, t, n, m: S.unique(s), lambda x, y, n, m: first_seen(x)),
    'index_of': (lambda s, t, n, m: [S.index_of(even, s)], lambda x, y, n, m: [[even(v) for v in x].index(True)]),
    'index_of_max': (lambda s, t, n, m: [S.index_of_max(list(s))], lambda x, y, n, m: [x.index(max(x))]),
    'choose': (lambda s, t, n, m: [S.choose(even, s)], lambda x, y, n, m: [[v for v in x if even(v)][0]]),
    'choose_one': (lambda s, t, n, m: [S.choose_one(even, s)], lambda x, y, n, m: [operator.itemgetter(*[0])([v for v in x if even(v)] if len([v for v in x if even(v)]) == 1 else [])]),
    'choose_with_index': (lambda s, t, n, m: [S.choose_with_index(even, s)], lambda x, y, n, m: [[(v, i) for i, v in enumerate(x) if even(v)][0]]),
    'map_list': (lambda s, t, n, m: S.map_list(lambda v: v + n, s), lambda x, y, n, m: [v + n for v in x]),
    'to_iterator': (lambda s, t, n, m: S.to_iterator(lambda v: v + n)(s), lambda x, y, n, m: [v + n for v in x]),
    'smart_zip': (lambda s, t, n, m: S.smart_zip([(v, n) for v in s], t), lambda x, y, n, m: [(v, n, w) for v, w in zip(x, y)]),
    'length': (lambda s, t, n, m: [S.length(s)], lambda x, y, n, m: [len(x)]),
    'is_empty': (lambda s, t, n, m: [S.is_empty(s), S.is_empty(t, exhaust=False)], lambda x, y, n, m: [not x, not y]),
    'make_list': (lambda s, t, n, m: S.make_list(n, abs(m)), lambda x, y, n, m: [n] * abs(m)),
    'iter_dict_of_list': (lambda s, t, n, m: S.iter_dict_of_list({k: y for k, y in zip('ab', (list(s), list(t)))}), lambda x, y, n, m: [('a', v) for v in x] + [('b', v) for v in y]),
    'infinite_counter': (lambda s, t, n, m: itertools.islice(S.infinite_counter(n, m), 5), lambda x, y, n, m: [n + i * m for i in range(5)]),
    'infinite_iterator': (lambda s, t, n, m: itertools.islice(S.infinite_iterator(n), 5), lambda x, y, n, m: [n] * 5),
    'iterate_callable': (lambda s, t, n, m: S.iterate_callable(list(s).__getitem__, abs(n)), lambda x, y, n, m: x[abs(n):]),
    'f_range': (lambda s, t, n, m: S.f_range(n, m, abs(n) + 1 if m > n else -abs(n) - 1), lambda x, y, n, m: list(range(n, m, abs(n) + 1 if m > n else -abs(n) - 1))),
    'f_range 2': (lambda s, t, n, m: S.f_range(n, m), lambda x, y, n, m: list(range(n, m))),
    'f_range 1': (lambda s, t, n, m: S.f_range(n), lambda x, y, n, m: list(range(n))),
    'chain': (lambda s, t, n, m: chain(s, n, t, m), lambda x, y, n, m: x + [n] + y + [m]),
    'ListWrapperIterator': (lambda s, t, n, m: [list(w) + list(w) for w in [S.ListWrapperIterator(s)]][0], lambda x, y, n, m: x + x),
    'Multirun': (lambda s, t, n, m: S.Multirun([[v] for v in s]).append(n), lambda x, y, n, m: [[v, n] for v in x]),
    'Multirun iterator': (lambda s, t, n, m: S.Multirun(iter([[v] for v in s])).append(n), lambda x, y, n, m: [[v, n] for v in x]),
    'self closing': (lambda s, t, n, m: SelfClosingGenerator(iter(s)), lambda x, y, n, m: x),
    'hinted': (lambda s, t, n, m: hint_with_length((v for v in s), abs(n)), lambda x, y, n, m: x),
}


def gen_ops(rng, size):
    for _ in range(5500 * size):
        yield {'op': rng.choice(sorted(OPS)), 'x': data(rng), 'y': data(rng), 'n': rng.randint(-6, 9), 'm': rng.randint(-6, 9),
               'kx': rng.choice(KINDS), 'ky': rng.choice(KINDS)}


ERR = {'n_th': IndexError, 'n_th 0': IndexError}


@case('sequence tools', gen_ops, 'all tools on sequences of up to 7 elements of 5 kinds, numbers -6..9')
def ops(inp):
    f, g = OPS[inp['op']]
    x, y, n, m = inp['x'], inp['y'], inp['n'], inp['m']
    try:
        want = list(g(x, y, n, m))
    except Exception:
        want = ERR.get(inp['op'], ValueError)
    try:
        got = list(itertools.islice(f(kinds(inp['kx'], x), kinds(inp['ky'], y), n, m), 200))
    except Exception as e:
        assert want is type(e), '%s: %r instead of %r' % (type(e).__name__, e, want)
        return
    assert got == want, '%r instead of %r' % (got, want)


def gen_lazy(rng, size):
    for _ in range(600 * size):
        yield {'x': data(rng), 'n': rng.randint(0, 8), 'k': rng.choice(['stop_after', 'take_n', 'n_th', 'is_empty', 'choose', 'index_of', 'choose_one'])}


@case('no further than needed', gen_lazy, 'iterators of up to 7 elements, positions up to 8')
def lazy(inp):
    x, n = inp['x'], inp['n']
    it = iter(x)
    match = [i for i, v in enumerate(x) if even(v)]
    try:
        if inp['k'] == 'stop_after':
            list(S.stop_after(it, n))
            used = n
        elif inp['k'] == 'take_n':
            S.take_n(it, n)
            used = n
        elif inp['k'] == 'n_th':
            S.n_th(it, n)
            used = n + 1
        elif inp['k'] == 'is_empty':
            S.is_empty(it, exhaust=False)
            used = 1
        elif inp['k'] == 'choose_one':
            S.choose_one(even, it)
            used = len(x)
        else:
            getattr(S, inp['k'])(*((even, it)))
            used = match[0] + 1
    except (IndexError, ValueError):
        return
    rest = list(it)
    assert rest == x[used:], '%r remain instead of %r' % (rest, x[used:])


def gen_wrap(rng, size):
    for _ in range(1500 * size):
        yield {'x': data(rng), 'ops': [[rng.choice(['next', 'item', 'slice', 'in', 'len', 'iter', 'step']), rng.randint(-3, 8), rng.randint(-3, 8)]
                                      for _ in range(rng.randint(1, 8))]}


@case('a wrapped iterator', gen_wrap, 'iterators of up to 7 elements, up to 8 operations')
def wrap(inp):
    x = inp['x']
    taken = []

    def source():
        for v in x:
            taken.append(v)
            yield v
    w = S.ListWrapperIterator(source())
    pos, its, need = 0, [], 0
    for op, a, b in inp['ops']:
        if op == 'next':
            need = max(need, pos + 1)
            try:
                got = next(w)
                assert pos < len(x) and got == x[pos], got
                pos += 1
            except StopIteration:
                assert pos == len(x), 'ended at %d' % pos
        elif op == 'item':
            need = max(need, a + 1 if a >= 0 else len(x))
            try:
                want = x[a]
            except IndexError:
                want = IndexError
            try:
                got = w[a]
            except IndexError:
                got = IndexError
            assert got == want, '[%d]: %r instead of %r' % (a, got, want)
        elif op == 'slice':
            need = max(need, b if a >= 0 and b >= 0 else len(x))
            assert w[a:b] == x[a:b], '[%d:%d]: %r' % (a, b, w[a:b])
        elif op == 'in':
            assert (a in w) == (a in x)
            pos, need = w.internal_pointer, len(x)
        elif op == 'len':
            need = len(x)
            assert len(w) == len(x), len(w)
        elif op == 'iter':
            its.append([iter(w), 0])
        elif its:
            it = its[a % len(its)]
            need = max(need, it[1] + 1)
            got = next(it[0], None)
            assert got == (x[it[1]] if it[1] < len(x) else None), got
            it[1] += 1
        assert taken == x[:len(taken)] and len(taken) <= max(need, 0), '%d elements taken, not %d' % (len(taken), need)


def gen_queue(rng, size):
    for _ in range(800 * size):
        yield {'x': data(rng), 'ops': [[rng.choice(['add', 'add_immediate', 'add_many', 'add_many_immediate', 'next', 'next']), data(rng, 3)] for _ in range(rng.randint(1, 9))]}


@case('a growing iterator', gen_queue, 'up to 9 operations')
def queue(inp):
    q, m = S.ConstruableIterator(inp['x']), list(inp['x'])
    for op, v in inp['ops']:
        if op == 'next':
            got = next(q, None)
            want = m.pop(0) if m else None
            assert got == want, '%r instead of %r' % (got, want)
        elif op.startswith('add_many'):
            getattr(q, op)(v)
            m = v + m if op.endswith('immediate') else m + v
        else:
            getattr(q, op)(len(v))
            m = [len(v)] + m if op.endswith('immediate') else m + [len(v)]
        assert operator.length_hint(q) == len(m)
    assert list(q) == m


def tree(rng, depth):
    return [tree(rng, depth - 1) if depth and rng.random() < .6 else rng.randint(0, 9) for _ in range(rng.randint(0, 3))]


def gen_walk(rng, size):
    for _ in range(800 * size):
        yield {'tree': tree(rng, 3), 'deep': rng.random() < .5, 'leaves': rng.random() < .5}


@case('walking', gen_walk, 'trees of depth up to 4')
def walking(inp):
    def kids(o):
        return o if isinstance(o, list) else None
    got = list(S.walk(inp['tree'], kids, inp['deep'], inp['leaves']))
    want = []

    def pre(o):
        want.append(o)
        for c in kids(o) or ():
            pre(c)
    if inp['deep']:
        for c in inp['tree']:
            pre(c)
    else:
        level = list(inp['tree'])
        while level:
            o = level.pop(0)
            want.append(o)
            level += kids(o) or []
    if inp['leaves']:
        want = [o for o in want if not kids(o)]
    assert got == want, '%r instead of %r' % (got, want)


def gen_misc(rng, size):
    for _ in range(800 * size):
        yield {'x': data(rng, 12), 'n': rng.randint(1, 5), 'unhashable': [rng.random() < .4 for _ in range(12)], 'close': rng.choice(['close', 'with', 'del', 'raise']), 'used': rng.randint(0, 4)}


@case('averages, uniqueness and closing', gen_misc, 'up to 12 values, windows up to 5')
def misc(inp):
    x, n = inp['x'], inp['n']
    avg, seen, before = S.RollingArithmeticAverage(n), S.AlreadySeen(), []
    for i, v in enumerate(x):
        avg.insert(v)
        last = x[:i + 1][-n:]
        assert abs(avg.avg() - sum(last) / len(last)) < 1e-9, avg.avg()
        k = {v} if inp['unhashable'][i] else frozenset((v, ))
        assert seen.is_unique(k) == (k not in before), 'unique'
        before.append(k)
    done = []

    def g():
        for v in x:
            yield v
        done.append(1)
    s = SelfClosingGenerator(g)()
    for _ in range(inp['used']):
        next(s, None)
    if inp['close'] == 'close':
        s.close()
    elif inp['close'] == 'del':
        del s
    else:
        try:
            with s:
                if inp['close'] == 'raise':
                    raise KeyError
            assert inp['close'] == 'with'
        except KeyError:
            pass
    assert done == [1], 'the generator did not complete'

    def echo():
        r = None
        while True:
            r = yield r
    e = SelfClosingGenerator.__new__(SelfClosingGenerator)
    e.generator, e.stopped = echo(), True
    next(e)
    assert e.send(n) == n
    h = hint_with_length(lambda: iter(x), None, lambda: n)
    assert operator.length_hint(h()) == n
    a = [1, [2]]
    copies, deep = S.make_list(a, n), S.make_list(a, n, True)
    assert all(c == a and c is not a and c[1] is a[1] for c in copies) and all(c == a and c[1] is not a[1] for c in deep)
    assert exhaust(iter(x)) is None


def gen_run(rng, size):
    for _ in range(400 * size):
        yield {'x': [[rng.randint(1, 5) for _ in range(rng.randint(0, 3))] for _ in range(rng.randint(0, 4))], 'kind': rng.choice(KINDS), 'fail': rng.randint(0, 8)}


class Elem:
    def __init__(self, log, i, fail):
        self.log, self.i, self.fail, self.v = log, i, fail, 8

    def add(self, a, b=0):
        if self.i == self.fail:
            raise KeyError(self.i)
        self.log.append([self.i, a, b])
        return 'result'

    def inplace(name):
        def f(self, o):
            self.v = getattr(operator, name)(self.v, o)
            self.log.append([self.i, name, o])
            return self
        return f
    __iadd__, __isub__, __imul__, __itruediv__ = inplace('add'), inplace('sub'), inplace('mul'), inplace('truediv')
    __ifloordiv__, __ilshift__, __irshift__, __ipow__ = inplace('floordiv'), inplace('lshift'), inplace('rshift'), inplace('pow')


INPLACE = ['add', 'sub', 'mul', 'truediv', 'floordiv', 'lshift', 'rshift', 'pow']


@case('the same operation for a whole sequence', gen_run, 'up to 4 elements')
def run_all(inp):
    for quiet in (False, True):
        log = []
        es = [Elem(log, i, inp['fail']) for i in range(len(inp['x']))]
        n = min(len(es), inp['fail'])
        m = S.Multirun(kinds(inp['kind'], es), quiet)
        assert bool(m) == bool(es), 'bool'
        assert list(m) == es and list(m) == es, 'elements'
        try:
            r = m.add(3, b=4)
            assert n == len(es), 'the exception was lost'
            assert r is None if quiet else r == es, 'result'
        except KeyError as e:
            assert n < len(es) and e.args == (n, ), 'raised'
        assert log == [[i, 3, 4] for i in range(n)], log
        for name in INPLACE:
            del log[:]
            was = m
            before = [e.v for e in es]
            m = getattr(operator, 'i' + name)(m, 2)
            assert m is was, 'the result of an in-place operation'
            assert log == [[i, name, 2] for i in range(len(es))], '%s: %r' % (name, log)
            assert [e.v for e in es] == [getattr(operator, name)(v, 2) for v in before]
            for e in es:
                e.v = 8
        try:
            m.missing(1)
            assert not es, 'a missing method'
        except AttributeError:
            assert es


def gen_hint(rng, size):
    for _ in range(400 * size):
        yield {'x': data(rng), 'length': rng.choice([None, 0, 3, 9]), 'factory': rng.choice([None, 0, 5]), 'end': rng.choice(['close', 'exhaust', 'with', 'throw']),
               'send': rng.choice([None, 7]), 'used': rng.randint(0, 9), 'add': rng.randint(0, 3), 'called': rng.random() < .5}


@case('hints of lengths, and generators that complete', gen_hint, 'generators of up to 7 elements')
def hints(inp):
    x, log = inp['x'], []

    def g(off=0, *, add=0):
        for v in x:
            r = yield v + off + add
            if r is not None:
                log.append(r)
        log.append('end')

    want = [v + 1 + inp['add'] for v in x] if inp['called'] else x
    n, f = inp['length'], inp['factory']
    asked = []

    def factory():
        asked.append(1)
        return f + len(asked)
    try:
        h = hint_with_length(g if inp['called'] else g(), n, None if f is None else factory)
    except ValueError:
        assert (n is None) == (f is None), 'refused'
        return
    assert (n is None) != (f is None), 'a length and a factory, or neither, should be refused'
    if inp['called']:
        h = h(1, add=inp['add'])
    for _ in range(2):
        # the factory is asked each time
        assert operator.length_hint(h) == (n if f is None else f + len(asked)), 'length hint'
    if inp['send'] and x:
        assert next(h) == want[0]
        try:
            v = h.send(inp['send'])
            assert v == want[1]
        except StopIteration:
            assert len(x) == 1
        assert log[:1] == [inp['send']], 'what was sent'
    else:
        assert list(iter(h)) == want and log == ['end']
    h.close()
    try:
        next(h)
        raise AssertionError('a closed generator goes on')
    except StopIteration:
        pass
    del log[:]
    s = SelfClosingGenerator(g)(1, add=inp['add']) if inp['called'] else SelfClosingGenerator(g())
    got = []
    for _ in range(min(inp['used'], len(x) + 1)):
        try:
            got.append(next(s))
        except StopIteration:
            assert len(got) == len(x), 'ended early'
    assert got == want[:len(got)], got
    if inp['send'] and 0 < len(got) < len(x) and inp['used'] <= len(x):
        assert s.send(inp['send']) == want[len(got)] and log == [inp['send']], 'what was sent'
        del log[:]
    if inp['end'] == 'close':
        s.close()
        s.close()
    elif inp['end'] == 'exhaust':
        list(s)
    else:
        try:
            with s as q:
                assert q is s
                if inp['end'] == 'throw':
                    raise KeyError
            assert inp['end'] == 'with', 'the exception was lost'
        except KeyError:
            assert inp['end'] == 'throw'
    assert log == ['end'], 'completed %d times' % len(log)
    try:
        next(s)
        raise AssertionError('a closed generator goes on')
    except StopIteration:
        pass
    s.close()
    del s
    assert log == ['end'], 'completed %d times' % len(log)


class BadIter:
    def __iter__(self):
        return self

    def __next__(self):
        raise TypeError('within')


@case('failing elements', lambda rng, size: [{}], 'a chain with an element that fails while iterated over')
def failing(inp):
    try:
        list(chain(BadIter()))
        raise AssertionError('yielded')
    except TypeError:
        pass


main('C23')
