import coop
from base import case, main
import itertools
import operator
from satella.coding.concurrent import AtomicNumber

INPLACE = {'+=': operator.add, '-=': operator.sub, '*=': operator.mul, '//=': operator.floordiv,
           '/=': operator.truediv, '&=': operator.and_, '|=': operator.or_, '^=': operator.xor,
           '<<=': operator.lshift, '>>=': operator.rshift, '**=': operator.pow}
BIN = {'+': operator.add, '-': operator.sub, '*': operator.mul, '//': operator.floordiv, '/': operator.truediv,
       '&': operator.and_, '|': operator.or_, '^': operator.xor, '<<': operator.lshift, '>>': operator.rshift,
       '**': operator.pow, '>': operator.gt, '<': operator.lt, '>=': operator.ge, '<=': operator.le,
       '==': operator.eq, '!=': operator.ne}


def attempt(f):
    try:
        return f()
    except Exception as e:
        return type(e)


def gen(rng, size):
    vals = [0, 1, -1, 2, 5, -3]
    for v in vals:
        for w in vals:
            for o in list(INPLACE) + list(BIN):
                if '*' in o and abs(w) > 3:
                    continue
                yield {'v': v, 'ops': [[o, w]]}
    for _ in range(500 * size):
        yield {'v': rng.randint(-4, 9),
               'ops': [[rng.choice(list(INPLACE)[:8] + list(BIN)[:8]), rng.randint(-3, 4)]
                       for _ in range(rng.randint(1, 8))]}


@case('sequential arithmetic', gen, 'up to 8 operations')
def run(inp):
    a = AtomicNumber(inp['v'])
    v = inp['v']
    for o, w in inp['ops']:
        if o in INPLACE:
            def f():
                ns = {'a': a, 'w': w}
                exec('a %s w' % o, ns)
                assert ns['a'] is a, 'in-place operation rebinds'
                return a.value

            def g():
                return INPLACE[o](v, w)
            r, e = attempt(f), attempt(g)
            assert r == e, '%r %s %r: %r, expected %r' % (v, o, w, r, e)
            if not isinstance(e, type):
                v = e
        else:
            r, e = attempt(lambda: BIN[o](a, w)), attempt(lambda: BIN[o](v, w))
            assert r == e and type(r) is type(e), '%r %s %r: %r, expected %r' % (v, o, w, r, e)
            if o not in ('<', '<=', '>', '>=', '==', '!='):
                r, e = attempt(lambda: BIN[o](w, a)), attempt(lambda: BIN[o](w, v))
                assert r == e and type(r) is type(e), '%r %s [%r]: %r, expected %r' % (w, o, v, r, e)
        assert a == v and int(a) == int(v) and float(a) == float(v) and bool(a) == bool(v) and abs(a) == abs(v) and \
            -a == -v and +a == +v and str(a) == str(v), 'reads disagree with %r' % (v,)


def gen2(rng, size):
    for _ in range(400 * size):
        yield {'seed': rng.randint(0, 10 ** 9), 'p': rng.choice([0.05, 0.2]), 'v': rng.randint(0, 3),
               'ops': [[[rng.choice(['+=', '*=', '-=', '|=', '^=', '//=', '<<=', '&=']), rng.randint(1, 3)]
                        for _ in range(rng.randint(1, 2))] for _ in range(rng.randint(2, 3))]}


def interleavings(ls):
    if not any(ls):
        yield []
        return
    for i, l in enumerate(ls):
        if l:
            for r in interleavings(ls[:i] + [l[1:]] + ls[i + 1:]):
                yield [l[0]] + r


@case('concurrent updates linearise', gen2, '2-3 threads, up to 2 updates each, random schedules')
def run2(inp):
    with coop.patched():
        a = AtomicNumber(inp['v'])

    def body(ops):
        def f():
            for o, w in ops:
                exec('a %s w' % o, {'a': a, 'w': w})
        return f

    for r, e in coop.schedule(inp['seed'], [body(o) for o in inp['ops']], inp['p']):
        if e is not None:
            raise e
    ok = set()
    for seq in interleavings(inp['ops']):
        v = inp['v']
        for o, w in seq:
            v = INPLACE[o](v, w)
        ok.add(v)
    assert a.value in ok, 'final value %r is not the result of any order of the updates (%r)' % (a.value, ok)


def gen3(rng, size):
    for o in INPLACE:
        for seed in range(3 * size):
            yield {'op': o, 'seed': seed}


@case('a change wakes a waiting thread', gen3, 'one waiter, one update')
def run3(inp):
    with coop.patched():
        a = AtomicNumber(6)
    s = coop.Sched(inp['seed'], 0.1)

    def upd():
        s.block(lambda: s.tasks[0].done or (s.tasks[0].waiting is not None and not s.runnable(s.tasks[0])))
        with_ = {'/=': 4, '//=': 4}.get(inp['op'], 3)
        exec('a %s w' % inp['op'], {'a': a, 'w': with_})

    def wait():
        with coop.patched():
            a.wait()
    for t in s.run([wait, upd]):
        if t.exc is not None:
            raise t.exc


def gen4(rng, size):
    for o in ('a + a', 'a == a', 'a - a', 'a < a', 'a * a'):
        yield {'expr': o}


@case('a number combined with itself', gen4, 'five expressions')
def run4(inp):
    with coop.patched():
        a = AtomicNumber(5)
    (r, e), = coop.schedule(1, [lambda: eval(inp['expr'], {'a': a})])
    if e is not None:
        raise e
    assert r == eval(inp['expr'], {'a': 5}), r


def gen5(rng, size):
    yield {'expr': ['a + b', 'b + a'], 'schedules': 200}


@case('two numbers combined in opposite orders by two threads', gen5, '200 schedules')
def run5(inp):
    for seed in range(inp['schedules']):
        with coop.patched():
            a, b = AtomicNumber(1), AtomicNumber(2)
        ns = {'a': a, 'b': b}
        for r, e in coop.schedule(seed, [lambda x=x: eval(x, ns) for x in inp['expr']]):
            if e is not None:
                raise e
            assert r == 3, r


main('C02')
