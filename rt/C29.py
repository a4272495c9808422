import queue
import random
import sys
import threading
import time
import warnings

from base import case, main
from satella.coding import Context, CopyDocsFrom, DocsFromParent, dont_wrap, metaclass_maker, static_var, wrap_property, wrap_with
from satella.coding.concurrent import LockedStructure
from satella.coding.structures import ReprableMixin, StrEqHashableMixin, Subqueue, typednamedtuple
from satella.random import random_binary, random_word, shuffle_together


class Boom(Exception):
    pass


MISSING = 'missing'


# ---- contexts -------------------------------------------------------------------------------------------------------
def gen_context(rng, size):
    for _ in range(500 * size):
        ops = []
        for _ in range(rng.randint(1, 14)):
            r = rng.random()
            name = rng.choice('abc')
            ops.append(['enter', rng.choice([{}, {}, {'a': 9}, {'b': 8, 'c': 7}])] if r < .25 else ['leave', rng.random() < .3] if r < .45 else ['set', name, rng.randint(0, 5)] if r < .7
                       else ['del', name] if r < .8 else ['push', name, rng.choice([None, 1, 2])] if r < .92 else ['thread', name])
        yield {'ops': ops, 'outermost': rng.random() < .3}


@case('contexts', gen_context, 'up to 14 operations on up to 14 layers')
def contexts(inp):
    err = []

    def work():
        try:
            if inp.get('outermost'):
                cm = Context(a=9)
                c = cm.__enter__()
                c.b = 8
                assert Context.get() is c and c.a == 9 and c.b == 8
                cm.__exit__(None, None, None)
                c = Context.get()
                assert c is not None and Context.get() is c and not c.does_exist('a') and not c.does_exist('b'), 'the outermost layer is left, and still there'
            body(inp['ops'])
        except BaseException as e:
            err.append(e)
    t = threading.Thread(target=work)      # a thread starts without a context
    t.start()
    t.join()
    if err:
        raise err[0]


ARITY = {'enter': 2, 'leave': 2, 'set': 3, 'del': 2, 'push': 3, 'thread': 2}


def body(ops):
    layers = [{}]       # from the outermost
    ctxs = [(Context.get(), None)]

    def lookup(n, upto):
        for layer in reversed(layers[:upto]):
            if n in layer:
                return layer[n]
        return MISSING

    def check(what):
        assert Context.get() is ctxs[-1][0], '%s: the context is not the one entered last' % what
        for i, (c, _) in enumerate(ctxs):
            for n in 'abc':
                want = lookup(n, i + 1)
                got = getattr(c, n, MISSING)
                assert got == want, '%s: %s of layer %d is %r, not %r' % (what, n, i, got, want)
                assert c.does_exist(n) is (want != MISSING), '%s: does_exist(%s) of layer %d' % (what, n, i)
    for step in ops:
        if len(step) != ARITY.get(step[0] if step and type(step[0]) is str else None):
            continue
        op, *a = step
        cur = ctxs[-1][0]
        if op == 'enter':
            cm = Context(**a[0])
            ctxs.append((cm.__enter__(), cm))
            layers.append(dict(a[0]))
        elif op == 'leave':
            if len(ctxs) == 1:
                continue
            e = Boom('x') if a[0] else None
            assert not ctxs[-1][1].__exit__(type(e) if e else None, e, None), 'an exception is lost'
            ctxs.pop()
            layers.pop()
        elif op == 'set':
            setattr(cur, a[0], a[1])
            layers[-1][a[0]] = a[1]
        elif op == 'del':
            delattr(cur, a[0])
            layers[-1][a[0]] = MISSING
        elif op == 'push':
            if len(layers) == 1:
                continue
            if a[1] is not None:
                cur.push_up(a[0], a[1])
                layers[-2][a[0]] = a[1]
            elif layers[-1].get(a[0], MISSING) != MISSING:
                cur.push_up(a[0])
                layers[-2][a[0]] = layers[-1].pop(a[0])
        else:
            seen = []

            def other():
                seen.append(getattr(Context.get(), a[0], MISSING))
                setattr(Context.get(), a[0], 77)
            t = threading.Thread(target=other)
            t.start()
            t.join()
            assert seen == [MISSING], 'a context of another thread is visible'
        check(op)


# ---- queues by name -------------------------------------------------------------------------------------------------
def gen_queues(rng, size):
    for _ in range(400 * size):
        yield {'ops': [[rng.choice(['put', 'put', 'get', 'any', 'assert']), rng.choice('xyz')] for _ in range(rng.randint(1, 15))], 'threads': False}
    for _ in range(3 * size):
        yield {'ops': [], 'threads': True}


@case('queues by name', gen_queues, 'up to 15 operations on 3 queues')
def queues(inp):
    q = Subqueue()
    model = {}
    for i, (op, n) in enumerate(inp['ops']):
        if op == 'put':
            q.put(n, i)
            model.setdefault(n, []).append(i)
        elif op == 'assert':
            q.assert_queue(n)
        elif op == 'get':
            try:
                got = q.get(n, block=False)
            except queue.Empty:
                got = None
            want = model[n].pop(0) if model.get(n) else None
            assert got == want, 'from %s got %r, not %r' % (n, got, want)
        else:
            try:
                m, got = q.get_any()
            except queue.Empty:
                assert not any(model.values()), 'nothing, and there is %r' % model
            else:
                assert model.get(m) and model[m][0] == got, 'got %r of %s, of %r' % (got, m, model)
                model[m].pop(0)
        assert q.qsize() == sum(map(len, model.values())), '%r in all, not %r' % (q.qsize(), model)
    for s in (0, 1):
        try:
            q.get('none', True, .001)
        except queue.Empty:
            pass
        else:
            assert False, 'got something out of nothing'
    if not inp['threads']:
        return
    old, err = sys.getswitchinterval(), []
    sys.setswitchinterval(1e-6)
    try:
        def add():
            for i in range(400):
                q.put('n%d' % i, i)
        t = threading.Thread(target=add)
        t.start()
        got = []
        while t.is_alive() or len(got) < 400:
            q.qsize()
            try:
                got.append(q.get_any()[1])
            except queue.Empty:
                pass
        t.join()
        assert sorted(got) == list(range(400)), 'messages are lost or doubled'
    finally:
        sys.setswitchinterval(old)
    got = []
    t = threading.Thread(target=lambda: got.append(q.get('later')), daemon=True)
    t.start()
    t.join(.05)
    waits = t.is_alive()
    q.put('later', 'message')
    t.join(10)
    assert got == ['message'], 'get() does not wait for a message (%s)' % waits
    real, made = queue.Queue, []

    class Slow(real):
        def __init__(self, *a):
            made.append(self)
            time.sleep(.03 * len(made))
            super().__init__(*a)
    queue.Queue = Slow
    try:
        q = Subqueue()
        ts = [threading.Thread(target=q.put, args=('new', i), daemon=True) for i in range(3)]
        for t in ts:
            t.start()
            time.sleep(.005)
        for t in ts:
            t.join(10)
        assert sorted(q.get('new', False) for _ in range(q.qsize())) == [0, 1, 2], 'messages are lost if several threads put to a new name'
    finally:
        queue.Queue = real


# ---- locked structures ----------------------------------------------------------------------------------------------
def gen_locked(rng, size):
    for own in (False, True):
        for fails in (False, True):
            yield {'own': own, 'fails': fails}


@case('locked structures', gen_locked, 'two threads')
def locked(inp):
    lock = threading.Lock()
    class D(dict):
        pass
    d = D()
    s = LockedStructure(d, lock) if inp['own'] else LockedStructure(d)
    inside, events = threading.Event(), []

    def other():
        with s:
            events.append('other')
            s['k'] = 2
    t = threading.Thread(target=other)
    try:
        with s as x:
            assert x is s
            s['k'] = 1
            t.start()
            t.join(.05)
            events.append('first')
            s.attr = 7
            assert d.__dict__ == {'attr': 7} and s.attr == 7, 'an attribute is not set inside'
            assert s['k'] == 1 and len(s) == 1 and list(s) == ['k'], 'another thread is inside'
            assert lock.locked() is inp['own']
            if inp['fails']:
                raise Boom()
    except Boom:
        assert inp['fails']
    else:
        assert not inp['fails'], 'an exception is lost'
    t.join(10)
    assert events == ['first', 'other'] and s['k'] == 2, 'in turn %r' % events
    assert not lock.locked()


# ---- metaclasses ----------------------------------------------------------------------------------------------------
def gen_meta(rng, size):
    for _ in range(300 * size):
        yield {'src': {n: rng.choice([None, 'doc of ' + n]) for n in rng.sample(['f', 'g', 'h', 'attr', '__doc__'], rng.randint(0, 4))},
               'own': [[n, rng.choice([None, None, 'mine ' + n])] for n in rng.sample(['f', 'g', 'h', 'k', '__doc__'], rng.randint(0, 5))], 'depth': rng.randint(1, 3)}


def function(doc, result):
    def f(self, *a):
        return result
    f.__doc__ = doc
    return f


@case('documentation of methods', gen_meta, 'up to 4 methods, up to 3 levels')
def docs(inp):
    src, own = inp['src'], inp['own']
    body = {n: (function(d, 'src' + n) if n != '__doc__' else d) for n, d in src.items()}
    Source = type('Source', (), body)

    def mine():
        return {n: (function(d, 'own' + n) if n != '__doc__' else d) for n, d in own if n != '__doc__' or d}
    T = CopyDocsFrom(Source)('T', (), mine())
    classes = [(T, False)]
    Base = Source
    for i in range(inp['depth'] - 1):
        Base = type('Mid%d' % i, (Base,), {'__doc__': None})
    classes.append((DocsFromParent('D', (Base,), mine()), True))
    for c, inherits in classes:
        for n, d in own:
            if n == '__doc__':
                continue
            want = d or src.get(n)
            assert getattr(c, n).__doc__ == want, '%s: documentation of %s is %r, not %r' % (c.__name__, n, getattr(c, n).__doc__, want)
            assert getattr(c(), n)() == 'own' + n, 'the method is another one'
        want = dict(own).get('__doc__') or src.get('__doc__')
        assert c.__doc__ == want, '%s: documentation is %r, not %r' % (c.__name__, c.__doc__, want)
        assert issubclass(c, Source) is inherits
    # of two bases: the first that is documented, one level before the next
    First = type('First', (Source,), {'__doc__': 'first' if inp['depth'] == 2 else None})
    Second = type('Second', (), {'__doc__': 'second', 'f': function('second f', 2), 'k': function('second k', 2)})
    E = DocsFromParent('E', (First, Second), {n: function(None, n) for n in 'fgk'})
    for n in 'fgk':
        want = src.get(n) or {'f': 'second f', 'k': 'second k'}.get(n)
        assert getattr(E, n).__doc__ == want, 'documentation of %s of a class of two bases is %r, not %r' % (n, getattr(E, n).__doc__, want)
    got = E.__doc__
    assert got == (First.__doc__ or 'second'), 'documentation of a class of two bases is %r' % got


def gen_wrap(rng, size):
    for _ in range(300 * size):
        yield {'members': [[n, rng.choice(['fun', 'fun', 'prop', 'value', 'kept'])] for n in rng.sample(['a', 'b', 'c', 'd', 'e'], rng.randint(0, 5))], 'select': rng.choice([None, 'ab', 'c']),
               'which': rng.choice(['both', 'callables', 'properties'])}


@case('wrapping members of classes', gen_wrap, 'up to 5 members')
def wrapping(inp):
    body = {}
    for n, k in inp['members']:
        if k in ('fun', 'kept'):
            body[n] = function(n, n)
            if k == 'kept':
                assert dont_wrap(body[n]) is body[n]
        elif k == 'prop':
            def make(n):
                def fget(self):
                    return self.__dict__.get('_' + n, n)

                def fset(self, v):
                    self.__dict__['_' + n] = v

                def fdel(self):
                    self.__dict__['_' + n] = 'deleted'
                return property(fget, fset, fdel)
            body[n] = make(n)
        else:
            body[n] = 5
    names = {id(v): n for n, v in body.items()}
    kw = {}
    if inp['which'] != 'properties':
        kw['callables'] = lambda f: lambda self, *a: ('wrapped', f(self, *a))
    if inp['which'] != 'callables':
        kw['properties'] = wrap_property(lambda g: lambda s: ('got', g(s)), lambda st: lambda s, v: st(s, ('set', v)), lambda dl: lambda s: (dl(s), setattr(s, 'gone', 1))[0])
    if inp['select']:
        kw['selector_callables'] = kw['selector_properties'] = lambda f: names[id(f)] in inp['select']
    C = wrap_with(**kw)('C', (), dict(body))
    c = C()
    for n, k in inp['members']:
        on = not inp['select'] or n in inp['select']
        if k == 'kept':
            assert getattr(c, n)() == n, 'wrapped though told not to'
        elif k == 'fun':
            w = on and 'callables' in kw
            assert getattr(c, n)() == (('wrapped', n) if w else n), '%s gives %r' % (n, getattr(c, n)())
        elif k == 'value':
            assert getattr(c, n) == 5
        else:
            w = on and 'properties' in kw
            g = lambda x: ('got', x) if w else x
            assert getattr(c, n) == g(n)
            setattr(c, n, 3)
            assert getattr(c, n) == g(('set', 3) if w else 3), 'set to %r' % (getattr(c, n),)
            delattr(c, n)
            assert getattr(c, n) == g('deleted') and c.__dict__.pop('gone', 0) == int(w)


def gen_conflict(rng, size):
    for _ in range(150 * size):
        yield {'metas': [rng.randint(0, 3) for _ in range(rng.randint(1, 3))]}


@case('classes of several metaclasses', gen_conflict, 'up to 3 bases')
def conflict(inp):
    M1 = type('M1', (type,), {'m1': lambda cls: 1})
    M2 = type('M2', (type,), {'m2': lambda cls: 2})
    M3 = type('M3', (M1,), {'m3': lambda cls: 3})
    metas = [type, M1, M2, M3]
    bases = tuple(metas[m]('B%d' % i, (), {'at%d' % i: i}) for i, m in enumerate(inp['metas']))
    for _ in range(2):
        C = metaclass_maker('C', bases, {'x': 5})
        assert C.__name__ == 'C' and C.__bases__ == bases and C.x == 5
        for i, m in enumerate(inp['metas']):
            assert isinstance(C, metas[m]), 'not of the metaclass of its base'
            assert getattr(C, 'at%d' % i) == i


# ---- typed tuples, mix-ins, random helpers --------------------------------------------------------------------------
def gen_tuple(rng, size):
    for _ in range(500 * size):
        n = rng.randint(0, 4)
        types = [rng.choice(['int', 'str', 'float', 'none', 'self']) for _ in range(n)]
        given = [rng.choice([1, '2', 3.5, '4']) for _ in range(n)]
        yield {'types': types, 'given': given, 'positional': rng.randint(0, n), 'wrong': rng.choice([None, None, None, 'more', 'less', 'unknown', 'twice'])}


@case('typed tuples', gen_tuple, 'up to 4 fields')
def typed(inp):
    T = {'int': int, 'str': str, 'float': float, 'none': None, 'self': 'self'}
    fields = ['f%d' % i for i in range(len(inp['types']))]
    cls = typednamedtuple('Cls', *[(f, T[t]) for f, t in zip(fields, inp['types'])])
    p = inp['positional']
    args, kw = list(inp['given'][:p]), dict(zip(fields[p:], inp['given'][p:]))
    wrong = inp['wrong']
    want, bad = [], False
    for v, t in zip(inp['given'], inp['types']):
        t = T[t]
        try:
            want.append(v if t in (None, 'self') or isinstance(v, t) else t(v))
        except ValueError:
            bad = True
    if wrong == 'more':
        args = inp['given'] + [5]
        kw = {}
    elif wrong == 'less' and fields:
        if kw:
            kw.pop(sorted(kw)[0])
        else:
            args.pop()
    elif wrong == 'unknown':
        kw['zzz'] = 1
    elif wrong == 'twice' and p:
        kw[fields[0]] = 1
    elif wrong:
        wrong = None
    try:
        r = cls(*args, **kw)
    except TypeError:
        assert wrong or bad, 'refused'
        return
    except ValueError:
        assert bad, 'refused'
        return
    assert not wrong, 'accepted with %s arguments: %r' % (wrong, r)
    assert not bad
    assert tuple(r) == tuple(want) and [type(x) for x in r] == [type(x) for x in want], '%r, not %r' % (tuple(r), want)
    assert all(x is v for x, v, t in zip(r, inp['given'], inp['types']) if T[t] in (None, 'self') or isinstance(v, T[t]))

    class Sub(int):
        pass
    x = Sub(4)
    assert typednamedtuple('One', ('x', int))(x).x is x, 'converted though of that type'
    assert [getattr(r, f) for f in fields] == want and isinstance(r, cls) and isinstance(r, tuple), 'not an instance of its class'
    assert r == cls(*want) and hash(r) == hash(tuple(want))


def gen_small(rng, size):
    for _ in range(300 * size):
        yield {'n': rng.randint(0, 12), 'seqs': rng.randint(0, 3), 'fields': rng.sample(['x', 'y', 'z'], rng.randint(0, 3)), 'full': rng.random() < .5, 'vals': [rng.choice([1, 'a', None, [2]]) for _ in range(3)]}


@case('mix-ins and random helpers', gen_small, 'up to 12 elements, up to 3 sequences')
def small(inp):
    n = inp['n']
    w = random_word(n)
    assert type(w) is str and len(w) == n and all('a' <= c <= 'z' for c in w), 'word %r' % w
    assert set(random_word(n, 'xy')) <= set('xy') and random_word(n, [7], sum) == 7 * n and len(random_word(n, [1, 2], list)) == n
    b = random_binary(n)
    assert type(b) is bytes and len(b) == n, 'bytes %r' % b
    seqs = [list(range(n)), tuple(str(i) for i in range(n)), [[i] for i in range(n)]][:inp['seqs']]
    orig = [list(s) for s in seqs]
    out = shuffle_together(*seqs)
    assert len(out) == len(seqs) and [list(s) for s in seqs] == orig, 'the arguments are changed'
    assert any(shuffle_together(range(30)) != [list(range(30))] for _ in range(3)), 'not shuffled'
    for s, o in zip(out, orig):
        assert sorted(s, key=repr) == sorted(o, key=repr), 'not a permutation'
        assert all(s[i] == o[j] for i, j in enumerate(out[0])), 'indices do not correspond'

    class R(ReprableMixin):
        _REPR_FIELDS = tuple(inp['fields'])
        _REPR_FULL_CLASSNAME = inp['full']

        def __init__(self):
            self.x, self.y, self.z = inp['vals']
    name = '%s.%s' % (R.__module__, R.__qualname__) if inp['full'] else 'R'
    vals = dict(zip('xyz', inp['vals']))
    assert repr(R()) == '%s(%s)' % (name, ', '.join(repr(vals[f]) for f in inp['fields'])), repr(R())

    class S(StrEqHashableMixin):
        def __init__(self, v):
            self.v = v

        def __str__(self):
            return str(self.v)
    a, b, c = S(n), S(str(n)), S(n + 1)
    assert a == b and hash(a) == hash(b) and a != c and a == str(n) and len({a, b, c}) == 2

    @static_var('counter', n)
    def f():
        f.counter += 1
        return f.counter
    assert (f(), f(), f.counter) == (n + 1, n + 2, n + 2)


main('C29')
