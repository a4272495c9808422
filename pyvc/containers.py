"""Symbolic counterparts of dict, set, list/deque and (heap-ordered) bags: arbitrary finite contents, no size bound."""
import z3

from .core import *
from . import core


class Container(Sym):
    """t is unused; the state lives in .s (dict of terms)"""
    __slots__ = ('s', 'name', 'guard', 'cache')
    pytype = object

    def __init__(self, name):
        super().__init__(None)
        self.name = name
        self.s = {}
        self.guard = None
        self.cache = {}

    def acc(self, write=False):
        if self.guard is not None:
            self.guard(self, write)

    def snap(self):
        return dict(self.s)

    def restore(self, s):
        self.s = dict(s)
        self.cache = {}

    def changed(self, snap):
        return any(not self.s[k].eq(snap[k]) for k in self.s)

    def havoc(self, base):
        ctx = cur()
        for k, t in list(self.s.items()):
            self.s[k] = ctx.fresh('%s.%s' % (base, k), t.sort())
        self.cache = {}
        ctx.assume(self.s['n'] >= 0)
        self.wf()

    def wf(self):
        pass

    def set(self, **kw):
        self.acc(True)
        self.s.update({k: z3.simplify(v) if k != 'arr' else v for k, v in kw.items()})
        self.cache = {}

    @property
    def n(self):
        return self.s['n']

    def sym_len(self):
        self.acc()
        self.len_facts()
        return IntC.wrap(self.n)

    def len_facts(self):
        pass

    def __bool__(self):
        self.acc()
        self.len_facts()
        return cur().fork(self.n > 0)

    def __len__(self):
        v = self.sym_len()
        if isinstance(v, int):
            return v
        raise Unsupported('native len() of a symbolic container')

    __hash__ = Sym.__hash__


def const_array(ks, v):
    return z3.K(ks, v)


# --------------------------------------------------------------------------------------------------- views
class View:
    """an indexed, possibly infinite, symbolic sequence of Python values"""
    pytype = object

    def __init__(self, n, at, src=None, term=None):
        self.n, self.at, self.src = n, at, src
        self.term = term

    def __iter__(self):
        raise Unsupported('native iteration over a symbolic sequence')

    def __next__(self):
        raise Unsupported('next() on a symbolic sequence')

    def __bool__(self):
        return True


def as_view(x):
    """View of a symbolic iterable, or None"""
    if issubclass(type(x), View):
        return x
    if issubclass(type(x), Container):
        return x.view()
    if issubclass(type(x), SRange):
        return View(x.n, x.at, x)
    f = getattr(type(x), '_pv_view', None)
    if f is not None:
        return f(x)
    return None


class SRange:
    pytype = range

    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = start, stop, step
        if step not in (1, -1):
            raise Unsupported('symbolic range with a step')
        a, b = IntC.unwrap(start), IntC.unwrap(stop)
        d = (b - a) if step == 1 else (a - b)
        self.a = a
        self.n = z3.simplify(z3.If(d > 0, d, z3.IntVal(0)))

    def at(self, i):
        return IntC.wrap(self.a + i if self.step == 1 else self.a - i)

    def __iter__(self):
        raise Unsupported('native iteration over a symbolic range')

    def sym_len(self):
        return IntC.wrap(self.n)

    def __contains__(self, x):
        t = IntC.unwrap(x)
        if self.step == 1:
            return cur().fork(z3.And(self.a <= t, t < IntC.unwrap(self.stop)))
        return cur().fork(z3.And(self.a >= t, t > IntC.unwrap(self.stop)))


# --------------------------------------------------------------------------------------------------- keyed
class _Keyed(Container):
    __slots__ = ('kc', 'wit')

    def __init__(self, name, kc, empty=False):
        super().__init__(name)
        self.kc = kc
        ctx = cur()
        if empty:
            self.s['pres'] = z3.K(kc.sort, z3.BoolVal(False))
            self.s['n'] = z3.IntVal(0)
        else:
            self.s['pres'] = ctx._inp(name + '.keys', ctx.fresh(name + '.pres', z3.ArraySort(kc.sort,
                                                                                             z3.BoolSort())))
            self.s['n'] = ctx.fresh(name + '.n', z3.IntSort())
            ctx.assume(self.s['n'] >= 0)

    def has(self, kt):
        return z3.Select(self.s['pres'], kt)

    def __contains__(self, k):
        self.acc()
        kt = self.kc.unwrap(k)
        r = cur().fork(self.has(kt))
        if r:
            cur().assume(self.n >= 1)
        return r

    def len_facts(self):
        if 'lf' in self.cache:
            return
        self.cache['lf'] = True
        ctx = cur()
        w = ctx.fresh(self.name + '.wit', self.kc.sort)
        ctx.assume(z3.Implies(self.n > 0, self.has(w)))
        x = z3.Const('x!' + self.kc.name, self.kc.sort)
        ctx.assume(z3.Implies(self.n == 0, z3.ForAll([x], z3.Not(self.has(x)))))
        # n == 1: exactly one
        y = z3.Const('y!' + self.kc.name, self.kc.sort)
        ctx.assume(z3.Implies(self.n == 1, z3.ForAll([x], self.has(x) == (x == w))))

    def _add_key(self, kt):
        p = self.s['pres']
        self.set(pres=z3.Store(p, kt, z3.BoolVal(True)),
                 n=z3.If(z3.Select(p, kt), self.n, self.n + 1))

    def _del_key(self, kt):
        self.set(pres=z3.Store(self.s['pres'], kt, z3.BoolVal(False)), n=self.n - 1)

    def enum(self):
        """an enumeration of the keys: (arr, n); every key occurs exactly once"""
        if 'enum' in self.cache:
            return self.cache['enum']
        ctx = cur()
        nm = ctx.fresh_name(self.name + '.order')
        arr = z3.Const(nm, z3.ArraySort(z3.IntSort(), self.kc.sort))
        idx = z3.Function(nm + '.idx', self.kc.sort, z3.IntSort())
        j = z3.Int('j!e')
        x = z3.Const('x!' + self.kc.name, self.kc.sort)
        p = self.s['pres']
        n = self.n
        ctx.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n),
                                             z3.And(z3.Select(p, z3.Select(arr, j)),
                                                    idx(z3.Select(arr, j)) == j)),
                             patterns=[z3.Select(arr, j)]))
        ctx.assume(z3.ForAll([x], z3.Implies(z3.Select(p, x),
                                             z3.And(0 <= idx(x), idx(x) < n, z3.Select(arr, idx(x)) == x)),
                             patterns=[z3.Select(p, x)] if z3.is_const(p) else [idx(x)]))
        self.len_facts()
        self.cache['enum'] = (arr, n, idx)
        return self.cache['enum']


class SSet(_Keyed):
    __slots__ = ()
    pytype = set

    def view(self):
        self.acc()
        arr, n, idx = self.enum()
        v = View(n, lambda i: self.kc.wrap(z3.Select(arr, i)), self, lambda i: z3.Select(arr, i))
        v.idx = idx
        return v

    def add(self, k):
        self._add_key(self.kc.unwrap(k))

    def remove(self, k):
        if k not in self:
            raise KeyError(k)
        self._del_key(self.kc.unwrap(k))

    def discard(self, k):
        if k in self:
            self._del_key(self.kc.unwrap(k))

    def pop(self):
        if not self:
            raise KeyError('pop from an empty set')
        ctx = cur()
        w = ctx.fresh(self.name + '.popped', self.kc.sort)
        ctx.assume(self.has(w))
        self._del_key(w)
        return self.kc.wrap(w)

    def clear(self):
        self.set(pres=z3.K(self.kc.sort, z3.BoolVal(False)), n=z3.IntVal(0))

    def copy(self):
        self.acc()
        c = SSet(cur().fresh_name(self.name + '.copy'), self.kc, empty=True)
        c.s = dict(self.s)
        return c

    def update(self, other):
        self._bulk(other, lambda a, b: z3.Or(a, b))

    def difference_update(self, other):
        self._bulk(other, lambda a, b: z3.And(a, z3.Not(b)))

    def __ior__(self, other):
        self.update(other)
        return self

    def _bulk(self, other, f):
        ctx = cur()
        x = z3.Const('x!' + self.kc.name, self.kc.sort)
        if isinstance(other, _Keyed):
            q = z3.Select(other.s['pres'], x)
        elif isinstance(other, SRange):
            t = x
            q = z3.And(other.a <= x, x < other.a + other.n) if other.step == 1 else \
                z3.And(other.a >= x, x > other.a - other.n)
        else:
            try:
                elems = [self.kc.unwrap(v) for v in other]
            except Control:
                raise
            q = z3.Or(*[x == e for e in elems]) if elems else z3.BoolVal(False)
        n = ctx.fresh(self.name + '.n', z3.IntSort())
        ctx.assume(n >= 0)
        self.set(pres=z3.Lambda([x], f(z3.Select(self.s['pres'], x), q)), n=n)

    def union(self, *others):
        c = self.copy()
        for o in others:
            c.update(o)
        return c

    def difference(self, *others):
        c = self.copy()
        for o in others:
            c.difference_update(o)
        return c

    __or__ = union
    __sub__ = difference

    def __eq__(self, o):
        if isinstance(o, SSet):
            return mk_bool(self.s['pres'] == o.s['pres'])
        raise Unsupported('set comparison')

    __hash__ = Sym.__hash__


_MISSING = object()


class SDict(_Keyed):
    __slots__ = ('vc',)
    pytype = dict

    def __init__(self, name, kc, vc, empty=False):
        super().__init__(name, kc, empty)
        self.vc = vc
        ctx = cur()
        self.s['val'] = ctx._inp(name + '.vals', ctx.fresh(name + '.val', z3.ArraySort(kc.sort, vc.sort)))

    def at(self, kt):
        return z3.Select(self.s['val'], kt)

    def view(self):
        self.acc()
        arr, n, idx = self.enum()
        v = View(n, lambda i: self.kc.wrap(z3.Select(arr, i)), self, lambda i: z3.Select(arr, i))
        v.idx = idx
        return v

    def keys(self):
        return self.view()

    def values(self):
        v = self.view()
        arr, n, idx = self.enum()
        val = self.s['val']
        w = View(n, lambda i: self.vc.wrap(z3.Select(val, z3.Select(arr, i))), self,
                 lambda i: z3.Select(val, z3.Select(arr, i)))
        w.idx = idx
        return w

    def items(self):
        v = self.view()
        arr, n, idx = self.enum()
        val = self.s['val']
        w = View(n, lambda i: (self.kc.wrap(z3.Select(arr, i)), self.vc.wrap(z3.Select(val, z3.Select(arr, i)))), self)
        w.idx = idx
        w.is_items = True
        return w

    def __getitem__(self, k):
        if k not in self:
            raise KeyError(k)
        return self.vc.wrap(self.at(self.kc.unwrap(k)))

    def get(self, k, default=None):
        if k in self:
            return self.vc.wrap(self.at(self.kc.unwrap(k)))
        return default

    def __setitem__(self, k, v):
        kt = self.kc.unwrap(k)
        vt = self.vc.unwrap(v)
        p = self.s['pres']
        self.set(pres=z3.Store(p, kt, z3.BoolVal(True)), n=z3.If(z3.Select(p, kt), self.n, self.n + 1),
                 val=z3.Store(self.s['val'], kt, vt))

    def __delitem__(self, k):
        if k not in self:
            raise KeyError(k)
        self._del_key(self.kc.unwrap(k))

    def pop(self, k, default=_MISSING):
        if k not in self:
            if default is _MISSING:
                raise KeyError(k)
            return default
        kt = self.kc.unwrap(k)
        v = self.at(kt)
        self._del_key(kt)
        return self.vc.wrap(v)

    def popitem(self):
        if not self:
            raise KeyError('empty')
        ctx = cur()
        w = ctx.fresh(self.name + '.popped', self.kc.sort)
        ctx.assume(self.has(w))
        v = self.at(w)
        self._del_key(w)
        return self.kc.wrap(w), self.vc.wrap(v)

    def setdefault(self, k, default=None):
        if k in self:
            return self[k]
        self[k] = default
        return default

    def clear(self):
        self.set(pres=z3.K(self.kc.sort, z3.BoolVal(False)), n=z3.IntVal(0))

    def copy(self):
        self.acc()
        c = SDict(cur().fresh_name(self.name + '.copy'), self.kc, self.vc, empty=True)
        c.s = dict(self.s)
        return c

    __copy__ = copy

    def update(self, *a, **kw):
        if a:
            o = a[0]
            if isinstance(o, SDict):
                ctx = cur()
                x = z3.Const('x!' + self.kc.name, self.kc.sort)
                p, v = self.s['pres'], self.s['val']
                n = ctx.fresh(self.name + '.n', z3.IntSort())
                ctx.assume(n >= 0, )
                self.set(pres=z3.Lambda([x], z3.Or(z3.Select(p, x), z3.Select(o.s['pres'], x))),
                         val=z3.Lambda([x], z3.If(z3.Select(o.s['pres'], x), z3.Select(o.s['val'], x),
                                                  z3.Select(v, x))), n=n)
            elif isinstance(o, dict):
                for k, v in o.items():
                    self[k] = v
            else:
                for k, v in o:
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    def __eq__(self, o):
        raise Unsupported('dict comparison')

    __hash__ = Sym.__hash__


# --------------------------------------------------------------------------------------------------- lists
class SList(Container):
    __slots__ = ('ec',)
    pytype = list

    def __init__(self, name, ec, empty=False, elems=None):
        super().__init__(name)
        self.ec = ec
        ctx = cur()
        self.s['arr'] = ctx._inp(name + '.elems', ctx.fresh(name + '.arr', z3.ArraySort(z3.IntSort(), ec.sort)))
        if elems is not None:
            self.s['n'] = z3.IntVal(len(elems))
            for i, e in enumerate(elems):
                self.s['arr'] = z3.Store(self.s['arr'], i, ec.unwrap(e))
        elif empty:
            self.s['n'] = z3.IntVal(0)
        else:
            self.s['n'] = ctx._inp(name + '.len', ctx.fresh(name + '.n', z3.IntSort()))
            ctx.assume(self.s['n'] >= 0)

    def make(self, arr, n, what='tmp'):
        c = type(self)(cur().fresh_name('%s.%s' % (self.name, what)), self.ec, empty=True)
        c.s['arr'], c.s['n'] = arr, z3.simplify(n)
        return c

    @property
    def arr(self):
        return self.s['arr']

    def el(self, i):
        return z3.Select(self.s['arr'], i)

    def view(self):
        self.acc()
        arr, n = self.arr, self.n
        v = View(n, lambda i: self.ec.wrap(z3.Select(arr, i)), self, lambda i: z3.Select(arr, i))
        if 'idx' in self.cache:
            v.idx = self.cache['idx']
        return v

    def _idx(self, i, exc=IndexError):
        t = IntC.unwrap(i)
        ctx = cur()
        if ctx.fork(t < 0):
            t = t + self.n
            if ctx.fork(t < 0):
                raise exc('list index out of range')
        if ctx.fork(t >= self.n):
            raise exc('list index out of range')
        return z3.simplify(t)

    def _slice(self, s):
        if s.step not in (None, 1):
            if s.step == -1 and s.start is None and s.stop is None:
                return 'rev', None
            raise Unsupported('slice step')

        def norm(v, d):
            if v is None:
                return d
            t = IntC.unwrap(v)
            t = z3.If(t < 0, z3.If(t + self.n < 0, z3.IntVal(0), t + self.n), z3.If(t > self.n, self.n, t))
            return z3.simplify(t)

        a = norm(s.start, z3.IntVal(0))
        b = norm(s.stop, self.n)
        b = z3.simplify(z3.If(b < a, a, b))
        return a, b

    def __getitem__(self, i):
        self.acc()
        if isinstance(i, slice):
            a, b = self._slice(i)
            if isinstance(a, str):
                return self.reversed_copy()
            j = z3.Int('j!s')
            return self.make(z3.Lambda([j], z3.Select(self.arr, j + a)), b - a, 'slice')
        return self.ec.wrap(self.el(self._idx(i)))

    def __reversed__(self):
        raise Unsupported('reversed() of a symbolic list')     # the builtin is modelled

    def reversed_copy(self):
        j = z3.Int('j!s')
        return self.make(z3.Lambda([j], z3.Select(self.arr, self.n - 1 - j)), self.n, 'rev')

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            raise Unsupported('slice assignment')
        t = self._idx(i)
        self.set(arr=z3.Store(self.arr, t, self.ec.unwrap(v)))

    def _remove_range(self, a, b):
        """remove [a,b)"""
        j = z3.Int('j!s')
        arr = self.arr
        self.set(arr=z3.Lambda([j], z3.If(j < a, z3.Select(arr, j), z3.Select(arr, j + (b - a)))),
                 n=self.n - (b - a))

    def __delitem__(self, i):
        if isinstance(i, slice):
            a, b = self._slice(i)
            if isinstance(a, str):
                return self.clear()
            return self._remove_range(a, b)
        t = self._idx(i)
        self._remove_range(t, t + 1)

    def append(self, v):
        self.set(arr=z3.Store(self.arr, self.n, self.ec.unwrap(v)), n=self.n + 1)

    def insert(self, i, v):
        t = IntC.unwrap(i)
        t = z3.simplify(z3.If(t < 0, z3.If(t + self.n < 0, z3.IntVal(0), t + self.n), z3.If(t > self.n, self.n, t)))
        j = z3.Int('j!s')
        arr = self.arr
        vt = self.ec.unwrap(v)
        self.set(arr=z3.Lambda([j], z3.If(j < t, z3.Select(arr, j), z3.If(j == t, vt, z3.Select(arr, j - 1)))),
                 n=self.n + 1)

    def pop(self, i=-1):
        self.acc()
        if not self:
            raise IndexError('pop from empty list')
        t = self._idx(i)
        v = self.el(t)
        if z3.simplify(t - (self.n - 1)).eq(z3.IntVal(0)):
            self.set(n=self.n - 1)
        else:
            self._remove_range(t, t + 1)
        return self.ec.wrap(v)

    def popleft(self):
        if not self:
            raise IndexError('pop from an empty deque')
        v = self.el(z3.IntVal(0))
        self._remove_range(z3.IntVal(0), z3.IntVal(1))
        return self.ec.wrap(v)

    def appendleft(self, v):
        self.insert(0, v)

    def clear(self):
        self.set(n=z3.IntVal(0))

    def copy(self):
        self.acc()
        return self.make(self.arr, self.n, 'copy')

    __copy__ = copy

    def extend(self, o):
        v = as_view(o)
        if v is None:
            for e in o:
                self.append(e)
            return
        if v.n is None or v.term is None:
            raise Unsupported('extend with this iterable')
        j = z3.Int('j!s')
        arr, n = self.arr, self.n
        self.set(arr=z3.Lambda([j], z3.If(j < n, z3.Select(arr, j), v.term(j - n))), n=n + v.n)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        c = self.copy()
        c.extend(o)
        return c

    def reverse(self):
        j = z3.Int('j!s')
        arr, n = self.arr, self.n
        self.set(arr=z3.Lambda([j], z3.Select(arr, n - 1 - j)))

    def _find(self, v):
        """fork: index of the first element equal to v, or None"""
        ctx = cur()
        vt = self.ec.unwrap(v)
        j = z3.Int('j!s')
        ex = ctx.fresh(self.name + '.found', z3.BoolSort())
        i = ctx.fresh(self.name + '.pos', z3.IntSort())
        arr, n = self.arr, self.n
        ctx.assume(z3.If(ex, z3.And(0 <= i, i < n, z3.Select(arr, i) == vt,
                                    z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < i), z3.Select(arr, j) != vt))),
                         z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.Select(arr, j) != vt))))
        if ctx.fork(ex):
            return i
        return None

    def __contains__(self, v):
        self.acc()
        return self._find(v) is not None

    def index(self, v):
        self.acc()
        i = self._find(v)
        if i is None:
            raise ValueError('not in list')
        return IntC.wrap(i)

    def remove(self, v):
        i = self._find(v)
        if i is None:
            raise ValueError('list.remove(x): x not in list')
        self._remove_range(i, i + 1)

    def sort(self, key=None, reverse=False):
        raise Unsupported('list.sort on a symbolic list')

    def __eq__(self, o):
        raise Unsupported('list comparison')

    __hash__ = Sym.__hash__


class SDeque(SList):
    __slots__ = ()
    import collections as _c
    pytype = _c.deque

    def insert(self, i, v):
        return SList.insert(self, i, v)


# --------------------------------------------------------------------------------------------------- bags
class SBag(Container):
    """A list of which only the multiset of elements, and whether it is heap-ordered, is tracked.
    Positions are unspecified, except that element 0 of a heap-ordered list is a minimum.
    ``less(a_term, b_term)`` is the element order."""
    __slots__ = ('ec', 'less')
    pytype = list

    def __init__(self, name, ec, less, empty=False):
        super().__init__(name)
        self.ec, self.less = ec, less
        ctx = cur()
        if empty:
            self.s['cnt'] = z3.K(ec.sort, z3.IntVal(0))
            self.s['n'] = z3.IntVal(0)
            self.s['heap'] = z3.BoolVal(True)
        else:
            self.s['cnt'] = ctx._inp(name + '.contents', ctx.fresh(name + '.cnt', z3.ArraySort(ec.sort, z3.IntSort())))
            self.s['n'] = ctx.fresh(name + '.n', z3.IntSort())
            self.s['heap'] = ctx.fresh(name + '.heap', z3.BoolSort())
            ctx.assume(self.s['n'] >= 0)
            self.wf()

    def wf(self):
        x = z3.Const('x!' + self.ec.name, self.ec.sort)
        cur().assume(z3.ForAll([x], z3.Select(self.s['cnt'], x) >= 0))

    def make(self, cnt, n, heap, what='tmp'):
        c = SBag(cur().fresh_name('%s.%s' % (self.name, what)), self.ec, self.less, empty=True)
        c.s.update(cnt=cnt, n=z3.simplify(n), heap=heap)
        return c

    def cnt(self, x):
        return z3.Select(self.s['cnt'], x)

    def has(self, x):
        return self.cnt(x) > 0

    def len_facts(self):
        if 'lf' in self.cache:
            return
        self.cache['lf'] = True
        ctx = cur()
        w = ctx.fresh(self.name + '.wit', self.ec.sort)
        x = z3.Const('x!' + self.ec.name, self.ec.sort)
        ctx.assume(z3.Implies(self.n > 0, self.has(w)))
        ctx.assume(z3.Implies(self.n == 0, z3.ForAll([x], self.cnt(x) == 0)))
        ctx.assume(z3.Implies(self.n == 1, z3.ForAll([x], self.cnt(x) == z3.If(x == w, z3.IntVal(1),
                                                                               z3.IntVal(0)))))

    def top(self):
        """element 0"""
        if 'top' in self.cache:
            return self.cache['top']
        if 'enumtop' in self.cache:
            return self.cache['enumtop']
        ctx = cur()
        m = ctx.fresh(self.name + '.top', self.ec.sort)
        x = z3.Const('x!' + self.ec.name, self.ec.sort)
        ctx.assume(self.has(m))
        ctx.assume(z3.Implies(self.s['heap'], z3.ForAll([x], z3.Implies(self.has(x), z3.Not(self.less(x, m))))))
        self.cache['top'] = m
        return m

    def some(self):
        ctx = cur()
        m = ctx.fresh(self.name + '.some', self.ec.sort)
        ctx.assume(self.has(m))
        return m

    def __getitem__(self, i):
        self.acc()
        if isinstance(i, slice):
            if i.start is None and i.stop is None and i.step is None:
                return self.copy()
            raise Unsupported('slice of a bag')
        if not self:
            raise IndexError('list index out of range')
        if isinstance(i, int) and i == 0:
            return self.ec.wrap(self.top())
        ctx = cur()
        t = IntC.unwrap(i)
        if ctx.fork(z3.Or(t >= self.n, t < -self.n)):
            raise IndexError('list index out of range')
        return self.ec.wrap(self.nth(t))

    def nth(self, t):
        self.view()
        arr, n, idx = self.cache['enum']
        return z3.Select(arr, z3.simplify(z3.If(t < 0, t + n, t)))

    def _unk(self):
        return cur().fresh(self.name + '.heap', z3.BoolSort())

    def push(self, v, heap):
        vt = self.ec.unwrap(v)
        self.set(cnt=z3.Store(self.s['cnt'], vt, self.cnt(vt) + 1), n=self.n + 1, heap=heap)

    def append(self, v):
        self.push(v, z3.If(self.n == 0, z3.BoolVal(True), self._unk()))

    def insert(self, i, v):
        self.push(v, self._unk())

    def take(self, vt, heap):
        self.set(cnt=z3.Store(self.s['cnt'], vt, self.cnt(vt) - 1), n=self.n - 1, heap=heap)

    def heappop(self):
        if not self:
            raise IndexError('index out of range')
        m = self.top()
        h = self.s['heap']
        self.take(m, z3.If(h, z3.BoolVal(True), self._unk()))
        return self.ec.wrap(m)

    def pop(self, i=-1):
        if not self:
            raise IndexError('pop from empty list')
        if isinstance(i, int) and i == 0:
            m = self.top()
        else:
            t = IntC.unwrap(i)
            if cur().fork(z3.Or(t >= self.n, t < -self.n)):
                raise IndexError('pop index out of range')
            m = self.nth(t)
        self.take(m, self._unk())
        return self.ec.wrap(m)

    def remove(self, v):
        vt = self.ec.unwrap(v)
        if not cur().fork(self.has(vt)):
            raise ValueError('not in list')
        self.take(vt, self._unk())

    def clear(self):
        self.set(cnt=z3.K(self.ec.sort, z3.IntVal(0)), n=z3.IntVal(0), heap=z3.BoolVal(True))

    def copy(self):
        self.acc()
        return self.make(self.s['cnt'], self.n, self.s['heap'], 'copy')

    __copy__ = copy

    def __contains__(self, v):
        self.acc()
        return cur().fork(self.has(self.ec.unwrap(v)))

    def view(self):
        """positions are unspecified; an enumeration covering exactly the elements present"""
        self.acc()
        if 'enum' not in self.cache:
            ctx = cur()
            nm = ctx.fresh_name(self.name + '.order')
            arr = z3.Const(nm, z3.ArraySort(z3.IntSort(), self.ec.sort))
            idx = z3.Function(nm + '.idx', self.ec.sort, z3.IntSort())
            j = z3.Int('j!e')
            x = z3.Const('x!' + self.ec.name, self.ec.sort)
            c, n = self.s['cnt'], self.n
            ctx.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.Select(c, z3.Select(arr, j)) > 0),
                                 patterns=[z3.Select(arr, j)]))
            idx2 = z3.Function(nm + '.idx2', self.ec.sort, z3.IntSort())
            pat = [z3.Select(c, x)] if z3.is_const(c) else [idx(x)]
            ctx.assume(z3.ForAll([x], z3.Implies(z3.Select(c, x) > 0,
                                                 z3.And(0 <= idx(x), idx(x) < n, z3.Select(arr, idx(x)) == x)),
                                 patterns=pat))
            ctx.assume(z3.ForAll([x], z3.Implies(z3.Select(c, x) > 1,
                                                 z3.And(0 <= idx2(x), idx2(x) < n, idx2(x) != idx(x),
                                                        z3.Select(arr, idx2(x)) == x)), patterns=pat))
            self.len_facts()
            if ctx.quick(n > 0):
                m = ctx.fresh(self.name + '.top', self.ec.sort)
                ctx.assume(z3.Implies(n > 0, z3.And(m == z3.Select(arr, 0), self.has(m))))
                ctx.assume(z3.Implies(z3.And(n > 0, self.s['heap']), z3.ForAll([x], z3.Implies(
                    self.has(x), z3.Not(self.less(x, m))))))
                self.cache['enumtop'] = m
            self.cache['enum'] = (arr, n, idx)
        arr, n, idx = self.cache['enum']
        v = View(n, lambda i: self.ec.wrap(z3.Select(arr, i)), self, lambda i: z3.Select(arr, i))
        v.idx = idx
        return v

    def extend(self, o):
        if isinstance(o, (list, tuple)):
            for v in o:
                self.append(v)
            return
        if isinstance(o, SBag) and o.ec is self.ec:
            x = z3.Const('x!' + self.ec.name, self.ec.sort)
            a, b = self.s['cnt'], o.s['cnt']
            self.set(cnt=z3.Lambda([x], z3.Select(a, x) + z3.Select(b, x)), n=self.n + o.n, heap=self._unk())
            return
        raise Unsupported('extend of a bag')

    def sort(self, key=None, reverse=False):
        self.set(heap=z3.BoolVal(key is None and not reverse))

    def __eq__(self, o):
        raise Unsupported('list comparison')

    __hash__ = Sym.__hash__
