"""C10: a sparse matrix is a finite map from cells to values together with its exact extents."""
import collections
from pyvc.api import *
from pyvc.runtime import pv_lit
from satella.coding.structures.sparse_matrix import SparseMatrix, _cleanup_key

B, I = z3.BoolSort(), z3.IntSort()


def ok(ctx, out):
    ctx.check('does not fail', BoolVal(out[0] == 'ok'))
    return out[1]


class Cells(Container):
    """ghost of defaultdict(lambda: defaultdict(...)): which rows exist, which cells exist, their values, and how many cells
    each row and column has (finite cardinalities: the facts below are those of any finite set)"""
    __slots__ = ('rows',)

    def __init__(self, ctx, name='cells', empty=False):
        super().__init__(name)
        self.rows = SSet(name + '.rows', IntC, empty=empty)
        srt = dict(cell=z3.ArraySort(I, I, B), val=z3.ArraySort(I, I, ValC.sort),
                   rc=z3.ArraySort(I, I), cc=z3.ArraySort(I, I))
        self.s = {k: ctx.fresh(name + '.' + k, v) for k, v in srt.items()}
        if empty:
            r, k = z3.Ints('r!w k!w')
            ctx.assume(z3.ForAll([r], And(self.s['rc'][r] == 0, self.s['cc'][r] == 0)))
            ctx.assume(z3.ForAll([r, k], Not(self.has(r, k))))
        self.s['n'] = ctx.fresh(name + '.n', I)
        self.wf()

    def wf(self):
        c = cur()
        r, k = z3.Ints('r!w k!w')
        rc, cc = self.s['rc'], self.s['cc']
        if not (z3.is_const(rc) and z3.is_const(cc)) or z3.is_K(rc):
            return
        c.assume(z3.ForAll([r], rc[r] >= 0, patterns=[rc[r]]))
        c.assume(z3.ForAll([k], cc[k] >= 0, patterns=[cc[k]]))
        c.assume(z3.ForAll([r, k], Implies(self.has(r, k), And(rc[r] > 0, cc[k] > 0)), patterns=[self.has(r, k)]))

    def has(self, r, k):
        return Select(self.s['cell'], r, k)

    def at(self, r, k):
        return Select(self.s['val'], r, k)

    def _new(self, **f):
        """new versions of the arrays, named by constants and defined element by element"""
        c = cur()
        old = dict(self.s)
        self.acc(True)
        for nm, (row, fn) in f.items():
            t = c.fresh(self.name + '.' + nm, old[nm].sort())
            vs = z3.Ints('r!w k!w')[:row]
            c.assume(z3.ForAll(vs, Select(t, *vs) == fn(Select(old[nm], *vs), *vs), patterns=[Select(t, *vs)]))
            c.assume(z3.ForAll(vs, Select(t, *vs) == fn(Select(old[nm], *vs), *vs), patterns=[Select(old[nm], *vs)]))
            self.s[nm] = t
        self.wf()

    def put(self, r, k, v):
        d = If(self.has(r, k), IntVal(0), IntVal(1))
        self._new(cell=(2, lambda o, x, y: Or(o, And(x == r, y == k))), val=(2, lambda o, x, y: If(And(x == r, y == k), v, o)),
                  rc=(1, lambda o, x: If(x == r, o + d, o)), cc=(1, lambda o, x: If(x == k, o + d, o)))

    def drop(self, r, k):
        self._new(cell=(2, lambda o, x, y: And(o, Not(And(x == r, y == k)))),
                  rc=(1, lambda o, x: If(x == r, o - 1, o)), cc=(1, lambda o, x: If(x == k, o - 1, o)))

    # ---- dictionary interface (rows)
    def view(self):
        return self.rows.view()

    def __contains__(self, r):
        return r in self.rows

    def __getitem__(self, r):
        if r not in self.rows:
            self.rows.add(r)        # defaultdict
        return Row(self, IntC.unwrap(r))

    def get(self, r, d=None):
        return Row(self, IntC.unwrap(r)) if r in self.rows else d

    def __delitem__(self, r):
        self.rows.remove(r)
        t = IntC.unwrap(r)
        if not cur().entails(self.s['rc'][t] == 0):
            raise Unsupported('dropping a row which may have cells')

    def __bool__(self):
        return bool(self.rows)


class Row(Container):
    __slots__ = ('m', 'r')

    def __init__(self, m, r):
        super().__init__('row')
        self.m, self.r = m, r
        self.s = {'n': IntVal(0)}

    def changed(self, snap):
        return False

    @property
    def n(self):
        return self.m.s['rc'][self.r]

    def view(self):
        ks = SSet('row.keys', IntC)
        q = z3.Int('q!row')
        ks.s['n'] = self.n
        cur().assume(z3.ForAll([q], ks.has(q) == self.m.has(self.r, q)))
        return ks.view()

    def __contains__(self, k):
        return cur().fork(self.m.has(self.r, IntC.unwrap(k)))

    def __getitem__(self, k):
        if k not in self:
            raise Unsupported('reading a cell that does not exist')
        return ValC.wrap(self.m.at(self.r, IntC.unwrap(k)))

    def get(self, k, d=None):
        return self[k] if k in self else d

    def __setitem__(self, k, v):
        self.m.put(self.r, IntC.unwrap(k), ValC.unwrap(v))

    def __delitem__(self, k):
        if k not in self:
            raise KeyError(k)
        self.m.drop(self.r, IntC.unwrap(k))

    def keys(self):
        return self.view()


class Sn:
    def __init__(self, o):
        m, k = o.rows_dict, o.known_column_count
        self.s = dict(m.s)
        self.rows, self.cols = IntC.unwrap(o.no_rows), IntC.unwrap(o.no_cols)

    has, at = Cells.has, Cells.at


def inv(o):
    m, kc = o.rows_dict, o.known_column_count
    if not isinstance(m, Cells) or not isinstance(kc, SDict):
        raise Unsupported('representation')
    nr, nc = IntC.unwrap(o.no_rows), IntC.unwrap(o.no_cols)
    r = z3.Int('r!i')
    rc, cc = m.s['rc'], m.s['cc']
    yield 'rows held are those with cells', z3.ForAll([r], m.rows.has(r) == (rc[r] > 0))
    yield 'cells per column are counted', z3.ForAll([r], And(kc.has(r) == (cc[r] > 0), Implies(kc.has(r), kc.at(r) == cc[r])))
    yield 'rows lie within the extent', z3.ForAll([r], Implies(rc[r] > 0, And(0 <= r, r < nr)))
    yield 'columns lie within the extent', z3.ForAll([r], Implies(cc[r] > 0, And(0 <= r, r < nc)))
    yield 'the number of rows is exact', And(nr >= 0, Implies(nr > 0, rc[nr - 1] > 0))
    yield 'the number of columns is exact', And(nc >= 0, Implies(nc > 0, cc[nc - 1] > 0))


def make(ctx, cls=SparseMatrix, name='self'):
    conforms(SparseMatrix(), 'rows_dict', 'known_column_count', 'no_cols', 'no_rows')
    o = ctx.new(cls, name, rows_dict=Cells(ctx, name + '.cells'), known_column_count=SDict(name + '.cols', IntC, IntC),
                no_cols=ctx.int(name + '.no_cols'), no_rows=ctx.int(name + '.no_rows'))
    for _, c in inv(o):
        ctx.assume(c)
    return o


def finish(ctx, o):
    for n, c in inv(o):
        ctx.check('invariant: ' + n, c)


def cells(f):
    r, k = z3.Ints('r!c k!c')
    return z3.ForAll([r, k], f(r, k))


def index(ctx, name, count):
    """an index as the user may give it; the row or column it designates; None if out of range"""
    i = ctx.int(name)
    return i, If(i.t < 0, i.t + count, i.t), i.t + count < 0


@contract('_cleanup_key', ['_cleanup_key'], reach=['end', 'refused'])
def cleanup(ctx):
    n = ctx.int('count')
    ctx.assume(n.t >= 0)
    i, want, bad = index(ctx, 'index', n.t)
    out = ctx.catch(_cleanup_key, i, n)
    if out[0] == 'exc':
        ctx.reach('refused')
        ctx.check('refused with IndexError only if out of range', And(BoolVal(isinstance(out[1], IndexError)), bad))
        return
    ctx.check('negative indices count from the end', And(Not(bad), IntC.unwrap(out[1]) == want))


def same(a, b):
    return And(a.rows == b.rows, a.cols == b.cols, cells(lambda r, k: And(
        a.has(r, k) == b.has(r, k), Implies(a.has(r, k), a.at(r, k) == b.at(r, k)))))


def key(ctx, o):
    ctx.models[SparseMatrix._sanitize_key] = sanitize
    col, c, badc = index(ctx, 'column', IntC.unwrap(o.no_cols))
    row, r, badr = index(ctx, 'row', IntC.unwrap(o.no_rows))
    return (col, row), c, r, Or(badc, badr)


def refused(ctx, out, bad, a, o):
    ctx.check('IndexError only if out of range', And(BoolVal(isinstance(out[1], IndexError)), bad))
    ctx.check('nothing changes', same(a, Sn(o)))
    finish(ctx, o)


def sanitize(o, k):
    """contract of _sanitize_key for integers"""
    ctx = cur()
    col, row = k
    if not all(isinstance(x, (int, SNum)) for x in k):
        return tuple(Ellipsis if isinstance(x, slice) or x is Ellipsis else sanitize(o, (x, 0))[0] if j == 0 else sanitize(o, (0, x))[1]
                     for j, x in enumerate(k))
    out = []
    for x, n in ((col, o.no_cols), (row, o.no_rows)):
        x, n = IntC.unwrap(x), IntC.unwrap(n)
        if ctx.fork(x + n < 0):
            raise IndexError()
        out.append(IntC.wrap(If(x < 0, x + n, x)))
    return tuple(out)


@contract('SparseMatrix._sanitize_key', ['SparseMatrix._sanitize_key', '_cleanup_key'], reach=['end', 'refused'])
def sanitize_c(ctx):
    o = ctx.new(SparseMatrix, 'self', rows_dict={}, known_column_count={}, no_cols=ctx.int('no_cols'), no_rows=ctx.int('no_rows'))
    ctx.assume(And(o.no_cols.t >= 0, o.no_rows.t >= 0))
    kinds = [ctx.choose(3), ctx.choose(3)]
    k = tuple([ctx.int('i%d' % j), Ellipsis, slice(None)][kd] for j, kd in enumerate(kinds))
    bad, want = [], []
    for x, n in zip(k, (o.no_cols.t, o.no_rows.t)):
        if isinstance(x, SNum):
            bad.append(x.t + n < 0)
            want.append(If(x.t < 0, x.t + n, x.t))
        else:
            want.append(None)
    out = ctx.catch(o._sanitize_key, k)
    if out[0] == 'exc':
        ctx.reach('refused')
        ctx.check('refused with IndexError only if out of range', And(BoolVal(isinstance(out[1], IndexError)), Or(BoolVal(False), *bad)))
        return
    c = []
    for g, w in zip(out[1], want):
        c.append(BoolVal(g is Ellipsis) if w is None else IntC.unwrap(g) == w)
    ctx.check('negative indices count from the end', And(Not(Or(BoolVal(False), *bad)), *c))


@contract('SparseMatrix.__getitem__ cell', ['SparseMatrix.__getitem__'],
          reach=['end', 'refused', 'empty'])
def getitem(ctx):
    o = make(ctx)
    k, c, r, bad = key(ctx, o)
    a = Sn(o)
    bad = Or(bad, r >= a.rows, c >= a.cols)
    out = ctx.catch(o.__getitem__, k)
    if out[0] == 'exc':
        ctx.reach('refused')
        return refused(ctx, out, bad, a, o)
    ctx.check('refused if out of range', Not(bad))
    if out[1] is None:
        ctx.reach('empty')
        ctx.check('None if undefined', Not(a.has(r, c)))
    else:
        ctx.check('the value of the cell', And(a.has(r, c), ValC.unwrap(out[1]) == a.at(r, c)))
    ctx.check('reading changes nothing', same(a, Sn(o)))
    finish(ctx, o)


def set_post(a, b, c, r, v):
    return And(b.rows == If(r >= a.rows, r + 1, a.rows), b.cols == If(c >= a.cols, c + 1, a.cols),
               cells(lambda x, y: And(b.has(x, y) == Or(And(x == r, y == c), a.has(x, y)),
                                      Implies(b.has(x, y), b.at(x, y) == If(And(x == r, y == c), v, a.at(x, y))))))


def del_post(a, b, c, r):
    return cells(lambda x, y: And(b.has(x, y) == And(a.has(x, y), Not(And(x == r, y == c))),
                                  Implies(b.has(x, y), b.at(x, y) == a.at(x, y))))


INC = ['SparseMatrix._sanitize_key', '_cleanup_key']


@contract('SparseMatrix.__setitem__ cell', ['SparseMatrix.__setitem__', 'SparseMatrix._increment_column_count'] + INC,
          reach=['end', 'refused'], timeout=30000)
def setitem(ctx):
    o = make(ctx)
    k, c, r, bad = key(ctx, o)
    v = ctx.obj('value')
    a = Sn(o)
    out = ctx.catch(o.__setitem__, k, v)
    if out[0] == 'exc':
        ctx.reach('refused')
        return refused(ctx, out, bad, a, o)
    ctx.check('exactly that cell is set and the extents grow to it', set_post(a, Sn(o), c, r, v.t))
    finish(ctx, o)


def extent(has):
    def f(o):
        """contract of _calculate_*_count"""
        ctx = cur()
        n = ctx.int('extent')
        ctx.assume(extent_post(has(o), n.t))
        return n
    return f


def extent_post(h, n):
    x = z3.Int('x!x')
    return And(Implies(n != 0, h(n - 1)), z3.ForAll([x], Implies(h(x), And(x < n, n != 0))))


def extents(ctx):
    ctx.models[SparseMatrix._calculate_column_count] = extent(lambda o: o.known_column_count.has)
    ctx.models[SparseMatrix._calculate_row_count] = extent(lambda o: o.rows_dict.rows.has)


@contract('SparseMatrix._calculate_count', ['SparseMatrix._calculate_column_count', 'SparseMatrix._calculate_row_count'])
def calc(ctx):
    o = ctx.new(SparseMatrix, 'self', rows_dict=SSet('rows', IntC), known_column_count=SDict('cols', IntC, IntC), no_cols=0, no_rows=0)
    col = ctx.choose(2)
    f, d = (o._calculate_column_count, o.known_column_count) if col else (o._calculate_row_count, o.rows_dict)
    x = z3.Int('x!x')
    d.len_facts()
    ctx.assume(z3.ForAll([x], Implies(d.has(x), x >= 0)))
    n = IntC.unwrap(ok(ctx, ctx.catch(f)))
    ctx.check('one more than the largest', extent_post(d.has, n))


@contract('SparseMatrix.__delitem__ cell', ['SparseMatrix.__delitem__', 'SparseMatrix._decrement_column_count',
          'SparseMatrix._calculate_column_count', 'SparseMatrix._calculate_row_count'] + INC, reach=['end', 'refused'], timeout=30000)
def delitem(ctx):
    o = make(ctx)
    k, c, r, bad = key(ctx, o)
    extents(ctx)
    a = Sn(o)
    out = ctx.catch(o.__delitem__, k)
    if out[0] == 'exc':
        ctx.reach('refused')
        return refused(ctx, out, bad, a, o)
    ctx.check('exactly that cell is removed', del_post(a, Sn(o), c, r))
    ctx.check('not refused if in range', Not(bad))
    finish(ctx, o)


@contract('SparseMatrix.__setitem__ None', ['SparseMatrix.__setitem__'], reach=['end', 'refused'])
def setnone(ctx):
    o = make(ctx, Modular)
    ctx.env.calls = []
    k, c, r, bad = key(ctx, o)
    a = Sn(o)
    out = ctx.catch(SparseMatrix.__setitem__, o, k, None)
    if out[0] == 'exc':
        ctx.reach('refused')
        return refused(ctx, out, bad, a, o)
    ctx.check('setting None deletes', del_post(a, Sn(o), c, r))
    finish(ctx, o)


# ---- the operations on rows and columns, verified against the contracts of the operations on cells
class Modular(SparseMatrix):
    def __delitem__(self, k):
        ctx = cur()
        c, r = self._norm(ctx, k)
        a = Sn(self)
        self._havoc(ctx)
        ctx.assume(del_post(a, Sn(self), c, r))

    def __setitem__(self, k, v):
        if v is None:
            del self[k]
            return
        ctx = cur()
        c, r = self._norm(ctx, k)
        a = Sn(self)
        self._havoc(ctx)
        ctx.assume(set_post(a, Sn(self), c, r, ValC.unwrap(v)))

    def __getitem__(self, k):
        ctx = cur()
        c, r = self._norm(ctx, k)
        a = Sn(self)
        if ctx.fork(Or(r >= a.rows, c >= a.cols)):
            raise IndexError()
        return ValC.wrap(a.at(r, c)) if ctx.fork(a.has(r, c)) else None

    def _norm(self, ctx, k):
        col, row = k
        if col is Ellipsis or row is Ellipsis or isinstance(col, slice) or isinstance(row, slice):
            raise Unsupported('nested bulk operation')
        c, r = IntC.unwrap(col), IntC.unwrap(row)
        nc, nr = IntC.unwrap(self.no_cols), IntC.unwrap(self.no_rows)
        c, r = If(c < 0, c + nc, c), If(r < 0, r + nr, r)
        if ctx.fork(Or(c < 0, r < 0)):
            raise IndexError()
        return c, r

    def _havoc(self, ctx):
        self.rows_dict.havoc('m')
        self.rows_dict.rows.havoc('m.rows')
        self.known_column_count.havoc('m.cols')
        self.no_cols, self.no_rows = ctx.int('no_cols'), ctx.int('no_rows')
        for _, c in inv(self):
            ctx.assume(c)


def bulk(ctx):
    o = make(ctx, Modular)
    ctx.roots['rows'] = o.rows_dict.rows
    ctx.env.o, ctx.env.a = o, Sn(o)
    return o, ctx.env.a


def holds(n):
    def f(L):
        return list(inv(L.ctx.env.o if hasattr(L, 'ctx') else cur().env.o))[n][1]
    return f


def state(f):
    """(f gives, for a cell, whether it was touched and whether it then exists / its value)"""
    def g(L):
        e = cur().env
        a, b = e.a, Sn(e.o)
        return cells(lambda r, k: And(*f(L, a, b, r, k)))
    return g


INVS = [('I%d' % i, holds(i)) for i in range(6)]


def gone(touched):
    def f(L, a, b, r, k):
        yield b.has(r, k) == And(a.has(r, k), Not(touched(L, r, k)))
        yield Implies(b.has(r, k), b.at(r, k) == a.at(r, k))
    return [('deleted so far', state(f))]


def setso(touched, value):
    def f(L, a, b, r, k):
        t, v = touched(L, r, k), value(L, r, k)
        yield b.has(r, k) == If(t, Not(OV.is_none(v)), a.has(r, k))
        yield Implies(b.has(r, k), b.at(r, k) == If(t, OV.the(v), a.at(r, k)))
    return [('set so far', state(f))]


OV = OptC(ValC)
DEL = ['SparseMatrix.__delitem__'] + INC


@contract('SparseMatrix.delete_row', ['SparseMatrix.delete_row'],
          invs=INVS + gone(lambda L, r, k: And(r == cur().env.r, L.view.idx(k) < L.i)), timeout=30000)
def delete_row(ctx):
    o, a = bulk(ctx)
    r = ctx.int('row')
    ctx.assume(r.t >= 0)
    ctx.env.r = r.t
    ok(ctx, ctx.catch(SparseMatrix.delete_row, o, r))
    b = Sn(o)
    ctx.check('exactly the cells of the row are deleted', cells(lambda x, y: And(
        b.has(x, y) == And(a.has(x, y), x != r.t), Implies(b.has(x, y), b.at(x, y) == a.at(x, y)))))
    finish(ctx, o)


def target(ctx, o, what):
    ctx.models[SparseMatrix._sanitize_key] = sanitize
    i, t, bad = index(ctx, what, IntC.unwrap(o.no_rows if what == 'row' else o.no_cols))
    ctx.env.r = t
    return i, t, bad


@contract('SparseMatrix.__delitem__ row', DEL, reach=['end', 'refused'],
          invs=INVS + gone(lambda L, r, k: And(r == cur().env.r, k < L.i)), timeout=30000)
def delrow(ctx):
    o, a = bulk(ctx)
    i, t, bad = target(ctx, o, 'row')
    out = ctx.catch(SparseMatrix.__delitem__, o, (Ellipsis if ctx.choose(2) else slice(None), i))
    if out[0] == 'exc':
        ctx.reach('refused')
        return refused(ctx, out, bad, a, o)
    b = Sn(o)
    ctx.check('exactly the row is deleted', cells(lambda x, y: And(
        b.has(x, y) == And(a.has(x, y), x != t), Implies(b.has(x, y), b.at(x, y) == a.at(x, y)))))
    finish(ctx, o)


@contract('SparseMatrix.__delitem__ column', DEL, reach=['end', 'refused'],
          invs=INVS + gone(lambda L, r, k: And(k == cur().env.r, r < L.i)), timeout=30000)
def delcol(ctx):
    o, a = bulk(ctx)
    i, t, bad = target(ctx, o, 'column')
    out = ctx.catch(SparseMatrix.__delitem__, o, (i, Ellipsis if ctx.choose(2) else slice(None)))
    if out[0] == 'exc':
        ctx.reach('refused')
        return refused(ctx, out, bad, a, o)
    b = Sn(o)
    ctx.check('exactly the column is deleted', cells(lambda x, y: And(
        b.has(x, y) == And(a.has(x, y), y != t), Implies(b.has(x, y), b.at(x, y) == a.at(x, y)))))
    finish(ctx, o)


def values(ctx):
    ctx.env.vals = SList('values', OV)
    return ctx.env.vals


def set_result(ctx, o, a, vals, hit, pos):
    b = Sn(o)
    el = vals.el

    def f(x, y):
        t = And(hit(x, y), pos(x, y) < vals.n)
        return And(b.has(x, y) == If(t, Not(OV.is_none(el(pos(x, y)))), a.has(x, y)),
                   Implies(b.has(x, y), b.at(x, y) == If(t, OV.the(el(pos(x, y))), a.at(x, y))))
    ctx.check('exactly the cells for which values are given are set', Implies(vals.n >= 0, cells(lambda x, y: Implies(
        And(x >= 0, y >= 0), f(x, y)))))
    ctx.check('no cells outside of the quadrant', cells(lambda x, y: Implies(Or(x < 0, y < 0), Not(b.has(x, y)))))
    finish(ctx, o)


@contract('SparseMatrix.__setitem__ row', ['SparseMatrix.__setitem__'] + INC, reach=['end', 'refused'], timeout=30000,
          invs=INVS + setso(lambda L, r, k: And(r == cur().env.r, 0 <= k, k < L.i), lambda L, r, k: cur().env.vals.el(k)))
def setrow(ctx):
    o, a = bulk(ctx)
    i, t, bad = target(ctx, o, 'row')
    vals = values(ctx)
    out = ctx.catch(SparseMatrix.__setitem__, o, (Ellipsis if ctx.choose(2) else slice(None), i), vals)
    if out[0] == 'exc':
        ctx.reach('refused')
        return refused(ctx, out, bad, a, o)
    set_result(ctx, o, a, vals, lambda x, y: x == t, lambda x, y: y)


@contract('SparseMatrix.__setitem__ column', ['SparseMatrix.__setitem__'] + INC, reach=['end', 'refused'], timeout=30000,
          invs=INVS + setso(lambda L, r, k: And(k == cur().env.r, 0 <= r, r < L.i), lambda L, r, k: cur().env.vals.el(r)))
def setcol(ctx):
    o, a = bulk(ctx)
    i, t, bad = target(ctx, o, 'column')
    vals = values(ctx)
    out = ctx.catch(SparseMatrix.__setitem__, o, (i, Ellipsis if ctx.choose(2) else slice(None)), vals)
    if out[0] == 'exc':
        ctx.reach('refused')
        return refused(ctx, out, bad, a, o)
    set_result(ctx, o, a, vals, lambda x, y: y == t, lambda x, y: x)


@contract('SparseMatrix.append_row', ['SparseMatrix.append_row'], timeout=30000,
          invs=INVS + setso(lambda L, r, k: And(r == cur().env.r, 0 <= k, k < L.i), lambda L, r, k: cur().env.vals.el(k)))
def append_row(ctx):
    o, a = bulk(ctx)
    ctx.env.r = a.rows
    vals = values(ctx)
    ok(ctx, ctx.catch(SparseMatrix.append_row, o, vals))
    set_result(ctx, o, a, vals, lambda x, y: x == a.rows, lambda x, y: y)


def row_so_far(L, out):
    e = cur().env
    if not isinstance(out, SList) or out.ec is not OV:
        return None
    j = z3.Int('j!o')
    return And(out.n == L.i, z3.ForAll([j], Implies(And(0 <= j, j < L.i), And(
        OV.is_none(out.el(j)) == Not(e.a.has(e.r, j)), Implies(e.a.has(e.r, j), OV.the(out.el(j)) == e.a.at(e.r, j))))))


@contract('SparseMatrix.get_row', ['SparseMatrix.get_row'], timeout=30000, invs=each_local('collected so far', row_so_far),
          reach=['end', 'empty'])
def get_row(ctx):
    o, a = bulk(ctx)
    r = ctx.int('row')
    ctx.assume(r.t >= 0)
    ctx.env.r = r.t
    ctx.env.lits = {('list', 'SparseMatrix.get_row'): lambda: SList('output', OV, empty=True)}
    v = ok(ctx, ctx.catch(SparseMatrix.get_row, o, r))
    j = z3.Int('j!o')
    if not isinstance(v, SList):
        raise Unsupported('get_row() gives %r' % (v,))
    ctx.reach('empty')
    ctx.check('as long as there are columns', v.n == a.cols)
    el = v.el
    ctx.check('the values of the row, None where undefined', z3.ForAll([j], Implies(And(0 <= j, j < a.cols), And(
        OV.is_none(el(j)) == Not(a.has(r.t, j)), Implies(a.has(r.t, j), OV.the(el(j)) == a.at(r.t, j))))))
    ctx.check('reading changes nothing', same(a, Sn(o)))
    finish(ctx, o)


@contract('SparseMatrix.get_neighbour_coordinates', ['SparseMatrix.get_neighbour_coordinates'], timeout=30000)
def neighbours(ctx):
    o = ctx.new(SparseMatrix, 'self', rows_dict={}, known_column_count={}, no_cols=ctx.int('no_cols'), no_rows=ctx.int('no_rows'))
    cols, rows = o.no_cols.t, o.no_rows.t
    c, r = ctx.int('col'), ctx.int('row')
    diag = bool(ctx.choose(2))
    got = []
    for p in o.get_neighbour_coordinates(c, r, diag):
        got.append((IntC.unwrap(p[0]), IntC.unwrap(p[1])))
    x, y = z3.Ints('x!n y!n')
    dx, dy = x - c.t, y - r.t
    near = And(dx >= -1, dx <= 1, dy >= -1, dy <= 1, Not(And(dx == 0, dy == 0)), x >= 0, y >= 0, x < cols, y < rows)
    if not diag:
        near = And(near, Or(dx == 0, dy == 0))
    ctx.check('exactly the neighbours inside the matrix', z3.ForAll([x, y], near == Or(
        BoolVal(False), *[And(x == p, y == q) for p, q in got])))
    ctx.check('each once', And(*[Or(p[0] != q[0], p[1] != q[1]) for i, p in enumerate(got) for q in got[:i]]))
    ctx.check('the matrix is left alone', And(IntC.unwrap(o.no_cols) == cols, IntC.unwrap(o.no_rows) == rows, BoolVal(not o.rows_dict)))


@contract('SparseMatrix.clear', ['SparseMatrix.clear', 'SparseMatrix.__len__', 'SparseMatrix.rows', 'SparseMatrix.columns', 'SparseMatrix.__bool__'])
def clear(ctx):
    o = make(ctx)
    a = Sn(o)
    ctx.check('rows', And(IntC.unwrap(o.rows) == a.rows, IntC.unwrap(o.__len__()) == a.rows))
    ctx.check('columns', IntC.unwrap(o.columns) == a.cols)
    ctx.check('true exactly if it has cells', BoolVal(bool(o.__bool__())) == (a.rows > 0))
    ctx.models[collections.defaultdict] = lambda *x: Cells(ctx, 'new', empty=True)
    ctx.env.lits = {('dict', 'SparseMatrix.clear'): lambda: SDict('new.cols', IntC, IntC, empty=True)}
    ok(ctx, ctx.catch(o.clear))
    b = Sn(o)
    ctx.check('empty', And(b.rows == 0, b.cols == 0, cells(lambda x, y: Not(b.has(x, y)))))
    finish(ctx, o)
