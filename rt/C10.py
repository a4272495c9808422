from base import case, main
from satella.coding.structures import SparseMatrix


def gen(rng, size):
    for _ in range(2500 * size):
        ops = []
        for _ in range(rng.randint(1, 10)):
            op = rng.choice(['set', 'set', 'set', 'none', 'del', 'del', 'delrow', 'delcol', 'delr', 'setrow', 'setcol', 'append', 'clear', 'all', 'get', 'rows'])
            ops.append([op, rng.randint(-5, 4), rng.randint(-5, 4), [rng.choice([None, 0, 1, 2, 7, -3]) for _ in range(rng.randint(0, 4))],
                        rng.random() < .5])
        yield {'init': rng.choice([None, [[1, 2], [3, 4]], [[1, None, 3]], [[]], [[None], [5]]]), 'ops': ops}


class Model:
    def __init__(self):
        self.d = {}

    rows = property(lambda s: max([r for _, r in s.d], default=-1) + 1)
    cols = property(lambda s: max([c for c, _ in s.d], default=-1) + 1)

    def norm(self, i, n):
        if i < 0:
            i += n
            if i < 0:
                raise IndexError()
        return i

    def set(self, c, r, v):
        c, r = self.norm(c, self.cols), self.norm(r, self.rows)
        if v is None:
            self.d.pop((c, r), None)
        else:
            self.d[c, r] = v

    def table(self):
        return [[self.d.get((c, r)) for c in range(self.cols)] for r in range(self.rows)]


def attempt(f, *a):
    try:
        return 'ok', f(*a)
    except Exception as e:
        return 'exc', type(e)


def compare(sm, m):
    t = m.table()
    assert sm.rows == m.rows and sm.columns == m.cols and len(sm) == m.rows, 'size %r, expected %r' % ((sm.columns, sm.rows), (m.cols, m.rows))
    assert bool(sm) == (m.rows > 0)
    assert list(sm) == t, 'contents %r, expected %r' % (list(sm), t)
    assert sm[:, :] == t and sm[..., ...] == t
    assert sm == SparseMatrix(t) and SparseMatrix(t) == sm, 'differs from a matrix with the same contents'
    if m.d:
        k = next(iter(m.d))
        u = SparseMatrix(t)
        u[k] = 'other'
        assert not (sm == u), 'equal to a different matrix'
        u[k] = None
        assert not (sm == u), 'equal to a matrix lacking a cell'
    for c in range(-m.cols - 2, m.cols + 2):
        for r in range(-m.rows - 2, m.rows + 2):
            if c < -m.cols or c >= m.cols or r < -m.rows or r >= m.rows:
                exp = ('exc', IndexError)
            else:
                exp = ('ok', t[r][c])
            assert attempt(sm.__getitem__, (c, r)) == exp, 'cell %r: %r, expected %r' % ((c, r), attempt(sm.__getitem__, (c, r)), exp)
    for r in range(m.rows):
        assert sm[:, r] == t[r] and sm[..., r] == t[r] and sm.get_row(r) == t[r]
        assert sm[:, r - m.rows] == t[r]
    for c in range(m.cols):
        assert sm[c, :] == [x[c] for x in t] and sm[c, ...] == [x[c] for x in t]
    for c in range(m.cols):
        for r in range(m.rows):
            for dg in (True, False):
                exp = sorted((c + x, r + y) for x in (-1, 0, 1) for y in (-1, 0, 1) if (x or y) and (dg or not (x and y))
                             and 0 <= c + x < m.cols and 0 <= r + y < m.rows)
                assert sorted(sm.get_neighbour_coordinates(c, r, dg)) == exp, 'neighbours of %r' % ((c, r),)
    sh = sm.shoot()
    assert list(sh) == [[m.d.get((c // 2, r // 2)) if not (c % 2 or r % 2) else None for c in range(max(0, 2 * m.cols - 1))]
                        for r in range(max(0, 2 * m.rows - 1))], 'shoot gives %r' % (list(sh),)
    vals = list(m.d.values())
    for f, g in ((sm.max, max), (sm.min, min)):
        assert attempt(f) == attempt(g, vals), '%r, expected %r' % (attempt(f), attempt(g, vals))


@case('sparse matrix histories', gen, 'up to 10 operations, indices -5..4')
def run(inp):
    sm = SparseMatrix(inp['init'])
    m = Model()
    for r, row in enumerate(inp['init'] or []):
        for c, v in enumerate(row):
            m.set(c, r, v)
    compare(sm, m)
    other = SparseMatrix(sm[:, :])
    ot = list(other)
    for op, c, r, vals, dots in inp['ops']:
        every = Ellipsis if dots else slice(None)
        before = dict(m.d)
        v = vals[0] if vals and vals[0] is not None else 9
        if op == 'set':
            got, exp = attempt(sm.__setitem__, (c, r), v), attempt(m.set, c, r, v)
        elif op == 'none':
            got, exp = attempt(sm.__setitem__, (c, r), None), attempt(m.set, c, r, None)
        elif op == 'del':
            got, exp = attempt(sm.__delitem__, (c, r)), attempt(m.set, c, r, None)
        elif op in ('delrow', 'setrow'):
            k = attempt(m.norm, r, m.rows)
            got = attempt(sm.__delitem__, (every, r)) if op == 'delrow' else attempt(sm.__setitem__, (every, r), vals)
            exp = ('ok', None)
            if k[0] == 'exc':
                exp = k
            elif op == 'delrow':
                m.d = {x: y for x, y in m.d.items() if x[1] != k[1]}
            else:
                for i, x in enumerate(vals):
                    m.set(i, k[1], x)
        elif op in ('delcol', 'setcol'):
            k = attempt(m.norm, c, m.cols)
            got = attempt(sm.__delitem__, (c, every)) if op == 'delcol' else attempt(sm.__setitem__, (c, every), vals)
            exp = ('ok', None)
            if k[0] == 'exc':
                exp = k
            elif op == 'delcol':
                m.d = {x: y for x, y in m.d.items() if x[0] != k[1]}
            else:
                for i, x in enumerate(vals):
                    m.set(k[1], i, x)
        elif op == 'delr':
            r = abs(r)
            got, exp = attempt(sm.delete_row, r), ('ok', None)
            m.d = {x: y for x, y in m.d.items() if x[1] != r}
        elif op == 'append':
            n = m.rows
            got, exp = attempt(sm.append_row, vals), ('ok', None)
            for i, x in enumerate(vals):
                m.set(i, n, x)
        elif op == 'clear':
            if dots:
                sm.clear()
            else:
                del sm[:, :]
            got = exp = None
            m.d = {}
        elif op == 'all':
            tab = [vals, vals[::-1]]
            if dots:
                sm[:, :] = tab
            else:
                sm = SparseMatrix.from_iterable(iter(iter(x) for x in tab))
            got = exp = None
            m.d = {}
            for i, row in enumerate(tab):
                for j, x in enumerate(row):
                    m.set(j, i, x)
        else:
            got, exp = attempt(sm.__getitem__, (slice(0, 1), 0)), ('exc', IndexError)
        assert got == exp, '%s %r: %r, expected %r' % (op, (c, r, vals), got, exp)
        compare(sm, m)
    assert list(other) == ot, 'a matrix constructed from another one changed with it'


if __name__ == '__main__':
    main('C10')
