import fakeclock
import itertools
import math
import re
from concurrent.futures import Future
from fractions import Fraction as F

from base import case, main
from satella.coding.structures import CacheDict, ExclusiveWritebackCache, LRUCacheDict
from satella.exceptions import MetricAlreadyExists
from satella.instrumentation.metrics import AggregateMetric, LabeledMetric, MetricData, MetricDataCollection, MetricLevel, getMetric
from satella.instrumentation.metrics.exporters import metric_data_collection_to_prometheus
from satella.instrumentation.metrics.metric_types.measurable_mixin import MeasurableMixin
from satella.instrumentation.metrics.structures import MetrifiedCacheDict, MetrifiedExclusiveWritebackCache, MetrifiedLRUCacheDict


class Boom(Exception):
    pass


def fresh():
    getMetric('').reset()
    getMetric('').level = MetricLevel.RUNTIME


def report(mdc, what=lambda d: d.value):
    """{(name, labels): value}; refuses two entries of the same name and labels"""
    out = {}
    for d in mdc.values:
        k = d.name, tuple(sorted(d.labels.items(), key=repr))
        assert k not in out, 'reported twice: %r' % (k,)
        out[k] = what(d)
    return out


def K(name, **labels):
    return name, tuple(sorted(labels.items(), key=repr))


def same(got, want, what):
    assert set(got) == set(want), '%s: missing %r, besides %r' % (what, sorted(set(want) - set(got), key=repr), sorted(set(got) - set(want), key=repr))
    for k, v in want.items():
        g = got[k]
        assert type(g) in (int, float) and abs(g - v) <= 1e-9 * max(1, abs(v)), '%s: %r is reported as %r, and is %r' % (what, k, g, v)


# ---- models of metrics: what must be reported -----------------------------------------------------------------------
def quantile(values, q):
    v = sorted(values)
    pos = F(len(v) - 1) * F(q)
    lo = math.floor(pos)
    hi = min(lo + 1, len(v) - 1)
    return float(v[lo] + (F(v[hi]) - v[lo]) * (pos - lo))


class Counter:
    KIND = 'counter'

    def __init__(self, rng_opts):
        self.o, self.calls = rng_opts, []

    def want(self, name, now):
        plain, by = split(self.calls)
        out = {}
        if not by:
            out[K(name)] = sum(c[1] for c in self.calls)
        else:
            for lab, cs in by.items():
                out[K(name, **dict(lab))] = sum(c[1] for c in cs)
                if self.o.get('count_calls'):
                    out[K(name + '.count', **dict(lab))] = len(cs)
            if self.o.get('sum_children', True):
                out[K(name + '.sum')] = sum(c[1] for c in self.calls)
        if self.o.get('count_calls'):
            out[K(name + '.count')] = len(self.calls)
        return out


class Last:
    def __init__(self, o):
        self.o, self.calls = o, []

    def want(self, name, now):
        plain, by = split(self.calls)
        if not by:
            return {K(name): ([0] + [c[1] for c in plain])[-1]}
        return {K(name, **dict(lab)): cs[-1][1] for lab, cs in by.items()}


class Summary:
    def __init__(self, o):
        self.o, self.calls = o, []

    def window(self, calls):
        return [c[1] for c in calls][-self.o.get('last_calls', 100):]

    def quantiles(self, name, values, lab=()):
        return {K(name, quantile=q, **dict(lab)): quantile(values, q) if values else 0.0 for q in self.o.get('quantiles', (0.5, 0.95))}

    def want(self, name, now):
        plain, by = split(self.calls)
        out = {}
        count = self.o.get('count_calls', True)
        if not by:
            out.update(self.quantiles(name, self.window(plain)))
        else:
            for lab, cs in by.items():
                out.update(self.quantiles(name, self.window(cs), lab))
                if count:
                    out[K(name + '.count', **dict(lab))] = len(cs)
                    out[K(name + '.sum', **dict(lab))] = sum(c[1] for c in cs)
            if self.o.get('aggregate_children', True):
                out.update(self.quantiles(name + '.total', [v for cs in by.values() for v in self.window(cs)]))
        if count:
            out[K(name + '.count')] = len(self.calls)
            out[K(name + '.sum')] = sum(c[1] for c in self.calls)
        return out


class Histogram:
    def __init__(self, o):
        self.o, self.calls = o, []
        self.limits = [0.0] + list(o['buckets']) + [math.inf]

    def buckets(self, name, calls, lab=()):
        return {K(name, le=a, ge=b, **dict(lab)): sum(1 for c in calls if a <= c[1] < b) for a, b in zip(self.limits, self.limits[1:])}

    def sums(self, name, calls, lab=()):
        return {K(name + '.sum', **dict(lab)): sum(c[1] for c in calls), K(name + '.count', **dict(lab)): len(calls)}

    def want(self, name, now):
        plain, by = split(self.calls)
        if not by:
            return {**self.buckets(name, plain), **self.sums(name, plain)}
        out = {}
        for lab, cs in by.items():
            out.update(self.buckets(name, cs, lab))
            out.update(self.sums(name, cs, lab))
        if self.o.get('aggregate_children', True):
            out.update(self.buckets(name + '.total', self.calls))
            out.update(self.sums(name + '.total', self.calls))
        return out


class Clicks:
    def __init__(self, o):
        self.o, self.calls = o, []

    def counts(self, name, calls, now, lab=()):
        return {K(name, period=p, **dict(lab)): sum(1 for c in calls if c[0] > now - p) for p in (self.o.get('time_unit_vectors') or [1])}

    def want(self, name, now):
        plain, by = split(self.calls)
        if any(abs(c[0] - now + p) < 1e-6 for c in self.calls for p in self.o.get('time_unit_vectors') or [1]):
            return None     # exactly at the end of a period: either is fine
        if not by:
            return self.counts(name, plain, now)
        out = {}
        for lab, cs in by.items():
            out.update(self.counts(name, cs, now, lab))
        if self.o.get('aggregate_children', True):
            out.update(self.counts(name + '.total', [c for cs in by.values() for c in cs], now))
        return out


def split(calls):
    by = {}
    for c in calls:
        if c[2]:
            by.setdefault(c[2], []).append(c)
    return [c for c in calls if not c[2]], by


MODELS = {'counter': Counter, 'int': Last, 'float': Last, 'summary': Summary, 'histogram': Histogram, 'cps': Clicks}


def opts(rng, kind):
    o = {}
    if kind == 'counter':
        o = {'count_calls': rng.random() < .5, 'sum_children': rng.random() < .7}
    elif kind == 'summary':
        o = {'last_calls': rng.choice([1, 2, 3, 5, 100]), 'quantiles': rng.choice([[.5], [0, .25, 1], [.5, .95]]), 'aggregate_children': rng.random() < .6,
             'count_calls': rng.random() < .6}
    elif kind == 'histogram':
        o = {'buckets': sorted(rng.sample([1, 2, 3, 4.5, 6, 8], rng.randint(1, 4))), 'aggregate_children': rng.random() < .6}
    elif kind == 'cps':
        o = {'time_unit_vectors': rng.choice([[1], [1, 5], [5, 1], [2, 3, 10]]), 'aggregate_children': rng.random() < .6}
    return {k: v for k, v in o.items() if rng.random() < .8 or k == 'buckets'}


LABELS = [{}, {'a': 1}, {'a': 2}, {'b': 'x'}, {'a': 1, 'b': 'x'}, {'b': 'x', 'a': 1}]


def gen_reports(rng, size):
    for _ in range(1200 * size):
        kind = rng.choice(sorted(MODELS))
        labeled = rng.choice([0, 0, .4, .9])
        ops = []
        for _ in range(rng.randint(1, 14)):
            r = rng.random()
            if r < .7:
                ops.append(['call', rng.randint(0, 9) if kind != 'counter' or rng.random() < .8 else -rng.randint(1, 5),
                            rng.choice(LABELS[1:]) if rng.random() < labeled else {}])
            elif r < .85:
                ops.append(['wait', rng.choice([.3, .9, 1.1, 2.2, 4.7])])
            else:
                ops.append(['read'])
        yield {'kind': kind, 'opts': opts(rng, kind), 'ops': ops, 'internal': rng.random() < .2, 'stamp': rng.random() < .3,
               'name': rng.choice(['m', 'x.m', 'x.y.m'])}


@case('reports of metrics', gen_reports, 'up to 14 calls, of up to 5 sets of labels')
def reports(inp):
    with fakeclock.Clock(tick=0.0) as clock:
        fresh()
        kind, name = inp['kind'], inp['name']
        more = {**({'internal': True} if inp['internal'] else {}), **({'enable_timestamp': True} if inp['stamp'] else {})}
        created = clock.now
        m = getMetric(name, kind, **inp['opts'], **more)
        model = MODELS[kind]({**inp['opts']})
        short = name.split('.')[-1]
        for op, *a in inp['ops'] + [['read']]:
            if op == 'wait':
                clock.now += a[0]
            elif op == 'call':
                if kind == 'cps':
                    m.runtime(**a[1])
                else:
                    m.runtime(a[0], **a[1])
                model.calls.append((clock.now, a[0], tuple(sorted(a[1].items()))))
            else:
                want = model.want(short, clock.now)
                if want is None:
                    continue
                d1, d2 = m.to_metric_data(), getMetric('').to_metric_data()
                same(report(d1), want, 'the metric itself')
                pre = name[:-len(short)]
                same(report(d2), {(pre + k[0], k[1]): v for k, v in want.items()}, 'the root')
                assert all(d.internal == inp['internal'] for d in itertools.chain(d1.values, d2.values)), 'internal is not what was asked for'
                by = split(model.calls)[1]
                last = {lab: cs[-1][0] for lab, cs in by.items()}
                for d in itertools.chain(d1.values, d2.values):
                    if not inp['stamp']:
                        assert d.timestamp is None, 'a timestamp nobody asked for'
                        continue
                    lab = tuple(sorted((k, v) for k, v in d.labels.items() if k in ('a', 'b')))
                    t = last[lab] if lab else model.calls[-1][0] if model.calls else created
                    assert d.timestamp == t, 'the timestamp of %r is %r, last updated at %r' % (d, d.timestamp, t)


def gen_links(rng, size):
    for _ in range(600 * size):
        yield {'off': rng.randint(1, 3), 'on': rng.randint(1, 3), 'addresses': rng.choice([[0], [1], [0, 1], [1, 2, 3]]), 'labels': rng.random() < .3,
               'ops': [[rng.random() < .5, rng.randint(0, 2), rng.randint(0, 1)] for _ in range(rng.randint(0, 20))]}


@case('links online and offline', gen_links, 'up to 3 links and 20 calls')
def links(inp):
    fresh()
    seen, want_seen = [], []
    m = getMetric('net.link', 'linkfail', consecutive_failures_to_offline=inp['off'], consecutive_successes_to_online=inp['on'],
                  callback_on_online=lambda a, l: seen.append((True, a)), callback_on_offline=lambda a, l: seen.append((False, a)))
    state = {}
    adr = inp['addresses']
    for success, i, lab in inp['ops']:
        a = adr[i % len(adr)]
        labels = {'k': lab} if inp['labels'] else {}
        m.runtime(success, a, **labels) if a or i else m.runtime(success, **labels)
        s = state.setdefault((a, tuple(labels.items())), [True, 0, 0])
        if success:
            s[1], s[2] = 0, s[2] + 1
            if not s[0] and s[2] == inp['on']:
                s[0] = True
                want_seen.append((True, a))
        else:
            s[1], s[2] = s[1] + 1, 0
            if s[0] and s[1] == inp['off']:
                s[0] = False
                want_seen.append((False, a))
        want = {}
        for (ad, ls), st in state.items():
            d = dict(ls)
            if inp['labels'] or [x[0] for x in state] != [0]:
                d['address'] = ad
            want.update({K('net.link.consecutive_failures', **d): st[1], K('net.link.consecutive_successes', **d): st[2], K('net.link.status', **d): int(st[0])})
        same(report(getMetric('').to_metric_data()), want, 'links')
    if inp['labels']:
        seen, want_seen = [x[0] for x in seen], [x[0] for x in want_seen]
    assert seen == want_seen, 'callbacks called %r, links changed %r' % (seen, want_seen)


# ---- the tree of metrics and its levels -----------------------------------------------------------------------------
NAMES = ['a', 'a.b', 'a.b.c', 'a.d', 'e', 'e.f', 'a.b.g']
TYPES = ['base', 'int', 'counter', 'empty']


def gen_tree(rng, size):
    for _ in range(900 * size):
        ops = []
        for _ in range(rng.randint(2, 16)):
            r = rng.random()
            if r < .5:
                ops.append(['get', rng.choice(NAMES), rng.choice(TYPES), rng.choice([None, None, None, 1, 2, 3, 4])])
            elif r < .65:
                ops.append(['level', rng.randint(0, 9), rng.choice([1, 2, 3, 4])])
            elif r < .7:
                ops.append(['root', rng.choice([1, 2, 3])])
            elif r < .75:
                ops.append(['bad', rng.choice(['a-b', 'a b', 'a/b', 'x!'])])
            else:
                ops.append(['call', rng.randint(0, 9), rng.choice([2, 3]), rng.randint(1, 9)])
        yield {'ops': ops}


@case('the tree of metrics', gen_tree, 'up to 16 operations on 7 names')
def tree(inp):
    fresh()
    root = getMetric('')
    model = {'': dict(kind='base', level=2, value=None, obj=root, parent=None)}

    def effective(n):
        e = model[n]
        while e['level'] == 4:
            e = model[e['parent']]
        return e['level']

    def total(n):
        """what the metric `n` reports, names being full"""
        e, out = model[n], {}
        if e['kind'] == 'empty':
            return {}
        if e['kind'] in ('int', 'counter'):
            out[n] = e['value']
        for k, c in model.items():
            if c['parent'] == n and effective(k) <= effective(n):
                out.update(total(k))
        return out

    for op, *a in inp['ops']:
        known = sorted(k for k in model if k)
        if op == 'get':
            name, kind, level = a
            parts = name.split('.')
            chain = ['.'.join(parts[:i]) for i in range(1, len(parts) + 1)]
            before = dict(model)
            leafs = [c for c in chain[:-1] if c in model and model[c]['kind'] in ('int', 'counter')]
            if name in model and model[name]['kind'] != kind:
                try:
                    getMetric(name, kind, level)
                except MetricAlreadyExists as e:
                    assert (e.name, e.requested_type, e.existing_type) == (name, kind, model[name]['kind']), 'reported wrong'
                else:
                    assert False, '%s given as %s though it is %s' % (name, kind, model[name]['kind'])
            elif leafs and name not in model:
                try:
                    getMetric(name, kind, level)
                except TypeError:
                    pass
                else:
                    assert False, 'a child of a metric that cannot have any'
            else:
                m = getMetric(name, kind, level) if level else getMetric(name, kind)
                for c in chain:
                    if c not in model:
                        model[c] = dict(kind=kind if c == name else 'base', level=level or 4, value=0,
                                        obj=None, parent=c.rpartition('.')[0])
                        if c != name:
                            model[c]['obj'] = getMetric(c)
                e = model[name]
                if e['obj'] is None:
                    e['obj'] = m
                assert m is e['obj'], 'another metric of the same name'
                assert m.get_fully_qualified_name() == name, 'named %r' % m.get_fully_qualified_name()
                if level:
                    e['level'] = level
        elif op == 'bad':
            try:
                getMetric(a[0], 'int')
            except ValueError:
                pass
            else:
                assert False, 'name %r accepted' % a[0]
        elif op == 'root':
            root.level = MetricLevel(a[0])
            model['']['level'] = a[0]
        elif not known:
            continue
        elif op == 'level':
            n = known[a[0] % len(known)]
            model[n]['obj'].level = a[1]
            model[n]['level'] = a[1]
        else:
            n = known[a[0] % len(known)]
            e = model[n]
            if e['kind'] == 'base':
                continue
            e['obj'].debug(a[2]) if a[1] == 3 else e['obj'].runtime(a[2])
            if effective(n) >= a[1]:
                e['value'] = a[2] if e['kind'] == 'int' else e['value'] + a[2]
        for n in sorted(model):
            o = model[n]['obj']
            assert int(o.level) == effective(n), 'the level of %r is %r, not %r' % (n, o.level, effective(n))
            if model[n]['kind'] == 'base':
                pre = n.rpartition('.')[0]
                want = {K(k[len(pre) + 1:] if pre else k): v for k, v in total(n).items()}
                same(report(o.to_metric_data()), want, 'the report of %r' % n)


# ---- collections of metric data -------------------------------------------------------------------------------------
def some_data(rng, n=5):
    return [[rng.choice(['m', 'm.x', 'k']), rng.choice([{}, {'a': 1}, {'a': 2}, {'b': 'x'}]), rng.randint(0, 9), rng.choice([None, 5.0, 7]), rng.random() < .2]
            for _ in range(rng.randint(0, n))]


def gen_collections(rng, size):
    for _ in range(1200 * size):
        ops = []
        for _ in range(rng.randint(1, 8)):
            ops.append(rng.choice([['add', some_data(rng)], ['iadd', some_data(rng)], ['add1', some_data(rng, 1) or [['m', {}, 1, None, False]]],
                                   ['iadd1', some_data(rng, 1) or [['m', {}, 1, None, False]]],
                                   ['prefix', rng.choice(['p', 'p.q', ''])], ['postfix', 's'], ['labels', {'z': 9}], ['labels', {'z': 3}], ['value', 4],
                                   ['stamp', 12.5], ['internals'], ['json'], ['copy']]))
        yield {'first': some_data(rng), 'ops': ops}


def build(data):
    return [MetricData(n, v, dict(l), t, i) for n, l, v, t, i in data]


def entry(d):
    return d.value, d.timestamp, d.internal


def as_model(data):
    out = {}
    for n, l, v, t, i in data:
        out.setdefault(K(n, **l), (v, t, i))
    return out


@case('collections of metric data', gen_collections, 'up to 8 operations on up to 5 entries')
def collections_(inp):
    first = list(dict((K(n, **l), (n, l, v, t, i)) for n, l, v, t, i in inp['first']).values())
    c = MetricDataCollection(build(first))
    model = as_model(first)

    def merge(a, b):
        return {**a, **b}
    for op, *a in inp['ops']:
        if op in ('add', 'iadd', 'add1', 'iadd1'):
            data = list(dict((K(n, **l), (n, l, v, t, i)) for n, l, v, t, i in a[0]).values())
            other = build(data)[0] if op.endswith('1') else MetricDataCollection(build(data))
            before, bo = report(c, entry), None if op.endswith('1') else report(other, entry)
            want = merge(model, as_model(data))
            if op.startswith('i'):
                d = c
                c += other
                assert c is d, 'another collection'
            else:
                d = c + other
                assert report(c, entry) == before, '+ changes its operand'
                c = d
            assert bo is None or report(other, entry) == bo, 'the other operand changed'
            model = want
        elif op in ('prefix', 'postfix'):
            r = c.prefix_with(a[0]) if op == 'prefix' else c.postfix_with(a[0])
            assert r is c, 'does not return itself'
            model = {((a[0] + '.' + k[0] if a[0] else k[0]) if op == 'prefix' else k[0] + '.' + a[0], k[1]): v for k, v in model.items()}
        elif op == 'labels':
            if len({(k[0], tuple(sorted({**dict(k[1]), **a[0]}.items(), key=repr))) for k in model}) < len(model):
                return      # the labels make entries the same: which one remains is not said
            c.add_labels(a[0])
            model = {(k[0], tuple(sorted({**dict(k[1]), **a[0]}.items(), key=repr))): v for k, v in model.items()}
        elif op == 'value':
            assert c.set_value(a[0]) is c
            model = {k: (a[0], v[1], v[2]) for k, v in model.items()}
        elif op == 'stamp':
            assert c.set_timestamp(a[0]) is c
            model = {k: (v[0], a[0], v[2]) for k, v in model.items()}
        elif op == 'internals':
            c.remove_internals()
            model = {k: v for k, v in model.items() if not v[2]}
        elif op == 'json':
            j = c.to_json()
            text = repr(j)
            again = MetricDataCollection.from_json(j)
            assert repr(j) == text, 'from_json changes its argument'
            assert c == again and c.strict_eq(again), 'not equal after a round trip by JSON'
            c = again
        else:
            d = MetricDataCollection(c)
            assert d == c
            d += MetricData('other', 1)
            assert report(c, entry) == model, 'a copy changes the original'
        assert report(c, entry) == model, '%s: %r is not %r' % (op, report(c, entry), model)
        fresh_one = MetricDataCollection([MetricData(k[0], v[0], dict(k[1]), v[1], v[2]) for k, v in model.items()])
        assert c == fresh_one and c.strict_eq(fresh_one) and fresh_one.strict_eq(c), 'not equal to the same entries'
        for d in fresh_one.values:
            assert d in c.values, 'an entry cannot be found'
        if model:
            k = sorted(model, key=repr)[0]
            less = MetricDataCollection([d for d in fresh_one.values if K(d.name, **dict(d.labels)) != k])
            assert not c.strict_eq(less) and not less.strict_eq(c), 'equal to fewer entries'
            for d in fresh_one.values:
                if K(d.name, **dict(d.labels)) == k:
                    d.value = 'changed'
            assert not c.strict_eq(fresh_one), 'equal to other values'


# ---- rendering ------------------------------------------------------------------------------------------------------
TEXTS = ['x', 'a b', 'q"q', 'back\\slash', 'a\\"b', 'new\nline', '\\n', 'comma,=}', '{', '', '5 6', 'ą']


def gen_render(rng, size):
    for _ in range(900 * size):
        yield {'data': [[rng.choice(['m', 'm.x', 'a.b.c', 'k']), {k: rng.choice(TEXTS) for k in rng.sample(['a', 'b', 'c'], rng.randint(0, 3))},
                         rng.choice([rng.randint(-9, 99), 2.5, -0.125, 1e30, math.inf]), rng.choice([None, None, 10, 12.5, 1700000000.25]), rng.random() < .2]
                        for _ in range(rng.randint(0, 6))]}


LINE = re.compile(r'([a-zA-Z_:][a-zA-Z0-9_:]*)(?:\{((?:[a-zA-Z_][a-zA-Z0-9_]*="(?:[^"\\\n]|\\[\\"n])*",?)*)\})? (\S+)(?: (-?\d+))?\Z')
LABEL = re.compile(r'([a-zA-Z_][a-zA-Z0-9_]*)="((?:[^"\\\n]|\\[\\"n])*)"(?:,|\Z)')


@case('rendering for Prometheus', gen_render, 'up to 6 entries of up to 3 labels')
def render(inp):
    data = list(dict(((d[0], tuple(sorted(d[1].items()))), d) for d in inp['data']).values())
    text = metric_data_collection_to_prometheus(MetricDataCollection(build(data)))
    want = {}
    for n, l, v, t, i in data:
        if not i:
            want[K(n.replace('.', '_'), **l)] = (float(v), None if t is None else int(t * 1000))
    got = {}
    for line in text.split('\n'):
        if not line:
            continue
        m = LINE.match(line)
        assert m, 'not a line for Prometheus: %r' % line
        labels = {}
        for x in LABEL.finditer(m.group(2) or ''):
            labels[x.group(1)] = re.sub(r'\\(.)', lambda y: '\n' if y.group(1) == 'n' else y.group(1), x.group(2))
        got[K(m.group(1), **labels)] = (float(m.group(3)), m.group(4) and int(m.group(4)))
    assert got == want, 'rendered %r, data %r' % (got, want)
    assert text.endswith('\n') or not want, 'the last line is not ended'


# ---- measuring ------------------------------------------------------------------------------------------------------
def gen_measure(rng, size):
    for kind in ('call', 'generator', 'context', 'future', 'two futures'):
        for fails in (None, 'exc', 'base'):
            for inc in (True, False):
                for level in (2, 3):
                    for agg in (True, False):
                        yield {'kind': kind, 'fails': fails, 'include': inc, 'level': level, 'aggregate': agg, 'takes': rng.choice([1.5, 3, .25])}


@case('measuring', gen_measure, 'every way of measuring')
def measuring(inp):
    clock = [100.0]
    get = lambda: clock[0]
    got = []
    class Recorder(MeasurableMixin):
        def handle(self, level, *a, **k):
            got.append((level, *a, k))
    m = AggregateMetric(Recorder()) if inp['aggregate'] else Recorder()
    err = {'exc': Boom('x'), 'base': KeyboardInterrupt(), None: None}[inp['fails']]

    def work(a, b=1):
        clock[0] += inp['takes']
        if err is not None:
            raise err
        return a, b
    kw = dict(logging_level=MetricLevel(inp['level']), value_getter=get, label='x')
    kind = inp['kind']
    if kind in ('future', 'two futures'):
        f = Future()
        f.set_running_or_notify_cancel()
        m.measure_future(f, **kw)
        if kind == 'two futures':
            clock[0] += 10
            m.measure_future(f, **kw)
        clock[0] += inp['takes']
        f.set_result(1) if err is None or inp['fails'] == 'base' else f.set_exception(err)
        clock[0] += 7
        want = [inp['takes']] if kind == 'future' else [10 + inp['takes'], inp['takes']]
        assert got == [(MetricLevel(inp['level']), w, {'label': 'x'}) for w in want], 'measured %r, takes %r' % (got, want)
        return
    mm = m.measure(include_exceptions=inp['include'], **kw)
    try:
        if kind == 'call':
            out = mm(work)(5, b=7)
            assert out == (5, 7), 'returns %r' % (out,)
        elif kind == 'generator':
            def gen(a, b=1):
                x = yield a
                assert x == 'sent', 'what is sent does not arrive'
                return work(a, b)
            g = mm(gen)(5, b=7)
            clock[0] += 50
            assert next(g) == 5
            try:
                g.send('sent')
            except StopIteration as e:
                assert e.value == (5, 7), 'the generator returns %r' % (e.value,)
        else:
            with mm as x:
                work(5)
    except (Boom, KeyboardInterrupt) as e:
        assert e is err, 'another exception'
    else:
        assert err is None, 'the exception is lost'
    if inp['fails'] and not inp['include']:
        assert not got or inp['fails'] == 'base', 'measured though the exception is not to be included'
    else:
        assert got == [(MetricLevel(inp['level']), inp['takes'], {'label': 'x'})], 'measured %r' % (got,)


# ---- other metrics --------------------------------------------------------------------------------------------------
def gen_others(rng, size):
    for _ in range(400 * size):
        yield {'kind': rng.choice(['callable', 'uptime', 'labeled', 'aggregate', 'empty', 'specific']), 'ops': [rng.randint(0, 9) for _ in range(rng.randint(1, 6))],
               'labels': rng.choice([{}, {'k': 1}, {'k': 1, 'l': 2}]), 'getter': rng.random() < .7}


@case('callable, labeled, aggregate and other metrics', gen_others, 'up to 6 operations')
def others(inp):
    fresh()
    kind, labels = inp['kind'], inp['labels']
    v = [0]
    if kind == 'callable':
        m = getMetric('x.m', 'callable', **({'value_getter': lambda: v[0]} if inp['getter'] else {}), labels=labels)
        more = []
        for o in inp['ops']:
            v[0] = o
            if o % 3 == 0:
                lm = LabeledMetric(m, n=len(more))
                lm.callable = lambda n=len(more): 100 + n + v[0]
                more.append(lm)
            want = {K('m', n=n, **labels): 100 + n + o for n in range(len(more))}
            if inp['getter']:
                want[K('m', **labels)] = o
            same(report(m.to_metric_data()), want, 'callable')
            for f in (m.runtime, m.debug):
                try:
                    f(1)
                except TypeError:
                    pass
                else:
                    assert f == m.debug, 'a callable metric takes a value'
    elif kind == 'uptime':
        v[0] = 5
        m = getMetric('x.m', 'uptime', time_getter=lambda: v[0], labels=labels)
        for o in inp['ops']:
            v[0] += o
            same(report(m.to_metric_data()), {K('m', **labels): v[0] - 5}, 'uptime')
    elif kind == 'labeled':
        m = getMetric('x.m', 'counter')
        lm = LabeledMetric(m, key=5, **labels)
        by = {}
        for i, o in enumerate(inp['ops']):
            extra = {'z': o % 2} if i % 2 else {}
            lm.runtime(o, **extra) if i % 3 else lm.handle(2, o, **extra)
            k = K('m', key=5, **labels, **extra)
            by[k] = by.get(k, 0) + o
            same(report(m.to_metric_data()), {**by, K('m.sum'): sum(inp['ops'][:i + 1])}, 'labeled')
    elif kind == 'aggregate':
        ms = [getMetric('m%d' % i, k) for i, k in enumerate(['counter', 'int', 'float'])]
        ms[1].level = MetricLevel.DEBUG
        am = AggregateMetric(*ms)
        tot, last = 0, [0, 0]
        for o in inp['ops']:
            if o % 4 == 0:
                am.debug(o)
                last[0] = o
            else:
                am.runtime(o)
                tot, last = tot + o, [o, o]
            got = {}
            for m in ms:
                got.update(report(m.to_metric_data()))
            same(got, {K('m0'): tot, K('m1'): last[0], K('m2'): last[1]}, 'aggregate')
    elif kind == 'empty':
        m = getMetric('x.m', 'empty')
        for o in inp['ops']:
            m.runtime(o, a=1) if o % 2 else m.debug()
            assert not m.to_metric_data().values and not getMetric('').to_metric_data().values
    else:
        m = getMetric('x.m', 'int')
        last = {}
        for i, o in enumerate(inp['ops']):
            m.runtime(o, a=o % 2, b=i % 2)
            last[o % 2, i % 2] = o
            for (a, b), w in last.items():
                same(report(m.get_specific_metric_data({'b': b, 'a': a})), {K('m', a=a, b=b): w}, 'data of one set of labels')


# ---- resetting, containers, defaults ---------------------------------------------------------------------------------
def gen_containers(rng, size):
    for what in ('reset root', 'reset container', 'handle', 'child of leaf', 'default root', 'wrong sum', 'empty render', 'defaults', 'no labels', 'labeled callable'):
        for level in (None, 1, 2, 3):
            for _ in range(2 * size):
                yield {'what': what, 'level': level, 'vals': [rng.randint(0, 99) for _ in range(rng.randint(1, 8))]}


def refuses(f, *a, exc=TypeError, **k):
    try:
        f(*a, **k)
    except exc:
        return
    assert False, 'not refused'


@case('resetting, containers and defaults', gen_containers, 'every level')
def containers(inp):
    fresh()
    what, level, vals = inp['what'], inp['level'], inp['vals']
    lv = None if level is None else MetricLevel(level)
    if what == 'reset root':
        root = getMetric('')
        getMetric('x.m', 'int', lv).runtime(5)
        if lv:
            root.level = lv
        root.reset()
        r2 = getMetric('')
        assert r2.level == MetricLevel.RUNTIME, 'after a reset the root has level %r' % r2.level
        assert not r2.to_metric_data().values and not r2.children, 'metrics are left after a reset'
        m = getMetric('x.m', 'counter')     # of another type: the old one is gone
        m.runtime(3)
        m.debug(100)
        same(report(getMetric('').to_metric_data()), {K('x.m'): 3}, 'after a reset')
    elif what == 'reset container':
        ms = {n: getMetric(n, 'int') for n in ('x.m', 'x.y.m', 'xx.m', 'z')}
        x = getMetric('x')
        for m in ms.values():
            m.runtime(4)
        x.reset()
        same(report(getMetric('').to_metric_data()), {K('xx.m'): 4, K('z'): 4}, 'after a reset of x')
        assert getMetric('xx.m', 'int') is ms['xx.m'] and getMetric('z', 'int') is ms['z'], 'the reset of x takes other metrics'
        assert not x.children and not x.to_metric_data().values
        n = getMetric('x.y.m', 'counter')
        assert n is not ms['x.y.m']
    elif what == 'handle':
        for m in (getMetric('x'), getMetric('')):
            refuses(m.runtime, 1)
            refuses(m.handle, MetricLevel.RUNTIME)
            m.debug(1)      # not at this level, and not handled
    elif what == 'child of leaf':
        m = getMetric('x', 'int')
        refuses(m.append_child, getMetric('y', 'int'))
    elif what == 'default root':
        # the first call of all makes the root, too
        getMetric('').reset()
        m = getMetric('x.y.m', 'counter', lv) if lv else getMetric('x.y.m', 'counter')
        assert getMetric('').level == MetricLevel.RUNTIME, 'the root is created with level %r' % getMetric('').level
        want = lv or MetricLevel.RUNTIME
        for n in ('x', 'x.y'):
            assert getMetric(n).level == want, '%s, created for a metric of level %r, has %r' % (n, lv, getMetric(n).level)
        for v in vals:
            m.runtime(v)
            m.debug(v)
        tot = sum(vals) * {1: 0, 2: 1, 3: 2}[int(want)]
        same(report(m.to_metric_data()), {K('m'): tot}, 'level %r' % lv)
        same(report(getMetric('').to_metric_data()), {K('x.y.m'): tot} if want <= MetricLevel.RUNTIME else {}, 'level %r, at the root' % lv)
    elif what == 'wrong sum':
        c = MetricDataCollection(MetricData('m', 1))
        for x in (5, None, 'm', [MetricData('k', 1)]):
            refuses(lambda: c + x)
        d = MetricDataCollection(MetricData('m', 1), MetricData('k', 2))
        same(report(d), {K('m'): 1, K('k'): 2}, 'a collection of two')
    elif what == 'empty render':
        for c in (MetricDataCollection(), MetricDataCollection(MetricData('m', 1, internal=True))):
            assert metric_data_collection_to_prometheus(c).strip() == ''
        assert metric_data_collection_to_prometheus(MetricDataCollection(MetricData('m.n', 1.5))) == 'm_n 1.5\n'
        assert metric_data_collection_to_prometheus(MetricDataCollection(MetricData('m', 1, {'k': 2}, 0.0))) == 'm{k="2"} 1 0\n'
    elif what == 'defaults':
        m = getMetric('x.m', 'summary')
        for i in range(130):
            m.runtime(i + vals[0])
        same(report(m.to_metric_data()), {**{K('m', quantile=q): quantile(range(30 + vals[0], 130 + vals[0]), q) for q in (.5, .95)},
                                          K('m.count'): 130, K('m.sum'): sum(range(130)) + 130 * vals[0]}, 'a summary of 130 values, of which it keeps 100')
        f = getMetric('x.l', 'linkfail')
        status = lambda: [v for k, v in report(f.to_metric_data()).items() if k[0].endswith('status')][0]
        for i in range(1, 101):
            f.runtime(False)
            assert status() == int(i < 100), 'a link after %d failures: %r' % (i, status())
        for i in range(1, 11):
            f.runtime(True)
            assert status() == int(i >= 10), 'a link after %d successes: %r' % (i, status())
    elif what == 'no labels':
        assert MetricData('m', 1).labels == {} and MetricData('m', 1) == MetricData('m', 2) and MetricData('m', 1) != MetricData('m', 1, {'a': 1})
        d = MetricData('m', 1)
        d.add_labels({'a': 1})
        d.add_timestamp(7)
        d.prefix_with('p')
        d.postfix_with('s')
        assert (d.name, d.value, dict(d.labels), d.timestamp, d.internal) == ('p.m.s', 1, {'a': 1}, 7, False)
        assert d.to_json() == {'_name': 'p.m.s', '_': 1, 'a': 1, '_timestamp': 7} and d.to_json('q')['_name'] == 'q.p.m.s'
        assert MetricData('m', 1, None, 0).to_json() == {'_name': 'm', '_': 1, '_timestamp': 0}
        assert MetricData('m', 1, internal=True).to_json() == {'_name': 'm', '_': 1, '_internal': True}
    else:
        c = getMetric('x.m', 'callable', value_getter=lambda: 1)
        LabeledMetric(c, callable=lambda: vals[0], k=1)
        LabeledMetric(c, k=2)
        same(report(c.to_metric_data()), {K('m'): 1, K('m', k=1): vals[0], K('m', k=2): 0}, 'labeled callables')


# ---- caches with metrics --------------------------------------------------------------------------------------------
class Now:
    """an executor that runs at once"""

    @staticmethod
    def submit(f, *a, **k):
        fut = Future()
        fut.set_running_or_notify_cancel()
        try:
            fut.set_result(f(*a, **k))
        except Exception as e:
            fut.set_exception(e)
        return fut


def gen_caches(rng, size):
    for _ in range(500 * size):
        yield {'kind': rng.choice(['cache', 'lru', 'writeback']), 'max': rng.randint(1, 3), 'metrics': rng.random() < .9, 'takes': rng.choice([0, .5]),
               'ops': [rng.choice([['get', rng.randint(0, 4)], ['get', rng.randint(0, 4)], ['wait', rng.choice([.4, 1.2, 3])], ['set', rng.randint(0, 4)],
                                   ['del', rng.randint(0, 4)]]) for _ in range(rng.randint(1, 16))]}


@case('caches with metrics', gen_caches, 'up to 16 operations on up to 5 keys')
def caches(inp):
    fresh()
    kind = inp['kind']
    hits, miss, refreshes, evictions = (getMetric('c.' + n, 'counter') for n in ('hits', 'miss', 'refreshes', 'evictions'))
    took = getMetric('c.took', 'counter', count_calls=True)
    waiting = getMetric('c.waiting', 'callable')
    val = lambda m, n='': [v for k, v in report(m.to_metric_data()).items() if k[0] == m.name + n][0]
    clock, calls, evicted = [100.0], [[], []], [0]

    def getter(which):
        def get(k):
            calls[which].append(k)
            clock[0] += inp['takes']
            if k == 4:
                raise KeyError(k)
            return k * 10 + len(calls[which])
        return get
    t = lambda: clock[0]
    if kind == 'writeback':
        import threading
        go = threading.Event()
        base = {0: 1, 1: 2}

        def write(k, v):
            go.wait(20)
            base[k] = v
        c = MetrifiedExclusiveWritebackCache(write, base.__getitem__, base.__delitem__, cache_hits=hits, cache_miss=miss, entries_waiting=waiting)
        known, nh, nm = set(), 0, 0
        try:
            for i, (op, *a) in enumerate(inp['ops']):
                if op == 'set':
                    go.clear()
                    c[a[0]] = i
                    known.add(a[0])
                    before = c.get_queue_length()
                    n = val(waiting)
                    assert c.get_queue_length() <= n <= before, 'entries waiting: %r reported' % n
                elif op == 'get' and (a[0] in known or a[0] in (0, 1)):
                    go.set()
                    nh, nm = nh + (a[0] in known), nm + (a[0] not in known)
                    c[a[0]]
                    known.add(a[0])
                    assert (val(hits), val(miss)) == (nh, nm), 'hits and misses %r, not %r' % ((val(hits), val(miss)), (nh, nm))
        finally:
            go.set()
            c.sync()
        n = val(waiting)
        assert n == 0, 'synced, and %r are waiting' % n
        return

    class Twin(LRUCacheDict):
        def evict(self):
            evicted[0] += 1
            super().evict()
    kw = dict(cache_hits=hits, cache_miss=miss, refreshes=refreshes, how_long_refresh_takes=took) if inp['metrics'] else {}
    extra = {'max_size': inp['max']} if kind == 'lru' else {}
    a0 = dict(stale_interval=1, expiration_interval=2, value_getter_executor=Now, cache_failures_interval=1, time_getter=t)
    c = (MetrifiedLRUCacheDict if kind == 'lru' else MetrifiedCacheDict)(value_getter=getter(1), **a0, **extra, **kw,
                                                                        **({'evictions': evictions} if kw and kind == 'lru' else {}))
    twin = (Twin if kind == 'lru' else CacheDict)(value_getter=getter(0), **a0, **extra)
    nh = nm = 0

    def do(x, op, k):
        try:
            if op == 'get':
                return x[k]
            if op == 'set':
                x[k] = 7
            else:
                del x[k]
        except KeyError:
            return 'KeyError'
    for op, k in inp['ops']:
        if op == 'wait':
            clock[0] += k
            continue
        if op == 'get':
            had = twin.has_info_about(k)
            nh, nm = nh + had, nm + (not had)
        now = clock[0]
        w = do(twin, op, k)
        clock[0] = now
        g = do(c, op, k)
        assert g == w, '%s %r gives %r, and without metrics %r' % (op, k, g, w)
        assert calls[0] == calls[1], 'values asked for'
        if not kw:
            continue
        assert (val(hits), val(miss)) == (nh, nm), 'hits and misses %r, not %r' % ((val(hits), val(miss)), (nh, nm))
        assert val(refreshes) == len(calls[1]), 'refreshes: %r, the getter was called %r times' % (val(refreshes), len(calls[1]))
        assert val(took, '.count') == len(calls[1]) and val(took) == len(calls[1]) * inp['takes'], 'time taken by refreshes'
        if kind == 'lru':
            assert val(evictions) == evicted[0], 'evictions: %r, not %r' % (val(evictions), evicted[0])


main('C26')
