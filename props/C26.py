"""C26: metrics report exactly what was fed to them, under their names and labels."""
import collections
import itertools
import math
from pyvc.api import *
from satella.instrumentation.metrics import data as MD, labeled as ML, aggregate as MA
from satella.instrumentation.metrics.data import MetricData, MetricDataCollection
from satella.instrumentation.metrics.metric_types import base as MB, callable as MC, counter as CN, cps as CP, histogram as HM, linkfail as LF, \
    measurable_mixin as MM, simple as SM, summary as SU, uptime as UP
from satella.instrumentation.metrics.metric_types.base import Metric, MetricLevel

N = num_term


def ok(ctx, out):
    ctx.check('does not fail', BoolVal(out[0] == 'ok'))
    return out[1]


def D(f):
    return forall(IntC, f, 'j')


def root():
    return Metric('', None, MetricLevel.RUNTIME)


def report(ctx, mdc):
    out = {}
    for d in mdc.values:
        k = d.name, tuple(sorted(d.labels.items(), key=repr))
        ctx.check('every name and labels once', BoolVal(k not in out))
        out[k] = d
    return out


def K(name, **labels):
    return name, tuple(sorted(labels.items(), key=repr))


def expect(ctx, got, want, internal=False):
    ctx.check('exactly these names and labels', BoolVal(set(got) == set(want)))
    for k in set(got) & set(want):
        ctx.check('the value reported', N(got[k].value) == want[k])
        ctx.check('internal exactly if asked for', BoolVal(got[k].internal is internal))


# ---- levels ---------------------------------------------------------------------------------------------------------
@contract('level and handle', ['Metric.level', 'Metric.can_process_this_level', 'Metric.handle', 'Metric.runtime', 'Metric.debug'], reach=['end', 'taken', 'dropped'])
def t_level(ctx):
    levels = [ctx.choose(3) + 1] + [ctx.choose(4) + 1 for _ in range(ctx.choose(3))]
    got = []

    class Leaf(MB.LeafMetric):
        def _handle(self, *a, **k):
            got.append((a, k))
    m = r = Metric('', None, MetricLevel(levels[0]))
    for i, x in enumerate(levels[1:]):
        m = (Leaf if i == len(levels) - 2 else Metric)('m%d' % i, m, x)
    if len(levels) == 1:
        m = Leaf('m', r)
        levels.append(4)
    eff = levels[0]
    for x in levels[1:]:
        eff = eff if x == 4 else x
    ctx.check('the level, inherited if it is to be', BoolVal(m.level == eff))
    ctx.check('the full name', BoolVal(m.get_fully_qualified_name() == '.'.join(['m'] if len(levels) == 2 and m.name == 'm' else ['m%d' % i for i in range(len(levels) - 1)])))
    how, v = ctx.choose(3), ctx.obj('v')
    ok(ctx, ctx.catch([lambda: m.runtime(v, k=1), lambda: m.debug(v, k=1), lambda: m.handle(3, v, k=1)][how]))
    takes = eff >= (2 if how == 0 else 3)
    ctx.reach('taken' if takes else 'dropped')
    ctx.check('taken once exactly if the level allows, as it was given',
              BoolVal(len(got) == takes and all(a[0] is v and len(a) == 1 and k == {'k': 1} for a, k in got)))


# ---- counter and simple metrics -------------------------------------------------------------------------------------
@contract('counter', ['CounterMetric._handle', 'CounterMetric.to_metric_data'], reach=['end', 'labels', 'plain'])
def t_counter(ctx):
    count, sums, internal = bool(ctx.choose(2)), bool(ctx.choose(2)), bool(ctx.choose(2))
    m = CN.CounterMetric('m', root(), MetricLevel.RUNTIME, internal, sums, count)
    value, calls, delta = ctx.real('value'), ctx.int('calls'), ctx.real('delta')
    m.value, m.calls = value, calls
    if ctx.choose(2):
        ctx.reach('plain')
        ok(ctx, ctx.catch(m.runtime, delta))
        want = {K('m'): value.t + delta.t}
        if count:
            want[K('m.count')] = calls.t + 1
    else:
        ctx.reach('labels')
        more = [ctx.real('d') for _ in range(3)]
        labels = [{'a': 1}, {'a': 2}, {'b': 1, 'a': 1}]
        used = [labels[ctx.choose(3)] for _ in more]
        for d, lab in zip(more, used):
            ok(ctx, ctx.catch(m.runtime, d, **lab))
        ok(ctx, ctx.catch(m.runtime, delta))
        want = {}
        for lab in labels:
            mine = [d.t for d, u in zip(more, used) if u == lab]
            if mine:
                want[K('m', **lab)] = z3.Sum(mine)
                if count:
                    want[K('m.count', **lab)] = IntVal(len(mine))
        if sums:
            want[K('m.sum')] = value.t + delta.t + z3.Sum([d.t for d in more])
        if count:
            want[K('m.count')] = calls.t + 4
    expect(ctx, report(ctx, ok(ctx, ctx.catch(m.to_metric_data))), want, internal)


@contract('int and float', ['SimpleMetric._handle', 'SimpleMetric.to_metric_data', 'EmbeddedSubmetrics._handle', 'EmbeddedSubmetrics.to_metric_data', 'EmbeddedSubmetrics.clone',
                            'EmbeddedSubmetrics.get_specific_metric_data'], reach=['end', 'labels', 'plain'])
def t_simple(ctx):
    whole, internal = bool(ctx.choose(2)), bool(ctx.choose(2))
    m = (SM.IntegerMetric if whole else SM.FloatMetric)('m', root(), MetricLevel.RUNTIME, internal=internal)
    get = ctx.int if whole else ctx.real
    labels = [{}, {'a': 1}, {'b': 1, 'a': 1}]
    used = [labels[ctx.choose(3)] for _ in range(3)]
    vs = [get('v') for _ in used]
    want = {}
    for v, lab in zip(vs, used):
        ok(ctx, ctx.catch(m.runtime, v, **lab))
        if lab:
            want[K('m', **lab)] = v.t
    if not any(used):
        ctx.reach('plain')
        want = {K('m'): vs[-1].t}
    else:
        ctx.reach('labels')
        for lab in labels[1:]:
            if K('m', **lab) in want:
                one = report(ctx, ok(ctx, ctx.catch(m.get_specific_metric_data, lab)))
                expect(ctx, one, {K('m', **lab): want[K('m', **lab)]}, internal)
    expect(ctx, report(ctx, ok(ctx, ctx.catch(m.to_metric_data))), want, internal)


@contract('timestamps', ['Metric.handle', 'Metric.get_timestamp', 'EmbeddedSubmetrics._handle'], reach=['end', 'labels', 'none'])
def t_stamp(ctx):
    on = bool(ctx.choose(2))
    kind = ctx.choose(2)
    m = [CN.CounterMetric, SM.IntegerMetric][kind]('m', root(), MetricLevel.RUNTIME, enable_timestamp=on)
    labels = [{'a': 1}, {'a': 2}]
    used = [labels[ctx.choose(2)] for _ in range(ctx.choose(3))]
    ctx.reach('labels' if used else 'none')
    lo, hi = {}, {}
    t0 = MB.time.time
    seen = []

    def clock():
        seen.append(t0())
        return seen[-1]
    for lab in used or [{}]:
        a = pv_now(ctx)
        ok(ctx, ctx.catch(m.runtime, 1, **lab))
        b = pv_now(ctx)
        for k in ([tuple(lab.items())] if lab else []) + [()]:
            lo[k], hi[k] = a, b
    for (name, lab), d in report(ctx, ok(ctx, ctx.catch(m.to_metric_data))).items():
        if not on:
            ctx.check('no timestamp if not asked for', BoolVal(d.timestamp is None))
        else:
            ctx.check('the time of its own last update', And(lo[lab].t <= N(d.timestamp), N(d.timestamp) <= hi[lab].t))


def pv_now(ctx):
    return ctx.call_model(MB.time.time) if hasattr(ctx, 'call_model') else runtime_now()


def runtime_now():
    from pyvc import runtime as R
    return R._now()


# ---- summary --------------------------------------------------------------------------------------------------------
@contract('summary window', ['SummaryMetric._handle'], reach=['end', 'full', 'room'])
def t_summary(ctx):
    count = bool(ctx.choose(2))
    m = SU.SummaryMetric('m', root(), MetricLevel.RUNTIME, count_calls=count)
    q = m.calls_queue = SDeque('window', RealC)
    pre = (q.arr, q.n)
    m.last_calls, m.tot_calls, m.tot_time = ctx.int('last_calls'), ctx.int('calls'), ctx.real('time')
    L, c0, t0 = m.last_calls.t, m.tot_calls.t, m.tot_time.t
    ctx.assume(And(L > 0, q.n <= L))
    v = ctx.real('v')
    ok(ctx, ctx.catch(m._handle, v))
    w = m.calls_queue
    full = ctx.choose(2)
    ctx.assume(pre[1] == L if full else pre[1] < L)
    ctx.reach('full' if full else 'room')
    ctx.check('at most the last ones', w.n == If(pre[1] == L, L, pre[1] + 1))
    ctx.check('the newest, and those before it', And(w.el(IntVal(0)) == v.t, D(lambda j: Implies(And(1 <= j, j < w.n), w.el(j) == Select(pre[0], j - 1)))))
    ctx.check('totals count every call', And(N(m.tot_calls) == c0 + (1 if count else 0), N(m.tot_time) == (t0 + v.t if count else t0)))


@contract('summary report', ['SummaryMetric.to_metric_data', 'SummaryMetric.calculate_quantiles'], reach=['end', 'labels', 'plain'])
def t_quant(ctx):
    count, total, internal = bool(ctx.choose(2)), bool(ctx.choose(2)), bool(ctx.choose(2))
    asked = []

    def percentile(values, q):
        r = ctx.real('quantile')
        asked.append((list(values), q, r))
        return r
    ctx.models[SU.percentile] = percentile
    m = SU.SummaryMetric('m', root(), MetricLevel.RUNTIME, internal, 2, (0.5, 0.9), total, count)
    labels = [{}, {'a': 1}][ctx.choose(2)]
    vs = [ctx.real('v') for _ in range(ctx.choose(2) + 1)]
    for v in vs:
        ok(ctx, ctx.catch(m.runtime, v, **labels))
    got = report(ctx, ok(ctx, ctx.catch(m.to_metric_data)))
    want = {}
    s = z3.Sum([v.t for v in vs])
    for name, lab in [('m', labels)] + ([('m.total', {})] if labels and total else []):
        for q in (0.5, 0.9):
            k = K(name, quantile=q, **lab)
            mine = [r for vals, p, r in asked if p == q and k in got and got[k].value is r]
            ctx.check('a quantile as asked for', BoolVal(bool(mine)))
            if mine:
                want[k] = mine[0].t
    for vals, q, r in asked:
        ctx.check('of all the values, in order', And(len(vals) == len(vs), *[N(a) <= N(b) for a, b in zip(vals, vals[1:])],
                                                     z3.Sum([N(a) for a in vals]) == s, *[Or(*[N(a) == v.t for v in vs]) for a in vals]))
    ctx.reach('labels' if labels else 'plain')
    if count:
        for lab in ([labels] if labels else []) + [{}]:
            want[K('m.count', **lab)] = IntVal(len(vs))
            want[K('m.sum', **lab)] = s
    expect(ctx, got, want, internal)


# ---- histogram ------------------------------------------------------------------------------------------------------
@contract('histogram', ['HistogramMetric._handle', 'HistogramMetric.to_metric_data', 'HistogramMetric.containers_to_metric_data'], reach=['end', 'labels', 'plain'])
def t_hist(ctx):
    n, total, internal = ctx.choose(4), bool(ctx.choose(2)), bool(ctx.choose(2))
    m = HM.HistogramMetric('m', root(), MetricLevel.RUNTIME, internal, tuple(range(1, n + 1)), total)
    lim = [ctx.real('limit') for _ in range(n)]
    m.bucket_limits = lim
    edges = [z3.RealVal(0)] + [x.t for x in lim]
    ctx.assume(And(*[a < b for a, b in zip(edges, edges[1:])], BoolVal(True)))
    m.buckets = [ctx.int('amount') for _ in range(n + 1)]
    m.count, m.sum = ctx.int('count'), ctx.real('sum')
    pre, c0, s0 = [b.t for b in m.buckets], m.count.t, m.sum.t
    v = ctx.real('v')
    labels = [{}, {'a': 1}][ctx.choose(2)]
    ctx.reach('labels' if labels else 'plain')
    ok(ctx, ctx.catch(m._handle, v, **labels))
    into = [And(edges[i] <= v.t, v.t < edges[i + 1]) if i < n else edges[i] <= v.t for i in range(n + 1)]
    ctx.check('counted once, in all', And(N(m.count) == c0 + 1, N(m.sum) == s0 + v.t))
    for i in range(n + 1):
        up = If(into[i], 1, 0) if not labels or total else 0
        ctx.check('counted in exactly the bucket it falls into', N(m.buckets[i]) == pre[i] + up)
    m.bucket_limits = list(range(1, n + 1))       # rendering: the limits are labels
    got = report(ctx, ok(ctx, ctx.catch(m.to_metric_data)))
    want = {}
    lims = [0.0] + list(range(1, n + 1)) + [math.inf]

    def add(name, buckets, s, c, lab):
        for i in range(n + 1):
            want[K(name, le=lims[i], ge=lims[i + 1], **lab)] = N(buckets[i])
        want[K(name + '.sum', **lab)], want[K(name + '.count', **lab)] = N(s), N(c)
    if not labels:
        add('m', m.buckets, m.sum, m.count, {})
    else:
        c = m.children_mapping[tuple(labels.items())]
        add('m', c.buckets, v, 1, labels)
        if total:
            add('m.total', m.buckets, m.sum, m.count, {})
    expect(ctx, got, want, internal)


# ---- clicks per time ------------------------------------------------------------------------------------------------
def pruned(L=None):
    e = cur().env
    q = e.m.last_clicks
    k = e.n + 1 - q.n
    return And(0 <= k, k <= e.n + 1, D(lambda j: Implies(And(0 <= j, j < q.n), q.el(j) == e.old(j + k))),
               D(lambda j: Implies(And(0 <= j, j < k), e.old(j) <= N(e.now) - e.cut.t)))


@contract('clicks: recording', ['ClicksPerTimeUnitMetric._handle'], invs=[('only old ones dropped', pruned)], reach=['end'])
def t_clicks(ctx):
    e = ctx.env
    e.cut_while = True
    m = e.m = CP.ClicksPerTimeUnitMetric('m', root(), MetricLevel.RUNTIME)
    q = m.last_clicks = SDeque('clicks', RealC)
    m.cutoff_period = e.cut = ctx.real('cutoff')
    ctx.assume(e.cut.t > 0)
    ctx.roots['m'] = m
    arr, e.n = q.arr, q.n
    e.now = ctx.real('now')
    ctx.models[CP.time.monotonic] = lambda: e.now
    e.old = lambda j: If(j < e.n, Select(arr, j), N(e.now))
    i, j = z3.Int('i!s'), z3.Int('j!s')
    ctx.assume(z3.ForAll([i, j], Implies(And(0 <= i, i < j, j < q.n), q.el(i) <= q.el(j)), patterns=[z3.MultiPattern(q.el(i), q.el(j))]))
    ctx.assume(D(lambda j: Implies(And(0 <= j, j < q.n), q.el(j) <= N(e.now))))
    ok(ctx, ctx.catch(m._handle))
    q = m.last_clicks
    ctx.check('nothing but what is too old is forgotten', pruned())
    ctx.check('everything too old is', And(q.n > 0, q.el(IntVal(0)) > N(e.now) - e.cut.t, q.el(q.n - 1) == N(e.now)))


def counted(L):
    e = cur().env
    cm = ([v for v in L.loc.values() if type(v) is SList] or [v for v in L.loc.values() if type(v) is list and all(type(x) is int for x in v)])[0]
    for j in (L.i, L.i - 1):            # instances of the definition of cnt
        for i, u in enumerate(e.units):
            cur().assume(e.cnt[i](0) == 0)
            cur().assume(Implies(j >= 0, e.cnt[i](j + 1) == e.cnt[i](j) + If(e.q.el(j) >= e.now.t - u, 1, 0)))
    n = len(e.units)
    if type(cm) is list:
        return And(*[N(cm[i]) == e.cnt[i](L.i) for i in range(n)])
    return And(cm.n == n, *[cm.el(IntVal(i)) == e.cnt[i](L.i) for i in range(n)])


@contract('clicks: counting', ['ClicksPerTimeUnitMetric.count_vectors'], invs=[('counted so far', counted)], reach=['end'])
def t_count(ctx):
    e = ctx.env
    m = CP.ClicksPerTimeUnitMetric('m', root(), MetricLevel.RUNTIME, time_unit_vectors=[1, 5, 3][:ctx.choose(3) + 1])
    e.units = m.time_unit_vectors
    now = e.now = ctx.real('now')
    ctx.models[CP.time.monotonic] = lambda: now
    q = e.q = SDeque('clicks', RealC)
    e.cnt = [z3.Function('cnt%d' % i, z3.IntSort(), z3.IntSort()) for i in range(len(e.units))]
    got = report(ctx, ok(ctx, ctx.catch(m.count_vectors, q)))
    expect(ctx, got, {K('m', period=u): e.cnt[i](q.n) for i, u in enumerate(e.units)})


# ---- links ----------------------------------------------------------------------------------------------------------
@contract('linkfail', ['LinkfailMetric._handle', 'LinkfailMetric.to_metric_data'], reach=['end', 'online', 'offline', 'nothing'])
def t_link(ctx):
    calls = []
    m = LF.LinkfailMetric('m', root(), MetricLevel.RUNTIME, callback_on_online=lambda a, l: calls.append(('on', a, l)),
                          callback_on_offline=lambda a, l: calls.append(('off', a, l)))
    up, down = ctx.int('to_online'), ctx.int('to_offline')
    m.consecutive_failures_to_offline, m.consecutive_successes_to_online = down, up
    f, s, w = ctx.int('failures'), ctx.int('successes'), bool(ctx.choose(2))
    ctx.assume(And(up.t > 0, down.t > 0, f.t >= 0, s.t >= 0, Or(f.t == 0, s.t == 0), f.t < down.t if w else s.t < up.t))
    other = ctx.choose(2)
    a = [0, 7][ctx.choose(2)]
    m.working[a], m.consecutive_failures[a], m.consecutive_successes[a] = w, f, s
    if other:
        m.working[9], m.consecutive_failures[9], m.consecutive_successes[9] = False, 1, 0
    good = bool(ctx.choose(2))
    ok(ctx, ctx.catch(m._handle, good, a) if a or ctx.choose(2) else ctx.catch(m._handle, good))
    nf, ns = (IntVal(0), s.t + 1) if good else (f.t + 1, IntVal(0))
    ctx.check('consecutive failures and successes', And(N(m.consecutive_failures[a]) == nf, N(m.consecutive_successes[a]) == ns))
    w2 = m.working[a]
    ctx.check('online and offline exactly when there were enough', If(BoolVal(w), Not(And(BoolVal(not good), nf == down.t)), And(BoolVal(good), ns == up.t)) == BoolVal(bool(w2)))
    ctx.check('the callback is called exactly on changes', BoolVal(calls == ([] if w2 == w else [('on' if w2 else 'off', a, {})])))
    ctx.check('never too many without a change', And(nf < down.t if w2 else ns < up.t))
    ctx.reach('nothing' if w2 == w else 'online' if w2 else 'offline')
    got = report(ctx, ok(ctx, ctx.catch(m.to_metric_data)))
    want = {}
    for x, ff, ss, st in [(a, nf, ns, IntVal(int(w2)))] + ([(9, IntVal(1), IntVal(0), IntVal(0))] if other else []):
        lab = {'address': x} if other or a else {}
        want.update({K('m.consecutive_failures', **lab): ff, K('m.consecutive_successes', **lab): ss, K('m.status', **lab): st})
    expect(ctx, got, want)


# ---- other metrics --------------------------------------------------------------------------------------------------
@contract('uptime and callable', ['UptimeMetric.to_metric_data', 'CallableMetric.to_metric_data', 'LabeledMetric'], reach=['end', 'uptime', 'callable'])
def t_others(ctx):
    if ctx.choose(2):
        ctx.reach('uptime')
        now = [ctx.real('then'), ctx.real('now')]
        it = iter(now)
        m = UP.UptimeMetric('m', root(), time_getter=lambda: next(it), labels={'a': 1})
        expect(ctx, report(ctx, ok(ctx, ctx.catch(m.to_metric_data))), {K('m', a=1): now[1].t - now[0].t})
        return
    ctx.reach('callable')
    v = [ctx.real('v') for _ in range(3)]
    own, n = bool(ctx.choose(2)), ctx.choose(3)
    m = MC.CallableMetric('m', root(), labels={'a': 1}, value_getter=(lambda: v[0]) if own else None)
    want = {K('m', a=1): v[0].t} if own else {}
    for i in range(n):
        x = ML.LabeledMetric(m, b=i)
        x.callable = lambda i=i: v[i + 1]
        want[K('m', a=1, b=i)] = v[i + 1].t
    expect(ctx, report(ctx, ok(ctx, ctx.catch(m.to_metric_data))), want)


@contract('labeled and aggregate', ['LabeledMetric.handle', 'AggregateMetric.handle'], reach=['end'])
def t_pass(ctx):
    calls = []

    class M:
        def __init__(self, n):
            self.n = n

        def handle(self, *a, **k):
            calls.append((self.n, a, k))
    v = ctx.obj('v')
    if ctx.choose(2):
        m = ML.LabeledMetric(M(0), a=1, b=2)
        ok(ctx, ctx.catch(m.runtime, v, c=3) if ctx.choose(2) else ctx.catch(m.handle, MetricLevel.RUNTIME, v, c=3))
        want = [(0, {'a': 1, 'b': 2, 'c': 3})]
    else:
        n = ctx.choose(4)
        m = MA.AggregateMetric(*map(M, range(n)))
        ok(ctx, ctx.catch(m.runtime, v, c=3) if ctx.choose(2) else ctx.catch(m.handle, MetricLevel.RUNTIME, v, c=3))
        want = [(i, {'c': 3}) for i in range(n)]
    ctx.check('every metric is given it once, in order, with its labels',
              BoolVal([(n, k) for n, a, k in calls] == want and all(len(a) == 2 and a[0] == MetricLevel.RUNTIME and a[1] is v for n, a, k in calls)))


# ---- measuring ------------------------------------------------------------------------------------------------------
class Boom(Exception):
    pass


@contract('measure', ['MeasurableMixin.measure', 'MeasurableMixin.measure_future'], reach=['end', 'call', 'generator', 'context', 'future', 'excluded'])
def t_measure(ctx):
    got, times = [], []

    def clock():
        t = ctx.real('t')
        if times:
            ctx.assume(times[-1].t <= t.t)
        times.append(t)
        return t

    class R(MM.MeasurableMixin):
        def handle(self, level, *a, **k):
            got.append((level, a, k))
    include, fails = bool(ctx.choose(2)), bool(ctx.choose(2))
    how = ctx.choose(4)
    level = [MetricLevel.RUNTIME, MetricLevel.DEBUG][ctx.choose(2)]
    x, y = ctx.obj('x'), ctx.obj('y')
    err, inside = Boom(), []
    kw = dict(logging_level=level, value_getter=clock, label=5)

    def work(a, b=None):
        inside.append((a, b, len(times)))
        if fails:
            raise err
        return y

    def work2(a, b=None):
        s = yield a
        inside.append((s, b, len(times)))
        if fails:
            raise err
        return y
    m = R()
    if how == 3:
        ctx.reach('future')

        class Fut:
            def add_done_callback(self, f):
                self.f = f
        fut = Fut()
        ok(ctx, ctx.catch(m.measure_future, fut, **kw))
        ctx.check('not before it is done', BoolVal(not got and len(times) == 1))
        fut.f(fut)
    elif how == 2:
        ctx.reach('context')

        def run():
            with m.measure(include, **kw):
                return work(x, x)
        out = ctx.catch(run)
    elif how == 1:
        ctx.reach('generator')

        def run():
            g = m.measure(include, **kw)(work2)(x, b=x)
            ctx.check('starts with the first element', BoolVal(not times))
            ctx.check('the elements', BoolVal(next(g) is x))
            try:
                g.send(x)
            except StopIteration as e:
                return e.value
        out = ctx.catch(run)
    else:
        ctx.reach('call')
        out = ctx.catch(m.measure(include, **kw)(work), x, b=x)
    if how < 3:
        ctx.check('run once, with its arguments, while time is taken', BoolVal(len(inside) == 1 and inside[0][0] is x and inside[0][1] is x and inside[0][2] == 1))
        ctx.check('the result or the exception', BoolVal(out[0] == 'exc' and out[1] is err if fails else out[0] == 'ok' and out[1] is y))
        if fails and not include:
            ctx.reach('excluded')
            ctx.check('an exception that is not included is not measured', BoolVal(not got))
            return
    ctx.check('measured once, with its level and labels', BoolVal(len(got) == 1 and got[0][0] == level and len(got[0][1]) == 1 and got[0][2] == {'label': 5}))
    ctx.check('from the beginning to the end', And(len(times) == 2, N(got[0][1][0]) == times[1].t - times[0].t))
