"""C27: configuration is loaded, merged and checked exactly as documented; transactions and lazy loading."""
import copy
import functools
import os
import warnings
from pyvc.api import *
from satella.coding import algos
from satella.configuration.schema import base as SB, basic as BA, structs as ST, from_json as FJ
from satella.configuration.schema.registry import BASE_LOOKUP_TABLE, PLAIN_ENTRIES
from satella.configuration.sources import base as SO, derivative as DE, format as FO, from_dict as FD, file as FI, object_from as OF
from satella import dao, db
from satella.configuration import sources as SOURCES
from satella.exceptions import ConfigurationError, ConfigurationSchemaError, ConfigurationValidationError

N = num_term
V = ValC.unwrap


def ok(ctx, out):
    ctx.check('does not fail', BoolVal(out[0] == 'ok'))
    return out[1]


class Boom(Exception):
    pass


class Plain:
    pass


class Thing:
    """a source or a descriptor, identified by its term; what it does is an arbitrary function of it"""
    __slots__ = ('t', 'w')

    def __init__(self, w, t):
        self.w, self.t = w, t

    def provide(self):
        return self.w.run(self.t)

    def __call__(self, *a):
        self.w.args.append(a)
        return self.w.run(self.t)


class World(Codec):
    name = 'thing'

    def __init__(self, ctx, refuses, cls):
        B = z3.ArraySort(ValC.sort, z3.BoolSort())
        self.ctx, self.cls, self.refuses, self.args = ctx, cls, refuses, []
        self.fails, self.odd = ctx.fresh('fails', B), ctx.fresh('odd', B)
        self.res = z3.Function(ctx.fresh_name('res'), ValC.sort, ValC.sort)
        self.log = SList('log', ValC, empty=True)
        self.boom = Boom()
        ctx.const(self.boom)
        ctx.roots['log'] = self.log

    sort = property(lambda self: ValC.sort)
    wrap = lambda self, t: Thing(self, t)
    __deepcopy__ = lambda self, memo: self

    def unwrap(self, v):
        if not isinstance(v, Thing):
            raise Unsupported('not a source')
        return v.t

    def ok(self, v):
        return isinstance(v, Thing)

    def run(self, t):
        self.log.append(ValC.wrap(t))
        if self.ctx.fork(Select(self.fails, t)):
            raise self.refuses('refused')
        if self.ctx.fork(Select(self.odd, t)):
            raise self.boom
        return self.ctx.val(self.res(t), self.cls)


def world(ctx, refuses=ConfigurationError, cls=dict):
    w = ctx.env.w = World(ctx, refuses, cls)
    lst = ctx.env.things = SList('things', w)
    return w, lst


def visited(L):
    w, lst = cur().env.w, cur().env.things
    j = z3.Int('j!v')
    return And(w.log.n == L.i, z3.ForAll([j], Implies(And(0 <= j, j < L.i), w.log.el(j) == lst.el(j))))


def before(which):
    def f(L):
        w, lst = cur().env.w, cur().env.things
        j = z3.Int('j!v')
        return z3.ForAll([j], Implies(And(0 <= j, j < L.i), which(w, lst.el(j))))
    return f


FAILED = lambda w, t: And(Select(w.fails, t), True)
NOT_FAILED = lambda w, t: Not(Select(w.fails, t))
NOT_ODD = lambda w, t: Or(Select(w.fails, t), Not(Select(w.odd, t)))


def asked(ctx, w, lst, n):
    j = z3.Int('j!v')
    ctx.check('asked in order, each once', And(w.log.n == n, n <= lst.n, z3.ForAll([j], Implies(And(0 <= j, j < n), w.log.el(j) == lst.el(j)))))


# ---- sources --------------------------------------------------------------------------------------------------------
def define(ctx, i):
    """instances of the definitions of what is merged, and of how many sources did not fail"""
    e = ctx.env
    t = e.things.el(i)
    bad = Select(e.w.fails, t)
    ctx.assume(And(e.fold(0) == e.content(e.empty), e.count(0) == 0, 0 <= e.count(i), e.count(i) <= i,
                   e.fold(i + 1) == If(bad, e.mix(e.fold(i), e.content(e.empty)), e.mix(e.fold(i), e.content(e.w.res(t)))),
                   e.mix(e.fold(i), e.content(e.empty)) == e.fold(i), e.count(i + 1) == e.count(i) + If(bad, IntVal(0), IntVal(1))))


def accumulated(L):
    e = cur().env
    define(cur(), L.i)
    vals = [L.loc[k[4:]] for k in L.cut.info.havoc if k.startswith('loc.') and isinstance(L.loc.get(k[4:]), SVal)]
    return And(*[e.content(v.t) == e.fold(L.i) for v in vals]) if vals else None


def ours(L):
    e = cur().env
    vals = [L.loc[k[4:]] for k in L.cut.info.havoc if k.startswith('loc.') and isinstance(L.loc.get(k[4:]), SVal)]
    return And(*[e.owned(v.t) for v in vals]) if vals else None


def counted(L):
    e = cur().env
    r = []
    for k in L.cut.info.havoc:
        v = L.loc.get(k[4:]) if k.startswith('loc.') else None
        if isinstance(v, SNum) or type(v) is int:
            r.append(N(v) == e.count(L.i))
        elif isinstance(v, SBool) or type(v) is bool:
            r.append(bool_term(v) == (e.count(L.i) > 0))
    return And(*r) if r else None


@contract('MergingSource.provide', ['MergingSource.provide', 'MergingSource.__init__'], reach=['end', 'merged', 'refused', 'odd', 'none left'],
          invs=[('asked so far', visited), ('none failed so far', lambda L: BoolVal(True) if cur().env.silent else before(NOT_FAILED)(L)), ('nothing odd so far', before(NOT_ODD)), ('merged so far', accumulated), ('its own', ours), ('good so far', counted),
                ('all are good, if one must not fail', lambda L: BoolVal(True) if cur().env.silent else cur().env.count(L.i) == L.i)],
          timeout=20000)
def t_merging(ctx):
    """any number of sources; merge_dicts by its contract (C25): updates the first, which must be nobody else's, and keeps parts of the second"""
    w, lst = world(ctx)
    e = ctx.env
    S = ValC.sort
    e.owned, e.content, e.cp = z3.Function('owned', S, z3.BoolSort()), z3.Function('content', S, S), z3.Function('deepcopy', S, S)
    e.mg, e.mix = z3.Function('merge', S, S, S), z3.Function('mix', S, S, S)
    e.fold, e.count = z3.Function('fold', z3.IntSort(), S), z3.Function('count', z3.IntSort(), z3.IntSort())
    e.empty = ctx.fresh('empty', S)
    e.lits = {'dict': lambda: ctx.val(e.empty, dict)}
    ctx.assume(e.owned(e.empty))

    def deepcopy(x, memo=None):
        t = V(x)
        ctx.assume(And(e.owned(e.cp(t)), e.content(e.cp(t)) == e.content(t)))
        return ctx.val(e.cp(t), dict)

    def merge(a, b):
        a, b = V(a), V(b)
        ctx.check('only what is its own is updated', e.owned(a))
        m = e.mg(a, b)
        ctx.assume(And(e.content(m) == e.mix(e.content(a), e.content(b)), e.owned(m) == And(e.owned(a), e.owned(b))))
        return ctx.val(m, dict)
    ctx.models[copy.deepcopy] = deepcopy
    ctx.models[algos.merge_dicts] = merge
    on_fail, need = [DE.MergingSource.RAISE, DE.MergingSource.SILENT, 7][ctx.choose(3)], bool(ctx.choose(2))
    e.silent = on_fail == DE.MergingSource.SILENT
    src = DE.MergingSource(on_fail=on_fail, fail_if_no_sources_are_correct=need)
    conforms(src, 'sources', 'on_fail', 'fail_if_no_sources_are_correct')
    src.sources = lst
    out = ctx.catch(src.provide)
    define(ctx, lst.n)
    j = z3.Int('j!v')
    if out[0] == 'exc' and out[1] is w.boom:
        ctx.reach('odd')
        last = w.log.el(w.log.n - 1)
        ctx.check('a failure of another kind is passed on', And(w.log.n > 0, Select(w.odd, last)))
    elif out[0] == 'exc':
        ctx.check('a failure of the configuration', BoolVal(isinstance(out[1], ConfigurationError)))
        if on_fail == DE.MergingSource.SILENT:
            ctx.reach('none left')
            ctx.check('only if all of the sources failed, and there is one', And(BoolVal(need), e.count(lst.n) == 0, lst.n > 0))
            asked(ctx, w, lst, lst.n)
        else:
            ctx.reach('refused')
            m = w.log.n
            ctx.check('the first source that fails', And(m > 0, Select(w.fails, lst.el(m - 1)), z3.ForAll([j], Implies(And(0 <= j, j < m - 1), Not(Select(w.fails, lst.el(j)))))))
            asked(ctx, w, lst, m)
    else:
        ctx.reach('merged')
        asked(ctx, w, lst, lst.n)
        ctx.check('all that did not fail, merged in order', e.content(V(out[1])) == e.fold(lst.n))
        ctx.check('some source was right, or none is needed', Or(BoolVal(not need), lst.n == 0, e.count(lst.n) > 0) if on_fail == 1 else BoolVal(True))
        if on_fail != DE.MergingSource.SILENT:
            ctx.check('none failed', z3.ForAll([j], Implies(And(0 <= j, j < lst.n), Not(Select(w.fails, lst.el(j))))))


def first(ctx, w, lst, out, cls):
    """the outcome of the first that does not refuse"""
    j = z3.Int('j!v')
    m = w.log.n
    refused = lambda k: z3.ForAll([j], Implies(And(0 <= j, j < k), Select(w.fails, lst.el(j))))
    asked(ctx, w, lst, m)
    if out[0] == 'exc' and out[1] is w.boom:
        ctx.reach('odd')
        ctx.check('a failure of another kind is passed on', And(m > 0, Select(w.odd, lst.el(m - 1)), refused(m - 1)))
    elif out[0] == 'exc':
        ctx.reach('all refused')
        ctx.check('only if all refused', And(BoolVal(isinstance(out[1], cls)), m == lst.n, refused(lst.n)))
    else:
        ctx.reach('found')
        ctx.check('of the first that does not refuse', And(m > 0, V(out[1]) == w.res(lst.el(m - 1)), refused(m - 1), Not(Select(w.fails, lst.el(m - 1))), Not(Select(w.odd, lst.el(m - 1)))))


FIRST = [('asked so far', visited), ('all refused so far', before(FAILED))]


@contract('AlternativeSource.provide', ['AlternativeSource.provide', 'AlternativeSource.__init__'], reach=['end', 'odd', 'all refused', 'found'], invs=FIRST)
def t_alternative(ctx):
    w, lst = world(ctx)
    src = DE.AlternativeSource()
    conforms(src, 'sources')
    src.sources = lst
    first(ctx, w, lst, ctx.catch(src.provide), ConfigurationError)


@contract('Union.__call__', ['Union.__call__'], reach=['end', 'odd', 'all refused', 'found'], invs=FIRST)
def t_union(ctx):
    w, lst = world(ctx, ConfigurationValidationError, object)
    u = ST.Union()
    u.descriptors = lst
    v = ctx.obj('v')
    first(ctx, w, lst, ctx.catch(u, v), ConfigurationValidationError)
    ctx.check('given the value', BoolVal(all(len(a) == 1 and a[0] is v for a in w.args)))


class Src(SO.BaseSource):
    def __init__(self, out):
        self.out = out

    def provide(self):
        if isinstance(self.out, Exception):
            raise self.out
        return self.out


@contract('optional and nested sources', ['OptionalSource.__init__', 'AlternativeSource.provide', 'BuildObjectFrom.provide', 'StaticSource.provide', 'BaseSource.provide'], reach=['end', 'fails', 'odd', 'provides'])
def t_optional(ctx):
    k = ctx.choose(3)
    given = {'a': ctx.obj('v')}
    err = [ConfigurationError('x'), Boom(), None][k]
    ctx.reach(['fails', 'odd', 'provides'][k])
    src = Src(err or given)
    out = ctx.catch(DE.OptionalSource(src).provide)
    key = ctx.obj('key')
    built = ctx.catch(OF.BuildObjectFrom('key', src).provide)
    if k == 0:
        ctx.check('nothing', BoolVal(out == ('ok', {})))
    elif k == 1:
        ctx.check('passed on', BoolVal(out[1] is err))
    else:
        ctx.check('what it provides', BoolVal(out[0] == 'ok' and out[1] is given and list(given) == ['a']))
    if err:
        ctx.check('passed on', BoolVal(built[1] is err))
    else:
        r = ok(ctx, built)
        ctx.check('under its key', BoolVal(type(r) is dict and list(r) == ['key'] and r['key'] is given))
    ctx.check('as it is', BoolVal(SO.StaticSource(given).provide() is given and SO.BaseSource().provide() == {}))


@contract('FormatSource.provide', ['FormatSource.provide', 'FormatSource.__init__'], reach=['end', 'read', 'refused', 'odd'])
def t_format(ctx):
    made = [{'a': 1}, ['a'], None, TypeError('x'), ValueError('x'), LookupError('x'), KeyError('x'), Boom()][ctx.choose(8)]
    seen = []

    class G(FO.FormatSource):
        def TRANSFORM(root):
            seen.append(root)
            if isinstance(made, Exception):
                raise made
            return made
    root, enc, text = [('text', 'utf-8', 'text'), (b'text', 'utf-8', 'text'), (b'dGV4dA==', 'base64', 'text'), (b'\xff\xfe', 'utf-8', None), (b'text', 'nosuch', None)][ctx.choose(5)]
    src = G(root, enc)
    for _ in range(2):
        seen.clear()
        out = ctx.catch(src.provide)
        ctx.check('the text that was decoded', BoolVal(seen == ([text] if text else [])))
        if isinstance(made, Boom) and text:
            ctx.reach('odd')
            ctx.check('passed on', BoolVal(out[1] is made))
        elif text is None or type(made) is not dict:
            ctx.reach('refused')
            ctx.check('refused as configuration', BoolVal(isinstance(out[1], ConfigurationError)))
        else:
            ctx.reach('read')
            ctx.check('what was read', BoolVal(out[0] == 'ok' and out[1] is made))


@contract('load_source_from_dict', ['load_source_from_dict', 'load_source_from_dict.to_arg', 'load_source_from_list'], reach=['end', 'built', 'unknown', 'list', 'no type'], max_paths=2000)
def t_from_dict(ctx):
    """one level; nested sources by the contract of load_source_from_dict itself"""
    built, nested = [], []

    class G(SO.BaseSource):
        def __init__(self, *a, **k):
            built.append((a, k))
            self.a, self.k = a, k

        def provide(self):
            raise ConfigurationError('x')
    real = FD.load_source_from_dict
    SOURCES.GhostSource = G
    try:
        values = {'value': Plain(), 'dict': {'no': 'source'}, 'source': {'type': 'GhostSource', 'x': 1}, 'unknown': {'type': 'nosuch', 'x': 1}, 'binary': {'type': 'binary', 'value': 'ab', 'encoding': 'ascii'}}
        kinds = list(values)
        if ctx.choose(4) == 0:
            ctx.reach('list')
            ctx.models[real] = lambda d: (nested.append(d), SO.StaticSource(d))[1]
            specs = [{'n': i} for i in range(ctx.choose(4))]
            r = ok(ctx, ctx.catch(FD.load_source_from_list, specs))
            ctx.check('merges them all, in order', BoolVal(type(r) is DE.MergingSource and [s.config for s in r.sources] == specs and len(nested) == len(specs) and all(a is b for a, b in zip(nested, specs))))
            return
        arg = kinds[ctx.choose(5)]
        how = ctx.choose(3)
        kw = [None, 'value', 'source', 'unknown'][ctx.choose(4)]
        optional = [None, True, False][ctx.choose(3)]
        bad = ctx.choose(3) if kw is None and how == 0 else 0
        spec = {'type': 'GhostSource'}
        if bad == 1:
            spec['type'] = 'NoSuchSource'
        elif bad == 2:
            del spec['type']
        if how == 0:
            spec['args'] = [values[arg]]
        elif how == 1:
            spec['arg'] = values[arg]
        if kw:
            spec['k'] = values[kw]
        if optional is not None:
            spec['optional'] = optional
        before = list(spec.items())
        out = ctx.catch(real, spec)
        ctx.check('the description stays', BoolVal(list(spec) == [k for k, _ in before] and all(spec[k] is v for k, v in before)))
        if bad:
            ctx.reach('unknown' if bad == 1 else 'no type')
            ctx.check('refused as configuration', BoolVal(isinstance(out[1], ConfigurationError)))
            return
        ctx.reach('built')
        r = ok(ctx, out)
        s = r
        if optional:
            ctx.check('optional, if it is to be', BoolVal(type(r) is DE.OptionalSource and r.provide() == {}))
            s = r.sources[0]
        ctx.check('a source of the type', BoolVal(type(s) is G))

        def arrived(kind, x):
            if kind == 'source':
                return type(x) is G and x.a == () and x.k == {'x': 1}
            return x == b'ab' if kind == 'binary' else x is values[kind]
        ctx.check('with the arguments described', BoolVal(len(s.a) == (how < 2) and all(arrived(arg, x) for x in s.a) and list(s.k) == (['k'] if kw else []) and all(arrived(kw, x) for x in s.k.values())))
    finally:
        del SOURCES.GhostSource


@contract('DirectorySource.provide', ['DirectorySource.provide', 'DirectorySource.get_sources_from_directory', 'FileSource.__init__'], reach=['end', 'missing', 'skipped', 'loaded'], max_paths=4000)
def t_directory(ctx):
    """a directory of up to two entries, with one below, on a file system that is modelled"""
    kinds = [ctx.choose(4) for _ in range(ctx.choose(3))]
    top = ['conf', '/etc/conf'][ctx.choose(2)]
    tree, isfile, isdir = {top: []}, set(), set()
    for i, k in enumerate(kinds):
        name = 'e%d' % i
        p = os.path.join(top, name)
        tree[top].append(name)
        if k == 0:
            isfile.add(p)
        elif k < 3:
            isdir.add(p)
            tree[p] = ['sub'] if k == 1 else []
            if k == 1:
                isfile.add(os.path.join(p, 'sub'))

    def listdir(p):
        if p not in tree:
            raise OSError('nosuch')
        return list(tree[p])
    ctx.models[os.listdir], ctx.models[os.path.isfile], ctx.models[os.path.isdir] = listdir, lambda p: p in isfile, lambda p: p in isdir
    scan, silent, missing = bool(ctx.choose(2)), ctx.choose(2), not kinds and bool(ctx.choose(2))
    skip = os.path.join(top, 'e0') if ctx.choose(2) else None
    asked = []
    src = FI.DirectorySource('absent' if missing else top, 'latin2', [FO.JSONSource], lambda p: (asked.append(p), p != skip)[1], scan, silent)
    out = ctx.catch(src.get_sources_from_directory, src.path)
    if missing:
        ctx.reach('missing')
        ctx.check('silent, if it is to be', BoolVal(out == ('ok', []) if silent else isinstance(out[1], ConfigurationError)))
        return
    r = ok(ctx, out)
    want, names = [], []
    for i, k in enumerate(kinds):
        p = os.path.join(top, 'e%d' % i)
        names.append(p)
        if p == skip:
            ctx.reach('skipped')
        elif k == 0:
            want.append(p)
        elif k == 1 and scan:
            names.append(os.path.join(p, 'sub'))
            want.append(os.path.join(p, 'sub'))
        elif k == 2 and scan:
            pass
    ctx.reach('loaded')
    ctx.check('a source for each file, by its path', BoolVal(sorted(s.path for s in r) == sorted(want) and all(type(s) is FI.FileSource and s.encoding == 'latin2' and list(s.source_classes) == [FO.JSONSource] for s in r)))
    ctx.check('the filter sees every path', BoolVal(sorted(asked) == sorted(names)))


# ---- schemas --------------------------------------------------------------------------------------------------------
@contract('Descriptor.__call__', ['Descriptor.__call__', 'Descriptor.__init__', 'Descriptor.add_checker', 'CheckerCondition.__call__'], reach=['end', 'pre', 'maker', 'odd', 'post', 'made'])
def t_descriptor(ctx):
    v, made, log = ctx.obj('v'), ctx.obj('made'), []
    exc = [None, TypeError('x'), ValueError('x'), Boom()][ctx.choose(4)]

    class G(SB.Descriptor):
        def BASIC_MAKER(self, x):
            log.append(('make', x))
            if exc:
                raise exc
            return made
    g, other = G(), G()
    n_pre, n_post = ctx.choose(3), ctx.choose(3)
    flags = {}

    def checker(i, pre):
        flags[i, pre] = ctx.bool('c%d%s' % (i, pre))

        def cond(x):
            log.append((i, pre, x))
            return flags[i, pre]
        return SB.CheckerCondition(cond, 'c%d' % i, pre)
    for i in range(max(n_pre, n_post)):
        if i < n_post:
            g.add_checker(checker(i, False))
        if i < n_pre:
            g.add_checker(checker(i, True))
    out = ctx.catch(g, v)
    term = lambda i, pre: bool_term(flags[i, pre])
    pres, posts = And(BoolVal(True), *[term(i, True) for i in range(n_pre)]), And(BoolVal(True), *[term(i, False) for i in range(n_post)])
    makes = [x for x in log if x[0] == 'make']
    p_log, q_log = [x for x in log if len(x) == 3 and x[1]], [x for x in log if len(x) == 3 and not x[1]]
    ctx.check('checked before, made once, checked after', BoolVal(log == p_log + makes + q_log and len(makes) <= 1 and all(x[1] is v for x in makes)
                                                                  and all(x[2] is v for x in p_log) and all(x[2] is made for x in q_log)))
    if out[0] == 'ok':
        ctx.reach('made')
        ctx.check('what was made', And(BoolVal(out[1] is made and exc is None and len(p_log) == n_pre and len(q_log) == n_post), pres, posts))
    elif out[1] is exc:
        ctx.reach('odd')
        ctx.check('another failure of the maker is passed on', And(BoolVal(isinstance(exc, Boom)), pres))
    else:
        ctx.check('refused', BoolVal(isinstance(out[1], ConfigurationValidationError)))
        if makes and exc:
            ctx.reach('maker')
            ctx.check('checked before', And(pres, BoolVal(len(p_log) == n_pre and not q_log)))
        elif makes:
            ctx.reach('post')
            ctx.check('as a check after says', And(pres, Not(posts)))
        else:
            ctx.reach('pre')
            ctx.check('as a check before says', Not(pres))
    log.clear()
    r = ctx.catch(other, v)
    ctx.check('the checks of another one stay its own', BoolVal(all(x[0] == 'make' for x in log) and len(log) == 1))


@contract('List.__call__', ['List.__call__', 'List.__init__', 'Descriptor.__call__', 'must_be_type'], reach=['end', 'list', 'refused', 'element'])
def t_list(ctx):
    w, lst = world(ctx, ConfigurationValidationError, object)
    fails = w.fails

    def each(x):
        if ctx.fork(Select(fails, V(x))):
            raise ConfigurationValidationError('element')
        return ctx.val(w.res(V(x)))
    class D(SB.Descriptor):
        def __call__(self, x):
            return each(x)
    d = ST.List(D())
    if ctx.choose(3) == 0:
        ctx.reach('refused')
        bad = ['text', 5, None, {'a': 1}, {1}][ctx.choose(5)]
        out = ctx.catch(d, bad)
        ctx.check('refused', BoolVal(isinstance(out[1], ConfigurationValidationError)))
        return
    xs = SList('xs', ValC)
    n, a = xs.n, xs.s['arr']
    out = ctx.catch(d, xs)
    j = z3.Int('j!v')
    if out[0] == 'exc':
        ctx.reach('element')
        ctx.check('only if an element is refused', And(BoolVal(isinstance(out[1], ConfigurationValidationError)), z3.Exists([j], And(0 <= j, j < n, Select(fails, Select(a, j))))))
        return
    ctx.reach('list')
    r = out[1]
    if isinstance(r, list) and type(r) is list:
        ctx.check('as many', n == len(r))
    else:
        ctx.check('every element as its descriptor gives it, in order', And(r.n == n, z3.ForAll([j], Implies(And(0 <= j, j < n), r.el(j) == w.res(Select(a, j))))))
    ctx.check('the list given stays', And(xs.n == n, xs.s['arr'] == a))


@contract('Dict.__call__', ['Dict.__call__', 'Dict.__init__', 'create_key', 'Descriptor.__call__'], reach=['end', 'parsed', 'missing', 'refused', 'no dict'], max_paths=4000)
def t_dict(ctx):
    names = ['a', 'b'][:ctx.choose(3)]
    keys, vals, made, log = [], {}, {}, []

    class G(SB.Descriptor):
        def __call__(self, x):
            log.append((self.name, x))
            if self.name == bad:
                raise err
            return made[self.name]
    err = [ConfigurationValidationError('x'), Boom()][ctx.choose(2)]
    bad = [None, 'a'][ctx.choose(2)]
    opt, dflt = {}, {}
    for nm in names:
        made[nm] = Plain()
        opt[nm], dflt[nm] = bool(ctx.choose(2)), Plain()
        keys.append(ST.create_key(G(), nm, opt[nm], dflt[nm]))
    mapped = {}

    def mapper(k, x):
        mapped[k] = Plain()
        log.append(('?' + k, x))
        return mapped[k]
    d = ST.Dict(keys, mapper)
    if ctx.choose(4) == 0:
        ctx.reach('no dict')
        out = ctx.catch(d, [[], 'text', None, 5][ctx.choose(4)])
        ctx.check('refused', BoolVal(isinstance(out[1], ConfigurationValidationError)))
        return
    given = {k: Plain() for k in ['z'] + names if ctx.choose(2)}
    before = list(given.items())
    out = ctx.catch(d, given)
    ctx.check('the dictionary given stays', BoolVal(len(given) == len(before) and all(a == b and x is y for (a, x), (b, y) in zip(given.items(), before))))
    missing = [k for k in names if k not in given and not opt[k]]
    if out[0] == 'exc':
        if bad in given and out[1] is err:
            ctx.reach('refused')
            return
        ctx.reach('missing')
        ctx.check('refused as a key is missing', BoolVal(isinstance(out[1], ConfigurationValidationError) and bool(missing)))
        return
    ctx.reach('parsed')
    r = out[1]
    ctx.check('nothing is missing or refused', BoolVal(not missing and bad not in given))
    want = {k: made[k] if k in given else dflt[k] for k in names}
    want.update({k: mapped[k] for k in given if k not in names})
    ctx.check('exactly these keys and values', BoolVal(type(r) is dict and set(r) == set(want) and all(r[k] is want[k] for k in want)))
    ctx.check('each is asked once, with what was given', BoolVal(len(log) == len(given) and all(x is given[k.strip('?')] for k, x in log) and {k for k, x in log} == {k if k in names else '?' + k for k in given}))


@contract('plain descriptors', ['_make_boolean', 'Caster.__call__', 'Regexp.__call__', 'Regexp.__init__', 'must_be_one_of'], reach=['end', 'bool', 'caster', 'regexp', 'one of'])
def t_plain(ctx):
    k = ctx.choose(4)
    if k == 0:
        ctx.reach('bool')
        texts = {'true': True, 'TRUE': True, 'tRue': True, 'false': False, 'FALSE': False, 'yes': None, '': None, 'True ': None}
        x = list(texts)[ctx.choose(8)]
        out = ctx.catch(BA.Boolean(), x)
        ctx.check('a text', BoolVal(isinstance(out[1], ConfigurationValidationError) if texts[x] is None else out[1] is texts[x]))
        i = ctx.int('i')
        ctx.check('anything else by its truth', bool_term(ok(ctx, ctx.catch(BA.Boolean(), i))) == (i.t != 0))
    elif k == 1:
        ctx.reach('caster')
        v, r = ctx.obj('v'), ctx.obj('r')
        exc = [None, ValueError('x'), Boom()][ctx.choose(3)]
        seen = []

        def cast(x):
            seen.append(x)
            if exc:
                raise exc
            return r
        out = ctx.catch(ST.Caster(cast), v)
        ctx.check('cast once', BoolVal(len(seen) == 1 and seen[0] is v))
        ctx.check('as it was cast, or refused', BoolVal(out[1] is r if exc is None else out[1] is exc if isinstance(exc, Boom) else isinstance(out[1], ConfigurationValidationError)))
    elif k == 2:
        ctx.reach('regexp')

        class R(BA.Regexp):
            REGEXP = ['a+', __import__('re').compile('a+')][ctx.choose(2)]
        v = ['aab', 'a', 'b', '', 'ba', 5][ctx.choose(6)]
        out = ctx.catch(R(), v)
        want = {'aab': 'aa', 'a': 'a'}.get(v)
        ctx.check('what matches, or refused', BoolVal(out == ('ok', want) if want else isinstance(out[1], ConfigurationValidationError)))
        ctx.check('says what it is', BoolVal(str(R()) == 'Regexp(a+)'))
    else:
        ctx.reach('one of')
        d = SB.Descriptor()
        items = [ctx.int('x%d' % i) for i in range(ctx.choose(3))]
        v = ctx.int('v')
        d.add_checker(SB.must_be_one_of(*items))
        out = ctx.catch(d, v)
        among = Or(BoolVal(False), *[v.t == x.t for x in items])
        if out[0] == 'ok':
            ctx.check('one of them', And(among, N(out[1]) == v.t))
        else:
            ctx.check('none of them', And(BoolVal(isinstance(out[1], ConfigurationValidationError)), Not(among)))


@contract('descriptor_from_dict', ['descriptor_from_dict', '_get_descriptor_for', '_get_descriptor_for_str', '_get_descriptor_for_dict', 'create_key'], reach=['end', 'plain', 'typed', 'nested', 'refused'])
def t_schema(ctx):
    names = sorted(PLAIN_ENTRIES)
    k = ctx.choose(4)

    def the(spec):
        d = ok(ctx, ctx.catch(FJ.descriptor_from_dict, {'k': spec, 'l': 'int'}))
        ctx.check('a descriptor of exactly these keys', BoolVal(type(d) is ST.Dict and set(d.keys) == {'k', 'l'} and type(d.keys['l']) is BA.Integer))
        ctx.check('under its key', BoolVal(d.keys['k'].name == 'k'))
        return d.keys['k']
    required = lambda d: ctx.check('required', BoolVal(d.optional is False and d.default is None))
    if k == 0:
        ctx.reach('plain')
        nm = (names + ['', int, str, float, bool])[ctx.choose(len(names) + 5)]
        d = the(nm)
        ctx.check('of the class registered', BoolVal(type(d) is BASE_LOOKUP_TABLE['any' if nm == '' else nm if type(nm) is str else nm.__name__]))
        required(d)
    elif k == 1:
        ctx.reach('typed')
        nm = names[ctx.choose(len(names))]
        spec, default = {'type': nm}, Plain()
        opt, has = [None, True, False][ctx.choose(3)], bool(ctx.choose(2))
        if opt is not None:
            spec['optional'] = opt
        if has:
            spec['default'] = default
        d = the(spec)
        ctx.check('of the class registered', BoolVal(type(d) is BASE_LOOKUP_TABLE[nm]))
        ctx.check('optional if said so, or if it has a default', BoolVal(bool(d.optional) is (has if opt is None else opt)))
        ctx.check('its default', BoolVal(d.default is (default if has else None)))
    elif k == 2:
        ctx.reach('nested')
        w = ctx.choose(4)
        d = the([{'x': 'str'}, {'type': 'list', 'of': 'str'}, {'type': 'union', 'of': ['int', 'str']}, {'type': 'list'}][w])
        required(d)
        if w == 0:
            ctx.check('of its keys', BoolVal(type(d) is ST.Dict and list(d.keys) == ['x'] and type(d.keys['x']) is BA.String))
        elif w == 2:
            ctx.check('of its alternatives, in order', BoolVal(type(d) is ST.Union and [type(x) for x in d.descriptors] == [BA.Integer, BA.String]))
        else:
            ctx.check('of its elements', BoolVal(type(d) is ST.List and type(d.type_descriptor) is (BA.String if w == 1 else SB.Descriptor)))
    else:
        ctx.reach('refused')
        bad = ['nope', 'list', 'dict', 5, None, {'type': 'nope'}, {'type': 'list', 'of': 'nope'}, {'x': 'nope'}, {'type': 'union', 'of': ['int', 'nope']}][ctx.choose(9)]
        out = ctx.catch(FJ.descriptor_from_dict, {'a': 'int', 'k': bad})
        ctx.check('refused', BoolVal(isinstance(out[1], ConfigurationSchemaError)))


# ---- transactions and lazy loading ----------------------------------------------------------------------------------
@contract('transaction', ['transaction.__init__', 'transaction.__enter__', 'transaction.__exit__', 'transaction.connection'], reach=['end', 'committed', 'rolled back', 'fault'], max_paths=4000)
def t_transaction(ctx):
    log, faults, asked = [], [None, 'end', 'cursor.close', 'conn.close'], []
    close, shout = bool(ctx.choose(2)), bool(ctx.choose(2))

    def step(name, kind=None):
        log.append(name)
        if (kind or name) == fault:
            raise flaw

    class Cursor:
        def close(self):
            step('cursor.close')

    class Conn:
        def cursor(self):
            step('cursor')
            return cur_

        def commit(self):
            step('commit', 'end')

        def rollback(self):
            step('rollback', 'end')

        def close(self):
            step('conn.close')

        def __call__(self):
            raise AssertionError('no getter')
    conn = Conn()

    class Getter:
        def __call__(self):
            asked.append(1)
            return conn
    how = ctx.choose(4)
    src = [conn, lambda: Getter()(), Getter().__call__, functools.partial(Getter.__call__, Getter())][how]
    t = db.transaction(src, close, shout)
    rounds = 1 + ctx.choose(2)
    for _ in range(rounds):
        log.clear()
        cur_, flaw = Cursor(), Boom('fault')
        fault = faults[ctx.choose(4)]
        exc = [None, Boom('body')][ctx.choose(2)]
        out = ctx.catch(t.__enter__)
        ctx.check('the cursor', BoolVal(out[1] is cur_))
        out = ctx.catch(t.__exit__, type(exc) if exc else None, exc, None)
        ctx.reach('rolled back' if exc else 'committed')
        ctx.check('ended once and rightly, closed once, in order', BoolVal(log == ['cursor', 'rollback' if exc else 'commit', 'cursor.close'] + (['conn.close'] if close else [])))
        if fault is None or (fault == 'conn.close' and not close):
            ctx.check('an exception is not swallowed', BoolVal(out[0] == 'ok' and not out[1]))
        else:
            ctx.reach('fault')
            ctx.check('a failure is not swallowed', BoolVal(out[1] is flaw))
    ctx.check('the connection is asked for once', BoolVal(len(asked) == (how > 0)))


@contract('lazy loading', ['Loadable.__init__', 'Loadable.refresh', 'must_be_loaded', 'must_be_loaded.inner'], reach=['end', 'lazy', 'at once', 'fails', 'again'])
def t_lazy(ctx):
    log = []

    class O(dao.Loadable):
        def __init__(self, lazy):
            super().__init__(load_lazy=lazy)

        def refresh(self, load_from=None):
            log.append('load')
            if failing:
                raise boom
            super().refresh(load_from)

        @dao.must_be_loaded
        def get(self, *a, **k):
            log.append(('get', a, k))
            return res
    boom, res, v, w = Boom(), ctx.obj('res'), ctx.obj('v'), ctx.obj('w')
    failing = False
    lazy = bool(ctx.choose(2))
    ctx.reach('lazy' if lazy else 'at once')
    o = O(lazy)
    ctx.check('loaded when made, unless lazy', BoolVal(log == ([] if lazy else ['load']) and o._loaded is not lazy))
    loaded = not lazy
    for _ in range(2):
        log.clear()
        failing = bool(ctx.choose(2))
        out = ctx.catch(o.get, v, k=w)
        if failing and not loaded:
            ctx.reach('fails')
            ctx.check('not run, as it is not loaded', BoolVal(out[1] is boom and log == ['load']))
        else:
            if loaded:
                ctx.reach('again')
            ctx.check('loaded before it is run, and once', BoolVal(len(log) == 2 - loaded and log[:-1] == ([] if loaded else ['load'])))
            ctx.check('run with what was given', BoolVal(out[0] == 'ok' and out[1] is res and len(log[-1][1]) == 1 and log[-1][1][0] is v
                                                          and list(log[-1][2]) == ['k'] and log[-1][2]['k'] is w))
            loaded = True
