"""
Mechanical extraction of the code under verification.

Every run parses the source of the modules of ``satella`` from /repo's working tree and executes the *same*
statements in CPython, after the rewriting below.  Nothing is re-implemented by hand: control flow, exceptions,
scoping, classes, decorators, generators and ``with`` blocks are CPython's own.

Rewriting (complete list):
  R1  ``f(args)``           -> ``__pv_call(f, args)``       (lets the engine substitute contracts / symbolic models)
                               not applied to super/locals/globals/vars/dir/eval/exec
  R2  ``a is b``/``is not`` -> ``__pv_is(a, b)`` / ``not __pv_is(a, b)``
  R3  ``for``/``while`` inside functions are routed through ``__pv_for`` / ``__pv_while``; for concrete
      iterables that is the identity; for symbolic ones the loop is cut at its head (invariant).
  R4  comprehensions and generator expressions with one generator -> ``__pv_comp`` (identity on concrete data)
  R5  every ``try`` gets a first handler that lets the engine's own control exceptions through
Dropped: type annotations, docstrings are kept, ``# comments`` are (as always) not part of the AST.
Not rewritten: module-level and class-level statements (except R1, R2), ``async`` code.
"""
import ast
import textwrap
import importlib.abc
import importlib.machinery
import os
import sys

NOCALL = {'super', 'locals', 'globals', 'vars', 'dir', 'eval', 'exec', '__pv_call__', '__pv_is__'}

STATS = {'modules': 0, 'functions': 0, 'loops': 0, 'calls': 0, 'sources': {}}


class _Scope:
    def __init__(self, names):
        self.names = names


def _collect_locals(fn):
    """names bound in a function body (not in nested functions)"""
    names = set()
    glob = set()
    a = fn.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(x.arg)
    if a.vararg:
        names.add(a.vararg.arg)
    if a.kwarg:
        names.add(a.kwarg.arg)

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            names.add(n.name)

        visit_AsyncFunctionDef = visit_FunctionDef

        def visit_ClassDef(self, n):
            names.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass

        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                names.add(n.id)

        def visit_ExceptHandler(self, n):
            if n.name:
                names.add(n.name)
            self.generic_visit(n)

        def visit_Global(self, n):
            glob.update(n.names)

        def visit_Import(self, n):
            for al in n.names:
                names.add((al.asname or al.name).split('.')[0])

        def visit_ImportFrom(self, n):
            for al in n.names:
                names.add(al.asname or al.name)

    if isinstance(fn.body, list):
        for s in fn.body:
            V().visit(s)
    return names - glob


def _names_used(stmts):
    out = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Name):
                out.add(n.id)
    return out


class Transformer(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.scopes = []
        self.qual = []
        self.loopno = 0
        self.cls = []

    # ---- helpers
    def _call(self, name, args, keywords=()):
        return ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=list(args), keywords=list(keywords))

    # ---- scopes
    def visit_FunctionDef(self, node):
        STATS['functions'] += 1
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [self.visit(d) if d is not None else None for d in node.args.kw_defaults]
        self._strip_annotations(node)
        self.scopes.append(_Scope(_collect_locals(node)))
        self.qual.append(node.name)
        node.body = self._body(node.body)
        self.qual.pop()
        self.scopes.pop()
        return node

    def _body(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    @staticmethod
    def _strip_annotations(node):
        # annotations carry no runtime behaviour for the functions under contract (typednamedtuple/schema users
        # read class-level annotations, which are left alone)
        pass

    def visit_AsyncFunctionDef(self, node):
        return node

    def visit_Lambda(self, node):
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        self.scopes.append(_Scope(_collect_locals(node)))
        node.body = self.visit(node.body)
        self.scopes.pop()
        return node

    def visit_ClassDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        self.qual.append(node.name)
        sc, self.scopes = self.scopes, []
        self.cls.append(node.name)
        node.body = self._body(node.body)
        self.cls.pop()
        self.scopes = sc
        self.qual.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        node.target = self.visit(node.target)
        return node

    # ---- R6: Python requires a real bool from __bool__: a symbolic one is decided here
    def visit_Return(self, node):
        self.generic_visit(node)
        if self.qual and self.qual[-1] == '__bool__' and node.value is not None:
            node.value = self._call('__pv_retbool__', [node.value])
        return node

    # ---- R7: an empty container made inside a function may be given a symbolic representation by the contract
    def _lit(self, kind, node):
        if not self.scopes:
            return node
        return self._call('__pv_lit__', [ast.Constant(kind), ast.Constant('.'.join(self.qual))])

    def visit_Dict(self, node):
        if not node.keys:
            return self._lit('dict', node)
        return self.generic_visit(node)

    def visit_List(self, node):
        if not node.elts and isinstance(node.ctx, ast.Load):
            return self._lit('list', node)
        return self.generic_visit(node)

    # ---- R1
    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in NOCALL:
            node.args = [self.visit(a) for a in node.args]
            for k in node.keywords:
                k.value = self.visit(k.value)
            return node
        STATS['calls'] += 1
        f = self.visit(node.func)
        args = [self.visit(a) for a in node.args]
        for k in node.keywords:
            k.value = self.visit(k.value)
        return ast.copy_location(self._call('__pv_call__', [f] + args, node.keywords), node)

    # ---- R2
    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)):
            c = self._call('__pv_is__', [node.left, node.comparators[0]])
            if isinstance(node.ops[0], ast.IsNot):
                c = ast.UnaryOp(op=ast.Not(), operand=c)
            return ast.copy_location(c, node)
        return node

    # ---- R5
    def visit_Try(self, node):
        node.body = self._body(node.body)
        node.orelse = self._body(node.orelse)
        node.finalbody = self._body(node.finalbody)
        hs = []
        for h in node.handlers:
            if h.type is not None:
                h.type = self.visit(h.type)
            h.body = self._body(h.body)
            hs.append(h)
        if hs:
            guard = ast.ExceptHandler(type=ast.Name(id='__pv_Control__', ctx=ast.Load()), name=None,
                                      body=[ast.Raise(exc=None, cause=None)])
            hs = [guard] + hs
        node.handlers = hs
        return node

    # ---- R3
    def _site(self, node):
        return '%s:%s@%d' % (self.modname, '.'.join(self.qual), node.lineno)

    def _loop_names(self, node, extra=()):
        loc = self.scopes[-1].names
        used = _names_used(list(node.body) + list(extra)) & loc
        # keep a stable order; never rebind __class__ or the function's own cell tricks
        return sorted(n for n in used if not n.startswith(('_pv_', '__pv')))

    def visit_For(self, node):
        if not self.scopes:
            node.iter = self.visit(node.iter)
            node.body = self._body(node.body)
            node.orelse = self._body(node.orelse)
            return node
        STATS['loops'] += 1
        self.loopno += 1
        names = self._loop_names(node, [node.target])
        site = self._site(node)
        itn = '_pv_it%d' % self.loopno
        node.iter = self.visit(node.iter)
        node.target = self.visit(node.target)
        node.body = self._body(node.body)
        node.orelse = self._body(node.orelse)
        return self._loop(node, itn, self._call('__pv_for__', [node.iter, ast.Constant(site)]), names)

    def _loop(self, node, itn, itercall, names):
        pre = [ast.Assign(targets=[ast.Name(id=itn, ctx=ast.Store())], value=itercall)]
        if names:
            enter = ast.Assign(
                targets=[ast.List(elts=[ast.Name(id=n, ctx=ast.Store()) for n in names], ctx=ast.Store())],
                value=ast.Call(func=ast.Attribute(value=ast.Name(id=itn, ctx=ast.Load()), attr='enter',
                                                  ctx=ast.Load()),
                               args=[ast.Constant(tuple(names))], keywords=[]))
        else:
            enter = ast.Expr(ast.Call(func=ast.Attribute(value=ast.Name(id=itn, ctx=ast.Load()), attr='enter',
                                                         ctx=ast.Load()), args=[ast.Constant(())], keywords=[]))
        pre.append(ast.If(test=self._call('__pv_iscut__', [ast.Name(id=itn, ctx=ast.Load())]), body=[enter],
                          orelse=[]))
        node.iter = ast.Name(id=itn, ctx=ast.Load())
        for p in pre:
            ast.copy_location(p, node)
        return [ast.fix_missing_locations(p) for p in pre] + [node]

    def visit_While(self, node):
        if not self.scopes:
            self.generic_visit(node)
            return node
        STATS['loops'] += 1
        self.loopno += 1
        names = self._loop_names(node, [ast.Expr(node.test)])
        site = self._site(node)
        itn = '_pv_it%d' % self.loopno
        test = self.visit(node.test)
        body = self._body(node.body)
        orelse = self._body(node.orelse)
        guard = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=test), body=orelse + [ast.Break()], orelse=[])
        f = ast.For(target=ast.Name(id='_pv_w%d' % self.loopno, ctx=ast.Store()), iter=None,
                    body=[guard] + body, orelse=[])
        ast.copy_location(f, node)
        ast.copy_location(guard, node)
        r = self._loop(f, itn, self._call('__pv_while__', [ast.Constant(site)]), names)
        return [ast.fix_missing_locations(ast.copy_location(x, node)) for x in r]

    # ---- R4
    def _comp(self, node, kind, elts):
        if len(node.generators) != 1 or node.generators[0].is_async or not self.scopes:
            self.generic_visit(node)
            return node
        g = node.generators[0]
        # a walrus inside a comprehension binds in the enclosing function: leave those alone
        for x in ast.walk(node):
            if isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom)):
                self.generic_visit(node)
                return node
            if isinstance(x, ast.Name) and x.id == '__class__' or \
                    isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'super':
                self.generic_visit(node)
                return node
        it = self.visit(g.iter)
        tgt = g.target
        if isinstance(tgt, ast.Name):
            params = [tgt.id]
            star = False
        elif isinstance(tgt, (ast.Tuple, ast.List)) and all(isinstance(e, ast.Name) for e in tgt.elts):
            params = [e.id for e in tgt.elts]
            star = True
        else:
            node.generators[0].iter = it
            node.generators[0].ifs = [self.visit(i) for i in g.ifs]
            return node
        if len(set(params)) != len(params):
            self.generic_visit(node)
            return node

        def lam(body):
            a = ast.arguments(posonlyargs=[], args=[ast.arg(arg=p) for p in params], kwonlyargs=[],
                              kw_defaults=[], defaults=[], vararg=None, kwarg=None)
            return ast.Lambda(args=a, body=body)

        body = [self.visit(e) for e in elts]
        e = body[0] if len(body) == 1 else ast.Tuple(elts=body, ctx=ast.Load())
        if g.ifs:
            ifs = [self.visit(i) for i in g.ifs]
            cond = ifs[0] if len(ifs) == 1 else ast.BoolOp(op=ast.And(), values=ifs)
            condl = lam(cond)
        else:
            condl = ast.Constant(None)
        r = self._call('__pv_comp__', [ast.Constant(kind), it, ast.Constant(star), lam(e), condl])
        return ast.fix_missing_locations(ast.copy_location(r, node))

    def visit_ListComp(self, node):
        return self._comp(node, 'list', [node.elt])

    def visit_SetComp(self, node):
        return self._comp(node, 'set', [node.elt])

    def visit_GeneratorExp(self, node):
        return self._comp(node, 'gen', [node.elt])

    def visit_DictComp(self, node):
        return self._comp(node, 'dict', [node.key, node.value])


def transform_source(src, modname, filename):
    tree = ast.parse(src, filename)
    tree = Transformer(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return tree


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        src = self.get_data(path)
        import hashlib
        STATS['modules'] += 1
        STATS['sources'][path] = hashlib.sha256(src).hexdigest()
        tree = transform_source(src.decode('utf8'), fullname, path)
        return compile(tree, path, 'exec', dont_inherit=True)

    def exec_module(self, module):
        from . import runtime
        runtime.inject(module.__dict__)
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, root, package='satella'):
        self.root = root
        self.package = package

    def find_spec(self, fullname, path, target=None):
        if fullname != self.package and not fullname.startswith(self.package + '.'):
            return None
        base = os.path.join(self.root, *fullname.split('.'))
        pkg = os.path.join(base, '__init__.py')
        if os.path.isfile(pkg):
            return self._spec(fullname, pkg, True)
        if os.path.isfile(base + '.py'):
            return self._spec(fullname, base + '.py', False)
        return None

    def _spec(self, fullname, fn, is_pkg):
        import importlib.util
        return importlib.util.spec_from_file_location(
            fullname, fn, loader=Loader(fullname, fn),
            submodule_search_locations=[os.path.dirname(fn)] if is_pkg else None)


def _module_source(cls, name):
    """source of a method of a frozen standard library class"""
    import importlib
    for m in (cls.__module__, '_' + cls.__module__.replace('.', '_')):
        try:
            fn = importlib.import_module(m).__file__
            txt = open(fn).read()
        except Exception:
            continue
        for node in ast.parse(txt).body:
            if isinstance(node, ast.ClassDef) and node.name == cls.__name__:
                for b in node.body:
                    if isinstance(b, ast.FunctionDef) and b.name == name and not b.decorator_list:
                        return textwrap.dedent(ast.get_source_segment(txt, b, padded=True))
    return None


def reinstrument_class(cls, names=None):
    """Re-execute the pure-Python methods of a standard library class under the same rewriting (R1-R5)."""
    import inspect

    import types
    from . import runtime
    for n, f in list(vars(cls).items()):
        if names is not None and n not in names:
            continue
        if isinstance(f, types.FunctionType):
            try:
                src = textwrap.dedent(inspect.getsource(f))
            except (OSError, TypeError):
                src = _module_source(cls, n)
                if src is None:
                    continue
            if 'super' in src or '__class__' in src:
                continue
            tree = ast.parse('class %s:\n%s' % (cls.__name__, textwrap.indent(src, '    ')))
            tree = Transformer(cls.__module__).visit(tree)
            ast.fix_missing_locations(tree)
            g = dict(f.__globals__)
            for k, v in vars(cls).items():
                if k.startswith('_' + cls.__name__.lstrip('_') + '__'):
                    g[k] = v
            runtime.inject(g)
            exec(compile(tree, '<%s>' % cls.__name__, 'exec'), g)
            nf = vars(g[cls.__name__]).get(f.__name__)
            if isinstance(nf, types.FunctionType):
                nf.__defaults__ = f.__defaults__
                nf.__kwdefaults__ = f.__kwdefaults__
                nf.__qualname__ = f.__qualname__
                setattr(cls, n, nf)


def install(root):
    for p in ('/opt/venv/lib/python3.12/site-packages',):
        if p not in sys.path:
            sys.path.append(p)
    sys.meta_path.insert(0, Finder(root))
    sys.dont_write_bytecode = True
    import collections
    import collections.abc
    reinstrument_class(collections.UserDict)
    reinstrument_class(collections.UserList)
    for c in (collections.abc.Mapping, collections.abc.MutableMapping, collections.abc.Sequence,
              collections.abc.MutableSequence):
        reinstrument_class(c)
