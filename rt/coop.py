"""
Deterministic scheduler for the run-time checks: real threads running the real code, exactly one at a time.  Control may
move to another thread before every statement, after every attribute read and in the middle of every augmented
assignment of a satella module, and at every operation on a lock made while the scheduler is active.  For that, importing
this module first (before satella) installs an import hook which adds calls to __yp__/__yv__ at those points - and
nothing else - to the code read from /repo.  The decisions come from a seed, so that a schedule is part of the (JSON)
input and replays exactly.
"""
import ast
import importlib.abc
import importlib.machinery
import operator
import os
import _thread
import random
import sys
import threading

_raw_lock = _thread.allocate_lock
_RL, _L, _AL = threading.RLock, threading.Lock, threading._allocate_lock
_CRL = getattr(threading, '_CRLock', None)


class Deadlock(AssertionError):
    pass


class _Stop(BaseException):
    pass


class Task:
    def __init__(self, i, fn):
        self.i, self.fn = i, fn
        self.gate = _raw_lock()
        self.gate.acquire()
        self.done = False
        self.waiting = None      # predicate that must hold to be runnable
        self.timed = False
        self.timed_out = False
        self.result = None
        self.exc = None


CUR = None


# ------------------------------------------------------------------------------------------------ yield points
def yp():
    if CUR is not None:
        CUR.point()


def yv(x):
    if CUR is not None:
        CUR.point()
    return x


class Yielder(ast.NodeTransformer):
    INFUN = 0

    def _fun(self, node):
        self.INFUN += 1
        body = []
        for st in node.body:
            st = self.visit(st)
            body.append(st)
        self.INFUN -= 1
        doc = body[:1] if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) else []
        node.body = doc + self._mix(body[len(doc):])
        return node

    visit_FunctionDef = _fun

    def visit_AsyncFunctionDef(self, node):
        return node

    def visit_ClassDef(self, node):
        k, self.INFUN = self.INFUN, 0
        node.body = [self.visit(s) for s in node.body]
        self.INFUN = k
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def _call(self, name, *args):
        return ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=list(args), keywords=[])

    def _mix(self, stmts):
        out = []
        for s in stmts:
            if not isinstance(s, (ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom)):
                out.append(ast.copy_location(ast.Expr(value=self._call('__yp__')), s))
            out.append(s)
        return out

    def generic_visit(self, node):
        super().generic_visit(node)
        if self.INFUN:
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(node, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    setattr(node, f, self._mix(b))
        return node

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if self.INFUN and isinstance(node.ctx, ast.Load):
            return ast.copy_location(self._call('__yv__', node), node)
        return node

    def visit_AugAssign(self, node):
        t = node.target
        if self.INFUN and isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
            op = {'Add': 'iadd', 'Sub': 'isub', 'Mult': 'imul', 'Div': 'itruediv', 'FloorDiv': 'ifloordiv',
                  'Pow': 'ipow', 'BitAnd': 'iand', 'BitOr': 'ior', 'BitXor': 'ixor', 'LShift': 'ilshift',
                  'RShift': 'irshift', 'Mod': 'imod'}.get(type(node.op).__name__)
            if op:
                load = ast.Attribute(value=ast.Name(id=t.value.id, ctx=ast.Load()), attr=t.attr, ctx=ast.Load())
                f = ast.Attribute(value=ast.Name(id='__yop__', ctx=ast.Load()), attr=op, ctx=ast.Load())
                return ast.copy_location(ast.Assign(targets=[t], value=ast.Call(
                    func=f, args=[self._call('__yv__', load), self.visit(node.value)], keywords=[])), node)
        self.generic_visit(node)
        return node


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        with open(self.path, 'rb') as f:
            tree = ast.parse(f.read(), self.path)
        Y = Yielder()
        tree.body = [Y.visit(s) for s in tree.body]
        return compile(ast.fix_missing_locations(tree), self.path, 'exec', dont_inherit=True)

    def exec_module(self, module):
        module.__dict__.update(__yp__=yp, __yv__=yv, __yop__=operator)
        super().exec_module(module)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name != 'satella' and not name.startswith('satella.'):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path)
        if spec is not None and isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            spec.loader = _Loader(name, spec.loader.path)
        return spec


if 'satella' not in sys.modules:
    sys.meta_path.insert(0, _Finder())


class Sched:
    def __init__(self, seed, p=0.1, limit=60000):
        self.rng = random.Random(seed)
        self.p = p
        self.tasks = []
        self.cur = None
        self.main = _raw_lock()
        self.main.acquire()
        self.steps = 0
        self.limit = limit
        self.stopping = False
        self.error = None
        self.by_ident = {}

    # ------------------------------------------------------------------ running
    def me(self):
        return self.by_ident.get(_thread.get_ident())

    def run(self, fns):
        global CUR
        CUR = self
        self.tasks = [Task(i, f) for i, f in enumerate(fns)]
        try:
            for t in self.tasks:
                _thread.start_new_thread(self._body, (t,))
            self._next(None)
            self.main.acquire()
        finally:
            CUR = None
        if self.error:
            raise self.error
        return self.tasks

    def _body(self, t):
        self.by_ident[_thread.get_ident()] = t
        t.gate.acquire()
        try:
            if not self.stopping:
                t.result = t.fn()
        except _Stop:
            pass
        except BaseException as e:
            t.exc = e
        t.done = True
        self.by_ident.pop(_thread.get_ident(), None)
        self._next(t)

    def runnable(self, t):
        return not t.done and (t.waiting is None or t.waiting())

    def _pick(self, cur):
        """choose the next task; None if all done"""
        live = [t for t in self.tasks if not t.done]
        if not live:
            return None
        r = [t for t in live if self.runnable(t)]
        if self.stopping:
            return live[0]
        if not r:
            timed = [t for t in live if t.timed]
            if timed:
                t = self.rng.choice(timed)
                t.timed_out = True
                return t
            self.error = Deadlock('deadlock: every unfinished thread waits forever')
            self.stopping = True
            return live[0]
        return self.rng.choice(r)

    def _next(self, cur):
        t = self._pick(cur)
        if t is None:
            self.main.release()
            return
        self.cur = t
        if t is not cur:
            t.gate.release()

    def switch(self):
        """give up control (called by the running task)"""
        me = self.cur
        t = self._pick(me)
        if t is me or t is None:
            self._after(me)
            return
        self.cur = t
        t.gate.release()
        me.gate.acquire()
        self._after(me)

    def _after(self, me):
        if self.stopping:
            raise _Stop()

    def point(self, always=False):
        me = self.me()
        if me is None or self.stopping:
            if self.stopping and me is not None:
                raise _Stop()
            return
        self.steps += 1
        if self.steps > self.limit:
            self.error = Deadlock('no progress after %d steps' % self.limit)
            self.stopping = True
            raise _Stop()
        if always or self.rng.random() < self.p:
            self.switch()

    def late(self, timed):
        f = sys.modules.get('fakeclock')
        if f is not None and f.ACTIVE[0] is not None and timed is not True:
            f.ACTIVE[0].now += timed

    def block(self, pred, timed=False):
        """wait until pred() holds; False if timed out"""
        me = self.me()
        if me is None:
            if pred():
                return True
            if timed:
                return False
            raise Deadlock('a lock is held after the threads finished')
        if self.stopping:
            raise _Stop()
        me.waiting, me.timed, me.timed_out = pred, timed, False
        try:
            if timed and self.rng.random() < 0.2 and not pred():
                self.late(timed)
                return False
            while True:
                if pred():
                    return True
                self.switch()
                if me.timed_out and not pred():
                    self.late(timed)
                    return False
        finally:
            me.waiting, me.timed = None, False


def _timed(timeout):
    if timeout is None or timeout < 0:
        return False
    return float(timeout) or True


class CoopLock:
    def __init__(self):
        self.held = False

    def acquire(self, blocking=True, timeout=-1):
        s = CUR
        if s is not None:
            s.point()
        if self.held:
            if not blocking:
                return False
            if s is None:
                if timeout is not None and timeout >= 0:
                    return False
                raise Deadlock('a lock is still held outside of its critical section')
            if not s.block(lambda: not self.held, _timed(timeout)):
                return False
        self.held = True
        return True

    def release(self):
        if not self.held:
            raise RuntimeError('release unlocked lock')
        self.held = False
        if CUR is not None and not CUR.stopping:
            CUR.point()

    def locked(self):
        return self.held

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self.held = False


class CoopRLock:
    def __init__(self):
        self.owner = None
        self.count = 0

    def _me(self):
        return _thread.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        s = CUR
        if s is not None:
            s.point()
        if self.owner == self._me():
            self.count += 1
            return True
        if self.owner is not None:
            if not blocking:
                return False
            if s is None:
                if timeout is not None and timeout >= 0:
                    return False
                raise Deadlock('a lock is still held outside of its critical section')
            if not s.block(lambda: self.owner is None, _timed(timeout)):
                return False
        self.owner = self._me()
        self.count = 1
        return True

    def release(self):
        if self.owner != self._me():
            raise RuntimeError('cannot release un-acquired lock')
        self.count -= 1
        if not self.count:
            self.owner = None
        if CUR is not None and not CUR.stopping:
            CUR.point()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self.owner == self._me()

    def _release_save(self):
        r = (self.count, self.owner)
        self.count, self.owner = 0, None
        return r

    def _acquire_restore(self, st):
        if self.owner is not None:
            CUR.block(lambda: self.owner is None)
        self.count, self.owner = st

    def _at_fork_reinit(self):
        self.owner, self.count = None, 0


_NAMES = {}


def _names():
    """names in satella modules that were bound to a class of locks by an import"""
    for nm, m in list(sys.modules.items()):
        if nm.startswith('satella') and nm not in _NAMES:
            _NAMES[nm] = [(m, k, CoopRLock if v in (_RL, _CRL) else CoopLock, v) for k, v in list(vars(m).items())
                          if any(v is x for x in (_RL, _L, _CRL) if x is not None)]
    return [x for v in _NAMES.values() for x in v]


class patched:
    """locks created inside are cooperative"""

    def __enter__(self):
        for m, k, new, old in _names():
            setattr(m, k, new)
        threading.RLock, threading.Lock, threading._allocate_lock = CoopRLock, CoopLock, CoopLock
        if _CRL is not None:
            threading._CRLock = CoopRLock

    def __exit__(self, *a):
        for m, k, new, old in _names():
            setattr(m, k, old)
        threading.RLock, threading.Lock, threading._allocate_lock = _RL, _L, _AL
        if _CRL is not None:
            threading._CRLock = _CRL


def schedule(seed, fns, p=0.1):
    """run fns concurrently under the schedule given by the seed; returns [(result, exception)]"""
    s = Sched(seed, p)
    tasks = s.run(fns)
    return [(t.result, t.exc) for t in tasks]
