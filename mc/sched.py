"""A controlled scheduler for real threads: exactly one runs at a time, and at
every scheduling point a given list of choices decides which one goes on."""
import ast
import builtins
import importlib.machinery
import sys
import threading

_Lock, _RLock = threading.Lock, threading.RLock
_current = None          # the scheduler that is active


class Stop(BaseException):
    """Ends the threads of a schedule that is given up."""


class CoopLock(object):
    """A lock whose waiters are known to the scheduler."""
    reentrant = False

    def __init__(self):
        self.owner = None
        self.depth = 0

    def _free(self, me):
        return self.owner is None or (self.reentrant and self.owner == me)

    def acquire(self, blocking=True, timeout=-1):
        s = _current
        me = threading.get_ident()
        t = s and s.threads.get(me)
        if t:
            s.point(t)
            if not self._free(me):
                if not blocking or (timeout is not None and timeout >= 0):
                    return False
                t.waiting = (self, me)
                s.point(t)
                t.waiting = None
        elif not self._free(me):
            if not blocking:
                return False
            raise RuntimeError("lock is never released")
        self.owner = me
        self.depth += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if not self.depth:
            self.owner = None
        s = _current
        t = s and s.threads.get(threading.get_ident())
        if t:
            s.point(t)

    def locked(self):
        return self.owner is not None

    def _is_owned(self):
        return self.owner == threading.get_ident()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class CoopRLock(CoopLock):
    reentrant = True


_coop = [False]


def patch():
    """From now on `with cooperative():` decides the kind of new locks.  Must
    run before the code under test imports threading's names."""
    threading.Lock = lambda: CoopLock() if _coop[0] else _Lock()
    threading.RLock = lambda: CoopRLock() if _coop[0] else _RLock()


class cooperative(object):
    def __enter__(self):
        _coop[0] = True

    def __exit__(self, *a):
        _coop[0] = False


# ------------------------------------------------------------ instrumentation
_kinds = {}


def _at(where):
    if _current is not None:
        _current.at(where)


class _Points(ast.NodeTransformer):
    """Puts a scheduling point in front of every statement of every function."""

    def __init__(self, name):
        self.file = name
        self.func = None

    def _call(self, kind, line):
        where = ast.Tuple([ast.Constant(self.file), ast.Constant(self.func),
                           ast.Constant(line), ast.Constant(kind)], ast.Load())
        return ast.Expr(ast.Call(ast.Name("__vmc_point__", ast.Load()), [where], []))

    def _body(self, stmts, kind="line"):
        out = []
        for st in stmts:
            plain = isinstance(st, (ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom))
            doc = isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)
            if not plain and not doc:
                if kind == "line" and isinstance(st, (ast.Assign, ast.Pass, ast.Return, ast.Break, ast.Continue)) \
                        and not any(isinstance(x, (ast.Call, ast.Subscript)) for x in ast.walk(st)):
                    kind = "plain"      # cannot fail
                out.append(self._call(kind, st.lineno))
                kind = "line"
            out.append(self.visit(st))
        return out

    def visit_FunctionDef(self, node):
        old, self.func = self.func, node.name
        node.body = self._body(node.body, "call")
        self.func = old
        return node

    def visit_ClassDef(self, node):
        old, self.func = self.func, None
        node.body = [self.visit(st) for st in node.body]
        self.func = old
        return node

    def visit_Lambda(self, node):
        return node

    def generic_visit(self, node):
        if self.func is not None:
            for name in ("body", "orelse", "finalbody"):
                part = getattr(node, name, None)
                if isinstance(part, list) and part:
                    setattr(node, name, self._body(part))
            for h in getattr(node, "handlers", ()):
                h.body = self._body(h.body)
            return node
        return super(_Points, self).generic_visit(node)


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        tree = ast.parse(self.get_data(path), path)
        tree = _Points(fullname).visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, path, "exec", dont_inherit=True)


class _Finder(object):
    def __init__(self, names):
        self.names = names

    def find_spec(self, fullname, path=None, target=None):
        if fullname not in self.names:
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path, target)
        if spec is not None and type(spec.loader) is importlib.machinery.SourceFileLoader:
            spec.loader = _Loader(spec.loader.name, spec.loader.path)
        return spec


def instrument(names):
    """Modules imported from now on under these names get scheduling points."""
    builtins.__vmc_point__ = _at
    done = [n for n in names if n in sys.modules]
    if done:
        raise RuntimeError("already imported: %r" % done)
    sys.meta_path.insert(0, _Finder(frozenset(names)))


class _Thread(object):
    def __init__(self, name, func):
        self.name, self.func = name, func
        self.go = _Lock()
        self.go.acquire()
        self.waiting = None
        self.done = False
        self.error = None
        self.where = None

    def enabled(self):
        return not self.done and (self.waiting is None or self.waiting[0]._free(self.waiting[1]))


class Deadlock(Exception):
    pass


class Scheduler(object):
    def __init__(self, funcs, prefix, traced, fault=None):
        """traced(file, function, line, "call", "line" or "plain") -> is it a point"""
        self.order = [_Thread(n, f) for n, f in funcs]
        self.threads = {}
        self.prefix = list(prefix)
        self.points = []
        self.choices = []
        self.running = None
        self.finished = _Lock()
        self.finished.acquire()
        self.traced = traced
        self.stopping = False
        self.deadlock = False
        self.kinds = _kinds.setdefault(traced, {})
        self.fault = fault

    # -- scheduling
    def _pick(self, me):
        """Choose who goes on."""
        enabled = [t for t in self.order if t.enabled()]
        if not enabled:
            return None
        cont = me is not None and me in enabled
        if cont:
            enabled.remove(me)
            enabled.insert(0, me)
        n = len(enabled)
        if n == 1:
            return enabled[0]
        i = len(self.choices)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.points.append((n, [0] + [1 if cont else 0] * (n - 1)))
        self.choices.append(c)
        return enabled[c]

    def point(self, me):
        if self.stopping:
            return
        nxt = self._pick(me)
        if nxt is me:
            return
        if nxt is None:
            self.deadlock = True
            self._stop_all()
            raise Stop()
        self.running = nxt
        nxt.go.release()
        me.go.acquire()
        if self.stopping:
            raise Stop()

    def _stop_all(self):
        self.stopping = True
        self.finished.release()

    def at(self, where):
        """A statement or a function of the instrumented code is about to run."""
        t = self.threads.get(threading.get_ident())
        if t is None or self.stopping:
            return
        kind = self.kinds.get(where)
        if kind is None:
            kind = self.kinds[where] = bool(self.traced(*where))
        if not kind:
            return
        t.where = where
        if self.fault is not None and self.fault(t, where):
            raise MemoryError("injected at %s:%s:%d" % where[:3])
        self.point(t)

    def _main(self, t):
        t.go.acquire()
        self.threads[threading.get_ident()] = t
        try:
            if not self.stopping:
                t.func()
        except Stop:
            pass
        except BaseException as e:
            t.error = e
        t.done = True
        if self.stopping:
            return
        nxt = self._pick(None)
        if nxt is None:
            if any(not x.done for x in self.order):
                self.deadlock = True
            self.finished.release()
            return
        self.running = nxt
        nxt.go.release()

    def run(self):
        global _current
        _current = self
        real = [threading.Thread(target=self._main, args=(t,)) for t in self.order]
        for r in real:
            r.daemon = True
            r.start()
        try:
            first = self._pick(None)
            self.running = first
            first.go.release()
            self.finished.acquire()
        finally:
            _current = None
            if any(not t.done for t in self.order):
                self.stopping = True
                for t in self.order:
                    if not t.done:
                        try:
                            t.go.release()
                        except RuntimeError:
                            pass
        for r in real:
            r.join(5)
        return self


MODULES = ("oa.server", "oa.protocol.base", "oa.protocol.check", "oa.protocol.process",
           "oa.config", "oa.rules.parser", "oa.rules.ruleset", "oa.context", "oa.message")


def early():
    """Before anything of the code under test is imported."""
    patch()
    instrument(MODULES)
