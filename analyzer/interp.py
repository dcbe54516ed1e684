"""Abstract interpreter over the Python syntax tree of the analysed package.

The analysed code is never imported or executed by Python: its syntax trees are interpreted over the abstract values of
values.py (algebraic normal forms, arrays of bounded shape with symbolic elements, heap objects with provenance).
Branches on conditions which are not decided by the abstract state partition the trace (see Explorer).
"""
import time
import ast
import os
import hashlib
from fractions import Fraction
from . import expr as X
from .expr import E
from .values import *

import builtins as _pyb

EXC = {n: ExcT(getattr(_pyb, n)) for n in dir(_pyb) if isinstance(getattr(_pyb, n), type) and issubclass(getattr(_pyb, n), BaseException)}
BUILTIN_TYPES = {"int", "float", "complex", "bool", "str", "bytes", "list", "tuple", "dict", "set", "frozenset", "object", "type", "range", "slice"}
BUILTIN_FUNCS = {"len", "abs", "min", "max", "sum", "round", "isinstance", "issubclass", "hasattr", "getattr", "setattr", "delattr", "enumerate",
                 "zip", "map", "filter", "sorted", "reversed", "any", "all", "print", "callable", "id", "iter", "next", "repr",
                 "pow", "divmod", "open", "super", "vars", "dir", "hash", "ord", "chr", "format", "property", "staticmethod", "classmethod",
                 "globals", "locals", "input", "bin", "hex", "__import__", "exec", "eval", "ascii"}


class Frame:
    __slots__ = ("file", "qual", "line", "call_line")

    def __init__(self, file, qual, line):
        self.file, self.qual, self.line = file, qual, line


class Oracle:
    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.taken = []

    def next(self, cond):
        i = len(self.taken)
        v = self.prefix[i] if i < len(self.prefix) else True
        self.taken.append(v)
        return v


class TimeUp(BaseException):
    """The time of the check is over: what was decided so far is reported."""


DEADLINE = None


class Interp:
    def __init__(self, root="/repo/src", pkg="zernpy", missing=("joblib", "skimage"), max_steps=60_000_000):
        self.root, self.pkg = root, pkg
        self.missing = set(missing)
        self.modules = {}
        self.sources = {}
        self.frames = []
        self.events = []
        self.oracle = None
        self.facts = {}
        self.pathconds = []
        self.epoch = 1
        self.undo = []
        self.cur_prov = None
        self.counter = 0
        self.steps = 0
        self.max_steps = max_steps
        self.funcs_seen = {}
        self.calls_seen = set()
        self.fs = {}
        self.fs_default = None   # answer for unknown paths: None - fork, 'absent'
        self.yields = []
        self.last_line = None
        self.exc_stack = []
        self.call_hooks = {}
        self.ext_hooks = {}
        self.forks = 0
        self.purememo = {}
        self.stmts_seen = set()
        self.recursion = {}
        self.recursive = {}
        self.gver = 0
        from . import models
        self.models = models.MODELS
        self.mod = models
        self.ev = {}
        self.ex = {}
        for n in dir(self):
            if n.startswith("ev_"):
                self.ev[getattr(ast, n[3:], None)] = getattr(self, n)
            elif n.startswith("ex_"):
                self.ex[getattr(ast, n[3:], None)] = getattr(self, n)

    # ------------------------------------------------------------------ infrastructure
    def loc(self):
        if not self.frames:
            return "?"
        f = self.frames[-1]
        return f"{f.file}:{f.line} in {f.qual}"

    def stack(self):
        return tuple(f"{f.file}:{f.line} {f.qual}" for f in self.frames[-6:])

    def event(self, kind, *data):
        self.events.append(Event(kind, self.loc(), data, self.stack()))

    def unsup(self, msg):
        raise Unsupported(f"{msg} at {self.loc()}")

    def rz(self, name, msg="", *args):
        """Raise an abstract Python exception."""
        raise PyRaise(self.mkexc(name, msg, *args))

    def mkexc(self, name, msg="", *args):
        return Exc(EXC[name], (msg,) + args, self.loc(), implicit=True)

    def touch(self, o, what="mutate"):
        if o.ep != self.epoch:
            self.gver += 1
            if isinstance(o, Buf):
                self.undo.append((o, list(o.data), o.ep))
            else:
                self.undo.append((o, o.snap(), o.ep))
            o.ep = self.epoch
        p = getattr(o, "prov", "local")
        if p != "local":
            self.event("mutate", p, type(o).__name__, getattr(o, "site", None))

    def checkpoint(self):
        self.epoch += 1
        self.undo = []
        self._cp = (len(self.events),)

    def rollback(self):
        if self.undo:
            self.gver += 1
        for o, s, ep in reversed(self.undo):
            if isinstance(o, Buf):
                o.data = s
            else:
                o.restore(s)
            o.ep = ep
        self.undo = []
        self.epoch += 1

    def fresh(self, prefix):
        self.counter += 1
        return f"{prefix}#{self.counter}"

    def prov(self):
        return self.cur_prov or "local"

    def mklist(self, items):
        return PyList(list(items), self.prov(), self.epoch, self.loc())

    def mkdict(self, pairs=()):
        d = PyDict({}, self.prov(), self.epoch, self.loc())
        for k, v in pairs:
            d.d[self.hkey(k)] = (k, v)
        return d

    def mkset(self, items=()):
        d = PySet({}, self.prov(), self.epoch, self.loc())
        for k in items:
            d.d[self.hkey(k)] = k
        return d

    # ------------------------------------------------------------------ decisions
    def decide(self, c):
        if isinstance(c, bool):
            return c
        if c.op in ("lt", "le", "eq"):
            c2 = mkcond(c.op, c.e)
            if isinstance(c2, bool):
                return c2 != c.neg
            c = Cond(c2.op, c2.e, c.neg)
        pos = Cond(c.op, c.e, False)
        k = pos.key()
        if k in self.facts:
            return self.facts[k] != c.neg
        if c.op in ("lt", "le"):
            n = pos.negate()
            if isinstance(n, Cond) and n.key() in self.facts:
                return (not self.facts[n.key()]) != c.neg
        # feasibility of both branches
        feas = {}
        saves = {}
        o0, l0 = dict(X.OVER), dict(X.LINOVER)
        for val in (True, False):
            X.OVER.clear()
            X.OVER.update(o0)
            X.LINOVER.clear()
            X.LINOVER.update(l0)
            feas[val] = self._assume(pos, val)
            saves[val] = (dict(X.OVER), dict(X.LINOVER))
        if feas[True] and feas[False]:
            if self.oracle is None:
                X.OVER.clear(); X.OVER.update(o0); X.LINOVER.clear(); X.LINOVER.update(l0)
                self.unsup(f"undecided condition {pos!r}")
            self.forks += 1
            v = self.oracle.next(pos)
        elif feas[True] or feas[False]:
            v = feas[True]
        else:
            raise Infeasible()
        X.OVER.clear()
        X.OVER.update(saves[v][0])
        X.LINOVER.clear()
        X.LINOVER.update(saves[v][1])
        self.facts[k] = v
        if feas[True] and feas[False]:
            self.pathconds.append((pos, v, self.loc()))
        return v != c.neg

    def _assume(self, c, val):
        if c.op == "opaque":
            return True
        if c.op == "eq":
            if val:
                return X.refine(c.e, "eq")
            # e != 0 : for integers trim end points
            r = X.rng(c.e)
            if r[0] is not None and r[0] == 0 and not r[1]:
                return X.refine(X.neg(c.e), "lt")
            if r[2] is not None and r[2] == 0 and not r[3]:
                return X.refine(c.e, "lt")
            return True
        if val:
            return X.refine(c.e, c.op)
        return X.refine(X.neg(c.e), "le" if c.op == "lt" else "lt")

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, int):
            return v != 0
        if isinstance(v, Cond):
            return self.decide(v)
        if isinstance(v, Num):
            c = mkcond("eq", v.e) if X.is_real(v.e) else (v.e.is_zero() if v.e.is_const() else Cond("eq", v.e))
            return not (c if isinstance(c, bool) else self.decide(c))
        if isinstance(v, (str, tuple, bytes)):
            return len(v) > 0
        if isinstance(v, PyList):
            return len(v.items) > 0
        if isinstance(v, (PyDict, PySet)):
            return len(v.d) > 0
        if isinstance(v, RangeV):
            return len(v.r) > 0
        if isinstance(v, Arr):
            if len(v.idx) == 1:
                return self.truth(self.elem(v, 0))
            if len(v.idx) == 0:
                return False
            self.rz("ValueError", "The truth value of an array with more than one element is ambiguous")
        if isinstance(v, Obj):
            f = v.cls.lookup("__bool__")
            if f is not None:
                return self.truth(self.call(Bound(f, v), [], {}))
            f = v.cls.lookup("__len__")
            if f is not None:
                return self.truth(self.call(Bound(f, v), [], {}))
            return True
        if isinstance(v, Opaque):
            return self.decide(Cond("opaque", ("truth", v.key)))
        if isinstance(v, SStr):
            if any(isinstance(p, str) and p for p in v.parts):
                return True
            return self.decide(Cond("opaque", ("truth", v)))
        return True

    # ------------------------------------------------------------------ modules
    def find_module(self, name):
        p = os.path.join(self.root, *name.split("."))
        if os.path.isfile(p + ".py"):
            return p + ".py", False
        if os.path.isfile(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.isdir(p) and name.split(".")[0] == self.pkg:
            return p, True
        return None, None

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        path, ispkg = self.find_module(name)
        if path is None:
            return None
        m = ModuleV(name, path)
        self.modules[name] = m
        m.vars["__name__"] = name
        m.vars["__file__"] = path
        m.vars["__package__"] = name if ispkg else name.rpartition(".")[0]
        if os.path.isdir(path):
            m.loaded = True
            return m
        src = open(path, "rb").read()
        self.sources[name] = (path, hashlib.sha256(src).hexdigest()[:16])
        tree = ast.parse(src, filename=path)
        m.vars["__doc__"] = ast.get_docstring(tree)
        cell = Cell(None, m)
        cell.vars = m.vars
        rel = os.path.relpath(path, os.path.dirname(self.root))
        self.frames.append(Frame(rel, "<module>", 0))
        saved = self.cur_prov
        self.cur_prov = "module:" + name
        try:
            self.block(tree.body, cell)
        except PyRaise as e:
            self.cur_prov = saved
            self.frames.pop()
            del self.modules[name]
            raise
        self.cur_prov = saved
        self.frames.pop()
        m.loaded = True
        return m

    def relfile(self, m):
        return os.path.relpath(m.path, os.path.dirname(self.root))

    def import_module(self, name, cell):
        top = name.split(".")[0]
        path, _ = self.find_module(name)
        if top == self.pkg and path is not None:
            parts = name.split(".")
            for i in range(1, len(parts) + 1):
                self.load(".".join(parts[:i])) if not (i == 1 and len(parts) > 1) else None
            return self.modules[name]
        if top in self.missing or not self.known_ext(top):
            raise PyRaise(Exc(EXC["ModuleNotFoundError"], (f"No module named '{top}'",), self.loc(), True))
        return ExtRef(name)

    def known_ext(self, top):
        import sys
        return top in ("numpy", "scipy", "matplotlib", "numba") or top in sys.stdlib_module_names

    # ------------------------------------------------------------------ statements
    def block(self, body, cell):
        for s in body:
            self.stmt(s, cell)

    def stmt(self, s, cell):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Limit("step limit")
        if DEADLINE is not None and not self.steps & 63 and time.monotonic() > DEADLINE:
            raise TimeUp()
        self.frames[-1].line = s.lineno
        f = self.ex.get(type(s))
        if f is None:
            self.unsup(f"statement {type(s).__name__}")
        f(s, cell)

    def ex_Expr(self, s, cell):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, cell)

    def ex_Pass(self, s, cell):
        pass

    def ex_Import(self, s, cell):
        for a in s.names:
            m = self.import_module(a.name, cell)
            if a.asname:
                self.store(cell, a.asname, m)
            else:
                top = a.name.split(".")[0]
                if isinstance(m, ExtRef):
                    self.store(cell, top, ExtRef(top))
                else:
                    self.store(cell, top, self.load(top))

    def ex_ImportFrom(self, s, cell):
        if s.level:
            pkg = cell.module.vars["__package__"]
            for _ in range(s.level - 1):
                pkg = pkg.rpartition(".")[0]
            name = pkg + ("." + s.module if s.module else "")
        else:
            name = s.module
        if name == "__future__":
            return
        m = self.import_module(name, cell)
        for a in s.names:
            if a.name == "*":
                if isinstance(m, ModuleV):
                    al = m.vars.get("__all__")
                    names = al.items if isinstance(al, PyList) else list(al) if isinstance(al, tuple) else [k for k in m.vars if not k.startswith("_")]
                    for k in names:
                        if k not in m.vars:
                            self.rz("AttributeError", f"module {name} has no attribute {k}")
                        self.store(cell, k, m.vars[k])
                    continue
                self.unsup("star import of external module")
            if isinstance(m, ModuleV):
                if a.name in m.vars:
                    v = m.vars[a.name]
                else:
                    sub = name + "." + a.name
                    if self.find_module(sub)[0] is None:
                        raise PyRaise(Exc(EXC["ImportError"], (f"cannot import name {a.name} from {name}",), self.loc(), True))
                    v = self.load(sub)
            else:
                v = self.ext_attr(m, a.name)
            self.store(cell, a.asname or a.name, v)

    def ex_FunctionDef(self, s, cell):
        f = self.make_func(s, cell)
        v = self.decorate(f, s.decorator_list, cell)
        self.store(cell, s.name, v)

    ex_AsyncFunctionDef = None

    def qualname(self, name, cell):
        q = []
        c = cell
        while c is not None:
            if c.is_class:
                q.append(c.func)
            elif c.func is not None and isinstance(c.func, Func):
                q.append(c.func.qual)
                break
            c = c.parent
        return ".".join(list(reversed(q)) + [name])

    def make_func(self, node, cell, name=None):
        a = node.args
        saved = self.cur_prov
        nm = name or getattr(node, "name", "<lambda>")
        qual = self.qualname(nm, cell)
        self.cur_prov = "default:" + qual
        defaults = [self.eval(d, cell) for d in a.defaults]
        kwd = {k.arg: self.eval(d, cell) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        self.cur_prov = saved
        env = cell
        while env is not None and env.is_class:
            env = env.parent
        f = Func(nm, node, env, cell.module, defaults, kwd, self.clsname(cell), qual)
        f.ep = self.epoch
        f.locals_, f.isgen = self.scan_locals(node)
        return f

    def clsname(self, cell):
        c = cell
        while c is not None:
            if c.is_class:
                return c.func
            if isinstance(c.func, Func):
                return c.func.clsname
            c = c.parent
        return None

    _scan = {}

    def scan_locals(self, node):
        r = Interp._scan.get(node)
        if r is not None:
            return r
        names, gl, nl = set(), set(), set()
        gen = False
        a = node.args
        for x in a.args + a.posonlyargs + a.kwonlyargs:
            names.add(x.arg)
        if a.vararg:
            names.add(a.vararg.arg)
        if a.kwarg:
            names.add(a.kwarg.arg)

        def walk(n, comp=False):
            nonlocal gen
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                names.add(n.name)
                for d in n.decorator_list:
                    walk(d, comp)
                return
            if isinstance(n, ast.Lambda):
                return
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for c in ast.walk(n):
                    if isinstance(c, ast.NamedExpr):
                        names.add(c.target.id)
                return
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                names.add(n.id)
            elif isinstance(n, (ast.Yield, ast.YieldFrom)):
                gen = True
            elif isinstance(n, ast.Global):
                gl.update(n.names)
            elif isinstance(n, ast.Nonlocal):
                nl.update(n.names)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for x in n.names:
                    names.add(x.asname or x.name.split(".")[0])
            elif isinstance(n, ast.ExceptHandler) and n.name:
                names.add(n.name)
            elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                names.add(n.name)
            for c in ast.iter_child_nodes(n):
                walk(c, comp)
        body = node.body if isinstance(node.body, list) else [node.body]
        for s in body:
            walk(s)
        r = ((names - gl - nl, gl, nl), gen)
        Interp._scan[node] = r
        return r

    def decorate(self, f, decs, cell):
        v = f
        for d in reversed(decs):
            dv = self.eval(d, cell)
            v = self.apply_decorator(dv, v)
        return v

    def apply_decorator(self, dv, v):
        n = dv.name if isinstance(dv, (ExtRef, Builtin)) else None
        if n == "staticmethod":
            return StaticM(v)
        if n == "classmethod":
            return ClassM(v)
        if n in ("property", "functools.cached_property"):
            return Prop(v)
        if n in ("functools.lru_cache", "functools.cache") or (isinstance(dv, ExtObj) and dv.typ == "lru_dec"):
            v.cache = {}
            return v
        if (n and n.startswith("numba.")) or (isinstance(dv, ExtObj) and dv.typ == "numba_dec"):
            return v
        if isinstance(dv, ExtObj) and dv.typ == "ident_dec":
            return v
        if n in ("dataclasses.dataclass",) or (isinstance(dv, ExtObj) and dv.typ == "dataclass_dec"):
            v.dataclass = True
            return v
        if n in ("abc.abstractmethod", "typing.overload", "typing.final", "typing.no_type_check", "functools.total_ordering"):
            return v
        if isinstance(dv, Meth) and isinstance(dv.obj, Prop) and dv.name == "setter":
            return Prop(dv.obj.fget, v)
        return self.call(dv, [v], {})

    def ex_ClassDef(self, s, cell):
        bases = [self.eval(b, cell) for b in s.bases]
        c = Cell(cell, cell.module)
        c.is_class = True
        c.func = s.name
        saved = self.cur_prov
        self.cur_prov = "class:" + s.name
        cls = ClassV(s.name, bases, {}, cell.module, s)
        cls.ep = self.epoch
        c.vars["__annotations_order__"] = []
        c.vars["__qualname__"] = s.name
        try:
            self.block(s.body, c)
        finally:
            self.cur_prov = saved
        cls.attrs = c.vars
        for k, v in cls.attrs.items():
            for f in ([v] if isinstance(v, Func) else [v.f] if isinstance(v, (StaticM, ClassM)) else [v.fget, v.fset] if isinstance(v, Prop) else []):
                if isinstance(f, Func):
                    f.owner = cls
        if any(isinstance(b, ExtRef) and b.name in ("typing.NamedTuple",) for b in bases):
            ann = cls.attrs["__annotations_order__"]
            defs = [cls.attrs[k] for k in ann if k in cls.attrs]
            v = NTType(s.name, ann, defs)
        else:
            v = cls
        v = self.decorate(v, s.decorator_list, cell)
        self.store(cell, s.name, v)

    def ex_Return(self, s, cell):
        v = self.eval(s.value, cell) if s.value is not None else None
        self.last_line = self.loc()
        raise RetEx(v)

    def ex_Delete(self, s, cell):
        for t in s.targets:
            if isinstance(t, ast.Name):
                n = self.mangle(t.id, cell)
                c = self.scope_for(cell, n)
                if n in c:
                    del c[n]
                else:
                    self.rz("NameError", n)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, cell)
                i = self.eval(t.slice, cell)
                self.delitem(o, i)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, cell)
                n = self.mangle(t.attr, cell)
                if isinstance(o, Obj):
                    if n not in o.attrs:
                        self.rz("AttributeError", n)
                    self.touch(o)
                    del o.attrs[n]
                else:
                    self.unsup("del attribute")

    def delitem(self, o, i):
        if isinstance(o, PyList):
            self.touch(o)
            if isinstance(i, slice):
                del o.items[i]
                return
            k = self.as_int(i)
            try:
                del o.items[k]
            except IndexError:
                self.rz("IndexError", "list index out of range")
        elif isinstance(o, PyDict):
            k = self.hkey(i)
            if k not in o.d:
                self.rz("KeyError", i)
            self.touch(o)
            del o.d[k]
        else:
            self.unsup("del item")

    def ex_Assign(self, s, cell):
        v = self.eval(s.value, cell)
        for t in s.targets:
            self.assign(t, v, cell)

    def ex_AnnAssign(self, s, cell):
        if cell.is_class and isinstance(s.target, ast.Name):
            cell.vars["__annotations_order__"].append(s.target.id)
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, cell), cell)

    def ex_AugAssign(self, s, cell):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, cell)
            r = self.inplace(s.op, cur, self.eval(s.value, cell))
            self.assign(t, r, cell)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, cell)
            n = self.mangle(t.attr, cell)
            cur = self.getattr(o, n)
            r = self.inplace(s.op, cur, self.eval(s.value, cell))
            self.setattr(o, n, r)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, cell)
            i = self.eval(t.slice, cell)
            cur = self.getitem(o, i)
            r = self.inplace(s.op, cur, self.eval(s.value, cell))
            self.setitem(o, i, r)
        else:
            self.unsup("augmented assignment target")

    def ex_If(self, s, cell):
        if self.truth(self.eval(s.test, cell)):
            self.block(s.body, cell)
        else:
            self.block(s.orelse, cell)

    def ex_For(self, s, cell):
        it = self.iter_of(self.eval(s.iter, cell))
        broke = False
        n = 0
        for v in it:
            n += 1
            if n > 2_000_000:
                raise Limit("loop limit")
            self.assign(s.target, v, cell)
            try:
                self.block(s.body, cell)
            except BrkEx:
                broke = True
                break
            except ContEx:
                continue
        if not broke:
            self.block(s.orelse, cell)

    def ex_While(self, s, cell):
        n = 0
        broke = False
        while self.truth(self.eval(s.test, cell)):
            n += 1
            if n > 100_000:
                raise Limit("while limit at " + self.loc())
            try:
                self.block(s.body, cell)
            except BrkEx:
                broke = True
                break
            except ContEx:
                pass
            self.frames[-1].line = s.lineno
        if not broke:
            self.block(s.orelse, cell)

    def ex_Break(self, s, cell):
        raise BrkEx()

    def ex_Continue(self, s, cell):
        raise ContEx()

    def ex_Global(self, s, cell):
        pass

    def ex_Nonlocal(self, s, cell):
        pass

    def ex_Raise(self, s, cell):
        if s.exc is None:
            if self.exc_stack:
                raise PyRaise(self.exc_stack[-1])
            self.rz("RuntimeError", "No active exception to reraise")
        v = self.eval(s.exc, cell)
        if s.cause is not None:
            self.eval(s.cause, cell)
        if isinstance(v, (ExcT,)) or (isinstance(v, ClassV)) or isinstance(v, ExtRef):
            v = self.call(v, [], {})
        if not isinstance(v, Exc):
            if isinstance(v, Obj) or isinstance(v, Opaque):
                v = Exc(v.cls if isinstance(v, Obj) else EXC["Exception"], (v,), self.loc())
            else:
                self.rz("TypeError", "exceptions must derive from BaseException")
        v.raised = True
        v.loc = self.loc()
        v.implicit = False
        self.event("raise", v.name, v.args[0] if v.args else "")
        raise PyRaise(v)

    def ex_Assert(self, s, cell):
        if not self.truth(self.eval(s.test, cell)):
            msg = self.eval(s.msg, cell) if s.msg is not None else ""
            e = Exc(EXC["AssertionError"], (msg,), self.loc())
            raise PyRaise(e)

    def exc_matches(self, exc, t):
        if isinstance(t, tuple):
            return any(self.exc_matches(exc, x) for x in t)
        if isinstance(t, ExcT):
            return issubclass(exc.pytype(), t.t)
        if isinstance(t, ClassV):
            return isinstance(exc.cls, ClassV) and t in exc.cls.mro()
        if isinstance(t, ExtRef):
            return isinstance(exc.cls, ExtRef) and exc.cls.name.split(".")[-1] == t.name.split(".")[-1] or \
                (t.name.endswith("LinAlgError") and False)
        return False

    def ex_Try(self, s, cell):
        try:
            try:
                self.block(s.body, cell)
            except PyRaise as pe:
                exc = pe.exc
                handled = False
                for h in s.handlers:
                    if h.type is None or self.exc_matches(exc, self.eval(h.type, cell)):
                        handled = True
                        if h.name:
                            self.store(cell, h.name, exc)
                        self.exc_stack.append(exc)
                        try:
                            self.block(h.body, cell)
                        finally:
                            self.exc_stack.pop()
                        break
                if not handled:
                    raise
            else:
                self.block(s.orelse, cell)
        except (PyRaise, RetEx, BrkEx, ContEx):
            self.block(s.finalbody, cell)
            raise
        else:
            self.block(s.finalbody, cell)

    ex_TryStar = None

    def ex_With(self, s, cell):
        self._with(s.items, 0, s.body, cell)

    def _with(self, items, i, body, cell):
        if i == len(items):
            self.block(body, cell)
            return
        it = items[i]
        cm = self.eval(it.context_expr, cell)
        if isinstance(cm, Obj):
            v = self.call(self.getattr(cm, "__enter__"), [], {})
        else:
            v = self.mod.enter(self, cm)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, cell)
        try:
            self._with(items, i + 1, body, cell)
        except PyRaise as pe:
            if isinstance(cm, Obj):
                r = self.call(self.getattr(cm, "__exit__"), [pe.exc.cls, pe.exc, None], {})
                if self.truth(r):
                    return
            else:
                if self.mod.leave(self, cm, pe.exc):
                    return
            raise
        except (RetEx, BrkEx, ContEx):
            if isinstance(cm, Obj):
                self.call(self.getattr(cm, "__exit__"), [None, None, None], {})
            else:
                self.mod.leave(self, cm, None)
            raise
        if isinstance(cm, Obj):
            self.call(self.getattr(cm, "__exit__"), [None, None, None], {})
        else:
            self.mod.leave(self, cm, None)

    def ex_Match(self, s, cell):
        v = self.eval(s.subject, cell)
        for c in s.cases:
            if self.match(c.pattern, v, cell) and (c.guard is None or self.truth(self.eval(c.guard, cell))):
                self.block(c.body, cell)
                return

    def match(self, p, v, cell):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare("Eq", v, self.eval(p.value, cell)))
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchOr):
            return any(self.match(x, v, cell) for x in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, cell):
                return False
            if p.name:
                self.store(cell, p.name, v)
            return True
        if isinstance(p, ast.MatchSequence):
            if isinstance(v, (tuple, PyList)):
                xs = list(v) if isinstance(v, tuple) else v.items
                if any(isinstance(q, ast.MatchStar) for q in p.patterns):
                    self.unsup("star pattern")
                return len(xs) == len(p.patterns) and all(self.match(q, x, cell) for q, x in zip(p.patterns, xs))
            return False
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return self.truth(self.isinst(v, self.eval(p.cls, cell)))
        self.unsup("match pattern")

    # ------------------------------------------------------------------ names
    def mangle(self, n, cell):
        if n.startswith("__") and not n.endswith("__"):
            c = self.clsname(cell)
            if c:
                return "_" + c.lstrip("_") + n
        return n

    def scope_for(self, cell, name):
        """dict in which the name has to be stored."""
        c = cell
        while c.is_comp and name not in c.vars:
            c = c.parent
        f = c.func
        if isinstance(f, Func):
            loc, gl, nl = f.locals_
            if name in gl:
                self.touch(c.module)
                return c.module.vars
            if name in nl:
                p = c.parent
                while p is not None:
                    if name in p.vars:
                        return p.vars
                    p = p.parent
        elif c.parent is None and not c.is_class:
            if c.module.loaded:
                self.touch(c.module)
            return c.module.vars
        return c.vars

    def store(self, cell, name, v):
        name = self.mangle(name, cell) if name.startswith("__") else name
        f = cell.func
        if isinstance(f, Func) and not cell.is_comp:
            loc, gl, nl = f.locals_
            if name not in gl and name not in nl:
                cell.vars[name] = v
                return
        self.scope_for(cell, name)[name] = v

    def lookup(self, name, cell):
        if name.startswith("__"):
            name = self.mangle(name, cell)
        c = cell
        while c is not None:
            vs = c.vars
            if name in vs:
                return vs[name]
            f = c.func
            if isinstance(f, Func) and not c.is_comp:
                loc, gl, nl = f.locals_
                if name in gl:
                    break
                if name in loc:
                    self.rz("UnboundLocalError", f"local variable '{name}' referenced before assignment")
            c = c.parent
        mv = cell.module.vars
        if name in mv:
            return mv[name]
        if name in EXC:
            return EXC[name]
        if name in BUILTIN_TYPES or name in BUILTIN_FUNCS:
            return Builtin(name)
        if name == "NotImplemented":
            return NOTIMPL
        if name == "Ellipsis":
            return ELLIPSIS
        if name == "__debug__":
            return True
        self.rz("NameError", f"name '{name}' is not defined")

    def assign(self, t, v, cell):
        if isinstance(t, ast.Name):
            self.store(cell, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            xs = list(self.iter_of(v))
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if stars:
                k = stars[0]
                after = len(t.elts) - k - 1
                if len(xs) < len(t.elts) - 1:
                    self.rz("ValueError", "not enough values to unpack")
                for e, x in zip(t.elts[:k], xs[:k]):
                    self.assign(e, x, cell)
                self.assign(t.elts[k].value, self.mklist(xs[k:len(xs) - after]), cell)
                for e, x in zip(t.elts[k + 1:], xs[len(xs) - after:]):
                    self.assign(e, x, cell)
            else:
                if len(xs) != len(t.elts):
                    self.rz("ValueError", f"unpacking of {len(xs)} values to {len(t.elts)} targets")
                for e, x in zip(t.elts, xs):
                    self.assign(e, x, cell)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, cell)
            self.setattr(o, self.mangle(t.attr, cell), v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, cell)
            i = self.eval(t.slice, cell)
            self.setitem(o, i, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, cell)
        else:
            self.unsup("assignment target")

    # ------------------------------------------------------------------ expressions
    def eval(self, n, cell):
        f = self.ev.get(type(n))
        if f is None:
            self.unsup(f"expression {type(n).__name__}")
        return f(n, cell)

    def ev_Constant(self, n, cell):
        v = n.value
        if isinstance(v, float):
            if v != v:
                return Num(X.NAN, "float")
            if v in (float("inf"), float("-inf")):
                return Num(X.INF if v > 0 else X.neg(X.INF), "float")
            return Num(X.const(Fraction(repr(v))), "float")
        if isinstance(v, complex):
            return Num(X.add(X.const(Fraction(repr(v.real))), X.scale(X.I, Fraction(repr(v.imag)))), "complex")
        if v is ...:
            return ELLIPSIS
        return v

    def ev_Name(self, n, cell):
        return self.lookup(n.id, cell)

    def ev_Tuple(self, n, cell):
        return tuple(self.seq_elts(n.elts, cell))

    def ev_List(self, n, cell):
        return self.mklist(self.seq_elts(n.elts, cell))

    def ev_Set(self, n, cell):
        return self.mkset(self.seq_elts(n.elts, cell))

    def seq_elts(self, elts, cell):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out += list(self.iter_of(self.eval(e.value, cell)))
            else:
                out.append(self.eval(e, cell))
        return out

    def ev_Dict(self, n, cell):
        d = self.mkdict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.eval(v, cell)
                if not isinstance(o, PyDict):
                    self.unsup("** of not dict")
                d.d.update(o.d)
            else:
                kv = self.eval(k, cell)
                d.d[self.hkey(kv)] = (kv, self.eval(v, cell))
        return d

    def ev_BinOp(self, n, cell):
        return self.binop(type(n.op).__name__, self.eval(n.left, cell), self.eval(n.right, cell))

    def ev_UnaryOp(self, n, cell):
        v = self.eval(n.operand, cell)
        op = type(n.op).__name__
        if op == "Not":
            if isinstance(v, Cond):
                return v.negate()
            return not self.truth(v)
        return self.unary(op, v)

    def unary(self, op, v):
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, Cond):
            if op == "Invert":
                return v.negate()
            v = Num(self.e_of(v), "int")
        if isinstance(v, Arr):
            if op == "Invert":
                if cat(v.dtype) == "bool":
                    return self.mkarr([(not x) if isinstance(x, bool) else x.negate() for x in v.elems()], v.shape, "bool")
                self.unsup("~ on array")
            if op == "UAdd":
                return self.mkarr(v.elems(), v.shape, v.dtype)
            return self.mkarr([X.neg(self.el2e(x)) for x in v.elems()], v.shape, v.dtype if cat(v.dtype) != "bool" else "int64")
        if isinstance(v, int):
            return -v if op == "USub" else +v if op == "UAdd" else ~v
        if isinstance(v, Num):
            if op == "USub":
                return mknum(X.neg(v.e), v.kind)
            if op == "UAdd":
                return v
            self.unsup("~ on symbolic number")
        if isinstance(v, Opaque):
            return Opaque(("un", op, v.key))
        if isinstance(v, Obj):
            f = v.cls.lookup({"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[op])
            if f is not None:
                return self.call(Bound(f, v), [], {})
        self.rz("TypeError", f"bad operand type for unary {op}")

    def ev_BoolOp(self, n, cell):
        isand = isinstance(n.op, ast.And)
        v = None
        for i, e in enumerate(n.values):
            v = self.eval(e, cell)
            if i == len(n.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(v, Cond):
                v = t
            if isand and not t:
                return v
            if not isand and t:
                return v
        return v

    def ev_Compare(self, n, cell):
        left = self.eval(n.left, cell)
        res = True
        for i, (op, r) in enumerate(zip(n.ops, n.comparators)):
            right = self.eval(r, cell)
            res = self.compare(type(op).__name__, left, right)
            if i < len(n.ops) - 1:
                if isinstance(res, Arr):
                    self.truth(res)
                if not self.truth(res):
                    return False
            left = right
        return res

    def ev_IfExp(self, n, cell):
        return self.eval(n.body if self.truth(self.eval(n.test, cell)) else n.orelse, cell)

    def ev_NamedExpr(self, n, cell):
        v = self.eval(n.value, cell)
        c = cell
        while c.is_comp:
            c = c.parent
        self.store(c, n.target.id, v)
        return v

    def ev_Lambda(self, n, cell):
        return self.make_func(n, cell, "<lambda>")

    def ev_Starred(self, n, cell):
        self.unsup("starred expression")

    def ev_JoinedStr(self, n, cell):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(str(v.value))
            else:
                parts.append(self.ev_FormattedValue(v, cell))
        return self.mkstr(parts)

    def mkstr(self, parts):
        s = SStr(parts)
        if all(isinstance(p, str) for p in s.parts):
            return "".join(s.parts)
        return s

    def ev_FormattedValue(self, n, cell):
        v = self.eval(n.value, cell)
        spec = self.eval(n.format_spec, cell) if n.format_spec is not None else ""
        if isinstance(v, Obj) and n.conversion in (-1, 115):
            return self.to_str(v)
        s = self.to_str(v, repr_=(n.conversion == 114))
        if spec:
            return SStr([("fmt", self.skey(v), spec)]) if not isinstance(v, (int, str)) else (format(v, spec) if isinstance(spec, str) else SStr([("fmt", v, spec)]))
        return s

    def to_str(self, v, repr_=False):
        if isinstance(v, str):
            return repr(v) if repr_ else v
        if isinstance(v, SStr):
            return v
        if isinstance(v, bool) or v is None or isinstance(v, int):
            return str(v)
        if isinstance(v, Num):
            if v.e.is_const() and v.kind in ("float", "npfloat"):
                c = v.e.cval()
                return str(float(c))
            return SStr([("num", v.e)])
        if isinstance(v, tuple) and not isinstance(v, NT):
            xs = [self.to_str(x, True) for x in v]
            parts = ["("]
            for i, x in enumerate(xs):
                if i:
                    parts.append(", ")
                parts.append(x)
            if len(xs) == 1:
                parts.append(",")
            parts.append(")")
            return self.mkstr(parts)
        if isinstance(v, PyList):
            parts = ["["]
            for i, x in enumerate(v.items):
                if i:
                    parts.append(", ")
                parts.append(self.to_str(x, True))
            parts.append("]")
            return self.mkstr(parts)
        if isinstance(v, Obj):
            f = v.cls.lookup("__repr__" if repr_ else "__str__") or v.cls.lookup("__repr__")
            if f is not None:
                return self.call(Bound(f, v), [], {})
            return SStr([("obj", v.cls.name)])
        if isinstance(v, ExtObj):
            return self.mod.ext_str(self, v)
        if isinstance(v, Arr):
            return SStr([("arr", v.shape) + tuple(self.skey(self.elem(v, i)) for i in range(min(len(v.idx), 30)))])
        if isinstance(v, Exc):
            return self.to_str(v.args[0]) if len(v.args) == 1 else SStr([("exc", v.name)])
        return SStr([("val", self.skey(v))])

    def skey(self, v):
        try:
            return self.hkey(v)
        except PyRaise:
            return ("id", type(v).__name__)

    def ev_Attribute(self, n, cell):
        o = self.eval(n.value, cell)
        a = n.attr
        if a.startswith("__") and not a.endswith("__"):
            a = self.mangle(a, cell)
        return self.getattr(o, a)

    def ev_Subscript(self, n, cell):
        o = self.eval(n.value, cell)
        i = self.eval(n.slice, cell)
        return self.getitem(o, i)

    def ev_Slice(self, n, cell):
        f = lambda e: None if e is None else self.opt_int(self.eval(e, cell))
        return slice(f(n.lower), f(n.upper), f(n.step))

    def opt_int(self, v):
        return None if v is None else self.as_int(v)

    def as_int(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, Num) and v.kind in ("int", "npint"):
            if v.e.is_const() and v.e.cval().denominator == 1:
                return int(v.e.cval())
            self.unsup(f"symbolic index {v!r}")
        if isinstance(v, Arr) and v.shape == () and cat(v.dtype) == "int":
            return self.as_int(self.elem(v, 0))
        if isinstance(v, Num):
            self.rz("TypeError", "indices must be integers")
        if isinstance(v, (Opaque, Cond)):
            self.unsup("opaque index")
        self.rz("TypeError", "an integer is required")

    def ev_ListComp(self, n, cell):
        out = []
        self.comp(n.generators, 0, cell, lambda c: out.append(self.eval(n.elt, c)))
        return self.mklist(out)

    def ev_SetComp(self, n, cell):
        out = []
        self.comp(n.generators, 0, cell, lambda c: out.append(self.eval(n.elt, c)))
        return self.mkset(out)

    def ev_GeneratorExp(self, n, cell):
        out = []
        self.comp(n.generators, 0, cell, lambda c: out.append(self.eval(n.elt, c)))
        return PyIter(out)

    def ev_DictComp(self, n, cell):
        out = []
        self.comp(n.generators, 0, cell, lambda c: out.append((self.eval(n.key, c), self.eval(n.value, c))))
        return self.mkdict(out)

    def comp(self, gens, i, cell, emit):
        if i == len(gens):
            emit(cell)
            return
        g = gens[i]
        it = self.iter_of(self.eval(g.iter, cell))
        c = Cell(cell, cell.module, cell.func)
        c.is_comp = True
        tn = [x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)]
        for v in it:
            for k in tn:
                c.vars[k] = None
            self.assign(g.target, v, c)
            if all(self.truth(self.eval(cond, c)) for cond in g.ifs):
                self.comp(gens, i + 1, c, emit)

    def ev_Yield(self, n, cell):
        v = self.eval(n.value, cell) if n.value is not None else None
        self.yields[-1].append(v)
        return None

    def ev_YieldFrom(self, n, cell):
        self.yields[-1] += list(self.iter_of(self.eval(n.value, cell)))
        return None

    def ev_Call(self, n, cell):
        f = self.eval(n.func, cell)
        if isinstance(f, Builtin) and f.name == "super" and not n.args:
            # zero argument super
            c = cell
            while c is not None and not isinstance(c.func, Func):
                c = c.parent
            fn_ = c.func
            first = fn_.node.args.args[0].arg
            return ExtObj("super", cls=fn_.owner, obj=c.vars[first])
        args = []
        kwargs = {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                args += list(self.iter_of(self.eval(a.value, cell)))
            else:
                args.append(self.eval(a, cell))
        for k in n.keywords:
            if k.arg is None:
                d = self.eval(k.value, cell)
                if isinstance(d, PyDict):
                    for kk, vv in d.d.values():
                        if not isinstance(kk, str):
                            self.rz("TypeError", "keywords must be strings")
                        if kk in kwargs:
                            self.rz("TypeError", f"got multiple values for keyword argument {kk}")
                        kwargs[kk] = vv
                else:
                    self.unsup("** of not dict")
            else:
                if k.arg in kwargs:
                    self.rz("TypeError", f"got multiple values for keyword argument {k.arg}")
                kwargs[k.arg] = self.eval(k.value, cell)
        self.frames[-1].line = n.lineno
        if isinstance(f, Builtin) and f.name in ("globals", "locals"):
            self.unsup(f.name)
        return self.call(f, args, kwargs)

    # ------------------------------------------------------------------ iteration
    def iter_of(self, v):
        if isinstance(v, RangeV):
            return iter(v.r)
        if isinstance(v, tuple):
            return iter(v)
        if isinstance(v, PyList):
            return self._live(v)
        if isinstance(v, PyDict):
            return iter([k for k, _ in list(v.d.values())])
        if isinstance(v, PySet):
            return iter(list(v.d.values()))
        if isinstance(v, str):
            return iter(v)
        if isinstance(v, PyIter):
            return self._drain(v)
        if isinstance(v, LazyIter):
            return v.gen
        if isinstance(v, Arr):
            if not v.shape:
                self.rz("TypeError", "iteration over a 0-d array")
            return iter([self.getitem(v, i) for i in range(v.shape[0])])
        if isinstance(v, Obj):
            f = v.cls.lookup("__iter__")
            if f is not None:
                return self.iter_of(self.call(Bound(f, v), [], {}))
            f = v.cls.lookup("__getitem__")
            if f is not None:
                return self._getitem_iter(v, f)
            self.rz("TypeError", f"'{v.cls.name}' object is not iterable")
        if isinstance(v, ExtObj):
            r = self.mod.ext_iter(self, v)
            if r is not None:
                return iter(r)
        if isinstance(v, Opaque):
            self.unsup(f"iteration over unknown value {v!r}")
        if isinstance(v, (int, Num, Cond)) or v is None or isinstance(v, Func):
            self.rz("TypeError", f"object is not iterable")
        self.unsup(f"iteration over {type(v).__name__}")

    def _getitem_iter(self, v, f):
        i = 0
        while i < 100000:
            try:
                x = self.call(Bound(f, v), [i], {})
            except PyRaise as e:
                if issubclass(e.exc.pytype(), IndexError):
                    return
                raise
            yield x
            i += 1

    def _live(self, v):
        i = 0
        while i < len(v.items):
            yield v.items[i]
            i += 1

    def _drain(self, v):
        while v.pos < len(v.items):
            v.pos += 1
            yield v.items[v.pos - 1]

    # ------------------------------------------------------------------ hash keys
    def hkey(self, v):
        if isinstance(v, bool):
            return ("n", X.const(int(v)))
        if isinstance(v, int):
            return ("n", X.const(v))
        if isinstance(v, Num):
            return ("n", v.e)
        if isinstance(v, str):
            return v
        if v is None:
            return None
        if isinstance(v, tuple):
            return ("t",) + tuple(self.hkey(x) for x in v)
        if isinstance(v, (SStr, Opaque, ExtRef, Builtin, ExcT, Cond)):
            return v
        if isinstance(v, (PyList, PyDict, Arr)) or (isinstance(v, PySet) and not v.frozen):
            self.rz("TypeError", "unhashable type")
        if isinstance(v, PySet):
            return ("fs", frozenset(v.d))
        if isinstance(v, Obj):
            h = v.cls.lookup("__hash__")
            eq = v.cls.lookup("__eq__")
            if h is not None:
                return ("h", v.cls.name, self.hkey(self.call(Bound(h, v), [], {})))
            if eq is not None:
                self.rz("TypeError", f"unhashable type: '{v.cls.name}'")
            return ("id", id(v))
        if isinstance(v, ExtObj):
            return self.mod.ext_hkey(self, v)
        return ("id", id(v))

    # ------------------------------------------------------------------ numbers
    NUMKINDS = {"int": 0, "npint": 0, "float": 1, "npfloat": 1, "complex": 2, "npcomplex": 2}

    def e_of(self, v):
        if isinstance(v, bool):
            return X.const(int(v))
        if isinstance(v, int):
            return X.const(v)
        if isinstance(v, Num):
            return v.e
        if isinstance(v, Cond):
            a = X._mk("fn", ("ind", v), integer=True, lo=Fraction(0), hi=Fraction(1))
            return X.atomE(a)
        if isinstance(v, E):
            return v
        if isinstance(v, Arr) and len(v.idx) == 1:
            return self.el2e(v.elems()[0])
        if isinstance(v, Opaque):
            return X.opaque("val", v)
        self.unsup(f"number expected, got {type(v).__name__}")

    def el2e(self, x):
        if isinstance(x, E):
            return x
        return self.e_of(x)

    def kind_of(self, v):
        if isinstance(v, (bool, int)):
            return "int"
        if isinstance(v, Num):
            return v.kind
        if isinstance(v, Cond):
            return "int"
        return None

    def join_kind(self, a, b):
        r = max(self.NUMKINDS[a], self.NUMKINDS[b])
        np_ = a.startswith("np") or b.startswith("np")
        return ("npint", "npfloat", "npcomplex")[r] if np_ else ("int", "float", "complex")[r]

    def isnum(self, v):
        return isinstance(v, (int, Num, Cond))

    def binop(self, op, a, b):
        # fast path
        ta, tb = type(a), type(b)
        if ta is int and tb is int:
            return self.int_op(op, a, b)
        if ta is bool:
            if tb is bool and op in ("BitAnd", "BitOr", "BitXor"):
                return (a & b) if op == "BitAnd" else (a | b) if op == "BitOr" else (a ^ b)
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.arr_binop(op, a, b)
        if self.isnum(a) and self.isnum(b):
            if isinstance(a, (Cond, bool)) and isinstance(b, (Cond, bool)) and op in ("BitAnd", "BitOr"):
                return self.cond_bit(op, a, b)
            return self.num_op(op, a, b)
        if isinstance(a, (str, SStr)) and op == "Mod":
            if isinstance(a, str) and isinstance(b, (str, int)):
                return a % b
            return SStr([("mod", a, self.skey(b))])
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)) and op == "Add":
            return self.mkstr([a, b])
        if op == "Add" and isinstance(a, tuple) and isinstance(b, tuple):
            return tuple(a) + tuple(b)
        if op == "Add" and isinstance(a, PyList) and isinstance(b, PyList):
            return self.mklist(a.items + b.items)
        if op == "Mult":
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (PyList, tuple, str)) and self.isnum(y):
                    k = self.as_int(y)
                    if isinstance(x, PyList):
                        return self.mklist(x.items * k)
                    return x * k
        if isinstance(a, (PySet,)) and isinstance(b, PySet):
            if op == "BitAnd":
                ks = {k: v for k, v in a.d.items() if k in b.d}
            elif op == "BitOr":
                ks = dict(a.d)
                ks.update(b.d)
            elif op == "Sub":
                ks = {k: v for k, v in a.d.items() if k not in b.d}
            elif op == "BitXor":
                ks = {k: v for k, v in list(a.d.items()) + list(b.d.items()) if (k in a.d) != (k in b.d)}
            else:
                self.rz("TypeError", "set operand")
            return PySet(ks, self.prov(), self.epoch, self.loc())
        if isinstance(a, PyDict) and isinstance(b, PyDict) and op == "BitOr":
            d = self.mkdict()
            d.d.update(a.d)
            d.d.update(b.d)
            return d
        if isinstance(a, ExtObj) or isinstance(b, ExtObj):
            r = self.mod.ext_binop(self, op, a, b)
            if r is not NOTIMPL:
                return r
        nm = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "FloorDiv": "floordiv", "Mod": "mod", "Pow": "pow",
              "BitAnd": "and", "BitOr": "or", "BitXor": "xor", "MatMult": "matmul", "LShift": "lshift", "RShift": "rshift"}[op]
        if isinstance(a, Obj):
            f = a.cls.lookup(f"__{nm}__")
            if f is not None:
                r = self.call(Bound(f, a), [b], {})
                if r is not NOTIMPL:
                    return r
        if isinstance(b, Obj):
            f = b.cls.lookup(f"__r{nm}__")
            if f is not None:
                r = self.call(Bound(f, b), [a], {})
                if r is not NOTIMPL:
                    return r
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque((op, self.skey(a), self.skey(b)))
        # numpy: list op numpy scalar
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (PyList, tuple)) and isinstance(y, Num) and y.kind.startswith("np"):
                ax = self.mod.asarray(self, x)
                return self.arr_binop(op, ax, y) if x is a else self.arr_binop(op, y, ax)
        if op == "BitOr" and isinstance(a, (Builtin, ClassV, ExtRef, type(None))) and isinstance(b, (Builtin, ClassV, ExtRef, type(None))):
            return (a, b)
        self.rz("TypeError", f"unsupported operand type(s) for {op}: {self.tname(a)} and {self.tname(b)}")

    def tname(self, v):
        if isinstance(v, Obj):
            return v.cls.name
        return {PyList: "list", PyDict: "dict", PySet: "set", SStr: "str", Arr: "ndarray"}.get(type(v), type(v).__name__ if not isinstance(v, Num) else v.kind)

    def cond_bit(self, op, a, b):
        if isinstance(a, bool):
            return (b if a else False) if op == "BitAnd" else (True if a else b)
        if isinstance(b, bool):
            return (a if b else False) if op == "BitAnd" else (True if b else a)
        if a == b:
            return a
        ks = ("and" if op == "BitAnd" else "or", a, b)
        return Cond("opaque", ks)

    def int_op(self, op, a, b):
        if op == "Add":
            return a + b
        if op == "Sub":
            return a - b
        if op == "Mult":
            return a * b
        if op == "Mod":
            if b == 0:
                self.rz("ZeroDivisionError", "modulo by zero")
            return a % b
        if op == "FloorDiv":
            if b == 0:
                self.rz("ZeroDivisionError", "division by zero")
            return a // b
        if op == "Div":
            if b == 0:
                self.rz("ZeroDivisionError", "division by zero")
            return Num(X.const(Fraction(a, b)), "float")
        if op == "Pow":
            if b < 0:
                if a == 0:
                    self.rz("ZeroDivisionError", "0 to a negative power")
                return Num(X.const(Fraction(a) ** b), "float")
            if b > 5000:
                self.unsup("huge power")
            return a ** b
        if op == "BitAnd":
            return a & b
        if op == "BitOr":
            return a | b
        if op == "BitXor":
            return a ^ b
        if op == "LShift":
            return a << b
        if op == "RShift":
            return a >> b
        self.rz("TypeError", op)

    def num_op(self, op, a, b):
        ka, kb = self.kind_of(a), self.kind_of(b)
        k = self.join_kind(ka, kb)
        ea, eb = self.e_of(a), self.e_of(b)
        try:
            e, k = self.e_op(op, ea, eb, k)
        except ZeroDivisionError:
            if k.startswith("np"):
                return Num(X.NAN if ea.is_zero() else X.INF, k)
            self.rz("ZeroDivisionError", "division by zero")
        except X.TooBig:
            return Num(X.opaque("big", X.const(hash((op, ea, eb)))), k)
        return mknum(e, k)

    def e_op(self, op, ea, eb, k):
        if op == "Add":
            return X.add(ea, eb), k
        if op == "Sub":
            return X.sub(ea, eb), k
        if op == "Mult":
            return X.mul(ea, eb), k
        if op == "Div":
            if k in ("int", "npint"):
                k = "float" if k == "int" else "npfloat"
            return X.div(ea, eb), k
        if op == "FloorDiv":
            return X.floorE(X.div(ea, eb)), k
        if op == "Mod":
            return X.sub(ea, X.mul(eb, X.floorE(X.div(ea, eb)))), k
        if op == "Pow":
            return self.e_pow(ea, eb, k)
        if op in ("BitAnd", "BitOr", "BitXor", "LShift", "RShift"):
            if ea.is_const() and eb.is_const() and k in ("int", "npint"):
                return X.const(self.int_op(op, int(ea.cval()), int(eb.cval()))), k
            if op == "BitAnd" and eb.is_const() and k == "int":
                v = int(eb.cval())
                if v >= 0 and (v & (v + 1)) == 0:  # x & (2^k-1) == x mod 2^k
                    return X.sub(ea, X.scale(X.floorE(X.scale(ea, Fraction(1, v + 1))), v + 1)), k
            if op == "RShift" and eb.is_const():
                return X.floorE(X.scale(ea, Fraction(1, 2 ** int(eb.cval())))), k
            if op == "LShift" and eb.is_const():
                return X.scale(ea, 2 ** int(eb.cval())), k
            if self.NUMKINDS[k] > 0:
                self.rz("TypeError", "bit operation on float")
            return X.opaque(op, ea, eb, integer=True), k
        self.unsup(f"numeric {op}")

    def e_pow(self, ea, eb, k):
        if eb.is_const():
            x = eb.cval()
            if k == "int" and x < 0:
                k = "float"
            if x.denominator != 1 and k in ("int", "npint"):
                k = "npfloat" if k == "npint" else "float"
            r = X.power(ea, x)
            return r, k
        if ea.is_const() and ea.cval() == -1 and X.is_integer(eb):
            return X.trig("cos", X.mul(X.PI, eb)), k
        if ea.is_const() and ea.cval() > 0 or ea.t == X.EULER.t:
            if ea.t == X.EULER.t:
                return X.fn("exp", eb), "float"
        if ea.is_const() and ea.cval() == 1:
            return X.ONE, k
        a = X._fn_atom("pow", (ea, eb))
        return X.atomE(a), k

    # ------------------------------------------------------------------ arrays
    def mkarr(self, data, shape, dtype, prov=None):
        n = 1
        for s in shape:
            n *= s
        assert n == len(data), (n, len(data))
        b = Buf(list(data), dtype, prov or self.prov(), self.epoch, self.loc())
        return Arr(b, list(range(n)), shape)

    def elem(self, a, i):
        v = a.buf.data[a.idx[i]]
        return self.el2v(v, a.dtype)

    def el2v(self, v, dtype):
        c = cat(dtype)
        if c == "float":
            return Num(v, "npfloat")
        if c == "int":
            return Num(v, "npint")
        if c == "complex":
            return Num(v, "npcomplex")
        return v

    def res_dtype(self, op, a, b):
        """result dtype for numpy arithmetic."""
        da = a.dtype if isinstance(a, Arr) else None
        db = b.dtype if isinstance(b, Arr) else None
        if da == "object" or db == "object":
            return "object"

        def scalar_cat(v):
            k = self.kind_of(v)
            if isinstance(v, (bool, Cond)):
                return "bool"
            return {0: "int", 1: "float", 2: "complex"}[self.NUMKINDS[k]]
        order = {"bool": 0, "int": 1, "float": 2, "complex": 3}
        ca = cat(da) if da else scalar_cat(a)
        cb = cat(db) if db else scalar_cat(b)
        m = max(order[ca], order[cb])
        if op == "Div" and m < 2:
            m = 2
        if m == 0:
            m = 0 if op in ("BitAnd", "BitOr", "BitXor", "Mult", "Add") and op in ("BitAnd", "BitOr", "BitXor") else 1
        if m == 1 and op != "Div":
            ds = [d for d, c in ((da, ca), (db, cb)) if d and c == "int"]
            if len(set(ds)) == 1:
                return ds[0]
            if ds:
                return "int64"
        if m == 2:
            ds = [d for d, c in ((da, ca), (db, cb)) if d and c == "float"]
            if len(set(ds)) == 1:
                return ds[0]
        return {0: "bool", 1: "int64", 2: "float64", 3: "complex128"}[m]

    def to_arr(self, v):
        if isinstance(v, Arr):
            return v
        if isinstance(v, (PyList, tuple)):
            return self.mod.asarray(self, v)
        if self.isnum(v):
            k = self.kind_of(v)
            dt = "bool" if isinstance(v, (bool, Cond)) else {0: "int64", 1: "float64", 2: "complex128"}[self.NUMKINDS[k]]
            return self.mkarr([v if dt == "bool" else self.e_of(v)], (), dt)
        return None

    def bshape(self, s1, s2):
        n = max(len(s1), len(s2))
        a = (1,) * (n - len(s1)) + tuple(s1)
        b = (1,) * (n - len(s2)) + tuple(s2)
        out = []
        for x, y in zip(a, b):
            if x == y or y == 1:
                out.append(x)
            elif x == 1:
                out.append(y)
            else:
                self.rz("ValueError", f"operands could not be broadcast together with shapes {s1} {s2}")
        return tuple(out)

    def bidx(self, shape, out):
        """indices into flattened `shape` for the broadcast to `out`."""
        n = len(out)
        s = (1,) * (n - len(shape)) + tuple(shape)
        strides = []
        st = 1
        for d in reversed(s):
            strides.append(0 if d == 1 else st)
            st *= d
        strides.reverse()
        res = [0]
        for d, stn in zip(out, strides):
            res = [r + stn * i for r in res for i in range(d)]
        return res

    def broadcast(self, arrs):
        out = ()
        for a in arrs:
            out = self.bshape(out, a.shape)
        res = []
        for a in arrs:
            e = a.elems()
            res.append([e[i] for i in self.bidx(a.shape, out)] if a.shape != out else e)
        return out, res

    def arr_binop(self, op, a, b):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque((op, self.skey_arr(a), self.skey_arr(b)))
        if a is None or b is None or isinstance(a, (str, SStr, Obj)) or isinstance(b, (str, SStr, Obj)):
            for x, y, pre in ((a, b, "__r"), (b, a, "__")):
                pass
            self.rz("TypeError", f"unsupported operand types for array {op}")
        if op == "MatMult":
            return self.mod.matmul(self, a, b)
        dt = None
        A, B = self.to_arr(a), self.to_arr(b)
        if A is None or B is None:
            self.rz("TypeError", "unsupported array operand")
        dt = self.res_dtype(op, a if self.isnum(a) else A, b if self.isnum(b) else B)
        shape, (ea, eb) = self.broadcast([A, B])
        if dt == "object":
            out = [self.binop(op, self.el2v(x, A.dtype), self.el2v(y, B.dtype)) for x, y in zip(ea, eb)]
            return self.mkarr(out, shape, "object")
        if dt == "bool" and op in ("BitAnd", "BitOr"):
            return self.mkarr([self.cond_bit(op, x, y) for x, y in zip(ea, eb)], shape, "bool")
        k = {"int": "npint", "float": "npfloat", "complex": "npcomplex", "bool": "npint"}[cat(dt)]
        out = []
        for x, y in zip(ea, eb):
            x, y = self.el2e(x), self.el2e(y)
            try:
                out.append(self.e_op(op, x, y, k)[0])
            except ZeroDivisionError:
                out.append(X.NAN if x.is_zero() else X.INF)
            except X.TooBig:
                out.append(X.opaque("big", X.const(hash((op, x, y)))))
        if shape == ():
            return self.el2v(out[0], dt)
        return self.mkarr(out, shape, dt)

    def skey_arr(self, v):
        if isinstance(v, Arr):
            return ("arr", v.shape, tuple(v.elems()) if v.dtype != "object" else id(v))
        return self.skey(v)

    def cast_el(self, v, dtype):
        """value -> element of an array with dtype."""
        c = cat(dtype)
        if c == "object":
            return v
        if isinstance(v, Arr):
            if len(v.idx) == 1:
                v = self.elem(v, 0)
            else:
                self.rz("ValueError", "setting an array element with a sequence.")
        if isinstance(v, (PyList, tuple)):
            self.rz("ValueError", "setting an array element with a sequence.")
        if isinstance(v, str):
            try:
                f = Fraction(v)
            except ValueError:
                self.rz("ValueError", f"could not convert string to float: '{v}'")
            return X.const(f)
        if isinstance(v, (Obj, Func)) or v is None:
            if v is None and c == "float":
                return X.NAN
            self.rz("TypeError", "float() argument must be a string or a real number")
        if c == "bool":
            if isinstance(v, (bool, Cond)):
                return v
            if isinstance(v, (int, Num)):
                e = self.e_of(v)
                if e.is_const():
                    return not e.is_zero()
                r = mkcond("eq", e)
                return (not r) if isinstance(r, bool) else r.negate()
        if isinstance(v, (Opaque, SStr)):
            return X.opaque("val", v)
        e = self.e_of(v)
        if c == "int":
            k = self.kind_of(v)
            if self.NUMKINDS[k] > 0:
                if self.NUMKINDS[k] == 2:
                    self.rz("TypeError", "cannot cast complex to int")
                e = X.fn("trunc", e)
            return e
        if c == "float" and self.NUMKINDS.get(self.kind_of(v), 0) == 2:
            if not X.is_real(e):
                self.rz("TypeError", "float() argument must be a real number, not 'complex'")
            return e
        return e

    def astype_el(self, x, src, dst):
        cs, cd = cat(src), cat(dst)
        if cd == "object":
            return self.el2v(x, src)
        if cs == "object":
            return self.cast_el(x, dst)
        if cs == cd:
            return x
        if cd == "bool":
            return self.cast_el(Num(self.el2e(x), "npfloat"), "bool")
        e = self.el2e(x)
        if cd == "int" and cs in ("float", "complex"):
            return X.fn("trunc", e)
        if cd == "float" and cs == "complex":
            return X.re(e)
        return e

    def norm_index(self, a, i):
        """Split index for array: returns (idx list, shape, is_copy)."""
        if not isinstance(i, tuple):
            i = (i,)
        # boolean / fancy
        if len(i) == 1 and isinstance(i[0], (Arr, PyList)) and not (isinstance(i[0], Arr) and i[0].shape == ()):
            ia = i[0] if isinstance(i[0], Arr) else self.mod.asarray(self, i[0])
            if ia.dtype == "bool":
                if ia.shape != a.shape[:len(ia.shape)]:
                    self.rz("IndexError", "boolean index did not match indexed array")
                inner = 1
                for s in a.shape[len(ia.shape):]:
                    inner *= s
                sel = []
                for k, c in enumerate(ia.elems()):
                    if self.truth(c):
                        sel += a.idx[k * inner:(k + 1) * inner]
                shp = (len(sel) // inner if inner else 0,) + a.shape[len(ia.shape):]
                return sel, shp, True
            if cat(ia.dtype) == "int" or len(ia.idx) == 0:
                inner = 1
                for s in a.shape[1:]:
                    inner *= s
                sel = []
                for k in range(len(ia.idx)):
                    p = self.as_int(self.elem(ia, k))
                    if p < 0:
                        p += a.shape[0]
                    if not 0 <= p < a.shape[0]:
                        self.rz("IndexError", "index out of bounds")
                    sel += a.idx[p * inner:(p + 1) * inner]
                return sel, ia.shape + a.shape[1:], True
            self.rz("IndexError", "arrays used as indices must be of integer (or boolean) type")
        if any(isinstance(x, (Arr, PyList)) and not (isinstance(x, Arr) and x.shape == ()) for x in i):
            # advanced indexing with several arrays of ints / mix with ints
            if all(isinstance(x, (Arr, PyList, int, Num)) for x in i) and len(i) == len(a.shape):
                arrs = [self.to_arr(x) for x in i]
                if any(x.dtype == "bool" for x in arrs):
                    self.unsup("mixed boolean index")
                shape, es = self.broadcast(arrs)
                sel = []
                for tup in zip(*es):
                    pos = 0
                    for d, e in zip(a.shape, tup):
                        p = self.as_int(Num(e, "npint"))
                        if p < 0:
                            p += d
                        if not 0 <= p < d:
                            self.rz("IndexError", "index out of bounds")
                        pos = pos * d + p
                    sel.append(a.idx[pos])
                return sel, shape, True
            if len(i) == len(a.shape) and sum(isinstance(x, (Arr, PyList)) for x in i) == 1:
                ax = [k for k, x in enumerate(i) if isinstance(x, (Arr, PyList))][0]
                ia = i[ax] if isinstance(i[ax], Arr) else self.mod.asarray(self, i[ax])
                if ia.dtype == "bool":
                    ps = [k for k, c in enumerate(ia.elems()) if self.truth(c)]
                else:
                    ps = [self.as_int(self.elem(ia, k)) for k in range(len(ia.idx))]
                cols = []
                for p in ps:
                    j = list(i)
                    j[ax] = p if p >= 0 else p + a.shape[ax]
                    cols.append(self.norm_index(a, tuple(j)))
                if ax == 0:
                    return [z for c in cols for z in c[0]], (len(ps),) + cols[0][1] if cols else (0,), True
                if ax == len(i) - 1 and cols:
                    n = len(cols[0][0])
                    return [c[0][k] for k in range(n) for c in cols], cols[0][1] + (len(ps),), True
            self.unsup("advanced indexing")
        if ELLIPSIS in i:
            k = i.index(ELLIPSIS)
            used = len([x for x in i if x is not None and x is not ELLIPSIS])
            i = i[:k] + (slice(None),) * (len(a.shape) - used) + i[k + 1:]
        nd = len([x for x in i if x is not None])
        if nd > len(a.shape):
            self.rz("IndexError", "too many indices for array")
        i = i + (slice(None),) * (len(a.shape) - nd)
        dims = []
        shp = []
        ax = 0
        for x in i:
            if x is None:
                shp.append(1)
                continue
            d = a.shape[ax]
            if isinstance(x, slice):
                r = list(range(d))[slice(self.opt_int(x.start), self.opt_int(x.stop), self.opt_int(x.step))]
                dims.append(r)
                shp.append(len(r))
            else:
                p = self.as_int(x) if not isinstance(x, (Num,)) or x.kind in ("int", "npint") else self.rz("IndexError", "only integers, slices are valid indices")
                if p < 0:
                    p += d
                if not 0 <= p < d:
                    self.rz("IndexError", f"index {p} is out of bounds for axis {ax} with size {d}")
                dims.append([p])
            ax += 1
        pos = [0]
        for d, r in zip(a.shape, dims):
            pos = [q * d + p for q in pos for p in r]
        return [a.idx[p] for p in pos], tuple(shp), False

    def arr_get(self, a, i):
        idx, shp, cp = self.norm_index(a, i)
        if shp == () and not any(x is ELLIPSIS for x in (i if isinstance(i, tuple) else (i,))):
            return self.el2v(a.buf.data[idx[0]], a.dtype)
        if cp:
            return self.mkarr([a.buf.data[k] for k in idx], shp, a.dtype)
        return Arr(a.buf, idx, shp)

    def arr_set(self, a, i, v):
        idx, shp, cp = self.norm_index(a, i)
        self.write(a, idx, shp, v)

    def write(self, a, idx, shp, v):
        self.touch(a.buf)
        dt = a.dtype
        if isinstance(v, (PyList, tuple)):
            v = self.mod.asarray(self, v) if dt != "object" or shp != () else v
        if isinstance(v, Arr) and (v.shape != () or dt != "object"):
            out = self.bshape(v.shape, shp)
            vs = v
            # leading ones in v may be dropped
            if out != tuple(shp):
                lead = v.shape
                while len(lead) > len(shp) and lead[0] == 1:
                    lead = lead[1:]
                if self.bshape(lead, shp) != tuple(shp):
                    self.rz("ValueError", f"could not broadcast input array from shape {v.shape} into shape {shp}")
                vs = Arr(v.buf, v.idx, lead)
            el = vs.elems()
            vals = [self.astype_el(el[k], v.dtype, dt) for k in self.bidx(vs.shape, tuple(shp))]
            if cat(dt) in ("float", "int") and cat(v.dtype) == "complex":
                self.event("warn", "ComplexWarning")
        else:
            c = self.cast_el(v, dt)
            vals = [c] * len(idx)
        d = a.buf.data
        for k, x in zip(idx, vals):
            d[k] = x

    def inplace(self, op, cur, v):
        op = type(op).__name__ if not isinstance(op, str) else op
        if isinstance(cur, Arr) and cur.shape != ():
            r = self.binop(op, cur, v)
            if isinstance(r, Arr):
                if r.shape != cur.shape:
                    self.rz("ValueError", f"non-broadcastable output operand with shape {cur.shape}")
                order = {"bool": 0, "int": 1, "float": 2, "complex": 3, "object": 4}
                if order[cat(r.dtype)] > order[cat(cur.dtype)]:
                    self.rz("TypeError", f"Cannot cast ufunc output from {r.dtype} to {cur.dtype}")
                self.write(cur, cur.idx, cur.shape, r)
                return cur
            return r
        if isinstance(cur, PyList) and op == "Add":
            xs = list(self.iter_of(v))
            self.touch(cur)
            cur.items.extend(xs)
            return cur
        if isinstance(cur, PyList) and op == "Mult":
            k = self.as_int(v)
            self.touch(cur)
            cur.items = cur.items * k
            return cur
        if isinstance(cur, PySet) and isinstance(v, PySet):
            r = self.binop(op, cur, v)
            self.touch(cur)
            cur.d = dict(r.d)
            return cur
        if isinstance(cur, PyDict) and op == "BitOr":
            self.touch(cur)
            cur.d.update(v.d)
            return cur
        if isinstance(cur, Obj):
            f = cur.cls.lookup({"Add": "__iadd__", "Sub": "__isub__", "Mult": "__imul__", "Div": "__itruediv__"}.get(op, "__none__"))
            if f is not None:
                return self.call(Bound(f, cur), [v], {})
        return self.binop(op, cur, v)

    # ------------------------------------------------------------------ comparison
    def compare(self, op, a, b):
        if op == "Is":
            return self.identical(a, b)
        if op == "IsNot":
            r = self.identical(a, b)
            return (not r) if isinstance(r, bool) else r.negate()
        if op == "In":
            return self.contains(b, a)
        if op == "NotIn":
            r = self.contains(b, a)
            return (not r) if isinstance(r, bool) else r.negate()
        if type(a) is int and type(b) is int:
            return self.pycmp(op, a, b)
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.arr_cmp(op, a, b)
        if self.isnum(a) and self.isnum(b):
            return self.numcmp(op, self.e_of(a), self.e_of(b))
        if isinstance(a, str) and isinstance(b, str):
            return self.pycmp(op, a, b)
        for x, y, o in ((a, b, op), (b, a, {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(op, op))):
            if isinstance(x, Obj):
                nm = {"Eq": "__eq__", "NotEq": "__ne__", "Lt": "__lt__", "Gt": "__gt__", "LtE": "__le__", "GtE": "__ge__"}[o]
                f = x.cls.lookup(nm)
                if f is not None:
                    r = self.call(Bound(f, x), [y], {})
                    if r is not NOTIMPL:
                        return r
                elif nm == "__ne__":
                    f = x.cls.lookup("__eq__")
                    if f is not None:
                        r = self.call(Bound(f, x), [y], {})
                        if r is not NOTIMPL:
                            return (not self.truth(r))
        if op in ("Eq", "NotEq"):
            r = self.eq(a, b)
            if op == "Eq":
                return r
            return (not r) if isinstance(r, bool) else r.negate()
        if isinstance(a, (tuple, PyList)) and isinstance(b, (tuple, PyList)):
            xa = list(a) if isinstance(a, tuple) else a.items
            xb = list(b) if isinstance(b, tuple) else b.items
            for x, y in zip(xa, xb):
                if not self.truth(self.compare("Eq", x, y)):
                    return self.compare(op, x, y)
            return self.pycmp(op, len(xa), len(xb))
        if isinstance(a, PySet) and isinstance(b, PySet):
            ka, kb = set(a.d), set(b.d)
            return self.pycmp(op, ka, kb)
        if isinstance(a, Opaque) or isinstance(b, Opaque) or isinstance(a, SStr) or isinstance(b, SStr):
            return Cond("opaque", (op, self.skey(a), self.skey(b)))
        if isinstance(a, ExtObj) or isinstance(b, ExtObj):
            return Cond("opaque", (op, self.skey(a), self.skey(b)))
        self.rz("TypeError", f"'{op}' not supported between instances of {self.tname(a)} and {self.tname(b)}")

    def pycmp(self, op, a, b):
        if op == "Eq":
            return a == b
        if op == "NotEq":
            return a != b
        if op == "Lt":
            return a < b
        if op == "LtE":
            return a <= b
        if op == "Gt":
            return a > b
        return a >= b

    def numcmp(self, op, ea, eb):
        # infinities
        for x, y, o in ((ea, eb, op), (eb, ea, {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(op, op))):
            if x.t == X.NAN.t:
                return op == "NotEq"
        if op in ("Eq", "NotEq"):
            d = X.sub(ea, eb)
            if d.is_zero():
                r = True
            elif not X.is_real(d):
                r = Cond("eq", X._content(d)[1]) if not X.is_constant(d) else False
            else:
                r = mkcond("eq", d)
            if op == "Eq":
                return r
            return (not r) if isinstance(r, bool) else r.negate()
        if not X.is_real(ea) or not X.is_real(eb):
            self.rz("TypeError", "ordering of complex numbers")
        if op == "Lt":
            return mkcond("lt", X.sub(ea, eb))
        if op == "LtE":
            return mkcond("le", X.sub(ea, eb))
        if op == "Gt":
            return mkcond("lt", X.sub(eb, ea))
        return mkcond("le", X.sub(eb, ea))

    def arr_cmp(self, op, a, b):
        if op in ("Eq", "NotEq") and (a is None or b is None or isinstance(a, str) or isinstance(b, str)):
            v = a if isinstance(a, Arr) else b
            return self.mkarr([op == "NotEq"] * len(v.idx), v.shape, "bool")
        A, B = self.to_arr(a), self.to_arr(b)
        if A is None or B is None:
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                return Opaque((op, self.skey_arr(a), self.skey_arr(b)))
            self.rz("TypeError", "array comparison")
        shape, (ea, eb) = self.broadcast([A, B])
        if A.dtype == "object" or B.dtype == "object":
            out = [self.compare(op, self.el2v(x, A.dtype), self.el2v(y, B.dtype)) for x, y in zip(ea, eb)]
        else:
            out = [self.numcmp(op, self.el2e(x), self.el2e(y)) for x, y in zip(ea, eb)]
        if shape == ():
            return out[0]
        return self.mkarr(out, shape, "bool")

    def identical(self, a, b):
        if a is b:
            return True
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            o = b if (a is None or isinstance(a, bool)) else a
            if isinstance(o, (Opaque,)):
                return Cond("opaque", ("is", self.skey(a), self.skey(b)))
            if isinstance(o, Cond) and not (a is None or b is None):
                t = a if isinstance(a, bool) else b
                return o if t else o.negate()
            return False
        if isinstance(a, Bound) and isinstance(b, Bound):
            return a.f is b.f and a.self_ is b.self_
        if isinstance(a, (ExtRef, Builtin, ExcT)):
            return a == b
        if isinstance(a, (int, str)) and isinstance(b, (int, str)):
            return a == b
        if isinstance(a, Arr) and isinstance(b, Arr):
            return a.buf is b.buf and a.idx == b.idx and a.shape == b.shape
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return a == b if a == b else Cond("opaque", ("is", self.skey(a), self.skey(b)))
        return False

    def eq(self, a, b):
        if a is b:
            return True
        if self.isnum(a) and self.isnum(b):
            return self.numcmp("Eq", self.e_of(a), self.e_of(b))
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
            if a == b:
                return True
            sa = a.parts if isinstance(a, SStr) else (a,)
            sb = b.parts if isinstance(b, SStr) else (b,)
            if sa and sb and isinstance(sa[0], str) and isinstance(sb[0], str):
                n = min(len(sa[0]), len(sb[0]))
                if sa[0][:n] != sb[0][:n]:
                    return False
            return Cond("opaque", ("streq", self.skey(a), self.skey(b)))
        if (isinstance(a, tuple) and isinstance(b, tuple)) or (isinstance(a, PyList) and isinstance(b, PyList)):
            xa = a if isinstance(a, tuple) else a.items
            xb = b if isinstance(b, tuple) else b.items
            if len(xa) != len(xb):
                return False
            for x, y in zip(xa, xb):
                if not self.truth(self.compare("Eq", x, y)):
                    return False
            return True
        if isinstance(a, PyDict) and isinstance(b, PyDict):
            if set(a.d) != set(b.d):
                return False
            return all(self.truth(self.compare("Eq", a.d[k][1], b.d[k][1])) for k in a.d)
        if isinstance(a, PySet) and isinstance(b, PySet):
            return set(a.d) == set(b.d)
        if isinstance(a, RangeV) and isinstance(b, RangeV):
            return a.r == b.r
        if isinstance(a, (ExtRef, Builtin, ExcT, str)) and isinstance(b, (ExtRef, Builtin, ExcT, str)):
            da, db = self.mod.dtype_name(a), self.mod.dtype_name(b)
            if da and db and not (isinstance(a, str) and isinstance(b, str)):
                return da == db
            return a == b
        if isinstance(a, ExtObj) and isinstance(b, ExtObj):
            return self.mod.ext_eq(self, a, b)
        if isinstance(a, ExtObj) or isinstance(b, ExtObj):
            return self.mod.ext_eq(self, a, b)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if a == b:
                return True
            return Cond("opaque", ("eq", self.skey(a), self.skey(b)))
        if isinstance(a, Exc) or isinstance(b, Exc):
            return False
        return False

    def contains(self, c, x):
        if isinstance(c, str):
            if isinstance(x, str):
                return x in c
            if isinstance(x, SStr):
                return Cond("opaque", ("in", x, c))
            self.rz("TypeError", "'in <string>' requires string as left operand")
        if isinstance(c, SStr):
            if isinstance(x, str) and any(isinstance(p, str) and x in p for p in c.parts):
                return True
            return Cond("opaque", ("in", self.skey(x), c))
        if isinstance(c, PyDict) or isinstance(c, PySet):
            k = self.hkey(x)
            if k in c.d:
                return True
            # symbolic keys may still be equal
            for kk in c.d:
                if self.may_eq(k, kk):
                    v = c.d[kk][0] if isinstance(c, PyDict) else c.d[kk]
                    if self.truth(self.compare("Eq", x, v)):
                        return True
            return False
        if isinstance(c, RangeV) and isinstance(x, int):
            return x in c.r
        if isinstance(c, Obj):
            f = c.cls.lookup("__contains__")
            if f is not None:
                return self.call(Bound(f, c), [x], {})
        if isinstance(c, RangeV) and isinstance(x, Num) and not x.e.is_const() and c.r.step == 1 and X.is_integer(x.e):
            if not self.truth(self.compare("GtE", x, c.r.start)):
                return False
            return self.compare("Lt", x, c.r.stop)
        plain = self.plain(x)
        for v in self.iter_of(c):
            if plain and type(v) is type(x) and self.plain(v):
                if v == x:
                    return True
                continue
            if v is x or self.truth(self.compare("Eq", v, x)):
                return True
        return False

    @staticmethod
    def plain(x):
        t = type(x)
        return t is int or t is str or (t is tuple and all(type(y) is int or type(y) is str for y in x))

    def may_eq(self, k1, k2):
        """Could keys which aren't structurally equal be equal for some valuation of symbols?"""
        if isinstance(k1, tuple) and isinstance(k2, tuple) and k1 and k2 and k1[0] == k2[0]:
            if k1[0] == "n":
                d = X.sub(k1[1], k2[1])
                if not X.is_real(d):
                    return False
                c = mkcond("eq", d)
                return c is not False
            if k1[0] == "t":
                return len(k1) == len(k2) and all(x == y or self.may_eq(x, y) for x, y in zip(k1[1:], k2[1:]))
        return False

    # ------------------------------------------------------------------ subscripts
    def getitem(self, o, i):
        if isinstance(o, (tuple, PyList)):
            xs = o if isinstance(o, tuple) else o.items
            if isinstance(i, slice):
                r = xs[i]
                return r if isinstance(o, tuple) else self.mklist(r)
            k = self.as_int(i)
            try:
                return xs[k]
            except IndexError:
                self.rz("IndexError", "index out of range")
        if isinstance(o, PyDict):
            k = self.hkey(i)
            if k in o.d:
                return o.d[k][1]
            for kk in list(o.d):
                if self.may_eq(k, kk) and self.truth(self.compare("Eq", i, o.d[kk][0])):
                    return o.d[kk][1]
            df = getattr(o, "default", None)
            self.rz("KeyError", i)
        if isinstance(o, Arr):
            return self.arr_get(o, i)
        if isinstance(o, str):
            try:
                return o[i if isinstance(i, slice) else self.as_int(i)]
            except IndexError:
                self.rz("IndexError", "string index out of range")
        if isinstance(o, RangeV):
            try:
                r = o.r[i if isinstance(i, slice) else self.as_int(i)]
            except IndexError:
                self.rz("IndexError", "range index")
            return RangeV(r) if isinstance(r, range) else r
        if isinstance(o, Obj):
            f = o.cls.lookup("__getitem__")
            if f is not None:
                return self.call(Bound(f, o), [i], {})
        if isinstance(o, (ExtRef, Builtin, ClassV)):   # typing subscripts
            return self.mod.ext_getitem(self, o, i)
        if isinstance(o, ExtObj):
            return self.mod.ext_getitem(self, o, i)
        if isinstance(o, Opaque):
            return Opaque(("item", o.key, self.skey_any(i)))
        if isinstance(o, SStr):
            return Opaque(("item", o, self.skey_any(i)))
        self.rz("TypeError", f"'{self.tname(o)}' object is not subscriptable")

    def skey_any(self, i):
        if isinstance(i, slice):
            return ("slice", i.start, i.stop, i.step)
        if isinstance(i, tuple):
            return tuple(self.skey_any(x) for x in i)
        return self.skey(i)

    def setitem(self, o, i, v):
        if isinstance(o, PyList):
            if isinstance(i, slice):
                xs = list(self.iter_of(v))
                self.touch(o)
                o.items[i] = xs
                return
            k = self.as_int(i)
            if not -len(o.items) <= k < len(o.items):
                self.rz("IndexError", "list assignment index out of range")
            self.touch(o)
            o.items[k] = v
            return
        if isinstance(o, PyDict):
            k = self.hkey(i)
            self.touch(o)
            o.d[k] = (o.d[k][0] if k in o.d else i, v)
            return
        if isinstance(o, Arr):
            self.arr_set(o, i, v)
            return
        if isinstance(o, Obj):
            f = o.cls.lookup("__setitem__")
            if f is not None:
                self.call(Bound(f, o), [i, v], {})
                return
        if isinstance(o, (tuple, str)):
            self.rz("TypeError", "object does not support item assignment")
        if isinstance(o, ExtObj):
            self.event("extset", o.typ, i)
            return
        self.unsup(f"item assignment to {self.tname(o)}")

    # ------------------------------------------------------------------ attributes
    def ext_attr(self, m, name):
        full = m.name + "." + name
        return self.mod.ext_value(self, full)

    def getattr(self, o, name):
        if isinstance(o, Obj):
            if name in o.attrs:
                return o.attrs[name]
            v = o.cls.lookup(name)
            if v is not None or any(name in c.attrs for c in o.cls.mro()):
                return self.bind_attr(v, o, o.cls)
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return self.mkdict(list(o.attrs.items()))
            g = o.cls.lookup("__getattr__")
            if g is not None:
                return self.call(Bound(g, o), [name], {})
            if o.cls.ext_bases() and any(isinstance(b, ExtRef) for b in o.cls.ext_bases()):
                return Meth(o, name)
            raise PyRaise(self.mkexc("AttributeError", f"'{o.cls.name}' object has no attribute '{name}'"))
        if isinstance(o, ExtRef):
            return self.ext_attr(o, name)
        if isinstance(o, ModuleV):
            if name in o.vars:
                return o.vars[name]
            sub = o.name + "." + name
            if sub in self.modules:
                return self.modules[sub]
            self.rz("AttributeError", f"module {o.name} has no attribute {name}")
        if isinstance(o, ClassV):
            for c in o.mro():
                if name in c.attrs:
                    v = c.attrs[name]
                    if isinstance(v, StaticM):
                        return v.f
                    if isinstance(v, ClassM):
                        return Bound(v.f, o)
                    return v
            if name in ("__name__", "__qualname__"):
                return o.name
            if name == "__init__":
                return Builtin("object_init")
            self.rz("AttributeError", f"type object '{o.name}' has no attribute '{name}'")
        if isinstance(o, NT):
            if name in o.nt.fields:
                return o[o.nt.fields.index(name)]
            return Meth(o, name)
        if isinstance(o, Arr):
            return self.mod.arr_attr(self, o, name)
        if isinstance(o, (Num, int)) and not isinstance(o, bool):
            if name == "real":
                return mknum(X.re(self.e_of(o)), {2: "float"}.get(self.NUMKINDS[self.kind_of(o)], self.kind_of(o)) if not self.kind_of(o).startswith("np") else "npfloat")
            if name == "imag":
                return Num(X.im(self.e_of(o)), "float")
            if isinstance(o, Num) and o.kind.startswith("np"):
                if name in ("shape", ):
                    return ()
                if name == "ndim":
                    return 0
                if name == "size":
                    return 1
                if name == "dtype":
                    return ExtObj("dtype", name={"npint": "int64", "npfloat": "float64", "npcomplex": "complex128"}[o.kind])
                return Meth(o, name)
            if name in ("conjugate", "is_integer", "bit_length", "as_integer_ratio", "hex", "__str__", "__abs__", "__float__", "__int__", "__round__", "__index__"):
                return Meth(o, name)
            self.rz("AttributeError", f"number has no attribute {name}")
        if isinstance(o, Exc):
            if name == "args":
                return tuple(o.args)
            if name in o.attrs:
                return o.attrs[name]
            if isinstance(o.cls, ClassV):
                v = o.cls.lookup(name)
                if v is not None:
                    return self.bind_attr(v, o, o.cls)
            return Meth(o, name)
        if isinstance(o, Func):
            if name == "__name__":
                return o.name
            if name in o.attrs:
                return o.attrs[name]
            if name in ("cache_clear", "cache_info", "__wrapped__", "py_func", "__doc__", "__module__", "__dict__"):
                if name in ("__wrapped__", "py_func"):
                    g = Func(o.name, o.node, o.env, o.module, o.defaults, o.kwdefaults, o.clsname, o.qual)
                    g.locals_, g.isgen, g.owner = o.locals_, o.isgen, o.owner
                    return g
                return Meth(o, name)
            self.rz("AttributeError", f"function has no attribute {name}")
        if isinstance(o, Prop):
            return Meth(o, name)
        if isinstance(o, ExtObj):
            return self.mod.ext_getattr(self, o, name)
        if isinstance(o, Opaque):
            return Opaque(("attr", o.key, name))
        if isinstance(o, (PyList, PyDict, PySet, str, SStr, tuple, PyIter, RangeV)):
            if name.startswith("__") and name.endswith("__") and name not in ("__len__", "__getitem__", "__contains__", "__iter__", "__class__"):
                self.rz("AttributeError", name)
            if not self.has_method(o, name):
                self.rz("AttributeError", f"'{self.tname(o)}' object has no attribute '{name}'")
            return Meth(o, name)
        if isinstance(o, (Builtin,)):
            return ExtRef("builtins." + o.name + "." + name) if name != "__name__" else o.name
        if isinstance(o, ExcT):
            if name == "__name__":
                return o.t.__name__
            return ExtRef("builtins." + o.t.__name__ + "." + name)
        if isinstance(o, NTType):
            if name == "_fields":
                return tuple(o.fields)
            return Meth(o, name)
        if isinstance(o, Bound):
            return self.getattr(o.f, name)
        if o is None or isinstance(o, (bool, Cond)):
            if isinstance(o, Cond) or (isinstance(o, bool) and name in ("any", "all", "astype")):
                return Meth(o, name)
            self.rz("AttributeError", f"'{'NoneType' if o is None else 'bool'}' object has no attribute '{name}'")
        if isinstance(o, slice):
            return getattr(o, name)
        self.unsup(f"attribute {name} of {type(o).__name__}")

    def has_method(self, o, name):
        t = {PyList: list, PyDict: dict, PySet: set, str: str, SStr: str, RangeV: range}.get(type(o))
        if isinstance(o, tuple):
            t = tuple
        if isinstance(o, PyIter):
            return name in ("__next__", "__iter__", "close", "send")
        return hasattr(t, name)

    def bind_attr(self, v, o, cls):
        if isinstance(v, Func):
            return Bound(v, o)
        if isinstance(v, StaticM):
            return v.f
        if isinstance(v, ClassM):
            return Bound(v.f, cls)
        if isinstance(v, Prop):
            return self.call(Bound(v.fget, o), [], {}) if isinstance(v.fget, Func) else self.call(v.fget, [o], {})
        return v

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            p = o.cls.lookup(name)
            if isinstance(p, Prop):
                if p.fset is None:
                    self.rz("AttributeError", f"property {name} has no setter")
                self.call(Bound(p.fset, o), [v], {})
                return
            f = o.cls.lookup("__setattr__")
            if f is not None:
                self.call(Bound(f, o), [name, v], {})
                return
            self.touch(o)
            o.attrs[name] = v
            return
        if isinstance(o, ClassV):
            self.touch(o)
            self.event("setclass", o.name, name)
            o.attrs[name] = v
            return
        if isinstance(o, ModuleV):
            self.touch(o)
            o.vars[name] = v
            return
        if isinstance(o, Func):
            self.touch(o)
            o.attrs[name] = v
            return
        if isinstance(o, Exc):
            o.attrs[name] = v
            return
        if isinstance(o, Arr) and name == "shape":
            shp = tuple(self.as_int(x) for x in (v if isinstance(v, tuple) else (v,)))
            o.shape = shp
            return
        if isinstance(o, (ExtObj, Opaque, ExtRef)):
            self.event("extset", str(o), name)
            return
        if isinstance(o, NT):
            self.rz("AttributeError", "can't set attribute")
        self.rz("AttributeError", f"cannot set {name} on {self.tname(o)}")

    # ------------------------------------------------------------------ types
    def isinst(self, v, t):
        if isinstance(t, tuple):
            return any(self.truth(self.isinst(v, x)) for x in t)
        if isinstance(t, PyList):
            self.rz("TypeError", "isinstance() arg 2 must be a type")
        if isinstance(v, Opaque) and v.typ is None:
            return Cond("opaque", ("isinstance", v.key, str(t)))
        if isinstance(t, ClassV):
            if isinstance(v, Obj):
                return t in v.cls.mro()
            if isinstance(v, Exc) and isinstance(v.cls, ClassV):
                return t in v.cls.mro()
            return False
        if isinstance(t, NTType):
            return isinstance(v, NT) and v.nt is t
        if isinstance(t, ExcT):
            return isinstance(v, Exc) and issubclass(v.pytype(), t.t)
        if isinstance(t, Builtin):
            n = t.name
            if n == "object":
                return True
            if n == "bool":
                return isinstance(v, (bool, Cond))
            if n == "int":
                return isinstance(v, (bool, int, Cond)) or (isinstance(v, Num) and v.kind == "int")
            if n == "float":
                return isinstance(v, Num) and v.kind in ("float", "npfloat")
            if n == "complex":
                return isinstance(v, Num) and v.kind in ("complex", "npcomplex")
            if n == "str":
                return isinstance(v, (str, SStr))
            if n == "list":
                return isinstance(v, PyList)
            if n == "tuple":
                return isinstance(v, tuple)
            if n == "dict":
                return isinstance(v, PyDict)
            if n == "set":
                return isinstance(v, PySet) and not v.frozen
            if n == "frozenset":
                return isinstance(v, PySet) and v.frozen
            if n == "range":
                return isinstance(v, RangeV)
            if n == "type":
                return isinstance(v, (ClassV, ExcT)) or (isinstance(v, Builtin) and v.name in BUILTIN_TYPES)
            if n == "bytes":
                return isinstance(v, bytes)
            return False
        if isinstance(t, ExtRef):
            return self.mod.isinst_ext(self, v, t.name)
        if t is None:
            return v is None
        if isinstance(t, Opaque):
            return Cond("opaque", ("isinstance", self.skey(v), t.key))
        self.rz("TypeError", "isinstance() arg 2 must be a type or tuple of types")

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kwargs):
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs)
        if isinstance(f, Bound):
            g = f.f
            if isinstance(g, Func):
                return self.call_func(g, [f.self_] + list(args), kwargs)
            if isinstance(g, (StaticM,)):
                return self.call(g.f, args, kwargs)
            return self.call(g, [f.self_] + list(args), kwargs)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Builtin):
            fn_ = self.models.get("builtins." + f.name)
            if fn_ is None:
                self.unsup(f"builtin {f.name}")
            return fn_(self, args, kwargs)
        if isinstance(f, ExtRef):
            return self.call_ext(f.name, args, kwargs)
        if isinstance(f, Meth):
            return self.mod.call_method(self, f.obj, f.name, args, kwargs)
        if isinstance(f, ExcT):
            return Exc(f, tuple(args), self.loc())
        if isinstance(f, NTType):
            return self.mod.make_nt(self, f, args, kwargs)
        if isinstance(f, Obj):
            g = f.cls.lookup("__call__")
            if g is not None:
                return self.call(Bound(g, f), args, kwargs)
            self.rz("TypeError", f"'{f.cls.name}' object is not callable")
        if isinstance(f, ExtObj):
            return self.mod.call_extobj(self, f, args, kwargs)
        if isinstance(f, StaticM):
            return self.call(f.f, args, kwargs)
        if isinstance(f, Opaque):
            self.event("opaquecall", f.key, list(args), dict(kwargs))
            r = self.mod.opaque_result(self, f, args, kwargs)
            if r is not NOTIMPL:
                return r
            return Opaque(("call", f.key, tuple(self.skey_arr(a) for a in args), tuple(sorted((k, self.skey_arr(v)) for k, v in kwargs.items()))))
        self.rz("TypeError", f"'{self.tname(f)}' object is not callable")

    def call_ext(self, name, args, kwargs):
        h = self.ext_hooks.get(name)
        if h is not None:
            return h(self, args, kwargs)
        m = self.models.get(name)
        if m is not None:
            return m(self, args, kwargs)
        return self.mod.unknown_call(self, name, args, kwargs)

    def instantiate(self, cls, args, kwargs):
        h = self.call_hooks.get(cls.name)
        if h is not None:
            r = h(self, cls, args, kwargs)
            if r is not NOTIMPL:
                return r
        if any(isinstance(b, ExcT) for b in cls.ext_bases()):
            e = Exc(cls, tuple(args), self.loc())
            init = cls.lookup("__init__")
            if init is not None:
                o = e
                self.call_func(init, [o] + list(args), kwargs)
            return e
        o = Obj(cls, "local", self.epoch, self.loc())
        if self.cur_prov:
            o.prov = self.cur_prov
        init = cls.lookup("__init__")
        new = cls.lookup("__new__")
        if new is not None:
            nf = new.f if isinstance(new, StaticM) else new
            o = self.call_func(nf, [cls] + list(args), kwargs)
            if not isinstance(o, Obj):
                return o
        if init is not None:
            # construction itself isn't a mutation of shared state
            saved = o.prov
            o.prov = "local"
            try:
                self.call_func(init, [o] + list(args), kwargs)
            finally:
                o.prov = saved
        elif cls.dataclass:
            ann = []
            for c in reversed(cls.mro()):
                ann += [a for a in c.attrs.get("__annotations_order__", []) if a not in ann]
            vals = dict(zip(ann, args))
            if len(args) > len(ann):
                self.rz("TypeError", f"{cls.name}() takes {len(ann)} arguments")
            for k, v in kwargs.items():
                if k not in ann or k in vals:
                    self.rz("TypeError", f"{cls.name}() got unexpected argument {k}")
                vals[k] = v
            for a in ann:
                if a in vals:
                    o.attrs[a] = vals[a]
                else:
                    d = cls.lookup(a)
                    if d is None and not any(a in c.attrs for c in cls.mro()):
                        self.rz("TypeError", f"{cls.name}() missing argument {a}")
                    if isinstance(d, ExtObj) and d.typ == "field":
                        if d.data.get("default_factory") is not None:
                            d = self.call(d.data["default_factory"], [], {})
                        else:
                            d = d.data.get("default")
                    o.attrs[a] = d
            pi = cls.lookup("__post_init__")
            if pi is not None:
                self.call(Bound(pi, o), [], {})
        elif (args or kwargs) and new is None and not cls.ext_bases():
            self.rz("TypeError", f"{cls.name}() takes no arguments")
        return o

    def bind(self, f, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        if len(args) > len(names):
            if a.vararg is None:
                self.rz("TypeError", f"{f.qual}() takes {len(names)} positional arguments but {len(args)} were given")
            vals[a.vararg.arg] = tuple(args[len(names):])
        elif a.vararg is not None:
            vals[a.vararg.arg] = ()
        for n, v in zip(names, args):
            vals[n] = v
        kwonly = [x.arg for x in a.kwonlyargs]
        posonly = {x.arg for x in a.posonlyargs}
        extra = {}
        for k, v in kwargs.items():
            if (k in names and k not in posonly) or k in kwonly:
                if k in vals:
                    self.rz("TypeError", f"{f.qual}() got multiple values for argument '{k}'")
                vals[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                self.rz("TypeError", f"{f.qual}() got an unexpected keyword argument '{k}'")
        if a.kwarg is not None:
            vals[a.kwarg.arg] = self.mkdict(list(extra.items()))
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n not in vals:
                j = i - (len(names) - nd)
                if j >= 0:
                    vals[n] = f.defaults[j]
                else:
                    self.rz("TypeError", f"{f.qual}() missing required argument '{n}'")
        for n in kwonly:
            if n not in vals:
                if n in f.kwdefaults:
                    vals[n] = f.kwdefaults[n]
                else:
                    self.rz("TypeError", f"{f.qual}() missing keyword-only argument '{n}'")
        return vals

    PURE_BUILTINS = {"abs", "min", "max", "round", "range", "len", "int", "divmod", "sum", "pow", "bool", "float"}

    def is_pure(self, f):
        if f.pure is None:
            ok = not f.isgen and f.cache is None
            for n in ast.walk(f.node):
                if isinstance(n, (ast.Global, ast.Nonlocal, ast.Yield, ast.Try, ast.Raise, ast.Import, ast.ImportFrom, ast.FunctionDef, ast.Lambda)) and n is not f.node:
                    ok = False
                elif isinstance(n, ast.Attribute):
                    if not (isinstance(n.value, ast.Name) and isinstance(n.ctx, ast.Load) and isinstance(f.module.vars.get(n.value.id), ExtRef)
                            and f.module.vars[n.value.id].name in ("numpy", "math")):
                        ok = False
                elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
                    ok = False
                elif isinstance(n, ast.Call):
                    if isinstance(n.func, ast.Name):
                        if n.func.id not in self.PURE_BUILTINS or n.func.id in f.module.vars:
                            ok = False
                    elif not isinstance(n.func, ast.Attribute):
                        ok = False
                elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                    if n.id not in f.locals_[0] and n.id not in self.PURE_BUILTINS and not isinstance(f.module.vars.get(n.id), (ExtRef, int, Num, str)):
                        ok = False
                elif isinstance(n, (ast.AnnAssign,)):
                    pass
            # annotations mention types only
            f.pure = ok
        return f.pure

    def call_func(self, f, args, kwargs):
        h = self.call_hooks.get(f.qual) or self.call_hooks.get(f.name)
        if h is not None:
            r = h(self, f, args, kwargs)
            if r is not NOTIMPL:
                return r
        vals = self.bind(f, args, kwargs)
        memo_key = None
        if all(type(v) is int for v in vals.values()):
            pure = f.pure
            if pure is None:
                pure = self.is_pure_ann(f)
            if pure:
                memo_key = (id(f), tuple(vals.items()))
                if memo_key in self.purememo:
                    return self.purememo[memo_key]
        if f.cache is not None:
            ck = (tuple(self.hkey(x) for x in args), tuple(sorted((k, self.hkey(v)) for k, v in kwargs.items())))
            if ck in f.cache:
                return f.cache[ck]
        if self.frames:
            self.calls_seen.add((self.frames[-1].file, self.frames[-1].line, f.qual))
        rec = self.recursive.get(f)
        active = f in self.recursion
        if rec is None and active:
            rec = self.recursive[f] = {"memo": {}, "gver": self.gver}
        rkey = None
        if rec is not None and not f.isgen and f.cache is None:
            # value summary of a recursive function, valid while no earlier state was changed
            rkey = self.rec_key(vals)
            if rkey is not None:
                if rec["gver"] != self.gver:
                    rec["memo"].clear()
                    rec["gver"] = self.gver
                hit = rec["memo"].get(rkey)
                if hit is not None:
                    h = hit[0]
                    if isinstance(h, Arr):
                        return self.mkarr(list(h.elems()), h.shape, h.dtype)
                    return h
            before = (self.gver, len(self.events), len(self.pathconds))
            bufs = [v.buf for v in vals.values() if isinstance(v, Arr)]
        if not active:
            self.recursion[f] = True
        try:
            r = self._activate(f, vals)
        finally:
            if not active:
                del self.recursion[f]
        if rkey is not None and before == (self.gver, len(self.events), len(self.pathconds)) and not self.pathconds:
            if isinstance(r, (int, Num, str)) or (isinstance(r, Arr) and not any(
                    b is r.buf for b in bufs)):
                rec["memo"][rkey] = (r,)
        if memo_key is not None and (isinstance(r, (int, Num, str)) or r is None):
            self.purememo[memo_key] = r
        if f.cache is not None:
            self.touch(f)
            f.cache[ck] = r
            self.mark_prov(r, "cached:" + f.qual)
        return r

    def rec_key(self, vals):
        k = []
        for v in vals.values():
            if isinstance(v, (bool, int, str)) or v is None:
                k.append((type(v).__name__, v))
            elif isinstance(v, Num):
                k.append((v.kind, v.e))
            elif isinstance(v, tuple) and all(type(x) is int for x in v):
                k.append(("t",) + v)
            elif isinstance(v, Arr) and v.dtype != "object":
                k.append(("a", v.shape, v.dtype, tuple(v.elems())))
            else:
                return None
        try:
            hash(tuple(k))
        except TypeError:
            return None
        return tuple(k)

    def _activate(self, f, vals):
        fl = self.relfile(f.module)
        self.funcs_seen[f.qual] = fl
        if len(self.frames) > 400:
            self.rz("RecursionError", "maximum recursion depth exceeded")
        cell = Cell(f.env, f.module, f)
        cell.vars = vals
        self.frames.append(Frame(fl, f.qual, f.node.lineno))
        saved = self.cur_prov
        self.cur_prov = None
        try:
            if isinstance(f.node, ast.Lambda):
                r = self.eval(f.node.body, cell)
            elif f.isgen:
                self.yields.append([])
                try:
                    self.block(f.node.body, cell)
                except RetEx:
                    pass
                r = PyIter(self.yields.pop())
            else:
                r = None
                try:
                    self.block(f.node.body, cell)
                except RetEx as ret:
                    r = ret.v
        finally:
            self.frames.pop()
            self.cur_prov = saved
        return r

    def is_pure_ann(self, f):
        if isinstance(f.node, ast.Lambda):
            f.pure = False
            return False
        # ignore annotations / decorators / docstrings while scanning
        import copy
        node = f.node
        clone = ast.Module(body=node.body, type_ignores=[])
        saved = f.node
        try:
            f.node = clone
            return self.is_pure(f)
        finally:
            f.node = saved

    def mark_prov(self, v, prov, seen=None):
        seen = seen if seen is not None else set()
        if id(v) in seen:
            return
        seen.add(id(v))
        if isinstance(v, PyList):
            v.prov = prov
            for x in v.items:
                self.mark_prov(x, prov, seen)
        elif isinstance(v, PyDict):
            v.prov = prov
            for _, x in v.d.values():
                self.mark_prov(x, prov, seen)
        elif isinstance(v, PySet):
            v.prov = prov
        elif isinstance(v, tuple):
            for x in v:
                self.mark_prov(x, prov, seen)
        elif isinstance(v, Arr):
            v.buf.prov = prov
            if v.dtype == "object":
                for x in v.elems():
                    self.mark_prov(x, prov, seen)
        elif isinstance(v, Obj):
            v.prov = prov
            for x in v.attrs.values():
                self.mark_prov(x, prov, seen)


class Path:
    """Result of one abstract trace."""

    def __init__(self):
        self.result = None
        self.exc = None
        self.error = None
        self.events = []
        self.conds = []
        self.over = None
        self.last = None

    def outcome(self):
        if self.error:
            return "undecided"
        return "raise:" + self.exc.name if self.exc else "return"

    def warns(self):
        return [e for e in self.events if e.kind == "warn"]

    def __repr__(self):
        return f"<{self.outcome()} {self.result if not self.exc else self.exc!r} if {self.conds}>"


def explore(it, fn, max_paths=64, keep_state=False):
    """All traces of fn(it) (a driver calling the analysed code). State is rolled back after every trace."""
    paths = []
    todo = [[]]
    while todo:
        prefix = todo.pop()
        it.checkpoint()
        it.oracle = Oracle(prefix)
        it.facts = {}
        it.pathconds = []
        X.OVER.clear()
        X.LINOVER.clear()
        it.counter = 0
        ne = len(it.events)
        it.exc_stack = []
        it.yields = []
        nframes = len(it.frames)
        p = Path()
        drop = False
        fs0 = dict(it.fs)
        try:
            p.result = fn(it)
        except PyRaise as e:
            p.exc = e.exc
        except Infeasible:
            drop = True
        except (Unsupported, Limit, X.TooBig) as e:
            p.error = f"{type(e).__name__}: {e}"
        except RecursionError as e:
            p.error = "analysis recursion limit"
        except Exception as e:      # failure of the analyser itself: this trace is undecided, the others stay decided
            if type(e).__name__ == "AnchorLost":
                raise
            p.error = f"analysis crashed: {type(e).__name__} {e}"
        del it.frames[nframes:]
        it.cur_prov = None
        p.events = it.events[ne:]
        p.conds = list(it.pathconds)
        p.over = (dict(X.OVER), dict(X.LINOVER))
        p.last = it.last_line
        del it.events[ne:]
        taken = it.oracle.taken
        for i in range(len(prefix), len(taken)):
            todo.append(taken[:i] + [not taken[i]])
        if not keep_state:
            it.rollback()
            it.fs = fs0
        it.oracle = None
        if not drop:
            paths.append(p)
        if len(paths) + len(todo) > max_paths:
            q = Path()
            q.error = f"more than {max_paths} traces"
            paths.append(q)
            break
    X.OVER.clear()
    X.LINOVER.clear()
    return paths
