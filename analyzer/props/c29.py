"""C29: every internal call binds to its callee; names and attributes used in the library exist."""
import ast
import builtins
import json
import os
import re
import shutil
import subprocess
import tempfile

from ..ctx import A, Check, SRC
from ..values import ClassM, ClassV, Func, NTType, Prop, PyRaise, StaticM, Unsupported
from . import ops as O

PKG = os.path.join(SRC, "zernpy")
IMPLICIT = ("TypeError", "NameError", "UnboundLocalError", "AttributeError")
CHUNK = 40
ENVS = ((), ("joblib", "skimage"), ("numba", "joblib", "skimage"))
FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def module_files():
    out = []
    for d, dirs, files in os.walk(PKG):
        dirs[:] = sorted(x for x in dirs if x not in ("tests", "__pycache__"))
        for f in sorted(files):
            if f.endswith(".py"):
                p = os.path.join(d, f)
                rel = os.path.relpath(p, SRC)[:-3].replace(os.sep, ".")
                out.append((rel[:-9] if rel.endswith(".__init__") else rel, p))
    return out


def is_main_guard(n):
    return isinstance(n, ast.If) and "__main__" in ast.dump(n.test) and "__name__" in ast.dump(n.test) and not any(
        isinstance(o, (ast.NotEq, ast.NotIn)) for x in ast.walk(n.test) if isinstance(x, ast.Compare) for o in x.ops)


def targets(t):
    return [n.id for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))]


class Scope:
    """Bindings of one function body (nested functions and classes excluded)."""

    def __init__(self, node):
        self.node = node
        self.binds = {}         # name -> list of (kind, node)
        self.globals, self.nonlocals = set(), set()
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            self.binds.setdefault(x.arg, []).append(("param", x))
        for x in (a.vararg, a.kwarg):
            if x:
                self.binds.setdefault(x.arg, []).append(("star", x))
        for s in (node.body if isinstance(node.body, list) else [node.body]):
            self.visit(s)

    def add(self, name, kind, n):
        self.binds.setdefault(name, []).append((kind, n))

    def visit(self, n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.add(n.name, "def", n)
            for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x]:
                self.visit(d)
            return
        if isinstance(n, ast.ClassDef):
            self.add(n.name, "class", n)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, COMPS):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    self.add(x.target.id, "assign", x.value)
            return
        if isinstance(n, ast.Global):
            self.globals.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            self.nonlocals.update(n.names)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for x in n.names:
                self.add(x.asname or x.name.split(".")[0], "import", (n, x))
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    self.add(t.id, "assign", n.value)
                else:
                    for k in targets(t):
                        self.add(k, "part", n)
        elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
            if n.value is not None:
                self.add(n.target.id, "assign", n.value)
            else:
                self.binds.setdefault(n.target.id, [])
        elif isinstance(n, ast.NamedExpr):
            self.add(n.target.id, "assign", n.value)
        elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
            self.add(n.target.id, "aug", n)
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            for k in targets(n.target):
                self.add(k, "loop", n)
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                if i.optional_vars is not None:
                    if isinstance(i.optional_vars, ast.Name):
                        self.add(i.optional_vars.id, "with", i.context_expr)
                    else:
                        for k in targets(i.optional_vars):
                            self.add(k, "part", n)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            self.add(n.name, "part", n)
        elif hasattr(ast, "MatchAs") and isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            self.add(n.name, "part", n)
        elif hasattr(ast, "MatchMapping") and isinstance(n, ast.MatchMapping) and n.rest:
            self.add(n.rest, "part", n)
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                for k in targets(t):
                    self.binds.setdefault(k, [])
        for c in ast.iter_child_nodes(n):
            self.visit(c)

    def local(self, name):
        return name in self.binds and name not in self.globals and name not in self.nonlocals


# ---------------------------------------------------------------- module analysis
class Mod:
    def __init__(self, a, name, path):
        self.a, self.name, self.path = a, name, path
        self.rel = os.path.relpath(path, os.path.dirname(SRC))
        self.tree = ast.parse(open(path, "rb").read(), filename=path)
        self.envs = []          # module variables under the sets of missing packages
        self.defs = {}          # bindings taken from the syntax
        self.skip = set()
        for n in ast.walk(self.tree):
            if is_main_guard(n):
                for s in n.body:
                    for x in ast.walk(s):
                        self.skip.add(id(x))
        self.maybe = set()      # names of guarded imports (of optional packages)
        for n in ast.walk(self.tree):
            if isinstance(n, ast.Try):
                for s in n.body:
                    if isinstance(s, (ast.Import, ast.ImportFrom)):
                        self.maybe.update(x.asname or x.name.split(".")[0] for x in s.names)
        self.declared = set()
        for n in ast.walk(self.tree):
            if isinstance(n, ast.Global):
                self.declared.update(n.names)

    def where(self, n):
        return f"{self.rel}:{getattr(n, 'lineno', 0)}"

    def globalv(self, name):
        """Values of the module variable in the environments (empty: unbound everywhere)."""
        return [v[name] for v in self.envs if name in v]


class Walker:
    """Checks names, attributes and calls of one module."""

    def __init__(self, a, m, mods):
        self.a, self.m, self.mods = a, m, mods
        self.qual = []
        self.cls = None         # ClassV of the lexical class
        self.scopes = []

    # -------- values of expressions (None: unknown)
    def value(self, e):
        """Definition an expression certainly refers to: Func / ClassV / NTType / ('inst', ClassV or NTType)."""
        if isinstance(e, ast.Name):
            for k, s in enumerate(reversed(self.scopes)):
                if isinstance(s, set):
                    if e.id in s:
                        return None
                    continue
                if e.id in s.globals:
                    break
                if s.local(e.id):
                    return self.localvalue(s, e.id)
            vs = self.m.globalv(e.id)
            if not vs or len(vs) != len(self.m.envs) and False:
                return None
            kinds = {id(getattr(x, "node", x)) if isinstance(x, (Func, ClassV)) else repr(x) for x in vs}
            ds = [x for x in vs if isinstance(x, (Func, ClassV, NTType))]
            if len(ds) != len(vs) or len({(type(x), x.name) for x in ds}) != 1:
                return None
            if any(isinstance(x, Func) for x in ds) and len({ast.dump(x.node.args) for x in ds}) != 1:
                return None
            del kinds
            return ds[0]
        if isinstance(e, ast.Attribute):
            b = self.value(e.value)
            if isinstance(b, tuple) and b[0] == "inst" and isinstance(b[1], ClassV):
                v = self.member(b[1], e.attr)
                return ("bound", v) if isinstance(v, (Func, StaticM, ClassM)) and e.attr not in self.instattrs(b[1]) else None
            if isinstance(b, ClassV):
                v = self.member(b, e.attr)
                return ("unbound", v) if isinstance(v, (Func, StaticM, ClassM)) else v if isinstance(v, (ClassV, NTType)) else None
            return None
        if isinstance(e, ast.Call):
            f = self.value(e.func)
            if isinstance(f, (ClassV, NTType)):
                if isinstance(f, ClassV) and f.lookup("__new__") is not None:
                    return None
                return ("inst", f)
        return None

    def localvalue(self, s, name):
        bs = s.binds[name]
        if len(bs) != 1:
            return None if not bs or not all(k == "assign" for k, _ in bs) else self.common([self.guard(s, n) for _, n in bs])
        k, n = bs[0]
        if k == "param":
            if s is self.scopes[0] and self.selfname(s) == name and self.cls is not None:
                return ("inst", self.cls)
            if n.annotation is not None and isinstance(n.annotation, ast.Name) and not self.tested(s, name):
                v = self.value(n.annotation) if not s.local(n.annotation.id) else None
                if isinstance(v, ClassV) and not v.ext_bases():
                    return ("inst", v)
            return None
        if k == "assign":
            return self.guard(s, n)
        if k == "def" and not n.decorator_list:
            return ("ast", n)
        if k == "with":
            v = self.guard(s, n)
            if isinstance(v, tuple) and v[0] == "inst" and isinstance(v[1], ClassV):
                en = v[1].lookup("__enter__")
                if isinstance(en, Func):
                    rs = [x for x in ast.walk(en.node) if isinstance(x, ast.Return)]
                    if rs and all(isinstance(x.value, ast.Name) and x.value.id == en.node.args.args[0].arg for x in rs):
                        return v
            return None
        if k == "import":
            st, al = n
            if isinstance(st, ast.ImportFrom):
                vs = self.imported(st, al.name)
                return vs if isinstance(vs, (Func, ClassV, NTType)) else None
        return None

    def guard(self, s, n):
        if getattr(self, "_deep", 0) > 6:
            return None
        self._deep = getattr(self, "_deep", 0) + 1
        try:
            return self.value(n)
        finally:
            self._deep -= 1

    def common(self, vs):
        if vs and all(v is not None for v in vs):
            f = vs[0]
            if all(type(v) is type(f) and v == f for v in vs):
                return f
        return None

    def imported(self, st, name):
        base = st.module or ""
        if st.level:
            parts = self.m.name.split(".")
            if not self.m.path.endswith("__init__.py"):
                parts = parts[:-1]
            parts = parts[:len(parts) - (st.level - 1)]
            base = ".".join(parts + ([st.module] if st.module else []))
        m = self.mods.get(base)
        if m is None:
            return None
        vs = m.globalv(name)
        return vs[0] if vs else ("absent", base, name) if f"{base}.{name}" not in self.mods else None

    def selfname(self, s):
        n = s.node
        if self.cls is None or isinstance(n, ast.Lambda):
            return None
        ds = [getattr(d, "id", getattr(d, "attr", "")) for d in n.decorator_list]
        if "staticmethod" in ds or "classmethod" in ds or not n.args.args:
            return None
        if any(d not in ("property", "setter", "getter", "deleter", "wraps", "cached_property", "lru_cache", "cache") for d in ds):
            return None
        return n.args.args[0].arg

    def tested(self, s, name):
        """The parameter is examined for its type or compared with None in the function."""
        for x in ast.walk(s.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("isinstance", "hasattr", "getattr", "len", "type", "callable", "iter", "issubclass"):
                if any(isinstance(y, ast.Name) and y.id == name for y in x.args):
                    return True
            if isinstance(x, ast.Compare) and any(isinstance(o, (ast.Is, ast.IsNot)) for o in x.ops) and any(isinstance(y, ast.Name) and y.id == name for y in ast.walk(x)):
                return True
        return False

    def member(self, cls, attr):
        for c in cls.mro():
            for k in (attr, f"_{c.name.lstrip('_')}{attr}"):
                if k in c.attrs:
                    return c.attrs[k]
        return None

    _inst = {}

    def instattrs(self, cls):
        if id(cls) in self._inst:
            return self._inst[id(cls)]
        out = set()
        dyn = bool(cls.ext_bases()) and any(str(getattr(b, "name", b)) not in ("object",) for b in cls.ext_bases())
        for c in cls.mro():
            if c.node is None:
                dyn = True
                continue
            for f in ast.walk(c.node):
                if isinstance(f, ast.Attribute) and isinstance(f.ctx, ast.Store):
                    out.add(f.attr)
                elif isinstance(f, ast.AnnAssign) and isinstance(f.target, ast.Name):
                    out.add(f.target.id)
                elif isinstance(f, (ast.FunctionDef,)):
                    if f.name in ("__getattr__", "__getattribute__"):
                        dyn = True
                elif isinstance(f, ast.Name) and f.id == "setattr" or isinstance(f, ast.Attribute) and f.attr in ("__dict__", "__setattr__"):
                    dyn = True
                elif isinstance(f, ast.Name) and isinstance(f.ctx, ast.Store):
                    out.add(f.id)
            if c.dataclass is not None:
                pass
        if dyn:
            out.add("*")
        # attributes set from outside of the class
        for m in self.mods.values():
            for f in ast.walk(m.tree):
                if isinstance(f, ast.Attribute) and isinstance(f.ctx, ast.Store) and not (isinstance(f.value, ast.Name) and f.value.id == "self"):
                    out.add(f.attr)
        self._inst[id(cls)] = out
        return out

    # -------- walking
    def name(self):
        return f"{self.m.rel}:{'.'.join(self.qual) or '<module>'}"

    def run(self):
        for s in self.m.tree.body:
            self.visit(s)

    def visit(self, n):
        if id(n) in self.m.skip:
            return
        meth = getattr(self, "v_" + type(n).__name__, None)
        if meth is not None:
            return meth(n)
        self.generic(n)

    def generic(self, n):
        for c in ast.iter_child_nodes(n):
            self.visit(c)

    def annotation(self, e):
        pass

    def v_ClassDef(self, n):
        for x in n.decorator_list + n.bases + [k.value for k in n.keywords]:
            self.visit(x)
        old, oldq = self.cls, list(self.qual)
        vs = [v for v in self.m.globalv(n.name) if isinstance(v, ClassV)] if not self.scopes else []
        self.cls = vs[0] if vs else None
        self.qual.append(n.name)
        names = {x for s in n.body for t in ast.walk(s) if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store) for x in [t.id]}
        names |= {s.name for s in n.body if isinstance(s, (ast.FunctionDef, ast.ClassDef))}
        for s in n.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.scopes.append(names)
                for x in s.decorator_list + s.args.defaults + [k for k in s.args.kw_defaults if k]:
                    self.visit(x)
                self.scopes.pop()
                self.function(s)
            else:
                self.scopes.append(names)
                self.visit(s)
                self.scopes.pop()
        self.cls, self.qual = old, oldq

    def v_FunctionDef(self, n):
        for x in n.decorator_list + n.args.defaults + [k for k in n.args.kw_defaults if k]:
            self.visit(x)
        self.function(n)

    v_AsyncFunctionDef = v_FunctionDef

    def function(self, n):
        s = Scope(n)
        self.qual.append(n.name)
        self.scopes.append(s)
        for x in n.body:
            self.visit(x)
        self.scopes.pop()
        Flow(self, s).run()
        self.qual.pop()

    def v_Lambda(self, n):
        for x in n.args.defaults + [k for k in n.args.kw_defaults if k]:
            self.visit(x)
        self.scopes.append(Scope(n))
        self.visit(n.body)
        self.scopes.pop()

    def comp(self, n):
        names = {x for g in n.generators for x in targets(g.target)}
        self.visit(n.generators[0].iter)
        self.scopes.append(names)
        for i, g in enumerate(n.generators):
            if i:
                self.visit(g.iter)
            for c in g.ifs:
                self.visit(c)
        for f in ("elt", "key", "value"):
            if hasattr(n, f):
                self.visit(getattr(n, f))
        self.scopes.pop()

    v_ListComp = v_SetComp = v_DictComp = v_GeneratorExp = comp

    def v_AnnAssign(self, n):
        self.visit(n.target)
        if n.value is not None:
            self.visit(n.value)

    def v_arg(self, n):
        pass

    def v_Name(self, n):
        if not isinstance(n.ctx, ast.Load):
            return
        for s in reversed(self.scopes):
            if isinstance(s, set):
                if n.id in s:
                    return self.a.ok("name")
                continue
            if n.id in s.globals:
                break
            if n.id in s.binds:
                if s.binds[n.id] or n.id in s.nonlocals:
                    return self.a.ok("name")
                self.a.bad("name", f"{self.name()} {n.id}", "local name that's never assigned", self.m.where(n))
                return
        if self.m.globalv(n.id) or n.id in self.m.maybe or hasattr(builtins, n.id) or n.id in ("__file__", "__name__", "__doc__", "__class__", "__package__", "__path__", "__spec__"):
            return self.a.ok("name")
        if n.id in self.m.declared and any(isinstance(x, ast.Name) and x.id == n.id and isinstance(x.ctx, ast.Store) for x in ast.walk(self.m.tree)):
            return self.a.ok("name")
        self.a.bad("name", f"{self.name()} {n.id}", "name isn't defined", self.m.where(n))

    def v_Attribute(self, n):
        self.visit(n.value)
        b = self.value(n.value)
        if not isinstance(n.ctx, ast.Load) or b is None:
            return
        if n.attr.startswith("__") and n.attr.endswith("__"):
            return
        cl = b[1] if isinstance(b, tuple) and b[0] == "inst" else b
        if isinstance(cl, ClassV) and cl.node is not None:
            ia = self.instattrs(cl)
            ok = self.member(cl, n.attr) is not None or n.attr in ia or "*" in ia
            self.a.expect(ok, "attribute", f"{self.name()} {ast.unparse(n)}", f"{cl.name} has no attribute {n.attr}", self.m.where(n))
        elif isinstance(cl, NTType):
            ok = n.attr in cl.fields or hasattr(tuple, n.attr) or n.attr in ("_asdict", "_fields", "_replace", "_make", "_field_defaults")
            self.a.expect(ok, "attribute", f"{self.name()} {ast.unparse(n)}", f"{cl.name} has no field {n.attr}", self.m.where(n))

    def v_ImportFrom(self, n):
        for al in n.names:
            if al.name == "*":
                continue
            v = self.imported(n, al.name)
            if isinstance(v, tuple) and v and v[0] == "absent":
                self.a.bad("import", f"{self.name()} from {v[1]} import {v[2]}", "the module has no such name", self.m.where(n))
            else:
                self.a.ok("import")

    def v_Call(self, n):
        self.generic(n)
        f = self.value(n.func)
        if f is None:
            tgt = [k for k in n.keywords if k.arg == "target"]
            args = [k for k in n.keywords if k.arg in ("args",)]
            kw = [k for k in n.keywords if k.arg == "kwargs"]
            if tgt and (args or kw) and (not args or isinstance(args[0].value, (ast.Tuple, ast.List))) and (not kw or isinstance(kw[0].value, ast.Dict) and all(
                    isinstance(x, ast.Constant) for x in kw[0].value.keys)):
                t = self.value(tgt[0].value)
                if t is not None:
                    self.bind(n, t, list(args[0].value.elts) if args else [], [k.value for k in kw[0].value.keys] if kw else [], False)
            return
        starred = any(isinstance(x, ast.Starred) for x in n.args) or any(k.arg is None for k in n.keywords)
        self.bind(n, f, [x for x in n.args if not isinstance(x, ast.Starred)], [k.arg for k in n.keywords if k.arg is not None], starred)

    def bind(self, n, f, args, kws, starred):
        """Rule: the arguments bind to the signature of the callee."""
        drop = 0
        label = ast.unparse(n.func)
        nt = None
        if isinstance(f, tuple) and f[0] == "inst":
            return
        if isinstance(f, NTType):
            nt = f
        elif isinstance(f, ClassV):
            if f.dataclass is not None or f.ext_bases() and any(str(getattr(b, "name", b)) not in ("object", "builtins.object") for b in f.ext_bases()):
                return
            init = f.lookup("__init__")
            if f.lookup("__new__") is not None:
                return
            if init is None:
                self.a.expect(starred or not args and not kws, "call", f"{self.name()} {label}", "arguments for a class without constructor", self.m.where(n))
                return
            f, drop = init, 1
        elif isinstance(f, tuple) and f[0] == "ast":
            f = f[1]
        elif isinstance(f, tuple) and f[0] in ("bound", "unbound"):
            how, v = f
            if isinstance(v, StaticM):
                f = v.f
            elif isinstance(v, ClassM):
                f, drop = v.f, 1
            else:
                f, drop = v, 1 if how == "bound" else 0
        if nt is not None:
            pos, req, kwonly, kwreq, va, vk = nt.fields, nt.fields[:len(nt.fields) - len(nt.defaults or ())], [], [], False, False
            posonly = []
        else:
            node = f.node if isinstance(f, Func) else f if isinstance(f, FUNCS) else None
            if node is None:
                return
            if isinstance(f, Func) and not self.plain(node):
                return
            g = node.args
            pos = [x.arg for x in g.posonlyargs + g.args]
            posonly = [x.arg for x in g.posonlyargs]
            req = pos[:len(pos) - len(g.defaults)]
            pos, req = pos[drop:], req[drop:]
            kwonly = [x.arg for x in g.kwonlyargs]
            kwreq = [x.arg for x, d in zip(g.kwonlyargs, g.kw_defaults) if d is None]
            va, vk = g.vararg is not None, g.kwarg is not None
        inst = f"{self.name()} {label}"
        w = self.m.where(n)
        bad = None
        if len(args) > len(pos) and not va:
            bad = f"{len(args)} positional arguments for {len(pos)} parameters"
        for k in kws:
            if k not in pos and k not in kwonly and not vk or k in posonly and not vk:
                bad = f"unknown argument {k}"
            elif k in pos[:len(args)] and not starred:
                bad = f"several values for argument {k}"
        if not starred and bad is None:
            miss = [p for i, p in enumerate(req) if i >= len(args) and p not in kws] + [p for p in kwreq if p not in kws]
            if miss:
                bad = f"no value for argument {', '.join(miss)}"
        self.a.expect(bad is None, "call", inst, bad, w)

    @staticmethod
    def plain(node):
        """Decorators of the definition don't change the signature."""
        if isinstance(node, ast.Lambda):
            return True
        for d in node.decorator_list:
            d = d.func if isinstance(d, ast.Call) else d
            if getattr(d, "id", getattr(d, "attr", "")) not in ("njit", "jit", "staticmethod", "classmethod", "lru_cache", "cache", "wraps", "abstractmethod"):
                return False
        return True


class Flow:
    """Assignment of local names before their use: forward pass over the structured statements.

    Names carry (may, must); a use that no path assigns before is a violation, and so is a use with an unassigned path unless the tests of the
    assigning and the using branches are (transitively) computed from common names."""

    def __init__(self, w, s):
        self.w, self.s = w, s
        self.locals = {k for k, b in s.binds.items() if b and k not in s.globals and k not in s.nonlocals}
        self.deps = {}
        for k, b in s.binds.items():
            for kind, n in b:
                if kind in ("assign", "aug", "part", "loop", "with"):
                    for x in ast.walk(n.iter if kind == "loop" else n.value if kind in ("aug", "part") and hasattr(n, "value") else n if isinstance(n, ast.AST) else ast.Constant(0)):
                        if isinstance(x, ast.Name):
                            self.deps.setdefault(k, set()).add(x.id)
        self.assigns = {}       # name -> list of sets of names in the tests enclosing the assignment
        self.control(s.node.body, frozenset())
        self.collect(s.node.body, ())

    def names(self, e):
        out = {x.id if isinstance(x, ast.Name) else "." + x.attr for x in ast.walk(e) if isinstance(x, (ast.Name, ast.Attribute))}
        while True:
            more = {y for x in out for y in self.deps.get(x, ())} - out
            if not more:
                return out
            out |= more

    def control(self, body, tests):
        """Names assigned under a test depend on the names of the test."""
        for n in body:
            own = tests
            if isinstance(n, (ast.If, ast.While)):
                own = tests | {x.id if isinstance(x, ast.Name) else "." + x.attr for x in ast.walk(n.test) if isinstance(x, (ast.Name, ast.Attribute))}
            for f in ("body", "orelse", "finalbody"):
                b = getattr(n, f, None)
                if isinstance(b, list):
                    self.control(b, own)
            for h in getattr(n, "handlers", ()):
                self.control(h.body, own)
            if own:
                for x in ast.walk(n):
                    for k in self.bound(x):
                        self.deps.setdefault(k, set()).update(own - {k})

    def collect(self, body, tests):
        for n in body:
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    self.assigns.setdefault(x.id, [])
            if isinstance(n, (ast.If, ast.While)):
                t = tests + (self.names(n.test),)
                self.collect(n.body, t)
                self.collect(n.orelse, t)
            elif isinstance(n, (ast.For, ast.AsyncFor)):
                for k in targets(n.target):
                    self.assigns.setdefault(k, []).append(tests)
                self.collect(n.body, tests)
                self.collect(n.orelse, tests)
            elif isinstance(n, ast.Try):
                for b in (n.body, n.orelse, n.finalbody, *[h.body for h in n.handlers]):
                    self.collect(b, tests)
            elif isinstance(n, (ast.With, ast.AsyncWith)):
                self.collect(n.body, tests)
            else:
                for x in ast.walk(n):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        self.assigns.setdefault(x.id, []).append(tests)

    def run(self):
        st = (set(self.s.params), set(self.s.params))
        self.stack = []
        self.block(self.s.node.body, st)

    @staticmethod
    def join(xs):
        xs = [x for x in xs if x is not None]
        if not xs:
            return None
        return (set().union(*[x[0] for x in xs]), set.intersection(*[x[1] for x in xs]))

    def assigned(self, body):
        return {x for s in body for n in ast.walk(s) for x in self.bound(n)}

    @staticmethod
    def bound(n):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            return [n.id]
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            return [n.name]
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            return [x.asname or x.name.split(".")[0] for x in n.names]
        if isinstance(n, ast.ExceptHandler) and n.name:
            return [n.name]
        if type(n).__name__ in ("MatchAs", "MatchStar") and n.name:
            return [n.name]
        return []

    def use(self, e, st):
        """Loads inside an expression (comprehension variables and nested functions excluded)."""
        if e is None or st is None:
            return st
        for x in self.loads(e, frozenset()):
            if x.id not in self.locals:
                continue
            if x.id in st[1]:
                self.w.a.ok("assigned")
            elif x.id not in st[0]:
                self.w.a.bad("assigned", f"{self.w.name()} {x.id}", "local name is used before any assignment", self.w.m.where(x))
            else:
                using = set().union(*self.stack) if self.stack else set()
                asg = [set().union(*t) for t in self.assigns.get(x.id, []) if t]
                if not asg or any(t & using for t in asg) or self.ended(x.id):
                    self.w.a.undecided("assigned", f"{self.w.name()} {x.id}", "assigned on some of the paths only, under a related condition")
                else:
                    self.w.a.bad("assigned", f"{self.w.name()} {x.id}", "local name isn't assigned on a path to its use", self.w.m.where(x))
        new = {x.target.id for x in ast.walk(e) if isinstance(x, ast.NamedExpr)}
        return (st[0] | new, st[1] | new) if new else st

    def ended(self, name):
        return False

    def loads(self, e, bound):
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id not in bound:
                yield e
            return
        if isinstance(e, ast.Lambda):
            return
        if isinstance(e, COMPS):
            b = bound
            for i, g in enumerate(e.generators):
                yield from self.loads(g.iter, b)
                b = b | set(targets(g.target))
                for c in g.ifs:
                    yield from self.loads(c, b)
            for f in ("elt", "key", "value"):
                if hasattr(e, f):
                    yield from self.loads(getattr(e, f), b)
            return
        for c in ast.iter_child_nodes(e):
            yield from self.loads(c, bound)

    def store(self, t, st):
        """Assignment to a target."""
        for x in ast.walk(t):
            if isinstance(x, (ast.Attribute, ast.Subscript)):
                st = self.use(x.value, st)
                if isinstance(x, ast.Subscript):
                    st = self.use(x.slice, st)
        ks = {x for x in targets(t)}
        return (st[0] | ks, st[1] | ks)

    def block(self, body, st):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        if isinstance(s, ast.Assign):
            st = self.use(s.value, st)
            for t in s.targets:
                st = self.store(t, st)
            return st
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                st = self.use(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target), st)
            st = self.use(s.value, st)
            return self.store(s.target, st)
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return st
            return self.store(s.target, self.use(s.value, st))
        if isinstance(s, (ast.Return, ast.Raise)):
            for e in ((s.value,) if isinstance(s, ast.Return) else (s.exc, s.cause)):
                st = self.use(e, st)
            return None
        if isinstance(s, ast.If):
            st = self.use(s.test, st)
            self.stack.append(self.names(s.test))
            const = s.test.value if isinstance(s.test, ast.Constant) else None
            chain = not s.orelse and getattr(s, "chained", False)       # the last branch of an if / elif chain: taken as exhaustive for the bindings
            if len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If):
                s.orelse[0].chained = True
            x = self.block(s.body, st) if const is None or const else None
            y = self.block(s.orelse, st) if const is None or not const else None
            self.stack.pop()
            if chain and x is not None:
                y = (y[0], y[1] | x[1])
            return self.join([x, y])
        if isinstance(s, (ast.For, ast.AsyncFor)):
            st = self.use(s.iter, st)
            st = self.store(s.target, st)
            self.brk.append([]) if hasattr(self, "brk") else setattr(self, "brk", [[]])
            inner = (st[0] | self.assigned(s.body), st[1])
            out = self.block(s.body, inner)
            bs = self.brk.pop()
            nxt = self.join([out] + [b for k, b in bs if k == "continue"])
            end = self.block(s.orelse, nxt) if nxt is not None else None
            r = self.join([end] + [b for k, b in bs if k == "break"])
            return r if r is not None else (inner[0], st[1])
        if isinstance(s, ast.While):
            st = self.use(s.test, (st[0] | self.assigned(s.body), st[1]))
            self.brk.append([]) if hasattr(self, "brk") else setattr(self, "brk", [[]])
            self.stack.append(self.names(s.test))
            out = self.block(s.body, st)
            self.stack.pop()
            bs = self.brk.pop()
            forever = isinstance(s.test, ast.Constant) and bool(s.test.value)
            nxt = self.join([out] + [b for k, b in bs if k == "continue"])
            if nxt is None and not forever:
                nxt = st
            end = None if forever else self.block(s.orelse, nxt)
            return self.join([end] + [b for k, b in bs if k == "break"])
        if isinstance(s, (ast.Break, ast.Continue)):
            if getattr(self, "brk", None):
                self.brk[-1].append(("break" if isinstance(s, ast.Break) else "continue", st))
            return None
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                st = self.use(i.context_expr, st)
                if i.optional_vars is not None:
                    st = self.store(i.optional_vars, st)
            return self.block(s.body, st)
        if isinstance(s, ast.Try) or type(s).__name__ == "TryStar":
            asg = self.assigned(s.body)
            b = self.block(s.body, st)
            if b is not None:
                b = self.block(s.orelse, b)
            outs = [b]
            for h in s.handlers:
                hs = (st[0] | asg, st[1] | asg)      # optimistic: the failing statement comes after the assignments
                if h.name:
                    hs = (hs[0] | {h.name}, hs[1] | {h.name})
                outs.append(self.block(h.body, hs))
            r = self.join(outs)
            if s.finalbody:
                f = self.block(s.finalbody, r if r is not None else (st[0] | asg, st[1] | asg))
                r = f if r is not None else None
            return r
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for e in s.decorator_list + s.args.defaults + [k for k in s.args.kw_defaults if k]:
                st = self.use(e, st)
            return (st[0] | {s.name}, st[1] | {s.name})
        if isinstance(s, ast.ClassDef):
            return (st[0] | {s.name}, st[1] | {s.name})
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            ks = set(self.bound(s))
            return (st[0] | ks, st[1] | ks)
        if isinstance(s, ast.Expr):
            return self.use(s.value, st)
        if isinstance(s, ast.Assert):
            st = self.use(s.test, st)
            if isinstance(s.test, ast.Constant) and not s.test.value:
                return None
            return st
        if isinstance(s, ast.Delete):
            ks = {k for t in s.targets for k in targets(t)}
            return (st[0], st[1] - ks) if False else st
        if type(s).__name__ == "Match":
            st = self.use(s.subject, st)
            outs = [st]
            for c in s.cases:
                ks = {k for n in ast.walk(c.pattern) for k in self.bound(n)}
                cs = (st[0] | ks, st[1] | ks)
                self.stack.append(self.names(s.subject))
                outs.append(self.block(c.body, cs))
                self.stack.pop()
                if type(c.pattern).__name__ == "MatchAs" and c.pattern.pattern is None and c.guard is None:
                    outs.pop(0) if outs[0] is st else None
            return self.join(outs)
        return st


def load_all(a):
    """All modules of the package with their variables under several sets of missing packages."""
    mods = {}
    for name, path in module_files():
        mods[name] = Mod(a, name, path)
    for env in ENVS:
        try:
            b = A(missing=env)
        except PyRaise as e:
            a.bad("load", f"import without {env}", f"raises {e.exc!r}", str(getattr(e.exc, "loc", None)))
            continue
        for name, m in mods.items():
            mv = b.it.modules.get(name)
            if mv is None:
                try:
                    mv = b.it.load(name)
                except (PyRaise, Unsupported) as e:
                    if isinstance(e, PyRaise) and e.exc.name not in ("ModuleNotFoundError", "ImportError") and not env:
                        a.bad("load", f"import of {name} without {', '.join(env) or 'nothing'}", f"raises {e.exc!r}", str(getattr(e.exc, "loc", None)))
                    continue
            if mv is not None:
                m.envs.append(mv.vars)
                m.mv = mv
        if b is not a:
            a.it.funcs_seen.update(b.it.funcs_seen)
    return mods


def static(a, item):
    mods = load_all(a)
    for name, m in sorted(mods.items()):
        if not m.envs:
            a.undecided("module", name, "can't be loaded by the abstract interpreter")
            continue
        Walker(a, m, mods).run()


CLASSATTR = re.compile(r'^Cannot access attribute "(\w+)" for class "([^"]+)"')


# ---------------------------------------------------------------- calls of external libraries, by the type checker
MESSAGES = (re.compile(r'^No parameter named "(\w+)"'), re.compile(r"^Expected \d+ positional argument"), re.compile(r"^Arguments? missing for parameter"),
            re.compile(r'^"(\w+)" is not a known attribute of module "([\w.]+)"'), re.compile(r'^"(\w+)" is unknown import symbol'), re.compile(r'^"(\w+)" is not defined'))


def typecheck(a, item):
    """pyright over a copy of the sources: unknown keyword arguments, argument counts, unknown module attributes."""
    tmp = tempfile.mkdtemp(prefix="zernpy_c29_")
    try:
        shutil.copytree(PKG, os.path.join(tmp, "zernpy"), ignore=shutil.ignore_patterns("tests", "__pycache__"))
        with open(os.path.join(tmp, "pyrightconfig.json"), "w") as f:
            json.dump({"include": ["zernpy"], "pythonVersion": "3.12", "typeCheckingMode": "basic", "venvPath": "/opt", "venv": "venv"}, f)
        try:
            r = subprocess.run(["pyright", "-p", tmp, "--outputjson"], capture_output=True, text=True, timeout=300, cwd=tmp)
            d = json.loads(r.stdout)
        except (OSError, ValueError, subprocess.TimeoutExpired) as e:
            a.undecided("external", "pyright", f"not available: {type(e).__name__}")
            return
        n = d.get("summary", {}).get("filesAnalyzed", 0)
        if not n:
            a.undecided("external", "pyright", "no files analysed")
            return
        trees, skip, calls = {}, {}, 0
        for name, path in module_files():
            t = ast.parse(open(path, "rb").read())
            rel = os.path.relpath(path, PKG)
            skip[rel] = [(x.lineno, x.end_lineno) for s in ast.walk(t) if is_main_guard(s) for x in s.body]
            trees[rel] = t
            calls += sum(isinstance(x, ast.Call) and not any(l <= x.lineno <= h for l, h in skip[rel]) for x in ast.walk(t))
        nbad = 0
        for x in d.get("generalDiagnostics", []):
            if x.get("severity") != "error" and not x.get("rule") == "reportAttributeAccessIssue":
                continue
            rel = os.path.relpath(x["file"], os.path.join(tmp, "zernpy"))
            line = x["range"]["start"]["line"] + 1
            if rel not in skip or any(l <= line <= h for l, h in skip[rel]):
                continue
            msg = x["message"].split("\n")[0]
            hit = next((m for m in MESSAGES if m.match(msg)), None)
            k = CLASSATTR.match(msg)
            if k is not None and known_class(k[2]) and not any(hasattr(t, k[1]) for t in (list, tuple, dict, set, str, float, int)):
                hit = CLASSATTR
            if hit is None:
                continue
            g = hit.match(msg).groups()
            if len(g) == 2 and hit is not CLASSATTR and submodule(g[1], g[0]):
                continue
            nbad += 1
            a.bad("external", f"{rel}:{enclosing(trees[rel], line)} {msg[:80]}", "reported by the type checker", f"src/zernpy/{rel}:{line}")
        for _ in range(calls - nbad):
            a.ok("external")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def known_class(name):
    """Classes of libraries (values of builtin types are often annotated loosely)."""
    name = re.sub(r"^type\[(.*)\]$", r"\1", name).split("[")[0].rstrip("*")
    return name not in ("None", "object", "Unknown", "function", "Self") and not hasattr(builtins, name) and name not in OWN


OWN = ("ZernPol", "ZernPSF", "DispenserManager")


def submodule(mod, name):
    for base in ("/opt/venv/lib/python3.12/site-packages", SRC):
        d = os.path.join(base, *mod.split("."))
        if os.path.exists(os.path.join(d, name)) or os.path.exists(os.path.join(d, name + ".py")):
            return True
    return False


def enclosing(t, line):
    best = ""
    for n in ast.walk(t):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.lineno <= line <= n.end_lineno:
            best = n.name if isinstance(n, ast.FunctionDef) else best or n.name
    return best


# ---------------------------------------------------------------- traces of the public operations
def traces(a, idx):
    O.hooks(a); O.small_mesh(a)
    allops = O.all_ops()
    for o in (allops[i] for i in idx):
        def drv(it):
            d = o.make(a)
            O.run_ = None
            return o.run(a, d)
        for p in a.one(drv, "trace", o.name, 48):
            e = p.exc
            bad = e is not None and e.name in IMPLICIT and getattr(e, "implicit", False)
            a.expect(not bad, "trace", o.name, f"fails with {e!r}", a.path_where(p))


def work(a, item):
    return {"static": static, "type": typecheck, "op": traces}[item[0]](a, item[1])


def check(tier):
    ck = Check("C29", tier, "every call in the library resolved to an internal definition (functions, methods of self / known instances, constructors, named tuples, process targets) "
               "binds to the signature; every name is bound in its scope, assigned before use; attributes of self / known instances / named tuples exist; imported names exist; "
               "calls of external libraries are checked against their type stubs (pyright); traces of all catalogued operations raise no implicit TypeError / NameError / AttributeError",
               floor=2500, assumptions=["demonstration sections under __name__ == '__main__' aren't part of the library"])
    n = len(O.all_ops())
    items = [("static", 0), ("type", 0)] + [("op", tuple(range(i, min(i + CHUNK, n)))) for i in range(0, n, CHUNK)]
    ck.units(work, items)
    return ck.finish()
