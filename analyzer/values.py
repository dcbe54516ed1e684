"""Abstract values of the interpreter."""
from fractions import Fraction
from . import expr as X
from .expr import E


class Num:
    """Symbolic or non-int number; kind: int, float, complex, npint, npfloat, npcomplex."""
    __slots__ = ("e", "kind")

    def __init__(self, e, kind):
        self.e, self.kind = e, kind

    def __repr__(self):
        return f"{self.kind}:{self.e!r}"


def mknum(e, kind):
    if kind == "int" and e.is_const():
        c = e.cval()
        if c.denominator == 1:
            return int(c)
    return Num(e, kind)


def flt(v):
    return Num(X.const(Fraction(v)), "float")


class Cond:
    """Atomic condition: e < 0 (lt), e <= 0 (le), e == 0 (eq), or opaque key; neg - negation (eq / opaque only)."""
    __slots__ = ("op", "e", "neg", "np")

    def __init__(self, op, e, neg=False):
        self.op, self.e, self.neg = op, e, neg

    def key(self):
        return (self.op, self.e)

    def negate(self):
        if self.op == "lt":
            return mkcond("le", X.neg(self.e))
        if self.op == "le":
            return mkcond("lt", X.neg(self.e))
        return Cond(self.op, self.e, not self.neg)

    def holds(self, env, memo):
        if self.op == "opaque":
            if isinstance(self.e, tuple) and self.e and self.e[0] in ("and", "or") and len(self.e) > 1 \
                    and all(isinstance(c, (Cond, bool)) for c in self.e[1:]):
                vs = [c if isinstance(c, bool) else c.holds(env, memo) for c in self.e[1:]]
                r = all(vs) if self.e[0] == "and" else any(vs)
            else:
                r = X._h("opq", self.e) > 0
            return r != self.neg
        v = X.evalE(self.e, env, memo)
        v = X._r(v)
        tol = X.mpmath.mpf(10)**-28
        if self.op == "lt":
            return v < -tol
        if self.op == "le":
            return v <= tol
        return (abs(v) <= tol) != self.neg

    def __hash__(self):
        return hash((self.op, self.e, self.neg))

    def __eq__(self, o):
        return isinstance(o, Cond) and (self.op, self.e, self.neg) == (o.op, o.e, o.neg)

    def __repr__(self):
        s = {"lt": "<0", "le": "<=0", "eq": "==0", "opaque": ""}[self.op]
        return f"{'not ' if self.neg else ''}[{self.e!r}{s}]"


def mkcond(op, e):
    """Build canonical condition or constant."""
    s = X.sign(e)
    if op == "lt":
        if s is not None:
            return s < 0
        if X.sign_ge0(e):
            return False
    elif op == "le":
        if s is not None:
            return s <= 0
        r = X.rng(e)
        if r[2] is not None and r[2] <= 0:
            return True
    else:
        if s is not None:
            return s == 0
        if e.is_const():
            return e.is_zero()
        if X.is_constant(e):
            return False
        r = X.rng(e)
        if (r[0] is not None and r[0] > 0) or (r[2] is not None and r[2] < 0):
            return False
    c, p = X._content(e)
    if op == "eq":
        return Cond("eq", p)
    return Cond(op, p if c > 0 else X.neg(p))


class Buf:
    __slots__ = ("data", "dtype", "prov", "ep", "site")

    def __init__(self, data, dtype, prov="local", ep=0, site=None):
        self.data, self.dtype, self.prov, self.ep, self.site = data, dtype, prov, ep, site


class Arr:
    __slots__ = ("buf", "idx", "shape")

    def __init__(self, buf, idx, shape):
        self.buf, self.idx, self.shape = buf, idx, tuple(shape)

    @property
    def dtype(self):
        return self.buf.dtype

    def elems(self):
        d = self.buf.data
        return [d[i] for i in self.idx]

    def __repr__(self):
        return f"Arr{self.shape}{self.dtype}{self.elems()[:6]}"


def cat(dt):
    if dt.startswith("float"):
        return "float"
    if dt.startswith("complex"):
        return "complex"
    if dt.startswith("int") or dt.startswith("uint"):
        return "int"
    return dt


class PyList:
    __slots__ = ("items", "prov", "ep", "site")

    def __init__(self, items, prov="local", ep=0, site=None):
        self.items, self.prov, self.ep, self.site = items, prov, ep, site

    def snap(self):
        return list(self.items)

    def restore(self, s):
        self.items = s

    def __repr__(self):
        return f"L{self.items!r}"


class PyDict:
    __slots__ = ("d", "prov", "ep", "site")

    def __init__(self, d=None, prov="local", ep=0, site=None):
        self.d, self.prov, self.ep, self.site = d if d is not None else {}, prov, ep, site

    def snap(self):
        return dict(self.d)

    def restore(self, s):
        self.d = s

    def __repr__(self):
        return "D{" + ", ".join(f"{k!r}: {v!r}" for k, v in list(self.d.values())[:8]) + "}"


class PySet:
    __slots__ = ("d", "prov", "ep", "site", "frozen")

    def __init__(self, d=None, prov="local", ep=0, site=None):
        self.d, self.prov, self.ep, self.site, self.frozen = d if d is not None else {}, prov, ep, site, False

    def snap(self):
        return dict(self.d)

    def restore(self, s):
        self.d = s

    def __repr__(self):
        return "S{" + ", ".join(repr(v) for v in list(self.d.values())[:8]) + "}"


class PyIter:
    """Eagerly evaluated iterator."""
    __slots__ = ("items", "pos", "cyc")

    def __init__(self, items):
        self.items, self.pos = list(items), 0

    def rest(self):
        r = self.items[self.pos:]
        self.pos = len(self.items)
        return r


class LazyIter:
    """Infinite iterators (itertools.count / cycle)."""
    __slots__ = ("gen",)

    def __init__(self, gen):
        self.gen = gen


class RangeV:
    __slots__ = ("r",)

    def __init__(self, r):
        self.r = r

    def __repr__(self):
        return repr(self.r)


class NTType:
    def __init__(self, name, fields, defaults=()):
        self.name, self.fields, self.defaults = name, list(fields), list(defaults)


class NT(tuple):
    """Named tuple instance."""
    nt = None

    def __repr__(self):
        return self.nt.name + tuple.__repr__(self)


def mknt(nt, vals):
    r = NT(vals)
    r.nt = nt
    return r


class ClassV:
    def __init__(self, name, bases, attrs, module, node=None):
        self.name, self.bases, self.attrs, self.module, self.node = name, bases, attrs, module, node
        self.ep = 0
        self.dataclass = None

    def snap(self):
        return dict(self.attrs)

    def restore(self, s):
        self.attrs = s

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassV):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def ext_bases(self):
        r = []
        for c in self.mro():
            r += [b for b in c.bases if not isinstance(b, ClassV)]
        return r

    def lookup(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c.attrs[name]
        return None

    def __repr__(self):
        return f"<class {self.name}>"


class Obj:
    __slots__ = ("cls", "attrs", "prov", "ep", "site")

    def __init__(self, cls, prov="local", ep=0, site=None):
        self.cls, self.attrs, self.prov, self.ep, self.site = cls, {}, prov, ep, site

    def snap(self):
        return dict(self.attrs)

    def restore(self, s):
        self.attrs = s

    def __repr__(self):
        return f"<{self.cls.name} obj>"


class Func:
    def __init__(self, name, node, env, module, defaults, kwdefaults, clsname, qual):
        self.name, self.node, self.env, self.module = name, node, env, module
        self.defaults, self.kwdefaults, self.clsname, self.qual = defaults, kwdefaults, clsname, qual
        self.static = self.clsm = False
        self.owner = None
        self.cache = None
        self.ep = 0
        self.locals_ = None
        self.isgen = False
        self.attrs = {}
        self.pure = None
        self.nocopy = False

    def snap(self):
        return (dict(self.cache) if self.cache is not None else None, dict(self.attrs))

    def restore(self, s):
        self.cache, self.attrs = s

    def __repr__(self):
        return f"<func {self.qual}>"


class Bound:
    __slots__ = ("f", "self_")

    def __init__(self, f, self_):
        self.f, self.self_ = f, self_


class Prop:
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class StaticM:
    def __init__(self, f):
        self.f = f


class ClassM:
    def __init__(self, f):
        self.f = f


class Meth:
    """Bound method of a built-in container / array / external object."""
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class ModuleV:
    def __init__(self, name, path):
        self.name, self.path, self.vars, self.ep = name, path, {}, 0
        self.loaded = False

    def snap(self):
        return dict(self.vars)

    def restore(self, s):
        self.vars = s

    def __repr__(self):
        return f"<module {self.name}>"


class ExtRef:
    """Reference to an object of an external library by dotted name."""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<ext {self.name}>"

    def __eq__(self, o):
        return isinstance(o, ExtRef) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class ExtObj:
    """Instance of an external class with modelled state."""

    def __init__(self, typ, **data):
        self.typ, self.data, self.prov, self.ep, self.site = typ, data, "local", 0, None

    def snap(self):
        return dict(self.data)

    def restore(self, s):
        self.data = s

    def __repr__(self):
        return f"<{self.typ} {self.data if len(self.data) < 3 else ''}>"


class Builtin:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<builtin {self.name}>"

    def __eq__(self, o):
        return isinstance(o, Builtin) and o.name == self.name

    def __hash__(self):
        return hash(("b", self.name))


class ExcT:
    """Exception class: python builtin or internal ClassV."""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"<exc {self.t.__name__}>"

    def __eq__(self, o):
        return isinstance(o, ExcT) and o.t is self.t

    def __hash__(self):
        return hash(self.t)


class Exc:
    """Exception instance."""

    def __init__(self, cls, args=(), loc=None, implicit=False):
        self.cls, self.args, self.loc, self.implicit = cls, args, loc, implicit
        self.attrs = {}
        self.raised = False

    @property
    def name(self):
        return self.cls.t.__name__ if isinstance(self.cls, ExcT) else getattr(self.cls, "name", str(self.cls))

    def pytype(self):
        """Closest python exception type."""
        c = self.cls
        if isinstance(c, ExcT):
            return c.t
        if isinstance(c, ClassV):
            for b in c.ext_bases():
                if isinstance(b, ExcT):
                    return b.t
        if isinstance(c, ExtRef) and c.name.endswith("JSONDecodeError"):
            return ValueError
        return Exception

    def __repr__(self):
        return f"{self.name}({', '.join(repr(a)[:80] for a in self.args)}) at {self.loc}"


class SStr:
    """Symbolic string."""
    __slots__ = ("parts",)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, SStr):
                out += p.parts
            else:
                out.append(p)
        m = []
        for p in out:
            if isinstance(p, str) and m and isinstance(m[-1], str):
                m[-1] += p
            elif p != "":
                m.append(p)
        self.parts = tuple(m)

    def __repr__(self):
        return "S'" + "".join(p if isinstance(p, str) else "{" + repr(p)[:60] + "}" for p in self.parts) + "'"

    def __eq__(self, o):
        return isinstance(o, SStr) and o.parts == self.parts

    def __hash__(self):
        return hash(self.parts)


class Opaque:
    """Unknown value; key makes equal applications equal."""
    __slots__ = ("key", "typ")

    def __init__(self, key, typ=None):
        self.key, self.typ = key, typ

    def __repr__(self):
        return f"?{str(self.key)[:100]}"

    def __eq__(self, o):
        return isinstance(o, Opaque) and o.key == self.key

    def __hash__(self):
        return hash(self.key)


class Cell:
    __slots__ = ("vars", "parent", "func", "module", "globals_", "nonlocals_", "is_class", "is_comp")

    def __init__(self, parent, module, func=None):
        self.vars, self.parent, self.module, self.func = {}, parent, module, func
        self.globals_ = self.nonlocals_ = ()
        self.is_class = self.is_comp = False


class Ellip:
    pass


ELLIPSIS = Ellip()
NOTIMPL = object()


# control flow
class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc


class RetEx(Exception):
    def __init__(self, v):
        self.v = v


class BrkEx(Exception):
    pass


class ContEx(Exception):
    pass


class Unsupported(Exception):
    """The analyser cannot give a precise meaning to a construct."""


class Infeasible(Exception):
    """Path condition became contradictory."""


class Limit(Exception):
    pass


class Event:
    __slots__ = ("kind", "loc", "data", "stack")

    def __init__(self, kind, loc, data, stack):
        self.kind, self.loc, self.data, self.stack = kind, loc, data, stack

    def __repr__(self):
        return f"{self.kind}@{self.loc} {str(self.data)[:100]}"
