"""Models of the external library functions used by the analysed package (numpy, math, json, pathlib, matplotlib, ...).

Each model is a transfer function on the abstract values of values.py. Functions without a model return an unknown value.
"""
from fractions import Fraction
import math as _m
from . import expr as X
from .expr import E
from .values import *

MODELS = {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def np_(*names):
    return model(*["numpy." + n for n in names])


def bi(*names):
    return model(*["builtins." + n for n in names])


def arg(it, args, kw, i, name, default=None, req=False):
    if i is not None and i < len(args):
        return args[i]
    if name in kw:
        return kw[name]
    if req:
        it.rz("TypeError", f"missing argument {name}")
    return default


def cfloat(e):
    """Float value of a constant expression or None."""
    if e.is_const():
        c = e.cval()
        return float(c)
    if X.is_constant(e) and e.t != X.NAN.t:
        v = X.numeric(e)
        if isinstance(v, X.mpmath.mpc):
            return None
        return float(v)
    return None


# ------------------------------------------------------------------ dtypes
_DT = {"float": "float64", "float64": "float64", "double": "float64", "float_": "float64", "float32": "float32", "single": "float32", "float16": "float16",
       "int": "int64", "int64": "int64", "int_": "int64", "intp": "int64", "int32": "int32", "int16": "int16", "int8": "int8", "uint8": "uint8", "uint16": "uint16",
       "uint32": "uint32", "uint64": "uint64", "ubyte": "uint8", "complex": "complex128", "complex128": "complex128", "complex64": "complex64", "bool": "bool", "bool_": "bool",
       "object": "object", "object_": "object", "longdouble": "float64", "longlong": "int64", "f8": "float64", "f4": "float32", "i8": "int64", "i4": "int32", "u1": "uint8"}
_ABSTRACT_DT = {"floating", "integer", "number", "complexfloating", "signedinteger", "inexact"}


def dtype_name(v):
    if isinstance(v, str):
        return _DT.get(v)
    if isinstance(v, Builtin):
        return _DT.get(v.name)
    if isinstance(v, ExtRef) and v.name.startswith("numpy."):
        return _DT.get(v.name.split(".")[-1])
    if isinstance(v, ExtObj) and v.typ == "dtype":
        return v.data["name"]
    return None


def mkdtype(n):
    return ExtObj("dtype", name=n)


def get_dtype(it, v, default):
    if v is None:
        return default
    n = dtype_name(v)
    if n is None:
        it.unsup(f"dtype {v!r}")
    return n


def infer_dtype(it, flat):
    order = -1
    for v in flat:
        if isinstance(v, (bool, Cond)):
            o = 0
        elif isinstance(v, int):
            o = 1
        elif isinstance(v, Num):
            o = it.NUMKINDS[v.kind] + 1
        elif isinstance(v, Opaque):
            o = 2
        else:
            return "object" if not isinstance(v, (str, SStr)) else "str"
        order = max(order, o)
    return {-1: "float64", 0: "bool", 1: "int64", 2: "float64", 3: "complex128"}[order]


def nested_shape(it, v):
    """(shape, flat elements, dtypes of arrays inside)"""
    if isinstance(v, Arr):
        return v.shape, [it.elem(v, i) for i in range(len(v.idx))]
    if isinstance(v, RangeV):
        return (len(v.r),), list(v.r)
    if isinstance(v, PyIter):
        return (), [v]
    if isinstance(v, (PyList, tuple)):
        xs = v.items if isinstance(v, PyList) else list(v)
        subs = [nested_shape(it, x) for x in xs]
        if not subs:
            return (0,), []
        s0 = subs[0][0]
        if any(s[0] != s0 for s in subs):
            it.rz("ValueError", "setting an array element with a sequence. The requested array has an inhomogeneous shape")
        return (len(subs),) + tuple(s0), [x for s in subs for x in s[1]]
    return (), [v]


def asarray(it, v, dtype=None, copy=False):
    if isinstance(v, Arr):
        if dtype is None or dtype == v.dtype:
            if not copy:
                return v
            return it.mkarr(v.elems(), v.shape, v.dtype)
        return it.mkarr([it.astype_el(x, v.dtype, dtype) for x in v.elems()], v.shape, dtype)
    if isinstance(v, Opaque):
        return v
    if isinstance(v, (PyDict, PySet)) or v is None or isinstance(v, (Obj, PyIter, Func)):
        return it.mkarr([v], (), "object")
    shp, flat = nested_shape(it, v)
    dt = dtype
    if dt is None:
        dts = set()

        def walk(z):
            if isinstance(z, Arr):
                dts.add(z.dtype)
            elif isinstance(z, (PyList, tuple)):
                for q in (z.items if isinstance(z, PyList) else z):
                    walk(q)
            else:
                dts.add(None)
        walk(v)
        dt = dts.pop() if len(dts) == 1 and None not in dts else infer_dtype(it, flat)
    if dt == "str":
        return Opaque(("strarr", tuple(it.skey(x) for x in flat)), "numpy.ndarray")
    if dt == "object":
        return it.mkarr(flat, shp, "object")
    return it.mkarr([it.cast_el(x, dt) for x in flat], shp, dt)


def arr_or_scalar(it, v):
    """(array, was_scalar)"""
    if isinstance(v, Arr):
        return v, False
    if it.isnum(v):
        return it.to_arr(v), True
    if isinstance(v, Opaque):
        return None, False
    a = asarray(it, v)
    if isinstance(a, Opaque):
        return None, False
    return a, False


def shape_arg(it, v):
    if isinstance(v, (tuple, PyList)):
        return tuple(it.as_int(x) for x in (v.items if isinstance(v, PyList) else v))
    if isinstance(v, Arr):
        return tuple(it.as_int(it.elem(v, i)) for i in range(len(v.idx)))
    return (it.as_int(v),)


def prodn(s):
    n = 1
    for x in s:
        n *= x
    return n


# ------------------------------------------------------------------ creation
@np_("zeros", "empty", "ones")
def _zeros(it, args, kw):
    it.unsup("creation")


def _mkcreate(name, val):
    def f(it, args, kw):
        shp = arg(it, args, kw, 0, "shape", req=True)
        if isinstance(shp, Num) and shp.kind in ("float", "npfloat") or (isinstance(shp, tuple) and any(isinstance(x, Num) and x.kind in ("float", "npfloat") for x in shp)):
            it.rz("TypeError", "'float' object cannot be interpreted as an integer")
        shp = shape_arg(it, shp)
        if any(s < 0 for s in shp):
            it.rz("ValueError", "negative dimensions are not allowed")
        dt = get_dtype(it, arg(it, args, kw, 1, "dtype"), "float64")
        n = prodn(shp)
        if n > 400000:
            it.unsup(f"array with {n} elements")
        if val is None:
            return it.mkarr([X.opaque("uninit", X.const(it.loc().__hash__() % 10**6), X.const(i)) for i in range(n)], shp, dt)
        v = it.cast_el(val, dt) if dt != "object" else val
        return it.mkarr([v] * n, shp, dt)
    MODELS["numpy." + name] = f


_mkcreate("zeros", 0)
_mkcreate("ones", 1)
_mkcreate("empty", None)


def _mklike(name, val):
    def f(it, args, kw):
        a, _ = arr_or_scalar(it, arg(it, args, kw, 0, "a", req=True))
        if a is None:
            return Opaque((name, it.skey_arr(args[0])), "numpy.ndarray")
        dt = get_dtype(it, arg(it, args, kw, 1, "dtype"), a.dtype)
        shp = a.shape if kw.get("shape") is None else shape_arg(it, kw["shape"])
        n = prodn(shp)
        if val is None:
            return it.mkarr([X.opaque("uninit", X.const(it.loc().__hash__() % 10**6), X.const(i)) for i in range(n)], shp, dt)
        v = it.cast_el(val, dt) if dt != "object" else val
        return it.mkarr([v] * n, shp, dt)
    MODELS["numpy." + name] = f


_mklike("zeros_like", 0)
_mklike("ones_like", 1)
_mklike("empty_like", None)


@np_("full")
def _full(it, args, kw):
    shp = shape_arg(it, args[0])
    v = arg(it, args, kw, 1, "fill_value")
    dt = get_dtype(it, arg(it, args, kw, 2, "dtype"), it.to_arr(v).dtype)
    return it.mkarr([it.cast_el(v, dt)] * prodn(shp), shp, dt)


@np_("full_like")
def _full_like(it, args, kw):
    a, _ = arr_or_scalar(it, args[0])
    v = arg(it, args, kw, 1, "fill_value")
    dt = get_dtype(it, arg(it, args, kw, 2, "dtype"), a.dtype)
    return it.mkarr([it.cast_el(v, dt)] * prodn(a.shape), a.shape, dt)


@np_("eye", "identity")
def _eye(it, args, kw):
    n = it.as_int(args[0])
    return it.mkarr([X.ONE if i == j else X.ZERO for i in range(n) for j in range(n)], (n, n), "float64")


@np_("array")
def _array(it, args, kw):
    dt = arg(it, args, kw, 1, "dtype")
    cp = kw.get("copy", True)
    return asarray(it, arg(it, args, kw, 0, "object", req=True), get_dtype(it, dt, None) if dt is not None else None, copy=bool(cp))


@np_("asarray", "asanyarray", "ascontiguousarray", "asfarray", "asarray_chkfinite")
def _asarray(it, args, kw):
    dt = arg(it, args, kw, 1, "dtype")
    return asarray(it, arg(it, args, kw, 0, "a", req=True), get_dtype(it, dt, None) if dt is not None else None)


@np_("copy")
def _npcopy(it, args, kw):
    return asarray(it, args[0], copy=True)


@np_("arange")
def _arange(it, args, kw):
    a = [x for x in args]
    start, stop, step = 0, None, 1
    if len(a) == 1 and "stop" not in kw:
        stop = a[0]
    else:
        start = arg(it, a, kw, 0, "start", 0)
        stop = arg(it, a, kw, 1, "stop", None)
        step = arg(it, a, kw, 2, "step", 1)
    if "step" in kw:
        step = kw["step"]
    if stop is None and "stop" in kw:
        stop = kw["stop"]
    if isinstance(start, Opaque) or isinstance(stop, Opaque) or isinstance(step, Opaque):
        return Opaque(("arange", it.skey(start), it.skey(stop), it.skey(step)), "numpy.ndarray")
    es, ee, st = it.e_of(start), it.e_of(stop), it.e_of(step)
    if st.is_zero():
        it.rz("ZeroDivisionError", "division by zero")
    fs, fe, ft = cfloat(es), cfloat(ee), cfloat(st)
    if fs is not None and fe is not None and ft is not None:
        n = _m.ceil((fe - fs) / ft)
    else:
        q = X.div(X.sub(ee, es), st)
        f = cfloat(q)
        if f is None:
            it.unsup("symbolic bounds of arange")
        n = _m.ceil(f)
    n = max(n, 0)
    if n > 300000:
        it.unsup(f"arange with {n} elements")
    k = max(it.NUMKINDS[it.kind_of(x)] for x in (start, stop, step))
    dt = get_dtype(it, kw.get("dtype"), "int64" if k == 0 else "float64")
    return it.mkarr([X.add(es, X.scale(st, i)) for i in range(n)], (n,), dt)


@np_("linspace")
def _linspace(it, args, kw):
    a, b = it.e_of(args[0]) if len(args) > 0 else it.e_of(kw["start"]), it.e_of(arg(it, args, kw, 1, "stop"))
    nv = arg(it, args, kw, 2, "num", 50)
    if isinstance(nv, Num) and nv.kind in ("float", "npfloat"):
        it.rz("TypeError", "'float' object cannot be interpreted as an integer")
    n = it.as_int(nv)
    if n < 0:
        it.rz("ValueError", "Number of samples must be non-negative")
    ep = arg(it, args, kw, 3, "endpoint", True)
    div = (n - 1) if it.truth(ep) else n
    out = [a if (i == 0 or div == 0) else X.add(a, X.scale(X.sub(b, a), Fraction(i, div))) for i in range(n)]
    r = it.mkarr(out, (n,), get_dtype(it, kw.get("dtype"), "float64"))
    if it.truth(kw.get("retstep", False)):
        return (r, Num(X.scale(X.sub(b, a), Fraction(1, div)) if div else X.NAN, "npfloat"))
    return r


@np_("meshgrid")
def _meshgrid(it, args, kw):
    arrs = [arr_or_scalar(it, a)[0] for a in args]
    if any(a is None for a in arrs):
        return PyList([Opaque(("meshgrid", i)) for i in range(len(args))])
    idxing = kw.get("indexing", "xy")
    sizes = [len(a.idx) for a in arrs]
    n = len(arrs)
    shp = list(sizes)
    if idxing == "xy" and n >= 2:
        shp[0], shp[1] = sizes[1], sizes[0]
    out = []
    for k, a in enumerate(arrs):
        ax = k
        if idxing == "xy" and n >= 2:
            ax = {0: 1, 1: 0}.get(k, k)
        el = a.elems()
        data = []
        tot = prodn(shp)
        st = prodn(shp[ax + 1:])
        for p in range(tot):
            data.append(el[(p // st) % shp[ax]])
        out.append(it.mkarr(data, tuple(shp), a.dtype))
    return it.mklist(out)


@np_("indices")
def _indices(it, args, kw):
    shp = shape_arg(it, args[0])
    data = []
    for ax in range(len(shp)):
        st = prodn(shp[ax + 1:])
        data += [X.const((p // st) % shp[ax]) for p in range(prodn(shp))]
    return it.mkarr(data, (len(shp),) + shp, "int64")


# ------------------------------------------------------------------ elementwise
def unary_ufunc(name, fnx, dt=None, intkeep=False):
    def f(it, args, kw):
        if kw.get("out") is not None:
            it.unsup("ufunc out=")
        v = args[0]
        if isinstance(v, Opaque):
            return Opaque((name, v.key), v.typ)
        if v is None or isinstance(v, (str, SStr, Obj, PyDict)):
            it.rz("TypeError", f"ufunc '{name}' not supported for the input types")
        a, sc = arr_or_scalar(it, v)
        if a is None:
            return Opaque((name, it.skey_arr(v)))
        if a.dtype == "object":
            it.rz("TypeError", f"ufunc '{name}' not supported for object")
        c = cat(a.dtype)
        rd = dt(c, a.dtype) if dt else ("float64" if c in ("int", "bool") and not intkeep else a.dtype)
        out = []
        for x in a.elems():
            try:
                out.append(fnx(it.el2e(x)))
            except ZeroDivisionError:
                out.append(X.INF)
        if a.shape == ():
            return it.el2v(out[0], rd)
        return it.mkarr(out, a.shape, rd)
    return f


def _u(names, fnx, dt=None, intkeep=False):
    for n in names.split():
        MODELS["numpy." + n] = unary_ufunc(n, fnx, dt, intkeep)


def _sqrt_e(e):
    if X.is_real(e):
        s = X.sign(e)
        if s == -1:
            return X.NAN
    return X.fn("sqrt", e)


_u("cos", lambda e: X.fn("cos", e))
_u("sin", lambda e: X.fn("sin", e))
_u("tan", lambda e: X.fn("tan", e))
_u("exp", lambda e: X.fn("exp", e))
_u("log", lambda e: X.fn("log", e))
_u("sqrt", _sqrt_e)
_u("arctan", lambda e: X.fn("arctan", e))
_u("arccos", lambda e: X.fn("arccos", e))
_u("arcsin", lambda e: X.fn("arcsin", e))
_u("sinh", lambda e: X.fn("sinh", e))
_u("cosh", lambda e: X.fn("cosh", e))
_u("tanh", lambda e: X.fn("tanh", e))
_u("abs absolute fabs", lambda e: X.fn("abs", e), lambda c, d: "float64" if c == "complex" else d, True)
_u("square", lambda e: X.mul(e, e), None, True)
_u("negative", lambda e: X.neg(e), None, True)
_u("positive", lambda e: e, None, True)
_u("sign", lambda e: X.fn("sign", e), None, True)
_u("floor", lambda e: X.fn("floor", e), None, True)
_u("ceil", lambda e: X.fn("ceil", e), None, True)
_u("trunc fix", lambda e: X.fn("trunc", e), None, True)
_u("rint", lambda e: X.fn("round", e))
_u("reciprocal", lambda e: X.inv(e), None, True)
_u("deg2rad radians", lambda e: X.scale(X.mul(e, X.PI), Fraction(1, 180)))
_u("rad2deg degrees", lambda e: X.div(X.scale(e, 180), X.PI))
_u("conj conjugate", lambda e: X.fn("conj", e), None, True)
_u("real", lambda e: X.fn("re", e), lambda c, d: "float64" if c == "complex" else d, True)
_u("imag", lambda e: X.fn("im", e), lambda c, d: "float64" if c == "complex" else d, True)
_u("angle", lambda e: X.fn("arctan2", X.im(e), X.re(e)))


def _isx(name, test):
    def f(it, args, kw):
        a, sc = arr_or_scalar(it, args[0])
        if a is None:
            return Opaque((name, it.skey_arr(args[0])))
        out = [test(it.el2e(x)) for x in a.elems()]
        if a.shape == ():
            return out[0]
        return it.mkarr(out, a.shape, "bool")
    MODELS["numpy." + name] = f
    MODELS["math." + name] = f


_isx("isnan", lambda e: e.t == X.NAN.t)
_isx("isinf", lambda e: e.t in (X.INF.t, X.neg(X.INF).t))
_isx("isfinite", lambda e: e.t not in (X.INF.t, X.neg(X.INF).t, X.NAN.t))


def _bin(names, op):
    for n in names.split():
        def f(it, args, kw, op=op, n=n):
            if kw.get("out") is not None:
                it.unsup("ufunc out=")
            a, b = args[0], args[1]
            if isinstance(a, (PyList, tuple)):
                a = asarray(it, a)
            if isinstance(b, (PyList, tuple)):
                b = asarray(it, b)
            if it.isnum(a) and it.isnum(b):
                a = npscalar(it, a)
            return it.binop(op, a, b)
        MODELS["numpy." + n] = f


def npscalar(it, v):
    if isinstance(v, (bool, Cond)):
        return v
    if isinstance(v, int):
        return Num(X.const(v), "npint")
    if isinstance(v, Num) and not v.kind.startswith("np"):
        return Num(v.e, "np" + v.kind)
    return v


_bin("add", "Add")
_bin("subtract", "Sub")
_bin("multiply", "Mult")
_bin("divide true_divide", "Div")
_bin("floor_divide", "FloorDiv")
_bin("mod remainder", "Mod")
_bin("bitwise_and", "BitAnd")
_bin("bitwise_or", "BitOr")
_bin("power float_power pow", "Pow")


def _cmpf(names, op):
    for n in names.split():
        def f(it, args, kw, op=op):
            a, b = [asarray(it, x) if isinstance(x, (PyList, tuple)) else x for x in args[:2]]
            return it.compare(op, a, b)
        MODELS["numpy." + n] = f


_cmpf("equal", "Eq")
_cmpf("not_equal", "NotEq")
_cmpf("less", "Lt")
_cmpf("less_equal", "LtE")
_cmpf("greater", "Gt")
_cmpf("greater_equal", "GtE")


def _nary(name, comb, dtf=None):
    def f(it, args, kw):
        arrs = [arr_or_scalar(it, a)[0] for a in args]
        if any(a is None for a in arrs):
            return Opaque((name,) + tuple(it.skey_arr(a) for a in args))
        shp, es = it.broadcast(arrs)
        dt = dtf or ("float64" if any(cat(a.dtype) == "float" for a in arrs) else arrs[0].dtype)
        out = [comb(*[it.el2e(x) for x in t]) for t in zip(*es)]
        if shp == ():
            return it.el2v(out[0], dt)
        return it.mkarr(out, shp, dt)
    MODELS["numpy." + name] = f


_nary("arctan2", lambda y, x: X.fn("arctan2", y, x), "float64")
_nary("hypot", lambda y, x: X.fn("hypot", y, x), "float64")
_nary("maximum", lambda a, b: X.fn("max", a, b))
_nary("minimum", lambda a, b: X.fn("min", a, b))
_nary("fmax", lambda a, b: X.fn("max", a, b))
_nary("fmin", lambda a, b: X.fn("min", a, b))
_nary("copysign", lambda a, b: X.mul(X.fn("abs", a), X.fn("sign", b)))


@np_("clip")
def _clip(it, args, kw):
    a, sc = arr_or_scalar(it, args[0])
    lo, hi = arg(it, args, kw, 1, "a_min", kw.get("min")), arg(it, args, kw, 2, "a_max", kw.get("max"))
    out = []
    for x in a.elems():
        e = it.el2e(x)
        if lo is not None:
            e = X.fn("max", e, it.e_of(lo))
        if hi is not None:
            e = X.fn("min", e, it.e_of(hi))
        out.append(e)
    if a.shape == ():
        return it.el2v(out[0], a.dtype)
    return it.mkarr(out, a.shape, a.dtype)


def roundE(e, nd):
    if nd >= 9 and not e.is_const():
        return e   # rounding to >= 9 digits is treated as transparent (documented abstraction)
    if nd >= 9 and e.is_const():
        r = X._round_frac(e.cval(), nd)
        return X.const(r)
    return X.fn("round", e, X.const(nd))


@np_("round", "around", "round_")
def _npround(it, args, kw):
    v = arg(it, args, kw, 0, "a")
    nd = it.as_int(arg(it, args, kw, 1, "decimals", 0))
    if isinstance(v, Opaque):
        return Opaque(("round", v.key, nd), v.typ)
    if v is None:
        it.rz("TypeError", "round of None")
    a, sc = arr_or_scalar(it, v)
    out = [roundE(it.el2e(x), nd) for x in a.elems()]
    dt = a.dtype
    if a.shape == ():
        return it.el2v(out[0], dt)
    return it.mkarr(out, a.shape, dt)


# ------------------------------------------------------------------ reductions
def norm_axis(it, a, axis):
    if axis is None:
        return None
    if isinstance(axis, tuple):
        axs = [it.as_int(x) for x in axis]
    else:
        axs = [it.as_int(axis)]
    r = []
    for x in axs:
        if x < 0:
            x += len(a.shape)
        if not 0 <= x < len(a.shape):
            it.rz("ValueError", f"axis {x} is out of bounds for array of dimension {len(a.shape)}")
        r.append(x)
    return tuple(sorted(r))


def reduce_groups(it, a, axis, keep=False):
    """(shape, list of element groups)"""
    el = a.elems()
    axs = norm_axis(it, a, axis)
    if axs is None:
        return ((1,) * len(a.shape) if keep else ()), [el]
    outshape = tuple(d for i, d in enumerate(a.shape) if i not in axs)
    groups = {}
    strides = [prodn(a.shape[i + 1:]) for i in range(len(a.shape))]
    order = []
    import itertools
    for key in itertools.product(*[range(d) for d in outshape]):
        groups[key] = []
        order.append(key)
    for p, x in enumerate(el):
        ix = [(p // st) % d for st, d in zip(strides, a.shape)]
        groups[tuple(v for i, v in enumerate(ix) if i not in axs)].append(x)
    if keep:
        outshape = tuple(1 if i in axs else d for i, d in enumerate(a.shape))
    return outshape, [groups[k] for k in order]


def sum_all(xs):
    # balanced: dictionary accumulation
    t = {}
    for e in xs:
        for m, c in e.t.items():
            v = t.get(m, 0) + c
            if v:
                t[m] = v
            else:
                t.pop(m, None)
    return E(t)


def reduction(name, red, dtf):
    def f(it, args, kw):
        v = arg(it, args, kw, 0, "a")
        axis = arg(it, args, kw, 1, "axis")
        keep = it.truth(kw.get("keepdims", False))
        if isinstance(v, Opaque):
            return Opaque((name, v.key, axis))
        if isinstance(v, PyIter):
            v = it.mklist(v.rest())
        if v is None:
            if name in ("sum",):
                return None
            it.rz("TypeError", f"{name} of None")
        a, sc = arr_or_scalar(it, v)
        if a is None:
            return Opaque((name, it.skey_arr(v), axis))
        if a.dtype == "object":
            return _obj_reduce(it, name, a)
        shp, gs = reduce_groups(it, a, axis, keep)
        if kw.get("initial") is not None:
            ini = it.e_of(kw["initial"])
            gs = [g + [ini] for g in gs]
        dt = dtf(cat(a.dtype), a.dtype)
        out = []
        for g in gs:
            if not g and name in ("max", "min", "amax", "amin", "argmax", "argmin"):
                it.rz("ValueError", "zero-size array to reduction operation which has no identity")
            out.append(red([it.el2e(x) for x in g]))
        if shp == ():
            return it.el2v(out[0], dt)
        return it.mkarr(out, shp, dt)
    return f


def _obj_reduce(it, name, a):
    if name in ("sum",):
        r = 0
        for i in range(len(a.idx)):
            r = it.binop("Add", r, it.elem(a, i))
        return r
    it.unsup(f"{name} of object array")


def _mean(xs):
    return X.scale(sum_all(xs), Fraction(1, len(xs))) if xs else X.NAN


def _prod(xs):
    r = X.ONE
    for e in xs:
        r = X.mul(r, e)
    return r


def _fmax(xs):
    return X.fn("max", *xs) if len(xs) > 1 else xs[0]


def _fmin(xs):
    return X.fn("min", *xs) if len(xs) > 1 else xs[0]


_keepi = lambda c, d: "int64" if c in ("bool",) else d
for _n, _f, _d in (("sum", sum_all, _keepi), ("nansum", sum_all, _keepi), ("prod", _prod, _keepi), ("product", _prod, _keepi),
                   ("max", _fmax, lambda c, d: d), ("amax", _fmax, lambda c, d: d), ("nanmax", _fmax, lambda c, d: d),
                   ("min", _fmin, lambda c, d: d), ("amin", _fmin, lambda c, d: d), ("nanmin", _fmin, lambda c, d: d),
                   ("mean", _mean, lambda c, d: "complex128" if c == "complex" else "float64"), ("average", _mean, lambda c, d: "complex128" if c == "complex" else "float64")):
    MODELS["numpy." + _n] = reduction(_n, _f, _d)


@np_("ptp")
def _ptp(it, args, kw):
    return it.binop("Sub", MODELS["numpy.max"](it, args, kw), MODELS["numpy.min"](it, args, kw))


@np_("std", "var")
def _std(it, args, kw):
    a, _ = arr_or_scalar(it, args[0])
    if a is None or kw or len(args) > 1:
        return Opaque(("std", it.skey_arr(args[0])))
    el = [it.el2e(x) for x in a.elems()]
    mu = _mean(el)
    v = _mean([X.powi(X.sub(x, mu), 2) for x in el])
    return Num(X.fn("sqrt", v), "npfloat")


def anyall(name):
    def f(it, args, kw):
        v = args[0]
        axis = arg(it, args, kw, 1, "axis")
        if isinstance(v, Opaque):
            return Cond("opaque", (name, v.key))
        if isinstance(v, PyIter):
            v = it.mklist(v.rest())
        a, sc = arr_or_scalar(it, v)
        if a is None:
            return Cond("opaque", (name, it.skey_arr(v)))
        shp, gs = reduce_groups(it, a, axis)
        out = []
        for g in gs:
            conds = [x if isinstance(x, (bool, Cond)) else it.cast_el(it.el2v(x, a.dtype), "bool") for x in g]
            out.append(anyall_c(it, name, conds))
        if shp == ():
            return out[0]
        return it.mkarr(out, shp, "bool")
    MODELS["numpy." + name] = f


def anyall_c(it, name, conds):
    stop = name == "any"
    rest = []
    for c in conds:
        if isinstance(c, bool):
            if c == stop:
                return stop
        elif c not in rest:
            rest.append(c)
    if not rest:
        return not stop
    if len(rest) == 1:
        return rest[0]
    if len(rest) <= 4:
        for c in rest:
            if it.decide(c) == stop:
                return stop
        return not stop
    k = rest[0]
    for c in rest[1:]:
        k = it.cond_bit("BitOr" if stop else "BitAnd", k, c)
    return k


anyall("any")
anyall("all")


@np_("argmax", "argmin")
def _argmax(it, args, kw):
    return Opaque(("argmax", it.skey_arr(args[0]), it.skey_arr(arg(it, args, kw, 1, "axis"))))


@np_("cumsum")
def _cumsum(it, args, kw):
    a, _ = arr_or_scalar(it, args[0])
    out, s = [], X.ZERO
    for x in a.elems():
        s = X.add(s, it.el2e(x))
        out.append(s)
    return it.mkarr(out, (len(out),), a.dtype)


@np_("count_nonzero")
def _cnz(it, args, kw):
    a, _ = arr_or_scalar(it, args[0])
    n = 0
    for i in range(len(a.idx)):
        if it.truth(it.elem(a, i)):
            n += 1
    return n


@np_("size")
def _size(it, args, kw):
    v = args[0]
    if isinstance(v, Opaque):
        return Opaque(("size", v.key))
    if it.isnum(v):
        return 1
    a, _ = arr_or_scalar(it, v)
    ax = arg(it, args, kw, 1, "axis")
    if ax is not None:
        return a.shape[it.as_int(ax)]
    return len(a.idx)


@np_("shape")
def _shape(it, args, kw):
    v = args[0]
    if isinstance(v, Opaque):
        return Opaque(("attr", v.key, "shape"))
    return () if it.isnum(v) else arr_or_scalar(it, v)[0].shape


@np_("ndim")
def _ndim(it, args, kw):
    v = args[0]
    if isinstance(v, Opaque):
        return Opaque(("attr", v.key, "ndim"))
    return 0 if it.isnum(v) else len(arr_or_scalar(it, v)[0].shape)


@np_("isscalar")
def _isscalar(it, args, kw):
    return it.isnum(args[0]) or isinstance(args[0], (str, SStr))


@np_("isreal", "isrealobj", "iscomplexobj", "iscomplex")
def _isreal(it, args, kw):
    return Cond("opaque", ("isreal", it.skey_arr(args[0])))


@np_("linalg.norm")
def _norm(it, args, kw):
    if len(args) > 1 or kw:
        ordv = arg(it, args, kw, 1, "ord")
        if ordv is not None and it.hkey(ordv) != it.hkey(2):
            return Opaque(("norm", it.skey_arr(args[0]), it.skey_arr(ordv)))
    v = args[0]
    if isinstance(v, Opaque):
        return Num(X.opaque("norm", v), "npfloat")
    a, _ = arr_or_scalar(it, v)
    axis = kw.get("axis")
    shp, gs = reduce_groups(it, a, axis)
    out = []
    for g in gs:
        s = sum_all([X.mul(it.el2e(x), it.el2e(x)) if X.is_real(it.el2e(x)) else X.powi(X.absE(it.el2e(x)), 2) for x in g])
        out.append(X.fn("sqrt", s))
    if shp == ():
        return Num(out[0], "npfloat")
    return it.mkarr(out, shp, "float64")


@np_("linalg.lstsq")
def _lstsq(it, args, kw):
    A, b = args[0], arg(it, args, kw, 1, "b")
    A, b = arr_or_scalar(it, A)[0], arr_or_scalar(it, b)[0]
    if A is None or b is None:
        return tuple(Opaque(("lstsq", i)) for i in range(4))
    if len(A.shape) != 2:
        raise PyRaise(Exc(ExtRef("numpy.linalg.LinAlgError"), ("array must be two-dimensional",), it.loc(), True))
    if A.shape[0] != b.shape[0]:
        raise PyRaise(Exc(ExtRef("numpy.linalg.LinAlgError"), ("Incompatible dimensions",), it.loc(), True))
    it.event("lstsq", A, b)
    k = X.const(abs(hash((tuple(A.elems()), tuple(b.elems())))) % 10**12)
    n = A.shape[1]
    sol = it.mkarr([X.opaque("lstsq", X.const(j), k) for j in range(n)], (n,) + b.shape[1:] if len(b.shape) == 1 else (n,), "float64")
    return (sol, Opaque(("lstsq_res", k)), Opaque(("lstsq_rank", k)), Opaque(("lstsq_sv", k)))


@np_("linalg.solve", "linalg.pinv", "linalg.inv")
def _linsolve(it, args, kw):
    it.event("linalg", args)
    return Opaque(("linalg",) + tuple(it.skey_arr(a) for a in args), "numpy.ndarray")


def matmul(it, a, b):
    A, B = arr_or_scalar(it, a)[0], arr_or_scalar(it, b)[0]
    if A is None or B is None:
        return Opaque(("matmul", it.skey_arr(a), it.skey_arr(b)))
    if A.shape == () or B.shape == ():
        it.rz("ValueError", "matmul: input operand does not have enough dimensions")
    A2 = A if len(A.shape) == 2 else None
    ea, eb = [it.el2e(x) for x in A.elems()], [it.el2e(x) for x in B.elems()]
    if len(A.shape) > 2 or len(B.shape) > 2:
        it.unsup("matmul of >2 dims")
    n, k = (A.shape if len(A.shape) == 2 else (1, A.shape[0]))
    k2, m = (B.shape if len(B.shape) == 2 else (B.shape[0], 1))
    if k != k2:
        it.rz("ValueError", "matmul: dimension mismatch")
    out = [sum_all([X.mul(ea[i * k + q], eb[q * m + j]) for q in range(k)]) for i in range(n) for j in range(m)]
    dt = it.res_dtype("Mult", A, B)
    shp = (() if len(A.shape) == 1 else (n,)) + (() if len(B.shape) == 1 else (m,))
    if shp == ():
        return it.el2v(out[0], dt)
    return it.mkarr(out, shp, dt)


@np_("dot", "matmul", "inner", "vdot")
def _dot(it, args, kw):
    a, b = args[0], args[1]
    if it.isnum(a) or it.isnum(b):
        return it.binop("Mult", a if it.isnum(a) else arr_or_scalar(it, a)[0], b if it.isnum(b) else arr_or_scalar(it, b)[0])
    return matmul(it, a, b)


@np_("outer", "multiply.outer")
def _outer(it, args, kw):
    A, B = arr_or_scalar(it, args[0])[0], arr_or_scalar(it, args[1])[0]
    out = [X.mul(it.el2e(x), it.el2e(y)) for x in A.elems() for y in B.elems()]
    return it.mkarr(out, (len(A.idx), len(B.idx)), it.res_dtype("Mult", A, B))


@np_("trapz", "trapezoid")
def _trapz(it, args, kw):
    y = arr_or_scalar(it, args[0])[0]
    x = arg(it, args, kw, 1, "x")
    dx = it.e_of(arg(it, args, kw, 2, "dx", 1))
    ey = [it.el2e(v) for v in y.elems()]
    if x is not None:
        ex = [it.el2e(v) for v in arr_or_scalar(it, x)[0].elems()]
        s = sum_all([X.scale(X.mul(X.sub(ex[i + 1], ex[i]), X.add(ey[i], ey[i + 1])), Fraction(1, 2)) for i in range(len(ey) - 1)])
    else:
        s = sum_all([X.scale(X.mul(dx, X.add(ey[i], ey[i + 1])), Fraction(1, 2)) for i in range(len(ey) - 1)])
    return Num(s, "npfloat")


def ite(it, c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if a == b:
        return a
    r = X._fn_atom("ite", (c, a, b))
    return X.atomE(r)


@np_("where")
def _where(it, args, kw):
    c = args[0]
    if len(args) == 1:
        return MODELS["numpy.nonzero"](it, args, kw)
    if isinstance(c, Opaque):
        return Opaque(("where", c.key), "numpy.ndarray")
    C = arr_or_scalar(it, c)[0]
    A, B = arr_or_scalar(it, args[1])[0], arr_or_scalar(it, args[2])[0]
    shp, (ec, ea, eb) = it.broadcast([C, A, B])
    dt = it.res_dtype("Mult", A if not it.isnum(args[1]) else args[1], B if not it.isnum(args[2]) else args[2])
    out = []
    for x, y, z in zip(ec, ea, eb):
        q = x if isinstance(x, (bool, Cond)) else it.cast_el(it.el2v(x, C.dtype), "bool")
        out.append(ite(it, q, it.el2e(y), it.el2e(z)))
    if shp == ():
        return it.mkarr(out, (), dt)
    return it.mkarr(out, shp, dt)


@np_("nonzero", "flatnonzero", "argwhere")
def _nonzero(it, args, kw):
    a = arr_or_scalar(it, args[0])[0]
    pos = [i for i in range(len(a.idx)) if it.truth(it.elem(a, i))]
    res = []
    for ax in range(len(a.shape)):
        st = prodn(a.shape[ax + 1:])
        res.append(it.mkarr([X.const((p // st) % a.shape[ax]) for p in pos], (len(pos),), "int64"))
    return tuple(res)


def logical(name, op):
    def f(it, args, kw):
        arrs = []
        for a in args[:2]:
            A = arr_or_scalar(it, a)[0]
            if A is None:
                return Opaque((name, it.skey_arr(args[0]), it.skey_arr(args[1])))
            if A.dtype != "bool":
                A = it.mkarr([it.cast_el(it.el2v(x, A.dtype), "bool") for x in A.elems()], A.shape, "bool")
            arrs.append(A)
        shp, (x, y) = it.broadcast(arrs)
        out = [it.cond_bit(op, p, q) for p, q in zip(x, y)]
        return out[0] if shp == () else it.mkarr(out, shp, "bool")
    MODELS["numpy." + name] = f


logical("logical_and", "BitAnd")
logical("logical_or", "BitOr")


@np_("logical_not", "invert")
def _lnot(it, args, kw):
    v = args[0]
    if it.isnum(v):
        t = it.cast_el(v, "bool")
        return (not t) if isinstance(t, bool) else t.negate()
    a = arr_or_scalar(it, v)[0]
    out = [it.cast_el(it.el2v(x, a.dtype), "bool") if a.dtype != "bool" else x for x in a.elems()]
    return it.mkarr([(not x) if isinstance(x, bool) else x.negate() for x in out], a.shape, "bool")


@np_("isclose")
def _isclose(it, args, kw):
    a, b = args[0], args[1]
    d = MODELS["numpy.abs"](it, [it.binop("Sub", it.to_arr(a) if not it.isnum(a) else a, it.to_arr(b) if not it.isnum(b) else b)], {})
    tol = it.binop("Add", kw.get("atol", flt(Fraction(1, 10**8))), it.binop("Mult", kw.get("rtol", flt(Fraction(1, 10**5))), MODELS["numpy.abs"](it, [b], {})))
    return it.compare("LtE", d, tol)


@model("math.isclose")
def _misclose(it, args, kw):
    d = bi_abs(it, [it.binop("Sub", args[0], args[1])], {})
    rel = kw.get("rel_tol", flt(Fraction(1, 10**9)))
    mx = X.fn("max", X.absE(it.e_of(args[0])), X.absE(it.e_of(args[1])))
    t = X.fn("max", X.mul(it.e_of(rel), mx), it.e_of(kw.get("abs_tol", 0)))
    return it.compare("LtE", d, Num(t, "float"))


@np_("allclose")
def _allclose(it, args, kw):
    c = _isclose(it, args, kw)
    return MODELS["numpy.all"](it, [c], {}) if isinstance(c, Arr) else c


@np_("array_equal")
def _array_equal(it, args, kw):
    a, b = arr_or_scalar(it, args[0])[0], arr_or_scalar(it, args[1])[0]
    if a.shape != b.shape:
        return False
    c = it.compare("Eq", a, b)
    return MODELS["numpy.all"](it, [c], {}) if isinstance(c, Arr) else c


# ------------------------------------------------------------------ shape manipulation
def take(it, a, order, shp):
    el = a.elems()
    return it.mkarr([el[i] for i in order], shp, a.dtype)


def view(a, order, shp):
    return Arr(a.buf, [a.idx[i] for i in order], shp)


def reshape(it, a, shp):
    shp = list(shp)
    n = len(a.idx)
    if -1 in shp:
        k = prodn([s for s in shp if s != -1])
        if k == 0 or n % k:
            it.rz("ValueError", "cannot reshape")
        shp[shp.index(-1)] = n // k
    if prodn(shp) != n:
        it.rz("ValueError", f"cannot reshape array of size {n} into shape {tuple(shp)}")
    return Arr(a.buf, list(a.idx), tuple(shp))


@np_("reshape")
def _reshape(it, args, kw):
    return reshape(it, arr_or_scalar(it, args[0])[0], shape_arg(it, arg(it, args, kw, 1, "shape", kw.get("newshape"))))


@np_("ravel")
def _ravel(it, args, kw):
    a = arr_or_scalar(it, args[0])[0]
    return reshape(it, a, (len(a.idx),))


def transpose(a, axes=None):
    n = len(a.shape)
    axes = axes if axes is not None else tuple(reversed(range(n)))
    shp = tuple(a.shape[x] for x in axes)
    st = [prodn(a.shape[i + 1:]) for i in range(n)]
    import itertools
    order = []
    for ix in itertools.product(*[range(d) for d in shp]):
        order.append(sum(st[ax] * i for ax, i in zip(axes, ix)))
    return view(a, order, shp)


@np_("transpose")
def _transpose(it, args, kw):
    a = arr_or_scalar(it, args[0])[0]
    ax = arg(it, args, kw, 1, "axes")
    return transpose(a, None if ax is None else shape_arg(it, ax))


@np_("flip", "fliplr", "flipud")
def _flip(it, args, kw):
    a = arr_or_scalar(it, args[0])[0]
    ax = arg(it, args, kw, 1, "axis")
    i = tuple(slice(None, None, -1) if (ax is None or k in norm_axis(it, a, ax)) else slice(None) for k in range(len(a.shape)))
    return it.arr_get(a, i)


MODELS["numpy.flipud"] = lambda it, args, kw: it.arr_get(arr_or_scalar(it, args[0])[0], (slice(None, None, -1),))
MODELS["numpy.fliplr"] = lambda it, args, kw: it.arr_get(arr_or_scalar(it, args[0])[0], (slice(None), slice(None, None, -1)))


@np_("rot90")
def _rot90(it, args, kw):
    a = arr_or_scalar(it, args[0])[0]
    k = it.as_int(arg(it, args, kw, 1, "k", 1)) % 4
    for _ in range(k):
        a = it.arr_get(transpose(a), (slice(None, None, -1),))
    return a


@np_("concatenate", "append")
def _concat(it, args, kw):
    xs = args[0]
    arrs = [arr_or_scalar(it, x)[0] for x in it.iter_of(xs)]
    ax = arg(it, args, kw, 1, "axis", 0)
    if ax is None:
        arrs = [reshape(it, a, (len(a.idx),)) for a in arrs]
        ax = 0
    return concat(it, arrs, it.as_int(ax))


def concat(it, arrs, ax):
    nd = len(arrs[0].shape)
    if ax < 0:
        ax += nd
    for a in arrs:
        if len(a.shape) != nd or any(x != y for i, (x, y) in enumerate(zip(a.shape, arrs[0].shape)) if i != ax):
            it.rz("ValueError", "all the input array dimensions except for the concatenation axis must match exactly")
    shp = list(arrs[0].shape)
    shp[ax] = sum(a.shape[ax] for a in arrs)
    outer = prodn(shp[:ax])
    data = []
    els = [a.elems() for a in arrs]
    for o in range(outer):
        for a, el in zip(arrs, els):
            blk = prodn(a.shape[ax:])
            data += el[o * blk:(o + 1) * blk]
    dt = arrs[0].dtype
    for a in arrs[1:]:
        dt = it.res_dtype("Mult", Arr(Buf([], dt), [], (0,)), Arr(Buf([], a.dtype), [], (0,))) if a.dtype != dt else dt
    return it.mkarr(data, shp, dt)


@np_("stack")
def _stack(it, args, kw):
    arrs = [arr_or_scalar(it, x)[0] for x in it.iter_of(args[0])]
    ax = it.as_int(arg(it, args, kw, 1, "axis", 0))
    if ax < 0:
        ax += len(arrs[0].shape) + 1
    arrs = [reshape(it, a, a.shape[:ax] + (1,) + a.shape[ax:]) for a in arrs]
    return concat(it, arrs, ax)


@np_("column_stack")
def _cstack(it, args, kw):
    arrs = [arr_or_scalar(it, x)[0] for x in it.iter_of(args[0])]
    arrs = [reshape(it, a, (a.shape[0], 1)) if len(a.shape) == 1 else a for a in arrs]
    return concat(it, arrs, 1)


@np_("hstack")
def _hstack(it, args, kw):
    arrs = [arr_or_scalar(it, x)[0] for x in it.iter_of(args[0])]
    return concat(it, arrs, 0 if len(arrs[0].shape) == 1 else 1)


@np_("vstack", "row_stack")
def _vstack(it, args, kw):
    arrs = [arr_or_scalar(it, x)[0] for x in it.iter_of(args[0])]
    arrs = [reshape(it, a, (1,) + a.shape) if len(a.shape) == 1 else a for a in arrs]
    return concat(it, arrs, 0)


@np_("expand_dims")
def _expand(it, args, kw):
    a = arr_or_scalar(it, args[0])[0]
    ax = it.as_int(arg(it, args, kw, 1, "axis"))
    if ax < 0:
        ax += len(a.shape) + 1
    return reshape(it, a, a.shape[:ax] + (1,) + a.shape[ax:])


@np_("squeeze")
def _squeeze(it, args, kw):
    a = arr_or_scalar(it, args[0])[0]
    ax = arg(it, args, kw, 1, "axis")
    axs = None if ax is None else norm_axis(it, a, ax)
    return reshape(it, a, tuple(d for i, d in enumerate(a.shape) if not (d == 1 and (axs is None or i in axs))))


@np_("broadcast_to")
def _bto(it, args, kw):
    a = arr_or_scalar(it, args[0])[0]
    shp = shape_arg(it, args[1])
    el = a.elems()
    return it.mkarr([el[i] for i in it.bidx(a.shape, shp)], shp, a.dtype)


@np_("atleast_1d")
def _al1(it, args, kw):
    a = arr_or_scalar(it, args[0])[0]
    return reshape(it, a, (1,)) if a.shape == () else a


@np_("atleast_2d")
def _al2(it, args, kw):
    a = arr_or_scalar(it, args[0])[0]
    return reshape(it, a, (1,) * (2 - len(a.shape)) + a.shape) if len(a.shape) < 2 else a


@np_("tile")
def _tile(it, args, kw):
    a = arr_or_scalar(it, args[0])[0]
    reps = shape_arg(it, args[1])
    shp = (1,) * (len(reps) - len(a.shape)) + a.shape
    a = reshape(it, a, shp)
    for ax, r in enumerate(((1,) * (len(shp) - len(reps))) + reps):
        a = concat(it, [a] * r, ax) if r > 0 else a
    return it.mkarr(a.elems(), a.shape, a.dtype)


@np_("repeat")
def _repeat(it, args, kw):
    a = arr_or_scalar(it, args[0])[0]
    r = it.as_int(args[1])
    ax = arg(it, args, kw, 2, "axis")
    if ax is None:
        a = reshape(it, a, (len(a.idx),))
        return it.mkarr([x for x in a.elems() for _ in range(r)], (len(a.idx) * r,), a.dtype)
    it.unsup("repeat axis")


@np_("diff")
def _diff(it, args, kw):
    a = arr_or_scalar(it, args[0])[0]
    el = [it.el2e(x) for x in a.elems()]
    return it.mkarr([X.sub(el[i + 1], el[i]) for i in range(len(el) - 1)], (len(el) - 1,), a.dtype)


@np_("sort", "unique")
def _sort(it, args, kw):
    a = arr_or_scalar(it, args[0])[0]
    if a is not None and all(it.el2e(x).is_const() for x in a.elems()):
        xs = sorted(it.el2e(x).cval() for x in a.elems())
        return it.mkarr([X.const(x) for x in xs], (len(xs),), a.dtype)
    return Opaque(("sort", it.skey_arr(args[0])), "numpy.ndarray")


MODELS["numpy.unique"] = lambda it, args, kw: _unique(it, args, kw)


def _unique(it, args, kw):
    a = arr_or_scalar(it, args[0])[0]
    if a is not None and not kw and all(it.el2e(x).is_const() for x in a.elems()):
        xs = sorted({it.el2e(x).cval() for x in a.elems()})
        return it.mkarr([X.const(x) for x in xs], (len(xs),), a.dtype)
    return Opaque(("unique", it.skey_arr(args[0])), "numpy.ndarray")


@np_("ndindex")
def _ndindex(it, args, kw):
    import itertools
    shp = shape_arg(it, args[0]) if len(args) == 1 else tuple(it.as_int(a) for a in args)
    return PyIter(list(itertools.product(*[range(d) for d in shp])))


@np_("ndenumerate")
def _ndenum(it, args, kw):
    import itertools
    a = arr_or_scalar(it, args[0])[0]
    return PyIter([(ix, it.elem(a, k)) for k, ix in enumerate(itertools.product(*[range(d) for d in a.shape]))])


@np_("nan_to_num")
def _n2n(it, args, kw):
    a = arr_or_scalar(it, args[0])[0]
    return it.mkarr([X.ZERO if it.el2e(x).t == X.NAN.t else it.el2e(x) for x in a.elems()], a.shape, a.dtype)


@np_("roll")
def _roll(it, args, kw):
    a = arr_or_scalar(it, args[0])[0]
    if len(a.shape) != 1 and arg(it, args, kw, 2, "axis") is not None:
        it.unsup("roll axis")
    s = it.as_int(args[1])
    el = a.elems()
    n = len(el)
    return it.mkarr([el[(i - s) % n] for i in range(n)], a.shape, a.dtype)


@np_("einsum")
def _einsum(it, args, kw):
    spec = args[0].replace(" ", "")
    ins, out = spec.split("->") if "->" in spec else (spec, None)
    ops = [arr_or_scalar(it, a)[0] for a in args[1:]]
    labels = ins.split(",")
    dims = {}
    for l, a in zip(labels, ops):
        for c, d in zip(l, a.shape):
            dims[c] = d
    if out is None:
        import collections
        cnt = collections.Counter("".join(labels))
        out = "".join(sorted(c for c in cnt if cnt[c] == 1))
    import itertools
    summed = [c for c in dims if c not in out]
    els = [a.elems() for a in ops]
    res = []
    for ix in itertools.product(*[range(dims[c]) for c in out]):
        env = dict(zip(out, ix))
        terms = []
        for jx in itertools.product(*[range(dims[c]) for c in summed]):
            env.update(zip(summed, jx))
            p = X.ONE
            for l, a, el in zip(labels, ops, els):
                pos = 0
                for c, d in zip(l, a.shape):
                    pos = pos * d + env[c]
                p = X.mul(p, it.el2e(el[pos]))
            terms.append(p)
        res.append(sum_all(terms))
    shp = tuple(dims[c] for c in out)
    if shp == ():
        return Num(res[0], "npfloat")
    return it.mkarr(res, shp, "float64" if all(X.is_real(x) for x in res) else "complex128")


@np_("polyval")
def _polyval(it, args, kw):
    p = [it.el2e(x) for x in arr_or_scalar(it, args[0])[0].elems()]
    v = args[1]
    r = 0
    for c in p:
        r = it.binop("Add", it.binop("Mult", r, v), Num(c, "npfloat"))
    return r


@np_("iinfo", "finfo")
def _finfo(it, args, kw):
    n = dtype_name(args[0]) or "float64"
    return ExtObj("finfo", name=n)


@np_("dtype")
def _dtype(it, args, kw):
    return mkdtype(get_dtype(it, args[0], None))


@np_("issubdtype")
def _issub(it, args, kw):
    a = dtype_name(args[0])
    b = args[1].name.split(".")[-1] if isinstance(args[1], ExtRef) else None
    if a and b in _ABSTRACT_DT:
        return {"floating": cat(a) == "float", "integer": cat(a) == "int", "number": cat(a) in ("int", "float", "complex"), "complexfloating": cat(a) == "complex",
                "signedinteger": a.startswith("int"), "inexact": cat(a) in ("float", "complex")}[b]
    if a and dtype_name(args[1]):
        return a == dtype_name(args[1])
    return Cond("opaque", ("issubdtype", str(args[0]), str(args[1])))


for _t in _DT:
    def _ctor(it, args, kw, _t=_t):
        if not args:
            return it.el2v(it.cast_el(0, _DT[_t]), _DT[_t])
        v = args[0]
        if isinstance(v, (Arr, PyList, tuple)):
            return asarray(it, v, _DT[_t])
        if isinstance(v, Opaque):
            return Opaque((_t, v.key))
        return it.el2v(it.cast_el(v, _DT[_t]), _DT[_t])
    MODELS.setdefault("numpy." + _t, _ctor)


@np_("errstate", "printoptions")
def _errstate(it, args, kw):
    return ExtObj("nullctx")


@np_("seterr", "set_printoptions")
def _seterr(it, args, kw):
    return None


@np_("vectorize")
def _vectorize(it, args, kw):
    return ExtObj("vectorize", f=args[0])


@np_("frompyfunc")
def _frompyfunc(it, args, kw):
    return ExtObj("vectorize", f=args[0])


@np_("apply_along_axis")
def _aaa(it, args, kw):
    it.unsup("apply_along_axis")


@np_("may_share_memory", "shares_memory")
def _share(it, args, kw):
    a, b = args
    return a.buf is b.buf


# ------------------------------------------------------------------ numpy.random / scipy / numba
@model("scipy.special.jv", "scipy.special.jn")
def _jv(it, args, kw):
    n, x = args
    a, sc = arr_or_scalar(it, x)
    if a is None:
        return Opaque(("jv", it.skey(n), it.skey_arr(x)))
    en = it.e_of(n)
    out = []
    for v in a.elems():
        e = it.el2e(v)
        out.append(X.fn("jv", en, e) if not e.is_zero() else (X.ONE if en.is_zero() else X.ZERO))
    return Num(out[0], "npfloat") if a.shape == () else it.mkarr(out, a.shape, "float64")


MODELS["scipy.special.j1"] = lambda it, args, kw: _jv(it, [1, args[0]], kw)
MODELS["scipy.special.j0"] = lambda it, args, kw: _jv(it, [0, args[0]], kw)


def _reflect(i, n):
    while not 0 <= i < n:
        if i < 0:
            i = -1 - i
        else:
            i = 2 * n - 1 - i
    return i


@model("scipy.ndimage.correlate")
def _correlate(it, args, kw):
    """Correlation is the convolution with the kernel mirrored in both directions (odd kernels; others aren't described)."""
    w = arr_or_scalar(it, arg(it, args, kw, 1, "weights"))[0]
    if w is None or any(n % 2 == 0 for n in w.shape):
        return Opaque(("correlate", it.skey_arr(args[0])), "numpy.ndarray")
    kw = {k: v for k, v in kw.items() if k != "weights"}
    return _convolve(it, [args[0], it.mkarr([it.el2e(x) for x in w.elems()][::-1], w.shape, w.dtype)] + list(args[2:]), kw)


@model("scipy.ndimage.convolve")
def _convolve(it, args, kw):
    img, w = arr_or_scalar(it, args[0])[0], arr_or_scalar(it, arg(it, args, kw, 1, "weights"))[0]
    if img is None or w is None:
        return Opaque(("convolve", it.skey_arr(args[0])), "numpy.ndarray")
    if len(img.shape) != len(w.shape):
        it.rz("RuntimeError", "filter weights array has incorrect shape.")
    mode = arg(it, args, kw, 3, "mode", "reflect")
    od = arg(it, args, kw, 2, "output", None)
    dt = img.dtype if od is None else get_dtype(it, od, img.dtype)
    it.event("convolve", img, w, mode, dt)
    if len(img.shape) == 2 and mode in ("reflect", "constant", "nearest", "wrap") and (len(img.idx) <= 64 or len(img.idx) * len(w.idx) <= 20000):
        R, C = img.shape
        h, q = w.shape
        ei, ew = [it.el2e(x) for x in img.elems()], [it.el2e(x) for x in w.elems()]
        cval = it.e_of(arg(it, args, kw, 4, "cval", 0))
        out = []
        for i in range(R):
            for j in range(C):
                t = []
                for a in range(h):
                    for b in range(q):
                        ii, jj = i - (a - h // 2), j - (b - q // 2)
                        if h % 2 == 0:
                            ii = i - (a - (h - 1) // 2) - 0
                        if mode == "reflect":
                            v = ei[_reflect(ii, R) * C + _reflect(jj, C)]
                        elif mode == "nearest":
                            v = ei[min(max(ii, 0), R - 1) * C + min(max(jj, 0), C - 1)]
                        elif mode == "wrap":
                            v = ei[(ii % R) * C + jj % C]
                        else:
                            v = ei[ii * C + jj] if 0 <= ii < R and 0 <= jj < C else cval
                        t.append(X.mul(ew[a * q + b], v))
                s = sum_all(t)
                out.append(X.fn("trunc", s) if cat(dt) == "int" else s)
        return it.mkarr(out, img.shape, dt)
    k = X.const(abs(hash((tuple(it.el2e(x) for x in img.elems()), tuple(it.el2e(x) for x in w.elems()), str(mode)))) % 10**12)
    return it.mkarr([X.opaque("conv", X.const(i), k) for i in range(len(img.idx))], img.shape, dt)


@model("numba.njit", "numba.jit")
def _njit(it, args, kw):
    if args and isinstance(args[0], Func):
        return args[0]
    return ExtObj("numba_dec")


@model("numba.prange")
def _prange(it, args, kw):
    return MODELS["builtins.range"](it, args, kw)


# ------------------------------------------------------------------ math
def _mu(name, fnx, integer=False):
    def f(it, args, kw):
        v = args[0]
        if isinstance(v, Opaque):
            return Opaque((name, v.key))
        if not it.isnum(v) and not (isinstance(v, Arr) and len(v.idx) == 1):
            it.rz("TypeError", f"must be real number, not {it.tname(v)}")
        e = it.e_of(v)
        r = fnx(it, e)
        return mknum(r, "int") if integer else Num(r, "float")
    MODELS["math." + name] = f


def _dom(it, e):
    if X.sign(e) == -1:
        it.rz("ValueError", "math domain error")
    return X.fn("sqrt", e)


_mu("sqrt", _dom)
for _n in ("cos", "sin", "tan", "exp", "sinh", "cosh", "tanh"):
    _mu(_n, lambda it, e, _n=_n: X.fn(_n, e))
_mu("atan", lambda it, e: X.fn("arctan", e))
_mu("acos", lambda it, e: X.fn("arccos", e))
_mu("asin", lambda it, e: X.fn("arcsin", e))
_mu("log", lambda it, e: X.fn("log", e))
_mu("fabs", lambda it, e: X.fn("abs", e))
_mu("radians", lambda it, e: X.scale(X.mul(e, X.PI), Fraction(1, 180)))
_mu("degrees", lambda it, e: X.div(X.scale(e, 180), X.PI))
_mu("floor", lambda it, e: X.fn("floor", e), True)
_mu("ceil", lambda it, e: X.fn("ceil", e), True)
_mu("trunc", lambda it, e: X.fn("trunc", e), True)
_mu("isqrt", lambda it, e: X.fn("floor", X.fn("sqrt", e)), True)


@model("math.factorial")
def _fact(it, args, kw):
    v = args[0]
    if isinstance(v, Num) and v.kind in ("float", "npfloat"):
        it.rz("TypeError", "'float' object cannot be interpreted as an integer")
    e = it.e_of(v)
    if e.is_const():
        if e.cval() < 0:
            it.rz("ValueError", "factorial() not defined for negative values")
        return _m.factorial(int(e.cval()))
    return Num(X.fn("factorial", e), "int")


@model("math.comb")
def _comb(it, args, kw):
    return _m.comb(it.as_int(args[0]), it.as_int(args[1]))


@model("math.gcd")
def _gcd(it, args, kw):
    return _m.gcd(*[it.as_int(a) for a in args])


@model("math.prod")
def _mprod(it, args, kw):
    r = kw.get("start", 1)
    for x in it.iter_of(args[0]):
        r = it.binop("Mult", r, x)
    return r


@model("math.fsum")
def _fsum(it, args, kw):
    r = Num(X.ZERO, "float")
    for x in it.iter_of(args[0]):
        r = it.binop("Add", r, x)
    return r


@model("math.pow")
def _mpow(it, args, kw):
    r = it.num_op("Pow", args[0], args[1])
    return Num(it.e_of(r), "float")


@model("math.atan2")
def _matan2(it, args, kw):
    return Num(X.fn("arctan2", it.e_of(args[0]), it.e_of(args[1])), "float")


@model("math.hypot")
def _mhypot(it, args, kw):
    return Num(X.fn("sqrt", sum_all([X.mul(it.e_of(a), it.e_of(a)) for a in args])), "float")


@model("math.fmod")
def _fmod(it, args, kw):
    return it.num_op("Mod", args[0], args[1])


# ------------------------------------------------------------------ builtins
@bi("len")
def _len(it, args, kw):
    v = args[0]
    if isinstance(v, (str, tuple, bytes)):
        return len(v)
    if isinstance(v, PyList):
        return len(v.items)
    if isinstance(v, (PyDict, PySet)):
        return len(v.d)
    if isinstance(v, RangeV):
        return len(v.r)
    if isinstance(v, Arr):
        if not v.shape:
            it.rz("TypeError", "len() of unsized object")
        return v.shape[0]
    if isinstance(v, Obj):
        f = v.cls.lookup("__len__")
        if f is not None:
            return it.call(Bound(f, v), [], {})
    if isinstance(v, Opaque):
        return Num(X.opaque("len", v, lo=Fraction(0), integer=True), "int")
    if isinstance(v, SStr):
        n = sum(len(p) for p in v.parts if isinstance(p, str))
        if n:
            return Num(X.opaque("len", v, lo=Fraction(n), integer=True), "int")
        return Num(X.opaque("len", v, lo=Fraction(0), integer=True), "int")
    it.rz("TypeError", f"object of type '{it.tname(v)}' has no len()")


@bi("abs")
def bi_abs(it, args, kw):
    v = args[0]
    if isinstance(v, (bool, int)):
        return abs(v)
    if isinstance(v, Num):
        k = v.kind
        if k in ("complex", "npcomplex"):
            k = "float" if k == "complex" else "npfloat"
        return mknum(X.absE(v.e), k)
    if isinstance(v, Arr):
        return MODELS["numpy.abs"](it, [v], {})
    if isinstance(v, Obj) and v.cls.lookup("__abs__") is not None:
        return it.call(Bound(v.cls.lookup("__abs__"), v), [], {})
    if isinstance(v, Opaque):
        return Opaque(("abs", v.key))
    it.rz("TypeError", f"bad operand type for abs(): {it.tname(v)}")


def _bmaxmin(name):
    def f(it, args, kw):
        xs = list(it.iter_of(args[0])) if len(args) == 1 else list(args)
        if not xs:
            if "default" in kw:
                return kw["default"]
            it.rz("ValueError", f"{name}() arg is an empty sequence")
        key = kw.get("key")
        if key is None and all(it.isnum(x) for x in xs):
            if all(isinstance(x, int) for x in xs):
                return max(xs) if name == "max" else min(xs)
            r = X.fn(name, *[it.e_of(x) for x in xs]) if len(xs) > 1 else it.e_of(xs[0])
            k = "int"
            for x in xs:
                k = it.join_kind(k, it.kind_of(x))
            for x in xs:
                if it.e_of(x) == r:
                    return x
            return mknum(r, k)
        best = xs[0]
        kb = it.call(key, [best], {}) if key is not None else best
        for x in xs[1:]:
            kx = it.call(key, [x], {}) if key is not None else x
            if it.truth(it.compare("Gt" if name == "max" else "Lt", kx, kb)):
                best, kb = x, kx
        return best
    MODELS["builtins." + name] = f


_bmaxmin("max")
_bmaxmin("min")


@bi("sum")
def _bsum(it, args, kw):
    r = arg(it, args, kw, 1, "start", 0)
    for x in it.iter_of(args[0]):
        r = it.binop("Add", r, x)
    return r


@bi("round")
def _bround(it, args, kw):
    v = args[0]
    nd = arg(it, args, kw, 1, "ndigits")
    if isinstance(v, Opaque):
        return Opaque(("round", v.key, nd))
    if isinstance(v, Arr) and v.shape != ():
        return MODELS["numpy.round"](it, [v, nd or 0], {})
    if not it.isnum(v) and not isinstance(v, Arr):
        it.rz("TypeError", f"type {it.tname(v)} doesn't define __round__ method")
    k = it.kind_of(v) if not isinstance(v, Arr) else "npfloat"
    if nd is None:
        return mknum(X.fn("round", it.e_of(v)), "int")
    if k in ("int", "npint"):
        return v
    return Num(roundE(it.e_of(v), it.as_int(nd)), k)


@bi("isinstance")
def _isinstance(it, args, kw):
    return it.isinst(args[0], args[1])


@bi("issubclass")
def _issubclass(it, args, kw):
    a, b = args
    if isinstance(a, ClassV):
        bs = b if isinstance(b, tuple) else (b,)
        return any(x in a.mro() for x in bs if isinstance(x, ClassV))
    if isinstance(a, ExcT):
        bs = b if isinstance(b, tuple) else (b,)
        return any(issubclass(a.t, x.t) for x in bs if isinstance(x, ExcT))
    return Cond("opaque", ("issubclass", str(a), str(b)))


@bi("hasattr")
def _hasattr(it, args, kw):
    try:
        it.getattr(args[0], args[1])
        return True
    except PyRaise as e:
        if issubclass(e.exc.pytype(), AttributeError):
            return False
        raise


@bi("getattr")
def _getattr(it, args, kw):
    n = args[1]
    if not isinstance(n, str):
        it.unsup("getattr with symbolic name")
    if len(args) == 3:
        try:
            return it.getattr(args[0], n)
        except PyRaise as e:
            if issubclass(e.exc.pytype(), AttributeError):
                return args[2]
            raise
    return it.getattr(args[0], n)


@bi("setattr")
def _setattr(it, args, kw):
    if not isinstance(args[1], str):
        it.unsup("setattr with symbolic name")
    it.setattr(args[0], args[1], args[2])


@bi("delattr")
def _delattr(it, args, kw):
    o, n = args
    if isinstance(o, Obj) and n in o.attrs:
        it.touch(o)
        del o.attrs[n]
        return None
    it.rz("AttributeError", n)


@bi("enumerate")
def _enumerate(it, args, kw):
    s = it.as_int(arg(it, args, kw, 1, "start", 0))
    return PyIter([(i + s, v) for i, v in enumerate(it.iter_of(args[0]))])


@bi("zip")
def _zip(it, args, kw):
    its = [a if isinstance(a, LazyIter) else list(it.iter_of(a)) for a in args]
    fin = [x for x in its if isinstance(x, list)]
    if not fin:
        it.unsup("zip of infinite iterators")
    n = min(len(x) for x in fin)
    if kw.get("strict") is True and len({len(x) for x in fin}) > 1:
        it.rz("ValueError", "zip() arguments have different lengths")
    cols = [x[:n] if isinstance(x, list) else [next(x.gen) for _ in range(n)] for x in its]
    return PyIter(list(zip(*cols)))


@bi("map")
def _map(it, args, kw):
    f = args[0]
    cols = [list(it.iter_of(a)) for a in args[1:]]
    return PyIter([it.call(f, list(t), {}) for t in zip(*cols)])


@bi("filter")
def _filter(it, args, kw):
    f = args[0]
    return PyIter([x for x in it.iter_of(args[1]) if it.truth(x if f is None else it.call(f, [x], {}))])


@bi("sorted")
def _sorted(it, args, kw):
    xs = list(it.iter_of(args[0]))
    return it.mklist(sort_items(it, xs, kw))


def sort_items(it, xs, kw):
    key = kw.get("key")
    ks = [it.call(key, [x], {}) if key is not None else x for x in xs]
    out = []
    for x, k in zip(xs, ks):
        # stable insertion
        p = len(out)
        while p > 0 and it.truth(it.compare("Lt", k, out[p - 1][1])):
            p -= 1
        out.insert(p, (x, k))
    r = [x for x, _ in out]
    if it.truth(kw.get("reverse", False)):
        r.reverse()
    return r


@bi("reversed")
def _reversed(it, args, kw):
    v = args[0]
    if isinstance(v, PyDict):
        return PyIter([k for k, _ in reversed(list(v.d.values()))])
    return PyIter(list(reversed(list(it.iter_of(v)))))


@bi("any")
def _bany(it, args, kw):
    for x in it.iter_of(args[0]):
        if it.truth(x):
            return True
    return False


@bi("all")
def _ball(it, args, kw):
    for x in it.iter_of(args[0]):
        if not it.truth(x):
            return False
    return True


@bi("print")
def _print(it, args, kw):
    it.event("print", tuple(args))


@bi("callable")
def _callable(it, args, kw):
    v = args[0]
    if isinstance(v, Opaque):
        return Cond("opaque", ("callable", v.key))
    if isinstance(v, Obj):
        return v.cls.lookup("__call__") is not None
    return isinstance(v, (Func, Bound, ClassV, Builtin, ExtRef, Meth, ExcT, NTType)) or (isinstance(v, ExtObj) and v.typ in ("partial", "vectorize"))


@bi("id")
def _id(it, args, kw):
    v = args[0]
    o = v.buf if isinstance(v, Arr) else v
    return Num(X.opaque("id", X.const(id(o)), integer=True, lo=Fraction(1)), "int")


@bi("iter")
def _biter(it, args, kw):
    v = args[0]
    if isinstance(v, (PyIter, LazyIter)):
        return v
    return PyIter(list(it.iter_of(v)))


@bi("next")
def _next(it, args, kw):
    v = args[0]
    if isinstance(v, LazyIter):
        return next(v.gen)
    if isinstance(v, PyIter):
        if v.pos < len(v.items):
            v.pos += 1
            return v.items[v.pos - 1]
        if len(args) > 1:
            return args[1]
        it.rz("StopIteration", "")
    if isinstance(v, Obj):
        f = v.cls.lookup("__next__")
        if f is not None:
            return it.call(Bound(f, v), [], {})
    it.unsup("next()")


@bi("repr", "ascii")
def _repr(it, args, kw):
    return it.to_str(args[0], True)


@bi("pow")
def _pow(it, args, kw):
    if len(args) == 3:
        return pow(*[it.as_int(a) for a in args])
    return it.binop("Pow", args[0], args[1])


@bi("divmod")
def _divmod(it, args, kw):
    return (it.binop("FloorDiv", *args), it.binop("Mod", *args))


@bi("hash")
def _hash(it, args, kw):
    it.hkey(args[0])
    return Num(X.opaque("hash", str(it.hkey(args[0])), integer=True), "int")


@bi("ord")
def _ord(it, args, kw):
    return ord(args[0])


@bi("chr")
def _chr(it, args, kw):
    return chr(it.as_int(args[0]))


@bi("format")
def _format(it, args, kw):
    return SStr([("fmt", it.skey(args[0]), args[1] if len(args) > 1 else "")])


@bi("vars")
def _vars(it, args, kw):
    return it.getattr(args[0], "__dict__")


@bi("dir")
def _dir(it, args, kw):
    return Opaque(("dir", it.skey(args[0]) if args else ""))


@bi("property")
def _property(it, args, kw):
    return Prop(args[0], args[1] if len(args) > 1 else None)


@bi("staticmethod")
def _static(it, args, kw):
    return StaticM(args[0])


@bi("classmethod")
def _classm(it, args, kw):
    return ClassM(args[0])


@bi("super")
def _super(it, args, kw):
    if len(args) == 2:
        return ExtObj("super", cls=args[0], obj=args[1])
    it.unsup("super() form")


@bi("object_init")
def _oinit(it, args, kw):
    return None


@bi("object")
def _object(it, args, kw):
    return ExtObj("object")


@bi("int")
def _int(it, args, kw):
    if not args:
        return 0
    v = args[0]
    if isinstance(v, (bool, int)):
        return int(v)
    if isinstance(v, Num):
        if v.kind in ("complex", "npcomplex"):
            it.rz("TypeError", "int() argument must be a real number, not 'complex'")
        if v.e.t == X.NAN.t:
            it.rz("ValueError", "cannot convert float NaN to integer")
        if v.e.t == X.INF.t:
            it.rz("OverflowError", "cannot convert float infinity to integer")
        return mknum(X.fn("trunc", v.e), "int")
    if isinstance(v, Cond):
        return Num(it.e_of(v), "int")
    if isinstance(v, str):
        try:
            return int(v, *[it.as_int(a) for a in args[1:]])
        except ValueError:
            it.rz("ValueError", f"invalid literal for int(): {v}")
    if isinstance(v, Arr):
        if len(v.idx) == 1:
            return _int(it, [it.elem(v, 0)], {})
        it.rz("TypeError", "only length-1 arrays can be converted to Python scalars")
    if isinstance(v, (Opaque, SStr)):
        return Num(X.opaque("int", it.skey(v), integer=True), "int")
    it.rz("TypeError", f"int() argument must be a string or a real number, not '{it.tname(v)}'")


@bi("float")
def _float(it, args, kw):
    if not args:
        return Num(X.ZERO, "float")
    v = args[0]
    if isinstance(v, str):
        try:
            f = float(v)
        except ValueError:
            it.rz("ValueError", f"could not convert string to float: {v!r}")
        if f != f:
            return Num(X.NAN, "float")
        if f in (float("inf"), float("-inf")):
            return Num(X.INF if f > 0 else X.neg(X.INF), "float")
        return Num(X.const(Fraction(v.strip())), "float")
    if it.isnum(v):
        if it.kind_of(v) in ("complex", "npcomplex"):
            it.rz("TypeError", "float() argument must be a real number, not 'complex'")
        return Num(it.e_of(v), "float")
    if isinstance(v, Arr):
        if len(v.idx) == 1:
            return _float(it, [it.elem(v, 0)], {})
        it.rz("TypeError", "only length-1 arrays can be converted to Python scalars")
    if isinstance(v, (Opaque, SStr)):
        return Num(X.opaque("float", it.skey(v)), "float")
    it.rz("TypeError", f"float() argument must be a string or a real number, not '{it.tname(v)}'")


@bi("complex")
def _complex(it, args, kw):
    re_ = arg(it, args, kw, 0, "real", 0)
    im_ = arg(it, args, kw, 1, "imag", 0)
    return Num(X.add(it.e_of(re_), X.mul(X.I, it.e_of(im_))), "complex")


@bi("bool")
def _bool(it, args, kw):
    if not args:
        return False
    if isinstance(args[0], Cond):
        return args[0]
    return it.truth(args[0])


@bi("str")
def _str(it, args, kw):
    if not args:
        return ""
    return it.to_str(args[0])


@bi("bytes")
def _bytes(it, args, kw):
    return Opaque(("bytes",))


@bi("list")
def _list(it, args, kw):
    return it.mklist(it.iter_of(args[0]) if args else [])


@bi("tuple")
def _tuple(it, args, kw):
    return tuple(it.iter_of(args[0])) if args else ()


@bi("dict")
def _dict(it, args, kw):
    d = it.mkdict()
    if args:
        v = args[0]
        if isinstance(v, PyDict):
            d.d.update(v.d)
        else:
            for p in it.iter_of(v):
                k, x = list(it.iter_of(p))
                d.d[it.hkey(k)] = (k, x)
    for k, x in kw.items():
        d.d[k] = (k, x)
    return d


@bi("set")
def _set(it, args, kw):
    return it.mkset(it.iter_of(args[0]) if args else [])


@bi("frozenset")
def _fset(it, args, kw):
    s = it.mkset(it.iter_of(args[0]) if args else [])
    s.frozen = True
    return s


@bi("range")
def _range(it, args, kw):
    for a in args:
        if isinstance(a, Num) and a.kind in ("float", "npfloat"):
            it.rz("TypeError", "'float' object cannot be interpreted as an integer")
    xs = [it.as_int(a) for a in args]
    if len(xs) == 3 and xs[2] == 0:
        it.rz("ValueError", "range() arg 3 must not be zero")
    return RangeV(range(*xs))


@bi("slice")
def _slice(it, args, kw):
    return slice(*[it.opt_int(a) for a in args])


@bi("type")
def _type(it, args, kw):
    v = args[0]
    if len(args) != 1:
        it.unsup("type() with 3 arguments")
    if isinstance(v, bool):
        return Builtin("bool")
    if isinstance(v, int):
        return Builtin("int")
    if isinstance(v, Num):
        return {"int": Builtin("int"), "float": Builtin("float"), "complex": Builtin("complex"), "npint": ExtRef("numpy.int64"), "npfloat": ExtRef("numpy.float64"),
                "npcomplex": ExtRef("numpy.complex128")}[v.kind]
    for t, n in ((str, "str"), (SStr, "str"), (PyList, "list"), (PyDict, "dict"), (PySet, "set")):
        if isinstance(v, t):
            return Builtin(n)
    if isinstance(v, NT):
        return v.nt
    if isinstance(v, tuple):
        return Builtin("tuple")
    if isinstance(v, Obj):
        return v.cls
    if isinstance(v, Exc):
        return v.cls
    if isinstance(v, Arr):
        return ExtRef("numpy.ndarray")
    if isinstance(v, Cond):
        return Builtin("bool")
    if isinstance(v, ExtObj):
        return ExtRef(_EXTTYPES.get(v.typ, v.typ))
    if isinstance(v, RangeV):
        return Builtin("range")
    if v is None:
        return ExtRef("types.NoneType")
    return Opaque(("type", it.skey(v)))


@bi("bin", "hex")
def _bin2(it, args, kw):
    return bin(it.as_int(args[0]))


@bi("input")
def _input(it, args, kw):
    return Opaque(("input",))


@bi("__import__")
def _imp(it, args, kw):
    it.unsup("__import__")


_EXTTYPES = {"path": "pathlib.PosixPath"}


# ------------------------------------------------------------------ misc standard library
@model("warnings.warn")
def _warn(it, args, kw):
    it.event("warn", arg(it, args, kw, 0, "message"), arg(it, args, kw, 1, "category"))


@model("warnings.simplefilter", "warnings.filterwarnings", "warnings.resetwarnings")
def _wf(it, args, kw):
    it.event("warnfilter", args)


@model("warnings.catch_warnings")
def _cw(it, args, kw):
    return ExtObj("nullctx")


@model("contextlib.suppress")
def _suppress(it, args, kw):
    return ExtObj("suppress", excs=tuple(args))


@model("contextlib.nullcontext")
def _nullctx(it, args, kw):
    return ExtObj("nullctx", v=args[0] if args else None)


@model("time.perf_counter", "time.time", "time.monotonic", "time.process_time")
def _time(it, args, kw):
    return Num(X.sym(it.fresh("time"), lo=0), "float")


@model("time.perf_counter_ns", "time.time_ns")
def _timens(it, args, kw):
    return Num(X.sym(it.fresh("timens"), lo=0, integer=True), "int")


@model("time.sleep")
def _sleep(it, args, kw):
    w = getattr(it, "mp_env", None)
    if w is not None and hasattr(w, "slept"):
        w.sleep()
    return None


@model("random.uniform", "random.random", "random.gauss", "numpy.random.uniform", "numpy.random.random", "numpy.random.rand")
def _uniform(it, args, kw):
    it.event("random", "uniform", tuple(args))
    if len(args) >= 2:
        a, b = it.e_of(args[0]), it.e_of(args[1])
        lo, hi = (a.cval() if a.is_const() else None), (b.cval() if b.is_const() else None)
        return Num(X.sym(it.fresh("rnd") + f"[{lo},{hi}]", lo=lo, hi=hi), "float")
    return Num(X.sym(it.fresh("rnd01"), lo=0, hi=1), "float")


@model("random.choice")
def _choice(it, args, kw):
    xs = list(it.iter_of(args[0]))
    it.event("random", "choice", tuple(xs[:4]))
    if not xs:
        it.rz("IndexError", "Cannot choose from an empty sequence")
    pick = getattr(it, "choice_hook", None)
    if pick is not None:
        return pick(it, xs)
    for i, x in enumerate(xs[:-1]):
        if i >= 2:
            return x
        if it.decide(Cond("opaque", ("choice", it.fresh("c"), i))):
            return x
    return xs[-1]


@model("random.randint", "random.randrange")
def _randint(it, args, kw):
    it.event("random", "randint", tuple(args))
    a, b = it.as_int(args[0]), it.as_int(args[1])
    return Num(X.sym(it.fresh("rint"), lo=a, hi=b, integer=True), "int")


@model("random.seed", "numpy.random.seed")
def _seed(it, args, kw):
    it.event("random", "seed", tuple(args))


@model("random.shuffle")
def _shuffle(it, args, kw):
    it.touch(args[0])
    it.event("random", "shuffle", ())


@model("functools.partial")
def _partial(it, args, kw):
    return ExtObj("partial", f=args[0], args=list(args[1:]), kw=dict(kw))


@model("functools.lru_cache", "functools.cache")
def _lru(it, args, kw):
    if args and isinstance(args[0], Func):
        args[0].cache = {}
        return args[0]
    return ExtObj("lru_dec")


@model("functools.wraps")
def _wraps(it, args, kw):
    return ExtObj("ident_dec")


@model("functools.reduce")
def _reduce(it, args, kw):
    xs = list(it.iter_of(args[1]))
    r = args[2] if len(args) > 2 else xs.pop(0)
    for x in xs:
        r = it.call(args[0], [r, x], {})
    return r


@model("collections.namedtuple")
def _nt(it, args, kw):
    f = arg(it, args, kw, 1, "field_names")
    fs = f.replace(",", " ").split() if isinstance(f, str) else list(it.iter_of(f))
    d = kw.get("defaults")
    return NTType(args[0], fs, list(it.iter_of(d)) if d is not None else [])


@model("collections.OrderedDict")
def _od(it, args, kw):
    return _dict(it, args, kw)


@model("collections.defaultdict")
def _dd(it, args, kw):
    d = it.mkdict()
    return ExtObj("defaultdict", f=args[0] if args else None, d=d)


@model("collections.deque")
def _deque(it, args, kw):
    return it.mklist(it.iter_of(args[0]) if args else [])


@model("collections.Counter")
def _counter(it, args, kw):
    d = it.mkdict()
    for x in (it.iter_of(args[0]) if args else []):
        k = it.hkey(x)
        d.d[k] = (x, it.binop("Add", d.d[k][1], 1) if k in d.d else 1)
    return d


@model("dataclasses.dataclass")
def _dc(it, args, kw):
    return ExtObj("dataclass_dec")


@model("dataclasses.field")
def _field(it, args, kw):
    return ExtObj("field", **{k: kw.get(k) for k in ("default", "default_factory")})


@model("itertools.product")
def _product(it, args, kw):
    import itertools
    return PyIter(list(itertools.product(*[list(it.iter_of(a)) for a in args], repeat=it.as_int(kw.get("repeat", 1)))))


@model("itertools.chain")
def _chain(it, args, kw):
    return PyIter([x for a in args for x in it.iter_of(a)])


@model("itertools.chain.from_iterable")
def _chainfi(it, args, kw):
    return PyIter([x for a in it.iter_of(args[0]) for x in it.iter_of(a)])


@model("itertools.count")
def _count(it, args, kw):
    import itertools
    return LazyIter(itertools.count(it.as_int(args[0]) if args else 0, it.as_int(args[1]) if len(args) > 1 else 1))


@model("itertools.cycle")
def _cycle(it, args, kw):
    import itertools
    return LazyIter(itertools.cycle(list(it.iter_of(args[0]))))


@model("itertools.repeat")
def _irepeat(it, args, kw):
    import itertools
    if len(args) > 1:
        return PyIter([args[0]] * it.as_int(args[1]))
    return LazyIter(itertools.repeat(args[0]))


@model("itertools.combinations", "itertools.permutations")
def _comb2(it, args, kw):
    import itertools
    return PyIter(list(itertools.combinations(list(it.iter_of(args[0])), it.as_int(args[1]))))


@model("itertools.accumulate")
def _accum(it, args, kw):
    out = []
    f = args[1] if len(args) > 1 else None
    for x in it.iter_of(args[0]):
        out.append(x if not out else (it.binop("Add", out[-1], x) if f is None else it.call(f, [out[-1], x], {})))
    return PyIter(out)


@model("itertools.islice")
def _islice(it, args, kw):
    import itertools
    n = [it.opt_int(a) for a in args[1:]]
    return PyIter(list(itertools.islice(it.iter_of(args[0]), *n)))


@model("itertools.takewhile")
def _takewhile(it, args, kw):
    out = []
    for x in it.iter_of(args[1]):
        if not it.truth(it.call(args[0], [x], {})):
            break
        out.append(x)
    return PyIter(out)


@model("itertools.starmap")
def _starmap(it, args, kw):
    return PyIter([it.call(args[0], list(it.iter_of(x)), {}) for x in it.iter_of(args[1])])


@model("itertools.zip_longest")
def _zipl(it, args, kw):
    import itertools
    return PyIter(list(itertools.zip_longest(*[list(it.iter_of(a)) for a in args], fillvalue=kw.get("fillvalue"))))


@model("itertools.pairwise")
def _pairwise(it, args, kw):
    xs = list(it.iter_of(args[0]))
    return PyIter(list(zip(xs, xs[1:])))


for _on, _oo in (("add", "Add"), ("sub", "Sub"), ("mul", "Mult"), ("truediv", "Div"), ("floordiv", "FloorDiv"), ("mod", "Mod"), ("pow", "Pow"), ("matmul", "MatMult")):
    MODELS["operator." + _on] = lambda it, args, kw, _oo=_oo: it.binop(_oo, args[0], args[1])
for _on, _oo in (("eq", "Eq"), ("ne", "NotEq"), ("lt", "Lt"), ("le", "LtE"), ("gt", "Gt"), ("ge", "GtE"), ("is_", "Is"), ("is_not", "IsNot")):
    MODELS["operator." + _on] = lambda it, args, kw, _oo=_oo: it.compare(_oo, args[0], args[1])
MODELS["operator.neg"] = lambda it, args, kw: it.unary("USub", args[0])
MODELS["operator.abs"] = bi_abs
MODELS["operator.not_"] = lambda it, args, kw: not it.truth(args[0])
MODELS["operator.index"] = lambda it, args, kw: args[0]
MODELS["operator.itemgetter"] = lambda it, args, kw: ExtObj("itemgetter", keys=list(args))
MODELS["operator.attrgetter"] = lambda it, args, kw: ExtObj("attrgetter", keys=list(args))


@model("copy.copy")
def _ccopy(it, args, kw):
    return shallow(it, args[0])


def shallow(it, v):
    if isinstance(v, PyList):
        return it.mklist(v.items)
    if isinstance(v, PyDict):
        d = it.mkdict()
        d.d.update(v.d)
        return d
    if isinstance(v, PySet):
        return PySet(dict(v.d), "local", it.epoch, it.loc())
    if isinstance(v, Arr):
        return it.mkarr(v.elems(), v.shape, v.dtype)
    if isinstance(v, Obj):
        o = Obj(v.cls, "local", it.epoch, it.loc())
        o.attrs = dict(v.attrs)
        return o
    return v


@model("copy.deepcopy")
def _deepcopy(it, args, kw):
    memo = {}

    def dc(v):
        if isinstance(v, NT):
            return mknt(v.nt, [dc(x) for x in v])
        if isinstance(v, tuple):
            return tuple(dc(x) for x in v)
        if id(v) in memo:
            return memo[id(v)]
        if isinstance(v, PyList):
            r = it.mklist([])
            memo[id(v)] = r
            r.items = [dc(x) for x in v.items]
            return r
        if isinstance(v, PyDict):
            r = it.mkdict()
            memo[id(v)] = r
            r.d = {k: (a, dc(b)) for k, (a, b) in v.d.items()}
            return r
        if isinstance(v, Arr):
            return it.mkarr([dc(x) if v.dtype == "object" else x for x in v.elems()], v.shape, v.dtype)
        if isinstance(v, Obj):
            o = Obj(v.cls, "local", it.epoch, it.loc())
            memo[id(v)] = o
            o.attrs = {k: dc(x) for k, x in v.attrs.items()}
            return o
        if isinstance(v, PySet):
            return PySet(dict(v.d), "local", it.epoch, it.loc())
        return v
    return dc(args[0])


@model("os.cpu_count", "multiprocessing.cpu_count")
def _cpu(it, args, kw):
    return getattr(it, "cpus", 8)


@model("os.getcwd")
def _cwd(it, args, kw):
    return "/cwd"


@model("os.getpid")
def _pid(it, args, kw):
    return Num(X.sym("pid", lo=1, integer=True), "int")


@model("os.path.join")
def _pjoin(it, args, kw):
    r = pstr(it, args[0])
    for a in args[1:]:
        r = joinp(it, r, pstr(it, a))
    return r


VERSIONS = {"numba": "0.68.0", "numpy": "2.5.4", "scipy": "1.18.0", "matplotlib": "3.11.0"}


@model("importlib.metadata.version")
def _version(it, args, kw):
    n = args[0]
    if n in it.missing:
        raise PyRaise(Exc(it_exc("ModuleNotFoundError"), (n,), it.loc(), True))
    return VERSIONS.get(n, "1.0.0")


@model("importlib.util.find_spec")
def _find_spec(it, args, kw):
    return None if args[0].split(".")[0] in it.missing else Opaque(("spec", args[0]))


def it_exc(n):
    from .interp import EXC
    return EXC[n]


@model("sys.exit")
def _exit(it, args, kw):
    it.rz("SystemExit", "")


@model("typing.cast")
def _cast(it, args, kw):
    return args[1]


@model("typing.NamedTuple")
def _tnt(it, args, kw):
    fs = [list(it.iter_of(p))[0] for p in it.iter_of(args[1])]
    return NTType(args[0], fs)


@model("typing.TypeVar", "typing.NewType")
def _tv(it, args, kw):
    return Opaque(("typevar", args[0]))


@model("atexit.register")
def _atexit(it, args, kw):
    it.event("atexit", args)


@model("multiprocessing.Process.__init__", "multiprocessing.process.BaseProcess.__init__", "threading.Thread.__init__")
def _pinit(it, args, kw):
    return None


# multiprocessing primitives: behaviour is delegated to it.mp_env (see props/workers.py)
def _mp(kind):
    def f(it, args, kw):
        o = ExtObj("mp." + kind, set=False, items=[], n=it.fresh(kind))
        o.ep = it.epoch
        env = getattr(it, "mp_env", None)
        if env is not None:
            env.created(it, o)
        it.event("mp_new", kind, o)
        return o
    return f


for _k in ("Event", "Queue", "Lock", "SimpleQueue"):
    MODELS["multiprocessing." + _k] = _mp(_k)
    MODELS["threading." + _k] = _mp(_k)
MODELS["queue.Queue"] = _mp("Queue")


# ------------------------------------------------------------------ file system
def pstr(it, p):
    if isinstance(p, (str, SStr)):
        return p
    if isinstance(p, ExtObj) and p.typ == "path":
        return p.data["s"]
    if isinstance(p, Opaque):
        return SStr([("path", p)])
    it.rz("TypeError", f"expected str, bytes or os.PathLike object, not {it.tname(p)}")


def joinp(it, a, b):
    if isinstance(b, str) and b.startswith("/"):
        return b
    if a == "" or a == ".":
        return b
    if b == "":
        return a
    return it.mkstr([a, "/", b])


def absp(it, s):
    if isinstance(s, str):
        return s if s.startswith("/") else joinp(it, "/cwd", s if s not in (".",) else "")
    if s.parts and isinstance(s.parts[0], str) and s.parts[0].startswith("/"):
        return s
    return joinp(it, "/cwd", s)


def mkpath(it, s):
    if isinstance(s, str):
        while len(s) > 1 and s.endswith("/"):
            s = s[:-1]
        if s == "":
            s = "."
    o = ExtObj("path", s=s)
    o.ep = it.epoch
    return o


def split_last(s):
    """(parent, name)"""
    if isinstance(s, str):
        p, _, n = s.rpartition("/")
        return (p if p else ("/" if s.startswith("/") else ".")), n
    parts = list(s.parts)
    for i in range(len(parts) - 1, -1, -1):
        if isinstance(parts[i], str) and "/" in parts[i]:
            p, _, n = parts[i].rpartition("/")
            par = SStr(parts[:i] + [p])
            nm = SStr([n] + parts[i + 1:])
            f = lambda z: "".join(z.parts) if all(isinstance(q, str) for q in z.parts) else z
            return f(par), f(nm)
    return ".", s


def fkey(it, s):
    return absp(it, s)


def fs_kind(it, s):
    """'file' / 'dir' / None for the path, forks if nothing is known."""
    k = fkey(it, s)
    if k in it.fs:
        v = it.fs[k]
        return "dir" if v == "dir" else (None if v is None else "file")
    if getattr(it, "fs_default", None) == "absent":
        return None
    if it.decide(Cond("opaque", ("exists", k))):
        if it.decide(Cond("opaque", ("isdir", k))):
            it.fs[k] = "dir"
            return "dir"
        it.fs[k] = ("unknown", k)
        return "file"
    it.fs[k] = None
    return None


@model("pathlib.Path", "pathlib.PurePath", "pathlib.PosixPath")
def _path(it, args, kw):
    if not args:
        return mkpath(it, ".")
    r = pstr(it, args[0])
    for a in args[1:]:
        r = joinp(it, r, pstr(it, a))
    return mkpath(it, r)


@model("pathlib.Path.cwd")
def _pcwd(it, args, kw):
    return mkpath(it, "/cwd")


@model("pathlib.Path.home")
def _phome(it, args, kw):
    return mkpath(it, "/home")


def path_attr(it, o, name):
    s = o.data["s"]
    par, nm = split_last(s)
    if name == "parent":
        return mkpath(it, par)
    if name == "name":
        return nm
    if name in ("stem", "suffix"):
        if isinstance(nm, str):
            st, dot, suf = nm.rpartition(".")
            if not st:
                st, dot, suf = nm, "", ""
            return st if name == "stem" else dot + suf
        last = nm.parts[-1]
        if name == "suffix" and isinstance(last, str) and "." in last:
            return "." + last.rpartition(".")[2]
        if name == "stem" and isinstance(last, str) and "." in last:
            return it.mkstr(list(nm.parts[:-1]) + [last.rpartition(".")[0]])
        return Opaque((name, s))
    if name == "parents":
        out = []
        while par not in ("/", "."):
            out.append(mkpath(it, par))
            par, _ = split_last(par)
        out.append(mkpath(it, par))
        return tuple(out)
    if name == "parts":
        return tuple(s.split("/")) if isinstance(s, str) else Opaque(("parts", s))
    return Meth(o, name)


def path_method(it, o, name, args, kw):
    s = o.data["s"]
    if name in ("joinpath",):
        r = s
        for a in args:
            r = joinp(it, r, pstr(it, a))
        return mkpath(it, r)
    if name in ("absolute", "resolve", "expanduser"):
        return mkpath(it, absp(it, s))
    if name in ("cwd", "home"):
        return mkpath(it, "/" + name)
    if name == "exists":
        return fs_kind(it, s) is not None
    if name == "is_file":
        return fs_kind(it, s) == "file"
    if name == "is_dir":
        return fs_kind(it, s) == "dir"
    if name == "is_absolute":
        a = absp(it, s)
        return a == s
    if name == "mkdir":
        ex = fs_kind(it, s)
        if ex is not None and not (ex == "dir" and it.truth(kw.get("exist_ok", False))):
            it.rz("FileExistsError", "exists")
        if ex is not None:
            return None
        par = split_last(absp(it, s))[0]
        if it.fs.get(par, 0) is None and not it.truth(kw.get("parents", False)):
            it.rz("FileNotFoundError", "No such file or directory")
        it.event("fs", "mkdir", fkey(it, s))
        it.fs[fkey(it, s)] = "dir"
        return None
    if name in ("unlink", "rmdir"):
        it.event("fs", "delete", fkey(it, s))
        it.fs[fkey(it, s)] = None
        return None
    if name in ("rename", "replace"):
        move_file(it, s, pstr(it, args[0]))
        return mkpath(it, pstr(it, args[0]))
    if name == "touch":
        if fs_kind(it, s) is None:
            it.event("fs", "write", fkey(it, s), False, "w")
            it.fs[fkey(it, s)] = ("text", "")
        return None
    if name in ("chmod", "symlink_to", "hardlink_to"):
        it.event("fs", name, fkey(it, s))
        return None
    if name == "open":
        return open_file(it, s, args[0] if args else kw.get("mode", "r"))
    if name == "write_text":
        f = open_file(it, s, "w")
        file_method(it, f, "write", [args[0]], {})
        return Opaque(("written",))
    if name == "read_text":
        f = open_file(it, s, "r")
        return file_method(it, f, "read", [], {})
    if name == "with_suffix":
        par, nm = split_last(s)
        st = path_attr(it, o, "stem")
        if isinstance(st, Opaque):
            return mkpath(it, SStr([("with_suffix", s, args[0])]))
        return mkpath(it, joinp(it, par, it.mkstr([st, args[0]])) if par != "." else it.mkstr([st, args[0]]))
    if name == "with_name":
        par, nm = split_last(s)
        return mkpath(it, joinp(it, par, args[0]))
    if name in ("as_posix", "__str__", "__fspath__"):
        return s
    if name in ("iterdir", "glob", "rglob"):
        return Opaque((name, s))
    it.event("fs", name, fkey(it, s))
    return Opaque(("path", name, s))


def put_json(it, k, v):
    """A second document in the same file makes it unreadable."""
    cur = it.fs.get(k)
    it.fs[k] = ("json", v) if cur in (None, ("text", "")) else ("text", it.mkstr(["<several documents>"]))


def open_file(it, s, mode):
    k = fkey(it, s)
    if not isinstance(mode, str):
        it.unsup("symbolic open mode")
    ex = fs_kind(it, s)
    if any(c in mode for c in "wax+"):
        if ex == "dir":
            it.rz("IsADirectoryError", "directory")
        if "x" in mode and ex is not None:
            it.rz("FileExistsError", "exists")
        it.event("fs", "write", k, ex is not None, mode)
        if not (ex is not None and "w" not in mode and "x" not in mode and it.fs[k] != ("text", "")):
            it.fs[k] = ("text", "")
    else:
        if ex is None:
            it.rz("FileNotFoundError", "No such file or directory")
        if ex == "dir":
            it.rz("IsADirectoryError", "directory")
        it.event("fs", "read", k)
    o = ExtObj("file", key=k, mode=mode, closed=False)
    o.ep = it.epoch
    it.event("file_open", o)
    return o


@bi("open")
def _open(it, args, kw):
    return open_file(it, pstr(it, args[0]), arg(it, args, kw, 1, "mode", "r"))


MODELS["io.open"] = _open


@model("os.path.exists")
def _ope(it, args, kw):
    return fs_kind(it, pstr(it, args[0])) is not None


@model("os.path.isdir")
def _opd(it, args, kw):
    return fs_kind(it, pstr(it, args[0])) == "dir"


@model("os.path.isfile")
def _opf(it, args, kw):
    return fs_kind(it, pstr(it, args[0])) == "file"


@model("os.path.abspath", "os.path.realpath", "os.path.normpath")
def _opabs(it, args, kw):
    return absp(it, pstr(it, args[0]))


@model("os.path.dirname")
def _opdn(it, args, kw):
    return split_last(pstr(it, args[0]))[0]


@model("os.path.basename")
def _opbn(it, args, kw):
    return split_last(pstr(it, args[0]))[1]


@model("os.path.splitext")
def _opse(it, args, kw):
    s = pstr(it, args[0])
    if isinstance(s, str):
        import os.path
        return os.path.splitext(s)
    return (Opaque(("stem", s)), Opaque(("ext", s)))


@model("os.remove", "os.unlink", "os.rmdir", "shutil.rmtree")
def _osrm(it, args, kw):
    it.event("fs", "delete", fkey(it, pstr(it, args[0])))
    it.fs[fkey(it, pstr(it, args[0]))] = None


def move_file(it, a, b, keep=False):
    ka, kb = fkey(it, a), fkey(it, b)
    if fs_kind(it, a) is None:
        it.rz("FileNotFoundError", "No such file or directory")
    it.event("fs", "replace", kb, fs_kind(it, b) is not None, ka)
    it.fs[kb] = it.fs.get(ka)
    if not keep:
        it.fs[ka] = None


@model("os.rename", "os.replace", "shutil.move")
def _osrn(it, args, kw):
    move_file(it, pstr(it, args[0]), pstr(it, args[1]))


@model("shutil.copy", "shutil.copyfile", "shutil.copy2")
def _oscp(it, args, kw):
    move_file(it, pstr(it, args[0]), pstr(it, args[1]), True)


@model("os.mkdir", "os.makedirs")
def _osmk(it, args, kw):
    return path_method(it, mkpath(it, pstr(it, args[0])), "mkdir", [], kw)


def file_method(it, o, name, args, kw):
    if name == "close":
        o.data["closed"] = True
        it.event("file_close", o)
        return None
    if o.data["closed"]:
        it.rz("ValueError", "I/O operation on closed file.")
    k = o.data["key"]
    if name == "write":
        cur = it.fs.get(k)
        if isinstance(args[0], ExtObj) and args[0].typ == "jsontext":
            put_json(it, k, args[0].data["v"])
        else:
            it.fs[k] = ("text", it.mkstr([cur[1] if cur and cur[0] == "text" and isinstance(cur[1], (str, SStr)) else "", it.to_str(args[0])]))
        return Opaque(("written",))
    if name in ("read",):
        cur = it.fs.get(k)
        if cur and cur[0] == "json":
            return ExtObj("jsontext", v=cur[1])
        if cur and cur[0] == "text":
            return cur[1]
        return Opaque(("content", k))
    if name in ("flush", "seek", "__enter__"):
        return o if name == "__enter__" else None
    return Opaque(("file", name, k))


def to_json(it, v):
    if v is None or isinstance(v, (bool, str, SStr, int)):
        return v
    if isinstance(v, Num):
        if v.kind in ("npint", "complex", "npcomplex"):
            it.rz("TypeError", f"Object of type {v.kind} is not JSON serializable")
        return Num(v.e, "int" if v.kind == "int" else "float")
    if isinstance(v, (tuple, PyList)):
        return ("list", [to_json(it, x) for x in (v.items if isinstance(v, PyList) else v)])
    if isinstance(v, PyDict):
        out = []
        for k, x in v.d.values():
            if isinstance(k, (str, SStr)):
                kk = k
            elif isinstance(k, (bool, int)) or k is None:
                kk = {True: "true", False: "false", None: "null"}.get(k) if isinstance(k, bool) or k is None else str(k)
            elif isinstance(k, Num) and k.kind in ("float", "int"):
                kk = it.to_str(k)
            else:
                it.rz("TypeError", f"keys must be str, int, float, bool or None")
            out.append((kk, to_json(it, x)))
        return ("dict", out)
    if isinstance(v, Opaque):
        return ("opaque", v)
    if isinstance(v, Cond):
        return it.decide(v)
    it.rz("TypeError", f"Object of type {it.tname(v)} is not JSON serializable")


def from_json(it, v):
    if isinstance(v, tuple) and v[0] == "list":
        return it.mklist([from_json(it, x) for x in v[1]])
    if isinstance(v, tuple) and v[0] == "dict":
        return it.mkdict([(k, from_json(it, x)) for k, x in v[1]])
    if isinstance(v, tuple) and v[0] == "opaque":
        return v[1]
    return v


@model("json.dump")
def _jdump(it, args, kw):
    o = args[0]
    f = arg(it, args, kw, 1, "fp")
    j = to_json(it, o)
    if kw.get("default") is not None or kw.get("cls") is not None:
        it.unsup("json.dump with custom encoder")
    it.event("json", "dump", j)
    if isinstance(f, ExtObj) and f.typ == "file":
        if f.data["closed"]:
            it.rz("ValueError", "I/O operation on closed file.")
        if not any(c in f.data["mode"] for c in "wax+"):
            raise PyRaise(Exc(it_exc("OSError"), ("not writable",), it.loc(), True))
        put_json(it, f.data["key"], j)


@model("json.dumps")
def _jdumps(it, args, kw):
    return ExtObj("jsontext", v=to_json(it, args[0]))


@model("json.load")
def _jload(it, args, kw):
    f = args[0]
    if isinstance(f, ExtObj) and f.typ == "file":
        if f.data["closed"]:
            it.rz("ValueError", "I/O operation on closed file.")
        c = it.fs.get(f.data["key"])
        if c and c[0] == "json":
            return from_json(it, c[1])
        if c and c[0] == "text":
            raise PyRaise(Exc(ExtRef("json.JSONDecodeError"), ("Expecting value",), it.loc(), True))
        return Opaque(("json", f.data["key"]))
    return Opaque(("json",))


@model("json.loads")
def _jloads(it, args, kw):
    v = args[0]
    if isinstance(v, ExtObj) and v.typ == "jsontext":
        return from_json(it, v.data["v"])
    return Opaque(("json", it.skey(v)))


# ------------------------------------------------------------------ hooks used by the interpreter
def enter(it, cm):
    if isinstance(cm, ExtObj):
        if cm.typ == "nullctx":
            return cm.data.get("v")
        return cm
    return cm if not isinstance(cm, Opaque) else Opaque(("enter", cm.key))


def leave(it, cm, exc):
    if isinstance(cm, ExtObj):
        if cm.typ == "file":
            cm.data["closed"] = True
            it.event("file_close", cm)
        if cm.typ == "suppress" and exc is not None:
            return any(it.exc_matches(exc, t) for t in cm.data["excs"])
    return False


def ext_str(it, v):
    if v.typ == "path":
        return v.data["s"]
    if v.typ == "dtype":
        return v.data["name"]
    return SStr([("ext", v.typ)])


def ext_iter(it, v):
    if v.typ == "defaultdict":
        return [k for k, _ in v.data["d"].d.values()]
    if v.typ == "file":
        return None
    return None


def ext_hkey(it, v):
    if v.typ == "path":
        return ("path", v.data["s"])
    if v.typ == "dtype":
        return ("dtype", v.data["name"])
    return ("id", id(v))


def ext_binop(it, op, a, b):
    if isinstance(a, ExtObj) and a.typ == "path" and op == "Div":
        return mkpath(it, joinp(it, a.data["s"], pstr(it, b)))
    if isinstance(b, ExtObj) and b.typ == "path" and op == "Div":
        return mkpath(it, joinp(it, pstr(it, a), b.data["s"]))
    return NOTIMPL


def ext_eq(it, a, b):
    da, db = dtype_name(a), dtype_name(b)
    if (isinstance(a, ExtObj) and a.typ == "dtype") or (isinstance(b, ExtObj) and b.typ == "dtype"):
        return da == db
    if isinstance(a, ExtObj) and isinstance(b, ExtObj) and a.typ == b.typ == "path":
        return it.eq(a.data["s"], b.data["s"])
    return a is b


def ext_getitem(it, o, i):
    if isinstance(o, (ExtRef, Builtin, ClassV)):
        if isinstance(o, ExtRef) and o.name.startswith("numpy.") and o.name.split(".")[-1] in ("mgrid", "ogrid"):
            it.unsup("mgrid")
        if isinstance(o, ExtRef) and not o.name.startswith(("typing.", "collections.", "numpy.typing", "numpy.ndarray")):
            return Opaque(("item", o.name, it.skey_any(i)))
        return o   # typing subscripts
    if o.typ == "defaultdict":
        d = o.data["d"]
        k = it.hkey(i)
        if k not in d.d:
            d.d[k] = (i, it.call(o.data["f"], [], {}))
        return d.d[k][1]
    if o.typ == "super":
        it.unsup("super subscript")
    return Opaque(("item", o.typ, it.skey_any(i)))


_CONST = {"numpy.pi": X.PI, "math.pi": X.PI, "numpy.e": X.EULER, "math.e": X.EULER, "math.tau": X.scale(X.PI, 2), "numpy.inf": X.INF, "math.inf": X.INF, "numpy.Inf": X.INF,
          "numpy.nan": X.NAN, "math.nan": X.NAN, "numpy.NaN": X.NAN}


def ext_value(it, dotted):
    if dotted in _CONST:
        return Num(_CONST[dotted], "float")
    if dotted == "numpy.newaxis":
        return None
    if dotted == "sys.version_info":
        return (3, 12, 3, "final", 0)
    if dotted == "sys.platform":
        return "linux"
    if dotted == "os.name":
        return "posix"
    if dotted == "os.sep":
        return "/"
    if dotted in ("numpy.__version__", "numba.__version__", "scipy.__version__", "matplotlib.__version__"):
        return VERSIONS[dotted.partition(".")[0]]
    if dotted == "sys.modules":
        return Opaque(("sys.modules",))
    if dotted == "typing.TYPE_CHECKING":
        return False
    if dotted in ("matplotlib.pyplot.cm",):
        return ExtRef(dotted)
    if dotted.split(".")[0] in it.missing:
        raise PyRaise(Exc(it_exc("ImportError"), (dotted,), it.loc(), True))
    return ExtRef(dotted)


def arr_attr(it, a, name):
    if name == "shape":
        return a.shape
    if name == "size":
        return len(a.idx)
    if name == "ndim":
        return len(a.shape)
    if name == "T":
        return transpose(a)
    if name == "dtype":
        return mkdtype(a.dtype)
    if name == "real":
        return a if cat(a.dtype) != "complex" else MODELS["numpy.real"](it, [a], {})
    if name == "imag":
        return MODELS["numpy.imag"](it, [a], {})
    if name == "flat":
        return arr_method(it, a, "ravel", [], {})      # elements in the row order (for iteration and indexing)
    if name == "itemsize":
        return {"float64": 8, "int64": 8, "uint8": 1, "complex128": 16, "float32": 4, "uint16": 2, "int32": 4}.get(a.dtype, 8)
    if name == "nbytes":
        return len(a.idx) * 8
    if name == "base":
        return None
    if name == "flags":
        return Opaque(("flags", id(a.buf)))
    if name in ARR_METH or name in ("copy", "astype", "tolist", "item", "reshape", "ravel", "flatten", "fill", "transpose", "dot", "squeeze", "sort", "nonzero", "setflags",
                                    "tobytes", "view", "__len__", "__getitem__", "put", "resize", "itemset", "swapaxes"):
        return Meth(a, name)
    it.rz("AttributeError", f"'numpy.ndarray' object has no attribute '{name}'")


ARR_METH = {"sum", "max", "min", "mean", "prod", "any", "all", "argmax", "argmin", "cumsum", "round", "clip", "conj", "conjugate", "std", "var", "ptp", "repeat"}


def arr_method(it, a, name, args, kw):
    if name in ARR_METH:
        return MODELS["numpy." + name](it, [a] + list(args), kw)
    if name == "copy":
        return it.mkarr(a.elems(), a.shape, a.dtype)
    if name == "astype":
        dt = get_dtype(it, args[0] if args else kw.get("dtype"), a.dtype)
        if kw.get("copy") is False and dt == a.dtype:
            return a
        return it.mkarr([it.astype_el(x, a.dtype, dt) for x in a.elems()], a.shape, dt)
    if name == "tolist":
        def conv(shape, el):
            if not shape:
                x = it.el2v(el[0], a.dtype)
                if isinstance(x, Num):
                    return mknum(x.e, x.kind[2:] if x.kind.startswith("np") else x.kind)
                return x
            n = prodn(shape[1:])
            return it.mklist([conv(shape[1:], el[i * n:(i + 1) * n]) for i in range(shape[0])])
        return conv(a.shape, a.elems())
    if name == "item":
        v = it.elem(a, it.as_int(args[0]) if args else 0)
        if not args and len(a.idx) != 1:
            it.rz("ValueError", "can only convert an array of size 1 to a Python scalar")
        if isinstance(v, Num):
            return mknum(v.e, v.kind[2:] if v.kind.startswith("np") else v.kind)
        return v
    if name == "reshape":
        shp = args[0] if len(args) == 1 and isinstance(args[0], (tuple, PyList)) else tuple(args) if args else kw.get("shape")
        return reshape(it, a, shape_arg(it, shp))
    if name == "ravel":
        return reshape(it, a, (len(a.idx),))
    if name == "flatten":
        return it.mkarr(a.elems(), (len(a.idx),), a.dtype)
    if name == "fill":
        it.write(a, a.idx, a.shape, args[0])
        return None
    if name == "transpose":
        ax = None
        if args:
            ax = shape_arg(it, args[0] if len(args) == 1 else tuple(args))
        return transpose(a, ax)
    if name == "swapaxes":
        ax = list(range(len(a.shape)))
        i, j = it.as_int(args[0]), it.as_int(args[1])
        ax[i], ax[j] = ax[j], ax[i]
        return transpose(a, tuple(ax))
    if name == "dot":
        return MODELS["numpy.dot"](it, [a] + list(args), kw)
    if name == "squeeze":
        return MODELS["numpy.squeeze"](it, [a] + list(args), kw)
    if name == "nonzero":
        return MODELS["numpy.nonzero"](it, [a], {})
    if name == "sort":
        r = _sort(it, [a], {})
        if isinstance(r, Opaque):
            it.unsup("in place sort of symbolic array")
        it.write(a, a.idx, a.shape, r)
        return None
    if name == "__len__":
        return a.shape[0]
    if name == "__getitem__":
        return it.arr_get(a, args[0])
    if name == "view":
        return Arr(a.buf, a.idx, a.shape)
    if name in ("put", "resize", "itemset", "setflags"):
        it.touch(a.buf)
        it.unsup(f"array method {name}")
    it.unsup(f"array method {name}")


def ext_getattr(it, o, name):
    t = o.typ
    if t == "path":
        return path_attr(it, o, name)
    if t == "dtype":
        if name in ("name", "str"):
            return o.data["name"]
        if name == "kind":
            return {"float": "f", "int": "i", "complex": "c", "bool": "b", "object": "O"}[cat(o.data["name"])] if not o.data["name"].startswith("uint") else "u"
        if name == "type":
            return ExtRef("numpy." + o.data["name"])
        if name == "itemsize":
            return 8
    if t == "super":
        cls, obj = o.data["cls"], o.data["obj"]
        base = obj.cls if isinstance(obj, Obj) else (obj.cls if isinstance(obj, Exc) else obj)
        mro = base.mro()
        i = mro.index(cls) + 1 if cls in mro else 1
        for c in mro[i:]:
            if name in c.attrs:
                return it.bind_attr(c.attrs[name], obj, base)
        if name == "__init__":
            if isinstance(obj, Exc):
                return Meth(o, "exc_init")
            return Builtin("object_init")
        ext = [b for b in base.ext_bases()]
        if ext:
            return Meth(obj, name)
        if name in ("__eq__", "__ne__", "__repr__", "__str__", "__hash__"):
            return Meth(o, name)
        it.rz("AttributeError", name)
    if t == "finfo":
        n = o.data["name"]
        vals = {"uint8": (0, 255), "uint16": (0, 65535), "int64": (-2**63, 2**63 - 1), "int32": (-2**31, 2**31 - 1), "int16": (-2**15, 2**15 - 1), "int8": (-128, 127),
                "uint32": (0, 2**32 - 1), "uint64": (0, 2**64 - 1)}
        if name in ("max", "min"):
            if n in vals:
                return vals[n][1 if name == "max" else 0]
            return Num(X.const(Fraction(17976931348623157 * 10**292) * (1 if name == "max" else -1)), "npfloat")
        if name == "eps":
            return Num(X.const(Fraction(1, 2**52)), "npfloat")
    if t == "partial":
        if name == "func":
            return o.data["f"]
        if name == "args":
            return tuple(o.data["args"])
        if name == "keywords":
            return it.mkdict(list(o.data["kw"].items()))
    if t == "file" and name in ("name",):
        return o.data["key"]
    if t == "file" and name == "closed":
        return o.data["closed"]
    return Meth(o, name)


def isinst_ext(it, v, name):
    n = name.split(".")[-1]
    if isinstance(v, Opaque) and v.typ:
        return v.typ == name or v.typ.split(".")[-1] == n
    if name in ("numpy.ndarray",):
        return isinstance(v, Arr)
    if name.startswith("numpy."):
        k = v.kind if isinstance(v, Num) else None
        if n in ("floating", "float64", "double", "inexact"):
            return k == "npfloat" or (n == "inexact" and k == "npcomplex")
        if n in ("integer", "int64", "int_", "signedinteger"):
            return k == "npint"
        if n in ("number", "generic"):
            return k in ("npint", "npfloat", "npcomplex")
        if n in ("complexfloating", "complex128"):
            return k == "npcomplex"
        if n in ("bool_", "bool"):
            return isinstance(v, Cond)
        return False
    if name.startswith("numbers."):
        if not it.isnum(v):
            return False
        lev = it.NUMKINDS[it.kind_of(v)]
        if n == "Integral":
            return lev == 0
        if n in ("Real", "Rational"):
            return lev <= 1
        return True
    if n in ("Sequence",):
        return isinstance(v, (PyList, tuple, str, SStr, RangeV))
    if n in ("MutableSequence", "List"):
        return isinstance(v, PyList)
    if n in ("Tuple",):
        return isinstance(v, tuple)
    if n in ("Mapping", "Dict", "MutableMapping", "OrderedDict"):
        return isinstance(v, PyDict)
    if n in ("Iterable", "Collection", "Sized", "Container"):
        if isinstance(v, (PyList, tuple, str, SStr, RangeV, PyDict, PySet, Arr)):
            return True
        if isinstance(v, PyIter):
            return n == "Iterable"
        if isinstance(v, Obj):
            return v.cls.lookup({"Iterable": "__iter__", "Sized": "__len__"}.get(n, "__iter__")) is not None
        return False
    if n in ("Set", "MutableSet"):
        return isinstance(v, PySet)
    if n == "Callable":
        return _callable(it, [v], {})
    if n in ("Hashable",):
        return not isinstance(v, (PyList, PyDict, PySet, Arr))
    if n in ("Path", "PurePath", "PosixPath", "PathLike"):
        return isinstance(v, ExtObj) and v.typ == "path"
    if n == "NoneType":
        return v is None
    if n in ("Any",):
        return True
    if isinstance(v, Exc):
        return isinstance(v.cls, ExtRef) and v.cls.name.split(".")[-1] == n
    if isinstance(v, Opaque):
        return Cond("opaque", ("isinstance", v.key, name))
    if isinstance(v, Obj):
        return any(isinstance(b, ExtRef) and b.name == name for b in v.cls.ext_bases())
    return False


def call_method(it, o, name, args, kw):
    if isinstance(o, PyList):
        return list_method(it, o, name, args, kw)
    if isinstance(o, PyDict):
        return dict_method(it, o, name, args, kw)
    if isinstance(o, PySet):
        return set_method(it, o, name, args, kw)
    if isinstance(o, (str, SStr)):
        return str_method(it, o, name, args, kw)
    if isinstance(o, Arr):
        return arr_method(it, o, name, args, kw)
    if isinstance(o, NT):
        if name == "_asdict":
            return it.mkdict(list(zip(o.nt.fields, o)))
        if name == "_replace":
            return mknt(o.nt, [kw.get(f, v) for f, v in zip(o.nt.fields, o)])
        if name == "_fields":
            return tuple(o.nt.fields)
    if isinstance(o, NTType):
        if name == "_make":
            return mknt(o, list(it.iter_of(args[0])))
    if isinstance(o, tuple):
        if name == "index":
            for i, x in enumerate(o):
                if it.truth(it.compare("Eq", x, args[0])):
                    return i
            it.rz("ValueError", "tuple.index(x): x not in tuple")
        if name == "count":
            return sum(1 for x in o if it.truth(it.compare("Eq", x, args[0])))
        if name == "__len__":
            return len(o)
        if name == "__getitem__":
            return it.getitem(o, args[0])
    if isinstance(o, (int, Num)) and not isinstance(o, bool):
        return num_method(it, o, name, args, kw)
    if isinstance(o, (bool, Cond)):
        return o
    if isinstance(o, Func):
        if name == "cache_clear":
            it.touch(o)
            if o.cache is not None:
                o.cache.clear()
            return None
        if name == "cache_info":
            return Opaque(("cache_info", o.qual))
    if isinstance(o, Prop):
        if name == "setter":
            return Prop(o.fget, args[0])
    if isinstance(o, PyIter):
        if name == "__next__":
            return _next(it, [o], {})
        return o
    if isinstance(o, RangeV):
        if name == "index":
            try:
                return o.r.index(it.as_int(args[0]))
            except ValueError:
                it.rz("ValueError", "not in range")
        return len(o.r)
    if isinstance(o, ExtObj):
        return extobj_method(it, o, name, args, kw)
    if isinstance(o, Exc):
        if name == "with_traceback":
            return o
        if name in ("add_note",):
            return None
        return it.to_str(o)
    if isinstance(o, Obj):
        # method inherited from an external base class
        env = getattr(it, "mp_env", None)
        if env is not None:
            r = env.process_method(it, o, name, args, kw)
            if r is not NOTIMPL:
                return r
        it.event("extmethod", o.cls.name, name, o)
        if name in ("is_alive",):
            return Cond("opaque", ("is_alive", it.fresh("alive")))
        if name in ("start", "join", "terminate", "close", "kill", "__init__"):
            return None
        return Opaque(("extmethod", name))
    it.unsup(f"method {name} of {type(o).__name__}")


def list_method(it, o, name, args, kw):
    xs = o.items
    if name == "append":
        it.touch(o)
        o.items.append(args[0])
        return None
    if name == "extend":
        ys = list(it.iter_of(args[0]))
        it.touch(o)
        o.items.extend(ys)
        return None
    if name == "insert":
        it.touch(o)
        o.items.insert(it.as_int(args[0]), args[1])
        return None
    if name == "pop":
        if not xs:
            it.rz("IndexError", "pop from empty list")
        i = it.as_int(args[0]) if args else -1
        if not -len(xs) <= i < len(xs):
            it.rz("IndexError", "pop index out of range")
        it.touch(o)
        return o.items.pop(i)
    if name == "popleft":
        if not xs:
            it.rz("IndexError", "pop from an empty deque")
        it.touch(o)
        return o.items.pop(0)
    if name == "appendleft":
        it.touch(o)
        o.items.insert(0, args[0])
        return None
    if name == "remove":
        for i, x in enumerate(xs):
            if x is args[0] or it.truth(it.compare("Eq", x, args[0])):
                it.touch(o)
                del o.items[i]
                return None
        it.rz("ValueError", "list.remove(x): x not in list")
    if name == "clear":
        it.touch(o)
        o.items.clear()
        return None
    if name == "copy":
        return it.mklist(xs)
    if name == "index":
        for i, x in enumerate(xs):
            if it.truth(it.compare("Eq", x, args[0])):
                return i
        it.rz("ValueError", "not in list")
    if name == "count":
        return sum(1 for x in xs if it.truth(it.compare("Eq", x, args[0])))
    if name == "reverse":
        it.touch(o)
        o.items.reverse()
        return None
    if name == "sort":
        r = sort_items(it, list(xs), kw)
        it.touch(o)
        o.items = r
        return None
    if name == "__len__":
        return len(xs)
    if name == "__getitem__":
        return it.getitem(o, args[0])
    if name == "__contains__":
        return it.contains(o, args[0])
    if name == "__iter__":
        return PyIter(xs)
    it.unsup(f"list.{name}")


def dict_method(it, o, name, args, kw):
    if name == "get":
        k = it.hkey(args[0])
        if k in o.d:
            return o.d[k][1]
        for kk in list(o.d):
            if it.may_eq(k, kk) and it.truth(it.compare("Eq", args[0], o.d[kk][0])):
                return o.d[kk][1]
        return args[1] if len(args) > 1 else kw.get("default")
    if name == "keys":
        return it.mklist([k for k, _ in o.d.values()])
    if name == "values":
        return it.mklist([v for _, v in o.d.values()])
    if name == "items":
        return it.mklist([(k, v) for k, v in o.d.values()])
    if name == "pop":
        k = it.hkey(args[0])
        if k in o.d:
            it.touch(o)
            return o.d.pop(k)[1]
        if len(args) > 1:
            return args[1]
        it.rz("KeyError", args[0])
    if name == "popitem":
        if not o.d:
            it.rz("KeyError", "popitem(): dictionary is empty")
        it.touch(o)
        k = list(o.d)[-1]
        return o.d.pop(k)
    if name == "setdefault":
        k = it.hkey(args[0])
        if k not in o.d:
            it.touch(o)
            o.d[k] = (args[0], args[1] if len(args) > 1 else None)
        return o.d[k][1]
    if name == "update":
        it.touch(o)
        if args:
            v = args[0]
            if isinstance(v, PyDict):
                o.d.update(v.d)
            else:
                for p in it.iter_of(v):
                    k, x = list(it.iter_of(p))
                    o.d[it.hkey(k)] = (k, x)
        for k, x in kw.items():
            o.d[k] = (k, x)
        return None
    if name == "clear":
        it.touch(o)
        o.d.clear()
        return None
    if name == "copy":
        d = it.mkdict()
        d.d.update(o.d)
        return d
    if name == "fromkeys":
        return it.mkdict([(k, args[1] if len(args) > 1 else None) for k in it.iter_of(args[0])])
    if name == "__len__":
        return len(o.d)
    if name == "__getitem__":
        return it.getitem(o, args[0])
    if name == "__contains__":
        return it.contains(o, args[0])
    it.unsup(f"dict.{name}")


def set_method(it, o, name, args, kw):
    if name == "add":
        it.touch(o)
        o.d.setdefault(it.hkey(args[0]), args[0])
        return None
    if name in ("discard", "remove"):
        k = it.hkey(args[0])
        if k in o.d:
            it.touch(o)
            del o.d[k]
        elif name == "remove":
            it.rz("KeyError", args[0])
        return None
    if name == "update":
        it.touch(o)
        for a in args:
            for x in it.iter_of(a):
                o.d.setdefault(it.hkey(x), x)
        return None
    if name == "clear":
        it.touch(o)
        o.d.clear()
        return None
    if name == "pop":
        if not o.d:
            it.rz("KeyError", "pop from an empty set")
        it.touch(o)
        return o.d.pop(next(iter(o.d)))
    if name == "copy":
        return it.mkset(list(o.d.values()))
    if name in ("union", "intersection", "difference", "symmetric_difference", "issubset", "issuperset", "isdisjoint"):
        b = it.mkset([x for a in args for x in it.iter_of(a)])
        if name == "issubset":
            return set(o.d) <= set(b.d)
        if name == "issuperset":
            return set(o.d) >= set(b.d)
        if name == "isdisjoint":
            return not (set(o.d) & set(b.d))
        return it.binop({"union": "BitOr", "intersection": "BitAnd", "difference": "Sub", "symmetric_difference": "BitXor"}[name], o, b)
    if name == "__contains__":
        return it.contains(o, args[0])
    it.unsup(f"set.{name}")


def str_method(it, o, name, args, kw):
    if name == "join":
        xs = list(it.iter_of(args[0]))
        parts = []
        for i, x in enumerate(xs):
            if not isinstance(x, (str, SStr)):
                it.rz("TypeError", "sequence item: expected str instance")
            if i:
                parts.append(o)
            parts.append(x)
        return it.mkstr(parts)
    if name == "format":
        if isinstance(o, str) and all(isinstance(a, (int, str)) for a in list(args) + list(kw.values())):
            return o.format(*args, **kw)
        return SStr([("format", o, tuple(it.skey(a) for a in args))])
    if isinstance(o, str) and all(isinstance(a, (str, int, tuple)) or a is None for a in args):
        try:
            r = getattr(o, name)(*args, **kw)
        except (ValueError, TypeError, IndexError, AttributeError) as e:
            it.rz(type(e).__name__, str(e))
        if isinstance(r, list):
            return it.mklist(r)
        return r
    if isinstance(o, SStr):
        if name == "startswith" and o.parts and isinstance(o.parts[0], str) and isinstance(args[0], str) and len(o.parts[0]) >= len(args[0]):
            return o.parts[0].startswith(args[0])
        if name == "endswith" and o.parts and isinstance(o.parts[-1], str) and isinstance(args[0], str) and len(o.parts[-1]) >= len(args[0]):
            return o.parts[-1].endswith(args[0])
        if name in ("startswith", "endswith", "isdigit", "isnumeric", "islower", "isupper", "isalpha", "isspace", "isidentifier"):
            return Cond("opaque", (name, o, tuple(it.skey(a) for a in args)))
        if name in ("strip", "lower", "upper", "rstrip", "lstrip", "replace", "title", "capitalize"):
            return SStr([(name, o, tuple(it.skey(a) for a in args))])
    return Opaque(("str", name, it.skey(o), tuple(it.skey(a) for a in args)))


def num_method(it, o, name, args, kw):
    e = it.e_of(o)
    k = it.kind_of(o)
    if name == "item":
        return mknum(e, k[2:] if k.startswith("np") else k)
    if name in ("conjugate", "conj"):
        return Num(X.fn("conj", e), k)
    if name == "is_integer":
        return e.cval().denominator == 1 if e.is_const() else Cond("opaque", ("is_integer", e))
    if name == "astype":
        dt = get_dtype(it, args[0], "float64")
        return it.el2v(it.cast_el(o, dt), dt)
    if name in ("__float__",):
        return Num(e, "float")
    if name in ("__int__", "__index__"):
        return mknum(X.fn("trunc", e), "int")
    if name == "__round__" or name == "round":
        return MODELS["builtins.round"](it, [o] + list(args), kw)
    if name == "__abs__":
        return bi_abs(it, [o], {})
    if name == "__str__":
        return it.to_str(o)
    if name == "bit_length":
        return it.as_int(o).bit_length()
    if name == "tolist":
        return mknum(e, k[2:] if k.startswith("np") else k)
    if name == "copy":
        return o
    if name in ("max", "min", "sum", "mean", "any", "all", "reshape", "flatten", "ravel", "round", "squeeze", "fill"):
        if name in ("max", "min", "sum", "mean"):
            return o
        return arr_method(it, it.to_arr(o), name, args, kw)
    it.rz("AttributeError", f"number has no attribute {name}")


def extobj_method(it, o, name, args, kw):
    t = o.typ
    if t == "path":
        return path_method(it, o, name, args, kw)
    if t == "file":
        return file_method(it, o, name, args, kw)
    if t.startswith("mp."):
        env = getattr(it, "mp_env", None)
        if env is not None:
            r = env.method(it, o, name, args, kw)
            if r is not NOTIMPL:
                return r
        it.event("mp", t, name, o, tuple(args))
        return mp_default(it, o, name, args, kw)
    if t == "defaultdict":
        if name in ("items", "keys", "values", "get", "pop", "update"):
            return dict_method(it, o.data["d"], name, args, kw)
    if t == "super" and name == "exc_init":
        o.data["obj"].args = tuple(args)
        return None
    if t == "super":
        if name in ("__eq__",):
            return o.data["obj"] is args[0]
        if name == "__hash__":
            return Opaque(("hash", id(o.data["obj"])))
        return SStr([("super", name)])
    if t == "dataclass_dec":
        return args[0]
    if t == "jsontext":
        return Opaque(("jsontext", name))
    it.event("extmethod", t, name, o)
    return Opaque(("extmethod", t, name))


def mp_default(it, o, name, args, kw):
    if o.typ == "mp.Event":
        if name == "set":
            o.data["set"] = True
            return None
        if name == "clear":
            o.data["set"] = False
            return None
        if name == "is_set":
            return o.data["set"]
        if name == "wait":
            return True
    if o.typ in ("mp.Queue", "mp.SimpleQueue"):
        if name in ("put", "put_nowait"):
            o.data["items"] = o.data["items"] + [args[0]]
            return None
        if name in ("get", "get_nowait"):
            if o.data["items"]:
                x = o.data["items"][0]
                o.data["items"] = o.data["items"][1:]
                return x
            return Opaque(("queue", it.fresh("q")))
        if name == "empty":
            return not o.data["items"]
        if name == "qsize":
            return len(o.data["items"])
        return None
    if name in ("acquire", "release"):
        return True
    return Opaque(("mp", o.typ, name))


def make_nt(it, nt, args, kw):
    vals = dict(zip(nt.fields, args))
    if len(args) > len(nt.fields):
        it.rz("TypeError", f"{nt.name}() takes {len(nt.fields)} arguments")
    for k, v in kw.items():
        if k not in nt.fields or k in vals:
            it.rz("TypeError", f"{nt.name}() got an unexpected keyword argument '{k}'")
        vals[k] = v
    nd = len(nt.defaults)
    for i, f in enumerate(nt.fields):
        if f not in vals:
            j = i - (len(nt.fields) - nd)
            if j < 0:
                it.rz("TypeError", f"{nt.name}() missing argument '{f}'")
            vals[f] = nt.defaults[j]
    return mknt(nt, [vals[f] for f in nt.fields])


def call_extobj(it, o, args, kw):
    if o.typ == "partial":
        k = dict(o.data["kw"])
        k.update(kw)
        return it.call(o.data["f"], o.data["args"] + list(args), k)
    if o.typ in ("lru_dec", "numba_dec", "ident_dec", "dataclass_dec"):
        return it.apply_decorator(o, args[0])
    if o.typ == "vectorize":
        arrs = [it.to_arr(a) for a in args]
        shp, es = it.broadcast(arrs)
        out = [it.call(o.data["f"], [it.el2v(x, a.dtype) for x, a in zip(t, arrs)], kw) for t in zip(*es)]
        if shp == ():
            return out[0]
        return asarray(it, it.mklist(out)) if len(shp) == 1 else reshape(it, asarray(it, it.mklist(out)), shp)
    if o.typ == "itemgetter":
        r = [it.getitem(args[0], k) for k in o.data["keys"]]
        return r[0] if len(r) == 1 else tuple(r)
    if o.typ == "attrgetter":
        r = [it.getattr(args[0], k) for k in o.data["keys"]]
        return r[0] if len(r) == 1 else tuple(r)
    if o.typ == "field":
        return None
    it.event("extcall", o.typ, args, kw)
    return Opaque(("call", o.typ, it.fresh("x")))


def opaque_result(it, f, args, kw):
    k = f.key
    if isinstance(k, tuple) and len(k) == 3 and k[0] == "attr" and k[2] == "subplots" and isinstance(k[1], tuple) and k[1][:1] == ("figure",):
        r = it.as_int(arg(it, args, kw, 0, "nrows", 1))
        c = it.as_int(arg(it, args, kw, 1, "ncols", 1))
        ax = [Opaque(("axes", k[1][1], i)) for i in range(r * c)]
        sq = it.truth(kw.get("squeeze", True))
        if sq and r * c == 1:
            return ax[0]
        return it.mkarr(ax, (r, c) if not sq or (r > 1 and c > 1) else (r * c,), "object")
    return NOTIMPL


def unknown_call(it, name, args, kw):
    it.event("extcall", name, args, kw)
    if name.startswith("typing."):
        return Opaque((name,))
    if name.startswith("builtins."):
        return builtin_method(it, name, args, kw)
    if name.startswith("matplotlib"):
        if name == "matplotlib.pyplot.subplots":
            r = it.as_int(arg(it, args, kw, 0, "nrows", 1))
            c = it.as_int(arg(it, args, kw, 1, "ncols", 1))
            u = it.fresh("fig")
            if r == 1 and c == 1:
                return (Opaque(("figure", u), "matplotlib.figure.Figure"), Opaque(("axes", u)))
            return (Opaque(("figure", u), "matplotlib.figure.Figure"), it.mkarr([Opaque(("axes", u, i)) for i in range(r * c)], (r, c) if r > 1 and c > 1 else (r * c,), "object"))
        if name in ("matplotlib.pyplot.figure", "matplotlib.pyplot.Figure", "matplotlib.figure.Figure"):
            return Opaque(("figure", it.fresh("fig")), "matplotlib.figure.Figure")
        return Opaque((name, it.fresh("mpl")))
    # functions of unknown purity: equal arguments give equal results only for numpy / math / scipy
    if name.split(".")[0] in ("numpy", "math", "scipy") and ".random" not in name:
        it.unknown_ext = getattr(it, "unknown_ext", set())
        it.unknown_ext.add(name)
        return Opaque((name, tuple(it.skey_arr(a) for a in args), tuple(sorted((k, it.skey_arr(v)) for k, v in kw.items()))))
    return Opaque((name, it.fresh("ext")))


def builtin_method(it, name, args, kw):
    p = name.split(".")
    if len(p) == 3:
        if p[2] == "__init__":
            if args and isinstance(args[0], Exc):
                args[0].args = tuple(args[1:])
            return None
        if p[1] == "dict" and p[2] == "fromkeys":
            return dict_method(it, it.mkdict(), "fromkeys", args, kw)
        if args:
            return call_method(it, args[0], p[2], list(args[1:]), kw)
    return Opaque((name,))
