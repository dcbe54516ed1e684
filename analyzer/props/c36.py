"""C36: malformed arguments are rejected with the documented exception before anything is drawn, solved or started; well-formed ones are accepted."""
from fractions import Fraction as F

from ..ctx import Check
from ..expr import sym
from ..procs import World
from ..values import ExtRef, NT, Num, Obj, PyDict, PyList, PyRaise
from . import c25
from . import c32
from . import kernel as K
from . import ops as O

c = O.c


def judge(a, p, inst, names, rule="reject"):
    """names: accepted exception classes, () - the call is well-formed."""
    if not names:
        return a.expect(p.exc is None, "accept", inst, f"raises {p.exc!r}", a.path_where(p))
    t = getattr(p.exc.cls, "t", None) if p.exc is not None else None
    ok = isinstance(t, type) and any(b.__name__ in names for b in t.__mro__)
    a.expect(ok, rule, inst, f"gives {p.exc or p.result!r} instead of {' / '.join(names)}"[:300], a.path_where(p))


def drawn(a, p):
    return [x[0] for x in c32.calls(a, p) if x[0] in c32.DRAW2 + c32.DRAW3 + c32.IMG + ("show",)]


def plot(a, arg):
    kind, what, proj, names = arg
    rs, ts = c32.coords(3, 4)
    cl = a.g("ZernPol")
    val = [sym(f"pz{i}", i, i + 1) for i in range(12)]
    inst = f"{kind}, {what}, projection {proj}"

    def drv(it):
        pv = c32.meshes(a, rs, ts)
        r, t = a.at(pv, "R"), a.at(pv, "Theta")
        kw = {"projection": proj} if proj else {}
        if kind == "plot_profile":
            pc = {"no coordinates": None, "empty tuple": (), "empty list": a.lst([]), "only radii": (r,), "list of radii": a.lst([r]), "three vectors": (r, t, t), "list of three": a.lst([r, t, r]), "pair": pv}[what]
            if pc is not None:
                kw["polar_coordinates"] = pc
            return a.m(cl, "plot_profile", a.zp(1, 3), use_defaults=False, **kw)
        s = a.it.call(a.sub("zernikepol", "zernikes_surface"), [a.arr(val, (3, 4)), r, t], {})
        f = O.fig(a)
        if kind == "sum of a surface":
            z = {"no surface": None, "empty tuple": (), "only values": (a.at(s, "ZernSurf"),), "values and radii": (a.at(s, "ZernSurf"), r), "four members": (a.at(s, "ZernSurf"), r, t, t),
                 "coordinates": pv, "surface": s}[what]
            if z is not None:
                kw["zernikes_sum_surface"] = z
            return a.m(cl, "plot_sum_zernikes_on_fig", f, use_defaults=False, **kw)
        co, pols = {"nothing": (None, None), "empty tuples": ((), ()), "empty lists": (a.lst([]), a.lst([])), "only coefficients": (a.lst([c(1)]), None), "only polynomials": (None, a.lst([a.zp(1, 3)])),
                    "more coefficients": (a.lst([c(1), c(2)]), a.lst([a.zp(1, 3)])), "more polynomials": (a.lst([c(1)]), a.lst([a.zp(1, 3), a.zp(0, 2)])),
                    "not a polynomial": (a.lst([c(1), c(2)]), a.lst([a.zp(1, 3), 3])), "pairs": ((c(1), c(2)), (a.zp(1, 3), a.zp(0, 2)))}[what]
        if co is not None:
            kw["coefficients"] = co
        if pols is not None:
            kw["polynomials"] = pols
        return a.m(cl, "plot_sum_zernikes_on_fig", f, **kw)
    for p in a.one(drv, "reject", inst, 32):
        judge(a, p, inst, names)
        d = drawn(a, p)
        if names:
            a.expect(not d, "nothing drawn", inst, f"draws by {d} before the rejection", a.path_where(p))
        else:
            a.expect(bool(d), "accept", inst, "draws nothing", a.path_where(p))


def fitvec(a, arg):
    shapes, pols = arg
    inst = f"fit_polynomials_vectors of {len(pols)} polynomial(s), shapes {shapes}"
    n = 12

    def drv(it):
        vs = []
        for tag, s, hi in zip("prt", shapes, (1, 1, 6)):
            k = 1
            for q in s:
                k *= q
            vs.append(a.arr([sym(f"fv{tag}{i}", F(hi * i, n), F(hi * (i + 1), n)) for i in range(k)], s))
        n0 = len(it.events)
        box["n"] = n0
        return a.call(a.g("fit_polynomials_vectors"), tuple(a.zp(*q) for q in pols), *vs)
    box = {}
    bad = any(len(s) != 1 for s in shapes)
    for p in a.one(drv, "reject", inst, 32):
        judge(a, p, inst, ("TypeError",) if bad else ())


def parallel(a, arg):
    pols, ready = arg
    inst = f"parallel kernel of {pols}, workers {'initialized' if ready else 'not initialized'}"

    def drv(it):
        w = World(it, "eager")
        try:
            z = K.psf(a, list(pols))
            K.setn(a, z, 3, 2, 10)
            if ready:
                a.m(z, "initialize_parallel_workers")
            n0 = len(w.procs)
            k0 = a.at(z, "kernel")
            s0 = (list(a.els(k0)), k0.shape)
            exc = None
            try:
                a.m(z, "get_kernel_parallel")
            except PyRaise as e:
                exc = e.exc
            k1 = a.at(z, "kernel")
            return exc, len(w.procs) - n0, s0[1] == k1.shape and all(x.t == y.t for x, y in zip(s0[0], a.els(k1)))
        finally:
            w.kill()
    for p in c25.traces(a, drv, "reject", inst, 64):
        if p.exc is not None:
            a.bad("reject", inst, f"preparation raises {p.exc!r}", a.path_where(p))
            continue
        exc, started, same = p.result
        if len(pols) > 1:
            a.expect(exc is not None and exc.name == "ValueError", "reject", inst, f"gives {exc or 'a kernel'} instead of ValueError", a.path_where(p))
            a.expect(started == 0 and same, "rejected-unchanged", inst, f"{started} processes started, kernel {'un' if same else ''}changed", a.path_where(p))
        else:
            a.expect(exc is None, "accept", inst, f"raises {exc!r}", a.path_where(p))


def pool(a, arg):
    what, val = arg
    inst = f"worker pool: {what} {val!r}"

    def drv(it):
        w = World(it, "eager")
        try:
            n0 = len(it.events)
            f = c25.func(a)
            if what == "function":
                f = {"None": None, "text": "radial_integral_s", "number": 3, "list": a.lst([f]), "tuple": (f, f), "instance": a.zp(1, 1)}[val]
            mx = it.lookup_ext("os.cpu_count") if hasattr(it, "lookup_ext") else None
            ps = c25.params(a, "q", 40)
            kw = {} if what == "function" or val is None else {"n_workers": val}
            exc = m = None
            res = None
            try:
                m = a.call(a.sub(*c25.DM), compute_func=f, params_list=a.lst(ps), **kw)
            except PyRaise as e:
                exc = e.exc
            warns = [e for e in it.events[n0:] if e.kind == "warn"]
            k = len(w.procs)
            mxw = a.m(m, "get_max_workers") if m is not None else None
            num = a.at(m, "workers_number") if m is not None else None
            if m is not None:
                res = a.m(m, "compute")
                res = list(res.items) if isinstance(res, PyList) else res
                a.m(m, "close")
            return exc, k, len(warns), mxw, num, res, ps
        finally:
            w.kill()
    for p in c25.traces(a, drv, "reject", inst, 64):
        if p.exc is not None:
            a.bad("accept", inst, f"raises {p.exc!r}", a.path_where(p))
            continue
        exc, k, warns, mx, num, res, ps = p.result
        if what == "function":
            a.expect(exc is not None and exc.name == "TypeError", "reject", inst, f"gives {exc or 'a pool'} instead of TypeError", a.path_where(p))
            a.expect(k == 0, "rejected-unchanged", inst, f"{k} processes started", a.path_where(p))
            continue
        if exc is not None:
            a.bad("accept", inst, f"raises {exc!r}", a.path_where(p))
            continue
        dflt = mx // 2
        good = val is None or 2 <= val <= mx
        a.expect(num == k == (dflt if val is None or not good else val), "worker number", inst, f"{k} workers are started ({num} reported) instead of {dflt if val is None or not good else val}", a.path_where(p))
        a.expect((warns > 0) == (not good), "worker warning", inst, f"{warns} warnings", a.path_where(p))
        c25.check_results(a, p, "pool result", inst, res, ps)


def unit(a, item):
    {"plot": plot, "fitvec": fitvec, "parallel": parallel, "pool": pool}[item[0]](a, item[1])


def check(tier):
    ck = Check("C36", tier, "guard analysis: every trace of calls with malformed arguments ends with the documented exception and without events of drawing, starting of processes or changing of the kernel; traces of the neighbouring "
               "well-formed calls have none", 80)
    V = ("ValueError",)
    items = []
    for proj in (None, "2d", "3d", "3D"):
        for w in ("no coordinates", "empty tuple", "empty list", "only radii", "list of radii", "three vectors", "list of three", "pair"):
            items.append(("plot", ("plot_profile", w, proj, () if w == "pair" else V)))
        for w in ("no surface", "empty tuple", "only values", "values and radii", "four members", "coordinates", "surface"):
            items.append(("plot", ("sum of a surface", w, proj, () if w == "surface" else V)))
        for w in ("nothing", "empty tuples", "empty lists", "only coefficients", "only polynomials", "more coefficients", "more polynomials", "not a polynomial", "pairs"):
            items.append(("plot", ("sum of polynomials", w, proj, () if w == "pairs" else V)))
    n4, sq, row, col, cube = (4,), (2, 2), (1, 4), (4, 1), (2, 2, 1)
    for pols in (((1, 1),), ((1, 1), (0, 2), (-2, 2))):
        for b in (sq, row, col, cube):
            items += [("fitvec", (s, pols)) for s in ((b, n4, n4), (n4, b, n4), (n4, n4, b), (b, b, n4), (n4, b, b), (b, b, b))]
        items.append(("fitvec", ((n4, n4, n4), pols)))
        items.append(("fitvec", (((12,), (12,), (12,)), pols)))
    for pols in (((-2, 2),), ((0, 2), (-2, 2)), ((0, 0), (1, 1)), ((1, 1), (-1, 1), (0, 4))):
        items += [("parallel", (pols, r)) for r in (False, True) if r or len(pols) > 1]
    items += [("pool", ("function", v)) for v in ("None", "text", "number", "list", "tuple", "instance")]
    items += [("pool", ("workers", v)) for v in (None, 1, 0, -1, -4, 2, 3, 4, 5, 6, 7, 8, 9, 10, 64)]
    ck.units(unit, items)
    return ck.finish()
