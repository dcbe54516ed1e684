"""C20: a saved PSF object is restored completely by loading its file (writer and reader composed over a modelled file system)."""
from fractions import Fraction as F

from ..ctx import Check, show
from ..expr import sym
from ..values import Arr, Num, PyList
from .. import expr as X
from . import kernel as K

fl = K.fl
c = lambda v: Num(X.const(F(v)), "float")
SAVED = [((1, 3),), ((0, 0),), ((-2, 2),), ((0, 2), (-1, 1)), ((0, 0), (3, 3), (-1, 5)), ((2, 4), (0, 0)), "seq", ((-54, 54),), ((0, 4), (0, 2), (1, 1), (-1, 1))]
LOADERS = ["default-single", "default-piston", "default-several", "default-several-piston", "set-single", "set-several", "calculated", "loaded", "itself-changed"]
COMMON = ("kernel", "kernel_size", "n_int_r_points", "n_int_phi_points", "NA", "wavelength", "pixel_size", "pixel_size_nyquist", "k", "airy")


def build(a, pols, tag="", size=3, nr=2, nphi=4):
    """PSF object with symbolic parameters and kernel; returns the object."""
    one = pols == "seq"
    pols = ((1, 1),) if one else pols
    zs = [a.zp(*x) for x in pols]
    z = a.new("ZernPSF", zernpol=tuple(zs) if len(zs) > 1 or one else zs[0])
    na, wl = sym("NAj" + tag, F(42, 100), F(421, 1000)), sym("wlj" + tag, F(502, 1000), F(503, 1000))
    px = sym("pxj" + tag, F(1, 10), F(10001, 100000))
    cs = [fl(sym(f"coj{i}{tag}", F(20 + 10 * i, 1000), F(21 + 10 * i, 1000))) for i in range(len(pols))]
    if tag:         # previous content of the loading object
        na, wl, px = X.const(F(7, 10)), X.const(F(9, 20)), X.const(F(3, 40))
        cs = [c(F(2 + i, 70)) for i in range(len(pols))]
    a.m(z, "set_physical_props", NA=fl(na), wavelength=fl(wl), expansion_coeff=cs[0] if len(pols) == 1 else a.lst(cs), pixel_physical_size=fl(px))
    s = a.it.setattr
    s(z, "kernel_size", size)
    s(z, "n_int_r_points", nr)
    s(z, "n_int_phi_points", nphi)
    s(z, "kernel", a.arr([sym(f"K{tag}{size}_{i}", 0, 1) for i in range(size * size)], (size, size)))
    return z


def state(a, z):
    st = {k: val(a, a.at(z, k)) for k in COMMON}
    zp = a.at(z, "zernpol")
    pols = a.at(z, "polynomials")
    pols = list(pols.items if isinstance(pols, PyList) else pols)
    several = zp is None
    if several:
        st["polynomials"] = tuple(a.m(p, "get_mn_orders") for p in pols)
        st["coefficients"], st["amplitudes"] = val(a, a.at(z, "coefficients")), val(a, a.at(z, "amplitudes"))
    else:
        st["zernpol"] = a.m(zp, "get_mn_orders")
        st["polynomials"] = tuple(a.m(p, "get_mn_orders") for p in pols)
        st["expansion_coeff"], st["alpha"] = val(a, a.at(z, "expansion_coeff")), val(a, a.at(z, "alpha"))
    return st


def val(a, v):
    if isinstance(v, bool) or v is None or isinstance(v, (str, tuple)):
        return v
    if isinstance(v, Arr):
        return ("arr", tuple(v.shape), tuple(a.els(v)))
    if isinstance(v, PyList):
        return ("arr", (len(v.items),), tuple(a.e(x) for x in v.items))
    return ("num", (), (a.e(v),))


def differs(a, p, x, y):
    """Names of entries that aren't equal."""
    out = []
    for k in sorted(set(x) | set(y)):
        if k not in x or k not in y:
            out.append((k, "exists in one of both states only"))
            continue
        u, v = x[k], y[k]
        if isinstance(u, tuple) and u and u[0] in ("arr", "num") and isinstance(v, tuple) and v and v[0] in ("arr", "num"):
            if u[1] != v[1]:
                out.append((k, f"shape {v[1]} instead of {u[1]}"))
            else:
                d = next(((e, f) for e, f in zip(u[2], v[2]) if a.equal(p, e, f) is False), None)
                if d:
                    out.append((k, f"{show(d[1], 3)[:120]} instead of {show(d[0], 3)[:120]}"))
        elif not (type(u) is type(v) and u == v):
            out.append((k, f"{v} instead of {u}"))
    return out


def loader(a, kind):
    if kind.startswith("default"):
        pols = {"default-single": ((1, 1),), "default-piston": ((0, 0),), "default-several": ((1, 1), (0, 4)), "default-several-piston": ((0, 0), (0, 4))}[kind]
        zs = [a.zp(*x) for x in pols]
        return a.new("ZernPSF", zernpol=zs[0] if len(zs) == 1 else tuple(zs))
    if kind == "set-single":
        return build(a, ((0, 0),), "_o", 5, 3, 6)
    if kind == "set-several":
        return build(a, ((0, 0), (1, 1), (5, 5)), "_o", 5, 3, 6)
    if kind == "calculated":
        z = build(a, ((0, 2),), "_o", 5, 2, 4)
        a.m(z, "calculate_psf_kernel", accelerated=False)
        return z
    if kind == "loaded":        # has loaded another file before
        o = build(a, ((-3, 3), (0, 0)), "_o", 5, 3, 6)
        a.m(o, "save_json")
        z = a.new("ZernPSF", zernpol=a.zp(0, 0))
        a.m(z, "read_json", a.at(o, "json_file_path"))
        return z
    raise KeyError(kind)


def dirs(it):
    it.fs.update({"/": "dir", "/cwd": "dir", "/data": "dir"})


def roundtrip(a, item):
    pols, kind = item
    size = 5 if len(pols) == 2 else 3
    inst = f"{pols} -> {kind}"
    it = a.it

    def drv(it):
        dirs(it)
        z = build(a, pols, "", size)
        s0 = state(a, z)
        if kind == "itself-changed":
            a.m(z, "save_json", abs_path="/data")
            co = c(F(7, 100)) if pols == "seq" or len(pols) == 1 else a.lst([c(F(7, 100))] * len(pols))
            a.m(z, "set_physical_props", NA=c(F(9, 10)), wavelength=c(F(8, 10)), expansion_coeff=co, pixel_physical_size=c(F(1, 10)))
            a.m(z, "set_calculation_props", kernel_size=7, n_integration_points_r=100, n_integration_points_phi=120)
            it.setattr(z, "kernel", a.arr([X.ONE] * 49, (7, 7)))
            s1 = s0
            a.m(z, "read_json")
            z2 = z
        else:
            a.m(z, "save_json", abs_path="/data")
            s1 = state(a, z)
            z2 = loader(a, kind)
            a.m(z2, "read_json", a.at(z, "json_file_path"))
        s2 = state(a, z2)
        # second generation: the restored object is saved and loaded again
        a.m(z2, "save_json", abs_path="/data", overwrite=True)
        z3 = a.new("ZernPSF", zernpol=(a.zp(1, 1), a.zp(0, 0)))
        a.m(z3, "read_json", mkp(it, a.at(z2, "json_file_path")))
        ker = None
        if kind in ("default-several", "default-single", "set-several") and pols not in (((-54, 54),), SAVED[-1]):
            zz = build(a, pols, "", size)
            ker = [a.m(q, "calculate_psf_kernel", accelerated=False, normalized=False) and None or a.at(q, "kernel") for q in (zz, z2)]
        return s0, s1, s2, state(a, z3), ker
    n = 0
    for p in a.one(drv, "restored", inst, 300):
        n += 1
        w = a.path_where(p)
        if p.exc is not None:
            a.bad("restored", inst, f"saving and loading raises {p.exc!r}", w)
            continue
        s0, s1, s2, s3, ker = p.result
        for rule, x, y in (("saving-keeps", s0, s1), ("restored", s0, s2), ("restored-again", s0, s3)):
            d = differs(a, p, x, y)
            for k, msg in d:
                a.bad(rule, f"{inst}: {k}", msg, w)
            for k in x:
                if k not in {q for q, _ in d}:
                    a.ok(rule, f"{inst}: {k}")
        if ker:
            k1, k2 = ker
            ok = tuple(k1.shape) == tuple(k2.shape) and all(a.equal(p, u, v) is not False for u, v in zip(a.els(k1), a.els(k2)))
            a.expect(ok, "same-kernel", inst, "kernel calculated by the restored object isn't the one calculated by the saved object", w)
    if not n:
        a.undecided("restored", inst, "no trace")


def missing(a, item):
    pols, kind, drop = item

    def drv(it):
        dirs(it)
        z = build(a, pols, "", 3)
        s0 = state(a, z)
        a.m(z, "save_json", abs_path="/data")
        fp = a.at(z, "json_file_path")
        key = next((k for k, v in it.fs.items() if isinstance(v, tuple) and v[0] == "json"), None)
        if key is None or it.fs[key][1][0] != "dict":
            return None
        ents = it.fs[key][1][1]
        if drop == "all":
            names, ents = ["all entries"], []
        elif drop == "list":        # single polynomial written as a list of one with its amplitude
            names = ["list of one polynomial"]
            ents = [("Polynomials", ("list", [v])) if k == "Polynomial" else ("Amplitudes", ("list", [v])) if k == "Expansion Coefficient" else (k, v) for k, v in ents]
        elif drop == "half":
            names, ents = ["the second half of entries"], ents[:len(ents) // 2]
        else:
            if drop >= len(ents):
                return None
            names, ents = [ents[drop][0]], ents[:drop] + ents[drop + 1:]
        it.fs[key] = ("json", ("dict", ents))
        z2 = loader(a, kind)
        n0 = len(it.events)
        from ..values import PyRaise
        try:
            a.m(z2, "read_json", fp)
        except PyRaise as e:
            return names, e.exc, False, None, s0
        w = any(e.kind == "warn" for e in it.events[n0:])
        return names, None, w, None if w else state(a, z2), s0
    inst = f"{pols} -> {kind}: entry {drop} is missing"
    for p in a.one(drv, "missing", inst, 300):
        if p.exc is not None:
            a.bad("missing", inst, f"preparation raises {p.exc!r}", a.path_where(p))
            continue
        if p.result is None:
            continue
        names, exc, warned, s2, s0 = p.result
        inst2 = f"{pols} -> {kind}: {names[0]} is missing"
        w = a.path_where(p)
        if exc is not None:
            a.bad("missing", inst2, f"raises {exc!r}", w)
        elif warned:
            a.ok("missing", inst2)
        else:
            d = differs(a, p, s0, s2)
            if drop == "list":
                d = [x for x in d if x[0] != "polynomials"]
            a.expect(not d, "missing", inst2, f"no warning though not restored: {d[:2]}", w)


def wrongpath(a, item):
    kind, path = item

    def drv(it):
        dirs(it)
        z = loader(a, kind)
        s0 = state(a, z)
        n0 = len(it.events)
        if path == "none-fresh":
            a.m(z, "read_json")
        elif path.startswith("Path:"):
            a.m(z, "read_json", mkp(it, path[5:]))
        else:
            a.m(z, "read_json", path)
        return s0, state(a, z), any(e.kind == "warn" for e in it.events[n0:])
    inst = f"{kind} <- {path!r}"
    for p in a.one(drv, "wrong-path", inst, 100):
        w = a.path_where(p)
        if p.exc is not None:
            a.bad("wrong-path", inst, f"raises {p.exc!r}", w)
            continue
        s0, s1, warned = p.result
        a.expect(warned, "wrong-path", inst, "no warning", w)
        d = differs(a, p, s0, s1)
        a.expect(not d, "wrong-path-unchanged", inst, f"object is changed: {d[:2]}", w)


def mkp(it, s):
    from ..models import mkpath
    return mkpath(it, s)


FN = {"rt": roundtrip, "ms": missing, "wp": wrongpath}


def unit(a, item):
    FN[item[0]](a, item[1])


def check(tier):
    ck = Check("C20", tier,
               "Every entry written by save_json has to flow through read_json into the attribute it came from: saver and loader are composed over a modelled file system with symbolic parameters, "
               "for every kind of saved object and every previous content of the loading object; dropped entries and wrong paths have to give a warning, no exception.",
               900, "other", ["JSON keeps numbers exactly (repr round trip)", "objects with accepted physical parameters are saved"])
    items = [("rt", (p, k)) for p in SAVED for k in LOADERS]
    drops = list(range(12)) + ["all", "half"]
    items += [("ms", (p, k, d)) for p in (((1, 3),), ((0, 2), (-1, 1)), ((0, 0),)) for k in ("default-single", "default-several", "set-single", "set-several") for d in drops]
    items += [("ms", (p, k, "list")) for p in (((1, 3),), ((0, 0),)) for k in ("default-single", "default-several", "set-single", "set-several", "default-piston")]
    items += [("wp", (k, p)) for k in ("default-single", "default-several", "set-single", "set-several")
              for p in ("/data/absent.json", "/absent/file.json", "/data", "", "relative.json", "Path:/data/absent.json", "Path:/data", "none-fresh")]
    chunks = [items[i::32] for i in range(32)]
    ck.units(units, chunks)
    return ck.finish()


def units(a, chunk):
    for it in chunk:
        unit(a, it)
