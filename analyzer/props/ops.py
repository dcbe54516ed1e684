"""Catalogue of the public operations with small symbolic inputs (shared by C11, C12, C13, C21, C29, C31)."""
from fractions import Fraction as F

from .. import expr as X
from ..expr import sym
from ..values import Arr, Cond, ExtObj, ExtRef, NT, Num, Obj, Opaque, PyDict, PyList, PySet

c = lambda v: Num(X.const(F(v)), "float")
RS = [sym(f"or{i}", F(i, 7), F(i + 1, 7)) for i in range(6)]
TS = [sym(f"ot{i}", F(i, 2), F(i + 1, 2)) for i in range(6)]
POLS = [(0, 0), (1, 1), (-2, 2), (0, 4), (3, 7), (-2, 12), (5, 21), (-8, 30), (2, 46)]


class Op:
    __slots__ = ("name", "make", "run", "tags", "plain")

    def __init__(self, name, make, run, tags=()):
        self.name, self.make, self.run, self.tags = name, make, run, set(tags)
        self.plain = None       # the same operation without acceleration


def vec(a, kind, syms):
    if kind == "float":
        return Num(syms[1], "float")
    if kind == "int":
        return 1
    if kind == "npfloat":
        return Num(syms[1], "npfloat")
    if kind == "list":
        return a.lst([Num(s, "float") for s in syms[:3]])
    if kind == "tuple":
        return tuple(Num(s, "float") for s in syms[:3])
    if kind == "array":
        return a.arr(syms[:3])
    if kind == "array1":
        return a.arr(syms[1:2])
    if kind == "array2d":
        return a.arr(syms[:4], (2, 2))
    if kind == "array-int":
        return a.arr([X.ONE, X.ZERO, X.ONE], (3,), "int64")
    raise KeyError(kind)


def poly_ops():
    out = []

    def evalop(meth, mn, kr, kt, exact):
        def make(a):
            d = {"z": a.zp(*mn)}
            if kr:
                d["r"] = vec(a, kr, RS)
            if kt:
                d["theta"] = vec(a, kt, TS)
            return d

        def run(a, d):
            args = [d[k] for k in ("r", "theta") if k in d]
            kw = {"use_exact_eq": True} if exact else {}
            return a.m(d["z"], meth, *args, **kw)
        return Op(f"{meth} of {mn} for {kr or ''} {kt or ''}{' exact' if exact else ''}", make, run, ("poly",))
    for mn in POLS:
        for k in ("float", "list", "tuple", "array", "array1", "array2d", "array-int"):
            for meth in ("radial", "radial_dr"):
                out.append(evalop(meth, mn, k, None, False))
                if mn[1] <= 38 and k in ("float", "array", "array2d"):
                    out.append(evalop(meth, mn, k, None, True))
            if mn in ((0, 0), (1, 1), (-2, 2), (3, 7)):
                for meth in ("triangular", "triangular_dtheta"):
                    out.append(evalop(meth, mn, None, k, False))
        for kr, kt in (("float", "float"), ("array", "array"), ("array", "float"), ("float", "array"), ("list", "tuple"), ("array2d", "array2d"), ("array-int", "array"), ("array1", "array1")):
            out.append(evalop("polynomial_value", mn, kr, kt, False))
            if mn[1] <= 38 and (kr, kt) in (("float", "float"), ("array", "array"), ("array", "float")):
                out.append(evalop("polynomial_value", mn, kr, kt, True))
    return out


def seqof(a, items, kind):
    return a.lst(items) if kind == "list" else tuple(items) if kind == "tuple" else a.arr([a.e(x) for x in items])


def sum_ops():
    out = []
    sets = [((1, 1), (0, 2)), ((0, 0),), ((3, 3), (-1, 5), (0, 12))]

    def mk(pols, ck, pk, rk, tk, surf):
        def make(a):
            return {"co": seqof(a, [c(F(i + 2, 3)) for i in range(len(pols))], ck), "pols": seqof(a, [a.zp(*x) for x in pols], pk),
                    "r": vec(a, rk, RS), "theta": vec(a, tk, TS)}

        def run(a, d):
            return a.m(a.g("ZernPol"), "sum_zernikes", d["co"], d["pols"], d["r"], d["theta"], **({"get_surface": True} if surf else {}))
        return Op(f"sum_zernikes of {pols} {ck} {pk} {rk} {tk}{' surface' if surf else ''}", make, run, ("sum",))
    for pols in sets:
        for ck in ("list", "tuple", "array"):
            for pk in ("list", "tuple"):
                for rk, tk in (("float", "float"), ("array", "array"), ("array", "float"), ("float", "array"), ("array2d", "array2d")):
                    out.append(mk(pols, ck, pk, rk, tk, False))
                out.append(mk(pols, ck, pk, "array", "array", True))
    for pols in sets[:2]:
        def make(a, pols=pols):
            return {"co": a.lst([c(F(1, 2))] * len(pols)), "pols": a.lst([a.zp(*x) for x in pols])}
        out.append(Op(f"gen_zernikes_surface {pols}", make, lambda a, d: a.m(a.g("ZernPol"), "gen_zernikes_surface", d["co"], d["pols"], c(F(1, 2)), c(F(2))), ("sum",)))
        out.append(Op(f"gen_zernikes_surface equal {pols}", make, lambda a, d: a.m(a.g("ZernPol"), "gen_zernikes_surface", d["co"], d["pols"], equal_n_coordinates=True, n_points=4), ("sum",)))
    return out


def mesh(a):
    nt = a.sub("zernikepol", "polar_vectors")
    return a.it.call(nt, [a.arr(RS[:3]), a.arr(TS[:4])], {})


def surface(a):
    nt = a.sub("zernikepol", "zernikes_surface")
    return a.it.call(nt, [a.arr([sym(f"os{i}", i, i + 1) for i in range(12)], (3, 4)), a.arr(RS[:3]), a.arr(TS[:4])], {})


def fig(a):
    return Opaque(("figure", "provided"), "matplotlib.figure.Figure")


def plot_ops():
    out = []
    for pr in ("2d", "3d", "3D"):
        out.append(Op(f"plot_profile {pr}", lambda a: {"z": a.zp(1, 3), "pc": mesh(a)},
                      lambda a, d, pr=pr: a.m(a.g("ZernPol"), "plot_profile", d["z"], use_defaults=False, projection=pr, polar_coordinates=d["pc"]), ("plot",)))
        out.append(Op(f"plot_profile defaults {pr}", lambda a: {"z": a.zp(1, 3)}, lambda a, d, pr=pr: a.m(a.g("ZernPol"), "plot_profile", d["z"], projection=pr), ("plot", "mesh")))
        out.append(Op(f"plot_sum_zernikes_on_fig surface {pr}", lambda a: {"s": surface(a)},
                      lambda a, d, pr=pr: a.m(a.g("ZernPol"), "plot_sum_zernikes_on_fig", fig(a), use_defaults=False, zernikes_sum_surface=d["s"], projection=pr), ("plot",)))
        for sr in (True, False):
            out.append(Op(f"plot_sum_zernikes_on_fig defaults {pr} {sr}", lambda a: {"co": a.lst([c(F(1, 2)), c(F(1, 3))]), "pols": a.lst([a.zp(1, 3), a.zp(0, 2)])},
                          lambda a, d, pr=pr, sr=sr: a.m(a.g("ZernPol"), "plot_sum_zernikes_on_fig", fig(a), coefficients=d["co"], polynomials=d["pols"], show_range=sr, projection=pr), ("plot", "mesh")))
    out.append(Op("plot_profile untitled", lambda a: {"z": a.zp(0, 2), "pc": mesh(a)},
                  lambda a, d: a.m(a.g("ZernPol"), "plot_profile", d["z"], use_defaults=False, polar_coordinates=d["pc"], show_title=False, color_map="viridis"), ("plot",)))
    out.append(Op("half pyramid", lambda a: {}, lambda a, d: a.m(a.g("ZernPol"), "_plot_zernikes_half_pyramid"), ("plot", "mesh", "big")))
    return out


def img(a, n=5, m=None, tag="oi", dtype="float64"):
    m = m or n
    return a.arr([sym(f"{tag}{i}", i + 1, i + 2, integer=dtype != "float64") for i in range(n * m)], (n, m), dtype)


def hooks(a):
    """Random draws are free symbols, the least-squares solver answers with free symbols, default meshes are small."""
    from .c26 import Solver
    it = a.it
    it.ext_hooks["numpy.linalg.lstsq"] = Solver()
    it.choice_hook = lambda it, xs: xs[-1]
    it.ext_hooks["random.uniform"] = lambda it, args, kw: c(F(3, 4))
    return a


def small_mesh(a):
    def h(it, f, args, kw):
        return mesh(a)
    for q in ("ZernPol.gen_polar_coordinates", "ZernPol.gen_equal_polar_mesh"):
        a.it.call_hooks[q] = h


def phase_ops():
    out = []
    for n, rad, strict in ((5, 1, False), (5, F(3, 4), True), (6, 1, True)):
        for ret in (True, False):
            for seq in ("tuple", "list"):
                out.append(Op(f"fit_polynomials {n} {float(rad)} {strict} {ret} {seq}", lambda a, n=n, seq=seq: {"img": img(a, n), "pols": seqof(a, [a.zp(1, 1), a.zp(0, 2)], seq)},
                              lambda a, d, rad=rad, strict=strict, ret=ret: a.call(a.g("fit_polynomials"), d["img"], d["pols"], crop_radius=c(rad), suppress_warnings=True, strict_circle_border=strict, return_cropped_image=ret), ("fit",)))
        out.append(Op(f"crop_phases_img {n} {float(rad)} {strict}", lambda a, n=n: {"img": img(a, n)},
                      lambda a, d, rad=rad, strict=strict: a.call(a.sub("calculations.fit_zernike_pols", "crop_phases_img"), d["img"], c(rad), True, strict), ("fit",)))
    for seq in ("tuple", "list"):
        out.append(Op(f"fit_polynomials_vectors {seq}", lambda a, seq=seq: {"pols": seqof(a, [a.zp(-1, 1), a.zp(0, 2)], seq), "ph": a.arr([sym(f"op{i}", i, i + 1) for i in range(5)]), "r": a.arr(RS[:5]), "t": a.arr(TS[:5])},
                      lambda a, d: a.call(a.g("fit_polynomials_vectors"), d["pols"], d["ph"], d["r"], d["t"]), ("fit",)))
        out.append(Op(f"fit_zernikes {seq}", lambda a, seq=seq: {"pols": seqof(a, [a.zp(-1, 1), a.zp(0, 2)], seq), "ph": a.arr([sym(f"op{i}", i, i + 1) for i in range(5)]), "r": a.arr(RS[:5]), "t": a.arr(TS[:5])},
                      lambda a, d: a.call(a.sub("calculations.fit_zernike_pols", "fit_zernikes"), (d["ph"], d["r"], d["t"]), d["pols"]), ("fit",)))
    # second layout of coordinates: phases matrix over (radii, angles)
    out.append(Op("fit_zernikes mesh", lambda a: {"pols": tuple([a.zp(-1, 1), a.zp(0, 2)]), "ph": a.arr([sym(f"op{i}", i, i + 1) for i in range(6)]), "r": a.arr(RS[:2]), "t": a.arr(TS[:3])},
                  lambda a, d: a.call(a.sub("calculations.fit_zernike_pols", "fit_zernikes"), (d["ph"], d["r"], d["t"]), d["pols"]), ("fit",)))
    for ck in ("tuple", "list", "array"):
        out.append(Op(f"generate_phases_image {ck}", lambda a, ck=ck: {"pols": tuple([a.zp(-1, 1), a.zp(0, 2)]), "co": seqof(a, [c(F(1, 2)), c(F(1, 3))], ck)},
                      lambda a, d: a.call(a.g("generate_phases_image"), d["pols"], d["co"], 4, 3), ("fit",)))
    out.append(Op("generate_random_phases", lambda a: {}, lambda a, d: a.call(a.g("generate_random_phases"), 2, 4, 3), ("fit", "random")))
    for n in (0, 3, 6):
        out.append(Op(f"generate_polynomials {n}", lambda a: {}, lambda a, d, n=n: a.call(a.g("generate_polynomials"), n), ("poly",)))
    return out


def newpsf(a, d, key="pols"):
    return a.new("ZernPSF", zernpol=d[key])


def setp(a, z, co, na=F(2, 5), wl=F(1, 2), px=F(1, 10)):
    a.m(z, "set_physical_props", NA=c(na), wavelength=c(wl), expansion_coeff=co, pixel_physical_size=c(px))


def small(a, z, size=3, nr=2, nphi=4):
    a.it.setattr(z, "kernel_size", size)
    a.it.setattr(z, "n_int_r_points", nr)
    a.it.setattr(z, "n_int_phi_points", nphi)


def ready(a, d):
    z = newpsf(a, d)
    setp(a, z, d["co"])
    small(a, z)
    return z


PSFS = [(((1, 3),), "single"), (((0, 0),), "single"), (((1, 1),), "tuple"), (((0, 2), (-1, 1)), "tuple"), (((0, 2), (-1, 1)), "list"), (((0, 0), (1, 1)), "list")]


def psf_make(pols, kind, ck):
    def make(a):
        zs = [a.zp(*x) for x in pols]
        cs = [c(F(i + 2, 50)) for i in range(len(pols))]
        return {"pols": zs[0] if kind == "single" else seqof(a, zs, kind), "co": cs[0] if ck == "scalar" else seqof(a, cs, ck)}
    return make


def kernelset(a, z, n=5):
    """Kernel with growing values to the centre."""
    vals = [X.const(F(1, 1 + 3 * ((i - n // 2)**2 + (j - n // 2)**2)) ** 2) for i in range(n) for j in range(n)]
    a.it.setattr(z, "kernel", a.arr(vals, (n, n)))
    a.it.setattr(z, "kernel_size", n)


def psf_ops():
    out = []
    for pols, kind in PSFS:
        cks = ("scalar",) if len(pols) == 1 else ("list", "tuple", "array")
        for ck in cks:
            mk = psf_make(pols, kind, ck)
            nm = f"{pols} {kind} {ck}"
            out.append(Op(f"ZernPSF {nm}", mk, lambda a, d: state(a, newpsf(a, d)), ("psf",)))
            out.append(Op(f"set_physical_props {nm}", mk, lambda a, d: state(a, ready(a, d)), ("psf",)))
            for acc in (False, True, None):
                for norm, verb, supp in ((True, False, False), (False, True, True)):
                    if ck != cks[0] and not (norm and acc is None):
                        continue

                    def run(a, d, acc=acc, norm=norm, verb=verb, supp=supp):
                        z = ready(a, d)
                        return [a.m(z, "calculate_psf_kernel", suppress_warnings=supp, normalized=norm, verbose_info=verb, accelerated=acc)] + state(a, z)
                    out.append(Op(f"calculate_psf_kernel {nm} accelerated={acc} normalized={norm} verbose={verb}", mk, run, ("psf", "kernel")))
                    out[-1].plain = Op(f"calculate_psf_kernel {nm} not accelerated", mk, lambda a, d, run=run: run(a, d, acc=False), ("psf", "kernel"))
            if ck != cks[0]:
                continue
            out.append(Op(f"calculate_psf_kernel again {nm}", mk, lambda a, d: calc_twice(a, d), ("psf", "kernel")))
            out.append(Op(f"set_calculation_props {nm}", mk, lambda a, d: setcalc(a, d), ("psf",)))
            out.append(Op(f"crop_kernel {nm}", mk, lambda a, d: crop(a, d), ("psf",)))
            out.append(Op(f"crop_kernel max {nm}", mk, lambda a, d: crop(a, d, F(1, 5)), ("psf",)))
            for scale in (True, False):
                for dt in ("float64", "uint8", "int64"):
                    mk2 = lambda a, mk=mk, dt=dt: dict(mk(a), img=img(a, 4, 5, "ov" + dt, dt))
                    out.append(Op(f"convolute_img {nm} {scale} {dt}", mk2, lambda a, d, scale=scale: conv(a, d, scale), ("psf", "conv")))
            out.append(Op(f"plot_kernel {nm}", mk, lambda a, d: plotk(a, d, "id"), ("psf", "plot")))
            out.append(Op(f"plot_kernel untitled {nm}", mk, lambda a, d: plotk(a, d, ""), ("psf", "plot")))
            out.append(Op(f"visualize_convolution {nm}", mk, lambda a, d: visu(a, d), ("psf", "plot")))
            out.append(Op(f"visualize_convolution 16 bit {nm}", mk, lambda a, d: visu(a, d, F(1), 300), ("psf", "plot")))
            out.append(Op(f"save_json {nm}", mk, lambda a, d: save(a, d), ("psf", "file")))
            out.append(Op(f"read_json {nm}", mk, lambda a, d: save(a, d, True), ("psf", "file")))
            out.append(Op(f"read_json of absent file {nm}", mk, lambda a, d: a.m(ready(a, d), "read_json", "/absent.json"), ("psf",)))
            if len(pols) == 1:
                out.append(Op(f"get_psf_point_r_parallel {nm}", mk, lambda a, d: a.m(ready(a, d), "get_psf_point_r_parallel", c(F(1, 2)), c(1)), ("psf", "kernel")))
                for nv in (True, False):
                    out.append(Op(f"get_kernel_parallel {nm} {nv}", mk, lambda a, d, nv=nv: [a.m(z := ready(a, d), "get_kernel_parallel", normalize_values=nv)] + state(a, z), ("psf", "kernel")))
            out.append(Op(f"deinitialize_workers {nm}", mk, lambda a, d: a.m(ready(a, d), "deinitialize_workers"), ("psf",)))
    for v in (True, False):
        out.append(Op(f"force_get_psf_compilation {v}", lambda a: {}, lambda a, d, v=v: force(a, v), ("psf", "compile")))
    return out


def force(a, v):
    cl = a.g("ZernPSF")
    old = {k: a.at(cl, k) for k in ("n_int_r_points", "n_int_phi_points")}
    try:
        for k, n in (("n_int_r_points", 2), ("n_int_phi_points", 4)):     # a coarse integration suffices here
            a.it.setattr(cl, k, n)
        return a.call(a.g("force_get_psf_compilation"), v)
    finally:
        for k, n in old.items():
            a.it.setattr(cl, k, n)


def calc_twice(a, d):
    z = ready(a, d)
    k1 = a.m(z, "calculate_psf_kernel", accelerated=False)
    k2 = a.m(z, "calculate_psf_kernel", accelerated=False, normalized=False)
    return [k1, k2]


def setcalc(a, d):
    z = ready(a, d)
    a.m(z, "set_calculation_props", kernel_size=9, n_integration_points_r=100, n_integration_points_phi=80)
    return state(a, z)


def crop(a, d, part=F(1, 100)):
    z = ready(a, d)
    kernelset(a, z)
    a.m(z, "crop_kernel", c(part))
    return state(a, z)


def conv(a, d, scale):
    z = ready(a, d)
    kernelset(a, z, 3)
    return [a.m(z, "convolute_img", d["img"], scale)] + state(a, z)


def plotk(a, d, s):
    z = ready(a, d)
    kernelset(a, z, 3)
    return a.m(z, "plot_kernel", s)


def visu(a, d, radius=F(1), mi=255):
    z = ready(a, d)
    kernelset(a, z, 3)
    return a.m(z, "visualize_convolution", c(radius), mi)


def save(a, d, read=False):
    z = ready(a, d)
    kernelset(a, z, 3)
    a.it.fs.update({"/": "dir", "/cwd": "dir", "/data": "dir"})
    a.m(z, "save_json", "/data")
    if read:
        z2 = a.new("ZernPSF", zernpol=a.zp(0, 0))
        a.m(z2, "read_json", a.at(z, "json_file_path"))
        return state(a, z2)
    return state(a, z)


ATTRS = ("kernel", "kernel_size", "n_int_r_points", "n_int_phi_points", "NA", "wavelength", "pixel_size", "pixel_size_nyquist", "k", "airy", "zernpol", "polynomials",
         "coefficients", "amplitudes", "expansion_coeff", "alpha", "json_file_path")


class St(list):
    """State of an object (not a value returned by the operation)."""


def state(a, z):
    return [St([z] + [a.at(z, k) for k in ATTRS])]


def index_ops():
    out = []
    cl = lambda a: a.g("ZernPol")
    for nm, arg in (("osa2noll", 7), ("noll2osa", 7), ("osa2fringe", 7), ("fringe2osa", 7)):
        out.append(Op(nm, lambda a: {}, lambda a, d, nm=nm, arg=arg: a.m(cl(a), nm, arg), ("poly",)))
    for kw in ({"osa_index": 12}, {"noll_index": 12}, {"fringe_index": 12}):
        out.append(Op(f"index2orders {kw}", lambda a: {}, lambda a, d, kw=kw: a.m(cl(a), "index2orders", **kw), ("poly",)))
    for kw in ({"n": 4, "m": 2}, {"osa": 11}, {"noll": 11}, {"fringe": 11}, {"radial_order": 3, "azimuthal_order": -1}):
        out.append(Op(f"ZernPol({kw})", lambda a: {}, lambda a, d, kw=kw: [a.m(z := a.new("ZernPol", **kw), "get_indices"), a.m(z, "get_mn_orders"), a.m(z, "get_polynomial_name"),
                                                                          a.m(z, "get_polynomial_name", short=True), a.m(z, "normf"), a.it.to_str(z)], ("poly",)))
    out.append(Op("comparison", lambda a: {"x": a.zp(1, 3), "y": a.zp(0, 2)}, lambda a, d: [a.m(d["x"], "__eq__", d["y"]), a.m(d["x"], "__gt__", d["y"])], ("poly",)))
    out.append(Op("gen_polar_coordinates", lambda a: {}, lambda a, d: a.m(cl(a), "gen_polar_coordinates", c(F(1, 4)), c(F(1))), ("sum",)))
    out.append(Op("gen_equal_polar_mesh", lambda a: {}, lambda a, d: a.m(cl(a), "gen_equal_polar_mesh", 5), ("sum",)))
    return out


def all_ops():
    return poly_ops() + index_ops() + sum_ops() + phase_ops() + psf_ops() + plot_ops()


def canon(a, v, seen=()):
    """Comparable structure of a result; numbers stay normal forms."""
    if isinstance(v, Arr):
        return ("arr", tuple(v.shape), v.dtype, tuple(canon(a, x, seen) if not hasattr(x, "t") else x for x in v.elems()))
    if isinstance(v, NT) or isinstance(v, (tuple, list)):
        return (type(v).__name__ if not isinstance(v, NT) else v.nt.name,) + tuple(canon(a, x, seen) for x in v)
    if isinstance(v, PyList):
        return ("list",) + tuple(canon(a, x, seen) for x in v.items)
    if isinstance(v, PyDict):
        return ("dict",) + tuple((canon(a, k, seen), canon(a, x, seen)) for k, x in v.d.values())
    if isinstance(v, Num):
        return ("num", v.kind, v.e)
    if isinstance(v, Obj):
        if id(v) in seen:
            return ("cycle",)
        return ("obj", v.cls.name) + tuple((k, canon(a, x, seen + (id(v),))) for k, x in sorted(v.attrs.items()))
    if v is None or isinstance(v, (bool, int, str)):
        return v
    return type(v).__name__


def same(a, p, x, y):
    """None when equal, else a text about the first difference."""
    if hasattr(x, "t") and hasattr(y, "t"):
        if x.t == y.t or a.equal(p, x, y) is not False:
            return None
        from ..ctx import show
        return f"{show(y, 3)[:150]} instead of {show(x, 3)[:150]}"
    if isinstance(x, tuple) and isinstance(y, tuple):
        if len(x) != len(y):
            return f"{str(y)[:100]} instead of {str(x)[:100]}"
        for u, v in zip(x, y):
            r = same(a, p, u, v)
            if r:
                return r
        return None
    return None if type(x) is type(y) and x == y else f"{str(y)[:100]} instead of {str(x)[:100]}"


def spoil(a, v):
    """The caller overwrites everything it got."""
    if isinstance(v, St):
        return
    if isinstance(v, Arr):
        a.it.touch(v.buf)
        junk = {"bool": True}.get(v.dtype, X.const(77777))
        if v.dtype != "object" and not v.dtype.startswith("<U"):
            for i in v.idx:
                v.buf.data[i] = junk
    elif isinstance(v, (tuple, list)):
        for x in v:
            spoil(a, x)
    elif isinstance(v, PyList):
        for x in v.items:
            spoil(a, x)
        a.it.touch(v)
        v.items[:] = [c(77777)] * (len(v.items) + 1)
    elif isinstance(v, PyDict):
        a.it.touch(v)
        v.d.clear()


def mark(v, prov):
    """Marks containers (not the objects within) of a provided value."""
    if isinstance(v, Arr):
        v.buf.prov = prov
    elif isinstance(v, (tuple, list)):
        for x in v:
            mark(x, prov)
    elif isinstance(v, PyList):
        v.prov = prov
        for x in v.items:
            mark(x, prov)
    elif isinstance(v, (PyDict, PySet)):
        v.prov = prov


def content(v):
    """Comparable content of a provided container."""
    if isinstance(v, Arr):
        return ("arr", tuple(v.shape), v.dtype, tuple(v.elems()))
    if isinstance(v, (tuple, list)):
        return ("tuple",) + tuple(content(x) for x in v)
    if isinstance(v, PyList):
        return ("list",) + tuple(content(x) for x in v.items)
    if isinstance(v, Num):
        return ("num", v.e, v.kind)
    if isinstance(v, (str, int, bool)) or v is None:
        return v
    return id(v)


def reach(v, out=None):
    """Mutable objects reachable from a value: id -> object."""
    out = {} if out is None else out
    if isinstance(v, Arr):
        out[id(v.buf)] = v.buf
        if v.dtype == "object":
            for x in v.elems():
                reach(x, out)
    elif isinstance(v, (tuple, list)):
        for x in v:
            reach(x, out)
    elif isinstance(v, NT):
        for x in (v.vals if hasattr(v, "vals") else v.items):
            reach(x, out)
    elif isinstance(v, PyList):
        if id(v) not in out:
            out[id(v)] = v
            for x in v.items:
                reach(x, out)
    elif isinstance(v, PyDict):
        if id(v) not in out:
            out[id(v)] = v
            for k, x in v.d.values():
                reach(x, out)
    elif isinstance(v, PySet):
        out[id(v)] = v
    elif isinstance(v, dict):
        for x in v.values():
            reach(x, out)
    elif isinstance(v, Obj):
        if id(v) not in out:
            out[id(v)] = v
            for x in v.attrs.values():
                reach(x, out)
    return out
