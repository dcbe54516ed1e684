"""C35: warnings about unsuitable parameters and results are issued exactly when their condition holds."""
from fractions import Fraction as F

from ..ctx import Check, env_of, cond_holds
from ..expr import sym
from ..values import ExtRef, Func, Num
from .. import expr as X
from .. import spec
from . import kernel as K
from . import ops as O

c = O.c
S = sym("c35_s", F(1, 10**6), 3)
NA, WL, PX = F(1, 2), F(1, 2), F(1, 5)
SAMPLES = [F(1, 1000), F(1, 100), F(3, 100), F(49, 1000), F(51, 1000), F(7, 100), F(1, 10), F(1, 2), F(11, 10), F(2)]
FUNCS = {"ordinary": [("calculations.calc_psfs", "get_psf_point_r_parallel"), ("calculations.calc_psfs", "get_psf_point_r"), ("calculations.calc_psfs", "get_psf_point_r_pols")],
         "compiled": [("calculations.calc_psfs_numba", "get_psf_point_r_comp"), ("calculations.calc_psfs_numba", "get_psf_point_r_pols_comp")]}

ORIG = {}


def summary(a, mode, size, vals, counter):
    """The point functions are replaced by their summary: the value provided for the pixel in the distance and direction of the arguments."""
    a.it.purememo.clear()       # results of the original functions
    centre = size // 2
    place = {}
    for i in range(size):
        for j in range(size):
            d2 = (i - centre)**2 + (j - centre)**2
            th = X.mpmath.atan2(i - centre, j - centre) + X.mpmath.pi
            place[(d2, int(X.mpmath.nint(th * 10**6)))] = vals.get((i, j), F(1, 10**4))

    def num(v):
        return X._r(X.evalE(a.e(v), env_of({}), {}))
    for mod, name in FUNCS[mode]:
        f = ORIG.setdefault((id(a), mod, name), a.sub(mod).vars.get(name))
        if not isinstance(f, Func):
            continue
        pars = [q.arg for q in f.node.args.args]

        def hook(it, args, kw, pars=pars):
            b = dict(zip(pars, args), **kw)
            if "r" not in b or "theta" not in b:
                it.unsup("point function with unknown parameters")
            r, th = num(b["r"]), num(b["theta"])
            u = r / (2 * X.mpmath.pi / X.mpmath.mpf(WL.numerator) * WL.denominator * X.mpmath.mpf(NA.numerator) / NA.denominator * X.mpmath.mpf(PX.numerator) / PX.denominator)
            v = place.get((int(X.mpmath.nint(u * u)), int(X.mpmath.nint(th * 10**6))))
            if v is None:
                it.unsup("point outside of the pixel grid is calculated")
            counter.append(1)
            return Num(v if isinstance(v, X.E) else X.const(v), "float")
        a.it.ext_hooks["c35." + name] = hook
        a.sub(mod).vars[name] = ExtRef("c35." + name)


def border(a, mode, pols, size, pos, norm, peak):
    inst = f"{mode} kernel {size}x{size} of {len(pols)} polynomial(s), value s in pixel {pos}, maximum in {peak}, normalized={norm}"
    for sup in (False, True, None):
        counter = []

        def drv(it):
            counter.clear()
            z = K.psf(a, list(pols), na=X.const(NA), wl=X.const(WL), px=X.const(PX))
            K.setn(a, z, size, 2, 2)
            n0 = len(it.events)
            summary(a, mode, size, {peak: F(1), pos: S}, counter)
            kw = {} if sup is None else {"suppress_warnings": sup}
            r = a.m(z, "calculate_psf_kernel", accelerated=mode == "compiled", normalized=norm, **kw)
            return r, [e for e in it.events[n0:] if e.kind == "warn"], len(counter)
        ps = a.one(drv, "border", inst, 64)
        for v in SAMPLES:
            env = env_of({"c35_s": v})
            hit = [p for p in ps if cond_holds(p, env)]
            if not hit:
                a.undecided("border", inst, "no trace covers the point")
            for p in hit:
                if p.exc is not None:
                    a.bad("border", inst, f"raises {p.exc!r}", a.path_where(p))
                    continue
                r, warns, n = p.result
                if n != size * size:
                    a.undecided("border", inst, f"{n} calls of the known point functions")
                    continue
                mx = max(v, F(1))
                bd = max([v if pos[0] in (0, size - 1) or pos[1] in (0, size - 1) else F(0), F(1) if peak[0] in (0, size - 1) or peak[1] in (0, size - 1) else F(0), F(1, 10**4)])
                want = bd * 20 > mx and not sup
                a.expect(bool(warns) == want, "border", f"{inst}, suppress_warnings={sup}, s={float(v)}",
                         f"{'no warning though the border value' if want else 'warning though the border value'} is {float(bd / mx):.3g} of the maximum", a.path_where(p))


def coefficient(a, where):
    """Amplitude above 10 wavelengths."""
    wl, tiny = F(1, 2), F(1, 1000)
    regions = [(10 * wl + tiny, None), (10 * wl + tiny, 6), (None, -10 * wl - tiny), (-6, -10 * wl - tiny), (tiny, wl / 5), (wl / 3, wl / 2 - tiny), (-wl / 5, -tiny), (9 * wl, 10 * wl - tiny), (-10 * wl + tiny, -9 * wl)]
    for lo, hi in regions:
        x = Num(sym(f"c35_c{lo}_{hi}", lo, hi), "float")
        over = lo is not None and lo >= 10 * wl or hi is not None and hi <= -10 * wl
        pols = ((1, 3), (0, 2), (-2, 2))
        forms = {"single": (pols[:1], x), "sequence of one": (pols[:1], a.lst([x])), "first": (pols, (x, c(F(1, 50)), c(F(-1, 50)))), "middle": (pols, a.lst([c(F(-1, 50)), x, c(F(1, 50))])),
                 "last": (pols, (c(F(1, 50)), c(F(1, 40)), x)), "array": (pols[:2], a.arr([X.const(F(-1, 50)), x.e], (2,), "float64", "input"))}
        if where not in forms:
            continue
        ps, co = forms[where]
        inst = f"{where} coefficient in [{lo and float(lo)}, {hi and float(hi)}], wavelength {float(wl)}"

        def drv(it):
            z = a.new("ZernPSF", zernpol=a.zp(*ps[0]) if where == "single" else tuple(a.zp(*q) for q in ps))
            a.m(z, "set_physical_props", NA=c(F(1, 2)), wavelength=c(wl), expansion_coeff=co, pixel_physical_size=c(F(1, 5)))
        for p in a.one(drv, "coefficient", inst, 64):
            if p.exc is not None:
                a.bad("coefficient", inst, f"raises {p.exc!r}", a.path_where(p))
                continue
            a.expect(bool(p.warns()) == over, "coefficient", inst, f"{'no warning' if over else 'warning ' + str(p.warns()[:1])}", a.path_where(p))


def calcprops(a, arg):
    for phys in (True, False):
        for size in (3, 4, 7, 8, 13, 14, 15, 16, 17, 18, 19, 20, 21, 35, 51):
            for nr, nphi in ((20, 36), (500, 400), (501, 400), (500, 401), (501, 401), (499, 1200), (900, 300), (800, 800)):
                inst = f"set_calculation_props({size}, {nr}, {nphi}), {'after' if phys else 'without'} physical parameters"

                def drv(it):
                    z = a.new("ZernPSF", zernpol=a.zp(1, 3))
                    est = None
                    if phys:
                        a.m(z, "set_physical_props", NA=c(F(1, 2)), wavelength=c(F(1, 2)), expansion_coeff=c(F(1, 50)), pixel_physical_size=c(F(1, 11)))
                        est = a.at(z, "kernel_size")
                    n0 = len(it.events)
                    a.m(z, "set_calculation_props", kernel_size=size, n_integration_points_r=nr, n_integration_points_phi=nphi)
                    return est, [e for e in it.events[n0:] if e.kind == "warn"], a.at(z, "kernel_size")
                for p in a.one(drv, "settings", inst, 16):
                    if p.exc is not None:
                        a.bad("settings", inst, f"raises {p.exc!r}", a.path_where(p))
                        continue
                    est, warns, got = p.result
                    want = int(not phys or size + 1 - size % 2 < est) + int(nr > 500 and nphi > 400)
                    a.expect(bool(warns) == bool(want) and (want < 2 or len(warns) >= 1), "settings", inst, f"{len(warns)} warnings, {want} reasons (estimated size {est})", a.path_where(p))


def large(a, arg):
    for size in (83, 85, 86, 87):
        for sup in (False, True):
            counter = []
            inst = f"compiled kernel {size}x{size}, suppress_warnings={sup}"
            odd = size + 1 - size % 2

            def drv(it):
                counter.clear()
                z = K.psf(a, [(1, 3)], na=X.const(NA), wl=X.const(WL), px=X.const(PX))
                K.setn(a, z, size, 2, 2)
                n0 = len(it.events)
                summary(a, "compiled", odd, {(odd // 2, odd // 2): F(1)}, counter)
                a.m(z, "calculate_psf_kernel", accelerated=True, suppress_warnings=sup)
                return [e for e in it.events[n0:] if e.kind == "warn"], len(counter)
            for p in a.one(drv, "large", inst, 16):
                if p.exc is not None:
                    a.bad("large", inst, f"raises {p.exc!r}", a.path_where(p))
                elif p.result[1] != odd * odd:
                    a.undecided("large", inst, "point functions aren't known")
                else:
                    want = odd > 85 and not sup
                    a.expect(bool(p.result[0]) == want, "large", inst, f"{len(p.result[0])} warnings", a.path_where(p))


def generated(a, arg):
    for k in arg:
        for nm, v in (("int", k), ("float", c(k))):
            inst = f"generate_polynomials(max_order={k} as {nm})"
            for p in a.one(lambda it: it.call(a.g("generate_polynomials"), [], {"max_order": v}), "generated", inst):
                if p.exc is not None:
                    a.bad("generated", inst, f"raises {p.exc!r}", a.path_where(p))
                    continue
                want = k > 30 or nm == "float"
                a.expect(bool(p.warns()) == want, "generated", inst, f"{len(p.warns())} warnings", a.path_where(p))


def slow(a, arg):
    """Slow calculation for high orders is announced by the first call."""
    for mn in arg:
        for meth, lim in (("polynomial_value", 50), ("radial", 50), ("radial_dr", 48)):
            for nm, mk in (("float", lambda: c(F(1, 3))), ("array", lambda: a.arr([X.const(F(1, 3)), X.const(F(2, 3))], (2,), "float64", "input"))):
                inst = f"ZernPol{mn}.{meth} ({nm})"

                def drv(it):
                    z = a.zp(*mn)
                    args = (mk(), mk()) if meth == "polynomial_value" else (mk(),)
                    n0 = len(it.events)
                    a.m(z, meth, *args)
                    n1 = len(it.events)
                    a.m(z, meth, *args)
                    f = lambda es: [e for e in es if e.kind == "warn"]
                    return f(it.events[n0:n1]), f(it.events[n1:])
                for p in a.one(drv, "slow", inst):
                    if p.exc is not None:
                        a.bad("slow", inst, f"raises {p.exc!r}", a.path_where(p))
                        continue
                    a.expect(bool(p.result[0]) == (mn[1] > lim), "slow", inst, f"first call gives {len(p.result[0])} warnings", a.path_where(p))
                    a.expect(not p.result[1], "slow-once", inst, "warns again", a.path_where(p))


def crop(a, arg):
    for rows, cols in arg:
        for strict in (False, True):
            for sup in (False, True):
                for fn in ("crop_phases_img", "fit_polynomials"):
                    inst = f"{fn}: image {rows}x{cols}, strict border {strict}, warnings suppressed {sup}"

                    def drv(it):
                        im = a.arr([sym(f"c35p{k}", k, k + 1) for k in range(rows * cols)], (rows, cols), "float64", "input")
                        if fn == "crop_phases_img":
                            f = a.sub("calculations.fit_zernike_pols", fn)
                            kw = dict(zip([q.arg for q in f.node.args.args][1:], (Num(X.ONE, "float"), sup, strict)))
                            return it.call(f, [im], kw)
                        return it.call(a.g(fn), [im, (a.zp(0, 0),)], {"suppress_warnings": sup, "strict_circle_border": strict})
                    for p in a.one(drv, "crop", inst, 32):
                        if p.exc is not None:
                            a.bad("crop", inst, f"raises {p.exc!r}", a.path_where(p))
                            continue
                        want = not sup and (rows != cols or rows % 2 == 0 or cols % 2 == 0)
                        a.expect(bool(p.warns()) == want, "crop", inst, f"{len(p.warns())} warnings", a.path_where(p))


def unit(a, item):
    ORIG.clear()
    globals()[item[0]](a, *item[1:])


def check(tier):
    ck = Check("C35", tier, "warning events on all traces: kernels with a symbolic pixel in every border position (point functions replaced by summaries), symbolic amplitudes in unbounded regions, "
               "settings around their limits, generated and slow polynomials, cropped images; suppression", 1700,
               assumptions=["text of warnings isn't judged", "float arithmetic is modelled by exact real arithmetic"])
    items = []
    for mode in ("ordinary", "compiled"):
        for pols in (((1, 3),), ((0, 2), (-1, 1))):
            for size in (5, 7):
                ring = [(i, j) for i in range(size) for j in range(size) if i in (0, size - 1) or j in (0, size - 1)]
                inner = [(1, 1), (size - 2, 2), (2, size - 2)]
                ctr = (size // 2, size // 2)
                for k, pos in enumerate((ring if size == 5 else ring[::3]) + inner):
                    items.append(("border", mode, pols, size, pos, bool(k % 2), ctr if k % 5 else (2, 1)))
    items += [("coefficient", w) for w in ("single", "sequence of one", "first", "middle", "last", "array")]
    items += [("calcprops", None), ("large", None), ("generated", (0, 1, 2, 5, 10)), ("generated", (29, 30)), ("generated", (31,)), ("generated", (33,))]
    items += [("slow", (mn,)) for mn in ((0, 48), (1, 49), (-3, 49), (0, 50), (-50, 50), (1, 51), (51, 51), (2, 52), (0, 54), (-54, 54), (3, 13), (1, 1))]
    items += [("crop", ((r, q),)) for r, q in ((3, 3), (5, 5), (7, 7), (4, 4), (6, 6), (5, 7), (7, 5), (4, 5), (5, 4), (6, 4), (3, 6), (9, 9), (8, 9), (12, 12))]
    ck.units(unit, items)
    return ck.finish()
