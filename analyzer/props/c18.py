"""C18: kernels are square, odd-sized and centred on the optical axis."""
from fractions import Fraction as F

from . import kernel as K
from .. import expr as X
from .. import spec
from ..ctx import Check, cond_holds, env_of, show
from ..expr import sym
from ..values import Arr, Num

# wide ranges for the estimation of the size
NAW, WLW, PXW = sym("NA_w", 0, F(17, 10), lo_open=True), sym("wl_w", 0, lo_open=True), sym("px_w", 0, lo_open=True)
COW = sym("co_w")
FUNCS = {"ordinary": ("calculations.calc_psfs", "get_psf_point_r_parallel"), "compiled": ("calculations.calc_psfs_numba", "get_psf_point_r_comp")}


def samples(p, k, seeds=400):
    """Points of the trace p."""
    n = 0
    for s in range(seeds):
        env = X.sampler(s)
        try:
            if cond_holds(p, env):
                yield env
                n += 1
                if n == k:
                    return
        except ZeroDivisionError:
            continue


def odd_on(a, rule, inst, p, size, least=None):
    if isinstance(size, bool) or not (isinstance(size, int) or isinstance(size, Num) and size.kind in ("int", "npint")):
        a.bad(rule, inst, f"kernel size flows to {size!r}, not an integer", a.path_where(p))
        return
    if isinstance(size, int):
        a.expect(size % 2 == 1 and size >= 1, rule, inst, f"kernel size is {size}", a.path_where(p))
        return
    e, n = size.e, 0
    for env in samples(p, 4):
        v = X.evalE(e, env, {})
        v = X._r(v)
        n += 1
        if abs(v - X.mpmath.nint(v)) > X.mpmath.mpf(10)**-15 or int(X.mpmath.nint(v)) % 2 == 0:
            a.bad(rule, inst, f"kernel size {show(e)} takes value {X.mpmath.nstr(v, 8)} on the trace {p.conds}"[:700], a.path_where(p))
            return
    if n:
        a.ok(rule, inst)


def own_point_ok(a, mode, pol, nr, nphi):
    """Whether the quadrature of the mode itself is as defined (then a wrong kernel means wrong geometry)."""
    r, th, al = sym("r_own", 0, 30), sym("th_own", 0, 6), sym("al_own", F(1, 10), 1)
    if mode == "serial-pool":
        def drv(it):
            z = K.psf(a, [pol])
            K.setn(a, z, 3, nr, nphi)
            return a.m(z, "get_psf_point_r_parallel", r=K.fl(r), theta=K.fl(th))
        want = K.point([pol], K.alphas(1), r, th, nr, nphi)
    else:
        mod, name = FUNCS[mode]
        f = a.sub(mod).vars.get(name)
        if f is None:
            return True
        pk = {"orders": pol} if mode == "compiled" else {"zernike_pol": None}

        def drv(it):
            kw = {"orders": pol} if mode == "compiled" else {"zernike_pol": a.zp(*pol)}
            return a.call(f, r=K.fl(r), theta=K.fl(th), alpha=K.fl(al), n_int_r_points=nr, n_int_phi_points=nphi, **kw)
        want = K.point([pol], [al], r, th, nr, nphi)
    for p in a.run(drv, 32):
        if p.error or p.exc is not None:
            return True
        if a.equal(p, a.els(p.result)[0], want) is False:
            return False
    return True


def unit(a, item):
    kind, arg = item
    if kind == "estimate":
        for pols in arg:
            pols, fixed = pols if isinstance(pols[1:][0] if len(pols) > 1 else None, dict) else (pols, None)
            inst = f"estimated size for {pols}{fixed or ''}"

            def drv(it):
                zs = [a.zp(m, n) for m, n in pols]
                z = a.new("ZernPSF", zernpol=tuple(zs) if len(zs) > 1 else zs[0])
                if fixed:
                    co = tuple(K.fl(X.const(c)) for c in fixed["coeffs"])
                    kw = {"NA": K.fl(X.const(fixed["NA"])), "wavelength": K.fl(X.const(F(1, 2)))}
                else:
                    co, kw = K.fl(COW), {"NA": K.fl(NAW), "wavelength": K.fl(WLW)}
                a.m(z, "set_physical_props", expansion_coeff=co, pixel_physical_size=K.fl(X.const(fixed["px"]) if fixed else PXW), **kw)
                return a.at(z, "kernel_size")
            accepted = 0
            for p in a.one(drv, "estimated-odd", inst, 600):
                if p.exc is not None and p.exc.name == "ValueError":
                    continue        # rejected parameters (C17)
                if p.exc is not None:
                    a.bad("estimated-odd", inst, f"admissible parameters raise {p.exc!r}", a.path_where(p))
                else:
                    accepted += 1
                    odd_on(a, "estimated-odd", inst, p, p.result)
            if not accepted:
                a.undecided("estimated-odd", inst, "no accepting trace")
    elif kind == "setter":
        ks, nr, nphi = sym("ks", integer=True), sym("npr", integer=True), sym("npphi", integer=True)
        for before in (False, True):
            def drv(it):
                z = K.psf(a, [(1, 3)]) if before else a.new("ZernPSF", zernpol=a.zp(1, 3))
                a.m(z, "set_calculation_props", kernel_size=Num(ks, "int"), n_integration_points_r=Num(nr, "int"), n_integration_points_phi=Num(nphi, "int"))
                return a.at(z, "kernel_size"), a.at(z, "n_int_r_points"), a.at(z, "n_int_phi_points")
            ps = a.one(drv, "setter", "set_calculation_props", 600)
            grid = [(k, r, f) for k in (-5, 0, 1, 2, 3, 4, 5, 18, 19, 24, 25, 26, 27, 101) for r in (-1, 0, 19, 20, 21, 269, 270, 320, 500, 501, 1000)
                    for f in (-1, 0, 35, 36, 37, 260, 261, 300, 400, 401, 1001)]
            for k, r, f in grid:
                inst = f"set_calculation_props({k}, {r}, {f}){' after physical properties' if before else ''}"
                env = env_of({"ks": k, "npr": r, "npphi": f})
                hit = [p for p in ps if cond_holds(p, env)]
                if not hit:
                    a.undecided("setter", inst, "no trace covers the point")
                ok = k >= 3 and r >= 20 and f >= 36
                for p in hit:
                    if not ok:
                        a.expect(p.exc is not None and p.exc.name == "ValueError", "setter-guard", inst, f"gives {p.exc or p.result!r} instead of ValueError", a.path_where(p))
                    elif p.exc is not None:
                        a.bad("setter-guard", inst, f"raises {p.exc!r}", a.path_where(p))
                    else:
                        got = [int(X._r(X.evalE(a.e(v), env, {}))) for v in p.result]
                        a.expect(got == [k + 1 - k % 2, r, f], "setter-values", inst, f"stores {got}", a.path_where(p))
    elif kind == "geometry":
        pols, size, nr, nphi, mode = arg
        inst = f"{mode} kernel of {pols}, requested size {size}"
        rule = "geometry-" + mode
        s = size + 1 - size % 2
        want = K.spec_kernel(pols, s, nr, nphi, pols == ((0, 0),) and mode == "ordinary")
        for p in a.one(lambda it: K.kernel(a, pols, size, nr, nphi, mode, normalized=False), rule, inst):
            n0 = len(a.viol)
            K.compare(a, rule, inst, p, p.result, want, s)
            if len(a.viol) > n0 and isinstance(p.result, Arr) and tuple(p.result.shape) == (s, s) and len(pols) == 1 and pols != ((0, 0),) \
                    and not own_point_ok(a, mode, pols[0], nr, nphi):
                del a.viol[n0:]     # the quadrature itself deviates (C22); nothing can be said about the geometry from the value
    elif kind == "small":
        # requested 1 in the ordinary mode -> estimated
        def drv(it):
            z = K.psf(a, [(1, 1)], px=sym("px_big", F(29, 100), F(291, 1000)))
            K.setn(a, z, 1, 2, 2)
            k = a.m(z, "calculate_psf_kernel", accelerated=False, normalized=False)
            return tuple(k.shape)
        for p in a.one(drv, "small-size", "ordinary kernel with size 1"):
            a.expect(p.exc is None and p.result[0] == p.result[1] and p.result[0] % 2 == 1, "small-size", "ordinary kernel with size 1",
                     f"gives {p.exc or p.result!r}", a.path_where(p))


def check(tier):
    ck = Check("C18", tier, "value-flow of the estimated kernel size over symbolic NA, wavelength, pixel size and amplitudes (parity on every trace); guard table "
               "of set_calculation_props over symbolic integers; value-flow of kernels of sizes 3..7 in every mode: shape and, per pixel, the "
               "distance k*NA*pixel*sqrt(di^2+dj^2) and direction arctan2(di, dj)+pi entering the value", 2600,
               assumptions=["float arithmetic is modelled by exact real arithmetic"])
    o = spec.orders(8) + [(0, 10), (5, 11), (-12, 12), (3, 17), (0, 20), (19, 21), (0, 54), (54, 54)]
    if tier == "thorough":
        o = spec.orders(20) + [(0, 54), (54, 54), (53, 53), (-1, 41)]
    items = [("estimate", [(x,) for x in o[i::8]]) for i in range(8)]
    sets = (((0, 2), (1, 3)), ((0, 0), (-3, 3)), ((2, 2), (4, 4), (0, 6)), ((-1, 1), (0, 4), (3, 5), (6, 6), (-7, 9)))
    mags = (F(1, 50), F(-3, 20), F(1, 5), F(-7, 20), F(1, 2))
    for na in (F(1, 20), F(3, 10), F(19, 20), F(1), F(7, 5)):
        items.append(("estimate", [(ps, {"NA": na, "px": F(1, 8) / na / d, "coeffs": [mags[(i + j) % k] for j in range(len(ps))]})
                                   for ps in sets for k in (1, 2, 3, 4, 5) for i in range(2) for d in (1, F(11, 10), F(13, 10), F(17, 10), F(9, 4), 3, F(31, 7), 10)]))
    items += [("setter", None), ("small", None)]
    for mode in ("ordinary", "compiled", "serial-pool"):
        for size in (3, 4, 5) if mode != "serial-pool" else (3, 5):
            items.append(("geometry", (((1, 3),), size, 2, 4, mode)))
            if mode != "serial-pool":
                items.append(("geometry", (((1, 3), (-2, 2)), size, 2, 4, mode)))
        items.append(("geometry", (((-2, 2),), 7, 2, 4, mode)))
        items.append(("geometry", (((1, 3),), 15, 2, 4, mode)))
        if mode != "serial-pool":
            items.append(("geometry", (((1, 3),), 31, 2, 2, mode)))
            items.append(("geometry", (((0, 2), (-1, 1)), 13, 2, 4, mode)))
    items += [("geometry", (((0, 0),), size, 20, 36, "ordinary")) for size in (3, 4, 5, 6, 7)]
    ck.units(unit, items)
    return ck.finish()
