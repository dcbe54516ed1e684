"""C22: every kernel value is the stated quadrature of the diffraction integral."""
from fractions import Fraction

from . import kernel as K
from .. import expr as X
from ..ctx import Check, show
from ..expr import const, sym
from ..values import Num

RR, TH, AL = sym("r_pt", 0, 30), sym("theta_pt", 0, 6), sym("alpha_pt", Fraction(1, 10), 1)
AM = [sym(f"am{i}", Fraction(1, 10), 1) for i in range(3)]
POLS = [(1, 1), (-1, 1), (0, 2), (-2, 2), (1, 3), (-3, 3), (0, 4), (2, 4), (-4, 6), (0, 6), (5, 5), (3, 9), (-10, 10)]
SETS = [((0, 2), (1, 3)), ((-2, 2), (0, 4), (3, 3)), ((0, 0), (-1, 3)), ((4, 4), (2, 2), (-3, 5), (0, 6))]
# numbers of radial points for which float rounding of an accumulated step changes the number of nodes, and some others
NR = [20, 33, 49, 50, 64, 98, 100, 103, 107, 128, 161, 187, 196, 197, 206, 214, 237, 249, 253, 320, 322, 347, 374, 389, 392, 394]


def judge_point(a, rule, inst, ps, want):
    for p in ps:
        if p.exc is not None:
            a.bad(rule, inst, f"raises {p.exc!r}", a.path_where(p))
            continue
        g = a.els(p.result)[0]
        q = a.equal(p, g, want)
        if q is None:
            a.undecided(rule, inst, "no sample on the trace")
        else:
            a.expect(q, rule, inst, f"flows to {show(g, 3)[:300]} instead of {show(want, 3)[:300]}", a.path_where(p))


def binding_failed(p):
    return p.exc is not None and p.exc.name in ("TypeError", "AttributeError")


def unit(a, item):
    kind, arg = item
    if kind == "kernel":
        pols, size, nr, nphi, mode = arg
        inst = f"{mode} kernel of {pols}, size {size}, {nr} x {nphi} points"
        s = size + 1 - size % 2
        want = K.spec_kernel(pols, s, nr, nphi, pols == ((0, 0),) and mode == "ordinary")
        for p in a.one(lambda it: K.kernel(a, pols, size, nr, nphi, mode, normalized=False), "kernel-" + mode, inst):
            K.compare(a, "kernel-" + mode, inst, p, p.result, want, s)
    elif kind == "setter":
        pols, mode, (size, nr, nphi) = arg
        inst = f"{mode} kernel of {pols} after set_calculation_props{(size, nr, nphi)}"

        def drv(it):
            z = K.psf(a, pols)
            a.m(z, "set_calculation_props", kernel_size=size, n_integration_points_r=nr, n_integration_points_phi=nphi)
            if mode == "serial-pool":
                return a.m(z, "get_kernel_parallel", normalize_values=False)
            return a.m(z, "calculate_psf_kernel", accelerated=mode == "compiled", normalized=False)
        want = K.spec_kernel(pols, size, nr, nphi)
        for p in a.one(drv, "kernel-large-" + mode, inst):
            K.compare(a, "kernel-large-" + mode, inst, p, p.result, want, size)
    elif kind == "nodes":
        nr, mode = arg
        pols, size = (((0, 0),), 1) if mode == "compiled" else (((2, 2),), 3)
        inst = f"{mode} kernel of {pols} with {nr} radial points"
        want = K.spec_kernel(pols, size, nr, 2)
        for p in a.one(lambda it: K.kernel(a, pols, size, nr, 2, mode, normalized=False), "radial-nodes-" + mode, inst):
            K.compare(a, "radial-nodes-" + mode, inst, p, p.result, want, size)
    elif kind == "point":
        which, pol, nr, nphi = arg
        if which == "method":
            def drv(it):
                z = K.psf(a, [pol])
                K.setn(a, z, 3, nr, nphi)
                return a.m(z, "get_psf_point_r_parallel", r=K.fl(RR), theta=K.fl(TH))
            want = K.point([pol], K.alphas(1), RR, TH, nr, nphi)
            judge_point(a, "point-method", f"get_psf_point_r_parallel of {pol}, {nr} x {nphi} points", a.one(drv, "point-method", str(arg)), want)
            return
        mod, name = which
        f = a.sub(mod).vars.get(name)
        if f is None:
            return          # internal helper, it may have been reorganised
        several = name.endswith("pols") or name.endswith("pols_comp")
        cut = mod.endswith("numba")
        pls = [pol, (0, 2), (-3, 3)] if several else [pol]
        if several and pol == (0, 2):
            pls = [pol, (1, 5)]
        if several:
            kw = {"amplitudes": a.arr(AM[:len(pls)], (len(pls),))}
            kw["polynomials_orders" if cut else "polynomials"] = tuple((m, n) if cut else a.zp(m, n) for m, n in pls)
            als = AM[:len(pls)]
        else:
            kw = {"alpha": K.fl(AL)}
            kw["orders" if cut else "zernike_pol"] = pol if cut else a.zp(*pol)
            als = [AL]
        want = K.point(pls, als, RR, TH, nr, nphi)
        inst = f"{mod}.{name} of {pls}, {nr} x {nphi} points"
        ps = a.one(lambda it: a.call(f, r=K.fl(RR), theta=K.fl(TH), n_int_r_points=nr, n_int_phi_points=nphi, **kw), "point-function", inst)
        judge_point(a, "point-function", inst, [p for p in ps if not binding_failed(p)], want)
    elif kind == "airy":
        for size in (3, 5):
            for na in (K.NA,):
                inst = f"Airy pattern, size {size}"
                want = K.spec_kernel(((0, 0),), size, 20, 36, True)
                for p in a.one(lambda it: K.kernel(a, ((0, 0),), size, 20, 36, "ordinary", normalized=False), "airy", inst):
                    K.compare(a, "airy", inst, p, p.result, want, size)


def check(tier):
    ck = Check("C22", tier, "value-flow of unnormalised kernels (ordinary, compiled and per-point modes; single and several polynomials) from the "
               "public methods to closed integration sums with symbolic wavelength, NA, pixel size and amplitudes; compared with "
               "(1/pi^2)|h_phi/3 sum w_i h_p(sum_j f(p_j, phi_i) + (f(0)+f(1))/2)|^2 built independently; radial node sets for numbers of points "
               "incl. those sensitive to rounding of an accumulated step; Airy pattern against 4(J1(r)/r)^2", 150,
               assumptions=["float arithmetic is modelled by exact real arithmetic except lengths of float np.arange, which follow IEEE doubles",
                            "numba compiled functions are modelled by their Python semantics"])
    items = []
    grid = [(2, 2), (2, 4), (3, 6), (4, 8), (5, 12)]
    for i, pol in enumerate(POLS):
        for mode in ("ordinary", "compiled", "serial-pool"):
            sel = grid if tier == "thorough" else [grid[(i + j) % 5] for j in range(2)]
            for nr, nphi in sel:
                items.append(("kernel", ((pol,), 3, nr, nphi, mode)))
    for pol, nr, nphi in (((1, 3), 2, 10), ((-2, 2), 3, 12), ((0, 4), 4, 16)) + (((-3, 5), 5, 36), ((4, 4), 3, 22)) * (tier == "thorough"):
        items.append(("kernel", ((pol,), 3, nr, nphi, "pool")))
    items.append(("kernel", (((0, 0),), 3, 3, 6, "compiled")))
    for i, ps in enumerate(SETS):
        for mode in ("ordinary", "compiled"):
            for nr, nphi in (grid[1:4] if tier == "thorough" else [grid[1 + i % 2]]):
                items.append(("kernel", (ps, 3, nr, nphi, mode)))
    items += [("setter", (((1, 3),), m, (3, 20, 36))) for m in ("ordinary", "compiled", "serial-pool")]
    items += [("setter", (((1, 3), (0, 2)), m, (3, 21, 38))) for m in ("ordinary", "compiled")]
    nrs = NR if tier != "thorough" else sorted(set(NR) | set(range(20, 400, 3)))
    items += [("nodes", (nr, m)) for nr in nrs for m in ("compiled",)]
    items += [("nodes", (nr, m)) for nr in nrs[::3] + [49, 107] for m in ("ordinary", "serial-pool")]
    fns = ["method", ("calculations.calc_psfs", "get_psf_point_r"), ("calculations.calc_psfs", "get_psf_point_r_parallel"),
           ("calculations.calc_psfs", "get_psf_point_r_pols"), ("calculations.calc_psfs_numba", "get_psf_point_r_comp"),
           ("calculations.calc_psfs_numba", "get_psf_point_r_pols_comp")]
    items += [("point", (w, pol, nr, nphi)) for w in fns for pol, nr, nphi in (((2, 4), 3, 4), ((-1, 1), 4, 10), ((0, 2), 2, 2), ((3, 3), 20, 36), ((-1, 5), 7, 40))]
    items += [("airy", None)]
    ck.units(unit, items)
    return ck.finish()
