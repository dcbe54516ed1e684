"""Shared by C08, C18, C19, C22: the PSF kernel end-to-end and its independent definition."""
from fractions import Fraction

from .. import expr as X
from .. import spec
from ..ctx import show
from ..expr import add, const, div, mul, neg, powi, scale, sub, sym
from ..procs import World
from ..values import Arr, Func, Num, Unsupported

F = Fraction
HALF = F(1, 2)

# symbolic physical parameters; the (open) ranges keep the guards of set_physical_props and the estimated size decided
NA = sym("NA", F(42, 100), F(422, 1000))
WL = sym("wl", F(502, 1000), F(503, 1000))
PX = sym("px", F(1000, 10000), F(10001, 100000))
CO = [sym(f"co{i}", F(lo, 1000), F(lo + 4, 1000)) for i, lo in enumerate((-34, 12, 40, -24))]


# ---------------------------------------------------------------- definition
def geometry(size, i, j):
    """(distance in pixels, direction) of pixel (i, j) relative to the central one."""
    c = size // 2
    d2 = (i - c)**2 + (j - c)**2
    return X.power(const(d2), HALF), add(X.fn("arctan2", const(i - c), const(j - c)), X.PI)


def distance(size, i, j, na=NA, wl=WL, px=PX):
    d, _ = geometry(size, i, j)
    return mul(mul(mul(div(scale(X.PI, 2), wl), na), px), d)


def integrand(pols, alphas, r, theta, p, phi):
    ph = X.ZERO
    for (m, n), al in zip(pols, alphas):
        ph = add(ph, mul(al, spec.zernike(m, n, p, phi)))
    ph = sub(ph, mul(mul(r, p), X.trig("cos", sub(phi, theta))))
    return mul(X.fn("exp", mul(X.I, ph)), p)


def radial_sum(pols, alphas, r, theta, phi, nr):
    s = scale(add(integrand(pols, alphas, r, theta, X.ZERO, phi), integrand(pols, alphas, r, theta, X.ONE, phi)), HALF)
    for k in range(1, nr):
        s = add(s, integrand(pols, alphas, r, theta, const(F(k, nr)), phi))
    return scale(s, F(1, nr))


def point(pols, alphas, r, theta, nr, nphi):
    """Composite Simpson over the angle of trapezoidal sums over the radius, |.|^2 / pi^2."""
    h = scale(X.PI, F(2, nphi))
    s = X.ZERO
    for k in range(nphi + 1):
        w = 1 if k in (0, nphi) else 4 if k % 2 else 2
        s = add(s, scale(radial_sum(pols, alphas, r, theta, scale(h, k), nr), w))
    s = mul(scale(h, F(1, 3)), s)
    return div(powi(X.absE(s), 2), powi(X.PI, 2))


def airy(r):
    if r.is_zero():
        return None   # limit 1, compared numerically
    return scale(powi(div(X.fn("jv", const(1), r), r), 2), 4)


# ---------------------------------------------------------------- drivers
def fl(e):
    return Num(e, "float")


def psf(a, pols, coeffs=None, na=NA, wl=WL, px=PX, seq=None):
    """ZernPSF with set physical properties."""
    zs = [a.zp(m, n) for m, n in pols]
    seq = len(pols) > 1 if seq is None else seq
    z = a.new("ZernPSF", zernpol=tuple(zs) if seq else zs[0])
    co = coeffs or CO
    cv = tuple(fl(c) for c in co[:len(pols)]) if seq and len(pols) > 1 else fl(co[0])
    a.m(z, "set_physical_props", NA=fl(na), wavelength=fl(wl), expansion_coeff=cv, pixel_physical_size=fl(px))
    return z


def shrink(a, nr, nphi):
    """Explicit numbers of integration points are set, hence default ones of functions may not matter: they are replaced by small different ones
    (a function falling back to its default shows up in the value of the kernel instead of a sum of thousands of terms)."""
    for m in list(a.it.modules.values()):
        for f in list(getattr(m, "vars", {}).values()):
            g = f
            while not isinstance(g, Func) and isinstance(getattr(g, "func", None), Func):
                g = g.func
            if not isinstance(g, Func):
                continue
            ps = g.node.args.args if hasattr(g.node, "args") else []
            ds = g.defaults
            for name, k in (("n_int_r_points", nr), ("n_int_phi_points", nphi)):
                v = 5 if k != 5 else 7
                i = next((i for i, p in enumerate(ps[len(ps) - len(ds):]) if p.arg == name), None)
                if i is not None and isinstance(ds[i], int) and ds[i] != v:
                    g.defaults = ds = type(ds)([*ds[:i], v, *ds[i + 1:]])
                if g.kwdefaults and isinstance(g.kwdefaults.get(name), int):
                    g.kwdefaults[name] = v


def setn(a, z, size, nr, nphi):
    shrink(a, nr, nphi)
    a.it.setattr(z, "kernel_size", size)
    a.it.setattr(z, "n_int_r_points", nr)
    a.it.setattr(z, "n_int_phi_points", nphi)


def kernel(a, pols, size, nr, nphi, mode, seq=None, **flags):
    z = psf(a, pols, seq=seq)
    setn(a, z, size, nr, nphi)
    if mode == "pool":
        w = World(a.it, "lazy")
        try:
            a.m(z, "initialize_parallel_workers")
            r = a.m(z, "get_kernel_parallel", **{"normalize_values": flags.get("normalized", True)})
            if not w.procs:
                raise Unsupported("no worker processes are started by initialize_parallel_workers")
            a.m(z, "deinitialize_workers")
            return r
        finally:
            w.kill()
    if mode == "serial-pool":
        return a.m(z, "get_kernel_parallel", **{"normalize_values": flags.get("normalized", True)})
    return a.m(z, "calculate_psf_kernel", accelerated={"ordinary": False, "compiled": True, "auto": None}[mode], **flags)


def alphas(k, wl=WL, coeffs=None):
    return [div(c, wl) for c in (coeffs or CO)[:k]]


def spec_kernel(pols, size, nr, nphi, is_airy=False):
    al = alphas(len(pols))
    out = []
    for i in range(size):
        for j in range(size):
            r = distance(size, i, j)
            _, th = geometry(size, i, j)
            out.append(airy(r) if is_airy else point(pols, al, r, th, nr, nphi))
    return out


def compare(a, rule, inst, p, v, want, size, tol=None):
    """Kernel v of trace p against the list of definitions."""
    if p.exc is not None:
        a.bad(rule, inst, f"raises {p.exc!r}", a.path_where(p))
        return False
    if not isinstance(v, Arr) or tuple(v.shape) != (size, size):
        a.bad(rule, inst, f"kernel is {getattr(v, 'shape', v)!r} instead of {size}x{size}", a.path_where(p))
        return False
    for k, (g, w) in enumerate(zip(a.els(v), want)):
        if w is None:
            w, t = X.ONE, 1e-9
        else:
            t = tol
        q = a.equal(p, g, w, t)
        if q is None:
            a.undecided(rule, inst, f"pixel {divmod(k, size)}: no sample on the trace {p.conds}"[:300])
            return None
        if not q:
            a.bad(rule, inst, f"pixel {divmod(k, size)} flows to {show(g, 3)[:300]} instead of {show(w, 3)[:300]}", a.path_where(p))
            return False
    a.ok(rule, inst)
    return True
