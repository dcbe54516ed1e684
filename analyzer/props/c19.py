"""C19: the kernel depends on the last set parameters only; flags affect printed text and warnings, normalisation the scale."""
import itertools
from fractions import Fraction as F

from . import kernel as K
from .c08 import Both
from .. import expr as X
from ..ctx import ALWAYS_MISSING, Check, show
from ..expr import sym
from ..values import Arr

NR, NPHI = 2, 4
CASES = {"single": ((1, 3),), "several": ((0, 2), (-1, 1)), "piston": ((0, 0),)}
NA2, WL2, PX2 = sym("NA2", F(60, 100), F(602, 1000)), sym("wl2", F(602, 1000), F(603, 1000)), sym("px2", F(1200, 10000), F(12001, 100000))
CO2 = [sym(f"co2_{i}", F(lo, 1000), F(lo + 4, 1000)) for i, lo in enumerate((44, -22, 60))]


def syms_of(e, out):
    for m in e.t:
        for i, _ in m:
            at = X._ATOMS[i]
            stack = [at]
            while stack:
                q = stack.pop()
                if q.kind == "sym":
                    out.add(q.args[0])
                for x in q.args:
                    if isinstance(x, X.E):
                        syms_of(x, out)


def values(a, rule, inst, ps):
    """Array results of the traces (violation when something else results)."""
    r = []
    for p in ps:
        if p.exc is not None:
            a.bad(rule, inst, f"raises {p.exc!r}", a.path_where(p))
        elif not isinstance(p.result, Arr) or len(p.result.shape) != 2:
            a.bad(rule, inst, f"gives {p.result!r} instead of a kernel", a.path_where(p))
        else:
            r.append(p)
    return r


def agree(a, rule, inst, ps, qs, what):
    for p in values(a, rule, inst, ps):
        for q in values(a, rule, inst, qs):
            v, w = p.result, q.result
            bad = None
            if v.shape != w.shape:
                bad = f"kernel is {v.shape} and {w.shape} {what}"
            else:
                b = Both(p, q)
                for k, (x, y) in enumerate(zip(a.els(v), a.els(w))):
                    if a.equal(b, x, y) is False:
                        bad = f"pixel {divmod(k, v.shape[1])} flows to {show(x, 3)[:200]} and {show(y, 3)[:200]} {what}"
                        break
            a.expect(bad is None, rule, inst, bad, a.path_where(p))


def unit(a, item):
    kind, arg = item
    nonumba = "numba" in a.missing
    env = "without numba" if nonumba else "with numba"
    if kind == "flags":
        case, acc, size = arg
        pols = CASES[case]
        big = size > 3

        def go(**fl):
            return a.one(lambda it: kern(it, fl), "flags", f"{case}, accelerated={acc}, {fl}")

        def kern(it, fl):
            z = K.psf(a, pols)
            K.setn(a, z, size, NR, 2 if big else NPHI)
            r = a.m(z, "calculate_psf_kernel", accelerated=acc, **fl)
            k2 = a.at(z, "kernel")
            if k2 is not r and not (isinstance(k2, Arr) and isinstance(r, Arr) and a.els(k2) == a.els(r)):
                a.bad("stored", f"{case}, accelerated={acc}", "returned kernel isn't the stored one", None)
            else:
                a.ok("stored")
            return r
        if big:     # printing of the progress depends on the size
            inst = f"{case}, accelerated={acc} {env}, size {size}: verbose_info"
            agree(a, "flags-no-effect", inst, go(normalized=False, verbose_info=True), go(normalized=False), "without the flag")
            return
        base = {n: go(suppress_warnings=False, normalized=n, verbose_info=False) for n in (True, False)}
        for sup, norm, verb in itertools.product((False, True), repeat=3):
            inst = f"{case}, accelerated={acc} {env}: suppress_warnings={sup}, normalized={norm}, verbose_info={verb}"
            ps = base[norm] if (sup, verb) == (False, False) else go(suppress_warnings=sup, normalized=norm, verbose_info=verb)
            if (sup, verb) != (False, False):
                agree(a, "flags-no-effect", inst, ps, base[norm], "without the flags")
            for p in ps:
                if p.exc is not None:
                    continue
                w = p.warns()
                if sup:
                    a.expect(not w, "suppressed", inst, f"warns {w[:1]} in spite of suppression", a.path_where(p))
                elif nonumba and acc:
                    a.expect(w, "fallback-warning", inst, "doesn't warn about not possible acceleration", a.path_where(p))
        # defaults of the flags
        dflt = a.one(lambda it: kern(it, {}), "flags", "default flags")
        agree(a, "flags-default", f"{case}, accelerated={acc} {env}: default flags", dflt, base[True], "with explicit normalized=True")
        # normalisation
        for p in values(a, "normalisation", case, base[True]):
            for q in values(a, "normalisation", case, base[False]):
                inst = f"{case}, accelerated={acc} {env}: normalised / raw"
                v, w = a.els(p.result), a.els(q.result)
                mx = X.fn("max", *w) if len(w) > 1 else w[0]
                b = Both(p, q)
                bad = next((k for k, (x, y) in enumerate(zip(v, w)) if a.equal(b, X.mul(x, mx), y) is False), None)
                a.expect(bad is None and len(v) == len(w), "normalisation", inst, f"pixel {bad}: normalised value isn't raw value / maximum", a.path_where(p))
        # missing numba = ordinary calculation
        if nonumba:
            o = a.one(lambda it: K.kernel(a, pols, size, NR, NPHI, "ordinary", normalized=True, suppress_warnings=True), "fallback", case)
            agree(a, "fallback", f"{case}, accelerated={acc} {env}", base[True], o, "in the ordinary mode")
        # every parameter enters
        if case != "piston" or (acc is not False and not nonumba):
            want = {"NA", "wl", "px"} | {f"co{i}" for i in range(len(pols))}
            if pols == ((0, 0),):
                want -= {"co0"}
            for p in values(a, "depends", case, base[False]):
                s = set()
                for e in a.els(p.result):
                    syms_of(e, s)
                a.expect(want <= s, "depends", f"{case}, accelerated={acc} {env}", f"kernel doesn't depend on {sorted(want - s)}", a.path_where(p))
    elif kind == "last":
        case, mode = arg
        pols = CASES[case]
        inst = f"{case}, {mode} {env}"

        def calc(z):
            if mode == "serial-pool":
                return a.m(z, "get_kernel_parallel", normalize_values=False)
            return a.m(z, "calculate_psf_kernel", accelerated={"ordinary": False, "compiled": True, "auto": None}[mode], normalized=False)

        def second(z):
            co = tuple(K.fl(c) for c in CO2[:len(pols)]) if len(pols) > 1 else K.fl(CO2[0])
            a.m(z, "set_physical_props", NA=K.fl(NA2), wavelength=K.fl(WL2), expansion_coeff=co, pixel_physical_size=K.fl(PX2))
            K.setn(a, z, 3, NR, NPHI)

        def fresh(it):
            z = K.psf(a, pols, coeffs=CO2, na=NA2, wl=WL2, px=PX2)
            K.setn(a, z, 3, NR, NPHI)
            return calc(z)

        def again(it, between):
            z = K.psf(a, pols)
            if between == "calculation":
                K.setn(a, z, 3, 3, 2)
                calc(z)
            elif between == "normalised calculation":
                K.setn(a, z, 3, 2, 2)
                a.m(z, "calculate_psf_kernel", accelerated=False, suppress_warnings=True, verbose_info=True)
            second(z)
            if between == "same calculation":
                calc(z)
            return calc(z)
        ref = a.one(fresh, "last-parameters", inst)
        for b in ("nothing", "calculation", "normalised calculation", "same calculation"):
            agree(a, "last-parameters", f"{inst}, {b} before", a.one(lambda it: again(it, b), "last-parameters", inst), ref, "of a new object")
    elif kind == "integration":
        case, mode = arg
        pols = CASES[case]

        def drv(it, pre):
            z = K.psf(a, pols)
            if pre:
                a.m(z, "set_calculation_props", kernel_size=5, n_integration_points_r=25, n_integration_points_phi=40)
            a.m(z, "set_calculation_props", kernel_size=3, n_integration_points_r=20, n_integration_points_phi=36)
            acc = {"ordinary": False, "compiled": True}[mode]
            return a.m(z, "calculate_psf_kernel", accelerated=acc, normalized=False)
        inst = f"{case}, {mode}: last set_calculation_props"
        agree(a, "integration-parameters", inst, a.one(lambda it: drv(it, True), "integration", inst), a.one(lambda it: drv(it, False), "integration", inst), "set once")
    elif kind == "numbers":     # each number of points enters
        case, mode = arg
        pols = CASES[case]

        def of(n):
            return values(a, "numbers", f"{case}, {mode}", a.one(lambda it: K.kernel(a, pols, *n, mode, **({} if mode == "serial-pool" else {"normalized": False})), "numbers", f"{case}, {mode}, {n}"))
        base = of((3, 2, 4))
        for n, what in (((3, 3, 4), "n_int_r_points"), ((3, 2, 6), "n_int_phi_points")):
            seen = 0
            for p in of(n):
                for q in base:
                    b = Both(p, q)
                    eq = [a.equal(b, x, y) for x, y in zip(a.els(p.result), a.els(q.result))]
                    if None in eq and False not in eq:
                        continue        # traces of different guards
                    seen += 1
                    a.expect(False in eq, "numbers", f"{case}, {mode} {env}: {what}", "kernel doesn't depend on the set number of integration points", a.path_where(p))
            if not seen:
                a.undecided("numbers", f"{case}, {mode}: {what}", "no comparable traces")
    elif kind == "unset":
        acc, pol = arg
        r = {}
        for sup in (False, True):
            def drv(it):
                z = a.new("ZernPSF", zernpol=a.zp(*pol))
                a.it.setattr(z, "n_int_r_points", 2)
                a.it.setattr(z, "n_int_phi_points", 2)
                return a.m(z, "calculate_psf_kernel", accelerated=acc, normalized=False, suppress_warnings=sup)
            inst = f"parameters not set, accelerated={acc} {env}, suppress_warnings={sup}"
            r[sup] = a.one(drv, "unset", inst)
            for p in r[sup]:
                if p.exc is None:
                    a.expect(bool(p.warns()) != sup, "unset-warning", inst, f"warnings: {p.warns()[:1]}", a.path_where(p))
        agree(a, "unset", f"parameters not set, accelerated={acc} {env}", r[True], r[False], "without suppression")


def check(tier):
    ck = Check("C19", tier, "value-flow of calculate_psf_kernel under every combination of suppress_warnings, normalized, verbose_info, accelerated (None / True / "
               "False), numba present / missing, single / several polynomials / piston with symbolic parameters; pixel normal forms and warning "
               "events of the traces are compared between the combinations; dependence on every parameter; last set parameters win over earlier ones", 400,
               assumptions=["float arithmetic is modelled by exact real arithmetic"])
    for miss in (ALWAYS_MISSING, ALWAYS_MISSING + ("numba",)):
        items = [("flags", (c, acc, 3)) for c in CASES for acc in (None, True, False)]
        items += [("flags", ("single", acc, s)) for acc in (True, False) for s in ((11, 19) if tier == "thorough" else (11,)) if "numba" not in miss]
        items += [("flags", ("several", acc, s)) for acc in (True, False) for s in (11, 27) if "numba" not in miss]
        items += [("unset", (acc, (1, 1))) for acc in (True, False) if acc or "numba" not in miss]
        if "numba" not in miss:
            items += [("last", (c, m)) for c in ("single", "several") for m in ("ordinary", "compiled", "auto")]
            items += [("last", ("single", "serial-pool")), ("last", ("piston", "ordinary")), ("last", ("piston", "compiled"))]
            items += [("integration", (c, m)) for c, m in (("piston", "ordinary"), ("single", "ordinary"), ("single", "compiled"))]
        else:
            items += [("last", ("single", "auto"))]
        items += [("numbers", (case, mode)) for case in ("single", "several") for mode in ("ordinary", "compiled")] + [("numbers", ("single", "serial-pool"))] if "numba" not in miss else []
        ck.units(unit, items, missing=miss)
    return ck.finish()
