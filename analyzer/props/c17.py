"""C17: validation of physical parameters and values derived from them."""
from fractions import Fraction as F

from ..ctx import Check, env_of, cond_holds, show
from ..expr import sym
from ..values import Arr, Num
from . import kernel as K
from .. import expr as X

fl = K.fl
c = lambda v: Num(X.const(F(v)), "float")
TINY = F(1, 10**9)
SINGLE, SEVERAL = ((1, 3),), ((0, 2), (-1, 1))
ATTRS = ("k", "NA", "wavelength", "pixel_size", "pixel_size_nyquist", "alpha", "expansion_coeff", "kernel_size", "amplitudes", "coefficients")


def make(a, pols):
    zs = [a.zp(*x) for x in pols]
    return a.new("ZernPSF", zernpol=zs[0] if len(zs) == 1 else tuple(zs))


def setp(a, z, na, wl, co, px):
    a.m(z, "set_physical_props", NA=na, wavelength=wl, expansion_coeff=co, pixel_physical_size=px)


def state(a, z):
    r = []
    for k in ATTRS:
        v = a.at(z, k)
        r.append((k, tuple(a.els(v)) if isinstance(v, (Arr, Num, int)) and not isinstance(v, bool) else v))
    return r


def derived(a, rule, inst, p, st, na, wl, px, cos, several):
    w = a.path_where(p)
    st = dict(st)
    ea = lambda v: a.e(v)
    want = {"k": X.div(X.scale(X.PI, 2), ea(wl)), "NA": ea(na), "wavelength": ea(wl), "pixel_size": ea(px),
            "pixel_size_nyquist": X.div(X.scale(ea(wl), F(1, 4)), ea(na))}
    if several:
        lists = {"coefficients": [ea(x) for x in cos], "amplitudes": [X.div(ea(x), ea(wl)) for x in cos]}
    else:
        want.update({"expansion_coeff": ea(cos[0]), "alpha": X.div(ea(cos[0]), ea(wl))})
        lists = {}
    for k, e in want.items():
        v = st[k]
        ok = isinstance(v, tuple) and len(v) == 1 and a.equal(p, v[0], e) is not False
        a.expect(ok, rule, f"{inst}: {k}", f"is {show(v[0]) if isinstance(v, tuple) and v else v} instead of {show(e)}", w)
    for k, es in lists.items():
        v = st[k]
        ok = isinstance(v, tuple) and len(v) == len(es) and all(a.equal(p, x, y) is not False for x, y in zip(v, es))
        a.expect(ok, rule, f"{inst}: {k}", "isn't equal to coefficients" + (" / wavelength" if k == "amplitudes" else ""), w)


def unchanged(a, inst, p, s0, s1):
    for (k, x), (_, y) in zip(s0, s1):
        if isinstance(x, tuple) and isinstance(y, tuple):
            ok = len(x) == len(y) and all(a.equal(p, u, v) is not False for u, v in zip(x, y))
        else:
            ok = x is y or (type(x) is type(y) and x == y)
        a.expect(ok, "rejected-unchanged", f"{inst}: {k}", "is changed by a rejected call", a.path_where(p))


def rejecting(a, inst, pols, vals, prior):
    """The call is rejected with ValueError and leaves the accepted values."""
    keep = []

    def drv(it):
        z = make(a, pols)
        if prior:
            k = len(pols)
            setp(a, z, c(F(1, 2)), c(F(5, 8)), a.lst([c(F(1, 10))] * k) if k > 1 else c(F(1, 10)), c(F(1, 8)))
        s0 = state(a, z)
        from ..values import PyRaise
        try:
            setp(a, z, *vals())
        except PyRaise as e:
            return e.exc, s0, state(a, z)
        return None, s0, state(a, z)
    for p in a.one(drv, "reject", inst, 300):
        if p.exc is not None:
            a.bad("reject", inst, f"preparation raises {p.exc!r}", a.path_where(p))
            continue
        exc, s0, s1 = p.result
        a.expect(exc is not None and exc.name == "ValueError", "reject", inst, f"gives {exc or 'acceptance'} instead of ValueError", a.path_where(p))
        if exc is not None:
            unchanged(a, inst, p, s0, s1)
    return keep


def co_of(a, pols, v):
    return v if len(pols) == 1 else a.lst([v] * len(pols), "input")


def unit(a, item):
    kind, arg = item
    if kind == "reject":
        pols, prior = arg
        S = lambda n, lo=None, hi=None: fl(sym(n, lo, hi))
        g = {"na": c(F(1, 2)), "wl": c(F(1, 2)), "co": c(F(1, 8)), "px": c(F(1, 8))}
        regions = [("na", None, F(0)), ("na", F(17, 10) + TINY, None), ("na", F(17, 10) + TINY, F(9, 5)), ("wl", None, F(0)), ("px", None, F(0)),
                   ("px", F(1, 4) + TINY, None), ("px", F(1, 4) + TINY, F(3, 10))]
        for key, lo, hi in regions:
            v = dict(g)
            v[key] = S(f"{key}_{lo}_{hi}", lo, hi)
            inst = f"set_physical_props of {pols}{' after accepted values' if prior else ''} with {key} in [{lo and float(lo)}, {hi and float(hi)}]"
            rejecting(a, inst, pols, lambda: (v["na"], v["wl"], co_of(a, pols, v["co"]), v["px"]), prior)
        # Nyquist limit depends on both NA and wavelength
        for na, wl in ((F(1, 4), F(1, 2)), (F(1), F(1, 2)), (F(5, 4), F(3, 4)), (F(17, 10), F(1, 2)), (F(1, 10), F(2)), (F(95, 100), F(532, 1000))):
            nyq = wl / na / 4
            inst = f"set_physical_props of {pols}{' after accepted values' if prior else ''}: NA={float(na)}, wavelength={float(wl)}, pixel size above the limit {float(nyq):.6g}"
            rejecting(a, inst, pols, lambda: (c(na), c(wl), co_of(a, pols, c(F(1, 10))), S(f"px_{na}_{wl}", nyq + TINY)), prior)
        k = len(pols)
        wrong = [("empty list", lambda: a.lst([])), ("empty tuple", lambda: ()), (f"{k + 1} coefficients", lambda: a.lst([c(F(1, 10))] * (k + 1))),
                 (f"tuple of {k + 2}", lambda: (c(F(1, 10)),) * (k + 2)), (f"array of {k + 1}", lambda: a.arr([X.const(F(1, 10))] * (k + 1)))]
        if k > 1:
            wrong += [("scalar", lambda: c(F(1, 10))), ("int", lambda: 1), ("1-element list", lambda: a.lst([c(F(1, 10))])), ("1-element array", lambda: a.arr([X.const(F(1, 10))])),
                      (f"{k - 1} coefficients", lambda: a.lst([c(F(1, 10))] * (k - 1)))]
        for nm, f in wrong:
            inst = f"set_physical_props of {pols}{' after accepted values' if prior else ''} with coefficients: {nm}"
            rejecting(a, inst, pols, lambda: (g["na"], g["wl"], f(), g["px"]), prior)
        for nm, v in (("NA 0 (int)", (0, g["wl"], g["co"], g["px"])), ("NA 2 (int)", (2, g["wl"], g["co"], g["px"])), ("NA -1 (int)", (-1, g["wl"], g["co"], g["px"])),
                      ("wavelength 0 (int)", (g["na"], 0, g["co"], g["px"])), ("wavelength -2 (int)", (g["na"], -2, g["co"], g["px"])),
                      ("pixel 0 (int)", (g["na"], g["wl"], g["co"], 0)), ("pixel 1 (int)", (g["na"], g["wl"], g["co"], 1))):
            inst = f"set_physical_props of {pols}{' after accepted values' if prior else ''}: {nm}"
            rejecting(a, inst, pols, lambda: (v[0], v[1], co_of(a, pols, v[2]), v[3]), prior)
    elif kind == "accept":      # border values of the admissible set
        pols = arg
        for na in (TINY, F(1, 10), F(1, 2), F(1), F(17, 10) - TINY, F(1.7)):
            for wl in (F(1, 8), F(1, 2), F(4)):
                for part in (F(1, 50), F(1, 2), F(1) - TINY, F(1)):
                    # border value in IEEE arithmetic: the limit computed as the code documents it
                    px = F(0.25 * float(wl) / float(na)) * part if part == 1 else F(wl / na / 4) * part
                    if part == 1:
                        px = min(px, wl / na / 4)
                    inst = f"set_physical_props of {pols}: NA={float(na):.10g}, wavelength={float(wl)}, pixel={float(px):.10g} ({float(part):.3g} of the limit)"
                    co = F(1, 16) if len(pols) == 1 else None
                    cs = [c(F(1, 16) * wl * (-1)**i / (i + 1)) for i in range(len(pols))]

                    def drv(it):
                        z = make(a, pols)
                        setp(a, z, c(na), c(wl), cs[0] if len(pols) == 1 else a.lst(cs, "input"), c(px))
                        return state(a, z)
                    for p in a.one(drv, "accept", inst, 64):
                        if p.exc is not None:
                            a.bad("accept", inst, f"admissible parameters raise {p.exc!r}", a.path_where(p))
                            continue
                        derived(a, "accept-derived", inst, p, p.result, c(na), c(wl), c(px), cs, len(pols) > 1)
    elif kind == "straddle":    # guard tables with the border inside of a symbolic interval
        pols, key = arg
        lo, hi, base = {"na": (F(169, 100), F(171, 100), None), "px": (F(24, 100), F(26, 100), None), "wl": (F(49, 100), F(51, 100), None)}[key]
        s = sym("st_" + key, lo, hi)
        v = {"na": c(F(1, 2)), "wl": c(F(1, 2)), "px": c(F(1, 4)) if key == "wl" else c(F(1, 16))}
        v[key] = fl(s)
        cs = [c(F(1, 20) / (i + 1)) for i in range(len(pols))]

        def drv(it):
            z = make(a, pols)
            setp(a, z, v["na"], v["wl"], cs[0] if len(pols) == 1 else tuple(cs), v["px"])
            return state(a, z)
        inst0 = f"set_physical_props of {pols} with symbolic {key}"
        ps = a.one(drv, "straddle", inst0, 400)
        pts = [lo, lo + TINY, (lo + hi) / 2 - TINY, (lo + hi) / 2 + TINY, hi - TINY, hi]
        for x in pts:
            ok = {"na": x <= F(17, 10), "px": x <= F(1, 4), "wl": x >= F(1, 2)}[key]
            inst = f"{inst0} = {float(x):.12g}"
            env = env_of({s_name(s): x})
            hit = [p for p in ps if cond_holds(p, env)]
            if not hit:
                a.undecided("straddle", inst, "no trace covers the point")
            for p in hit:
                if ok:
                    a.expect(p.exc is None, "straddle", inst, f"admissible value raises {p.exc!r}", a.path_where(p))
                else:
                    a.expect(p.exc is not None and p.exc.name == "ValueError", "straddle", inst, f"gives {p.exc or 'acceptance'} instead of ValueError", a.path_where(p))
        for p in ps:
            if p.exc is None:
                derived(a, "derived", inst0, p, p.result, v["na"], v["wl"], v["px"], cs, len(pols) > 1)
    elif kind == "history":     # only the last accepted values count
        pols = arg
        k = len(pols)
        na1, wl1, px1 = sym("h_na", F(1, 2), F(502, 1000)), sym("h_wl", F(502, 1000), F(503, 1000)), sym("h_px", F(1, 10), F(1001, 10000))
        cs1 = [sym(f"h_c{i}", F(1 + i, 50), F(1 + i, 50) + TINY) for i in range(k)]
        A = (fl(K.NA), fl(K.WL), [fl(x) for x in K.CO[:k]], fl(K.PX))
        B = (fl(na1), fl(wl1), [fl(x) for x in cs1], fl(px1))
        coef = {"float": lambda x: x[0], "list": lambda x: a.lst(list(x), "input"), "tuple": lambda x: tuple(x), "array": lambda x: a.arr([a.e(y) for y in x], (len(x),), "float64", "input")}
        fs = list(coef) if k == 1 else ["list", "tuple", "array"]
        for seq in ((A,), (A, B), (B, A), (A, B, A)):
            for f in fs:
                inst = f"set_physical_props of {pols} x{len(seq)}, coefficients as {f}, last set {'A' if seq[-1] is A else 'B'}"

                def drv(it):
                    z = make(a, pols)
                    for s in seq:
                        setp(a, z, s[0], s[1], coef[f](s[2]), s[3])
                    return state(a, z)
                for p in a.one(drv, "history", inst, 300):
                    if p.exc is not None:
                        a.bad("history", inst, f"raises {p.exc!r}", a.path_where(p))
                        continue
                    s = seq[-1]
                    derived(a, "history", inst, p, p.result, s[0], s[1], s[3], s[2], k > 1)
        if k == 1:
            for v, nm in ((1, "int"), (0, "zero"), (-1, "negative int")):
                inst = f"set_physical_props of {pols}, coefficient {nm}"

                def drv(it):
                    z = make(a, pols)
                    setp(a, z, A[0], A[1], v, A[3])
                    return state(a, z)
                for p in a.one(drv, "history", inst, 300):
                    if p.exc is not None:
                        a.bad("history", inst, f"raises {p.exc!r}", a.path_where(p))
                        continue
                    derived(a, "history", inst, p, p.result, A[0], A[1], A[3], [v], False)
        # a large coefficient only causes a warning
        big = fl(sym("h_big", F(20), F(21)))
        for sgn in (1, -1):
            inst = f"set_physical_props of {pols}, coefficient {'above 20' if sgn > 0 else 'below -20'} um"
            b = [Num(X.scale(a.e(big), sgn), "float")] + A[2][1:]

            def drv(it):
                z = make(a, pols)
                setp(a, z, A[0], A[1], coef[fs[0]](b), A[3])
                return state(a, z)
            for p in a.one(drv, "large", inst, 300):
                if p.exc is not None:
                    a.bad("large", inst, f"raises {p.exc!r}", a.path_where(p))
                    continue
                derived(a, "large", inst, p, p.result, A[0], A[1], A[3], b, k > 1)


def s_name(e):
    (m,) = e.t
    ((i, _),) = m
    return X._ATOMS[i].args[0]


def check(tier):
    ck = Check("C17", tier, "set_physical_props is interpreted over symbolic parameters: every rejecting region (unbounded rests and borders), the admissible borders, "
               "intervals straddling each border, wrong numbers of coefficients; stored and derived values as normal forms on all accepting traces, "
               "unchanged state on all rejecting ones, sequences of accepted calls", 900,
               assumptions=["float arithmetic is modelled by exact real arithmetic", "NaN parameters aren't considered"])
    three = ((2, 2), (0, 4), (-3, 3))
    items = [("reject", (ps, pr)) for ps in (SINGLE, SEVERAL, three, ((0, 0),)) for pr in (False, True)]
    items += [("accept", ps) for ps in (SINGLE, SEVERAL)] + [("straddle", (ps, k)) for ps in (SINGLE, SEVERAL) for k in ("na", "wl", "px")]
    items += [("history", ps) for ps in (SINGLE, SEVERAL, ((0, 0),), three)]
    ck.units(unit, items)
    return ck.finish()
