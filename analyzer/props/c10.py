"""C10: decision tables of coordinate checks over symbolic radii / angles in every container position."""
from fractions import Fraction as F

from ..ctx import Check, env_of, cond_holds
from ..expr import sym
from ..values import Arr, Num
from .. import expr as X
from .. import spec

X0, X1, Y0, Y1 = sym("x0"), sym("x1"), sym("y0"), sym("y1")
TINY = F(1, 10**12)
RP = [F(-10**9), F(-1), -F(1, 10**3), -TINY, F(0), TINY, F(1, 2), 1 - TINY, F(1), 1 + TINY, F(1001, 1000), F(2), F(10**9)]
POLS = [(0, 0), (1, 1), (-1, 1), (0, 2), (-3, 5), (4, 12), (-2, 14)]


def pi2():
    return 2 * X.mpmath.pi


def ap():
    t = pi2()
    return [X.mpmath.mpf(-10)**9, -t, X.mpmath.mpf(-1), -X.mpmath.mpf(10)**-9, X.mpmath.mpf(0), X.mpmath.mpf(10)**-9, X.mpmath.mpf(3), t - X.mpmath.mpf(10)**-9, t,
            t + X.mpmath.mpf(10)**-9, t + 1, 2 * t, X.mpmath.mpf(10)**9]


def containers(a, s, fill, kind="float"):
    """Every container with the symbolic element(s) in every position."""
    n = lambda e: Num(e, kind)
    c = lambda k: n(X.const(fill[k % len(fill)]))
    yield "float", n(s[0]), 1
    yield "float64", Num(s[0], "float64"), 1
    for pos in range(3):
        row = [n(s[0]) if k == pos else c(k) for k in range(3)]
        yield f"list, position {pos}", a.lst(row, "input"), 1
        yield f"tuple, position {pos}", tuple(row), 1
        es = [s[0] if k == pos else X.const(fill[k % len(fill)]) for k in range(3)]
        yield f"ndarray, position {pos}", a.arr(es, (3,), "float64", "input"), 1
    for pos in range(4):
        es = [s[0] if k == pos else X.const(fill[k % len(fill)]) for k in range(4)]
        yield f"2-D ndarray, position {divmod(pos, 2)}", a.arr(es, (2, 2), "float64", "input"), 1
    yield "1-element ndarray", a.arr([s[0]], (1,), "float64", "input"), 1
    yield "ndarray with two free elements", a.arr([s[0], s[1]], (2,), "float64", "input"), 2
    for size, pos in ((25, 0), (25, 13), (25, 24), (120, 0), (120, 77), (120, 119)):
        es = [s[0] if k == pos else X.const(fill[k % len(fill)]) for k in range(size)]
        yield f"ndarray of {size}, position {pos}", a.arr(es, (size,), "float64", "input"), 1
        yield f"ndarray of 5 x {size // 5}, position {pos}", a.arr(es, (5, size // 5), "float64", "input"), 1
        yield f"list of {size}, position {pos}", a.lst([n(e) for e in es], "input"), 1
    yield "list with two free elements", a.lst([n(s[0]), n(s[1])], "input"), 2


def size_like(a, v, val):
    if isinstance(v, Arr):
        k = 1
        for d in v.shape:
            k *= d
        return a.arr([X.const(val)] * k, v.shape, "float64", "input")
    if hasattr(v, "items") and not isinstance(v, Num):
        return a.arr([X.const(val)] * len(v.items), (len(v.items),), "float64", "input")
    if isinstance(v, tuple):
        return a.arr([X.const(val)] * len(v), (len(v),), "float64", "input")
    return Num(X.const(val), "float")


def holds(a, rule, inst, ps, vals):
    env = env_of(vals)
    hit = [p for p in ps if cond_holds(p, env)]
    if not hit:
        a.undecided(rule, inst, "no trace covers the point")
    return hit, env


def fmt(vals):
    return ", ".join(f"{k}={X.mpmath.nstr(X.mpmath.mpf(v.numerator) / v.denominator if hasattr(v, 'numerator') else v, 14)}" for k, v in vals.items())


def unit(a, item):
    kind, arg = item
    if kind == "radii":
        mn, meth, exact = arg
        for nm, r, k in containers(a, (X0, X1), (F(1, 4), F(3, 4), F(1, 3))):
            args = (r, size_like(a, r, F(1))) if meth == "polynomial_value" else (r,)
            kw = {"use_exact_eq": True} if exact else {}
            base = f"ZernPol{mn}.{meth}({nm}{', exact' if exact else ''})"
            ps = a.one(lambda it: a.m(a.zp(*mn), meth, *args, **kw), "radii", base, 64)
            pts = [{"x0": v} for v in RP] if k == 1 else [{"x0": v, "x1": w} for v in RP[2:11] for w in (RP[3], RP[4], RP[6], RP[8], RP[9])]
            for vals in pts:
                inst = f"{base} with {fmt(vals)}"
                ok = all(0 <= v <= 1 for v in vals.values())
                for p in holds(a, "radii", inst, ps, vals)[0]:
                    if ok:
                        a.expect(p.exc is None and p.result is not None, "radii-accept", inst, f"admissible radii give {p.exc or p.result!r}", a.path_where(p))
                    else:
                        a.expect(p.exc is not None and p.exc.name == "ValueError", "radii-reject", inst,
                                 f"radius outside of [0, 1] gives {p.exc or 'a value'} instead of ValueError", a.path_where(p))
        # integer radii
        for v in (-3, -1, 0, 1, 2, 7):
            for nm, r in (("int", v), ("list of int", a.lst([0, v], "input")), ("tuple of int", (v, 1)), ("int64 array", a.arr([1, v, 0], (3,), "int64", "input"))):
                args = (r, size_like(a, r, F(1))) if meth == "polynomial_value" else (r,)
                inst = f"ZernPol{mn}.{meth}({nm} {v})"
                for p in a.one(lambda it: a.m(a.zp(*mn), meth, *args), "radii-int", inst, 16):
                    if 0 <= v <= 1:
                        a.expect(p.exc is None and p.result is not None, "radii-accept", inst, f"admissible radii give {p.exc or p.result!r}", a.path_where(p))
                    else:
                        a.expect(p.exc is not None and p.exc.name == "ValueError", "radii-reject", inst, f"gives {p.exc or 'a value'} instead of ValueError", a.path_where(p))
    elif kind == "angles":
        mn, meth = arg
        r0 = F(2, 3)
        for nm, t, k in containers(a, (Y0, Y1), (F(1, 4), F(6), F(3))):
            args = (size_like(a, t, r0), t) if meth == "polynomial_value" else (t,)
            base = f"ZernPol{mn}.{meth}({nm})"
            ps = a.one(lambda it: a.m(a.zp(*mn), meth, *args), "angles", base, 64)
            pts = [{"y0": v} for v in ap()] if k == 1 else [{"y0": v, "y1": w} for v in ap()[2:11] for w in ap()[3:10:2]]
            t2 = pi2()
            for vals in pts:
                inst = f"{base} with {fmt(vals)}"
                inside = all(0 <= v <= t2 for v in vals.values())
                hit, env = holds(a, "angles", inst, ps, vals)
                for p in hit:
                    if p.exc is not None:
                        a.bad("angles-accept", inst, f"raises {p.exc!r}", a.path_where(p))
                        continue
                    a.expect(bool(p.warns()) != inside, "angles-warn", inst, f"angles {'inside' if inside else 'outside'} of [0, 2*pi] "
                             f"{'cause' if p.warns() else 'do not cause'} a warning", a.path_where(p))
            # values do not depend on the branch taken
            for p in ps:
                if p.exc is not None:
                    continue
                els = a.els(p.result)
                f = {"polynomial_value": lambda th: spec.zernike(*mn, X.const(r0), th), "triangular": lambda th: spec.angular(mn[0], th),
                     "triangular_dtheta": lambda th: spec.angular_dt(mn[0], th)}[meth]
                ths = a.els(t) if isinstance(t, (Arr, Num)) else [a.e(x) for x in (t if isinstance(t, tuple) else t.items)]
                ok = len(els) == len(ths) and all(a.equal(p, g, f(th)) is not False for g, th in zip(els, ths))
                a.expect(ok, "angles-value", base, f"value isn't calculated from the provided angle when {p.conds}"[:400], a.path_where(p))
    elif kind == "shapes":
        c = lambda sh: a.arr([X.const(F(1, 2))] * eval("*".join(map(str, sh))), sh, "float64", "input")
        for mn in POLS[1:5]:
            for s1, s2 in (((2,), (3,)), ((3,), (2,)), ((2, 2), (4,)), ((2, 3), (3, 2)), ((1,), (2,)), ((2,), (1,)), ((2, 1), (1, 2)), ((3,), (3, 1)), ((2, 2), (2,)), ((1,), (1, 1))):
                for swap in ("arrays", "lists"):
                    r, t = c(s1), c(s2)
                    if swap == "lists":
                        if len(s1) > 1 or len(s2) > 1:
                            continue
                        r, t = a.lst([Num(e, "float") for e in a.els(r)]), tuple(Num(e, "float") for e in a.els(t))
                    for kw in ({}, {"use_exact_eq": True}):
                        inst = f"ZernPol{mn}.polynomial_value({swap} of shapes {s1}, {s2}{', exact' if kw else ''})"
                        for p in a.one(lambda it: a.m(a.zp(*mn), "polynomial_value", r, t, **kw), "shapes", inst):
                            a.expect(p.exc is not None and p.exc.name == "ValueError", "shapes-reject", inst, f"gives {p.exc or p.result!r} instead of ValueError", a.path_where(p))
            for s in ((1,), (2,), (2, 3), (1, 1, 2)):
                inst = f"ZernPol{mn}.polynomial_value(equal shapes {s})"
                for p in a.one(lambda it: a.m(a.zp(*mn), "polynomial_value", c(s), c(s)), "shapes", inst):
                    a.expect(p.exc is None and tuple(p.result.shape) == s, "shapes-accept", inst, f"gives {p.exc or p.result!r}", a.path_where(p))
    elif kind == "sums":      # the checks stay effective when polynomials are summed
        zs = lambda: a.lst([a.zp(1, 1), a.zp(0, 2), a.zp(-3, 3)])
        co = lambda: a.lst([Num(X.const(F(1, 2)), "float")] * 3)
        for surf in (False, True):
            for nm, r, k in containers(a, (X0, X1), (F(1, 4), F(3, 4), F(1, 3))):
                if k > 1 or nm.startswith(("2-D", "ndarray of 5 x")) or surf and not nm.startswith("ndarray"):
                    continue
                for tn in (2, 3, 4) if surf else (3,):
                    t = a.arr([X.const(k) for k in range(tn)], (tn,), "float64", "input") if surf else size_like(a, r, F(1))
                    base = f"ZernPol.sum_zernikes({nm}, surface={surf}, {tn} angles)"
                    ps = a.one(lambda it: it.call(it.getattr(a.g("ZernPol"), "sum_zernikes"), [co(), zs(), r, t], {"get_surface": surf}), "sums", base, 200)
                    for v in RP:
                        inst = f"{base} with x0={float(v):.13g}"
                        for p in holds(a, "sums", inst, ps, {"x0": v})[0]:
                            if 0 <= v <= 1:
                                a.expect(p.exc is None, "radii-accept", inst, f"raises {p.exc!r}", a.path_where(p))
                            else:
                                a.expect(p.exc is not None and p.exc.name == "ValueError", "radii-reject", inst, "radius outside of [0, 1] isn't rejected", a.path_where(p))


def check(tier):
    ck = Check("C10", tier, "decision tables (guards as conditions on symbolic coordinates, element in every position of every container type) of "
               "polynomial_value, radial, radial_dr, triangular, triangular_dtheta and sum_zernikes, compared with rejection iff outside of [0, 1] and warning "
               "iff outside of [0, 2*pi] on representatives of all regions; shape pairs", 6000,
               assumptions=["NaN isn't considered", "float rounding of comparisons with 2*pi isn't considered"])
    pols = POLS if tier != "thorough" else spec.orders(8) + POLS
    items = [("radii", (mn, me, ex)) for mn in pols for me in ("polynomial_value", "radial", "radial_dr") for ex in (False, True)
             if not (ex and mn[1] > (38 if me == "radial_dr" else 40))] + [("radii", ((1, 41), "radial", True))]
    items += [("angles", (mn, me)) for mn in pols for me in ("polynomial_value", "triangular", "triangular_dtheta")]
    items += [("shapes", None), ("sums", None)]
    ck.units(unit, items)
    return ck.finish()
