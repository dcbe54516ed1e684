"""C14: weighted sums of polynomials and surfaces."""
from fractions import Fraction as F
import itertools

from ..ctx import Check, show
from ..expr import sym
from ..values import Arr, Num
from .. import expr as X
from .. import spec

C = [sym(f"c{i}", -1, 1) for i in range(5)]
R = [sym(f"r{i}", F(i, 5), F(i + 1, 5)) for i in range(5)]
T = [sym(f"th{i}", i, i + 1) for i in range(6)]
NONZERO = [sym(f"d{i}", F(1, 4), 1) if i % 2 else sym(f"d{i}", -2, -F(1, 4)) for i in range(78)]      # coefficients of long sums
LR = [sym(f"lr{i}", F(i, 48), F(i + 1, 48)) for i in range(48)]
LT = [sym(f"lt{i}", F(i, 8), F(i + 1, 8)) for i in range(48)]
POLS = [(1, 1), (0, 2), (-3, 3), (2, 4), (0, 0)]


def zsum(cs, pols, r, t):
    s = X.ZERO
    for c, p in zip(cs, pols):
        s = X.add(s, X.mul(c, spec.zernike(p[0], p[1], r, t)))
    return s


def coefs(a, cs, form):
    n = [Num(c, "float") if not (c.is_const() and form == "ints") else int(X.numeric(c).real) for c in cs]
    if form == "tuple":
        return tuple(n)
    if form == "array":
        return a.arr(cs, (len(cs),), "float64", "input")
    return a.lst(n, "input")


def pols_of(a, pols, form):
    zs = [a.zp(*p) for p in pols]
    return tuple(zs) if form == "tuple" else a.lst(zs, "input")


def compare(a, rule, inst, ps, shape, want):
    for p in ps:
        w = a.path_where(p)
        if p.exc is not None:
            a.bad(rule, inst, f"raises {p.exc!r}", w)
            continue
        v = p.result
        got = tuple(v.shape) if isinstance(v, Arr) else ()
        if got != shape or v is None:
            a.bad(rule, inst, f"result has shape {got} instead of {shape}", w)
            continue
        bad = None
        for k, (x, y) in enumerate(zip(a.els(v), want)):
            if a.equal(p, x, y) is False:
                bad = f"element {k} flows to {show(x, 6)[:300]} instead of {show(y, 6)[:300]}" + (f" when {p.conds}"[:200] if p.conds else "")
                break
        a.expect(bad is None, rule, inst, bad, w)


def unit(a, item):
    kind, arg = item
    R, T = globals()["R"], globals()["T"]
    sm = lambda it, *ar, **kw: it.call(it.getattr(a.g("ZernPol"), "sum_zernikes"), list(ar), kw)
    if kind == "values":
        cs, pols, form = arg
        base = f"sum of {[show(c, 2) for c in cs]} * {pols} ({form} of coefficients)"
        fl = lambda e: Num(e, "float")
        forms = [("float, float", lambda: (fl(R[1]), fl(T[1])), (), [(R[1], T[1])]),
                 ("arrays", lambda: (a.arr([R[0], R[3]], (2,), "float64", "input"), a.arr([T[2], T[0]], (2,), "float64", "input")), (2,), [(R[0], T[2]), (R[3], T[0])])]
        if len(cs) <= 3:
            forms += [("2-D arrays", lambda: (a.arr([R[0], R[3], R[2], R[2]], (2, 2), "float64", "input"), a.arr([T[2], T[0], T[1], T[5]], (2, 2), "float64", "input")), (2, 2),
                       [(R[0], T[2]), (R[3], T[0]), (R[2], T[1]), (R[2], T[5])]),
                      ("float, array", lambda: (fl(R[1]), a.arr([T[2], T[0]], (2,), "float64", "input")), (2,), [(R[1], T[2]), (R[1], T[0])]),
                      ("array, float", lambda: (a.arr([R[1], R[2]], (2,), "float64", "input"), fl(T[3])), (2,), [(R[1], T[3]), (R[2], T[3])])]
        for nm, mk, shape, pts in forms:
            inst = f"{base}, {nm}"
            ps = a.one(lambda it: sm(it, coefs(a, cs, form), pols_of(a, pols, "tuple" if form == "tuple" else "list"), *mk()), "sum", inst, 64)
            compare(a, "sum", inst, ps, shape, [zsum(cs, pols, r, t) for r, t in pts])
    elif kind == "surface":
        cs, pols, nr, nt = arg
        R, T = (LR, LT) if nr > 4 or nt > 6 else (globals()["R"], globals()["T"])
        pts = [(r, t) for r in R[:nr] for t in T[:nt]]
        want = [zsum(cs, pols, r, t) for r, t in pts]
        base = f"surface of {[show(c, 2) for c in cs]} * {pols}, {nr} radii x {nt} angles"
        mk = lambda: (a.arr(R[:nr], (nr,), "float64", "input"), a.arr(T[:nt], (nt,), "float64", "input"))
        ps = a.one(lambda it: sm(it, coefs(a, cs, "list"), pols_of(a, pols, "list"), *mk(), get_surface=True), "surface", base, 64)
        compare(a, "surface", base, ps, (nr, nt), want)
        f = a.it.getattr(a.g("ZernPol"), "_sum_zernikes_meshgrid")
        ps = a.one(lambda it: it.call(f, [coefs(a, cs, "list"), pols_of(a, pols, "list"), *mk()], {}), "surface-mesh", base, 64)
        compare(a, "surface-mesh", "(mesh) " + base, ps, (nr, nt), want)
    elif kind == "generated":
        kw, cs, pols = arg
        inst = f"gen_zernikes_surface({kw}) of {[show(c, 2) for c in cs]} * {pols}"
        kv = {k: Num(X.const(F(v)), "float") if isinstance(v, float) else v for k, v in kw.items()}
        for p in a.one(lambda it: it.call(it.getattr(a.g("ZernPol"), "gen_zernikes_surface"), [coefs(a, cs, "list"), pols_of(a, pols, "list")], dict(kv)), "generated", inst, 64):
            if p.exc is not None:
                a.bad("generated", inst, f"raises {p.exc!r}", a.path_where(p))
                continue
            r, t = a.els(a.at(p.result, "R")), a.els(a.at(p.result, "Theta"))
            S = a.at(p.result, "ZernSurf")
            if not isinstance(S, Arr) or tuple(S.shape) != (len(r), len(t)):
                a.bad("generated", inst, f"surface is {S!r} for {len(r)} radii and {len(t)} angles", a.path_where(p))
                continue
            bad = next((k for k, (g, (x, y)) in enumerate(zip(a.els(S), itertools.product(r, t))) if a.equal(p, g, zsum(cs, pols, x, y), 1e-9) is False), None)
            a.expect(bad is None, "generated", inst, f"element {bad} isn't the sum in the coordinates with the same indices", a.path_where(p))
    elif kind == "reject":
        fl = lambda v: Num(X.const(F(v)), "float")
        r1, t1 = (lambda: (fl(F(1, 2)), fl(1))), (lambda: (a.arr([X.const(F(1, 2)), X.const(F(1, 4))]), a.arr([X.const(1), X.const(2), X.const(3)])))
        same = lambda: (a.arr([X.const(F(1, 2)), X.const(F(1, 4))]), a.arr([X.const(1), X.const(2)]))
        coords = {"floats": (r1, False), "arrays": (same, False), "surface": (t1, True), "surface 2x2": (same, True)}
        cases = []
        for k in range(0, 4):
            for q in range(0, 4):
                if k != q:
                    cases.append((f"{k} coefficients and {q} polynomials", lambda k=k, q=q: (a.lst([fl(1)] * k), a.lst([a.zp(*p) for p in POLS[:q]]))))
        cases.append(("empty lists", lambda: (a.lst([]), a.lst([]))))
        cases.append(("empty tuples", lambda: ((), ())))
        foreign = {"int": 1, "float": fl(2), "None": None, "string": "Z11", "orders": (1, 1)}
        for nm, v in foreign.items():
            for k in (1, 2, 3):
                for pos in range(k):
                    for c in (1, 0, -1):
                        cases.append((f"{nm} on place {pos} of {k} polynomials with coefficient {c}",
                                      lambda v=v, k=k, pos=pos, c=c: (a.lst([fl(c) if i == pos else fl(1) for i in range(k)]), a.lst([v if i == pos else a.zp(*POLS[i]) for i in range(k)]))))
        for nm, f in cases:
            for cn, (mk, surf) in coords.items():
                inst = f"sum_zernikes with {nm}, {cn}"
                for p in a.one(lambda it: sm(it, *f(), *mk(), get_surface=surf), "reject", inst):
                    a.expect(p.exc is not None and p.exc.name == "ValueError", "reject", inst, f"gives {p.exc or p.result!r} instead of ValueError", a.path_where(p))
            inst = f"gen_zernikes_surface with {nm}"
            for p in a.one(lambda it: it.call(it.getattr(a.g("ZernPol"), "gen_zernikes_surface"), list(f()), {"r_step": fl(F(1, 2)), "theta_rad_step": fl(3)}), "reject", inst):
                a.expect(p.exc is not None and p.exc.name == "ValueError", "reject", inst, f"gives {p.exc or p.result!r} instead of ValueError", a.path_where(p))


def check(tier):
    ck = Check("C14", tier, "value-flow of sum_zernikes, _sum_zernikes_meshgrid and gen_zernikes_surface with symbolic coefficients (both signs, zero) and coordinates: "
               "all relations of numbers of radii and angles up to 4 x 5, up to 5 terms, repeated and permuted polynomials; rejected argument classes", 500,
               assumptions=["float arithmetic is modelled by exact real arithmetic"])
    k0, z = X.ONE, X.ZERO
    n = lambda v: X.const(F(v))
    sets = [([C[0]], [(1, 1)]), ([C[0], C[1]], [(1, 1), (0, 2)]), ([C[1], C[0]], [(0, 2), (1, 1)]), ([C[0], C[1], C[2]], POLS[:3]), ([C[2], C[3], C[4]], [(0, 0), (2, 4), (-3, 3)]),
            ([C[0], C[1]], [(1, 1), (1, 1)]), ([z, C[1]], [(1, 1), (0, 2)]), ([C[0], z], [(1, 1), (0, 2)]), ([z, z], [(1, 1), (0, 2)]), ([z], [(0, 2)]), ([C[0], z, C[1]], POLS[:3]),
            ([n(-1), n(-2)], [(2, 2), (0, 4)]), ([n(-1), C[0], n(2)], [(0, 0), (-1, 1), (3, 3)]), ([n(F(1, 10**9)), n(-F(1, 10**9))], [(1, 1), (0, 2)]), (C[:4], [(2, 4), (1, 1), (0, 0), (-3, 3)]),
            ([n(1), n(0), n(-3)], [(0, 2), (1, 1), (-2, 2)]), (C[:2], [(1, 3), (-11, 13)])]
    items = [("values", (cs, ps, form)) for cs, ps in sets for form in ("list", "tuple", "array")] + [("values", ([n(1), n(0), n(-3)], [(0, 2), (1, 1), (-2, 2)], "ints"))]
    for nr in range(1, 5):
        for nt in range(1, 6):
            items.append(("surface", (C[:2], [(1, 1), (-2, 2)], nr, nt)))
    for cs, ps in sets:
        for nr, nt in ((2, 3), (3, 2), (2, 2)) if len(cs) < 4 else ((2, 3),):
            items.append(("surface", (cs, ps, nr, nt)))
    for kw in ({"r_step": 0.5, "theta_rad_step": 3.0}, {"r_step": 0.5, "theta_rad_step": 1.0}, {"r_step": 0.25, "theta_rad_step": 3.0}, {"equal_n_coordinates": True, "n_points": 4},
               {"equal_n_coordinates": True, "n_points": 5}, {"equal_n_coordinates": True, "n_points": 2, "r_step": 0.5}):
        items.append(("generated", (kw, C[:2], [(1, 1), (0, 2)])))
    osa = [(-k + 2 * j, k) for k in range(12) for j in range(k + 1)]
    for k in (6, 9, 16, 24, 37, 66, 78):        # long sums
        items += [("values", (NONZERO[:k], osa[:k], "list")), ("values", (NONZERO[:k], osa[:k][::-1], "array")), ("surface", (NONZERO[:k], osa[:k], 2, 3)), ("surface", (NONZERO[:k], osa[:k], 3, 2))]
    for nr, nt in ((7, 7), (9, 3), (3, 9), (12, 31), (31, 12), (48, 2), (2, 48), (40, 41)):        # large meshes
        items.append(("surface", (NONZERO[:2], [(1, 1), (-2, 2)], nr, nt)))
    items.append(("reject", None))
    ck.units(unit, items)
    return ck.finish()
