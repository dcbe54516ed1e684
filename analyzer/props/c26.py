"""C26: the least-squares problem handed to the solver."""
from fractions import Fraction as F
import math

from ..ctx import Check, show
from ..expr import sym
from ..values import Arr, Num, Opaque, ExtRef
from .. import expr as X
from .. import spec
from .phases import crop_def, num

R = [sym(f"fr{i}", F(i, 40), F(i + 1, 40)) for i in range(40)]
T = [sym(f"ft{i}", F(i, 7), F(i + 1, 7)) for i in range(40)]
PH = [sym(f"ph{i}", 2 * i, 2 * i + 1) for i in range(441)]


class Solver:
    """Records the problem and answers with free symbols in column order."""

    def __init__(self):
        self.calls = []

    def __call__(self, it, args, kw):
        A = args[0] if args else kw["a"]
        b = args[1] if len(args) > 1 else kw["b"]
        if not isinstance(A, Arr) or not isinstance(b, Arr) or len(A.shape) != 2 or len(b.shape) != 1:
            it.unsup("least-squares problem of unexpected form")
        if A.shape[0] != b.shape[0]:
            it.rz("ValueError", "Incompatible dimensions")
        self.calls.append((tuple(A.shape), [it.el2e(x) for x in A.elems()], [it.el2e(x) for x in b.elems()]))
        sol = it.mkarr([sym(f"sol{j}", -3 + j, -2 + j) for j in range(A.shape[1])], (A.shape[1],), "float64")
        return (sol, Opaque(("res",)), Opaque(("rank",)), Opaque(("sv",)))


def problem(a, p, rule, inst, call, rows, pols, ang_tol=None):
    """rows: {phase symbol name -> (r, theta)}; every phase has its row of polynomial values."""
    shape, A, b = call
    w = a.path_where(p)
    if shape != (len(rows), len(pols)):
        return a.bad(rule, inst, f"matrix of the problem is {shape} instead of {(len(rows), len(pols))}", w)
    seen = set()
    for k, ph in enumerate(b):
        name = next((n for n in rows if X.sub(ph, rows[n][2]).t == {}), None)
        if name is None or name in seen:
            return a.bad(rule, inst, f"row {k}: right-hand side {show(ph, 3)} isn't a provided phase (or is repeated)", w)
        seen.add(name)
        r, t, _ = rows[name]
        for j, (m, n) in enumerate(pols):
            g = A[k * shape[1] + j]
            want = spec.zernike(m, n, r, t)
            if ang_tol is not None:
                ok = abs(num(g) - num(want)) < ang_tol * (n + 1) ** 2
            else:
                ok = a.equal(p, g, want) is not False
            if not ok:
                return a.bad(rule, inst, f"row of phase {name}, column {j} flows to {show(g, 4)[:200]} instead of the value of ZernPol{(m, n)} in its coordinates", w)
    a.ok(rule, inst)


def solution(a, p, inst, v, k, digits):
    w = a.path_where(p)
    if not isinstance(v, Arr) or tuple(v.shape) != (k,):
        return a.bad("order", inst, f"coefficients are {v!r}", w)
    want = a.it.call(ExtRef("numpy.round"), [a.it.mkarr([sym(f"sol{j}", -3 + j, -2 + j) for j in range(k)], (k,), "float64"), digits], {})
    for j, (x, y) in enumerate(zip(a.els(v), a.els(want))):
        if a.equal(p, x, y) is False:
            return a.bad("order", inst, f"coefficient {j} flows from {show(x, 3)} instead of the rounded solution of column {j}", w)
    a.ok("order", inst)


def unit(a, item):
    kind, arg = item
    sv = Solver()
    a.it.ext_hooks["numpy.linalg.lstsq"] = sv
    a.it.ext_hooks["scipy.linalg.lstsq"] = sv
    fit = a.g("fit_polynomials_vectors")
    zs = lambda pols, form="tuple": tuple(a.zp(*x) for x in pols) if form == "tuple" else a.lst([a.zp(*x) for x in pols], "input")
    if kind in ("vectors", "mesh"):
        pols, nr, nt, digits, form = arg
        v = lambda es, prov: a.arr(es, (len(es),), "float64", prov)
        if kind == "vectors":
            rows = {f"ph{i}": (R[i], T[i], PH[i]) for i in range(nr)}
            mk = lambda: (v(PH[:nr], "input:phases"), v(R[:nr], "input:radii"), v(T[:nr], "input:thetas"))
        else:
            rows = {f"ph{i * nt + j}": (R[i], T[j], PH[i * nt + j]) for i in range(nr) for j in range(nt)}
            mk = lambda: (v(PH[:nr * nt], "input:phases"), v(R[:nr], "input:radii"), v(T[:nt], "input:thetas"))
        inst = f"fit_polynomials_vectors of {pols} ({form}), {kind} {nr}{f' x {nt}' if kind == 'mesh' else ''}, digits {digits}"

        def drv(it):
            sv.calls.clear()
            res = it.call(fit, [zs(pols, form), *mk()], {} if digits is None else {"round_digits": digits})
            return res, list(sv.calls)
        for p in a.one(drv, "problem", inst, 32):
            if p.exc is not None:
                a.bad("problem", inst, f"raises {p.exc!r}", a.path_where(p))
                continue
            res, calls = p.result
            if len(calls) != 1:
                a.undecided("problem", inst, f"{len(calls)} calls of the known solver")
                continue
            problem(a, p, "problem", inst, calls[0], rows, pols)
            solution(a, p, inst, res, len(pols), 4 if digits is None else digits)
    elif kind == "image":
        pols, rows, cols, part, strict, digits = arg
        inside, border = crop_def(rows, cols, part, strict)
        if border:
            return a.undecided("image", str(arg), "pixels on the border within rounding")
        want = {f"ph{i * cols + j}": (X.const(F(r)), X.const(F(t)), PH[i * cols + j]) for (i, j), (r, t) in inside.items()}
        for ret in (False, True):
            inst = f"fit_polynomials of {rows}x{cols} image, {pols}, crop {part}{', strict' if strict else ''}, digits {digits}, image returned: {ret}"

            def drv(it):
                sv.calls.clear()
                im = a.arr(PH[:rows * cols], (rows, cols), "float64", "input:image")
                kw = {"crop_radius": Num(X.const(F(part)), "float"), "strict_circle_border": strict, "return_cropped_image": ret, "suppress_warnings": True}
                if digits is not None:
                    kw["round_digits"] = digits
                res = it.call(a.g("fit_polynomials"), [im, zs(pols)], kw)
                return res, list(sv.calls)
            for p in a.one(drv, "image", inst, 32):
                if p.exc is not None:
                    a.bad("image", inst, f"raises {p.exc!r}", a.path_where(p))
                    continue
                (coef, img), calls = p.result
                if len(calls) != 1:
                    a.undecided("image", inst, f"{len(calls)} calls of the known solver")
                    continue
                problem(a, p, "image", inst, calls[0], want, pols, 6e-4)
                solution(a, p, inst, coef, len(pols), 4 if digits is None else digits)
                if not ret:
                    a.expect(img is None, "cropped-image", inst, f"gives image {img!r} though not requested", a.path_where(p))
                else:
                    exp = [PH[i * cols + j] if (i, j) in inside else X.ZERO for i in range(rows) for j in range(cols)]
                    ok = isinstance(img, Arr) and tuple(img.shape) == (rows, cols) and all(a.equal(p, x, y) is not False for x, y in zip(a.els(img), exp))
                    a.expect(ok, "cropped-image", inst, "returned image isn't the image inside of the circle and zero outside", a.path_where(p))
    elif kind == "reject":
        v = lambda es: a.arr(es, (len(es),), "float64")
        sets = {"empty": (), "twice the same": ((1, 1), (1, 1)), "first = last": ((1, 1), (0, 2), (1, 1)), "last two equal": ((1, 1), (0, 2), (0, 2)), "first two equal": ((2, 2), (2, 2), (0, 2), (1, 3))}
        for nm, pols in sets.items():
            for form in ("tuple", "list"):
                inst = f"fit_polynomials_vectors, {form} of polynomials: {nm}"
                for p in a.one(lambda it: it.call(fit, [zs(pols, form), v(PH[:4]), v(R[:4]), v(T[:4])], {}), "reject", inst, 32):
                    a.expect(p.exc is not None and p.exc.name == "ValueError", "reject", inst, f"gives {p.exc or p.result!r} instead of ValueError", a.path_where(p))
                inst = f"fit_polynomials, {form} of polynomials: {nm}"
                for p in a.one(lambda it: it.call(a.g("fit_polynomials"), [a.arr(PH[:25], (5, 5), "float64"), zs(pols, form)], {}), "reject", inst, 32):
                    a.expect(p.exc is not None and p.exc.name == "ValueError", "reject", inst, f"gives {p.exc or p.result!r} instead of ValueError", a.path_where(p))
    elif kind == "equalsets":   # every non-repeated set is accepted
        for pols in arg:
            inst = f"fit of {pols}"
            v = lambda es: a.arr(es, (len(es),), "float64")
            for p in a.one(lambda it: (it.call(fit, [zs(pols), v(PH[:3]), v(R[:3]), v(T[:3])], {}), None)[1], "accept", inst, 32):
                a.expect(p.exc is None, "accept", inst, f"raises {p.exc!r}", a.path_where(p))


def check(tier):
    ck = Check("C26", tier, "value-flow into the least-squares solver: matrix and right-hand side of fit_polynomials_vectors (both layouts) and fit_polynomials as normal "
               "forms of symbolic phases and coordinates, one row per phase and one column per polynomial in the provided order; flow of the solution into the result", 60,
               assumptions=["the solver (numpy.linalg.lstsq) answers in the order of columns", "float arithmetic is modelled by exact real arithmetic"])
    A = ((1, 1), (0, 2), (-3, 3))
    items = []
    for pols, nr in ((A, 5), (A[::-1], 4), (((0, 0),), 3), (((2, 4), (-1, 1)), 1), (((0, 0), (-1, 1), (1, 1), (-2, 2), (0, 2), (2, 2)), 7), (((3, 3), (1, 13), (0, 0)), 4), (A, 2)):
        for digits, form in ((None, "tuple"), (2, "list"), (7, "tuple")):
            items.append(("vectors", (pols, nr, nr, digits, form)))
    for pols in (A, A[::-1], ((0, 0),), ((-2, 2), (1, 1))):
        for nr, nt in ((2, 3), (3, 2), (4, 5), (1, 4), (4, 1), (5, 2), (3, 3), (2, 2), (1, 1)):
            items.append(("mesh", (pols, nr, nt, None if nr < 4 else 3, "tuple")))
    many = tuple((m, n) for n in range(6) for m in range(-n, n + 1, 2))
    items += [("vectors", (many, 25, 25, 3, "list")), ("vectors", (many[::-1], 40, 40, None, "tuple")), ("mesh", (many[:15], 7, 9, 2, "list")), ("mesh", (A, 12, 11, None, "tuple"))]
    items += [("image", (many[:10], 12, 12, 1.0, False, None)), ("image", (A, 15, 11, 0.8, True, 3)), ("image", (A, 20, 21, 1.0, False, 3))]
    for rows, cols, part, strict in ((3, 3, 1.0, False), (5, 5, 1.0, False), (5, 5, 0.5, True), (7, 7, 0.8, False), (4, 4, 1.0, False), (4, 4, 1.0, True), (6, 6, 0.7, False), (5, 7, 1.0, False),
                                     (7, 5, 1.0, True), (6, 7, 1.0, False), (7, 6, 0.9, True), (8, 8, 1.0, False), (3, 6, 1.0, False)):
        items.append(("image", (((0, 0), (-1, 1), (1, 1), (2, 2)) if rows != cols else ((1, 1), (-1, 1), (0, 2)), rows, cols, part, strict, None if part == 1.0 else 2)))
    items += [("reject", None), ("equalsets", [((1, 1), (-1, 1)), ((0, 2), (0, 4)), ((2, 2), (2, 4)), ((0, 0), (0, 2)), ((3, 5), (5, 5), (3, 7)), ((1, 3), (3, 3), (3, 5), (1, 5))])]
    ck.units(unit, items)
    return ck.finish()
