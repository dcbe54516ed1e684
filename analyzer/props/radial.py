"""C05 / C06: value-flow of the radial polynomials (derivatives) from the public methods to normal forms in r."""
from ..ctx import Check, show
from fractions import Fraction as F

from ..expr import const, sym
from ..values import Arr, Num
from .. import spec

R0, R1 = sym("r0", 0, 1), sym("r1", 0, 1)


def forms(a):
    yield "float", lambda: Num(R0, "float"), [R0], None
    yield "ndarray", lambda: a.arr([R0, R1], (2,), "float64", "input:r"), [R0, R1], (2,)


def more_forms(a):
    yield "float64", lambda: Num(R0, "float64"), [R0], None
    yield "list", lambda: a.lst([Num(R0, "float"), Num(R1, "float")], "input:r"), [R0, R1], (2,)
    yield "2-D ndarray", lambda: a.arr([R0, R1, R1, R0], (2, 2), "float64", "input:r"), [R0, R1, R1, R0], (2, 2)
    yield "1-element ndarray", lambda: a.arr([R0], (1,), "float64", "input:r"), [R0], (1,)
    es = [R0, R1, R1, R0, R1, R0, R0, R1, R1, R1, R0, R0]
    yield "3-D ndarray", lambda: a.arr(es, (2, 3, 2), "float64", "input:r"), es, (2, 3, 2)
    long = [const(F((7 * i) % 301, 300)) if i % 50 else (R0, R1)[i % 2] for i in range(301)]
    yield "long ndarray", lambda: a.arr(long, (301,), "float64", "input:r"), long, (301,)
    yield "long list", lambda: a.lst([Num(x, "float") for x in long[:130]], "input:r"), long[:130], (130,)
    yield "large 2-D ndarray", lambda: a.arr(long[:300], (20, 15), "float64", "input:r"), long[:300], (20, 15)


def analyse(a, mn, method, specf, exact, fs):
    m, n = mn
    for name, mk, elems, shape in fs:
        inst = f"ZernPol(m={m}, n={n}).{method}(r: {name}{', exact' if exact else ''})"
        rule = f"{method}-{'exact' if exact else 'default'}-{name}"

        def drv(it):
            z = a.zp(m, n)
            return a.m(z, method, mk(), **({"use_exact_eq": True} if exact else {}))
        ps = a.run(drv, 16, keep_state=True)
        for p in ps:
            if p.error:
                a.undecided(rule, inst, p.error)
                continue
            if p.exc is not None:
                a.bad(rule, inst, f"raises {p.exc!r} for admissible radii", a.path_where(p))
                continue
            v = p.result
            if v is None:
                a.bad(rule, inst, "returns None", a.path_where(p))
                continue
            if isinstance(v, Arr) != (shape is not None) and not (shape is None and isinstance(v, Arr) and v.shape == ()):
                a.bad(rule, inst, f"result is {'an array' if isinstance(v, Arr) else 'a scalar'} for {name} radii", a.path_where(p))
                continue
            if shape is not None and tuple(v.shape) != shape:
                a.bad(rule, inst, f"result shape {tuple(v.shape)} instead of {shape}", a.path_where(p))
                continue
            got = a.els(v)
            for i, (g, r) in enumerate(zip(got, elems)):
                want = specf(m, n, r)
                q = a.equal(p, g, want)
                if q is None:
                    a.undecided(rule, inst, "no sample point on the trace")
                elif q:
                    if i == 0:
                        a.ok(rule, inst)
                else:
                    cond = f" on the trace {[(repr(c), v) for c, v, _ in p.conds]}" if p.conds else ""
                    a.bad(rule, inst, f"flows to {show(g)} instead of {show(want)}{cond}", a.path_where(p))
                    break


def unit_c05(a, chunk):
    for mn in chunk:
        analyse(a, mn, "radial", spec.radial, False, forms(a))
        if mn[1] <= 40:
            analyse(a, mn, "radial", spec.radial, True, forms(a))
        if mn in EXTRA or a.tier == "thorough" and mn[1] <= 20:
            analyse(a, mn, "radial", spec.radial, False, more_forms(a))


def unit_c06(a, chunk):
    for mn in chunk:
        analyse(a, mn, "radial_dr", spec.radial_dr, False, forms(a))
        if mn[1] <= 38:
            analyse(a, mn, "radial_dr", spec.radial_dr, True, forms(a))
        if mn in EXTRA or a.tier == "thorough" and mn[1] <= 20:
            analyse(a, mn, "radial_dr", spec.radial_dr, False, more_forms(a))


EXTRA = {(0, 0), (1, 1), (-1, 1), (0, 2), (-2, 2), (1, 3), (-3, 3), (0, 4), (2, 6), (-5, 7), (0, 10), (3, 11), (0, 12), (12, 12),
         (1, 13), (-11, 13), (0, 14), (16, 16), (-2, 18), (5, 41), (0, 42)}


def chunks(mns, k):
    return [mns[i::k] for i in range(k)]


def run(pid, tier, unit, floor, what):
    ck = Check(pid, tier, what, floor, assumptions=[
        "float arithmetic is modelled by exact real arithmetic (rounding error of high orders is outside the property)",
        "numpy elementwise operations are modelled by their documented semantics (analyzer/models.py)"])
    ck.units(unit, chunks(spec.orders(), 16))
    return ck.finish()
