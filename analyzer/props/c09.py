"""C09: limits of the exact-formula option: warning and zeros above, calculation without this warning at or below."""
from ..ctx import Check
from ..expr import sym
from ..values import Arr, Num
from .. import spec

R0, R1 = sym("r0", 0, 1), sym("r1", 0, 1)
T0, T1 = sym("th0", 0, 6), sym("th1", 0, 6)
LIMIT = {"polynomial_value": 40, "radial": 40, "radial_dr": 38}


def zero(a, v):
    return all(not e.t for e in a.els(v))


def unit(a, chunk):
    fl = lambda e: Num(e, "float")
    ar = lambda es, sh=None: a.arr(es, sh or (len(es),), "float64", "input")
    for m, n in chunk:
        for meth, lim in LIMIT.items():
            pv = meth == "polynomial_value"
            forms = [("float", (), fl(R0), fl(T0))]
            if n > lim or n in (lim, lim - 1) or a.tier == "thorough":
                forms += [("ndarray", (2,), ar([R0, R1]), ar([T0, T1])), ("2-D ndarray", (1, 2), ar([R0, R1], (1, 2)), ar([T0, T1], (1, 2))),
                          ("list", (2,), a.lst([fl(R0), fl(R1)]), a.lst([fl(T0), fl(T1)])), ("int", (), 1, 0), ("float64", (), Num(R0, "float64"), Num(T0, "float64"))]
                if pv:
                    forms += [("ndarray, float angle", (2,), ar([R0, R1]), fl(T0))]
            for nm, shape, r, t in forms:
                args = (r, t) if pv else (r,)
                for exact in (True, False):
                    if not exact and nm != "float":
                        continue
                    inst = f"ZernPol(m={m}, n={n}).{meth}({nm}{', exact' if exact else ''})"
                    kw = {"use_exact_eq": True} if exact else {}
                    for p in a.one(lambda it: a.m(a.zp(m, n), meth, *args, **kw), "limit", inst, 16, True):
                        w = a.path_where(p)
                        if p.exc is not None:
                            a.bad("limit", inst, f"raises {p.exc!r}", w)
                            continue
                        v = p.result
                        if exact and n > lim:
                            a.expect(len(p.warns()) > 0, "above-warns", inst, "no warning that the order is too high for the exact formula", w)
                            got = tuple(v.shape) if isinstance(v, Arr) else ()
                            a.expect(v is not None and got == shape and zero(a, v), "above-zeros", inst,
                                     f"gives {v!r} with shape {got} instead of zeros with the shape of radii {shape}", w)
                        else:
                            if exact:
                                a.expect(not p.warns(), "below-no-warning", inst, f"warns {p.warns()[:1]} though the order is supported", w)
                            ident0 = meth == "radial_dr" and n == 0
                            if nm != "int" or meth == "radial":
                                a.expect(v is not None and (ident0 or not zero(a, v)), "calculated", inst, f"gives {v!r} instead of calculated values", w)


def check(tier):
    ck = Check("C09", tier, "every method with the exact-formula option is interpreted for all (m, n), n <= 54, on both sides of its limit "
               "(40 for values, 38 for derivatives): warning events and zero / non-zero results of every trace", 5200)
    o = spec.orders()
    ck.units(unit, [o[i::16] for i in range(16)])
    return ck.finish()
