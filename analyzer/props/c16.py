"""C16: ZernPSF constructor: classes of arguments."""
from fractions import Fraction as F
import itertools

from ..ctx import Check
from ..values import Arr, Num, Obj, PyDict
from . import kernel as K
from .. import expr as X
from .. import spec


def mkseq(a, kind, items):
    if kind == "list":
        return a.lst(items, "input")
    return tuple(items)


def same_pol(a, x, mn):
    return isinstance(x, Obj) and a.m(x, "get_mn_orders") == mn


def unit(a, item):
    kind, arg = item
    ctor = lambda it, z: it.call(a.g("ZernPSF"), [], {"zernpol": z})
    if kind == "single":
        for mn in arg:
            for form in ("object", "list", "tuple"):
                inst = f"ZernPSF({form} of ZernPol{mn})"

                def drv(it):
                    z = a.zp(*mn)
                    s = ctor(it, z if form == "object" else mkseq(a, form, [z]))
                    return a.at(s, "zernpol"), a.at(s, "polynomials"), a.at(s, "airy"), same_pol(a, a.at(s, "zernpol"), mn)
                for p in a.one(drv, "single", inst):
                    if p.exc is not None:
                        a.bad("single", inst, f"raises {p.exc!r}", a.path_where(p))
                        continue
                    z, ps, airy, same = p.result
                    a.expect(same, "single", inst, f"stores {z!r}", a.path_where(p))
                    a.expect(len(getattr(ps, "items", ps)) == 0, "single", inst, f"stores polynomials {ps!r} besides the single one", a.path_where(p))
                    a.expect(a.it.truth(airy) == (mn == (0, 0)), "airy", inst, f"Airy mode is {airy}", a.path_where(p))
    elif kind == "several":
        for mns in arg:
            for form in ("list", "tuple"):
                inst = f"ZernPSF({form} of {mns})"
                dup = len(set(mns)) < len(mns)

                def drv(it):
                    s = ctor(it, mkseq(a, form, [a.zp(*x) for x in mns]))
                    ps = a.at(s, "polynomials")
                    ps = list(getattr(ps, "items", ps))
                    return a.at(s, "zernpol"), len(ps) == len(mns) and all(same_pol(a, q, x) for q, x in zip(ps, mns)), a.at(s, "airy")
                for p in a.one(drv, "several", inst):
                    w = a.path_where(p)
                    if dup:
                        a.expect(p.exc is not None and p.exc.name == "ValueError", "repeated", inst, f"gives {p.exc or 'an object'} instead of ValueError", w)
                    elif p.exc is not None:
                        a.bad("several", inst, f"raises {p.exc!r}", w)
                    else:
                        z, same, airy = p.result
                        a.expect(z is None and same, "several", inst, f"stored polynomials differ from the provided ones (single: {z!r})", w)
                        a.expect(a.it.truth(airy) == ((0, 0) in mns), "airy", inst, f"Airy mode is {airy}", w)
    elif kind == "foreign":
        pol = lambda: a.zp(1, 3)
        psf = lambda: a.new("ZernPSF", zernpol=a.zp(1, 1))
        foreign = {"int": lambda: 4, "float": lambda: Num(X.const(F(5, 2)), "float"), "None": lambda: None, "string": lambda: "ZernPol", "bool": lambda: True,
                   "ZernPSF": psf, "class ZernPol": lambda: a.g("ZernPol"), "orders tuple": lambda: (1, 3), "orders list": lambda: a.lst([1, 3]),
                   "array": lambda: a.arr([X.const(1), X.const(2)], (2,))}
        cases = [(nm, f) for nm, f in foreign.items()]
        cases += [("empty list", lambda: a.lst([])), ("empty tuple", lambda: ()), ("empty string", lambda: ""), ("one-letter string", lambda: "Z"),
                  ("1-element array", lambda: a.arr([X.const(1)], (1,))), ("empty array", lambda: a.arr([], (0,)))]
        for nm, f in foreign.items():
            if nm in ("array",):
                continue
            cases += [(f"[{nm}]", lambda f=f: a.lst([f()])), (f"({nm},)", lambda f=f: (f(),))]
            for k in (2, 3, 4):
                for pos in range(k):
                    def mk(f=f, k=k, pos=pos, t=list):
                        r = [f() if i == pos else a.zp(*[(1, 1), (0, 2), (-3, 3), (2, 4)][i]) for i in range(k)]
                        return a.lst(r) if t is list else tuple(r)
                    cases.append((f"sequence of {k} with {nm} on place {pos}", mk))
            cases.append((f"tuple of 2 with {nm} first", lambda f=f: (f(), pol())))
            cases.append((f"nested: [[ZernPol], {nm}]", lambda f=f: a.lst([a.lst([pol()]), f()])))
        cases.append(("[[ZernPol]]", lambda: a.lst([a.lst([pol()])])))
        for nm, f in cases:
            inst = f"ZernPSF({nm})"
            for p in a.one(lambda it: ctor(it, f()), "foreign", inst):
                a.expect(p.exc is not None and p.exc.name == "ValueError", "foreign", inst, f"gives {p.exc or 'an object'} instead of ValueError", a.path_where(p))
    elif kind == "equivalent":
        mn = arg
        for mode in (False, True):
            base = None
            for form, cform in itertools.product(("object", "list", "tuple"), ("float", "list", "tuple")):
                inst = f"ZernPSF({form} of ZernPol{mn}), coefficients as {cform}, accelerated={mode}"

                def drv(it):
                    z = a.zp(*mn)
                    s = ctor(it, z if form == "object" else mkseq(a, form, [z]))
                    c = K.fl(K.CO[0])
                    c = c if cform == "float" else mkseq(a, cform, [c])
                    a.m(s, "set_physical_props", NA=K.fl(K.NA), wavelength=K.fl(K.WL), expansion_coeff=c, pixel_physical_size=K.fl(K.PX))
                    ks = a.at(s, "kernel_size")
                    K.setn(a, s, 3, 2, 4)
                    k = a.m(s, "calculate_psf_kernel", accelerated=mode, normalized=False, suppress_warnings=True)
                    return ks, a.at(s, "alpha"), a.at(s, "expansion_coeff"), k
                ps = [p for p in a.one(drv, "equivalent", inst)]
                for p in ps:
                    if p.exc is not None:
                        a.bad("equivalent", inst, f"raises {p.exc!r}", a.path_where(p))
                if base is None:
                    base = [p for p in ps if p.exc is None]
                    continue
                from .c08 import Both
                for p in ps:
                    if p.exc is not None:
                        continue
                    for q in base:
                        b = Both(p, q)
                        ok = all(a.equal(b, a.e(x), a.e(y)) is not False for x, y in zip(p.result[:3], q.result[:3]))
                        k1, k2 = p.result[3], q.result[3]
                        ok = ok and k1.shape == k2.shape and all(a.equal(b, x, y) is not False for x, y in zip(a.els(k1), a.els(k2)))
                        a.expect(ok, "equivalent", inst, "kernel or derived values differ from those of the single polynomial", a.path_where(p))


def check(tier):
    ck = Check("C16", tier, "the constructor is interpreted for every class of arguments: single polynomials of all orders, sequences up to 4 members with every "
               "pattern of repetitions, foreign members on every place, foreign objects; stored state and Airy flag on all traces; kernels for the equivalent forms", 900)
    o = spec.orders(12) + [(0, 20), (1, 41), (0, 54), (54, 54), (-54, 54)]
    if tier == "thorough":
        o = spec.orders()
    items = [("single", o[i::4]) for i in range(4)]
    base = [(0, 0), (1, 1), (-1, 1), (0, 2), (4, 4)]
    sv = [s for k in (2, 3) for s in itertools.product(base, repeat=k)] + list(itertools.product(base[:3], repeat=4))
    sv += [((0, 2), (0, 4)), ((2, 2), (-2, 2)), ((3, 3), (3, 5)), ((0, 0), (54, 54)), ((7, 7), (0, 8), (0, 0)), ((1, 1), (0, 4), (2, 6), (0, 0), (-5, 5)), ((1, 1), (0, 4), (2, 6), (0, 2), (1, 1))]
    items += [("several", sv[i::6]) for i in range(6)] + [("foreign", None)]
    items += [("equivalent", mn) for mn in ((0, 0), (1, 1), (0, 2), (-3, 3))]
    ck.units(unit, items)
    return ck.finish()
