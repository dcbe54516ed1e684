"""C37: forced compilation announces unsuitable environments, gives used objects consistent with their parameters and leaves later calculations as they are."""
from .. import models
from ..ctx import A, Check
from ..values import Arr, PyRaise
from . import c31
from . import kernel as K
from . import ops as O
from .c08 import Both

#: version of numba -> a warning is due (None - the text isn't a version: a warning or nothing, but no failure)
VERSIONS = {"0.56.4": True, "0.55.2": True, "0.48.0": True, "0.57.0": True, "0.9.3": True, "0.57.1": False, "0.57.2": False, "0.58.0": False, "0.58.1": False, "0.60.0": False, "0.61.2": False, "0.68.0": False, "0.100.0": False,
            "1.0.0": False, "1.57.0": False, "2.56.0": False, "0.57.0rc1": True, "0.57": None, "0.56": True, "0.xx.0": True, "0.57.dev0": True, "0.61.0rc1": None, "0.58": False, "1.0": False, "1": False, "unknown": True}
STATE = ("kernel", "kernel_size", "NA", "wavelength", "pixel_size", "n_int_r_points", "n_int_phi_points", "airy", "expansion_coeff")


def merge(a, b):
    c31.merge(a, b)
    a.viol += b.viol


def same(a, p, x, y):
    if isinstance(x, Arr) and isinstance(y, Arr):
        return x.shape == y.shape and all(u.t == v.t or a.equal(p, u, v) for u, v in zip(a.els(x), a.els(y)))
    return type(x) is type(y) and (x == y or repr(x) == repr(y))


def versions(a, arg):
    ver, verbose = arg
    due = VERSIONS[ver]
    inst = f"numba {ver}, verbose={verbose}"
    old = models.VERSIONS["numba"]
    models.VERSIONS["numba"] = ver
    try:
        try:
            b = A(missing=a.missing, tier=a.tier)
        except PyRaise as e:
            return a.bad("import", inst, f"import raises {e.exc!r}")
        cl = b.g("ZernPSF")
        for n, v in (("n_int_r_points", 2), ("n_int_phi_points", 4)):
            b.it.setattr(cl, n, v)
        for p in b.one(lambda it: b.call(b.g("force_get_psf_compilation"), verbose), "version", inst, 16):
            if p.exc is not None:
                a.bad("version", inst, f"raises {p.exc!r}", b.path_where(p))
                continue
            w = p.warns()
            if due is not None:
                a.expect(bool(w) == due, "version warning", inst, f"{len(w)} warnings, a warning is {'' if due else 'not '}due", b.path_where(p))
            a.expect(isinstance(p.result, tuple) and len(p.result) == 2, "result", inst, f"gives {p.result!r}"[:200], b.path_where(p))
        merge(a, b)
    finally:
        models.VERSIONS["numba"] = old


def result(a, arg):
    verbose, accel = arg
    inst = f"objects of the compilation, verbose={verbose}, recalculated with accelerated={accel}"
    cl = a.g("ZernPSF")

    def drv(it):
        r = O.force(a, verbose)
        if not isinstance(r, tuple):
            return r, [], 0
        out = []
        n = len(it.events)
        for z in r:
            k0 = a.at(z, "kernel")
            for name, v in (("n_int_r_points", 2), ("n_int_phi_points", 4)):
                it.setattr(z, name, v)
            s0 = a.at(z, "kernel_size")
            k1 = a.m(z, "calculate_psf_kernel", accelerated=accel, suppress_warnings=True)
            out.append((z.cls is cl, k0, s0, k1))
        return r, out, n
    for p in a.one(drv, "result", inst, 16):
        if p.exc is not None:
            a.bad("result", inst, f"raises {p.exc!r}", a.path_where(p))
            continue
        r, out, n = p.result
        if not a.expect(isinstance(r, tuple) and len(out) == 2 and all(o[0] for o in out), "result", inst, f"gives {r!r} instead of two PSF objects"[:200], a.path_where(p)):
            continue
        for i, (_, k0, s0, k1) in enumerate(out):
            ok = isinstance(k0, Arr) and len(k0.shape) == 2 and k0.shape[0] == k0.shape[1] == s0 and s0 % 2 == 1
            a.expect(ok, "kernel", f"{inst}, object {i}", f"kernel is {getattr(k0, 'shape', k0)!r}, size {s0!r}", a.path_where(p))
            a.expect(same(a, p, k0, k1), "kernel", f"{inst}, object {i}", "kernel isn't the one of the parameters of the object", a.path_where(p))


def neutral(a, arg):
    pols, verbose = arg
    inst = f"calculation of {pols} after the compilation, verbose={verbose}"
    cl = a.g("ZernPSF")

    def drv(force):
        def f(it):
            attrs0 = [a.at(cl, n) for n in STATE]
            z0 = K.psf(a, list(pols))
            K.setn(a, z0, 3, 2, 4)
            if force:
                O.force(a, verbose)
            attrs1 = [a.at(cl, n) for n in STATE]
            n = len(it.events)
            k = a.m(z0, "calculate_psf_kernel")
            z1 = K.psf(a, list(pols))
            K.setn(a, z1, 3, 2, 4)
            k1 = a.m(z1, "calculate_psf_kernel")
            st = [a.at(z1, q) for q in STATE]
            return attrs0, attrs1, k, k1, st, [str(e.data)[:60] for e in it.events[n:] if e.kind == "warn"]
        return f
    ref, got = a.one(drv(False), "neutral", inst, 16), a.one(drv(True), "neutral", inst, 16)
    warns = [{tuple(p.result[5]) for p in ps if p.exc is None} for ps in (ref, got)]
    a.expect(warns[0] == warns[1], "neutral", f"{inst}: warnings", f"{warns[1]} instead of {warns[0]}"[:200], None)
    for p in got:
        if p.exc is not None:
            a.bad("neutral", inst, f"raises {p.exc!r}", a.path_where(p))
            continue
        x = p.result
        for nm, u, v in zip(STATE, x[0], x[1]):
            a.expect(same(a, p, u, v), "class attributes", f"{inst}: {nm}", f"changes from {u!r} to {v!r}"[:200], a.path_where(p))
        for q in ref:
            if q.exc is not None:
                continue
            y, b = q.result, Both(p, q)
            a.expect(same(a, b, x[2], y[2]), "neutral", f"{inst}, object from before", "kernel differs from the one without the compilation", a.path_where(p))
            a.expect(same(a, b, x[3], y[3]), "neutral", f"{inst}, new object", "kernel differs from the one without the compilation", a.path_where(p))
            for nm, u, v in zip(STATE, x[4], y[4]):
                a.expect(same(a, b, u, v), "neutral", f"{inst}: {nm}", f"is {u!r} instead of {v!r}"[:200], a.path_where(p))


def absent(a, arg):
    inst = f"numba not installed, verbose={arg}"
    try:
        b = A(missing=tuple(set(a.missing) | {"numba"}), tier=a.tier)
    except PyRaise as e:
        return a.bad("import", inst, f"import raises {e.exc!r}")
    for p in b.one(lambda it: b.call(b.g("force_get_psf_compilation"), *([] if arg is None else [arg])), "absent", inst, 16):
        a.expect(p.exc is None and p.result is None, "absent", inst, f"gives {p.exc or p.result!r} instead of None", b.path_where(p))
        a.expect(len(p.warns()) == 1, "absent", inst, f"{len(p.warns())} warnings instead of one", b.path_where(p))
    merge(a, b)


def unit(a, item):
    {"versions": versions, "result": result, "neutral": neutral, "absent": absent}[item[0]](a, item[1])


def check(tier):
    ck = Check("C37", tier, "warning events of the compilation under each version of numba; value-flow of kernels of the returned objects and of objects used before / after the compilation against a history without it; attributes of the class", 90)
    items = [("versions", (v, b)) for v in VERSIONS for b in (False, True)]
    items += [("result", (v, acc)) for v in (False, True) for acc in (True, None)]
    items += [("neutral", (pols, v)) for pols in (((1, 3),), ((0, 0),), ((0, 2), (-1, 1))) for v in (False, True)]
    items += [("absent", v) for v in (None, False, True)]
    ck.units(unit, items)
    return ck.finish()
