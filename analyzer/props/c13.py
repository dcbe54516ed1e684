"""C13: instances don't influence each other."""
from fractions import Fraction as F

from ..ctx import Check
from ..expr import sym
from ..procs import World
from ..values import Bound, ClassV, Func, Num, Obj, Prop, PyRaise, StaticM, ClassM, Builtin
from .. import expr as X
from . import kernel as K
from . import ops as O
from .c11 import BASE, PRIOR, kern, params
from .c25 import traces

c = O.c
TWO = ((0, 2), (-1, 1))
R1, T1 = [sym(f"br{i}", F(i, 7), F(i + 1, 7)) for i in range(2)], [sym(f"bt{i}", F(i, 2), F(i + 1, 2)) for i in range(2)]


def public(a, o):
    """Public attributes (not methods) of an object or class, with inherited ones."""
    names, cl = set(o.attrs), o if isinstance(o, ClassV) else o.cls
    for k in cl.mro():
        if isinstance(k, ClassV):
            names |= set(k.attrs)
    out = []
    for n in sorted(names):
        if n.startswith("_"):
            continue
        v = a.at(o, n)
        if isinstance(v, (Func, Bound, StaticM, ClassM, Builtin, Prop, ClassV)) or "Builtin" in type(v).__name__ or "Meth" in type(v).__name__:
            continue
        out.append((n, O.canon(a, v)))
    return tuple(out)


def attempt(a, f):
    try:
        return ("value", O.canon(a, f()))
    except PyRaise as e:
        return ("raise", e.exc.name)


# ---------------------------------------------------------------- bystanders of catalogue operations
def made(a, k, d):
    if k in ("low", "middle"):
        return a.zp(-2, 2) if k == "low" else a.zp(3, 7)
    if k == "fresh PSF":
        return a.new("ZernPSF", zernpol=a.zp(1, 3))
    if k == "Airy PSF":
        return a.new("ZernPSF", zernpol=a.zp(0, 0))
    q = dict(BASE, na=F(3, 10), wl=F(3, 5), px=F(1, 8), co=F(1, 30))
    if k == "PSF with parameters":
        z = a.new("ZernPSF", zernpol=a.zp(1, 3))
        a.m(z, "set_calculation_props", kernel_size=7, n_integration_points_r=50, n_integration_points_phi=60)
        params(a, z, q)
        return z
    if k == "PSF with kernel":
        z = a.new("ZernPSF", zernpol=(a.zp(0, 2), a.zp(-1, 1)))
        params(a, z, dict(q, pols=TWO))
        O.small(a, z, 3, 2, 2)
        O.kernelset(a, z, 3)
        return z
    z = a.new("ZernPSF", zernpol=d["pols"])
    a.m(z, "set_physical_props", NA=c(F(3, 10)), wavelength=c(F(3, 5)), expansion_coeff=d["co"], pixel_physical_size=c(F(1, 8)))
    return z


NAMES = ("fresh PSF", "PSF with parameters", "PSF with kernel", "Airy PSF", "low", "middle")
SAME = "PSF of the same polynomials"


def behave(a, k, z, deep):
    return tuple(behave_poly(a, z) if k in ("low", "middle") else behave_psf(a, k, z, deep))


def reference(a, o, k, deep, cache):
    """Behaviour of an object that is alone in the world; None when it can't be created."""
    key = (k, deep) if k != SAME else (k, deep, o.name.split(" ", 1)[-1])
    if key not in cache:
        def drv(it):
            d = o.make(a) if k == SAME else {}
            try:
                z = made(a, k, d)
            except PyRaise as e:
                if k == SAME:
                    return None
                raise
            return behave(a, k, z, deep)
        ps = a.run(drv, 8)
        if len(ps) != 1 or ps[0].error or ps[0].exc is not None:
            a.undecided("reference", f"{o.name}: {k}", ps[0].error or repr(ps[0].exc) if len(ps) == 1 else "several traces")
            cache[key] = None
        else:
            cache[key] = ps[0].result
    return cache[key]


def behave_poly(a, z):
    return [attempt(a, lambda: a.m(z, "polynomial_value", a.arr(R1), a.arr(T1))), attempt(a, lambda: a.m(z, "radial_dr", a.arr(R1))), attempt(a, lambda: a.m(z, "get_indices")),
            attempt(a, lambda: a.m(z, "get_polynomial_name")), public(a, z)]


MODES = {"PSF with parameters": (False,), "PSF with kernel": (True,), "Airy PSF": (False,)}


def behave_psf(a, k, z, deep):
    out = [public(a, z)]
    if not k.endswith("kernel"):
        O.small(a, z, 3, 2, 2)
        out.append(public(a, z))
    if deep:
        for acc in MODES.get(k, ()):
            out.append(attempt(a, lambda: a.m(z, "calculate_psf_kernel", normalized=False, accelerated=acc, suppress_warnings=True)))
        O.kernelset(a, z, 5)
        out.append(attempt(a, lambda: a.m(z, "crop_kernel", c(F(1, 5)))))
        out.append(attempt(a, lambda: a.m(z, "convolute_img", O.img(a, 3, 3, "by"))))
        out.append(public(a, z))
    return out


def operation(a, idx):
    O.hooks(a)
    O.small_mesh(a)
    allops = O.all_ops()
    cache = {}
    for o in (allops[i] for i in idx):
        deep = bool(o.tags & {"psf", "compile"})
        names = list(NAMES)
        probe = o.make(a)
        if "pols" in probe and "co" in probe and o.tags & {"psf"}:
            names.append(SAME)
        ref = {k: reference(a, o, k, deep, cache) for k in names}
        names = [k for k in names if ref[k] is not None]

        def drv(it):
            d = o.make(a)
            by = {k: made(a, k, d) for k in names}
            try:
                o.run(a, d)
            except PyRaise:
                pass
            return {k: behave(a, k, z, deep) for k, z in by.items()}, {k: behave(a, k, made(a, k, d), deep) for k in names}

        for p in a.one(drv, "operation", o.name, 48):
            if p.exc is not None:
                a.bad("bystander", o.name, f"operations on another instance raise {p.exc!r}", a.path_where(p))
                continue
            for kind, got in zip(("existing", "new"), p.result):
                for k in names:
                    d = O.same(a, p, ref[k], got[k])
                    a.expect(d is None, kind, f"{o.name}: {k}", f"differs after the operation on another instance: {d}", a.path_where(p))


# ---------------------------------------------------------------- interleaved operations on two PSF objects
def steps(a, z, q, out):
    """Operations on the observed object; their results are collected."""
    rec = lambda f: out.append(attempt(a, f))
    return [
        lambda: params(a, z, q),
        lambda: out.append(public(a, z)),
        lambda: rec(lambda: a.m(z, "calculate_psf_kernel", normalized=False, accelerated=q["acc"], suppress_warnings=True)),
        lambda: rec(lambda: a.m(z, "convolute_img", O.img(a, 3, 3, "iv"))),
        lambda: (O.kernelset(a, z, 5), rec(lambda: a.m(z, "crop_kernel", c(F(1, 5)))), out.append(public(a, z))),
        lambda: rec(lambda: a.m(z, "save_json", "/mine")),
        lambda: out.append(public(a, z)),
        lambda: rec(lambda: a.m(z, "read_json", a.at(z, "json_file_path"))),
        lambda: out.append(public(a, z)),
    ]


MORE = {
    "new object": lambda a, z, q: a.new("ZernPSF", zernpol=(a.zp(0, 0), a.zp(2, 2))),
    "loaded": lambda a, z, q: (a.it.fs.update({"/": "dir", "/cwd": "dir", "/data": "dir"}), a.m(z, "save_json", "/data"), a.m(z, "read_json", a.at(z, "json_file_path"))),
    "compilation": lambda a, z, q: O.force(a, False),
    "deinitialized": lambda a, z, q: a.m(z, "deinitialize_workers"),
}
ALL = dict(PRIOR, **MORE)


def interleaved(a, item):
    q, oq, name, shared = item
    O.hooks(a)
    inst = f"PSF of {q['pols']} (accelerated={q['acc']}) and '{name}' of the one of {oq['pols']}{' with shared polynomials' if shared else ''}"

    def make(pols):
        zs = [a.zp(*x) for x in pols]
        return zs[0] if len(zs) == 1 else tuple(zs)

    def drv(it):
        a.it.fs.update({"/": "dir", "/cwd": "dir", "/data": "dir", "/mine": "dir"})
        ps = make(q["pols"])
        fs0 = dict(it.fs)
        outs = []
        n = len(steps(a, None, q, []))
        for k in range(n):
            it.fs = dict(fs0)
            z = a.new("ZernPSF", zernpol=ps)
            z2 = a.new("ZernPSF", zernpol=ps if shared else make(oq["pols"]))
            params(a, z2, oq)
            out = []
            for i, s in enumerate(steps(a, z, q, out)):
                if i == k:
                    try:
                        ALL[name](a, z2, oq)
                    except PyRaise as e:
                        outs.append((k, e.exc))
                        break
                s()
            else:
                outs.append((k, out))
        return outs
    def alone(it):
        a.it.fs.update({"/": "dir", "/cwd": "dir", "/data": "dir", "/mine": "dir"})
        ref = []
        for s in steps(a, a.new("ZernPSF", zernpol=make(q["pols"])), q, ref):
            s()
        return ref
    rs = a.one(alone, "alone", inst, 4)
    if len(rs) != 1 or rs[0].exc is not None:
        return a.undecided("alone", inst, "no single trace") if not rs or rs[0].exc is None else a.bad("alone", inst, f"raises {rs[0].exc!r}", a.path_where(rs[0]))
    ref = rs[0].result
    for p in a.one(drv, "interleaved", inst, 48):
        if p.exc is not None:
            a.bad("interleaved", inst, f"raises {p.exc!r}", a.path_where(p))
            continue
        for k, out in p.result:
            if not isinstance(out, list):
                a.bad("interleaved", inst, f"before step {k} raises {out!r}", a.path_where(p))
                continue
            d = O.same(a, p, tuple(ref), tuple(out))
            a.expect(d is None, "interleaved", inst, f"performed before step {k} changes a result: {d}", a.path_where(p))


# ---------------------------------------------------------------- worker pools
def pools(a, item):
    seq, mode = item
    inst = f"workers of two PSF objects: {seq}"
    pol = {"1": (-2, 2), "2": (1, 3)}
    nr, nphi = 2, 10

    def drv(it):
        w = World(it, mode)
        out = []
        try:
            z = {k: K.psf(a, [p], coeffs=K.CO[int(k) - 1:]) for k, p in pol.items()}
            own = {"1": [], "2": []}
            for o in z.values():
                K.setn(a, o, 3, nr, nphi)
            for pos, s in enumerate(seq.split()):
                n = len(w.procs)
                if s[0] == "i":
                    a.m(z[s[1]], "initialize_parallel_workers")
                    own[s[1]] += w.procs[n:]
                elif s[0] == "k":
                    out.append(("kernel", s, a.els(a.m(z[s[1]], "get_kernel_parallel", normalize_values=False))))
                elif s[0] == "r":
                    a.m(z[s[1]], "deinitialize_workers")
                    for p in own[s[1]]:
                        w.run_out(p)
                    out.append(("released", s, [p.status for p in own[s[1]]], [p.status for k in own if k != s[1] for p in own[k]] if ("r" + "21"[int(s[1]) - 1]) not in seq.split()[:pos] else []))
            return out
        finally:
            w.kill()
    for p in traces(a, drv, "pools", inst, 16):
        if p.exc is not None:
            a.bad("pools", inst, f"raises {p.exc!r}", a.path_where(p))
            continue
        for x in p.result:
            if x[0] == "kernel":
                n = x[1][1]
                al = K.alphas(1, coeffs=K.CO[int(n) - 1:])
                for i in (0, 4, 5):
                    want = K.point([pol[n]], al, K.distance(3, *divmod(i, 3)), K.geometry(3, *divmod(i, 3))[1], nr, nphi)
                    a.expect(a.equal(p, x[2][i], want), "pools", inst, f"pixel {i} of the kernel of object {n} isn't the one of its parameters", a.path_where(p))
            else:
                a.expect(all(s == "done" for s in x[2]) and all(s != "done" for s in x[3]), "pools", inst, f"releasing of one object: its workers {x[2]}, workers of the other {x[3]}", a.path_where(p))


# ---------------------------------------------------------------- warnings and prints of one object after those of another one
NOISY = {"high even": (0, 52), "high odd": (-1, 51), "highest": (53, 53), "high": (2, 52), "low": (1, 3),
         "PSF": ((1, 3),), "PSF of several": TWO, "Airy PSF": ((0, 0),)}


def noisy_ops(a, k, z):
    """Calls of the object which may warn, with values of any kind."""
    r, t = Num(R1[0], "float"), Num(T1[0], "float")
    if isinstance(NOISY[k][0], int):
        ex = {"use_exact_eq": True}
        out = [lambda: a.m(z, "radial", r), lambda: a.m(z, "radial", r, **ex), lambda: a.m(z, "radial", a.lst([r, r])), lambda: a.m(z, "radial", a.arr(R1), **ex),
               lambda: a.m(z, "radial_dr", r), lambda: a.m(z, "radial_dr", r, **ex), lambda: a.m(z, "radial_dr", a.arr(R1), **ex), lambda: a.m(z, "polynomial_value", r, t),
               lambda: a.m(z, "polynomial_value", r, t, **ex)]
        return out[:5] + out[7:] if NOISY[k][1] > 50 else out
    several = len(NOISY[k]) > 1
    big = lambda: a.lst([c(F(8)), c(F(-9))]) if several else c(F(8))
    small = lambda: a.lst([c(F(1, 20)), c(F(-1, 30))]) if several else c(F(1, 20))
    props = lambda co: a.m(z, "set_physical_props", NA=c(F(2, 5)), wavelength=c(F(1, 2)), expansion_coeff=co, pixel_physical_size=c(F(1, 10)))
    calc = lambda n, nr=20, nf=36: a.m(z, "set_calculation_props", kernel_size=n, n_integration_points_r=nr, n_integration_points_phi=nf)
    kern = lambda **kw: (a.it.setattr(z, "n_int_r_points", 2), a.it.setattr(z, "n_int_phi_points", 2), a.m(z, "calculate_psf_kernel", **kw))[-1]
    return [lambda: calc(3), lambda: props(big()), lambda: props(small()), lambda: calc(4), lambda: calc(5, 600, 420), lambda: calc(3), lambda: kern(accelerated=True), lambda: kern(accelerated=False),
            lambda: kern(), lambda: a.m(z, "crop_kernel", c(F(1, 2)))]


def messages(a, item):
    first, second = item

    def make(k):
        v = NOISY[k]
        if isinstance(v[0], int):
            return a.zp(*v)
        ps = [a.zp(*p) for p in v]
        return a.new("ZernPSF", zernpol=ps[0] if len(ps) == 1 else tuple(ps))

    def noise(it, k, z):
        out = []
        for f in noisy_ops(a, k, z):
            n = len(it.events)
            x = attempt(a, f)
            out.append((x if x[0] == "raise" else "value", tuple((e.kind, str(e.data[0]) if e.kind == "warn" else "") for e in it.events[n:] if e.kind in ("warn", "print"))))
        return out

    def both(it, order):
        x, y = make(first), make(second)
        if order == "later":
            y = None
        noise(it, first, x)
        return noise(it, second, y or make(second))
    ref = a.one(lambda it: noise(it, second, make(second)), "messages", second, 64)
    for order in ("before", "later"):
        got = a.one(lambda it: both(it, order), "messages", f"{second} after {first}", 64)
        want = {repr(q.result) if q.exc is None else repr(q.exc.name) for q in ref}
        for p in got:
            t = repr(p.result) if p.exc is None else repr(p.exc.name)
            d = ""
            if t not in want and p.exc is None and ref and ref[0].exc is None:
                d = "; ".join(f"call {i}: {x} instead of {y}" for i, (x, y) in enumerate(zip(p.result, ref[0].result)) if x != y)[:400]
            a.expect(t in want, "messages", f"{second} created {order} the use of {first}", f"warns or prints in another way than alone: {d}", a.path_where(p))


def unit(a, item):
    {"o": operation, "i": interleaved, "w": pools, "m": messages}[item[0]](a, item[1])


def check(tier):
    ck = Check("C13", tier,
               "Objects in several states are created twice; the behaviour (public attributes, values, kernels, cropping, convolution) of one group is extracted before and of the other one after every catalogue operation on other "
               "instances; new objects created afterwards behave as those before. Operations on two PSF objects and their worker pools are interleaved at every position.",
               2500, "other", ["operations listed in analyzer/props/ops.py, c11.py and c13.py"])
    n = len(O.all_ops())
    items = [("o", list(range(i, n, 32))) for i in range(32)]
    qs = [dict(BASE), dict(BASE, pols=TWO), dict(BASE, pols=((0, 0),)), dict(BASE, acc=True)]
    oqs = [dict(BASE, pols=((-1, 3),), na=F(1, 3), wl=F(3, 5), px=F(1, 9), co=F(1, 31), size=5, nr=3, nphi=6), dict(BASE, pols=((2, 2), (0, 2)), na=F(1, 3), wl=F(3, 5), px=F(1, 9), co=F(1, 31), size=5, nr=3, nphi=6)]
    for name in ALL:
        for i, q in enumerate(qs):
            items.append(("i", (q, oqs[i % 2], name, False)))
            if i < 2:
                items.append(("i", (q, dict(oqs[0], pols=q["pols"]), name, True)))
    items += [("w", (s, m)) for s, m in (("i1 k2 k1 r1 k2 k1", "eager"), ("i1 i2 k1 k2 k1 r1 k2 r2 k1", "lazy"), ("i2 k1 i1 r2 k1 k2 r1", "eager"), ("i1 r2 k1 i2 r1 k2 r2", "lazy"))]
    items += [("m", (x, y)) for x in NOISY for y in NOISY if isinstance(NOISY[x][0], int) == isinstance(NOISY[y][0], int)]
    ck.units(unit, items)
    return ck.finish()
