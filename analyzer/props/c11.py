"""C11: results don't depend on the call history."""
from fractions import Fraction as F

from ..ctx import Check
from ..expr import sym
from ..values import Num, PyRaise
from .. import expr as X
from . import ops as O

c = O.c
ORDERS = [(m, n) for n in range(0, 8) for m in range(-n, n + 1, 2)] + [(0, 10), (2, 10), (-2, 10), (1, 11), (3, 11), (-4, 12), (4, 12), (6, 14), (7, 15), (-15, 15), (5, 21), (-5, 21), (7, 21),
                                                                       (0, 22), (8, 30), (0, 30), (2, 46), (-2, 46), (4, 46), (3, 47), (0, 54), (2, 54)]


def variants():
    """Operations differing from each other in one parameter (to collide in insufficient cache keys)."""
    out = []
    r2 = [sym(f"hr{i}", F(i, 7), F(i + 1, 7)) for i in range(4)]
    t2 = [sym(f"ht{i}", F(i, 2), F(i + 1, 2)) for i in range(4)]
    vals = {"r": a_arr(O.RS[:3]), "r'": a_arr(r2[:3]), "r1": lambda a: Num(O.RS[1], "float"), "r1'": lambda a: Num(r2[2], "float"), "R": lambda a: a.arr(O.RS[:4], (2, 2)), "ra": a_arr(O.RS[:4])}
    ang = {"r": a_arr(O.TS[:3]), "r'": a_arr(t2[:3]), "r1": lambda a: Num(O.TS[1], "float"), "r1'": lambda a: Num(t2[2], "float"), "R": lambda a: a.arr(O.TS[:4], (2, 2)), "ra": a_arr(O.TS[:4])}

    def add(mn, k, meth, exact=False):
        def run(a, d):
            args = {"polynomial_value": ("r", "t"), "triangular": ("t",), "triangular_dtheta": ("t",)}.get(meth, ("r",))
            return a.m(d["z"], meth, *[d[q] for q in args], **({"use_exact_eq": True} if exact else {}))
        out.append(O.Op(f"{meth} of {mn} for {k}{' exact' if exact else ''}", lambda a: {"z": a.zp(*mn), "r": vals[k](a), "t": ang[k](a)}, run, ("poly",)))
    for mn in ORDERS:
        for meth in ("polynomial_value", "radial", "radial_dr"):
            for k in ("r", "r'"):
                add(mn, k, meth)
        if mn[1] <= 6 or mn[1] in (11, 21, 46):
            for k in ("r1", "r1'", "R", "ra"):
                add(mn, k, "polynomial_value")
                add(mn, k, "radial_dr")
            for k in ("r", "r1"):
                add(mn, k, "triangular")
                add(mn, k, "triangular_dtheta")
        if mn[1] <= 14 or mn[1] == 21:
            add(mn, "r", "radial", True)
            add(mn, "r1", "radial_dr", True)
    for pols in (((1, 1), (0, 2)), ((-1, 1), (0, 2)), ((0, 2), (1, 1)), ((1, 1), (0, 2), (2, 2))):
        for co in (F(1, 3), F(1, 5)):
            for k in ("r", "r'"):
                for surf in (False, True):
                    out.append(O.Op(f"sum {pols} {co} {k} {surf}", lambda a, pols=pols, co=co, k=k: {"co": a.lst([c(co * (i + 1)) for i in range(len(pols))]), "pols": tuple(a.zp(*x) for x in pols), "r": vals[k](a), "t": ang[k](a)},
                                    lambda a, d, surf=surf: a.m(a.g("ZernPol"), "sum_zernikes", d["co"], d["pols"], d["r"], d["t"], get_surface=surf), ("sum",)))
    for st, ts in ((F(1, 4), F(1)), (F(1, 2), F(1)), (F(1, 4), F(2))):
        out.append(O.Op(f"gen_polar_coordinates {st} {ts}", lambda a: {}, lambda a, d, st=st, ts=ts: real_mesh(a, "gen_polar_coordinates", c(st), c(ts)), ("mesh",)))
    for n in (4, 5, 7):
        out.append(O.Op(f"gen_equal_polar_mesh {n}", lambda a: {}, lambda a, d, n=n: real_mesh(a, "gen_equal_polar_mesh", n), ("mesh",)))
    for n in (1, 2, 3, 4, 5):
        out.append(O.Op(f"generate_polynomials {n}", lambda a: {}, lambda a, d, n=n: a.call(a.g("generate_polynomials"), n), ("poly",)))
    # kernels: one parameter at a time
    base = dict(pols=((1, 3),), co=F(1, 25), na=F(2, 5), wl=F(1, 2), px=F(1, 10), size=3, nr=2, nphi=4, norm=False, acc=False)
    var = [{}, {"pols": ((-1, 3),)}, {"pols": ((1, 1),)}, {"co": F(1, 20)}, {"na": F(3, 10)}, {"wl": F(3, 5)}, {"px": F(1, 8)}, {"size": 5}, {"nr": 3}, {"nphi": 6}, {"norm": True}, {"acc": True}, {"acc": None},
           {"pols": ((0, 0),)}, {"pols": ((0, 0),), "na": F(3, 10)}, {"pols": ((0, 0),), "px": F(1, 8)}, {"pols": ((0, 0),), "wl": F(3, 5)}, {"pols": ((0, 0),), "size": 5}]
    two = ((0, 2), (-1, 1))
    var += [dict(v, pols=v.get("pols", two) if v.get("pols", ())[1:] else two) for v in ({}, {"pols": ((-1, 1), (0, 2))}, {"pols": ((0, 2), (1, 1))}, {"co": F(1, 20)}, {"na": F(3, 10)}, {"wl": F(3, 5)}, {"px": F(1, 8)}, {"nr": 3}, {"nphi": 6}, {"norm": True}, {"acc": True})]
    for v in var:
        q = dict(base, **v)
        out.append(O.Op(f"kernel {v}", lambda a: {}, lambda a, d, q=q: kern(a, q), ("kernel",)))
    for v in ({}, {"pols": ((-1, 3),)}, {"co": F(1, 20)}, {"na": F(3, 10)}, {"wl": F(3, 5)}, {"nr": 3}, {"nphi": 6}):
        q = dict(base, **v)
        out.append(O.Op(f"kernel parallel {v}", lambda a: {}, lambda a, d, q=q: kern(a, q, True), ("kernel",)))
    for tag in ("ia", "ib"):
        for kt in ("ka", "kb"):
            for sc in (True, False):
                out.append(O.Op(f"convolute {tag} {kt} {sc}", lambda a: {}, lambda a, d, tag=tag, kt=kt, sc=sc: convo(a, tag, kt, sc), ("conv",)))
    for rad in (F(1), F(3, 2), F(2)):
        for mi in (255, 300):
            out.append(O.Op(f"bumped circle {rad} {mi}", lambda a: {}, lambda a, d, rad=rad, mi=mi: a.call(a.sub("calculations.calc_psfs", "get_bumped_circle"), c(rad), mi), ("conv",)))
    for part in (F(1, 100), F(1, 5), F(49, 100)):
        out.append(O.Op(f"crop {part}", O.psf_make(((1, 3),), "single", "scalar"), lambda a, d, part=part: O.crop(a, d, part), ("psf",)))
    for n, rad, strict, tag in ((5, F(1), False, "ia"), (5, F(1), False, "ib"), (5, F(3, 4), False, "ia"), (5, F(1), True, "ia"), (6, F(1), False, "ia")):
        for pols in (((1, 1), (0, 2)), ((0, 2), (1, 1))):
            out.append(O.Op(f"fit {n} {rad} {strict} {tag} {pols}", lambda a, n=n, tag=tag, pols=pols: {"img": O.img(a, n, n, "h" + tag + str(n)), "pols": tuple(a.zp(*x) for x in pols)},
                            lambda a, d, rad=rad, strict=strict: fitmat(a, d, rad, strict), ("fit",)))
    for w, h in ((4, 3), (3, 4), (5, 5)):
        for co in (F(1, 2), F(1, 3)):
            out.append(O.Op(f"phases image {w} {h} {co}", lambda a, co=co: {"pols": (a.zp(1, 1), a.zp(0, 2)), "co": (c(co), c(1))},
                            lambda a, d, w=w, h=h: a.call(a.g("generate_phases_image"), d["pols"], d["co"], w, h), ("fit",)))
    return out


def a_arr(es):
    return lambda a: a.arr(es)


def real_mesh(a, name, *args):
    h = dict(a.it.call_hooks)
    a.it.call_hooks.clear()
    try:
        return a.m(a.g("ZernPol"), name, *args)
    finally:
        a.it.call_hooks.update(h)


def mkpsf(a, q):
    zs = [a.zp(*x) for x in q["pols"]]
    z = a.new("ZernPSF", zernpol=zs[0] if len(zs) == 1 else tuple(zs))
    params(a, z, q)
    return z


def params(a, z, q):
    cs = [c(q["co"] / (i + 1)) for i in range(len(q["pols"]))]
    a.m(z, "set_physical_props", NA=c(q["na"]), wavelength=c(q["wl"]), expansion_coeff=cs[0] if len(cs) == 1 else a.lst(cs), pixel_physical_size=c(q["px"]))
    O.small(a, z, q["size"], q["nr"], q["nphi"])


def kern(a, q, par=False, z=None):
    z = z or mkpsf(a, q)
    if par:
        return a.m(z, "get_kernel_parallel", normalize_values=q["norm"])
    return a.m(z, "calculate_psf_kernel", normalized=q["norm"], accelerated=q["acc"], suppress_warnings=True)


def convo(a, tag, kt, sc):
    z = a.new("ZernPSF", zernpol=a.zp(1, 1))
    a.it.setattr(z, "kernel", O.img(a, 3, 3, "h" + kt))
    return a.m(z, "convolute_img", O.img(a, 4, 4, "hc" + tag), sc)


def fitmat(a, d, rad, strict):
    """The problem handed to the solver and its answer."""
    s = a.it.ext_hooks["numpy.linalg.lstsq"]
    k = len(s.calls)
    r = a.call(a.g("fit_polynomials"), d["img"], d["pols"], crop_radius=c(rad), suppress_warnings=True, strict_circle_border=strict, return_cropped_image=True)
    return [r] + [(str(x[0]), tuple(Num(e, "float") for e in x[1]), tuple(Num(e, "float") for e in x[2])) for x in s.calls[k:]]


def attempt(a, o):
    a.it.counter = 0
    try:
        return ("value", o.run(a, o.make(a)))
    except PyRaise as e:
        return ("raise", e.exc.name)


def selection():
    ops = [o for o in O.all_ops() if "big" not in o.tags]
    return ops + variants()


def cold(a, ops):
    """Values in the state after import (only operations with a single trace take part in histories)."""
    res = {}
    for i, o in enumerate(ops):
        ps = a.run(lambda it: attempt(a, o), 8)
        ok = [p for p in ps if not p.error]
        if len(ps) == 1 and ok and ok[0].exc is None:
            res[i] = (ps[0].result[0], O.canon(a, ps[0].result[1]))
    return res


def history(a, item):
    """All operations one after another (with overwriting of everything returned), then again the chosen ones."""
    order, part, parts = item
    O.hooks(a)
    O.small_mesh(a)
    ops = selection()
    idx = [i for i in range(len(ops)) if not (ops[i].tags & {"random"})]
    if order == "reverse":
        idx = idx[::-1]
    elif order == "shuffled":
        idx = [idx[(k * 617) % len(idx)] for k in range(len(idx))] if len(idx) % 617 else idx[1::2] + idx[::2]
    mine = [i for i in idx if i % parts == part]
    base = cold(a, [ops[i] for i in mine])
    base = {mine[k]: v for k, v in base.items()}
    hist = [i for i in idx if not skip(ops[i], order, part)]
    box = {}

    def drv(it):
        out = {}
        for i in hist:
            if i in base or single(ops[i]):
                r = attempt(a, ops[i])
                O.spoil(a, r[1])
        for i in mine:
            if i in base:
                r = attempt(a, ops[i])
                out[i] = (r[0], O.canon(a, r[1]))
                O.spoil(a, r[1])
        return out
    ps = a.run(drv, 40)
    good = [p for p in ps if not p.error]
    if not good or good[0].exc is not None:
        return a.undecided("history", order, (ps[0].error or repr(ps[0].exc)) if ps else "no trace")
    p = good[0]
    for i, v in p.result.items():
        d = O.same(a, p, base[i], v)
        a.expect(d is None, "history", f"{ops[i].name}", f"after other operations ({order} order): {d}", a.path_where(p))


def single(o):
    return "random" not in o.tags and o.name != "force_get_psf_compilation True" and "verbose=True" not in o.name and "plot_kernel" not in o.name and "visualize" not in o.name


def skip(o, order, part):
    return "big" in o.tags


# ---------------------------------------------------------------- histories of one object
BASE = dict(pols=((1, 3),), co=F(1, 25), na=F(2, 5), wl=F(1, 2), px=F(1, 10), size=3, nr=2, nphi=4, norm=False, acc=False)
PRIOR = {
    "other parameters": lambda a, z, q: params(a, z, dict(q, na=F(3, 10), wl=F(7, 10), px=F(1, 6), co=F(1, 60), size=5, nr=3, nphi=6)),
    "ordinary kernel": lambda a, z, q: kern(a, dict(q, acc=False, norm=True), z=z),
    "compiled kernel": lambda a, z, q: kern(a, dict(q, acc=True), z=z),
    "convolution": lambda a, z, q: (O.kernelset(a, z, 3), a.m(z, "convolute_img", O.img(a, 4, 4, "hq"))),
    "crop": lambda a, z, q: (O.kernelset(a, z), a.m(z, "crop_kernel")),
    "saved": lambda a, z, q: (a.it.fs.update({"/": "dir", "/cwd": "dir", "/data": "dir"}), a.m(z, "save_json", "/data")),
    "rejected physical parameters": lambda a, z, q: rejected(a, lambda: a.m(z, "set_physical_props", NA=c(3), wavelength=c(2), expansion_coeff=c(1), pixel_physical_size=c(F(1, 8)))),
    "rejected calculation parameters": lambda a, z, q: rejected(a, lambda: a.m(z, "set_calculation_props", kernel_size=1, n_integration_points_r=20, n_integration_points_phi=36)),
    "calculation parameters": lambda a, z, q: a.m(z, "set_calculation_props", kernel_size=7, n_integration_points_r=40, n_integration_points_phi=40),
    "worker-pool kernel": lambda a, z, q: kern(a, q, True, z) if len(q["pols"]) == 1 else None,
}


def rejected(a, f):
    try:
        f()
    except PyRaise:
        pass


def reuse(a, item):
    q, prior = item
    O.hooks(a)
    inst = f"kernel of {q['pols']} (accelerated={q['acc']}) after {' + '.join(prior)}"

    def drv(it):
        k0 = O.canon(a, kern(a, q))
        z = mkpsf(a, dict(q, na=F(1, 2), co=F(1, 30)))
        for s in prior:
            PRIOR[s](a, z, q)
        params(a, z, q)
        k1 = O.canon(a, kern(a, q, z=z))
        k2 = O.canon(a, kern(a, q, z=z))
        return k0, k1, k2
    for p in a.one(drv, "reuse", inst, 40):
        if p.exc is not None:
            a.bad("reuse", inst, f"raises {p.exc!r}", a.path_where(p))
            continue
        for k in p.result[1:]:
            d = O.same(a, p, p.result[0], k)
            a.expect(d is None, "reuse", inst, f"{d}", a.path_where(p))


def polyreuse(a, mns):
    """One polynomial object evaluated many times."""
    for mn in mns:
        steps = [("radial", ("r",), {}), ("radial_dr", ("r",), {}), ("polynomial_value", ("r", "t"), {}), ("radial", ("s",), {}), ("triangular", ("t",), {}), ("triangular_dtheta", ("t",), {}),
                 ("polynomial_value", ("s", "u"), {}), ("radial", ("q",), {}), ("radial_dr", ("s",), {}), ("triangular", ("u",), {}), ("normf", (), {}), ("get_indices", (), {}), ("get_mn_orders", (), {})]
        if mn[1] <= 20:
            steps += [("radial", ("r",), {"use_exact_eq": True}), ("radial_dr", ("s",), {"use_exact_eq": True})]
        V = {"r": lambda: a.arr(O.RS[:3]), "q": lambda: a.arr(O.RS[3:6]), "s": lambda: Num(O.RS[1], "float"), "t": lambda: a.arr(O.TS[:3]), "u": lambda: Num(O.TS[1], "float")}

        def drv(it):
            fresh = [O.canon(a, a.m(a.zp(*mn), n, *[V[x]() for x in args], **kw)) for n, args, kw in steps]
            z = a.zp(*mn)
            out = []
            for rnd in range(2):
                for k, (n, args, kw) in enumerate(steps if rnd == 0 else steps[::-1]):
                    r = a.m(z, n, *[V[x]() for x in args], **kw)
                    out.append((k if rnd == 0 else len(steps) - 1 - k, O.canon(a, r)))
                    O.spoil(a, r)
            return fresh, out
        for p in a.one(drv, "object-history", mn, 16):
            if p.exc is not None:
                a.bad("object-history", f"ZernPol{mn}", f"raises {p.exc!r}", a.path_where(p))
                continue
            fresh, out = p.result
            for k, v in out:
                d = O.same(a, p, fresh[k], v)
                a.expect(d is None, "object-history", f"{steps[k][0]}({', '.join(steps[k][1])}{', exact' if steps[k][2] else ''}) of ZernPol{mn} evaluated repeatedly", f"{d}", a.path_where(p))


def allpolys(a, order):
    """All supported polynomials one after another in several orders: values don't depend on the order (caches stay filled)."""
    from .. import spec
    from ..ctx import A
    mns = spec.orders()
    seq = {"descending": mns[::-1], "by azimuthal order": sorted(mns, key=lambda x: (abs(x[0]), x[0], x[1])), "by azimuthal order, descending": sorted(mns, key=lambda x: (-abs(x[0]), x[0], -x[1])),
           "shuffled": [mns[(i * 1009 + 501) % len(mns)] for i in range(len(mns))], "derivatives first": mns, "exact equations first": mns, "twice": mns}
    lead = None
    for k, v in (("derivatives first, ", ("radial_dr", "radial")), ("all derivatives before, ", ("radial_dr",)), ("all values before, ", ("radial",))):
        if order.startswith(k):
            lead, seq = v, [x for x in seq[order[len(k):]] if x[1] <= 46]
            break
    else:
        seq = seq[order]

    def values(b, seq, spoil, first=("radial", "radial_dr"), exact=False):
        out = {}
        b.it.checkpoint()
        for mn in seq:
            for meth in first:
                if exact and mn[1] <= 38:
                    O.spoil(b, b.m(b.zp(*mn), meth, b.arr(O.RS[:1]), use_exact_eq=True))
                r = b.m(b.zp(*mn), meth, b.arr(O.RS[1:2]))
                out[mn, meth] = O.canon(b, r)
                if spoil:
                    O.spoil(b, r)
        return out
    a2 = A(missing=a.missing, tier=a.tier)
    box = {}

    def ref(it):
        box["ref"] = values(a2, mns, False)
        return None

    def drv(it):
        x = ("radial_dr", "radial") if order == "derivatives first" else lead or ("radial", "radial_dr")
        if lead is not None:
            v = values(a, seq, True, x)
            return v, values(a, seq, True, ("radial", "radial_dr"))
        v = values(a, seq, True, x, order == "exact equations first")
        return v, values(a, mns, True, x)
    pr = a2.run(ref, 4, keep_state=True)
    ps = a.run(drv, 4, keep_state=True)
    for p in pr + ps:
        if p.error or p.exc is not None:
            return a.undecided("order", order, p.error or repr(p.exc))
    for p in ps:
        for v in p.result:
            for k, x in v.items():
                d = O.same(a, p, box["ref"][k], x)
                a.expect(d is None, "order", f"{k[1]} of ZernPol{k[0]}", f"evaluated in the order '{order}': {d}", a.path_where(p))


def unit(a, item):
    {"a": allpolys, "h": history, "r": reuse, "p": polyreuse}[item[0]](a, item[1])


def check(tier):
    ck = Check("C11", tier,
               "All module-level, class-level, cached and default-argument state is part of the abstract heap. The value of every catalogue operation in the state after import is compared with its value after all other "
               "operations (in several orders), where everything returned is overwritten by the caller in between; the same for operations on one object.",
               12000, "other", ["histories composed of the operations listed in analyzer/props/ops.py and c11.py", "the kernel attribute shared with the value returned by the calculation of the same object is excluded"])
    parts = 4
    items = [("h", (o, i, parts)) for o in ("forward", "reverse") + (("shuffled",) if tier == "thorough" else ()) for i in range(parts)]
    qs = [dict(BASE), dict(BASE, acc=True), dict(BASE, pols=((0, 0),)), dict(BASE, pols=((0, 2), (-1, 1))), dict(BASE, pols=((0, 2), (-1, 1)), acc=True), dict(BASE, norm=True)]
    names = list(PRIOR)
    for q in qs:
        items += [("r", (q, (n,))) for n in names]
        items += [("r", (q, tuple(names[:5]))), ("r", (q, tuple(names[::-1])))]
    items += [("p", ORDERS[i::8]) for i in range(8)]
    items = [("a", o) for o in ("descending", "by azimuthal order", "by azimuthal order, descending", "shuffled", "derivatives first", "exact equations first", "twice", "derivatives first, descending",
                                "derivatives first, by azimuthal order, descending", "derivatives first, shuffled", "all derivatives before, descending", "all derivatives before, shuffled",
                                "all values before, descending", "all derivatives before, by azimuthal order, descending")] + items
    ck.units(unit, items)
    return ck.finish()
