"""C32: what flows to the drawing calls of matplotlib."""
from fractions import Fraction as F

from .. import expr as X
from .. import spec
from ..ctx import Check, show
from ..expr import sym
from ..values import Arr, ExtRef, Num, Opaque, PyDict, PyList, PyRaise, SStr
from . import ops as O

c = O.c
DRAW2, DRAW3, IMG = ("pcolormesh", "pcolor", "contourf", "contour"), ("plot_surface", "plot_trisurf", "plot_wireframe", "scatter", "contour3D"), ("imshow", "matshow")
POLS = [(1, 3), (-2, 2), (0, 4), (0, 0), (3, 7), (-5, 5)]
CMAPS = ("coolwarm", "viridis", "jet")


def calls(a, p):
    """(method, receiver key, args, kw) of all calls to matplotlib on the trace."""
    out = []
    for e in p.events:
        if e.kind == "extcall" and str(e.data[0]).startswith("matplotlib"):
            out.append((e.data[0].rpartition(".")[2], "pyplot", e.data[1], e.data[2], e.loc))
        elif e.kind == "opaquecall" and isinstance(e.data[0], tuple) and e.data[0][:1] == ("attr",):
            out.append((e.data[0][2], e.data[0][1], e.data[1], e.data[2], e.loc))
    return out


def triples(a, xs, ys, z):
    """Points (X, Y, Z) in the meaning of matplotlib; None for inconsistent shapes."""
    if not (isinstance(xs, Arr) and isinstance(ys, Arr) and isinstance(z, Arr)) or len(z.shape) != 2:
        return None
    n, m = z.shape
    ex, ey, ez = a.els(xs), a.els(ys), a.els(z)

    def at(es, shape, i, j, axis):
        if len(shape) == 2 and tuple(shape) == (n, m):
            return es[i * m + j]
        if len(shape) == 1 and shape[0] == (m if axis == 0 else n):
            return es[j if axis == 0 else i]
        return None
    out = []
    for i in range(n):
        for j in range(m):
            t = (at(ex, xs.shape, i, j, 0), at(ey, ys.shape, i, j, 1), ez[i * m + j])
            if t[0] is None or t[1] is None:
                return None
            out.append(t)
    return out


def match(a, p, got, want):
    """Every wanted point is drawn once; None or a text."""
    if got is None:
        return "coordinates don't match the shape of the surface"
    if len(got) != len(want):
        return f"{len(got)} points instead of {len(want)}"
    free = list(got)
    for w in want:
        k = next((i for i, g in enumerate(free) if all(g[q].t == w[q].t for q in range(3))), None)
        if k is None:
            k = next((i for i, g in enumerate(free) if all(a.equal(p, g[q], w[q]) for q in range(3))), None)
        if k is None:
            return f"no point at ({show(w[0], 2)[:60]}, {show(w[1], 2)[:60]}) with the value {show(w[2], 2)[:80]}; drawn e.g. ({', '.join(show(q, 2)[:60] for q in free[0])})"
        free.pop(k)
    return None


def judge(a, p, inst, rs, ts, zs, three, cmap, title, bar, fig):
    """zs[k][l] - value at radius k and angle l."""
    w = a.path_where(p)
    if p.exc is not None:
        return a.bad("drawing", inst, f"raises {p.exc!r}", w)
    cs = calls(a, p)
    draws = [x for x in cs if x[0] in DRAW2 + DRAW3 + IMG]
    if len(draws) != 1 or draws[0][0] not in (DRAW3 if three else DRAW2):
        return a.bad("drawing", inst, f"drawing calls: {[x[0] for x in draws]}", w)
    nm, rec, args, kw, loc = draws[0]
    if len(args) < 3:
        return a.bad("drawing", inst, f"{nm} is called with {len(args)} arguments", loc)
    want = []
    for k, r in enumerate(rs):
        for j, t in enumerate(ts):
            want.append((X.mul(r, X.trig("cos", t)), X.mul(r, X.trig("sin", t)), zs[k][j]) if three else (t, r, zs[k][j]))
    d = match(a, p, triples(a, *args[:3]), want)
    a.expect(d is None, "roles", inst, f"{nm}: {d}", loc)
    if cmap is not None:
        g = kw.get("cmap")
        a.expect(g == cmap or (isinstance(g, ExtRef) and g.name.endswith("." + cmap)) or (isinstance(g, Opaque) and cmap in repr(g.key)), "colour map", inst, f"colour map is {g!r} instead of {cmap}", loc)
    proj = []
    for n2, _, a2, k2, l2 in cs:
        k2 = dict(k2)
        sk = k2.get("subplot_kw")
        if isinstance(sk, PyDict):
            k2.update({k: v for k, v in sk.d.values()})
        if n2 in ("add_subplot", "axes", "subplot", "subplots", "add_axes", "gca", "polar") or "projection" in k2:
            proj.append("polar" if k2.get("polar") is True or n2 == "polar" else k2.get("projection"))
    a.expect(("3d" if three else "polar") in proj and not [q for q in proj if q is not None and q != ("3d" if three else "polar")], "projection", inst, f"axes are created with the projections {proj}", w)
    if fig is not None:
        a.expect(p.result is fig["f"] or (isinstance(p.result, Opaque) and p.result.key == fig["f"].key), "returned figure", inst, f"returns {p.result!r}", w)
        a.expect("provided" in repr(rec), "provided figure", inst, f"drawn on {rec!r} and not on the provided figure", loc)
    if title is not None:
        ts_ = [x for x in cs if x[0] in ("title", "set_title", "suptitle")]
        txt = [x[2][0] if x[2] else x[3].get("label", x[3].get("t")) for x in ts_]
        if title == "":
            a.expect(all(t == "" for t in txt), "title", inst, f"title {txt} although none is requested", w)
        else:
            a.expect(title in txt, "title", inst, f"title is {txt} instead of {title!r}", w)
    if bar is not None:
        b = [x for x in cs if x[0] == "colorbar"]
        a.expect(bool(b) == bar, "range bar", inst, f"colour bar {'is' if b else 'is not'} drawn", w)


def coords(k, l):
    d, q = max(7, k), max(2, -(-l // 6))
    return [sym(f"pr{d}_{i}", F(i, d), F(i + 1, d)) for i in range(k)], [sym(f"pt{q}_{i}", F(i, q), F(i + 1, q)) for i in range(l)]


def meshes(a, rs, ts):
    def h(it, f, args, kw):
        return a.it.call(a.sub("zernikepol", "polar_vectors"), [a.arr(rs), a.arr(ts)], {})
    for q in ("ZernPol.gen_polar_coordinates", "ZernPol.gen_equal_polar_mesh"):
        a.it.call_hooks[q] = h
    return h(a.it, None, [], {})


def unit(a, item):
    kind, (k, l), arg = item
    rs, ts = coords(k, l)
    cl = a.g("ZernPol")
    if kind == "profile":
        mn, proj, dflt, title, cmap = arg
        inst = f"plot_profile of {mn}, {k}x{l} points, projection {proj}, {'default' if dflt else 'provided'} coordinates, title {title}, colour map {cmap}"

        def drv(it):
            pv = meshes(a, rs, ts)
            kw = {"projection": proj} if proj else {}
            if cmap:
                kw["color_map"] = cmap
            if not title:
                kw["show_title"] = False
            if not dflt:
                kw.update(use_defaults=False, polar_coordinates=pv)
            z = a.zp(*mn)
            drv.name = a.m(z, "get_polynomial_name")
            return a.m(cl, "plot_profile", z, **kw)
        zs = [[spec.zernike(*mn, r, t) for t in ts] for r in rs]
        three = bool(proj) and proj.lower() == "3d"
        for p in a.one(drv, "drawing", inst, 16):
            judge(a, p, inst, rs, ts, zs, three, cmap or "coolwarm", None if three else drv.name if title else "", None, None)
    elif kind == "sum":
        pols, proj, mode, bar, cmap = arg
        inst = f"plot_sum_zernikes_on_fig of {pols}, {k}x{l} points, projection {proj}, {mode}, range {bar}, colour map {cmap}"
        box = {}

        def drv(it):
            pv = meshes(a, rs, ts)
            kw = {"projection": proj} if proj else {}
            if cmap:
                kw["color_map"] = cmap
            if bar is not None:
                kw["show_range"] = bar
            box["f"] = O.fig(a)
            if mode == "surface":
                s = a.it.call(a.sub("zernikepol", "zernikes_surface"), [a.arr([sym(f"pz{i}", i, i + 1) for i in range(k * l)], (k, l)), a.at(pv, "R"), a.at(pv, "Theta")], {})
                return a.m(cl, "plot_sum_zernikes_on_fig", box["f"], use_defaults=False, zernikes_sum_surface=s, **kw)
            return a.m(cl, "plot_sum_zernikes_on_fig", box["f"], coefficients=a.lst([c(F(i + 1, 3)) for i in range(len(pols))]), polynomials=a.lst([a.zp(*x) for x in pols]), **kw)
        if mode == "surface":
            zs = [[sym(f"pz{i * l + j}", i * l + j, i * l + j + 1) for j in range(l)] for i in range(k)]
        else:
            zs = []
            for r in rs:
                row = []
                for t in ts:
                    e = X.ZERO
                    for i, mn in enumerate(pols):
                        e = X.add(e, X.scale(spec.zernike(*mn, r, t), F(i + 1, 3)))
                    row.append(e)
                zs.append(row)
        three = bool(proj) and proj.lower() == "3d"
        for p in a.one(drv, "drawing", inst, 16):
            judge(a, p, inst, rs, ts, zs, three, cmap or "coolwarm", None, True if bar is None else bar, box)
    elif kind == "helper":
        name, title, bar, cmap = arg
        f = a.sub("plotting.plot_zerns").vars.get(name)
        if f is None:
            return
        inst = f"{name}, {k}x{l} points, title {title!r}, range {bar}, colour map {cmap}"
        three = name.endswith("3d")
        box = {}

        def drv(it):
            kw = {"color_map": cmap} if cmap else {}
            if title is not None:
                kw["title"] = title
            if bar is not None:
                kw["show_range_colorbar"] = bar
            zz = a.arr([sym(f"pz{i}", i, i + 1) for i in range(k * l)], (k, l))
            if name.startswith("subplot"):
                box["f"] = O.fig(a)
                return a.call(f, box["f"], zz, a.arr(rs), a.arr(ts), **kw)
            return a.call(f, zz, a.arr(rs), a.arr(ts), **kw)
        zs = [[sym(f"pz{i * l + j}", i * l + j, i * l + j + 1) for j in range(l)] for i in range(k)]
        for p in a.one(drv, "drawing", inst, 16):
            if p.exc is not None and p.exc.name in ("TypeError", "AttributeError"):
                continue        # internal helper with another signature
            judge(a, p, inst, rs, ts, zs, three, cmap or "coolwarm", title, bar if name.startswith("subplot") else None, box if name.startswith("subplot") else None)
    elif kind == "pyramid":
        f = cl.lookup("_plot_zernikes_half_pyramid")
        if f is None:
            return

        def drv(it):
            meshes(a, rs, ts)
            return a.m(cl, "_plot_zernikes_half_pyramid")
        inst = "half pyramid"
        for p in a.one(drv, "drawing", inst, 16):
            if p.exc is not None:
                a.bad("drawing", inst, f"raises {p.exc!r}", a.path_where(p))
                continue
            draws = [x for x in calls(a, p) if x[0] in DRAW2]
            a.expect(len(draws) >= 20 and len({repr(x[1]) for x in draws}) == len(draws), "drawing", inst, f"{len(draws)} polynomials are drawn on {len({repr(x[1]) for x in draws})} axes", a.path_where(p))
            for i, x in enumerate(draws):
                mn = spec.orders()[i + 1]
                want = [(t, r, spec.zernike(*mn, r, t)) for r in rs for t in ts]
                d = match(a, p, triples(a, *x[2][:3]) if len(x[2]) > 2 else None, want)
                a.expect(d is None, "roles", f"{inst}: polynomial {mn}", f"{d}", x[4])
    elif kind == "kernel":
        pols, tag = arg
        inst = f"plot_kernel of {pols} {tag!r}"

        def drv(it):
            d = O.psf_make(pols, "single" if len(pols) == 1 else "tuple", "scalar" if len(pols) == 1 else "list")(a)
            z = O.ready(a, d)
            a.it.setattr(z, "kernel", a.arr([sym(f"pk{i}", 0, 1) for i in range(9)], (3, 3)))
            return a.m(z, "plot_kernel", *([tag] if tag is not None else []))
        for p in a.one(drv, "drawing", inst, 16):
            images(a, p, inst, [[sym(f"pk{i}", 0, 1) for i in range(9)]])
    elif kind == "convolution":
        pols, radius, mi = arg
        inst = f"visualize_convolution of {pols}, radius {radius}, intensity {mi}"

        def drv(it):
            O.hooks(a)
            d = O.psf_make(pols, "single", "scalar")(a)
            z = O.ready(a, d)
            O.kernelset(a, z, 3)
            im = a.call(a.sub("calculations.calc_psfs", "get_bumped_circle"), c(radius), mi)
            cv = a.m(z, "convolute_img", im)
            k = len(it.events)
            a.m(z, "visualize_convolution", c(radius), mi)
            return k, a.els(im), a.els(cv)
        for p in a.one(drv, "drawing", inst, 64):
            if p.exc is None:
                images(a, p, inst, list(p.result[1:]))
            else:
                a.bad("drawing", inst, f"raises {p.exc!r}", a.path_where(p))


def images(a, p, inst, want):
    w = a.path_where(p)
    if p.exc is not None:
        return a.bad("drawing", inst, f"raises {p.exc!r}", w)
    ims = [x for x in calls(a, p) if x[0] in IMG + DRAW2]
    if len(ims) != len(want) or any(not x[2] or not isinstance(x[2][0], Arr) for x in ims):
        return a.bad("drawing", inst, f"{len(ims)} images are drawn instead of {len(want)}", w)
    for i, (x, e) in enumerate(zip(ims, want)):
        g = a.els(x[2][0])
        ok = len(g) == len(e) and all(u.t == v.t or a.equal(p, u, v) for u, v in zip(g, e))
        a.expect(ok, "image", f"{inst}: image {i + 1}", "drawn values differ from the expected ones", x[4])


def check(tier):
    ck = Check("C32", tier,
               "Arguments flowing to the drawing calls of matplotlib are extracted for all options and compared point by point: (theta, r, value) for polar and (r cos theta, r sin theta, value) for 3D plots; colour map, "
               "projection, title, range bar and the returned figure follow the options; kernels and images are drawn unchanged.",
               250, "other", ["pcolormesh / plot_surface place Z[i, j] at X[j] (X[i, j]), Y[i] (Y[i, j])", "default coordinates are replaced by small symbolic ones (they are the subject of C15)"])
    items = []
    for i, mn in enumerate(POLS):
        for proj in (None, "2d", "3d", "3D", "2D"):
            for dflt in (True, False):
                items.append(("profile", (3, 4), (mn, proj, dflt, True, CMAPS[i % 3])))
        items.append(("profile", (3, 3), (mn, None, False, False, None)))
        items.append(("profile", (3, 3), (mn, "3d", False, True, None)))
        items.append(("profile", (4, 2), (mn, "2d", True, False, "jet")))
    for pols in (((1, 3),), ((0, 2), (-1, 1)), ((2, 2), (0, 0), (3, 3))):
        for proj in (None, "2d", "3d", "3D"):
            for mode in ("surface", "defaults"):
                for bar in (None, True, False):
                    items.append(("sum", (3, 4) if bar else (3, 3), (pols, proj, mode, bar, CMAPS[len(items) % 3] if bar is not None else None)))
    items += [("profile", sz, ((2, 2), proj, False, True, None)) for sz in ((12, 17), (20, 20), (17, 9)) for proj in ("2d", "3d")]
    items += [("sum", (14, 11), (((0, 2), (-1, 1)), proj, "surface", True, None)) for proj in (None, "3d")]
    for n in ("plot_sum_fig", "subplot_sum_on_fig", "plot_sum_fig_3d", "subplot_sum_on_fig_3d"):
        for size in ((3, 4), (4, 3), (3, 3)):
            for cm in (None, "viridis"):
                for bar in (True, False) if n.startswith("sub") else (None,):
                    for title in ("", "Some title") if n == "plot_sum_fig" else (None,):
                        items.append(("helper", size, (n, title, bar, cm)))
    for pols in (((1, 3),), ((0, 0),), ((0, 2), (-1, 1))):
        for tag in (None, "", "id"):
            items.append(("kernel", (0, 0), (pols, tag)))
    items.append(("pyramid", (2, 3), None))
    for r, mi in ((F(1), 255), (F(1), 300), (F(3, 2), 255)):
        items.append(("convolution", (0, 0), (((1, 3),), r, mi)))
    ck.units(unit, items)
    return ck.finish()
