"""C28: generated phases images."""
from fractions import Fraction as F
import itertools

from ..ctx import Check, show
from ..expr import sym
from ..values import Arr, Num
from .. import expr as X
from .. import spec
from .phases import image_pixel

C = [sym(f"am{i}", F(-3, 2), F(3, 2)) for i in range(6)]


def expected(w, h, cs, pols, digits=None):
    out = []
    for i in range(h):
        for j in range(w):
            q = image_pixel(i, j, w, h)
            s = X.ZERO
            if q is not None:
                for c, (m, n) in zip(cs, pols):
                    s = X.add(s, X.mul(c, spec.zernike(m, n, X.const(F(q[0])), X.const(F(q[1])))))
            out.append(s)
    return out


def judge(a, rule, inst, p, v, w, h, cs, pols):
    if not isinstance(v, Arr) or tuple(v.shape) != (h, w):
        return a.bad(rule, inst, f"image is {getattr(v, 'shape', v)} instead of {(h, w)}", a.path_where(p))
    for k, (x, y) in enumerate(zip(a.els(v), expected(w, h, cs, pols))):
        if (not y.t) != (not x.t) and image_pixel(*divmod(k, w), w, h) is None:
            return a.bad(rule, inst, f"pixel {divmod(k, w)} outside of the circle flows to {show(x, 4)[:200]}", a.path_where(p))
        if a.equal(p, x, y, 1e-9) is False:
            return a.bad(rule, inst, f"pixel {divmod(k, w)} flows to {show(x, 4)[:200]} instead of {show(y, 4)[:200]}", a.path_where(p))
    a.ok(rule, inst)


def unit(a, item):
    kind, arg = item
    if kind == "provided":
        w, h, cs, pols, form = arg
        inst = f"generate_phases_image {w}x{h} (width x height), {[show(c, 2) for c in cs]} * {pols}, {form}"

        def drv(it):
            zs = [a.zp(*x) for x in pols]
            ns = [Num(c, "float") for c in cs]
            kw = {"img_width": w, "img_height": h}
            if form == "list":
                return it.call(a.g("generate_phases_image"), [a.lst(zs, "input"), a.lst(ns, "input")], kw)
            if form == "positional":
                return it.call(a.g("generate_phases_image"), [tuple(zs), tuple(ns), w, h], {})
            if form == "array":
                return it.call(a.g("generate_phases_image"), [tuple(zs), a.arr(cs, (len(cs),), "float64", "input")], kw)
            return it.call(a.g("generate_phases_image"), [], {"polynomials": tuple(zs), "polynomials_amplitudes": tuple(ns), **kw})
        for p in a.one(drv, "provided", inst, 64):
            if p.exc is not None:
                a.bad("provided", inst, f"raises {p.exc!r}", a.path_where(p))
            else:
                judge(a, "provided", inst, p, p.result, w, h, cs, pols)
    elif kind == "random":
        w, h, order, bits, digits = arg
        inst = f"generate_random_phases {w}x{h}, order {order}, selected {bits}, digits {digits}"
        cnt = [0]

        def hook(it, xs):
            if all(isinstance(x, bool) for x in xs):
                k = cnt[0]
                cnt[0] += 1
                want = bool(bits[k % len(bits)])
                return want if want in xs else xs[0]
            return xs[min(1, len(xs) - 1)]

        def drv(it):
            cnt[0] = 0
            it.choice_hook = hook
            kw = {"max_order": order, "img_width": w, "img_height": h}
            if digits is not None:
                kw["round_digits"] = digits
            r = it.call(a.g("generate_random_phases"), [], kw)
            img, am, pols = r
            # the same image from the generator with provided amplitudes
            im2 = it.call(a.g("generate_phases_image"), [pols, am], {"img_width": w, "img_height": h})
            return img, am, [a.m(z, "get_mn_orders") for z in getattr(pols, "items", pols)], im2
        for p in a.one(drv, "random", inst, 200):
            if p.exc is not None:
                a.bad("random", inst, f"raises {p.exc!r}", a.path_where(p))
                continue
            img, am, orders, im2 = p.result
            want = spec.orders(order)
            if orders != want:
                a.bad("random-pols", inst, f"polynomials are {orders[:6]}.. instead of all up to order {order}", a.path_where(p))
                continue
            a.ok("random-pols", inst)
            cs = a.els(am) if isinstance(am, Arr) else [a.e(x) for x in getattr(am, "items", am)]
            if len(cs) != len(orders):
                a.bad("random-ampl", inst, f"{len(cs)} amplitudes for {len(orders)} polynomials", a.path_where(p))
                continue
            judge(a, "random", inst, p, img, w, h, cs, orders)
            judge(a, "random-provided", inst, p, im2, w, h, cs, orders)
            a.expect(any(c.t for c in cs), "random-nonzero", inst, "all amplitudes are zero", a.path_where(p))


def check(tier):
    ck = Check("C28", tier, "value-flow of generate_phases_image and generate_random_phases with symbolic (also zero) amplitudes: normal form of every pixel of images 3x3..8x7 "
               "compared with the sum of polynomials in the polar coordinates of this pixel, zero outside of the circle; random choices enumerated by patterns", 90,
               assumptions=["the circle of generated images has the radius 1 + min(width, height)//2 and the centre (height//2, width//2), as implemented", "random numbers are free symbols"])
    items = []
    sets = [(C[:2], ((1, 1), (-1, 1)), "keywords"), ([C[0], X.ZERO, C[2]], ((0, 2), (1, 1), (-3, 3)), "list"), ([X.ZERO, C[1]], ((2, 2), (-2, 4)), "positional"), (C[:3], ((0, 0), (-2, 2), (1, 3)), "array")]
    sizes = [(3, 3), (4, 4), (5, 5), (3, 5), (5, 3), (6, 4), (4, 7), (7, 7), (8, 7), (6, 6), (8, 3), (3, 8), (9, 4), (17, 16), (11, 30)]
    for k, (w, h) in enumerate(sizes):
        for s in ((k % 4, (k + 1) % 4) if tier != "thorough" else range(4)):
            items.append(("provided", (w, h, *sets[s])))
    for (w, h), order, bits, digits in (((3, 3), 1, (1, 1, 1), None), ((5, 4), 1, (0, 1, 1), 2), ((4, 6), 1, (0, 0, 0), None), ((4, 5), 2, (0, 1, 1, 0, 0, 1), None), ((3, 4), 2, (1, 0, 0, 0, 0, 0), 1), ((12, 15), 2, (1, 0, 0, 1, 1, 0), 3),
                                        ((4, 3), 3, (0, 0, 1), None), ((3, 3), 5, (0, 0, 0, 0, 1, 0, 0), None), ((3, 3), 9, (0,) * 20 + (1,) + (0,) * 33 + (1,), None)):
        items.append(("random", (w, h, order, bits, digits)))
    ck.units(unit, items)
    return ck.finish()
