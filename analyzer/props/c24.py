"""C24: convolution of images."""
from fractions import Fraction as F

from ..ctx import Check, show
from ..expr import sym
from ..values import Arr, Num
from .. import expr as X


def refl(i, n):
    while i < 0 or i >= n:
        i = -i - 1 if i < 0 else 2 * n - 1 - i
    return i


def conv(img, R, C, k, n):
    """Normalised convolution with reflecting borders (d c b a | a b c d | d c b a)."""
    s = X.ZERO
    for v in k:
        s = X.add(s, v)
    out = []
    c = n // 2
    for i in range(R):
        for j in range(C):
            t = X.ZERO
            for p in range(n):
                for q in range(n):
                    t = X.add(t, X.mul(k[p * n + q], img[refl(i - (p - c), R) * C + refl(j - (q - c), C)]))
            out.append(X.div(t, s))
    return out


def driver(a, img, shape, dt, ker, n, scale, via, default=False):
    def drv(it):
        im = a.arr(img, shape, dt, "input:img")
        k = a.arr(ker, (n, n), "float64", "input:kernel" if via == "function" else "local")
        if via == "function":
            return a.call(a.sub("calculations.calc_psfs", "convolute_img_psf"), im, k, **({} if default else {"scale2original": scale}))
        z = a.new("ZernPSF", zernpol=a.zp(1, 1))
        it.setattr(z, "kernel", k)
        it.setattr(z, "kernel_size", n)
        return a.m(z, "convolute_img", im, **({} if default else {"scale2original": scale}))
    return drv


def unit(a, item):
    kind, arg = item
    if kind == "value":
        shape, n, dt, scale, via, default = arg
        R, C = shape
        intt = not dt.startswith("float")
        img = [sym(f"i{i}_{j}", F(1 + i + 3 * j), F(2 + i + 3 * j), integer=False) if not intt else sym(f"n{i}_{j}", 10 * (1 + i + 3 * j), 10 * (1 + i + 3 * j) + 9, integer=True)
               for i in range(R) for j in range(C)]
        ker = [sym(f"k{n}_{i}", F(1 + i * 3 % 7, 20), F(2 + i * 3 % 7, 20)) for i in range(n * n)]
        inst = f"{via}: {dt} image {R}x{C}, kernel {n}x{n}, {'default' if default else ''} scale2original={scale}"
        base = conv(img, R, C, ker, n)
        if scale:
            mi, mc = X.fn("max", *img), X.fn("max", *base)
            base = [X.mul(v, X.div(mi, mc)) for v in base]
        for p in a.one(driver(a, img, shape, dt, ker, n, scale, via, default), "value", inst, 64):
            w = a.path_where(p)
            if p.exc is not None:
                a.bad("value", inst, f"raises {p.exc!r}", w)
                continue
            v = p.result
            if not isinstance(v, Arr) or tuple(v.shape) != shape:
                a.bad("shape", inst, f"gives {v!r}", w)
                continue
            a.expect(v.dtype == dt, "dtype", inst, f"data type is {v.dtype}", w)
            bad = None
            for k, (x, y) in enumerate(zip(a.els(v), base)):
                if not intt:
                    ok = a.equal(p, x, y) is not False
                else:       # nearest integer (truncation would be below by up to 1)
                    ok = a.equal(p, x, X.fn("round", y)) is not False
                if not ok:
                    bad = f"pixel {divmod(k, C)} flows to {show(x, 4)[:200]} instead of {show(y, 4)[:200]}"
                    break
            a.expect(bad is None, "value", inst, bad, w)
    elif kind == "scalefree":       # kernel scaled by a positive factor
        scale, via = arg
        s = sym("factor", F(1, 3), F(5))
        img = [sym(f"iq{k}", k, k + 1) for k in range(9)]
        ker = [sym(f"kq{i}", F(1 + i, 20), F(2 + i, 20)) for i in range(9)]
        ps = a.one(driver(a, img, (3, 3), "float64", ker, 3, scale, via), "factor", "kernel", 16)
        qs = a.one(driver(a, img, (3, 3), "float64", [X.mul(s, k) for k in ker], 3, scale, via), "factor", "scaled kernel", 16)
        from .c08 import Both
        for p in ps:
            for q in qs:
                inst = f"{via}: kernel and kernel * factor, scale2original={scale}"
                if p.exc or q.exc:
                    a.bad("factor", inst, f"raises {p.exc or q.exc!r}", a.path_where(q))
                    continue
                b = Both(p, q)
                a.expect(all(a.equal(b, x, y) is not False for x, y in zip(a.els(p.result), a.els(q.result))), "factor", inst, "results differ", a.path_where(q))
    elif kind == "special":
        ker = [sym(f"kq{i}", F(1 + i, 20), F(2 + i, 20)) for i in range(9)]
        v = sym("level", 1, 200)
        # the kernel with several pixels equal to 0 but positive sum, as PSF has
        kz = [X.ZERO if i % 2 else k for i, k in enumerate(ker)]
        for scale in (True, False):
            for via in ("function", "method"):
                for dt in ("float64", "uint8", "uint16", "float32"):
                    for kn, kk in (("kernel", ker), ("kernel with zeros", kz)):
                        inst = f"{via}: all-zero {dt} image, {kn}, scale2original={scale}"
                        for p in a.one(driver(a, [X.ZERO] * 12, (3, 4), dt, kk, 3, scale, via), "zero-image", inst):
                            ok = p.exc is None and isinstance(p.result, Arr) and tuple(p.result.shape) == (3, 4) and p.result.dtype == dt and all(not e.t for e in a.els(p.result))
                            a.expect(ok, "zero-image", inst, f"gives {p.exc or [show(e, 3) for e in a.els(p.result)][:3]} instead of zeros", a.path_where(p))
                inst = f"{via}: uniform image, scale2original={scale}"
                for p in a.one(driver(a, [v] * 12, (3, 4), "float64", ker, 3, scale, via), "uniform", inst):
                    ok = p.exc is None and all(a.equal(p, e, v) is not False for e in a.els(p.result))
                    a.expect(ok, "uniform", inst, f"gives {p.exc or show(a.els(p.result)[0], 5)} instead of the same image", a.path_where(p))


def check(tier):
    ck = Check("C24", tier, "value-flow of convolute_img_psf / ZernPSF.convolute_img with symbolic pixels and kernel values: normal forms of all pixels for images up to 5x4, "
               "kernels 1x1..5x5, four data types, both scaling options; all-zero and uniform images; kernel times symbolic factor", 60,
               assumptions=["scipy.ndimage.convolve is modelled by its documented definition", "images aren't negative", "float arithmetic is modelled by exact real arithmetic"])
    items = []
    for shape, n in (((3, 3), 3), ((2, 3), 3), ((4, 2), 3), ((3, 4), 1), ((4, 4), 5), ((1, 3), 3), ((5, 4), 3)):
        for scale in (True, False):
            for via in ("function", "method"):
                items.append(("value", (shape, n, "float64", scale, via, False)))
    for shape, n, vias in (((17, 9), 3, ("function", "method")), ((6, 23), 5, ("method",)), ((3, 3), 7, ("function",)), ((12, 12), 5, ("function",))):
        items += [("value", (shape, n, "float64", scale, via, False)) for scale in (True, False) for via in vias]
    items += [("value", ((40, 33), 3, "float64", False, "function", False)), ("value", ((11, 10), 3, "uint8", False, "function", False))]
    for dt in ("uint8", "uint16", "int32", "float32"):
        for scale in (True, False):
            items.append(("value", ((3, 2), 3, dt, scale, "function", False)))
    items += [("value", ((3, 3), 3, "float64", True, "method", True)), ("value", ((3, 3), 3, "float64", False, "function", True))]
    items += [("scalefree", (s, v)) for s in (True, False) for v in ("function", "method")] + [("special", None)]
    ck.units(unit, items)
    return ck.finish()
