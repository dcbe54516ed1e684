"""C27: cropping of phases images."""
from fractions import Fraction as F
import math

from ..ctx import Check, show
from ..expr import sym
from ..values import Arr, Num
from .. import expr as X
from .phases import crop_def, num


def pix(i, j):
    return sym(f"p{i}_{j}", 1 + i * 20 + j, 1 + i * 20 + j + F(1, 2))


def ipix(i, j):
    return sym(f"ip{i}_{j}", 10 * (1 + i * 20 + j), 10 * (1 + i * 20 + j) + 5, integer=True)


def unit(a, item):
    kind, arg = item
    f = a.sub("calculations.fit_zernike_pols", "crop_phases_img")
    fl = lambda v: Num(X.const(F(v)), "float")
    if kind == "crop":
        for rows, cols, part, strict, dt, sup in arg:
            inst = f"crop of {rows}x{cols} {dt} image, part {part}{', strict border' if strict else ''}"
            inside, border = crop_def(rows, cols, part, strict)
            es = [(pix if dt == "float64" else ipix)(i, j) for i in range(rows) for j in range(cols)]
            pos = {e: divmod(k, cols) for k, e in enumerate(es)}
            kw = {"crop_radius": fl(part) if part is not None else None, "suppress_warns": sup, "strict_border": strict}
            if part is None:
                kw.pop("crop_radius")
            for p in a.one(lambda it: it.call(f, [a.arr(es, (rows, cols), dt, "input:image")], dict(kw)), "crop", inst):
                w = a.path_where(p)
                if p.exc is not None:
                    a.bad("crop", inst, f"raises {p.exc!r}", w)
                    continue
                try:
                    mask, (ph, rr, tt) = p.result
                    ok = tuple(mask.shape) == (rows, cols) and len(ph.shape) == 1 and ph.shape == rr.shape == tt.shape
                except (TypeError, ValueError, AttributeError):
                    ok = False
                if not ok:
                    a.bad("crop", inst, f"gives {p.result!r}"[:300], w)
                    continue
                if sup:
                    a.expect(not p.warns(), "quiet", inst, "warns in spite of suppression", w)
                got = {}
                bad = None
                for k, (x, r, t) in enumerate(zip(a.els(ph), a.els(rr), a.els(tt))):
                    ij = pos.get(x)
                    if ij is None or ij in got:
                        bad = f"element {k} of phases flows from {show(x, 3)}, which isn't a pixel or is repeated"
                        break
                    got[ij] = (num(r), num(t))
                if bad is None:
                    miss = set(inside) - set(got) - border
                    extra = set(got) - set(inside) - border
                    if miss or extra:
                        bad = f"selected pixels differ from those inside of the circle: missing {sorted(miss)[:3]}, surplus {sorted(extra)[:3]}"
                if bad is None:
                    for ij, (r, t) in got.items():
                        if ij not in inside:
                            continue
                        d, th = inside[ij]
                        if abs(r - d) > 2.1e-4 or not 0 <= r <= 1:
                            bad = f"radius of pixel {ij} is {r} instead of {d:.5f}"
                        elif min(abs(t - th), 2 * math.pi - abs(t - th)) > 1e-6 or not 0 <= t < 2 * math.pi:
                            bad = f"angle of pixel {ij} is {t} instead of {th:.5f}"
                        if bad:
                            break
                a.expect(bad is None, "crop", inst, bad, w)
                ms = [num(e) for e in a.els(mask)]
                bad = next((divmod(k, cols) for k, v in enumerate(ms) if v != (1 if divmod(k, cols) in got else 0)), None)
                a.expect(bad is None, "mask", inst, f"mask in pixel {bad} is {bad and ms[bad[0] * cols + bad[1]]}", w)
                a.expect(ph.dtype == dt, "dtype", inst, f"phases have type {ph.dtype}", w)
    elif kind == "reject":
        im = lambda r=5, c=5: a.arr([pix(i, j) for i in range(r) for j in range(c)], (r, c), "float64")
        tiny = F(1, 1000)
        fns = [("crop_phases_img", lambda it, x, **kw: it.call(f, [x], kw)),
               ("fit_polynomials", lambda it, x, **kw: it.call(a.g("fit_polynomials"), [x, (a.zp(1, 1),)], kw))]
        for fn, go in fns:
            for lo, hi in ((None, F(1, 2) - tiny), (1 + tiny, None), (1 + tiny, F(11, 10)), (F(2, 5), F(1, 2) - tiny)):
                inst = f"{fn}: part of radius in [{lo and float(lo)}, {hi and float(hi)}]"
                for p in a.one(lambda it: go(it, im(), crop_radius=Num(sym(f"cr{lo}_{hi}", lo, hi), "float")), "reject", inst, 64):
                    a.expect(p.exc is not None and p.exc.name == "ValueError", "reject", inst, f"gives {p.exc or 'vectors'} instead of ValueError", a.path_where(p))
            for v in (0, 2, -1):
                inst = f"{fn}: part of radius {v} (int)"
                for p in a.one(lambda it: go(it, im(), crop_radius=v), "reject", inst, 64):
                    a.expect(p.exc is not None and p.exc.name == "ValueError", "reject", inst, f"gives {p.exc or 'vectors'} instead of ValueError", a.path_where(p))
            for r, c in ((1, 1), (2, 2), (1, 5), (5, 1), (2, 7), (9, 2), (2, 3), (3, 2)):
                inst = f"{fn}: {r}x{c} image"
                for p in a.one(lambda it: go(it, im(r, c)), "reject", inst, 64):
                    a.expect(p.exc is not None and p.exc.name == "ValueError", "reject", inst, f"gives {p.exc or 'vectors'} instead of ValueError", a.path_where(p))
            other = {"vector": lambda: a.arr([pix(0, j) for j in range(25)], (25,)), "3-D": lambda: a.arr([pix(0, j) for j in range(27)], (3, 3, 3)), "stack of one": lambda: a.arr([pix(0, j) for j in range(25)], (1, 5, 5)),
                     "list": lambda: a.lst([a.lst([fl(1)] * 5) for _ in range(5)]), "tuple": lambda: ((fl(1),) * 3,) * 3, "None": lambda: None, "number": lambda: fl(1), "string": lambda: "image"}
            for nm, mk in other.items():
                inst = f"{fn}: {nm} instead of image"
                for p in a.one(lambda it: go(it, mk()), "reject", inst, 64):
                    a.expect(p.exc is not None and p.exc.name == "ValueError", "reject", inst, f"gives {p.exc or 'vectors'} instead of ValueError", a.path_where(p))


def check(tier):
    ck = Check("C27", tier, "value-flow of crop_phases_img for images 3x3..9x9 with symbolic pixels, several parts of the radius, both border modes: each vector position "
               "is traced to its pixel and compared with radius / angle of this pixel; mask; guards over unbounded regions of the radius part and classes of images", 160,
               assumptions=["tolerance of the circle border is 0.001 (0.055 for not strict border of images with even sizes or sizes different by 1) and radii are rounded to 4 digits, as implemented"])
    sizes = [(r, c) for r in range(3, 10) for c in range(3, 10) if r == c or (r + c) % 3 == 0 or abs(r - c) == 1]
    if tier == "thorough":
        sizes = [(r, c) for r in range(3, 14) for c in range(3, 14)]
    jobs = []
    for k, (r, c) in enumerate(sizes):
        for strict in (False, True):
            for part in (1.0, (0.5, 0.62, 0.75, 0.81, 0.97)[k % 5]):
                jobs.append((r, c, part, strict, "float64", bool((k + strict) % 2)))
        jobs.append((r, c, (0.5, 0.7, 0.9)[k % 3], False, "float64", True))
    jobs += [(5, 5, 1.0, False, "int64", True), (4, 6, 1.0, False, "uint8", False), (5, 5, 1, False, "float64", True), (6, 6, 1.0, True, "int64", False)]
    jobs += [(r, c, p, st, "float64", p == 1.0) for r, c in ((31, 31), (40, 25), (24, 50), (36, 36), (21, 60)) for p, st in ((1.0, False), (0.8, True))]
    ck.units(unit, [("crop", jobs[i::12]) for i in range(12)] + [("reject", None)])
    return ck.finish()
