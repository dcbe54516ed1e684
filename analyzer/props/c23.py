"""C23: cropping of kernels."""
from fractions import Fraction as F

from ..ctx import Check, env_of, cond_holds
from ..expr import sym
from ..values import Arr, Num, PyRaise
from .. import expr as X

S1, S2 = sym("s1", 0, F(9, 10)), sym("s2", 0, F(9, 10))
T = sym("t", F(1, 10**9), F(499999, 10**6))


def spec_steps(k, t):
    """Number of removed border rows / columns: whole rows and columns with values below t * max only."""
    n = len(k)
    lim = t * max(max(r) for r in k)
    d = 0
    while d < n:
        lines = [k[d], k[n - 1 - d], [r[d] for r in k], [r[n - 1 - d] for r in k]]
        if not all(max(q) < lim for q in lines):
            break
        d += 1
    return d


def build(n, vals, bg):
    k = [[X.const(bg) for _ in range(n)] for _ in range(n)]
    for (i, j), v in vals.items():
        k[i][j] = v if isinstance(v, X.E) else X.const(v)
    return k


def psf_with(a, k):
    z = a.new("ZernPSF", zernpol=a.zp(1, 3))
    n = len(k)
    arr = a.arr([v for r in k for v in r], (n, n), "float64")
    a.it.setattr(z, "kernel", arr)
    a.it.setattr(z, "kernel_size", n)
    return z


def judge(a, rule, inst, ps, k, pts):
    """pts: assignments of the free symbols; the result is compared with the specified one on each."""
    for vals in pts:
        env = env_of(vals)
        memo = {}
        num = [[X._r(X.evalE(v, env, memo)) for v in r] for r in k]
        t = X._r(X.evalE(T, env, memo))
        d = spec_steps(num, t)
        hit = [p for p in ps if cond_holds(p, env)]
        if not hit:
            a.undecided(rule, inst, "no trace covers the point")
        n = len(k)
        txt = f"{inst}, " + ", ".join(f"{x}={float(v):.9g}" for x, v in vals.items())
        for p in hit:
            if p.exc is not None:
                a.bad(rule, txt, f"raises {p.exc!r}", a.path_where(p))
                continue
            v, size = p.result
            if not isinstance(v, Arr) or tuple(v.shape) != (n - 2 * d, n - 2 * d):
                a.bad(rule, txt, f"gives kernel {getattr(v, 'shape', v)} instead of {(n - 2 * d, n - 2 * d)}", a.path_where(p))
                continue
            want = [x for r in k[d:n - d] for x in r[d:n - d]]
            ok = all(x.t == y.t or a.equal(p, x, y) is not False for x, y in zip(a.els(v), want))
            a.expect(ok, rule, txt, "remaining pixels differ from the central part of the kernel", a.path_where(p))
            a.expect(size == n - 2 * d, "size-consistent", txt, f"kernel size is {size!r} for the kernel of {n - 2 * d} pixels", a.path_where(p))


def unit(a, item):
    kind, arg = item
    if kind == "pattern":
        n, places, bg, peak = arg
        base = {peak: F(1)}
        for pl in places:
            vals = dict(base)
            syms = (S1, S2)
            for s, q in zip(syms, pl):
                vals[q] = s
            k = build(n, vals, bg)
            inst = f"kernel {n}x{n}, significant pixels {pl}, maximum in {peak}, background {float(bg)}"

            def drv(it):
                z = psf_with(a, k)
                a.m(z, "crop_kernel", min_part_of_max=Num(T, "float"))
                return a.at(z, "kernel"), a.at(z, "kernel_size")
            ps = a.one(drv, "crop", inst, 400)
            grid = [F(0), F(1, 1000), F(1, 100), F(1, 10), F(1, 4), F(2, 5), F(49, 100), F(4, 5)]
            ts = [F(1, 10**6), F(1, 1000), F(1, 100), F(3, 100), F(1, 10), F(1, 4), F(2, 5), F(49, 100)]
            pts = [{"s1": x, "t": t} for x in grid for t in ts] if len(pl) == 1 else [{"s1": x, "s2": y, "t": t} for x in grid[1::2] for y in grid[::2] for t in ts[1::2] + [F(1, 100)]]
            judge(a, "crop", inst, ps, k, pts)
    elif kind == "default":
        k = build(7, {(3, 3): F(1), (2, 3): F(1, 3), (1, 2): S1, (0, 6): S2}, F(0))

        def drv(it):
            z = psf_with(a, k)
            a.m(z, "crop_kernel")
            return a.at(z, "kernel"), a.at(z, "kernel_size")
        ps = a.one(drv, "crop-default", "default threshold 0.01", 200)
        judge(a, "crop-default", "default threshold", ps, k, [{"s1": x, "s2": y, "t": F(0.01)} for x in (F(0), F(9, 1000), F(11, 1000), F(1, 2)) for y in (F(0), F(9, 1000), F(11, 1000), F(1, 2))])
    elif kind == "zero":
        k = build(5, {}, F(0))
        for p in a.one(lambda it: (lambda z: (a.m(z, "crop_kernel", min_part_of_max=Num(T, "float")), a.at(z, "kernel"), a.at(z, "kernel_size")))(psf_with(a, k)), "zero", "all-zero kernel", 50):
            a.expect(p.exc is None and tuple(p.result[1].shape) == (5, 5) and p.result[2] == 5, "zero", "all-zero kernel", f"gives {p.exc or p.result!r}", a.path_where(p))
        for n in (1, 3):
            k = build(n, {(n // 2, n // 2): F(1)}, F(0))
            for p in a.one(lambda it: (lambda z: (a.m(z, "crop_kernel", min_part_of_max=Num(T, "float")), a.at(z, "kernel"), a.at(z, "kernel_size")))(psf_with(a, k)), "small", f"kernel {n}x{n}", 50):
                a.expect(p.exc is None and p.result[1].shape[0] == p.result[2] == p.result[1].shape[1] and p.result[2] in (1, 3), "small", f"kernel {n}x{n}", f"gives {p.exc or p.result!r}", a.path_where(p))
    elif kind == "guard":
        k = build(5, {(2, 2): F(1)}, F(1, 10**4))
        tiny = F(1, 10**9)
        for lo, hi in ((None, F(0)), (F(1, 2), None), (F(1, 2), F(1, 2) + tiny), (-tiny, F(0))):
            t = Num(sym(f"t{lo}{hi}", lo, hi), "float")

            def drv(it):
                z = psf_with(a, k)
                try:
                    a.m(z, "crop_kernel", min_part_of_max=t)
                    e = None
                except PyRaise as x:
                    e = x.exc
                return e, a.at(z, "kernel"), a.at(z, "kernel_size")
            inst = f"threshold in [{lo and float(lo)}, {hi and float(hi)}]"
            for p in a.one(drv, "guard", inst, 50):
                e = p.exc or p.result[0]
                a.expect(e is not None and e.name == "ValueError", "guard", inst, f"gives {e or 'cropping'} instead of ValueError", a.path_where(p))
                if p.exc is None:
                    a.expect(tuple(p.result[1].shape) == (5, 5) and p.result[2] == 5, "guard", inst, "kernel is changed by the rejected call", a.path_where(p))
        for v in (0, 1, -1):
            for p in a.one(lambda it: a.m(psf_with(a, k), "crop_kernel", min_part_of_max=v), "guard", f"threshold {v}", 50):
                a.expect(p.exc is not None and p.exc.name == "ValueError", "guard", f"threshold {v}", f"gives {p.exc or 'cropping'} instead of ValueError", a.path_where(p))
    elif kind == "twice":       # cropping is idempotent for the same threshold
        k = build(7, {(3, 3): F(1), (3, 2): F(1, 3), (1, 4): S1}, F(0))

        def drv(it):
            z = psf_with(a, k)
            a.m(z, "crop_kernel", min_part_of_max=Num(T, "float"))
            s1 = a.at(z, "kernel").shape
            a.m(z, "crop_kernel", min_part_of_max=Num(T, "float"))
            return s1, a.at(z, "kernel").shape, a.at(z, "kernel_size")
        for p in a.one(drv, "twice", "two crops", 400):
            a.expect(p.exc is None and p.result[0] == p.result[1] and p.result[2] == p.result[1][0], "twice", "two crops with the same threshold", f"{p.exc or p.result!r}", a.path_where(p))


def check(tier):
    ck = Check("C23", tier, "crop_kernel is interpreted on kernels with symbolic significant pixels in every border position, symbolic threshold, on odd sizes 5..9; "
               "number of removed lines, remaining pixels and kernel size on each trace are compared with the definition on representatives of all regions; "
               "guard over unbounded threshold regions", 4000, assumptions=["kernel values aren't negative or NaN", "kernels of 3 pixels and smaller aren't cropped"])
    items = []
    r5 = [(i, j) for i in range(5) for j in range(5) if (i, j) != (2, 2)]
    items += [("pattern", (5, [(q,) for q in r5[i::3]], F(0), (2, 2))) for i in range(3)]
    r7 = [(i, j) for i in range(7) for j in range(7) if (i, j) not in ((3, 3), (2, 4))]
    items += [("pattern", (7, [(q,) for q in r7[i::6]], F(0), (2, 4))) for i in range(6)]
    b7 = [(i, j) for i in range(7) for j in range(7) if i in (0, 6) or j in (0, 6)]
    i7 = [(i, j) for i in range(1, 6) for j in range(1, 6) if i in (1, 5) or j in (1, 5)]
    two = [(b, i7[(3 * x + 1) % len(i7)]) for x, b in enumerate(b7)]
    items += [("pattern", (7, two[i::6], F(1, 10**7), (3, 3))) for i in range(6)]
    if tier == "thorough":
        two = [(b, q) for b in b7 for q in i7]
        items += [("pattern", (7, two[i::32], F(0), (3, 3))) for i in range(32)]
    r9 = [((0, 4), (2, 4)), ((4, 8), (1, 1)), ((7, 7), (6, 2)), ((1, 8), (8, 1)), ((2, 2), (6, 6)), ((3, 4), (4, 3)), ((8, 0), (5, 7))]
    items += [("pattern", (9, r9[i::4], F(0), (4, 4))) for i in range(4)]
    for n, places in ((11, [((0, 3),), ((2, 9),), ((5, 10),), ((8, 1),), ((4, 4),)]), (25, [((0, 12),), ((20, 3),), ((11, 24),), ((9, 15),), ((24, 24),)]),
                      (51, [((25, 2),), ((7, 30),), ((24, 26),)])):
        items += [("pattern", (n, [q], F(0), (n // 2, n // 2))) for q in places]
    items += [("pattern", (5, [((0, 0), (1, 3)), ((4, 2), (3, 1))], F(0), (0, 4))), ("pattern", (5, [((1, 1), (3, 3)), ((2, 3), (3, 2))], F(1, 10**8), (1, 2)))]
    items += [("default", None), ("zero", None), ("guard", None), ("twice", None)]
    ck.units(unit, items)
    return ck.finish()
