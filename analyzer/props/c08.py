"""C08: the compiled calculation route flows to the same kernel as the ordinary one."""
from . import kernel as K
from .. import spec
from ..ctx import Check, show
from ..expr import sym
from ..values import Arr, Num


class Both:
    """Pair of traces: both sets of guards hold."""

    def __init__(self, p, q):
        self.conds = p.conds + q.conds
        self.over = p.over


def same(a, rule, inst, ps, qs):
    for p in ps:
        if p.exc is not None:
            a.bad(rule, inst, f"compiled mode raises {p.exc!r}", a.path_where(p))
            continue
        for q in qs:
            if q.exc is not None:
                a.bad(rule, inst, f"ordinary mode raises {q.exc!r}", a.path_where(q))
                continue
            v, w = p.result, q.result
            if not isinstance(v, Arr) or not isinstance(w, Arr) or v.shape != w.shape:
                a.bad(rule, inst, f"kernels are {getattr(v, 'shape', v)} and {getattr(w, 'shape', w)}", a.path_where(p))
                continue
            b = Both(p, q)
            bad = None
            for k, (x, y) in enumerate(zip(a.els(v), a.els(w))):
                if a.equal(b, x, y) is False:
                    bad = (k, x, y)
                    break
            if bad:
                k, x, y = bad
                a.bad(rule, inst, f"pixel {divmod(k, v.shape[1])}: compiled {show(x, 3)[:250]}, ordinary {show(y, 3)[:250]}", a.path_where(p))
            else:
                a.ok(rule, inst)


def unit(a, item):
    kind, arg = item
    if kind == "kernel":
        pols, size, nr, nphi, norm = arg
        inst = f"kernel of {pols}, size {size}, {nr} x {nphi} points{', normalised' if norm else ''}"
        go = lambda mode: a.one(lambda it: K.kernel(a, pols, size, nr, nphi, mode, normalized=norm), "modes-agree", inst)
        same(a, "modes-agree" + ("-several" if len(pols) > 1 else ""), inst, go("compiled"), go("ordinary"))
    elif kind == "auto":
        pols, size, nr, nphi = arg
        inst = f"default acceleration, kernel of {pols}"
        go = lambda mode: a.one(lambda it: K.kernel(a, pols, size, nr, nphi, mode, normalized=False), "default-mode", inst)
        same(a, "default-mode", inst, go("auto"), go("ordinary"))
    elif kind == "piece":       # polynomial values of the compiled code (also of orders that are reserved for it)
        f = a.sub("calculations.calc_psfs_numba").vars.get("zernpol_value")
        r, th = sym("c08_r", 0, 1), sym("c08_th", 0, 6)
        for mn in arg if f is not None else ():
            inst = f"zernpol_value{mn}"
            for p in a.one(lambda it: it.call(f, [mn, Num(r, "float"), Num(th, "float")], {}), "values-agree", inst):
                if p.exc is not None:
                    a.bad("values-agree", inst, f"raises {p.exc!r}", a.path_where(p))
                else:
                    a.expect(a.equal(p, a.e(p.result), spec.zernike(*mn, r, th)) is not False, "values-agree", inst, f"is {show(a.e(p.result), 4)[:200]}", a.path_where(p))
    elif kind == "reject":
        for pols in arg:
            inst = f"accelerated kernel of {pols}"
            for p in a.one(lambda it: K.kernel(a, pols, 3, 2, 2, "compiled", normalized=False), "unsupported-orders", inst):
                a.expect(p.exc is not None and p.exc.name == "ValueError", "unsupported-orders", inst,
                         f"gives {p.exc or 'a kernel'!r} instead of ValueError", a.path_where(p))


def check(tier):
    ck = Check("C08", tier, "value-flow of calculate_psf_kernel(accelerated=True) and (accelerated=False) to closed integration sums with symbolic "
               "optical parameters and amplitudes for every polynomial with n <= 10, sets of several polynomials, sizes and numbers of points; the "
               "two normal forms of each pixel are compared on every pair of traces; orders above 10 must raise ValueError in the accelerated mode", 90,
               assumptions=["JIT compilation by numba preserves the Python semantics of the decorated functions",
                            "float arithmetic is modelled by exact real arithmetic"])
    items = []
    pts = [(2, 4), (3, 4), (2, 6)]
    for i, mn in enumerate(o for o in spec.orders(10) if o != (0, 0)):
        for nr, nphi in (pts if tier == "thorough" else [pts[i % 3]]):
            items.append(("kernel", ((mn,), 3, nr, nphi, i % 4 == 0)))
    for i, ps in enumerate([((0, 2), (1, 3)), ((-2, 2), (0, 4), (3, 3)), ((0, 0), (-1, 3)), ((4, 4), (2, 2), (-3, 5), (0, 6)), ((-10, 10), (8, 10)),
                            ((3, 7), (-5, 9)), ((1, 1), (-1, 1), (0, 8)), ((0, 10), (-6, 8), (2, 2), (1, 5))]):
        items.append(("kernel", (ps, 3, 2 + i % 2, 4, i % 2 == 0)))
        items.append(("auto", (ps, 3, 2, 2)))
    for size in (4, 5, 7):
        items.append(("kernel", (((1, 3),), size, 2, 4, False)))
        items.append(("kernel", (((1, 3), (-2, 2)), size, 2, 4, False)))
    for nr, nphi in ((5, 12), (4, 3), (3, 5), (49, 2), (20, 36)):
        items.append(("kernel", (((2, 4),), 3, nr, nphi, False)))
    items += [("auto", (((1, 3),), 3, 3, 4)), ("auto", (((-4, 6),), 3, 3, 4))]
    hi = [o for o in spec.orders(54, 11)]
    sel = hi if tier == "thorough" else [o for o in hi if o[1] <= 13 or abs(o[0]) in (o[1], o[1] - 2) and o[1] % 7 == 0]
    pc = [o for o in spec.orders(10)] + [(s * m, n) for n in range(11, 55) for m in (n, n - 2) for s in (1, -1)]
    items += [("piece", pc[i::8]) for i in range(8)]
    items += [("reject", [((o),) for o in sel[i::6]]) for i in range(6)]
    items += [("reject", [((0, 2), (11, 11)), ((1, 11), (0, 2)), ((0, 2), (2, 2), (0, 12)), ((12, 14), (2, 4)), ((2, 2), (-10, 12), (0, 4))])]
    ck.units(unit, items)
    return ck.finish()
