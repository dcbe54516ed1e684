"""C04: every construction route leads to the same complete state; comparisons follow it."""
from ..ctx import Check, show
from ..values import Arr, Num, PyRaise
from .. import spec

N_ALIASES = ("n", "radial_order")
M_ALIASES = ("m", "l", "azimuthal_order", "angular_frequency")
I_ALIASES = {"osa": ("osa_index", "osa", "ansi_index", "ansi"), "noll": ("noll_index", "noll"), "fringe": ("fringe_index", "fringe")}
SPEC = {"osa": spec.osa, "noll": spec.noll, "fringe": spec.fringe}


def state(a, z):
    return (a.m(z, "get_indices"), a.m(z, "get_mn_orders"), a.m(z, "get_polynomial_name"), a.m(z, "get_polynomial_name", True))


def expected(m, n):
    return ((m, n), spec.osa(m, n), spec.noll(m, n), spec.fringe(m, n))


def judge(a, rule, inst, drv, m, n):
    for p in a.one(drv, rule, inst):
        if p.exc is not None:
            a.bad(rule, inst, f"raises {p.exc!r}", a.path_where(p))
            continue
        idx, mn = p.result[0], p.result[1]
        want = expected(m, n)
        ok = isinstance(idx, tuple) and len(idx) == 4 and tuple(idx[0]) == want[0] and tuple(idx[1:]) == want[1:] and tuple(mn) == (m, n)
        ok = ok and all(isinstance(x, int) for x in idx[1:])
        a.expect(ok, rule, inst, f"reports {idx!r}, {mn!r} instead of {want}", a.path_where(p))


def unit(a, item):
    kind, arg = item
    if kind == "orders":
        for m, n in arg:
            for i, ka in enumerate(N_ALIASES):
                for j, kb in enumerate(M_ALIASES):
                    if n > 6 and (i, j) != (n % 2, (n + m) // 2 % 4):
                        continue
                    for kw in ({kb: m, ka: n}, {ka: n, kb: m})[:2 if n < 3 else 1]:
                        judge(a, "orders-route", f"ZernPol({', '.join(f'{k}={v}' for k, v in kw.items())})",
                              lambda it: state(a, a.new("ZernPol", **kw)), m, n)
    elif kind == "index":
        which, pairs = arg
        for c, (m, n) in enumerate(pairs):
            k = SPEC[which](m, n)
            al = I_ALIASES[which]
            for i, key in enumerate(al):
                if n > 5 and i != c % len(al):
                    continue
                judge(a, "index-route", f"ZernPol({key}={k})", lambda it: state(a, a.new("ZernPol", **{key: k})), m, n)
    elif kind == "compare":
        import itertools
        ps_ = spec.orders(6) + [(54, 54), (-54, 54), (0, 54), (1, 41)]
        for (m1, n1), (m2, n2) in itertools.islice(itertools.product(ps_, ps_), arg, None, 8):
            def drv(it):
                z1, z2 = a.zp(m1, n1), a.new("ZernPol", noll=spec.noll(m2, n2))
                c = lambda op, x, y: it.truth(it.compare(op, x, y))
                return c("Eq", z1, z2), c("NotEq", z1, z2), c("Gt", z1, z2), c("Lt", z1, z2)
            inst = f"({m1},{n1}) vs ({m2},{n2})"
            o1, o2 = spec.osa(m1, n1), spec.osa(m2, n2)
            for p in a.one(drv, "compare", inst):
                a.expect(p.exc is None and tuple(p.result) == (o1 == o2, o1 != o2, o1 > o2, o1 < o2), "compare", inst,
                         f"==, !=, >, < give {p.exc or p.result!r}", a.path_where(p))
    elif kind == "other":
        for nm, v in {"int": 3, "str": "x", "None": None, "tuple": (0, 0)}.items():
            for op in ("Eq", "Gt"):
                def drv(it):
                    return it.compare(op, a.zp(0, 2), v)
                for p in a.one(drv, "foreign", f"{op} {nm}"):
                    a.expect(p.exc is not None and p.exc.name == "ValueError", "foreign", f"ZernPol {op} {nm}",
                             f"gives {p.exc or p.result!r} instead of ValueError", a.path_where(p))
        # generated sets: complete, in the order of OSA index
        for mo in (0, 1, 2, 5, 12):
            def drv(it):
                r = a.call(a.g("generate_polynomials"), mo)
                return type(r), [a.m(z, "get_indices") for z in r]
            want = [expected(m, n) for m, n in spec.orders(mo)]
            for p in a.one(drv, "generate", f"max_order={mo}"):
                ok = p.exc is None and p.result[0] is tuple and [tuple(x) for x in p.result[1]] == want
                a.expect(ok, "generate", f"generate_polynomials({mo})", f"gives {p.exc or p.result[1]!r}"[:400], a.path_where(p))
        for v, nm in ((-1, "-1"),):
            for p in a.one(lambda it: a.call(a.g("generate_polynomials"), v), "generate", nm):
                a.expect(p.exc is not None and p.exc.name == "ValueError", "generate", f"generate_polynomials({nm})",
                         f"gives {p.exc or p.result!r}"[:200], a.path_where(p))


def check(tier):
    ck = Check("C04", tier, "value-flow of all construction routes (orders and index aliases) to the state reported by get_indices / "
               "get_mn_orders for the admissible orders; comparison operators and generate_polynomials over these states", 4000)
    o = spec.orders()
    items = [("orders", o[i::8]) for i in range(8)]
    for w in I_ALIASES:
        sel = o if tier == "thorough" else [x for i, x in enumerate(o) if i < 120 or i % 3 == 0 or abs(x[0]) == x[1]]
        items += [("index", (w, sel[i::6])) for i in range(6)]
    items += [("compare", i) for i in range(8)] + [("other", None)]
    ck.units(unit, items)
    return ck.finish()
