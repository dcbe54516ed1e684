"""C34: comparison, ordering and text of polynomials."""
from ..ctx import Check
from .. import spec

ROUTES = ("orders", "long", "osa", "noll", "fringe")


def make(a, mn, route):
    m, n = mn
    kw = {"orders": {"m": m, "n": n}, "long": {"azimuthal_order": m, "radial_order": n}, "osa": {"osa_index": spec.osa(m, n)},
          "noll": {"noll_index": spec.noll(m, n)}, "fringe": {"fringe_index": spec.fringe(m, n)}}[route]
    return a.new("ZernPol", **kw)


def unit(a, item):
    kind, arg = item
    it = a.it
    if kind == "pairs":
        for p1, r1, p2, r2 in arg:
            inst = f"ZernPol{p1} ({r1}) and ZernPol{p2} ({r2})"
            o1, o2 = spec.osa(*p1), spec.osa(*p2)

            def drv(it):
                x, y = make(a, p1, r1), make(a, p2, r2)
                res = [it.truth(it.compare(op, u, v)) for u, v in ((x, y), (y, x)) for op in ("Eq", "NotEq", "Gt", "Lt")]
                return res, a.m(x, "get_mn_orders"), a.m(y, "get_mn_orders")
            want = []
            for u, v in ((o1, o2), (o2, o1)):
                want += [u == v, u != v, u > v, u < v]
            for p in a.one(drv, "compare", inst):
                if p.exc is not None:
                    a.bad("compare", inst, f"raises {p.exc!r}", a.path_where(p))
                    continue
                names = [f"{q} {op} {s}" for q, s in (("first", "second"), ("second", "first")) for op in ("==", "!=", ">", "<")]
                bad = [f"{n} gives {g}" for n, g, w in zip(names, p.result[0], want) if bool(g) != w]
                a.expect(not bad, "compare", inst, "; ".join(bad), a.path_where(p))
                a.expect(p.result[1] == p1 and p.result[2] == p2, "unchanged", inst, f"orders after comparison are {p.result[1:]}", a.path_where(p))
    elif kind == "alien":
        for mn in ((0, 0), (1, 1), (-3, 7), (0, 54)):
            for nm, mk in (("int", lambda it: 4), ("0", lambda it: 0), ("None", lambda it: None), ("string", lambda it: "Z"), ("orders", lambda it: mn), ("list", lambda it: a.lst([a.zp(*mn)])),
                           ("tuple of ZernPol", lambda it: (a.zp(*mn),)), ("PSF", lambda it: a.new("ZernPSF", zernpol=a.zp(*(mn if mn[1] < 20 and mn != (0, 0) else (1, 1)))))):
                for op in ("Eq", "Gt"):
                    inst = f"ZernPol{mn} {op} {nm}"
                    for p in a.one(lambda it: it.compare(op, a.zp(*mn), mk(it)), "alien", inst):
                        a.expect(p.exc is not None and p.exc.name == "ValueError", "alien", inst, f"gives {p.exc or p.result!r} instead of ValueError", a.path_where(p))
    elif kind == "order":
        for pols in arg:
            inst = f"sequence of {pols}"

            def drv(it):
                from ..values import Builtin
                xs = a.lst([make(a, q, ROUTES[i % 2]) for i, q in enumerate(pols)])
                bi = lambda f, *v, **kw: it.call(Builtin(f), list(v), kw)
                s = bi("sorted", xs)
                s2 = bi("sorted", xs, reverse=True)
                g = lambda z: a.m(z, "get_mn_orders")
                i = len(pols) // 2
                probe = a.zp(*pols[i])
                other = next(q for q in spec.orders(8) if q not in pols)
                return ([g(z) for z in s.items], [g(z) for z in s2.items], g(bi("max", xs)), g(bi("min", xs)), it.truth(it.contains(xs, probe)), it.truth(it.contains(xs, a.zp(*other))))
            up = sorted(pols, key=lambda q: spec.osa(*q))
            for p in a.one(drv, "order", inst):
                if p.exc is not None:
                    a.bad("order", inst, f"raises {p.exc!r}", a.path_where(p))
                    continue
                a.expect(p.result == (up, up[::-1], up[-1], up[0], True, False), "order", inst, f"sorting, maximum, minimum, membership give {p.result}", a.path_where(p))
    elif kind == "text":
        for mn in arg:
            m, n = mn
            inst = f"str(ZernPol{mn})"

            def drv(it):
                z = a.zp(*mn)
                return it.to_str(z), a.m(z, "get_polynomial_name")
            for p in a.one(drv, "text", inst):
                if p.exc is not None:
                    a.bad("text", inst, f"raises {p.exc!r}", a.path_where(p))
                    continue
                st, name = p.result
                want = [f"n={n}", f"m={m}", f"OSA={spec.osa(m, n)}", f"Noll={spec.noll(m, n)}", f"Fringe={spec.fringe(m, n)}"]
                words = str(st).replace(",", " ").replace(":", " ").replace(";", " ").split()
                miss = [w for w in want if w not in words]
                a.expect(isinstance(st, str) and not miss and name in st, "text", inst, f"is {st!r}, without {', '.join(miss) or 'the name'}", a.path_where(p))


def check(tier):
    ck = Check("C34", tier, "comparison operators, sorting, membership and text of polynomials are interpreted for pairs of all 1540 polynomials (equal, neighbouring, mirrored, distant, "
               "created by different routes) and compared with the order of OSA indices; operands of other classes", 18000)
    o = spec.orders()
    pairs = []
    for i, q in enumerate(o):
        for j in {i, (i + 1) % len(o), (i + q[1] + 1) % len(o), (i + q[1] + 2) % len(o), (i * 37 + 11) % len(o), o.index((-q[0], q[1]))}:
            pairs.append((q, "orders", o[j], "long" if (i + j) % 2 else "orders"))
    small = [q for q in o if q[1] <= 9]
    for i, q in enumerate(small):
        for k, r in enumerate(("osa", "noll", "fringe")):
            pairs.append((q, r, q, ("noll", "fringe", "orders")[k]))
            pairs.append((q, r, small[(i * 5 + 3) % len(small)], ROUTES[(i + k) % 5]))
    if tier == "thorough":
        pairs += [(p, "orders", q, "orders") for p in small for q in small]
    seqs = [[o[(i * s + s) % 1540] for i in range(n)] for n, s in ((2, 7), (3, 101), (5, 13), (8, 211), (15, 17), (28, 3))]
    seqs += [[(0, 2), (-2, 2), (2, 2)], [(1, 1), (-1, 1), (0, 0)], [(3, 3), (0, 4), (-3, 3)], [(5, 5), (-6, 6)]]
    items = [("pairs", pairs[i::32]) for i in range(32)] + [("alien", None), ("order", seqs)] + [("text", o[i::8]) for i in range(8)]
    ck.units(unit, items)
    return ck.finish()
