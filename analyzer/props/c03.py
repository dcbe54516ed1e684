"""C03: inversion of the numberings (index -> orders -> index)."""
from ..ctx import Check, show
from ..expr import sym
from ..values import Num
from .. import spec
from .. import expr as X

SPEC = {"osa_index": spec.osa, "noll_index": spec.noll, "fringe_index": spec.fringe}
BY = {"osa_index": ("osa2noll", spec.noll, "osa2fringe", spec.fringe), "noll_index": ("noll2osa", spec.osa),
      "fringe_index": ("fringe2osa", spec.osa)}


def unit(a, item):
    kind, arg = item
    Z = a.g("ZernPol")
    if kind == "inv":
        key, pairs = arg
        f = a.at(Z, "index2orders")
        for m, n in pairs:
            k = SPEC[key](m, n)
            inst = f"index2orders({key}={k})"
            for p in a.one(lambda it: a.call(f, **{key: k}), "inverse-" + key, inst):
                a.expect(p.exc is None and isinstance(p.result, tuple) and tuple(p.result) == (m, n), "inverse-" + key, inst,
                         f"gives {p.exc or p.result!r} instead of (m, n) = {(m, n)}", a.path_where(p))
    elif kind == "conv":
        key, pairs, fs = arg
        for m, n in pairs:
            k = SPEC[key](m, n)
            for name, sp in fs:
                inst = f"{name}({k})"
                for p in a.one(lambda it: a.call(a.at(Z, name), k), "conversion-" + name, inst):
                    ok = p.exc is None and isinstance(p.result, int) and p.result == sp(m, n)
                    a.expect(ok, "conversion-" + name, inst, f"gives {p.exc or p.result!r} instead of {sp(m, n)}", a.path_where(p))
    elif kind == "chain":
        for m, n in arg:
            for f1, f2, sp in (("osa2noll", "noll2osa", spec.osa), ("noll2osa", "osa2noll", spec.noll),
                               ("osa2fringe", "fringe2osa", spec.osa), ("fringe2osa", "osa2fringe", spec.fringe)):
                k = sp(m, n)
                inst = f"{f2}({f1}({k}))"
                for p in a.one(lambda it: a.call(a.at(Z, f2), a.call(a.at(Z, f1), k)), "round-trip", inst):
                    a.expect(p.exc is None and p.result == k, "round-trip", inst, f"gives {p.exc or p.result!r}", a.path_where(p))
            # the index getter's own results have to be accepted as well
            for g, f2, key in (("get_osa_index", "osa2noll", "osa_index"), ("get_noll_index", "noll2osa", "noll_index"),
                               ("get_fringe_index", "fringe2osa", "fringe_index")):
                inst = f"{f2}({g}({m}, {n}))"
                for p in a.one(lambda it: a.call(a.at(Z, f2), a.call(a.at(Z, g), m, n)), "getter-accepted", inst):
                    a.expect(p.exc is None, "getter-accepted", inst, f"raises {p.exc!r}", a.path_where(p))
    elif kind == "unknown":
        name, key, lo, hi = arg
        tgt = a.at(Z, name)
        k = sym(f"k{lo}_{hi}", lo, hi, integer=True)
        inst = f"{name}({key}: integer in [{lo}, {hi}])"
        for p in a.one(lambda it: a.call(tgt, **{key: Num(k, "int")}), "no-orders", inst, 60):
            if p.exc is not None:
                a.expect(p.exc.name == "ValueError", "no-orders", inst, f"raises {p.exc!r} instead of ValueError", a.path_where(p))
            else:
                a.bad("no-orders", inst, f"returns {p.result!r} when {p.conds}", a.path_where(p))
    elif kind == "types":
        for name, key in (("osa2noll", "osa_index"), ("noll2osa", "noll_index"), ("osa2fringe", "osa_index"), ("fringe2osa", "fringe_index")):
            for nm, v in {"float": Num(sym("x"), "float"), "float 4.0": Num(X.const(4), "float"), "str": "4", "None": None}.items():
                inst = f"{name}({nm})"
                for p in a.one(lambda it: a.call(a.at(Z, name), v), "types", inst):
                    a.expect(p.exc is not None and p.exc.name == "ValueError", "types", inst,
                             f"gives {p.exc or p.result!r} instead of ValueError", a.path_where(p))


def check(tier):
    ck = Check("C03", tier, "value-flow of index2orders and of the conversions osa2noll, noll2osa, osa2fringe, fringe2osa in every "
               "index of admissible orders; symbolic unbounded index classes without matching orders must end in ValueError", 3000,
               assumptions=["the search loops are unrolled completely (constant trip counts in every context)"])
    o = spec.orders()
    items = []
    step = 1 if tier == "thorough" else 3
    for key in SPEC:
        sel = o if tier == "thorough" else [x for i, x in enumerate(o) if i < 300 or x[0] in (x[1], -x[1], 0, 1, -1) or i % 2 == 0]
        items += [("inv", (key, sel[i::8])) for i in range(8)]
        b = BY[key]
        fs = [(b[i], b[i + 1]) for i in range(0, len(b), 2)]
        sel = [x for i, x in enumerate(o) if i < 230 or abs(x[0]) in (x[1], 0, 1) or i % step == 0]
        items += [("conv", (key, sel[i::8], fs)) for i in range(8)]
    items += [("chain", o[i:200:4]) for i in range(4)] + [("types", None)]
    items += [("unknown", x) for x in (
        ("osa2noll", "osa_index", None, -1), ("noll2osa", "noll_index", None, 0), ("osa2fringe", "osa_index", None, -1),
        ("fringe2osa", "fringe_index", None, 0), ("osa2noll", "osa_index", 1000000, None), ("noll2osa", "noll_index", 1000000, None),
        ("osa2fringe", "osa_index", 1000000, None), ("fringe2osa", "fringe_index", 1000000, None),
        ("index2orders", "osa_index", 1000000, None), ("index2orders", "noll_index", 1000000, None),
        ("index2orders", "fringe_index", 1000000, None), ("index2orders", "noll_index", None, 0),
        ("index2orders", "osa_index", None, -1), ("index2orders", "fringe_index", None, 0))]
    ck.units(unit, items)
    return ck.finish()
