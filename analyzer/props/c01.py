"""C01: decision table of the constructor guards over symbolic orders."""
from ..ctx import Check, env_of, cond_holds, show
from ..expr import sym
from ..values import Num, Opaque
from .. import spec
from .. import expr as X


def cls(p):
    if p.exc is not None:
        return p.exc.name
    return "accepted"


def ctor(a, **kw):
    return lambda it: a.new("ZernPol", **kw)


def judge(a, rule, inst, p, want_ok):
    got = cls(p)
    if want_ok:
        a.expect(got == "accepted", rule, inst, f"valid orders are rejected with {p.exc!r}", a.path_where(p))
    else:
        a.expect(got == "ValueError", rule, inst,
                 "invalid orders are accepted" if got == "accepted" else f"raises {got} instead of ValueError", a.path_where(p))


def unit(a, item):
    kind, arg = item
    if kind == "n":          # constant n, every m
        for n in arg:
            m = sym("m", integer=True)
            ps = a.run(ctor(a, m=Num(m, "int"), n=n), 200)
            und = [p for p in ps if p.error]
            if und:
                for mm in range(-70, 71):
                    for p in a.one(ctor(a, m=mm, n=n), "guard-table", f"m={mm}, n={n}"):
                        judge(a, "guard-table", f"ZernPol(m={mm}, n={n})", p, spec.valid(mm, n))
                continue
            for mm in range(-70, 71):
                env = env_of({"m": mm})
                hit = [p for p in ps if cond_holds(p, env)]
                if not hit:
                    a.undecided("guard-table", f"m={mm}, n={n}", "no trace covers the point")
                for p in hit:
                    judge(a, "guard-table", f"ZernPol(m={mm}, n={n})", p, spec.valid(mm, n))
            # representative regions beyond the table
            for lo, hi in ((71, None), (None, -71)):
                for p in a.one(ctor(a, m=Num(sym(f"m{lo}_{hi}", lo, hi, integer=True), "int"), n=n), "beyond", f"m>{lo} or m<{hi}", 200):
                    judge(a, "beyond", f"ZernPol(m in [{lo}, {hi}], n={n})", p, False)
    elif kind == "range":    # every n above / below the admissible range, every m
        for lo, hi in ((55, None), (None, -1)):
            for p in a.one(ctor(a, m=Num(sym("m", integer=True), "int"), n=Num(sym(f"n{lo}_{hi}", lo, hi, integer=True), "int")),
                           "n-out-of-range", f"n in [{lo}, {hi}]", 400):
                judge(a, "n-out-of-range", f"n in [{lo}, {hi}], traces", p, False)
    elif kind == "types":
        it = a.it
        bad = {"float 2.0": Num(X.const(2), "float"), "symbolic float": Num(sym("x"), "float"), "str": "2", "None": None,
               "list": a.lst([2]), "tuple": (2,), "numpy array": a.arr([2], (1,))}
        for nm, v in bad.items():
            for kw, txt in (({"m": v, "n": 2}, "m"), ({"m": 0, "n": v}, "n"), ({"osa": v}, "osa"), ({"noll": v}, "noll"),
                            ({"fringe": v}, "fringe"), ({"l": v, "radial_order": 4}, "l"), ({"azimuthal_order": 0, "radial_order": v}, "radial_order")):
                for p in a.one(ctor(a, **kw), "types", f"{txt}={nm}"):
                    judge(a, "types", f"ZernPol({txt}: {nm})", p, False)
        for kw in ({}, {"n": 2}, {"m": 2}, {"n": 2, "x": 2}, {"x": 1}, {"m": 0, "osa": 1}, {"m": 0, "n": 2, "osa": 4}, {"m": 0, "l": 0},
                   {"osa": 1, "noll": 1}, {"n": 2, "osa": 2}, {"n": 2, "radial_order": 2}, {"noll_index": 1, "fringe_index": 1}):
            for p in a.one(ctor(a, **kw), "keys", str(kw)):
                judge(a, "keys", f"ZernPol({', '.join(f'{k}={v}' for k, v in kw.items())})", p, False)
    elif kind == "index":    # index routes outside of admissible ranges
        for key, lo, hi in arg:
            for p in a.one(ctor(a, **{key: Num(sym(f"k{lo}_{hi}", lo, hi, integer=True), "int")}), "index-out-of-range", f"{key} in [{lo}, {hi}]", 40):
                judge(a, "index-out-of-range", f"ZernPol({key} in [{lo}, {hi}])", p, False)
    elif kind == "fringe54":
        for m, n in arg:
            k = spec.fringe(m, n)
            for p in a.one(ctor(a, fringe=k), "fringe-order-limit", f"fringe={k}"):
                judge(a, "fringe-order-limit", f"ZernPol(fringe={k}) i.e. n={n}", p, n <= 54)


def check(tier):
    ck = Check("C01", tier, "guard decision tables of the ZernPol constructor over symbolic integer orders m, n and indices; "
               "each table is compared with the admissible set 0 <= n <= 54, |m| <= n, n - |m| even on representatives of all "
               "regions (every n in 0..54 with every m in -70..70, and the unbounded rests), plus type / keyword classes", 4000,
               assumptions=["guards are functions of the integer orders and their parity (extracted, printed in the evidence samples)"])
    items = [("n", list(range(k, 55, 14))) for k in range(14)] + [("range", None), ("types", None)]
    items += [("index", [("osa", None, -1), ("osa_index", 1540, None), ("ansi", None, -1), ("noll", None, 0), ("noll_index", 1541, None),
                         ("fringe", None, 0), ("ansi_index", 1540, None), ("osa", 1540, None)])]
    items += [("fringe54", [(m, n) for m, n in ((0, 54), (54, 54), (-54, 54), (55, 55), (-55, 55), (1, 55), (0, 56), (-2, 60), (52, 54))])]
    ck.units(unit, items)
    return ck.finish()
