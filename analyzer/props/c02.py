"""C02: the three numbering formulas, for all orders (parametrised residue classes) and for every admissible pair."""
from fractions import Fraction

from ..ctx import Check, show
from ..expr import sym, add, mul, sub, scale, const
from ..values import Num
from .. import spec
from .. import expr as X

GET = {"osa": "get_osa_index", "noll": "get_noll_index", "fringe": "get_fringe_index"}
SPEC = {"osa": spec.osa, "noll": spec.noll, "fringe": spec.fringe}


def sym_spec(which, n, am, sgn, rho):
    """Normal form of the index with n = n, |m| = am (expressions), sign of m and n mod 4 = rho."""
    m = scale(am, sgn)
    base = scale(mul(n, add(n, const(1))), Fraction(1, 2))
    if which == "osa":
        return add(base, scale(add(n, m), Fraction(1, 2)))
    if which == "noll":
        if sgn == 0:
            return add(base, const(1))
        # the even one of base + |m| and base + |m| + 1 belongs to the cosine
        par = ({0: 0, 1: 1, 2: 1, 3: 0}[rho] + rho) % 2     # parity of base + |m|
        even = par == 0
        return add(add(base, am), const(0 if even == (sgn > 0) else 1))
    g = add(const(1), scale(add(n, am), Fraction(1, 2)))
    return add(sub(mul(g, g), scale(am, 2)), const(1 if sgn < 0 else 0))


def unit(a, item):
    kind, arg = item
    if kind == "table":
        for m, n in arg:
            for w, f in GET.items():
                inst = f"{f}(m={m}, n={n})"
                for p in a.one(lambda it: a.call(a.at(a.g("ZernPol"), f), m, n), w + "-constant", inst):
                    if p.exc is not None:
                        a.bad(w + "-constant", inst, f"raises {p.exc!r}", a.path_where(p))
                        continue
                    v = p.result
                    ok = isinstance(v, int) and not isinstance(v, bool) and v == SPEC[w](m, n)
                    a.expect(ok, w + "-constant", inst, f"gives {v!r} ({type(v).__name__}) instead of int {SPEC[w](m, n)}", a.path_where(p))
    else:
        which, rho, sgn = arg
        f = GET[which]
        q = sym("a", 0, None, integer=True)
        n = add(scale(q, 4), const(rho))
        b = sym(f"b{rho % 2}", 1 if rho % 2 == 0 else 0, None, integer=True)
        if sgn == 0:
            if rho % 2:
                return
            am = const(0)
        else:
            am = add(scale(b, 2), const(rho % 2))
        m = scale(am, sgn)
        mv = 0 if sgn == 0 else Num(m, "int")
        want = sym_spec(which, n, am, sgn, rho)
        inst = f"{f}(m={show(m)}, n={show(n)})"
        for p in a.one(lambda it: a.call(a.at(a.g("ZernPol"), f), mv, Num(n, "int")), which + "-all-orders", inst, 40):
            if p.exc is not None:
                a.bad(which + "-all-orders", inst, f"raises {p.exc!r}", a.path_where(p))
                continue
            got = a.e(p.result)
            kind = getattr(p.result, "kind", None)
            eq = a.equal(p, got, want)
            if eq is None:
                a.undecided(which + "-all-orders", inst, "no sample on the trace")
            elif not eq:
                a.bad(which + "-all-orders", inst, f"flows to {show(got)} instead of {show(want)} when {p.conds}", a.path_where(p))
            else:
                a.expect(kind == "int", which + "-all-orders", inst, f"result is of kind {kind} instead of int", a.path_where(p))


def check(tier):
    ck = Check("C02", tier, "value-flow of get_osa_index / get_noll_index / get_fringe_index: for ALL orders with n = 4a + rho, "
               "|m| = 2b + parity (a, b symbolic, every residue class and sign) to normal forms compared with the OSA/ANSI, Noll and "
               "Fringe definitions, and for every admissible constant pair n <= 54", 3000,
               assumptions=["Noll: even index for cosine terms; Fringe: groups by n + |m|, cosine before sine"])
    o = spec.orders()
    items = [("table", o[i::8]) for i in range(8)]
    items += [("form", (w, rho, s)) for w in GET for rho in range(4) for s in (-1, 0, 1)]
    ck.units(unit, items)
    return ck.finish()
