"""C07: polynomial value = normalisation x radial x angular part; angular part, its derivative and the normalisation."""
from fractions import Fraction as F

from ..ctx import Check, show
from ..expr import sym, mul
from ..values import Arr, Num
from .. import expr as X
from .. import spec

R0, R1 = sym("r0", 0, 1), sym("r1", 0, 1)
T0, T1 = sym("th0", 0, 6), sym("th1", 0, 6)


def judge(a, rule, inst, ps, want, shape):
    for p in ps:
        if p.error:
            a.undecided(rule, inst, p.error)
            continue
        if p.exc is not None:
            a.bad(rule, inst, f"raises {p.exc!r}", a.path_where(p))
            continue
        v = p.result
        got_shape = tuple(v.shape) if isinstance(v, Arr) else ()
        if v is None or got_shape != shape:
            a.bad(rule, inst, f"result {v!r} has shape {got_shape} instead of {shape}", a.path_where(p))
            continue
        bad = None
        for g, w in zip(a.els(v), want):
            q = a.equal(p, g, w)
            if q is None:
                a.undecided(rule, inst, "no sample on the trace")
                bad = False
            elif not q:
                bad = (g, w)
                break
        if bad:
            a.bad(rule, inst, f"flows to {show(bad[0])} instead of {show(bad[1])}" + (f" when {p.conds}" if p.conds else ""), a.path_where(p))
        elif bad is None:
            a.ok(rule, inst)


EXTRA = ((0, 0), (1, 1), (-2, 2), (0, 4), (3, 11), (-2, 14), (16, 16))


def unit(a, chunk):
    fl = lambda e: Num(e, "float")
    ar = lambda es: a.arr(es, (len(es),), "float64", "input")
    for m, n in chunk:
        forms = [("float", "float", lambda: (fl(R0), fl(T0)), [(R0, T0)], ()),
                 ("ndarray", "ndarray", lambda: (ar([R0, R1]), ar([T0, T1])), [(R0, T0), (R1, T1)], (2,))]
        if n <= 12 or abs(m) in (n, 0, 1) or a.tier == "thorough":
            forms += [("float", "ndarray", lambda: (fl(R0), ar([T0, T1])), [(R0, T0), (R0, T1)], (2,)),
                      ("ndarray", "float", lambda: (ar([R0, R1]), fl(T0)), [(R0, T0), (R1, T0)], (2,))]
        if (m, n) in EXTRA:
            lr = [X.const(F((7 * i) % 301, 300)) if i % 50 else (R0, R1)[i % 2] for i in range(301)]
            lt = [X.const(F((5 * i) % 61, 10)) if i % 30 else (T0, T1)[i % 2] for i in range(301)]
            forms += [("long ndarray", "long ndarray", lambda: (ar(lr), ar(lt)), list(zip(lr, lt)), (301,)),
                      ("20 x 15 ndarray", "20 x 15 ndarray", lambda: (a.arr(lr[:300], (20, 15), "float64", "input"), a.arr(lt[:300], (20, 15), "float64", "input")), list(zip(lr[:300], lt)), (20, 15)),
                      ("2 x 3 x 2 ndarray", "2 x 3 x 2 ndarray", lambda: (a.arr(lr[:12], (2, 3, 2), "float64", "input"), a.arr(lt[:12], (2, 3, 2), "float64", "input")), list(zip(lr[:12], lt)), (2, 3, 2)),
                      ("long list", "float", lambda: (a.lst([fl(x) for x in lr[:130]], "input"), fl(T0)), [(x, T0) for x in lr[:130]], (130,)),
                      ("float", "long list", lambda: (fl(R0), a.lst([fl(x) for x in lt[:130]], "input")), [(R0, x) for x in lt[:130]], (130,))]
        for rk, tk, mk, pts, shape in forms:
            want = [spec.zernike(m, n, r, t) for r, t in pts]
            for exact in (False, True):
                if exact and (n > 40 or (rk, tk) in (("float", "ndarray"),) and n > 12):
                    continue
                inst = f"ZernPol(m={m}, n={n}).polynomial_value({rk}, {tk}{', exact' if exact else ''})"
                ps = a.run(lambda it: a.m(a.zp(m, n), "polynomial_value", *mk(), **({"use_exact_eq": True} if exact else {})), 16, keep_state=True)
                judge(a, "value" + ("-exact" if exact else ""), inst, ps, want, shape)
        for meth, sp in (("triangular", spec.angular), ("triangular_dtheta", spec.angular_dt)):
            for tk, mk, pts, shape in (("float", lambda: fl(T0), [T0], ()), ("ndarray", lambda: ar([T0, T1]), [T0, T1], (2,))):
                inst = f"ZernPol(m={m}, n={n}).{meth}({tk})"
                ps = a.run(lambda it: a.m(a.zp(m, n), meth, mk()), 16, keep_state=True)
                judge(a, meth, inst, ps, [sp(m, t) for t in pts], shape)
        ps = a.run(lambda it: a.m(a.zp(m, n), "normf"), 16, keep_state=True)
        judge(a, "norm", f"ZernPol(m={m}, n={n}).normf()", ps, [spec.norm(m, n)], ())


def check(tier):
    ck = Check("C07", tier, "value-flow of polynomial_value (all scalar/array argument combinations, default and exact route), "
               "triangular, triangular_dtheta and normf for every admissible (m, n), n <= 54, with symbolic r and theta; compared with "
               "sqrt(n+1) or sqrt(2(n+1)) times R(r) times cos(m theta) / sin(|m| theta)", 7000,
               assumptions=["float arithmetic is modelled by exact real arithmetic"])
    o = spec.orders()
    ck.units(unit, [o[i::16] for i in range(16)])
    return ck.finish()
