"""C15: generated polar coordinates."""
from fractions import Fraction as F
import math

from ..ctx import Check
from ..expr import sym
from ..values import Arr, Num
from .. import expr as X

EPS = 1e-10


def vec(a, v):
    return [float(X._r(X.numeric(e))) for e in a.els(v)]


def node_rule(a, rule, inst, p, v, step, end):
    """start, step, end."""
    w = a.path_where(p)
    if not isinstance(v, Arr) or len(v.shape) != 1:
        return a.bad(rule, inst, f"gives {v!r} instead of a vector", w)
    x = vec(a, v)
    n = math.ceil(round(end / step, 8)) + 1
    bad = None
    if len(x) != n:
        bad = f"{len(x)} values instead of {n}: ...{x[-3:]}"
    elif abs(x[0]) > EPS:
        bad = f"starts at {x[0]}"
    elif abs(x[-1] - end) > EPS:
        bad = f"ends at {x[-1]}"
    elif min(x) < 0 or max(x) > end * (1 + 1e-15):
        bad = f"leaves [0, {end}]: {min(x)}..{max(x)}"
    else:
        for k in range(1, n - 1):
            if abs(x[k] - k * step) > EPS:
                bad = f"value {k} is {x[k]} instead of {k * step}"
                break
    a.expect(bad is None, rule, inst, bad, w)


def unit(a, item):
    kind, arg = item
    gp = lambda it, *ar, **kw: it.call(it.getattr(a.g("ZernPol"), "gen_polar_coordinates"), list(ar), kw)
    if kind == "steps":
        for rs, ts in arg:
            inst = f"gen_polar_coordinates({rs!r}, {ts!r})"
            for p in a.one(lambda it: gp(it, r_step=Num(X.const(F(rs)), "float"), theta_rad_step=Num(X.const(F(ts)), "float")), "nodes", inst):
                if p.exc is not None:
                    a.bad("accept", inst, f"admissible steps raise {p.exc!r}", a.path_where(p))
                    continue
                R, T = a.at(p.result, "R"), a.at(p.result, "Theta")
                node_rule(a, "radii", inst + ".R", p, R, rs, 1.0)
                node_rule(a, "angles", inst + ".Theta", p, T, ts, 2 * math.pi)
                a.expect(not p.warns(), "quiet", inst, "warns for admissible steps", a.path_where(p))
    elif kind == "default":
        for p in a.one(lambda it: gp(it), "nodes", "defaults"):
            if p.exc is not None:
                a.bad("accept", "gen_polar_coordinates()", f"raises {p.exc!r}", a.path_where(p))
                continue
            node_rule(a, "radii", "gen_polar_coordinates().R", p, a.at(p.result, "R"), 0.01, 1.0)
            node_rule(a, "angles", "gen_polar_coordinates().Theta", p, a.at(p.result, "Theta"), round(math.pi / 240, 7), 2 * math.pi)
    elif kind == "reject":
        tiny = F(1, 10**9)
        good = Num(X.const(F(1, 4)), "float")
        pi = F(math.pi)
        cases = [("r_step", None, F(0)), ("r_step", F(1, 2) + tiny, None), ("r_step", F(1, 2) + tiny, F(3, 5)), ("theta_rad_step", None, F(0)),
                 ("theta_rad_step", pi + tiny, None), ("theta_rad_step", pi + tiny, F(4))]
        for key, lo, hi in cases:
            other = "theta_rad_step" if key == "r_step" else "r_step"
            inst = f"gen_polar_coordinates({key} in [{lo and float(lo)}, {hi if hi is None else float(hi)}])"
            for p in a.one(lambda it: gp(it, **{key: Num(sym(f"{key}{lo}{hi}", lo, hi), "float"), other: good}), "reject", inst, 16):
                a.expect(p.exc is not None and p.exc.name == "ValueError", "reject", inst, f"gives {p.exc or 'coordinates'} instead of ValueError", a.path_where(p))
        for key, v in (("r_step", 0), ("r_step", 1), ("r_step", -1), ("theta_rad_step", 0), ("theta_rad_step", 4), ("theta_rad_step", -2)):
            other = "theta_rad_step" if key == "r_step" else "r_step"
            inst = f"gen_polar_coordinates({key}={v})"
            for p in a.one(lambda it: gp(it, **{key: v, other: good}), "reject", inst, 16):
                a.expect(p.exc is not None and p.exc.name == "ValueError", "reject", inst, f"gives {p.exc or 'coordinates'} instead of ValueError", a.path_where(p))
    elif kind == "equal":
        for n in arg:
            for style in ("kw", "pos"):
                if n is None and style == "pos":
                    continue
                inst = f"gen_equal_polar_mesh({'' if n is None else n})"
                for p in a.one(lambda it: it.call(it.getattr(a.g("ZernPol"), "gen_equal_polar_mesh"), [n] if style == "pos" else [], {"n_points": n} if style == "kw" and n is not None else {}), "equal", inst):
                    if p.exc is not None:
                        a.bad("equal", inst, f"raises {p.exc!r}", a.path_where(p))
                        continue
                    k = max(4, 250 if n is None else n)
                    for nm, end in (("R", 1.0), ("Theta", 2 * math.pi)):
                        v = a.at(p.result, nm)
                        x = vec(a, v) if isinstance(v, Arr) else []
                        a.expect(len(x) == k and all(abs(x[i] - end * i / (k - 1)) < EPS for i in range(k)), "equal", f"{inst}.{nm}",
                                 f"gives {len(x)} values {x[:2]}..{x[-2:]} instead of {k} uniformly spaced over [0, {end}]", a.path_where(p))
    elif kind == "surface":     # coordinates delivered together with a surface are the generated ones
        for kw, (rs, ts) in (({"r_step": 0.25, "theta_rad_step": 1.0}, (0.25, 1.0)), ({"r_step": 0.5, "theta_rad_step": 3.0}, (0.5, 3.0))):
            inst = f"gen_zernikes_surface({kw})"
            for p in a.one(lambda it: it.call(it.getattr(a.g("ZernPol"), "gen_zernikes_surface"), [a.lst([Num(X.ONE, "float")]), a.lst([a.zp(1, 1)])], {k: Num(X.const(F(v)), "float") for k, v in kw.items()}), "surface", inst):
                if p.exc is not None:
                    a.bad("surface", inst, f"raises {p.exc!r}", a.path_where(p))
                    continue
                node_rule(a, "surface", inst + ".R", p, a.at(p.result, "R"), rs, 1.0)
                node_rule(a, "surface", inst + ".Theta", p, a.at(p.result, "Theta"), ts, 2 * math.pi)
        for n in (2, 4, 5, 7):
            inst = f"gen_zernikes_surface(equal, {n} points)"
            for p in a.one(lambda it: it.call(it.getattr(a.g("ZernPol"), "gen_zernikes_surface"), [a.lst([Num(X.ONE, "float")]), a.lst([a.zp(1, 1)])],
                                              {"equal_n_coordinates": True, "n_points": n}), "surface", inst):
                if p.exc is not None:
                    a.bad("surface", inst, f"raises {p.exc!r}", a.path_where(p))
                    continue
                k = max(4, n)
                for nm, end in (("R", 1.0), ("Theta", 2 * math.pi)):
                    x = vec(a, a.at(p.result, nm))
                    a.expect(len(x) == k and all(abs(x[i] - end * i / (k - 1)) < EPS for i in range(k)), "surface", f"{inst}.{nm}", f"gives {x[:2]}..{x[-2:]}", a.path_where(p))


def check(tier):
    ck = Check("C15", tier, "guards of gen_polar_coordinates over symbolic step ranges; node vectors for representative steps of all length classes "
               "(np.arange lengths follow IEEE rounding); gen_equal_polar_mesh for point numbers", 110)
    rs = [0.5, 0.499, 0.45, 0.4, 1 / 3, 0.33, 0.3, 0.26, 0.25, 0.2, 1 / 6, 0.15, 1 / 7, 0.125, 0.1, 0.09, 0.07, 0.06, 0.05, 1 / 24, 1 / 30, 0.03, 1 / 49, 0.02, 0.0101, 0.01, 0.0099, 0.005]
    ts = [math.pi, 3.14, 3.0, 2.5, 2 * math.pi / 3, 2.0, math.pi / 2, 1.3, 1.0, math.pi / 4, 0.7, 0.5, math.pi / 7, 0.4, 0.3, math.pi / 11, 0.25, 0.2, 0.15, 0.1,
          round(math.pi / 180, 7), round(math.pi / 240, 7), math.pi / 49, 0.05, 0.033, 0.07, 0.021, 0.9]
    pairs = list(zip(rs, ts)) + list(zip(rs, ts[5:] + ts[:5]))
    if tier == "thorough":
        pairs += [(1 / k, 2 * math.pi / k) for k in range(2, 200)] + [(round(1 / k, 4), round(2 * math.pi / k, 4)) for k in range(3, 200)]
    ns = [None, -3, 0, 1, 2, 3, 4, 5, 6, 7, 10, 33, 100, 251]
    ck.units(unit, [("steps", pairs[i::7]) for i in range(7)] + [("default", None), ("reject", None), ("equal", ns), ("surface", None)])
    return ck.finish()
