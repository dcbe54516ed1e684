"""C33: classical names of polynomials."""
import re

from ..ctx import Check
from ..values import SStr
from .. import spec

FAMILY = {1: "coma", 2: "astigmatism", 3: "trefoil", 4: "quadrafoil", 5: "pentafoil", 6: "sexfoil", 7: "septfoil"}
SHORT = {1: "coma", 2: "as", 3: "3foil", 4: "4foil", 5: "5foil", 6: "6foil", 7: "7foil"}
DEGREE = ["", "secondary ", "thirdly "]


def orientation(m):
    """Naming of sine (m < 0) and cosine (m > 0) terms of a pair."""
    if abs(m) == 1:
        return "Vertical" if m < 0 else "Horizontal"
    if abs(m) % 2 == 0:
        return "Oblique" if m < 0 else "Vertical"
    return "Vertical" if m < 0 else "Oblique"


def full(m, n):
    if n > 7:
        return ""
    if m == 0:
        return {0: "Piston", 2: "Defocus", 4: "Primary spherical", 6: "Secondary spherical"}[n]
    a = abs(m)
    if n == a == 1:
        return orientation(m) + " tilt"
    k = (n - a) // 2 - (1 if a == 1 else 0)
    return f"{orientation(m)} {DEGREE[k]}{FAMILY[a]}"


def short_ok(m, n, s):
    if n > 7:
        return s == ""
    if m == 0:
        return re.fullmatch({0: r"Piston", 2: r"Defocus", 4: r"(1st )?[Ss]pherical", 6: r"2d spherical"}[n], s) is not None
    a = abs(m)
    o = {"Vertical": "Vert", "Horizontal": "Hor", "Oblique": "Obliq"}[orientation(m)]
    fam = "tilt" if n == 1 else SHORT[a]
    k = 0 if n == 1 else (n - a) // 2 - (1 if a == 1 else 0)
    deg = ["", "2d ?", "3d ?"][k]
    return re.fullmatch(rf"{o}\. ?{deg}{fam}[a-z.]*", s) is not None


def unit(a, chunk):
    if chunk == "unique":
        for short in (False, True):
            seen = {}
            for m, n in spec.orders(9):
                for p in a.one(lambda it: a.m(a.zp(m, n), "get_polynomial_name", short), "unique", f"{(m, n)}"):
                    s = p.result
                    if p.exc is None and s:
                        a.expect(s not in seen, "unique", f"{'short' if short else 'full'} name of ZernPol{(m, n)}", f"{s!r} is also the name of ZernPol{seen.get(s)}", a.path_where(p))
                        seen[s] = (m, n)
        return
    for m, n in chunk:
        inst = f"ZernPol{(m, n)}"

        def drv(it):
            z = a.zp(m, n)
            return (a.m(z, "get_polynomial_name"), a.m(z, "get_polynomial_name", short=False), a.m(z, "get_polynomial_name", short=True), a.m(z, "get_polynomial_name", True), it.to_str(z))
        for p in a.one(drv, "name", inst):
            w = a.path_where(p)
            if p.exc is not None:
                a.bad("name", inst, f"raises {p.exc!r}", w)
                continue
            f1, f2, s1, s2, st = p.result
            want = full(m, n)
            a.expect(f1 == want and f2 == want, "full-name", inst, f"is {f1!r} instead of {want!r}", w)
            a.expect(s1 == s2 and isinstance(s1, str) and short_ok(m, n, s1), "short-name", inst, f"short name {s1!r} doesn't belong to {want!r}", w)
            if n <= 7:
                a.expect(isinstance(st, str) and want in st and all(str(x) in st for x in (n, m, spec.osa(m, n), spec.noll(m, n), spec.fringe(m, n))), "printed", inst,
                         f"is printed as {st!r}", w)


def check(tier):
    ck = Check("C33", tier, "names of all polynomials n <= 54 as delivered by get_polynomial_name (constant propagation through the tables), compared with the naming scheme "
               "(orientation of sine / cosine member, degree, family), uniqueness, printed form", 1500)
    o = spec.orders()
    ck.units(unit, [o[i::8] for i in range(8)] + ["unique"])
    return ck.finish()
