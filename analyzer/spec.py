"""Independent definitions (the oracle): textbook formulas, written from the standard and not from the analysed code."""
from fractions import Fraction
from math import factorial

from . import expr as X
from .expr import const, sym

MAX_N = 54


def valid(m, n):
    return 0 <= n <= MAX_N and abs(m) <= n and (n - abs(m)) % 2 == 0


def orders(n_max=MAX_N, n_min=0):
    return [(m, n) for n in range(n_min, n_max + 1) for m in range(-n, n + 1, 2)]


def osa(m, n):
    """OSA/ANSI: number of polynomials before (m, n) ordered by n and m, counted from 0."""
    return n * (n + 1) // 2 + (n + m) // 2


def noll(m, n):
    """Noll: by n, inside by |m|; even index <-> cosine (m > 0), odd <-> sine (m < 0)."""
    base = n * (n + 1) // 2
    j = base + abs(m)
    # positions for |m| > 0 are base + |m| and base + |m| + 1; the even one belongs to m > 0
    if m == 0:
        return j + 1
    for q in (j, j + 1):
        if (q % 2 == 0) == (m > 0):
            return q


def fringe(m, n):
    """Fringe (University of Arizona): groups of n + |m|, inside by decreasing |m|, cosine before sine."""
    g = 1 + (n + abs(m)) // 2
    return g * g - 2 * abs(m) + (1 if m < 0 else 0)


def radial_coeffs(m, n):
    a = abs(m)
    return {n - 2 * k: Fraction((-1)**k * factorial(n - k),
                                factorial(k) * factorial((n + a) // 2 - k) * factorial((n - a) // 2 - k))
            for k in range((n - a) // 2 + 1)}


def poly(coeffs, r):
    s = X.ZERO
    for p, c in coeffs.items():
        s = X.add(s, X.scale(X.powi(r, p) if p else X.ONE, c))
    return s


_memo = {}


def radial(m, n, r):
    k = ("r", abs(m), n, r)
    if k not in _memo:
        _memo[k] = poly(radial_coeffs(m, n), r)
    return _memo[k]


def radial_dr(m, n, r):
    k = ("dr", abs(m), n, r)
    if k not in _memo:
        _memo[k] = poly({p - 1: c * p for p, c in radial_coeffs(m, n).items() if p > 0}, r)
    return _memo[k]


def norm(m, n):
    return X.power(const(n + 1), Fraction(1, 2)) if m == 0 else X.power(const(2 * n + 2), Fraction(1, 2))


def angular(m, theta):
    """cos(m theta) for m >= 0, sin(|m| theta) for m < 0."""
    if m >= 0:
        return X.trig("cos", X.scale(theta, m))
    return X.trig("sin", X.scale(theta, -m))


def angular_dt(m, theta):
    if m >= 0:
        return X.scale(X.trig("sin", X.scale(theta, m)), -m)
    return X.scale(X.trig("cos", X.scale(theta, -m)), -m)


def zernike(m, n, r, theta):
    return X.mul(X.mul(norm(m, n), radial(m, n, r)), angular(m, theta))
