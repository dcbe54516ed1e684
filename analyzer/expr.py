"""Algebraic normal forms - the numeric abstract domain of the analyser.

A number met by the abstract interpreter is a Laurent polynomial with exact rational coefficients over *atoms*
(symbolic inputs, pi, e, the imaginary unit, applications of functions like cos / exp / max to normal forms).
Two program expressions denote the same function of the inputs if their normal forms coincide; where the normal form isn't
canonical (trigonometric identities, nested radicals), `equal` decides the identity on the extracted formulas by
identity testing with 40 digits (only the formulas are evaluated, never the analysed code).
"""
from fractions import Fraction
import hashlib
import mpmath
from mpmath import mp

mp.dps = 40
MAX_EXPAND = 6000


class TooBig(Exception):
    pass


class Atom:
    __slots__ = ("kind", "args", "id", "real", "integer", "lo", "lo_open", "hi", "hi_open", "const", "tag")

    def __repr__(self):
        return atom_str(self)


_ATOMS = []
_INTERN = {}


def _mk(kind, args, real=True, integer=False, lo=None, lo_open=False, hi=None, hi_open=False, const=False, tag=None):
    key = (kind, args)
    a = _INTERN.get(key)
    if a is None:
        a = Atom()
        a.kind, a.args, a.real, a.integer = kind, args, real, integer
        a.lo, a.lo_open, a.hi, a.hi_open, a.const, a.tag = lo, lo_open, hi, hi_open, const, tag
        a.id = len(_ATOMS)
        _ATOMS.append(a)
        _INTERN[key] = a
    return a


OVER = {}  # path specific refinement of ranges: atom id -> (lo, lo_open, hi, hi_open)


class E:
    """Immutable sum of monomials; a monomial is a tuple of (atom id, exponent)."""

    __slots__ = ("t", "_h")

    def __init__(self, t):
        self.t = t
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, E) and self.t == o.t

    def __repr__(self):
        return estr(self)

    # -- simple queries
    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), Fraction(0))

    def is_zero(self):
        return not self.t


def const(v):
    v = Fraction(v)
    return E({(): v}) if v else E({})


ZERO = const(0)
ONE = const(1)
TWO = const(2)
HALF = const(Fraction(1, 2))


def atomE(a, exp=1):
    return E({((a.id, exp),): Fraction(1)})


def sym(name, lo=None, hi=None, lo_open=False, hi_open=False, integer=False, real=True, tag=None):
    a = _mk("sym", (name,), real=real, integer=integer, lo=None if lo is None else Fraction(lo), lo_open=lo_open,
            hi=None if hi is None else Fraction(hi), hi_open=hi_open, tag=tag)
    if (a.lo, a.hi, a.integer, a.lo_open, a.hi_open) != (None if lo is None else Fraction(lo), None if hi is None else Fraction(hi),
                                                         integer, lo_open, hi_open):
        raise AssertionError(f"symbol {name} was defined with other bounds")
    return atomE(a)


_PI = _mk("pi", (), const=True)
_EU = _mk("e", (), const=True)
_I = _mk("I", (), real=False, const=True)
_INF = _mk("inf", (), const=True)
_NAN = _mk("nan", (), const=True)
PI, EULER, I, INF, NAN = atomE(_PI), atomE(_EU), atomE(_I), atomE(_INF), atomE(_NAN)


def add(a, b):
    if not a.t:
        return b
    if not b.t:
        return a
    if len(a.t) < len(b.t):
        a, b = b, a
    t = dict(a.t)
    for m, c in b.t.items():
        s = t.get(m, 0) + c
        if s:
            t[m] = s
        else:
            t.pop(m, None)
    return E(t)


def neg(a):
    return E({m: -c for m, c in a.t.items()})


def sub(a, b):
    return add(a, neg(b))


def scale(a, c):
    c = Fraction(c)
    if not c:
        return ZERO
    if c == 1:
        return a
    return E({m: v * c for m, v in a.t.items()})


_SPECIAL = {"I", "prime", "base", "fn"}


def _mul_mono(m1, m2):
    """Product of two monomials: (E result)."""
    if not m1:
        return E({m2: Fraction(1)})
    if not m2:
        return E({m1: Fraction(1)})
    d = dict(m1)
    for i, x in m2:
        d[i] = d.get(i, 0) + x
    return _norm_mono(d, Fraction(1))


_MONO_CACHE = {}


def _norm_mono(d, c):
    exparg = None
    nexp = 0
    extra = []
    out = []
    for i, x in d.items():
        if x == 0:
            continue
        a = _ATOMS[i]
        k = a.kind
        if k == "I":
            x = int(x) % 4
            if x == 2:
                c = -c
            elif x == 3:
                c = -c
                out.append((i, 1))
            elif x == 1:
                out.append((i, 1))
            continue
        if k == "prime":
            fl = x.numerator // x.denominator if isinstance(x, Fraction) else x
            fr = x - fl
            p = a.args[0]
            c = c * (Fraction(p) ** fl)
            if fr:
                out.append((i, fr))
            continue
        if k == "base":
            if isinstance(x, Fraction) and x.denominator == 1:
                x = int(x)
            if not isinstance(x, Fraction) and x > 0:
                extra.append((a.args[0], x))
                continue
            if isinstance(x, Fraction) and x > 1:
                fl = x.numerator // x.denominator
                extra.append((a.args[0], fl))
                x = x - fl
            out.append((i, x))
            continue
        if k == "fn":
            nm = a.args[0]
            if nm == "exp" and not isinstance(x, Fraction):
                e = a.args[1] if x == 1 else scale(a.args[1], x)
                exparg = e if exparg is None else add(exparg, e)
                nexp += 1
                continue
            if nm == "abs" and not isinstance(x, Fraction) and (x >= 2 or x <= -2):
                z = a.args[1]
                if len(z.t) > 8 and not is_real(z):
                    out.append((i, x))
                    continue
                h = x // 2 if x > 0 else -((-x) // 2)
                rest = x - 2 * h
                sq = mul(z, z) if is_real(z) else mul(z, conj(z))
                extra.append((sq, h))
                if rest:
                    out.append((i, rest))
                continue
        if isinstance(x, Fraction) and x.denominator == 1:
            x = int(x)
        out.append((i, x))
    if exparg is not None:
        if not exparg.is_zero():
            out.append((_fn_atom("exp", (exparg,)).id, 1))
    out.sort()
    r = E({tuple(out): c})
    for e, x in extra:
        r = mul(r, powi(e, x))
    return r


def mul(a, b):
    if not a.t or not b.t:
        return ZERO
    if a.is_const():
        return scale(b, a.cval())
    if b.is_const():
        return scale(a, b.cval())
    if len(a.t) * len(b.t) > MAX_EXPAND:
        raise TooBig()
    t = {}
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            key = (m1, m2)
            r = _MONO_CACHE.get(key)
            if r is None:
                r = _mul_mono(m1, m2)
                if len(_MONO_CACHE) > 400000:
                    _MONO_CACHE.clear()
                _MONO_CACHE[key] = r
            c = c1 * c2
            for m, v in r.t.items():
                s = t.get(m, 0) + v * c
                if s:
                    t[m] = s
                else:
                    t.pop(m, None)
    return E(t)


def _content(e):
    """Split e = c * e' with e' having leading coefficient 1 (deterministic order)."""
    m = min(e.t)
    c = e.t[m]
    return c, (e if c == 1 else scale(e, 1 / c))


def _common_mono(e):
    ms = list(e.t)
    common = dict(ms[0])
    for m in ms[1:]:
        d = dict(m)
        for k in list(common):
            if k not in d:
                del common[k]
            else:
                common[k] = min(common[k], d[k])
        if not common:
            break
    for k in list(common):
        if _ATOMS[k].kind in ("I", "prime") or common[k] < 0:
            del common[k]
    return common


def _base_pow(e, x):
    """(sum)^x for not positive-integer x as atom."""
    cm = _common_mono(e)
    pre = ONE
    if cm and (not isinstance(x, Fraction) or all(_nonneg_atom(_ATOMS[k]) for k in cm)):
        inv = E({tuple(sorted((k, -v) for k, v in cm.items())): Fraction(1)})
        e = mul(e, inv)
        pre = _norm_mono({k: v * x for k, v in cm.items()}, Fraction(1))
        if len(e.t) == 1:
            return mul(pre, power(e, x))
    c, p = _content(e)
    if isinstance(x, Fraction) and x.denominator != 1 and c < 0:
        c, p = -c, neg(p)
    real = is_real(p)
    a = _mk("base", (p,), real=real, const=is_constant(p))
    cp = _const_pow(c, x)
    return mul(mul(pre, cp), E({((a.id, x),): Fraction(1)}))


def _nonneg_atom(a):
    lo = arange_(a)[0]
    return lo is not None and lo >= 0


_FACT = {}


def _factor(n):
    r = _FACT.get(n)
    if r is None:
        r, m, p = {}, n, 2
        while p * p <= m and p < 20000:
            while m % p == 0:
                r[p] = r.get(p, 0) + 1
                m //= p
            p += 1
        if m > 1:
            r[m] = r.get(m, 0) + 1
        _FACT[n] = r
    return r


def _const_pow(c, x):
    if c == 0:
        return ZERO if x > 0 else None
    if not isinstance(x, Fraction) or x.denominator == 1:
        return const(Fraction(c) ** int(x))
    pre = ONE
    if c < 0:
        if x.denominator == 2:
            pre = powi(I, x.numerator)
            c = -c
        else:
            return fn("pow", const(c), const(x))
    d = {}
    for p, k in _factor(c.numerator).items():
        d[p] = d.get(p, 0) + k
    for p, k in _factor(c.denominator).items():
        d[p] = d.get(p, 0) - k
    m = {}
    for p, k in d.items():
        if p > 1:
            m[_mk("prime", (p,), const=True).id] = k * x
    return mul(pre, _norm_mono(m, Fraction(1)))


def powi(e, n):
    if n == 0:
        return ONE
    if n < 0:
        return inv(powi(e, -n))
    if len(e.t) == 1:
        (m, c), = e.t.items()
        return _norm_mono({k: v * n for k, v in m}, c ** n)
    r = None
    b = e
    while n:
        if n & 1:
            r = b if r is None else mul(r, b)
        n >>= 1
        if n:
            b = mul(b, b)
    return r


def inv(e):
    if e.is_zero():
        raise ZeroDivisionError
    if len(e.t) == 1:
        (m, c), = e.t.items()
        return _norm_mono({k: -v for k, v in m}, 1 / c)
    return _base_pow(e, -1)


def div(a, b):
    if b.is_const():
        if b.is_zero():
            raise ZeroDivisionError
        return scale(a, 1 / b.cval())
    if a.t == b.t:
        return ONE
    q = _poly_ratio(a, b)
    if q is not None:
        return const(q)
    return mul(a, inv(b))


def _poly_ratio(a, b):
    if len(a.t) != len(b.t) or a.t.keys() != b.t.keys():
        return None
    it = iter(a.t.items())
    m, c = next(it)
    q = c / b.t[m]
    for m, c in it:
        if c / b.t[m] != q:
            return None
    return q


def power(e, x):
    """e ** x for rational x."""
    if not isinstance(x, Fraction):
        x = Fraction(x)
    if x.denominator == 1:
        n = int(x)
        if e.is_zero():
            if n < 0:
                raise ZeroDivisionError
            return ONE if n == 0 else ZERO
        if n > 0 and len(e.t) > 1 and len(e.t) ** min(n, 8) > 20000:
            return _raw_base(e, n)
        return powi(e, n)
    if e.is_zero():
        return ZERO
    if len(e.t) == 1:
        (m, c), = e.t.items()
        d = {}
        ok = True
        leftover = {}
        for k, v in m:
            a = _ATOMS[k]
            if a.kind == "prime" or (a.kind != "I" and _nonneg_atom(a)):
                d[k] = v * x
            elif a.kind == "base" and a.real and _range_nonneg(a.args[0]):
                d[k] = v * x
            elif a.kind == "fn" and a.args[0] == "exp" and a.real:
                return mul(power(E({tuple(z for z in m if z[0] != k): c}), x), fn("exp", scale(a.args[1], v * x)))
            else:
                v2 = v * x
                if isinstance(v2, Fraction) and v2.denominator == 1 and a.real and isinstance(v, int) and v % 2 == 0:
                    leftover[k] = v2
                else:
                    ok = False
        if ok and not (c < 0 and x.denominator != 2):
            r = mul(_const_pow(c, x), _norm_mono(d, Fraction(1)))
            for k, v2 in leftover.items():
                r = mul(r, powi(absE(atomE(_ATOMS[k])), int(v2)))
            return r
        neg_c = c < 0
        p = E({m: Fraction(-1 if neg_c else 1)})
        a = _mk("base", (p,), real=is_real(p))
        return mul(_const_pow(abs(c), x), E({((a.id, x),): Fraction(1)}))
    return _base_pow(e, x)


def _raw_base(e, n):
    raise TooBig()


def _range_nonneg(e):
    lo = rng(e)[0]
    return lo is not None and lo >= 0


def is_real(e):
    for m in e.t:
        for i, _ in m:
            if not _ATOMS[i].real:
                return False
    return True


def is_constant(e):
    for m in e.t:
        for i, _ in m:
            if not _ATOMS[i].const:
                return False
    return True


def is_integer(e):
    for m, c in e.t.items():
        if c.denominator != 1:
            return False
        for i, x in m:
            if not _ATOMS[i].integer or isinstance(x, Fraction) or x < 0:
                return False
    return True


def conj(e):
    if is_real(e):
        return e
    r = ZERO
    for m, c in e.t.items():
        p = const(c)
        for i, x in m:
            a = _ATOMS[i]
            if a.real:
                p = mul(p, E({((i, x),): Fraction(1)}))
            elif a.kind == "I":
                p = mul(p, power(neg(I), x))
            elif a.kind == "fn" and a.args[0] == "exp":
                p = mul(p, power(fn("exp", conj(a.args[1])), x))
            elif a.kind == "base":
                p = mul(p, power(conj(a.args[0]), x))
            else:
                p = mul(p, power(fn("conj", atomE(a)), x))
        r = add(r, p)
    return r


def re(e):
    return scale(add(e, conj(e)), Fraction(1, 2))


def im(e):
    return mul(scale(sub(e, conj(e)), Fraction(1, 2)), neg(I))


_REALFN = {"cos", "sin", "tan", "abs", "max", "min", "floor", "ceil", "sign", "arctan2", "jv", "round", "trunc", "ind", "log",
           "arccos", "arcsin", "arctan", "hypot", "re", "im", "sinh", "cosh", "tanh", "factorial"}
_INTFN = {"floor", "ceil", "trunc", "sign", "ind", "factorial"}


def _fn_atom(name, args):
    key = ("fn", (name,) + args)
    a = _INTERN.get(key)
    if a is not None:
        return a
    eargs = [x for x in args if isinstance(x, E)]
    if name == "exp":
        real = is_real(args[0])
    elif name in _REALFN:
        real = True
    elif name == "opaque_c":
        real = False
    else:
        real = all(is_real(x) for x in eargs)
    cst = bool(eargs) and all(is_constant(x) for x in eargs) and name not in ("opaque", "ind")
    lo = hi = None
    lo_open = False
    integer = name in _INTFN
    if name in ("cos", "sin"):
        lo, hi = Fraction(-1), Fraction(1)
    elif name == "abs":
        lo = Fraction(0)
        integer = is_integer(args[0])
    elif name == "sign":
        lo, hi = Fraction(-1), Fraction(1)
    elif name == "exp" and real:
        lo, lo_open = Fraction(0), True
    elif name == "ind":
        lo, hi = Fraction(0), Fraction(1)
    elif name == "arctan2":
        lo, hi = Fraction(-3141592653589794, 10**15), Fraction(3141592653589794, 10**15)
    elif name in ("max", "min"):
        integer = all(is_integer(x) for x in eargs)
    return _mk("fn", (name,) + args, real=real, integer=integer, lo=lo, lo_open=lo_open, hi=hi, const=cst)


def opaque(name, *args, lo=None, hi=None, integer=False):
    """Uninterpreted application."""
    key = ("fn", ("opaque", name) + args)
    a = _INTERN.get(key)
    if a is None:
        a = _mk("fn", ("opaque", name) + args, real=True, lo=lo, hi=hi, integer=integer)
    return atomE(a)


def absE(e):
    if e.is_const():
        return const(abs(e.cval()))
    if not is_real(e):
        c, p = _content(e)
        return scale(atomE(_fn_atom("abs", (p,))), abs(c))
    lo, lo_o, hi, hi_o = rng(e)
    if lo is not None and lo >= 0:
        return e
    if hi is not None and hi <= 0:
        return neg(e)
    if len(e.t) == 1:
        (m, c), = e.t.items()
        r = const(abs(c))
        for i, x in m:
            a = _ATOMS[i]
            if _nonneg_atom(a) or (isinstance(x, int) and x % 2 == 0):
                r = mul(r, E({((i, x),): Fraction(1)}))
            else:
                r = mul(r, power(atomE(_fn_atom("abs", (atomE(a),))), x))
        return r
    c, p = _content(e)
    return scale(atomE(_fn_atom("abs", (p,))), abs(c))


def _pi_split(e):
    """e = q*pi + rest."""
    key = ((_PI.id, 1),)
    q = e.t.get(key, Fraction(0))
    if not q:
        return q, e
    t = dict(e.t)
    del t[key]
    return q, E(t)


_TRIG = {Fraction(0): (ONE, ZERO)}


def trig(name, e):
    q, rest = _pi_split(e)
    q = q % 2
    if name == "sin":
        # sin(x) = cos(x - pi/2)
        q = (q - Fraction(1, 2)) % 2
    # cos(rest + q*pi)
    if rest.is_zero():
        return _cos_const(q)
    c, p = _content(rest)
    if c < 0:
        rest = neg(rest)
        q = (-q) % 2
    s = ONE
    if q >= 1:
        q -= 1
        s = const(-1)
    if q == 0:
        return mul(s, atomE(_fn_atom("cos", (rest,))))
    if q == Fraction(1, 2):  # cos(x + pi/2) = -sin(x)
        return mul(neg(s), atomE(_fn_atom("sin", (rest,))))
    return mul(s, atomE(_fn_atom("cos", (add(rest, scale(PI, q)),))))


def _cos_const(q):
    tab = {Fraction(0): ONE, Fraction(1): const(-1), Fraction(1, 2): ZERO, Fraction(3, 2): ZERO,
           Fraction(1, 3): HALF, Fraction(2, 3): neg(HALF), Fraction(4, 3): neg(HALF), Fraction(5, 3): HALF}
    if q in tab:
        return tab[q]
    if q in (Fraction(1, 4), Fraction(7, 4)):
        return scale(power(TWO, Fraction(1, 2)), Fraction(1, 2))
    if q in (Fraction(3, 4), Fraction(5, 4)):
        return scale(power(TWO, Fraction(1, 2)), Fraction(-1, 2))
    if q in (Fraction(1, 6), Fraction(11, 6)):
        return scale(power(const(3), Fraction(1, 2)), Fraction(1, 2))
    if q in (Fraction(5, 6), Fraction(7, 6)):
        return scale(power(const(3), Fraction(1, 2)), Fraction(-1, 2))
    s = ONE
    if q > 1:
        q = 2 - q
    if q > Fraction(1, 2):
        q = 1 - q
        s = const(-1)
    return mul(s, atomE(_fn_atom("cos", (scale(PI, q),))))


def floorE(e):
    if e.is_const():
        c = e.cval()
        return const(c.numerator // c.denominator)
    if is_constant(e):
        v = numeric(e)
        return const(int(mpmath.floor(v.real if isinstance(v, mpmath.mpc) else v)))
    # extract integer valued monomials
    ip, fp = {}, {}
    for m, c in e.t.items():
        if m and all(_ATOMS[i].integer and not isinstance(x, Fraction) and x > 0 for i, x in m):
            fl = c.numerator // c.denominator
            if fl:
                ip[m] = Fraction(fl)
            if c - fl:
                fp[m] = c - fl
        elif not m:
            fl = c.numerator // c.denominator
            if fl:
                ip[m] = Fraction(fl)
            if c - fl:
                fp[m] = c - fl
        else:
            fp[m] = c
    f = E(fp)
    if not f.is_zero():
        lo, lo_o, hi, hi_o = rng(f)
        if lo is not None and hi is not None:
            a = lo.numerator // lo.denominator
            if a <= lo and (hi < a + 1 or (hi == a + 1 and hi_o)):
                return add(E(ip), const(a))
    if f.is_zero():
        return E(ip)
    if f.is_const():
        return E(ip)
    return add(E(ip), atomE(_fn_atom("floor", (f,))))


def fn(name, *args):
    """Application of a known mathematical function with simplifications."""
    e = args[0]
    if name in ("cos", "sin"):
        return trig(name, e)
    if name == "exp":
        if e.is_zero():
            return ONE
        q = e.t.get(tuple(sorted(((_PI.id, 1), (_I.id, 1)))), None)
        if q is not None and len(e.t) == 1:
            return add(_cos_const(q % 2), mul(I, trig("sin", scale(PI, q))))
        if q is not None:
            r = q % 2
            t = dict(e.t)
            key = tuple(sorted(((_PI.id, 1), (_I.id, 1))))
            s = ONE
            if r >= 1:
                r -= 1
                s = const(-1)
            if r:
                t[key] = r
            else:
                t.pop(key)
            return mul(s, atomE(_fn_atom("exp", (E(t),))))
        return atomE(_fn_atom("exp", (e,)))
    if name == "sqrt":
        return power(e, Fraction(1, 2))
    if name == "abs":
        return absE(e)
    if name == "floor":
        return floorE(e)
    if name == "ceil":
        return neg(floorE(neg(e)))
    if name == "trunc":
        if e.is_const():
            c = e.cval()
            return const(int(c))
        if is_integer(e):
            return e
        lo = rng(e)[0]
        if lo is not None and lo >= 0:
            return floorE(e)
        if is_constant(e):
            v = numeric(e)
            return const(int(v))
        return atomE(_fn_atom("trunc", (e,)))
    if name == "sign":
        if e.is_zero():
            return ZERO
        s = sign(e)
        if s is not None:
            return const(s)
        c, p = _content(e)
        return scale(atomE(_fn_atom("sign", (p,))), 1 if c > 0 else -1)
    if name == "hypot":
        return power(add(mul(e, e), mul(args[1], args[1])), Fraction(1, 2))
    if name in ("max", "min"):
        return _maxmin(name, args)
    if name == "tan":
        return div(trig("sin", e), trig("cos", e))
    if name == "arctan2":
        y, x = args
        return _arctan2(y, x)
    if name == "round":
        nd = int(args[1].cval()) if len(args) > 1 else 0
        if is_constant(e):
            if e.is_const():
                return const(_round_frac(e.cval(), nd))
            v = numeric(e)
            return const(_round_frac(Fraction(mpmath.nstr(v, 30)) if not isinstance(v, mpmath.mpc) else Fraction(mpmath.nstr(v.real, 30)), nd))
        if nd == 0 and is_integer(e):
            return e
        lo, _, hi, _ = rng(e) if is_real(e) else (None, 0, None, 0)
        if lo is not None and hi is not None and _round_frac(lo, nd) == _round_frac(hi, nd):
            return const(_round_frac(lo, nd))
        return atomE(_fn_atom("round", (e, const(nd))))
    if name == "factorial" and e.is_const():
        import math
        return const(math.factorial(int(e.cval())))
    if name in ("re",):
        return re(e)
    if name in ("im",):
        return im(e)
    if name == "conj":
        if is_real(e):
            return e
        if len(e.t) == 1:
            (m, c), = e.t.items()
            if len(m) == 1 and m[0][1] == 1 and _ATOMS[m[0][0]].kind in ("sym", "fn"):
                return scale(atomE(_fn_atom("conj", (E({m: Fraction(1)}),))), c)
        return conj(e)
    return atomE(_fn_atom(name, args))


def _round_frac(c, nd):
    """Banker's rounding of exact rational."""
    s = Fraction(10) ** nd
    v = c * s
    fl = v.numerator // v.denominator
    d = v - fl
    if d > Fraction(1, 2) or (d == Fraction(1, 2) and fl % 2):
        fl += 1
    return Fraction(fl) / s


def _arctan2(y, x):
    sy, sx = sign(y), sign(x)
    if y.is_zero():
        if x.is_zero():
            return ZERO
        if sx == 1:
            return ZERO
        if sx == -1:
            return PI
    if x.is_zero():
        if sy == 1:
            return scale(PI, Fraction(1, 2))
        if sy == -1:
            return scale(PI, Fraction(-1, 2))
    if sx == 1 and x == y:
        return scale(PI, Fraction(1, 4))
    if sx is not None and sy is not None and sx and sy and absE(x) == absE(y):
        q = Fraction(1, 4) if sx > 0 else Fraction(3, 4)
        return scale(PI, q * sy)
    # scale out common positive rational factors
    if x.is_const() and y.is_const():
        g = max(abs(x.cval()), abs(y.cval()))
        x, y = scale(x, 1 / g), scale(y, 1 / g)
    return atomE(_fn_atom("arctan2", (y, x)))


def _maxmin(name, args):
    xs = []
    for a in args:
        if a not in xs:
            xs.append(a)
    # flatten
    fl = []
    for a in xs:
        if len(a.t) == 1:
            (m, c), = a.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and _ATOMS[m[0][0]].kind == "fn" and _ATOMS[m[0][0]].args[0] == name:
                for z in _ATOMS[m[0][0]].args[1:]:
                    if z not in fl:
                        fl.append(z)
                continue
        if a not in fl:
            fl.append(a)
    xs = fl
    keep = []
    if len(xs) <= 60:
        for i, a in enumerate(xs):
            dominated = False
            for j, b in enumerate(xs):
                if i == j:
                    continue
                s = sign_ge0(sub(b, a)) if name == "max" else sign_ge0(sub(a, b))
                if s and (j < i or not (sign_ge0(sub(a, b)) if name == "max" else sign_ge0(sub(b, a)))):
                    dominated = True
                    break
            if not dominated:
                keep.append(a)
    else:
        keep = xs
    if not keep:
        keep = xs[:1]
    if len(keep) == 1:
        return keep[0]
    # common positive constant factor is pulled out
    keep.sort(key=lambda z: (len(z.t), sorted(z.t.items())))
    a = _fn_atom(name, tuple(keep))
    return atomE(a)


def sign_ge0(e):
    r = rng(e)
    return r[0] is not None and r[0] >= 0


def arange_(a):
    o = OVER.get(a.id)
    if o is not None:
        return o
    if a.kind == "fn" and a.lo is None and a.hi is None:
        nm = a.args[0]
        if nm in ("max", "min"):
            rs = [rng(x) for x in a.args[1:]]
            if nm == "max":
                los = [r[0] for r in rs if r[0] is not None]
                his = [r[2] for r in rs]
                return (max(los) if los else None, False, None if any(h is None for h in his) else max(his), False)
            los = [r[0] for r in rs]
            his = [r[2] for r in rs if r[2] is not None]
            return (None if any(h is None for h in los) else min(los), False, min(his) if his else None, False)
        if nm == "round":
            lo, _, hi, _ = rng(a.args[1])
            nd = int(a.args[2].cval())
            return (None if lo is None else _round_frac(lo, nd), False, None if hi is None else _round_frac(hi, nd), False)
        if nm == "floor":
            lo, _, hi, _ = rng(a.args[1])
            return (None if lo is None else Fraction(lo.numerator // lo.denominator), False, hi if hi is None else Fraction(hi.numerator // hi.denominator), False)
    if a.kind in ("pi", "e") or (a.const and a.kind in ("fn", "base", "prime") and a.real):
        v = _numatom_const(a)
        if v is not None:
            return v
    if a.kind == "base":
        if a.real:
            r = rng(a.args[0])
            return (r[0], r[1], r[2], r[3])
        return (None, False, None, False)
    if a.kind == "inf":
        return (Fraction(10**300), False, None, False)
    return (a.lo, a.lo_open, a.hi, a.hi_open)


_CONSTR = {}


def _numatom_const(a):
    r = _CONSTR.get(a.id)
    if r is None:
        v = numeric(atomE(a))
        if isinstance(v, mpmath.mpc):
            v = v.real
        f = Fraction(mpmath.nstr(v, 34, strip_zeros=False)) if mpmath.isfinite(v) else None
        if f is None:
            return None
        d = Fraction(1, 10**28) * (abs(f) + 1)
        r = (f - d, False, f + d, False)
        _CONSTR[a.id] = r
    return r


def _rmul(a, b):
    if a == (0, False, 0, False) or b == (0, False, 0, False):
        return (Fraction(0), False, Fraction(0), False)
    cands_lo, cands_hi = [], []
    INFV = None

    def prod(x, y):
        # x, y: (value or None, sign_of_inf, open)
        if x[0] is None or y[0] is None:
            sx = x[1] if x[0] is None else (x[0] > 0) - (x[0] < 0)
            sy = y[1] if y[0] is None else (y[0] > 0) - (y[0] < 0)
            s = sx * sy
            if s == 0:
                return (Fraction(0), 0, False)
            return (None, s, False)
        v = x[0] * y[0]
        if v == 0:
            # closed zero if any contributing zero end point is closed
            op = True
            if x[0] == 0 and not x[2]:
                op = False
            if y[0] == 0 and not y[2]:
                op = False
            return (v, 0, op)
        return (v, 0, x[2] or y[2])
    ends_a = [(a[0], -1, a[1]), (a[2], 1, a[3])]
    ends_b = [(b[0], -1, b[1]), (b[2], 1, b[3])]
    ps = [prod(x, y) for x in ends_a for y in ends_b]
    lo = None if any(p[0] is None and p[1] < 0 for p in ps) else min((p[0], p[2]) for p in ps if p[0] is not None) if any(p[0] is not None for p in ps) else INFV
    hi = None if any(p[0] is None and p[1] > 0 for p in ps) else max((p[0], not p[2]) for p in ps if p[0] is not None) if any(p[0] is not None for p in ps) else INFV
    return (None if lo is None else lo[0], False if lo is None else lo[1], None if hi is None else hi[0], False if hi is None else not hi[1])


_FPOW = {}


def _fpow(q, x, side):
    """Outward rounded q**x for q > 0."""
    k = (q, x, side)
    v = _FPOW.get(k)
    if v is None:
        f = Fraction(mpmath.nstr(mpmath.power(mpmath.mpf(q.numerator) / q.denominator, mpmath.mpf(x.numerator) / x.denominator), 30))
        v = f * (1 + side * Fraction(1, 10**26))
        _FPOW[k] = v
    return v


def _rpow(r, x):
    lo, lo_o, hi, hi_o = r
    if x == 1:
        return r
    if isinstance(x, Fraction):
        if lo is not None and lo >= 0:
            a = _fpow(lo, abs(x), -1) if lo > 0 else Fraction(0)
            b = _fpow(hi, abs(x), 1) if hi is not None and hi > 0 else None if hi is None else Fraction(0)
            if x > 0:
                return (a, lo == 0 and lo_o, b, False)
            return (Fraction(0) if b is None or b <= 0 else 1 / b, b is None, None if a <= 0 else 1 / a, False)
        return (None, False, None, False)
    if x > 0:
        if x % 2 == 0:
            # even power
            if lo is not None and lo >= 0:
                return (lo**x, lo_o, None if hi is None else hi**x, hi_o)
            if hi is not None and hi <= 0:
                return (hi**x, hi_o, None if lo is None else lo**x, lo_o)
            m = None if lo is None or hi is None else max(abs(lo), abs(hi))**x
            return (Fraction(0), False, m, False)
        return (None if lo is None else lo**x, lo_o, None if hi is None else hi**x, hi_o)
    # negative integer power
    n = -x
    if lo == 0 and hi == 0:
        return (None, False, None, False)
    if lo is not None and lo > 0:
        return (Fraction(0) if hi is None else 1 / hi**n, True if hi is None else hi_o, 1 / lo**n, lo_o)
    if lo is not None and lo == 0:
        return (Fraction(0) if hi is None else 1 / hi**n, True if hi is None else hi_o, None, False)
    if n % 2 == 0:
        return (Fraction(0), True, None, False)
    if hi is not None and hi <= 0:
        return (None, False, Fraction(0), True)
    return (None, False, None, False)


def rng(e):
    """Interval of a real normal form: (lo, lo_open, hi, hi_open), None = unbounded."""
    if e.is_const():
        c = e.cval()
        return (c, False, c, False)
    lo, lo_o, hi, hi_o = Fraction(0), False, Fraction(0), False
    for m, c in e.t.items():
        r = (Fraction(1), False, Fraction(1), False)
        for i, x in m:
            a = _ATOMS[i]
            if not a.real:
                return (None, False, None, False)
            r = _rmul(r, _rpow(arange_(a), x))
        r = _rmul(r, (c, False, c, False))
        if lo is not None:
            if r[0] is None:
                lo = None
            else:
                lo, lo_o = lo + r[0], lo_o or r[1]
        if hi is not None:
            if r[2] is None:
                hi = None
            else:
                hi, hi_o = hi + r[2], hi_o or r[3]
    # refinement stored for the whole linear form
    o = LINOVER.get(_lin_key(e)) if LINOVER else None
    if o is not None:
        k, c0, rr = o[0], o[1], o[2]
        l2, l2o, h2, h2o = rr
        # e = s*p + c ; rr is the range of p
        s, c = _lin_sc(e)
        x = (l2, l2o, h2, h2o)
        x = _rmul(x, (s, False, s, False))
        x = (None if x[0] is None else x[0] + c, x[1], None if x[2] is None else x[2] + c, x[3])
        if x[0] is not None and (lo is None or x[0] > lo or (x[0] == lo and x[1])):
            lo, lo_o = x[0], x[1]
        if x[2] is not None and (hi is None or x[2] < hi or (x[2] == hi and x[3])):
            hi, hi_o = x[2], x[3]
    return (lo, lo_o, hi, hi_o)


LINOVER = {}  # path specific ranges of linear forms: E primitive -> (None, None, range)


def _lin_key(e):
    t = {m: c for m, c in e.t.items() if m}
    if len(t) < 2:
        return None
    c = t[min(t)]
    return E({m: v / c for m, v in t.items()})


def _lin_sc(e):
    t = {m: c for m, c in e.t.items() if m}
    return t[min(t)], e.t.get((), Fraction(0))


def _tighten(r, lo=None, lo_o=False, hi=None, hi_o=False, integer=False):
    a, ao, b, bo = r
    if lo is not None and (a is None or lo > a or (lo == a and lo_o)):
        a, ao = lo, lo_o
    if hi is not None and (b is None or hi < b or (hi == b and hi_o)):
        b, bo = hi, hi_o
    if integer:
        if a is not None:
            n = -((-a.numerator) // a.denominator)
            if ao and n == a:
                n += 1
            a, ao = Fraction(n), False
        if b is not None:
            n = b.numerator // b.denominator
            if bo and n == b:
                n -= 1
            b, bo = Fraction(n), False
    return (a, ao, b, bo)


def empty(r):
    a, ao, b, bo = r
    return a is not None and b is not None and (a > b or (a == b and (ao or bo)))


def refine(e, op):
    """Record that `e op 0` holds on this path, op in lt, le, eq. Returns False if it is contradictory."""
    t = {m: c for m, c in e.t.items() if m}
    c0 = e.t.get((), Fraction(0))
    if not t or not is_real(e):
        return True
    if len(t) == 1:
        (m, c), = t.items()
        if len(m) == 1 and m[0][1] == 1:
            a = _ATOMS[m[0][0]]
            b = -c0 / c
            r = arange_(a)
            if op == "eq":
                r = _tighten(r, b, False, b, False, a.integer)
            elif c > 0:
                r = _tighten(r, hi=b, hi_o=(op == "lt"), integer=a.integer)
            else:
                r = _tighten(r, lo=b, lo_o=(op == "lt"), integer=a.integer)
            OVER[a.id] = r
            return not empty(r)
        return True
    k = _lin_key(e)
    s, c = _lin_sc(e)
    integer = is_integer(k)
    cur = LINOVER.get(k)
    r = cur[2] if cur else (None, False, None, False)
    b = -c / s
    if op == "eq":
        r = _tighten(r, b, False, b, False, integer)
    elif s > 0:
        r = _tighten(r, hi=b, hi_o=(op == "lt"), integer=integer)
    else:
        r = _tighten(r, lo=b, lo_o=(op == "lt"), integer=integer)
    LINOVER[k] = (None, None, r)
    return not empty(r)


def sign(e):
    """1, -1, 0 or None."""
    if e.is_const():
        c = e.cval()
        return (c > 0) - (c < 0)
    if not is_real(e):
        return None
    if is_constant(e):
        v = numeric(e)
        if isinstance(v, mpmath.mpc):
            v = v.real
        if mpmath.isnan(v):
            return None
        if abs(v) < mpmath.mpf(10)**-30:
            return 0
        return 1 if v > 0 else -1
    lo, lo_o, hi, hi_o = rng(e)
    if lo is not None and (lo > 0 or (lo == 0 and lo_o)):
        return 1
    if hi is not None and (hi < 0 or (hi == 0 and hi_o)):
        return -1
    if lo is not None and hi is not None and lo == hi == 0:
        return 0
    return None


# ---------------------------------------------------------------- evaluation of formulas
def _h(*parts):
    s = "|".join(str(p) for p in parts)
    d = hashlib.sha256(s.encode()).digest()
    return mpmath.mpf(int.from_bytes(d[:8], "big")) / mpmath.mpf(2**64) * 2 - 1 + mpmath.mpf(1) / 7


def _q(v):
    if isinstance(v, mpmath.mpc):
        if abs(v.imag) < mpmath.mpf(10)**-25:
            v = v.real
        else:
            return _q(v.real) + "i" + _q(v.imag)
    if not mpmath.isfinite(v):
        return str(v)
    return str(int(mpmath.nint(v * 10**15)))


def _evatom(a, env, memo):
    v = memo.get(a.id)
    if v is not None:
        return v
    k = a.kind
    if k == "sym":
        v = env(a)
    elif k == "pi":
        v = mp.pi
    elif k == "e":
        v = mp.e
    elif k == "I":
        v = mpmath.mpc(0, 1)
    elif k == "inf":
        v = mpmath.inf
    elif k == "nan":
        v = mpmath.nan
    elif k == "prime":
        v = mpmath.mpf(a.args[0])
    elif k == "base":
        v = evalE(a.args[0], env, memo)
    else:
        nm = a.args[0]
        if nm == "opaque":
            vals = [evalE(x, env, memo) if isinstance(x, E) else x for x in a.args[2:]]
            v = _h(a.args[1], *[_q(x) if isinstance(x, (mpmath.mpf, mpmath.mpc)) else str(x) for x in vals])
            if a.lo is not None and a.hi is not None:
                v = mpmath.mpf(a.lo.numerator) / a.lo.denominator + (mpmath.mpf((a.hi - a.lo).numerator) / (a.hi - a.lo).denominator) * abs(v) / 2
            elif a.lo is not None:
                v = abs(v) + mpmath.mpf(a.lo.numerator) / a.lo.denominator + mpmath.mpf(1) / 10
        elif nm == "ind":
            v = mpmath.mpf(1 if a.args[1].holds(env, memo) else 0)
        elif nm == "ite":
            v = evalE(a.args[2] if a.args[1].holds(env, memo) else a.args[3], env, memo)
        else:
            xs = [evalE(x, env, memo) if isinstance(x, E) else x for x in a.args[1:]]
            v = _apply(nm, xs)
    memo[a.id] = v
    return v


def _r(x):
    return x.real if isinstance(x, mpmath.mpc) else x


def _apply(nm, xs):
    if nm == "cos":
        return mpmath.cos(xs[0])
    if nm == "sin":
        return mpmath.sin(xs[0])
    if nm == "exp":
        return mpmath.exp(xs[0])
    if nm == "abs":
        return abs(xs[0])
    if nm == "max":
        return max(_r(x) for x in xs)
    if nm == "min":
        return min(_r(x) for x in xs)
    if nm == "floor":
        return mpmath.floor(_r(xs[0]))
    if nm == "ceil":
        return mpmath.ceil(_r(xs[0]))
    if nm == "trunc":
        x = _r(xs[0])
        return mpmath.floor(x) if x >= 0 else mpmath.ceil(x)
    if nm == "sign":
        return mpmath.sign(_r(xs[0]))
    if nm == "arctan2":
        return mpmath.atan2(_r(xs[0]), _r(xs[1]))
    if nm == "arctan":
        return mpmath.atan(xs[0])
    if nm == "arccos":
        return mpmath.acos(xs[0])
    if nm == "arcsin":
        return mpmath.asin(xs[0])
    if nm == "log":
        return mpmath.log(xs[0])
    if nm == "jv":
        return mpmath.besselj(xs[0], xs[1])
    if nm == "round":
        s = mpmath.mpf(10)**int(xs[1])
        return mpmath.nint(_r(xs[0]) * s) / s
    if nm == "conj":
        return mpmath.conj(xs[0])
    if nm == "pow":
        return mpmath.power(xs[0], xs[1])
    if nm == "factorial":
        return mpmath.factorial(xs[0])
    if nm in ("sinh", "cosh", "tanh"):
        return getattr(mpmath, nm)(xs[0])
    return _h(nm, *[_q(x) if isinstance(x, (mpmath.mpf, mpmath.mpc)) else str(x) for x in xs])


def evalE(e, env, memo):
    s = mpmath.mpf(0)
    for m, c in e.t.items():
        p = mpmath.mpf(c.numerator) / c.denominator
        for i, x in m:
            v = _evatom(_ATOMS[i], env, memo)
            if x == 1:
                p = p * v
            elif isinstance(x, Fraction):
                if x == Fraction(1, 2):
                    p = p * mpmath.sqrt(v)
                else:
                    p = p * mpmath.power(v, mpmath.mpf(x.numerator) / x.denominator)
            else:
                p = p * v**x
        s = s + p
    return s


_NUM = {}


def numeric(e):
    v = _NUM.get(e)
    if v is None:
        def bad(a):
            raise KeyError(a)
        v = evalE(e, bad, {})
        _NUM[e] = v
    return v


def sampler(seed):
    def env(a):
        if not a.real:
            return mpmath.mpc(_h("s", seed, a.args[0], "re"), _h("s", seed, a.args[0], "im"))
        u = (_h("s", seed, a.args[0]) - mpmath.mpf(1) / 7 + 1) / 2
        lo, _, hi, _ = a.lo, 0, a.hi, 0
        o = OVER.get(a.id)
        if o is not None:
            lo, hi = o[0], o[2]
        f = lambda q: mpmath.mpf(q.numerator) / q.denominator
        if lo is not None and hi is not None:
            v = f(lo) + (f(hi) - f(lo)) * (mpmath.mpf(1) / 20 + u * 9 / 10)
        elif lo is not None:
            v = f(lo) + mpmath.mpf(1) / 20 + 3 * u
        elif hi is not None:
            v = f(hi) - mpmath.mpf(1) / 20 - 3 * u
        else:
            v = 4 * u - 2
        if a.integer:
            v = mpmath.nint(v if (lo is not None and hi is not None) else v * 5)
            if lo is not None and v < f(lo):
                v = mpmath.mpf(-((-lo.numerator) // lo.denominator))
            if hi is not None and v > f(hi):
                v = mpmath.mpf(hi.numerator // hi.denominator)
        return v
    return env


def equal(a, b, n=3, tol=None):
    """Identity of two normal forms. Exact when the normal forms coincide, identity testing otherwise."""
    if a.t == b.t:
        return True
    if a.is_const() and b.is_const() and tol is None:
        return False
    tol = mpmath.mpf(10)**-22 if tol is None else mpmath.mpf(tol)
    for s in range(n):
        env = sampler(s)
        try:
            x = evalE(a, env, {})
            y = evalE(b, env, {})
        except ZeroDivisionError:
            continue
        if mpmath.isnan(_r(x)) and mpmath.isnan(_r(y)):
            continue
        if not mpmath.isfinite(abs(x)) or not mpmath.isfinite(abs(y)):
            if x == y:
                continue
            return False
        if abs(x - y) > tol * (1 + max(abs(x), abs(y))):
            return False
    return True


# ---------------------------------------------------------------- printing
def atom_str(a):
    k = a.kind
    if k == "sym":
        return a.args[0]
    if k in ("pi", "e", "I", "inf", "nan"):
        return k
    if k == "prime":
        return str(a.args[0])
    if k == "base":
        return "(" + estr(a.args[0]) + ")"
    if k == "fn":
        return f"{a.args[0]}({', '.join(str(x) for x in a.args[1:])})"
    return f"<{k}>"


def estr(e, limit=12):
    if not e.t:
        return "0"
    out = []
    for n, (m, c) in enumerate(sorted(e.t.items(), key=lambda z: [(i, -x) for i, x in z[0]])):
        if n >= limit:
            out.append("...")
            break
        fs = []
        for i, x in m:
            s = atom_str(_ATOMS[i])
            fs.append(s if x == 1 else f"{s}^{x}")
        if c == 1 and fs:
            out.append("*".join(fs))
        elif c == -1 and fs:
            out.append("-" + "*".join(fs))
        else:
            cs = str(c) if c.denominator == 1 or len(str(c)) < 14 else f"{float(c):.6g}"
            out.append("*".join([cs] + fs))
    return " + ".join(out).replace("+ -", "- ")


def poly_coeffs(e, symbol):
    """Coefficients {power: Fraction} of a univariate polynomial in symbol or None."""
    (m, c), = symbol.t.items()
    sid = m[0][0]
    r = {}
    for m, c in e.t.items():
        if m == ():
            r[0] = c
        elif len(m) == 1 and m[0][0] == sid and isinstance(m[0][1], int):
            r[m[0][1]] = c
        else:
            return None
    return r
