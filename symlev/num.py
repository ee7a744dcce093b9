"""Symbolic scalars with IEEE-style missing / infinite values."""
import math
from fractions import Fraction

from . import terms as T
from .terms import B, TRUE, FALSE, band, bor, bnot, tob


class Unsupported(Exception):
    """the program did something the symbolic layer does not model"""


def _is_nat(x):
    return type(x).__name__ == "NaTType"


class Num:
    """value p, missing if `nan`, infinite (with the sign of p) if `inf`"""

    __slots__ = ("p", "nan", "inf")
    __array_priority__ = 1000

    def __init__(self, p, nan=FALSE, inf=FALSE):
        self.p = p
        self.nan = nan
        self.inf = inf

    # -- numpy protocol (array op scalar)
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from .symarray import array_ufunc

        return array_ufunc(ufunc, method, inputs, kw)

    def is_plain(self):
        return self.nan is FALSE and self.inf is FALSE

    def is_const(self):
        return (
            self.nan.kind == "const" and self.inf.kind == "const" and (self.nan is TRUE or self.p.is_const())
        )

    def concrete(self):
        if self.nan is TRUE:
            return math.nan
        if self.inf is TRUE:
            return math.inf if self.p.const() > 0 else -math.inf
        return float(self.p.const())

    def __float__(self):
        if self.is_const():
            return self.concrete()
        raise Unsupported("float() of a symbolic value")

    def __int__(self):
        if self.is_const():
            return int(self.concrete())
        raise Unsupported("int() of a symbolic value")

    def __index__(self):
        if self.is_const() and self.nan is FALSE:
            f = self.p.const()
            if f.denominator == 1:
                return int(f)
        raise Unsupported("index from a symbolic value")

    def __bool__(self):
        return bool(bor(self.nan, self.inf, bnot(T.beq(self.p, T.P0))))

    def __hash__(self):
        return hash((self.p, self.nan.bid, self.inf.bid))

    def __repr__(self):
        if self.is_const():
            return repr(self.concrete())
        return f"Num({self.p!r}{', nan:' + repr(self.nan) if self.nan is not FALSE else ''})"

    __str__ = __repr__

    def __format__(self, spec):
        if self.is_const():
            return format(self.concrete(), spec)
        return repr(self)

    def _b(self, o, f, swap=False):
        o = lift(o)
        if o is None:
            return NotImplemented
        return f(o, self) if swap else f(self, o)

    def __add__(self, o):
        return self._b(o, add)

    def __radd__(self, o):
        return self._b(o, add, True)

    def __sub__(self, o):
        return self._b(o, sub)

    def __rsub__(self, o):
        return self._b(o, sub, True)

    def __mul__(self, o):
        return self._b(o, mul)

    def __rmul__(self, o):
        return self._b(o, mul, True)

    def __truediv__(self, o):
        return self._b(o, div)

    def __rtruediv__(self, o):
        return self._b(o, div, True)

    def __floordiv__(self, o):
        return self._b(o, floordiv)

    def __rfloordiv__(self, o):
        return self._b(o, floordiv, True)

    def __mod__(self, o):
        return self._b(o, mod)

    def __rmod__(self, o):
        return self._b(o, mod, True)

    def __pow__(self, o):
        return self._b(o, power)

    def __rpow__(self, o):
        return self._b(o, power, True)

    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return absolute(self)

    def __lt__(self, o):
        return self._b(o, lt)

    def __le__(self, o):
        return self._b(o, le)

    def __gt__(self, o):
        return self._b(o, gt)

    def __ge__(self, o):
        return self._b(o, ge)

    def __eq__(self, o):
        o = lift(o)
        if o is None:
            return False
        return eq(self, o)

    def __ne__(self, o):
        o = lift(o)
        if o is None:
            return True
        return bnot(eq(self, o))

    def __round__(self, n=None):
        raise Unsupported("round() of a symbolic value")

    def item(self):
        return self

    def conjugate(self):
        return self

    @property
    def real(self):
        return self


def lift(x):
    if isinstance(x, Num):
        return x
    if isinstance(x, B):
        if x is TRUE:
            return ONE
        if x is FALSE:
            return ZERO
        return Num(T.pite(x, T.P1, T.P0))
    if isinstance(x, (int, float)) or hasattr(x, "dtype") and getattr(x, "ndim", 1) == 0:
        if hasattr(x, "dtype"):
            if x.dtype.kind not in "fiub":
                if x.dtype.kind == "O":
                    return lift(x.item())
                return None
            if type(x).__name__ == "SymArray":
                return lift(x.item())
            x = x.item()
        if isinstance(x, bool):
            return ONE if x else ZERO
        if isinstance(x, int):
            return Num(T.pconst(Fraction(x)))
        if x != x:
            return NAN
        if math.isinf(x):
            return PINF if x > 0 else NINF
        return Num(T.pconst(Fraction(x)))
    if isinstance(x, Fraction):
        return Num(T.pconst(x))
    if x is None or _is_nat(x):
        return None
    if hasattr(x, "__float__") and not hasattr(x, "shape") and not isinstance(x, str):
        try:
            return lift(float(x))
        except Exception:
            return None
    return None


ZERO = Num(T.P0)
ONE = Num(T.P1)
NAN = Num(T.P0, TRUE)
PINF = Num(T.P1, FALSE, TRUE)
NINF = Num(T.pconst(-1), FALSE, TRUE)


def _sgn(p):
    """polynomial sign(p)"""
    lo, hi = p.iv()
    if lo > 0:
        return T.P1
    if hi < 0:
        return T.pconst(-1)
    return T.pite(T.blt(T.P0, p), T.P1, T.pite(T.blt(p, T.P0), T.pconst(-1), T.P0))


def add(a, b):
    if a.inf is FALSE and b.inf is FALSE:
        return Num(T.padd(a.p, b.p), bor(a.nan, b.nan))
    nan = bor(a.nan, b.nan, band(a.inf, b.inf, bnot(T.beq(a.p, b.p))))
    p = T.pite(a.inf, a.p, T.pite(b.inf, b.p, T.padd(a.p, b.p)))
    return Num(p, nan, bor(a.inf, b.inf))


def neg(a):
    return Num(T.pneg(a.p), a.nan, a.inf)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if a.inf is FALSE and b.inf is FALSE:
        return Num(T.pmul(a.p, b.p), bor(a.nan, b.nan))
    inf = bor(a.inf, b.inf)
    nan = bor(a.nan, b.nan, band(inf, bor(T.beq(a.p, T.P0), T.beq(b.p, T.P0))))
    p = T.pite(inf, T.pmul(_sgn(a.p), _sgn(b.p)), T.pmul(a.p, b.p))
    return Num(p, nan, inf)


def div(a, b):
    from . import engine

    if b.inf is not FALSE or a.inf is not FALSE:
        # x/inf = 0 ; inf/x = inf*sign(x) ; inf/inf = nan
        fin = div(Num(a.p, a.nan), Num(b.p, b.nan)) if b.inf is not TRUE and a.inf is not TRUE else ZERO
        nan = bor(a.nan, b.nan, band(a.inf, b.inf), band(bnot(a.inf), bnot(b.inf), fin.nan))
        inf = bor(band(a.inf, bnot(b.inf)), band(bnot(a.inf), bnot(b.inf), fin.inf))
        sb = _sgn(b.p)
        p = T.pite(a.inf, T.pmul(_sgn(a.p), T.pite(T.beq(sb, T.P0), T.P1, sb)), T.pite(b.inf, T.P0, fin.p))
        return Num(p, nan, inf)
    nan = bor(a.nan, b.nan)
    if b.p.is_const():
        c = b.p.const()
        if c != 0:
            return Num(T.pscale(a.p, 1 / c), nan)
        z = TRUE
    else:
        z = T.beq(b.p, T.P0)
        if z is not FALSE and not engine.possible(band(z, bnot(nan))):
            z = FALSE
    if z is FALSE:
        return Num(T.pmul(a.p, T.pinv(b.p)), nan)
    za = T.beq(a.p, T.P0)
    nan = bor(nan, band(z, za))
    inf = band(z, bnot(za), bnot(bor(a.nan, b.nan)))
    if z is TRUE:
        return Num(_sgn(a.p), nan, inf)
    p = T.pite(z, _sgn(a.p), T.pmul(a.p, T.pinv(b.p)))
    return Num(p, nan, inf)


def power(a, b):
    if b.is_const() and b.is_plain():
        e = b.p.const()
        if e == 0:
            return ONE
        if a.inf is FALSE:
            if e.denominator == 1 and abs(e) <= 64:
                n = int(e)
                if n > 0:
                    return Num(T.ppow(a.p, n), a.nan)
                return div(ONE, Num(T.ppow(a.p, -n), a.nan))
            if e == Fraction(1, 2):
                return sqrt(a)
            if e == Fraction(-1, 2):
                return div(ONE, sqrt(a))
            if e.denominator == 2 and abs(e) < 10:
                s = sqrt(a)
                return power(s, Num(T.pconst(2 * e)))
        if e.denominator == 1 and 0 < e <= 16:
            r = a
            for _ in range(int(e) - 1):
                r = mul(r, a)
            return r
    if a.is_const() and b.is_const():
        return lift(float(a.concrete()) ** b.concrete())
    if a.inf is FALSE and b.inf is FALSE:
        # a**b = exp(b*log a) for a > 0
        return exp(mul(b, log(a)))
    raise Unsupported("power with a symbolic exponent")


def _fnan(a, bad):
    return bor(a.nan, band(bad, bnot(a.nan)))


def sqrt(a):
    if a.inf is not FALSE:         # sqrt(+inf) = +inf, sqrt(-inf) = nan
        r = sqrt(Num(T.pite(a.inf, _sgn(a.p), a.p), a.nan))
        return Num(r.p, r.nan, band(a.inf, bnot(r.nan)))
    bad = T.blt(a.p, T.P0)
    if a.p.is_const() and a.p.const() < 0:
        return NAN
    return Num(T.pfn("sqrt", a.p), _fnan(a, bad))


def _sign_of(f, nan):
    """1 / -1 where the polynomial, a factor of a positive product (thus not zero), can only
    be positive / negative, 0 otherwise"""
    from . import engine

    lo, hi = f.iv()
    if lo >= 0:
        return 1
    if hi <= 0:
        return -1
    if hi > 0 and not engine.possible(band(bnot(T.blt(T.P0, f)), bnot(nan))):
        return 1
    if lo < 0 and not engine.possible(band(bnot(T.blt(f, T.P0)), bnot(nan))):
        return -1
    return 0


def _log_split(p, nan, depth=0):
    """log of a product or quotient (known to be positive wherever it is present) as the
    sum of logs, where the signs of the factors are known"""
    if p.is_const() or depth > 4:
        return T.pfn("log", p)
    c, mono, bases = T._factors(p)
    parts, rest = [], T.P1      # (positive polynomial, exponent)
    unknown = []
    for f, e in [(T.patom(a), e) for a, e in mono] + list(bases.items()):
        at = T.ATOMS[next(iter(f.t))[0][0]] if len(f.t) == 1 else None
        if at is not None and at.kind == "inv":
            f, e = at.args[0], -e
        s = _sign_of(f, nan)
        if s == 0:
            unknown.append((f, e))
            continue
        if s < 0:
            f = T.pneg(f)
            if e % 2:
                c = -c
        parts.append((f, e))
    if len(unknown) == 1 and unknown[0][1] % 2:
        # the product is positive: this settles the sign of the last factor
        (f, e), = unknown
        parts.append((f if c > 0 else T.pneg(f), e))
        c, unknown = abs(c), []
    for f, e in unknown:
        rest = T.pmul(rest, T.ppow(f, e) if e > 0 else T.ppow(T.pinv(f), -e))
    if rest.is_const() and c < 0:
        return T.pfn("log", p)
    if c < 0:
        rest, c = T.pneg(rest), -c
    r = T.pfn("log", T.pconst(c)) if c != 1 else T.P0
    for f, e in parts:
        l = T.pfn("log", f) if len(parts) == 1 and e == 1 and c == 1 else _log_split(f, nan, depth + 1)
        r = T.padd(r, T.pscale(l, Fraction(e)))
    return r if rest.is_const() else T.padd(r, T.pfn("log", rest))


def log(a):
    from . import engine

    if a.inf is not FALSE:         # log(+inf) = +inf, log(-inf) = nan
        if a.inf is not TRUE and not engine.possible(band(a.inf, bnot(a.nan))):
            return log(Num(a.p, a.nan))
        r = log(Num(T.pite(a.inf, _sgn(a.p), a.p), a.nan))
        return Num(T.pite(a.inf, T.P1, r.p), r.nan, bor(band(a.inf, bnot(r.nan)), r.inf))
    if a.p.is_const():
        c = a.p.const()
        if c < 0:
            return NAN
        if c == 0:
            return Num(T.pconst(-1), a.nan, bnot(a.nan))
        return Num(T.pfn("log", a.p), a.nan)
    bad = T.blt(a.p, T.P0)
    z = T.beq(a.p, T.P0)
    if z is not FALSE and not engine.possible(band(z, bnot(a.nan))):
        z = FALSE
    if bad is not FALSE and not engine.possible(band(bad, bnot(a.nan))):
        bad = FALSE
    r = _log_split(a.p, bor(a.nan, z, bad))
    if z is FALSE:
        return Num(r, _fnan(a, bad))
    return Num(T.pite(z, T.pconst(-1), r), _fnan(a, bad), band(z, bnot(a.nan)))


def exp(a):
    return _fn("exp", a)


def _fn(name, a):
    if a.inf is not FALSE:
        if name == "arctan":
            h = T.pscale(_sgn(a.p), Fraction(math.pi / 2))
            return Num(T.pite(a.inf, h, T.pfn(name, a.p)), a.nan)
        if name == "exp":
            return Num(
                T.pite(a.inf, T.pite(T.blt(T.P0, a.p), T.P1, T.P0), T.pfn(name, a.p)),
                a.nan, band(a.inf, T.blt(T.P0, a.p)))
        if name in ("sin", "cos", "tan"):
            return Num(T.pfn(name, a.p), bor(a.nan, a.inf))
        raise Unsupported(f"{name} of an infinite value")
    if name in ("arcsin", "arccos"):
        bad = bor(T.blt(T.P1, a.p), T.blt(a.p, T.pconst(-1)))
        return Num(T.pfn(name, a.p), _fnan(a, bad))
    return Num(T.pfn(name, a.p), a.nan)


def absolute(a):
    lo, hi = a.p.iv()
    if lo >= 0:
        return a
    if hi <= 0:
        return neg(a)
    c = T.blt(a.p, T.P0)
    if c is FALSE:
        return a
    if c is TRUE:
        return neg(a)
    return Num(T.pite(c, T.pneg(a.p), a.p), a.nan, a.inf)


def ite(c, a, b):
    """select; c is a B"""
    if c.kind == "const":
        return a if c.args[0] else b
    if isinstance(a, B) or isinstance(b, B):
        ab, bb = tob(a), tob(b)
        if ab is not None and bb is not None:
            return T.bite(c, ab, bb)
    a, b = lift(a), lift(b)
    nan = T.bite(c, a.nan, b.nan)
    inf = T.bite(c, a.inf, b.inf)
    # a branch known missing contributes no value
    if a.nan is TRUE:
        return Num(b.p, nan, band(bnot(c), b.inf))
    if b.nan is TRUE:
        return Num(a.p, nan, band(c, a.inf))
    return Num(T.pite(c, a.p, b.p), nan, inf)


def _ordcmp(a, b, fin, strict):
    ok = band(bnot(a.nan), bnot(b.nan))
    if ok is FALSE:
        return FALSE
    if a.inf is FALSE and b.inf is FALSE:
        return band(ok, fin)
    # extended: compare signs when one side is infinite
    z = T.P0
    one_a = band(a.inf, bnot(b.inf))
    one_b = band(b.inf, bnot(a.inf))
    both = band(a.inf, b.inf)
    r = bor(
        band(one_a, T.blt(a.p, z)),
        band(one_b, T.blt(z, b.p)),
        band(both, T.blt(a.p, b.p) if strict else T.ble(a.p, b.p)),
        band(bnot(a.inf), bnot(b.inf), fin),
    )
    return band(ok, r)


def lt(a, b):
    return _ordcmp(a, b, T.blt(a.p, b.p), True)


def le(a, b):
    return _ordcmp(a, b, T.ble(a.p, b.p), False)


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def eq(a, b):
    ok = band(bnot(a.nan), bnot(b.nan))
    if a.inf is FALSE and b.inf is FALSE:
        return band(ok, T.beq(a.p, b.p))
    return band(
        ok,
        T.bite(a.inf, b.inf, bnot(b.inf)),
        T.beq(a.p, b.p),
    )


def minimum(a, b):
    return _mm(a, b, lt(b, a))


def maximum(a, b):
    return _mm(a, b, lt(a, b))


def _mm(a, b, takeb):
    if a.nan is TRUE or b.nan is TRUE:
        return NAN
    aa, bb = Num(a.p, FALSE, a.inf), Num(b.p, FALSE, b.inf)
    # condition without the missing part keeps terms small
    r = ite(takeb if (a.nan is FALSE and b.nan is FALSE) else _strip(takeb, a, b), bb, aa)
    return Num(r.p, bor(a.nan, b.nan), r.inf)


def _strip(c, a, b):
    return c


def fmin(a, b):
    return ite(a.nan, b, ite(b.nan, a, minimum(Num(a.p, FALSE, a.inf), Num(b.p, FALSE, b.inf))))


def fmax(a, b):
    return ite(a.nan, b, ite(b.nan, a, maximum(Num(a.p, FALSE, a.inf), Num(b.p, FALSE, b.inf))))


def floor(a):
    return Num(T.pfn("floor", a.p), a.nan, a.inf)


def ceil(a):
    return neg(floor(neg(a)))


def trunc(a):
    return ite(T.blt(a.p, T.P0), ceil(a), floor(a))


def rint(a):
    """to the nearest whole number, halves to the even one"""
    r = floor(add(a, lift(0.5)))
    tie = T.beq(T.psub(r.p, a.p), T.pconst(Fraction(1, 2)))
    h = T.pfn("floor", T.pscale(r.p, Fraction(1, 2)))
    odd = bnot(T.beq(T.pscale(h, Fraction(2)), r.p))
    return ite(T.band(tie, odd), sub(r, ONE), r)


def floordiv(a, b):
    return floor(div(a, b))


def mod(a, b):
    return sub(a, mul(b, floordiv(a, b)))


def sign(a):
    return Num(_sgn(a.p), a.nan)


D2R = Fraction(math.pi / 180.0)
R2D = Fraction(180.0 / math.pi)


def deg2rad(a):
    return Num(T.pscale(a.p, D2R), a.nan, a.inf)


def rad2deg(a):
    return Num(T.pscale(a.p, R2D), a.nan, a.inf)


def log10(a):
    return mul(log(a), lift(1 / math.log(10.0)))


def log2(a):
    return mul(log(a), lift(1 / math.log(2.0)))


def log1p(a):
    return log(add(a, ONE))


def expm1(a):
    return sub(exp(a), ONE)


def hypot(a, b):
    return sqrt(add(mul(a, a), mul(b, b)))


def arctan2(a, b):
    v = T.pfn("arctan2", a.p, b.p)
    if a.inf is not FALSE or b.inf is not FALSE:
        q = lambda f: T.pscale(_sgn(a.p), Fraction(f * math.pi))
        pos = T.blt(T.P0, b.p)
        far = T.pite(pos, T.P0, T.pite(T.blt(a.p, T.P0), T.pconst(Fraction(-math.pi)), T.pconst(Fraction(math.pi))))
        v = T.pite(a.inf, T.pite(b.inf, T.pite(pos, q(0.25), q(0.75)), q(0.5)), T.pite(b.inf, far, v))
    return Num(v, bor(a.nan, b.nan))


UN = {
    "negative": neg, "positive": lambda a: a, "absolute": absolute, "fabs": absolute,
    "square": lambda a: mul(a, a), "sqrt": sqrt, "reciprocal": lambda a: div(ONE, a),
    "exp": exp, "log": log, "log10": log10, "log2": log2, "log1p": log1p, "expm1": expm1,
    "sin": lambda a: _fn("sin", a), "cos": lambda a: _fn("cos", a), "tan": lambda a: _fn("tan", a),
    "arcsin": lambda a: _fn("arcsin", a), "arccos": lambda a: _fn("arccos", a),
    "arctan": lambda a: _fn("arctan", a), "tanh": lambda a: _fn("tanh", a),
    "deg2rad": deg2rad, "radians": deg2rad, "rad2deg": rad2deg, "degrees": rad2deg,
    "floor": floor, "ceil": ceil, "trunc": trunc, "sign": sign, "conjugate": lambda a: a,
    "rint": rint,
}
BIN = {
    "add": add, "subtract": sub, "multiply": mul, "divide": div, "true_divide": div,
    "floor_divide": floordiv, "remainder": mod, "power": power, "float_power": power,
    "minimum": minimum, "maximum": maximum, "fmin": fmin, "fmax": fmax,
    "hypot": hypot, "arctan2": arctan2,
}
CMP = {
    "less": lt, "less_equal": le, "greater": gt, "greater_equal": ge, "equal": eq,
    "not_equal": lambda a, b: bnot(eq(a, b)),
}

for _n, _f in UN.items():
    if not hasattr(Num, _n):
        setattr(Num, _n, (lambda f: lambda self: f(self))(_f))


import numbers as _numbers  # noqa: E402

_numbers.Number.register(Num)
