"""Symbolic terms: polynomials over atoms, and boolean formulas over polynomial
comparisons.  Exact rational arithmetic.

An expression the program under test computes is kept in a canonical form
(sum of monomials over hash-consed atoms) so that re-associated but equal
computations meet in the same term.  Atoms are

  var   a symbolic input (with interval bounds)
  inv   1/p           for a polynomial p
  fn    f(p, ...)     sin, cos, sqrt, log, ... (axiomatised for the solver)
  ite   if c then p else q
"""
from fractions import Fraction
import decimal
import math

ZERO = Fraction(0)
ONE = Fraction(1)
INF = float("inf")

ATOMS = []          # id -> Atom
_ATOM_KEY = {}      # key -> id
STATS = {"terms": 0}
MAX_TERMS = 20000


class TermLimit(Exception):
    """a term grew beyond MAX_TERMS monomials"""


def reset():
    ATOMS.clear()
    _ATOM_KEY.clear()
    _BCACHE.clear()
    _FACT.clear()
    Atom.nlin_cache = {}


class Atom:
    __slots__ = ("aid", "kind", "name", "args", "lo", "hi", "depth")

    def __repr__(self):
        return f"<{self.kind} {self.name} #{self.aid}>"


def _mk_atom(kind, name, args, key, lo, hi, depth):
    aid = _ATOM_KEY.get(key)
    if aid is not None:
        return aid
    a = Atom()
    a.aid = len(ATOMS)
    a.kind, a.name, a.args = kind, name, args
    a.lo, a.hi, a.depth = lo, hi, depth
    ATOMS.append(a)
    _ATOM_KEY[key] = a.aid
    STATS["terms"] += 1
    return a.aid


# ---------------------------------------------------------------- intervals
def _imul(a, b):
    (al, ah), (bl, bh) = a, b
    c = []
    for x in (al, ah):
        for y in (bl, bh):
            if x == 0 or y == 0:
                c.append(ZERO)
            else:
                c.append(_xmul(x, y))
    return (min(c), max(c))


def _xmul(x, y):
    if isinstance(x, float) or isinstance(y, float):   # +-inf only
        s = (1 if x > 0 else -1) * (1 if y > 0 else -1)
        return INF if s > 0 else -INF
    return x * y


def _xadd(x, y):
    if isinstance(x, float):
        return x
    if isinstance(y, float):
        return y
    return x + y


def _ipow(a, n):
    lo, hi = a
    if n == 1:
        return a
    if n % 2 == 0:
        l2, h2 = abs(lo), abs(hi)
        m = max(l2, h2)
        if lo <= 0 <= hi:
            mn = ZERO
        else:
            mn = min(l2, h2)
        return (_pw(mn, n), _pw(m, n))
    return (_pw(lo, n), _pw(hi, n))


def _pw(x, n):
    if isinstance(x, float):
        if x > 0:
            return INF
        return INF if n % 2 == 0 else -INF
    return x**n


def atom_iv(aid):
    a = ATOMS[aid]
    return (a.lo, a.hi)


def mono_iv(m):
    r = (ONE, ONE)
    for aid, e in m:
        r = _imul(r, _ipow(atom_iv(aid), e))
    return r


# -------------------------------------------------------------------- Poly
class Poly:
    __slots__ = ("t", "_h", "_iv", "_src")

    def __init__(self, t):
        self.t = t
        self._h = None
        self._iv = None
        self._src = None        # (op, a, b, depth): how it was computed, for tighter bounds
        if len(t) > MAX_TERMS:
            raise TermLimit(f"{len(t)} monomials")

    def key(self):
        return frozenset(self.t.items())

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), ZERO)

    def iv(self):
        if self._iv is None:
            lo = hi = ZERO
            for m, c in self.t.items():
                l, h = _imul((c, c), mono_iv(m))
                lo, hi = _xadd_l(lo, l), _xadd_h(hi, h)
            if self._src is not None:
                op, a, b, _ = self._src
                self._src = None
                x, y = a.iv(), b.iv()
                if op == "+":
                    l, h = _xadd_l(x[0], y[0]), _xadd_h(x[1], y[1])
                else:
                    l, h = _imul(x, y)
                lo, hi = max(lo, l), min(hi, h)
            self._iv = (lo, hi)
        return self._iv

    def atoms(self):
        s = set()
        for m in self.t:
            for aid, _ in m:
                s.add(aid)
        return s

    def depth(self):
        d = 0
        for a in self.atoms():
            d = max(d, ATOMS[a].depth)
        return d

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in list(self.t.items())[:12]:
            s = "*".join(
                (ATOMS[a].name if ATOMS[a].kind == "var" else f"{ATOMS[a].kind}{a}")
                + (f"^{e}" if e != 1 else "")
                for a, e in m
            )
            out.append(f"{float(c):.6g}" + ("*" + s if s else ""))
        if len(self.t) > 12:
            out.append("...")
        return " + ".join(out)


def _from(p, op, a, b):
    """remember that p = a op b"""
    if p._src is None and p._iv is None and len(p.t) > 1:
        d = 1 + max(a._src[3] if a._src else 0, b._src[3] if b._src else 0)
        if d < 150:
            p._src = (op, a, b, d)
    return p


def _xadd_l(x, y):
    if isinstance(x, float) or isinstance(y, float):
        return -INF
    return x + y


def _xadd_h(x, y):
    if isinstance(x, float) or isinstance(y, float):
        return INF
    return x + y


def pconst(c):
    c = c if isinstance(c, Fraction) else Fraction(c)
    return Poly({(): c}) if c != 0 else P0


P0 = Poly({})
P1 = Poly({(): ONE})
PM1 = Poly({(): -ONE})


def patom(aid):
    return Poly({((aid, 1),): ONE})


def padd(a, b):
    if not a.t:
        return b
    if not b.t:
        return a
    if len(a.t) < len(b.t):
        a, b = b, a
    t = dict(a.t)
    for m, c in b.t.items():
        v = t.get(m)
        if v is None:
            t[m] = c
        else:
            v = v + c
            if v == 0:
                del t[m]
            else:
                t[m] = v
    return _from(Poly(t), "+", a, b)


def pneg(a):
    r = Poly({m: -c for m, c in a.t.items()})
    return _from(r, "*", a, PM1)


def psub(a, b):
    return padd(a, pneg(b))


def pscale(a, c):
    if c == 0:
        return P0
    if c == 1:
        return a
    return _from(Poly({m: v * c for m, v in a.t.items()}), "*", a, pconst(c))


def _mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    # sqrt(x)^2 and inv*var cancellation are resolved lazily in `_reduce_mono`
    return tuple(sorted(d.items()))


def _pmul_raw(a, b):
    if len(a.t) * len(b.t) > 40 * MAX_TERMS:
        raise TermLimit(f"product {len(a.t)}x{len(b.t)}")
    t = {}
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m = _mmul(m1, m2)
            c = c1 * c2
            v = t.get(m)
            if v is None:
                t[m] = c
            else:
                v = v + c
                if v == 0:
                    del t[m]
                else:
                    t[m] = v
    return _simplify(Poly(t))


# products of multi-term polynomials are remembered in factored form, so that
# 1/(a*b) becomes inv(a)*inv(b) and a*inv(a) cancels
_FACT = {}      # primitive poly -> (scale, ((base, exp), ...))


def _factors(p):
    """p = c * mono * prod base^exp ; bases primitive and multi-term"""
    c, mono, q = content(p)
    if q.is_const():
        return c * q.const(), mono, {}
    f = _FACT.get(q)
    if f is None:
        return c, mono, {q: 1}
    return c * f[0], mono, dict(f[1])


def _has_inv_atoms(p):
    for m in p.t:
        for a, _ in m:
            if ATOMS[a].kind == "inv":
                return True
    return False


def _common_inv(p):
    """inv atoms (with exponent) dividing every monomial of p"""
    it = iter(p.t)
    common = {a: e for a, e in next(it) if ATOMS[a].kind == "inv"}
    for m in it:
        if not common:
            break
        d = dict(m)
        for a in list(common):
            if a in d:
                common[a] = min(common[a], d[a])
            else:
                del common[a]
    return common


def _lower(p, aid, k):
    t = {}
    for m, c in p.t.items():
        d = dict(m)
        d[aid] -= k
        t[tuple(sorted((a, e) for a, e in d.items() if e))] = c
    return Poly(t)


def _unfactor(c, mono, fac):
    r = Poly({mono: c})
    for base, e in fac.items():
        for _ in range(e):
            r = _pmul_raw(r, base)
    return r


def _cancel(a, b):
    """cancel inv(base) in a against factors base of b"""
    if len(b.t) < 2:
        return a, b
    com = _common_inv(a)
    if not com:
        return a, b
    com = {i: e for i, e in com.items() if len(ATOMS[i].args[0].t) > 1}
    if not com:
        return a, b
    c, mono, fac = _factors(b)
    hit = False
    for i, e in com.items():
        base = ATOMS[i].args[0]
        k = min(e, fac.get(base, 0))
        if k:
            hit = True
            a = _lower(a, i, k)
            fac[base] -= k
    if not hit:
        return a, b
    return a, _unfactor(c, mono, {q: e for q, e in fac.items() if e})


def pmul(a, b):
    if not a.t or not b.t:
        return P0
    if a.is_const():
        return pscale(b, a.const())
    if b.is_const():
        return pscale(a, b.const())
    la, lb = len(a.t), len(b.t)
    a0, b0 = a, b
    if la > 1 or lb > 1:
        if la > 1 and _has_inv_atoms(b):
            b, a = _cancel(b, a)
        if lb > 1 and _has_inv_atoms(a):
            a, b = _cancel(a, b)
        if a.is_const() or b.is_const():
            return _from(pmul(a, b), "*", a0, b0)
    r = _from(_pmul_raw(a, b), "*", a0, b0)
    if len(a.t) > 1 and len(b.t) > 1 and 1 < len(r.t) <= 2000:
        ca, ma, fa = _factors(a)
        cb, mb, fb = _factors(b)
        fac = dict(fa)
        for q, e in fb.items():
            fac[q] = fac.get(q, 0) + e
        c, mono, q = content(r)
        if q not in _FACT and not q.is_const():
            # fix the scale by comparing one coefficient
            m0 = _mmul(ma, mb)
            if m0 == mono:
                _FACT[q] = ((ca * cb) / c, tuple(fac.items()))
    return r


_INV_OF_ATOM = {}


def _simplify(p):
    """rewrite monomials containing x*inv(x) (x a single atom) and sqrt(q)^2"""
    need = False
    for m in p.t:
        if len(m) == 0:
            continue
        ids = {a for a, _ in m}
        for a, e in m:
            at = ATOMS[a]
            if at.kind == "inv":
                q = at.args[0]
                if len(q.t) == 1:
                    need = True
            elif at.kind == "fn" and at.name == "sqrt" and e >= 2:
                need = True
        if need:
            break
    if not need:
        return p
    out = P0
    for m, c in p.t.items():
        d = dict(m)
        extra = P1
        for a, e in m:
            at = ATOMS[a]
            if at.kind == "inv" and len(at.args[0].t) == 1:
                # inv of a single atom (canonical: coefficient 1, exponent 1)
                (mm, _), = at.args[0].t.items()
                (x, _), = mm
                if x in d and a in d:
                    k = min(d[x], d[a])
                    d[x] -= k
                    d[a] -= k
            elif at.kind == "fn" and at.name == "sqrt" and d.get(a, 0) >= 2:
                k = d[a] // 2
                d[a] -= 2 * k
                q = at.args[0]
                for _ in range(k):
                    extra = pmul(extra, q)
        mm = tuple(sorted((a, e) for a, e in d.items() if e))
        out = padd(out, pmul(extra, Poly({mm: c})) if extra is not P1 else Poly({mm: c}))
    return out


def ppow(a, n):
    if n < 0:
        return ppow(pinv(a), -n)
    r = P1
    for _ in range(n):
        r = pmul(r, a)
    return r


def content(p):
    """split p = c * mono * q, q primitive with leading coefficient 1"""
    ms = list(p.t)
    common = dict(ms[0])
    for m in ms[1:]:
        d = dict(m)
        for a in list(common):
            if a in d:
                common[a] = min(common[a], d[a])
            else:
                del common[a]
        if not common:
            break
    mono = tuple(sorted(common.items()))
    if mono:
        t = {}
        for m, c in p.t.items():
            d = dict(m)
            for a, e in mono:
                d[a] -= e
            t[tuple(sorted((a, e) for a, e in d.items() if e))] = c
    else:
        t = p.t
    lead = max(t, key=lambda m: (sum(e for _, e in m), m))
    c = t[lead]
    if c != 1:
        t = {m: v / c for m, v in t.items()}
    q = Poly(t)
    if len(t) > 1:
        lo, hi = mono_iv(mono)
        if (lo > 0 or hi < 0) and not isinstance(lo, float) and not isinstance(hi, float):
            k = Poly({})
            k._iv = _imul((1 / hi, 1 / lo), (1 / c, 1 / c))
            _from(q, "*", p, k)
    return c, mono, q


def pinv(p):
    """1/p (the caller has dealt with p == 0)"""
    if p.is_const():
        return pconst(1 / p.const())
    c, mono, q = content(p)
    r = pconst(1 / c)
    for a, e in mono:
        at = ATOMS[a]
        if at.kind == "inv":
            r = pmul(r, ppow(at.args[0], e))
        else:
            r = pmul(r, Poly({((_inv_atom(patom(a)), e),): ONE}))
    if not q.is_const():
        f = _FACT.get(q)
        if f is None:
            one = {a for m in q.t for a, _ in m if ATOMS[a].kind == "inv"} if len(q.t) <= 40 else ()
            lo, hi = q.iv() if len(one) == 1 else (0, 0)
            if len(one) == 1 and not (lo * hi > 0 and hi - lo <= min(abs(lo), abs(hi)) / 1000):      # unless the sum hardly varies
                # 1/(u + v/w) = w/(u*w + v)
                (a,) = one
                w = ATOMS[a].args[0]
                if len(w.t) * len(q.t) <= 400:
                    n, dens = clear(q)
                    if dens and n.t and len(n.t) <= 400:
                        d = P1
                        for b, k in dens:
                            d = pmul(d, ppow(b, k))
                        return pmul(pmul(r, d), pinv(_from(n, "*", q, d)))
            r = pmul(r, patom(_inv_atom(q)))
        else:
            r = pscale(r, 1 / f[0])
            for base, e in f[1]:
                r = pmul(r, Poly({((_inv_atom(base), e),): ONE}))
    return r


def _inv_atom(q):
    lo, hi = q.iv()
    if lo > 0 or hi < 0:
        l2 = ZERO if isinstance(hi, float) else 1 / hi
        h2 = ZERO if isinstance(lo, float) else 1 / lo
    else:
        l2, h2 = -INF, INF
    return _mk_atom("inv", "inv", (q,), ("inv", q.key()), l2, h2, q.depth() + 1)


def mkvar(name, lo=-INF, hi=INF):
    lo = lo if lo == -INF else Fraction(lo)
    hi = hi if hi == INF else Fraction(hi)
    aid = _mk_atom("var", name, (), ("var", name), lo, hi, 0)
    return patom(aid)


def _fl(x, up):
    """float -> Fraction, rounded outward"""
    if math.isinf(x):
        return x
    y = math.nextafter(x, INF if up else -INF)
    return Fraction(y)


def _ff(x):
    return x if isinstance(x, float) else float(x)


def fn_iv(name, args):
    ivs = [p.iv() for p in args]
    lo, hi = ivs[0]
    try:
        if name in ("sin", "cos"):
            return (Fraction(-1), Fraction(1))
        if name == "sqrt":
            l = 0.0 if lo < 0 else math.sqrt(_ff(lo))
            h = INF if hi == INF else math.sqrt(max(0.0, _ff(hi)))
            return (max(ZERO, _fl(l, False)), _fl(h, True))
        if name == "log":
            l = -INF if lo <= 0 else math.log(_ff(lo))
            h = INF if hi == INF else math.log(_ff(hi))
            return (_fl(l, False), _fl(h, True))
        if name == "exp":
            l = 0.0 if lo == -INF else math.exp(_ff(lo))
            h = INF if hi == INF else math.exp(_ff(hi))
            return (max(ZERO, _fl(l, False)), _fl(h, True))
        if name == "arctan":
            return (_fl(math.atan(_ff(lo)), False), _fl(math.atan(_ff(hi)), True))
        if name == "arctan2":
            return (_fl(-math.pi, False), _fl(math.pi, True))
        if name == "arcsin":
            return (_fl(-math.pi / 2, False), _fl(math.pi / 2, True))
        if name == "arccos":
            return (ZERO, _fl(math.pi, True))
        if name == "tanh":
            return (Fraction(-1), Fraction(1))
        if name == "floor":
            return (lo if isinstance(lo, float) else Fraction(math.floor(lo)),
                    hi if isinstance(hi, float) else Fraction(math.floor(hi)))
    except (OverflowError, ValueError):
        pass
    return (-INF, INF)


PYFN = {
    "sin": math.sin, "cos": math.cos, "tan": math.tan, "sqrt": math.sqrt,
    "log": math.log, "exp": math.exp, "arctan": math.atan, "arcsin": math.asin,
    "arccos": math.acos, "tanh": math.tanh, "arctan2": math.atan2,
    "floor": math.floor, "sinh": math.sinh, "cosh": math.cosh,
}


def frac(x):
    """exact rational of a python / numpy number"""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, int):
        return Fraction(x)
    return Fraction(float(x)) if not hasattr(x, "__index__") else Fraction(int(x))


_LN = {}


def _ln(v):
    """log of a positive rational to 60 digits, so that log(a) + log(b) and log(a*b) agree"""
    if v.denominator != 1:
        return _ln(Fraction(v.numerator)) - _ln(Fraction(v.denominator))
    r = _LN.get(v)
    if r is None:
        with decimal.localcontext() as ctx:
            ctx.prec = 60
            r = _LN[v] = Fraction(decimal.Decimal(v.numerator).ln())
    return r


def pfn(name, *args):
    """f(args) for polynomial args, canonicalised; domain handled by caller"""
    if all(p.is_const() for p in args):
        vals = [p.const() for p in args]
        if name == "sqrt":
            n, d = vals[0].numerator, vals[0].denominator
            if n >= 0:
                rn, rd = math.isqrt(n), math.isqrt(d)
                if rn * rn == n and rd * rd == d:
                    return pconst(Fraction(rn, rd))
        if name == "floor":
            return pconst(math.floor(vals[0]))
        if name == "log" and vals[0] > 0:
            return pconst(_ln(vals[0]))
        try:
            return pconst(Fraction(PYFN[name](*[float(v) for v in vals])))
        except (ValueError, OverflowError):
            return P0           # outside the domain: the caller flags it
    p = args[0]
    if len(args) == 1:
        # push through a lone ite
        if len(p.t) == 1:
            (m, c), = p.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == "ite":
                cond, x, y = ATOMS[m[0][0]].args
                return pite(cond, pfn(name, x), pfn(name, y))
        if name in ("sin", "tan", "arctan", "arcsin", "cos", "tanh", "sinh"):
            lead = max(p.t, key=lambda m: (sum(e for _, e in m), m))
            if p.t[lead] < 0:
                q = pfn(name, pneg(p))
                return q if name == "cos" else pneg(q)
        if name == "tan":
            return pmul(pfn("sin", p), pinv(pfn("cos", p)))
        if name == "log":
            # log(exp(x)) = x ; log(c*a*b/q) = log c + log a + ...
            c, mono, q = content(p)
            if c > 0 and all(atom_iv(a)[0] > 0 for a, _ in mono) and (
                mono or c != 1
            ):
                r = pconst(_ln(c)) if c != 1 else P0
                for a, e in mono:
                    at = ATOMS[a]
                    if at.kind == "inv":
                        r = psub(r, pscale(pfn("log", at.args[0]), Fraction(e)))
                    elif at.kind == "fn" and at.name == "exp":
                        r = padd(r, pscale(at.args[0], Fraction(e)))
                    else:
                        r = padd(r, pscale(patom(_fn_atom("log", (patom(a),))), Fraction(e)))
                if not (q.is_const() and q.const() == 1):
                    r = padd(r, pfn("log", q))
                return r
            if len(p.t) == 1 and c == 1 and len(mono) == 1 and mono[0][1] == 1:
                at = ATOMS[mono[0][0]]
                if at.kind == "fn" and at.name == "exp":
                    return at.args[0]
        if name == "exp" and len(p.t) == 1:
            (m, c), = p.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                at = ATOMS[m[0][0]]
                if at.kind == "fn" and at.name == "log":
                    return at.args[0]
        if name == "sqrt":
            c, mono, q = content(p)
            # sqrt(c * x^2k * q): pull out even powers of atoms known >= 0
            out, rest = P1, {}
            for a, e in mono:
                if e >= 2 and atom_iv(a)[0] >= 0:
                    out = pmul(out, Poly({((a, e // 2),): ONE}))
                    if e % 2:
                        rest[a] = 1
                else:
                    rest[a] = e
            if out is not P1:
                inner = pmul(pscale(q, c), Poly({tuple(sorted(rest.items())): ONE}))
                return pmul(out, pfn("sqrt", inner))
    if name == "arctan2" and args[1].iv()[0] > 0:
        return pfn("arctan", pmul(args[0], pinv(args[1])))
    return patom(_fn_atom(name, args))


_FN_BY_NAME = {}


def _fn_atom(name, args):
    key = ("fn", name) + tuple(p.key() for p in args)
    aid = _ATOM_KEY.get(key)
    if aid is not None:
        return aid
    # same argument up to denominators?
    for other in fn_atoms(name):
        if len(other.args) == len(args) and all(
            _equal_rational(x, y) for x, y in zip(other.args, args)
        ):
            _ATOM_KEY[key] = other.aid
            return other.aid
    lo, hi = fn_iv(name, args)
    return _mk_atom("fn", name, args, key, lo, hi, max(p.depth() for p in args) + 1)


def fn_atoms(name=None):
    return [a for a in ATOMS if a.kind == "fn" and (name is None or a.name == name)]


def _has_inv(p):
    return any(ATOMS[a].kind == "inv" for a in p.atoms())


def _equal_rational(x, y):
    d = psub(x, y)
    if not d.t:
        return True
    if not _has_inv(d):
        return False
    n, den = clear(d)
    return not n.t


def clear(p, limit=4000):
    """p = N / D with N free of (outer) inv atoms.  Returns (N, [ (poly, k) ]).

    The denominators are returned as a factor list; on blow-up p is returned
    unchanged with an empty list."""
    dens = []
    cur = p
    for _ in range(8):
        invs = {}
        for m in cur.t:
            for a, e in m:
                if ATOMS[a].kind == "inv":
                    invs[a] = max(invs.get(a, 0), e)
        if not invs:
            return cur, dens
        # deepest first, so nested inverses surface
        a = max(invs, key=lambda i: (ATOMS[i].depth, i))
        k = invs[a]
        q = ATOMS[a].args[0]
        if len(cur.t) * (len(q.t) ** k) > limit * 4:
            return p, []
        pows = [P1]
        for _i in range(k):
            pows.append(pmul(pows[-1], q))
        acc = P0
        buckets = {}
        for m, c in cur.t.items():
            d = dict(m)
            e = d.pop(a, 0)
            mm = tuple(sorted(d.items()))
            buckets.setdefault(k - e, {})[mm] = c
        for pw, t in buckets.items():
            acc = padd(acc, pmul(Poly(t), pows[pw]))
        dens.append((q, k))
        cur = acc
        if len(cur.t) > limit:
            return p, []
    return p, []


# ------------------------------------------------------------------- Bool
class B:
    """boolean formula: const / var / cmp / not / and / or (hash-consed)"""

    __slots__ = ("kind", "args", "_h", "bid")

    def __bool__(self):
        if self.kind == "const":
            return self.args[0]
        from . import engine

        return engine.decide(self)

    # numpy-object and python operators
    def __and__(self, o):
        o = tob(o)
        return NotImplemented if o is None else band(self, o)

    __rand__ = __and__

    def __or__(self, o):
        o = tob(o)
        return NotImplemented if o is None else bor(self, o)

    __ror__ = __or__

    def __invert__(self):
        return bnot(self)

    def __xor__(self, o):
        o = tob(o)
        return bor(band(self, bnot(o)), band(bnot(self), o))

    __rxor__ = __xor__

    def __hash__(self):
        return self.bid

    def __eq__(self, o):
        if isinstance(o, B):
            return self is o
        return NotImplemented

    def __repr__(self):
        if self.kind == "cmp":
            return f"({self.args[1]} {self.args[0]} 0)"
        if self.kind in ("const", "var"):
            return str(self.args[0])
        return f"{self.kind}({', '.join(map(repr, self.args))})"


_BCACHE = {}
_BID = [0]


def _mkb(kind, args, key):
    b = _BCACHE.get(key)
    if b is None:
        b = B()
        b.kind, b.args = kind, args
        _BID[0] += 1
        b.bid = _BID[0]
        _BCACHE[key] = b
    return b


def _const(v):
    b = B()
    b.kind, b.args, b.bid = "const", (v,), -1 if v else -2
    return b


TRUE = _const(True)
FALSE = _const(False)


def tob(x):
    if isinstance(x, B):
        return x
    if x is True or x is False:
        return TRUE if x else FALSE
    if type(x).__name__ in ("bool_", "bool"):
        return TRUE if bool(x) else FALSE
    return None


def bvar(name):
    return _mkb("var", (name,), ("v", name))


def bnot(a):
    if a.kind == "const":
        return FALSE if a.args[0] else TRUE
    if a.kind == "not":
        return a.args[0]
    return _mkb("not", (a,), ("n", a.bid))


def _flat(kind, xs):
    out = []
    for x in xs:
        if x.kind == kind:
            out.extend(x.args)
        else:
            out.append(x)
    return out


def band(*xs):
    out, seen = [], set()
    for x in _flat("and", xs):
        if x is TRUE:
            continue
        if x is FALSE:
            return FALSE
        if x.bid in seen:
            continue
        seen.add(x.bid)
        out.append(x)
    for x in out:
        if x.kind == "not" and x.args[0].bid in seen:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda b: b.bid)
    return _mkb("and", tuple(out), ("a",) + tuple(b.bid for b in out))


def bor(*xs):
    out, seen = [], set()
    for x in _flat("or", xs):
        if x is FALSE:
            continue
        if x is TRUE:
            return TRUE
        if x.bid in seen:
            continue
        seen.add(x.bid)
        out.append(x)
    for x in out:
        if x.kind == "not" and x.args[0].bid in seen:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda b: b.bid)
    return _mkb("or", tuple(out), ("o",) + tuple(b.bid for b in out))


def _cmp0(op, p):
    """p op 0, op in '<' '<=' '=='"""
    if p.is_const():
        c = p.const()
        return TRUE if (c < 0 if op == "<" else c <= 0 if op == "<=" else c == 0) else FALSE
    lo, hi = p.iv()
    if lo > 0 or hi < 0:
        return TRUE if hi < 0 and op != "==" else FALSE
    if _has_inv(p):
        n, dens = clear(p)
        if dens:
            sgn = 1
            ok = True
            for q, k in dens:
                if k % 2 == 0:
                    continue
                lo, hi = q.iv()
                if lo > 0:
                    pass
                elif hi < 0:
                    sgn = -sgn
                else:
                    ok = False
            zero_free = all(q.iv()[0] > 0 or q.iv()[1] < 0 for q, k in dens)
            if zero_free and (ok or op == "=="):
                p = n if sgn > 0 else pneg(n)
                if p.is_const():
                    return _cmp0(op, p)
    lo, hi = p.iv()
    if op == "<":
        if hi < 0:
            return TRUE
        if lo >= 0:
            return FALSE
    elif op == "<=":
        if hi <= 0:
            return TRUE
        if lo > 0:
            return FALSE
    else:
        if lo > 0 or hi < 0:
            return FALSE
        # normalise sign / scale
        lead = max(p.t, key=lambda m: (sum(e for _, e in m), m))
        if p.t[lead] != 1:
            p = pscale(p, 1 / p.t[lead])
        return _mkb("cmp", ("==", p), ("c", "==", p.key()))
    # normalise: positive scale to |lead| = 1 ; a '<=' is the negation of a '<'
    lead = max(p.t, key=lambda m: (sum(e for _, e in m), m))
    c = abs(p.t[lead])
    if c != 1:
        p = pscale(p, 1 / c)
    if op == "<=":
        # p <= 0  ==  not (-p < 0)
        return bnot(_cmp0("<", pneg(p)))
    return _mkb("cmp", ("<", p), ("c", "<", p.key()))


def blt(a, b):
    return _cmp0("<", psub(a, b))


def ble(a, b):
    return _cmp0("<=", psub(a, b))


def beq(a, b):
    return _cmp0("==", psub(a, b))


def pite(c, a, b):
    if c.kind == "const":
        return a if c.args[0] else b
    if a == b:
        return a
    if c.kind == "not":
        return pite(c.args[0], b, a)
    # simplify nested same-condition
    a = _assume(a, c, True)
    b = _assume(b, c, False)
    if a == b:
        return a
    if a.is_const() and b.is_const():
        if not (a == P1 and b == P0):
            return padd(b, pscale(pite(c, P1, P0), a.const() - b.const()))
    elif not a.t or not b.t:
        q = a if a.t else b
        k = _lead(q)
        if k != 1:
            q = pscale(q, 1 / k)
            return pscale(pite(c, q, P0) if a.t else pite(c, P0, q), k)
        # ite(c, 0, q/w) = ite(c, 0, q)/w, w a single value bounded away from zero
        for i, e in _common_inv(q).items():
            lo, hi = atom_iv(i)
            if len(ATOMS[i].args[0].t) == 1 and (lo > 0 or hi < 0) and not isinstance(lo, float) and not isinstance(hi, float):
                r = _lower(q, i, e)
                return pmul(pite(c, r, P0) if a.t else pite(c, P0, r), Poly({((i, e),): ONE}))
    al, ah = a.iv()
    bl, bh = b.iv()
    key = ("ite", c.bid, a.key(), b.key())
    d = max(a.depth(), b.depth(), bool_depth(c)) + 1
    return patom(_mk_atom("ite", "ite", (c, a, b), key, min(al, bl), max(ah, bh), d))


def _lead(p):
    return p.t[max(p.t, key=lambda m: (sum(e for _, e in m), m))]


def _assume(p, c, val):
    """p simplified knowing condition c == val, for top-level ites on c"""
    if len(p.t) > 12 or not any(ATOMS[a].kind == "ite" and ATOMS[a].args[0] is c for a in p.atoms()):
        return p
    r = P0
    for m, k in p.t.items():
        t = pconst(k)
        for a, e in m:
            at = ATOMS[a]
            x = (at.args[1] if val else at.args[2]) if at.kind == "ite" and at.args[0] is c else patom(a)
            t = pmul(t, ppow(x, e))
        r = padd(r, t)
    return r


def bite(c, a, b):
    """if c then a else b on booleans"""
    return bor(band(c, a), band(bnot(c), b))


def bool_depth(b):
    if b.kind == "cmp":
        return b.args[1].depth()
    if b.kind in ("and", "or", "not"):
        return max(bool_depth(x) for x in b.args)
    return 0


# --------------------------------------------------------------- evaluation
class EvalError(Exception):
    pass


def peval(p, env, cache=None):
    """float value of p; env: var name -> float / bool"""
    if cache is None:
        cache = {}
    s = []
    for m, c in p.t.items():
        v = float(c)
        for a, e in m:
            x = aeval(a, env, cache)
            v *= x if e == 1 else x**e
        s.append(v)
    return math.fsum(s)


def aeval(aid, env, cache):
    if aid in cache:
        return cache[aid]
    a = ATOMS[aid]
    try:
        if a.kind == "var":
            v = float(env[a.name])
        elif a.kind == "inv":
            d = peval(a.args[0], env, cache)
            v = 1.0 / d if d != 0 else float("inf")
        elif a.kind == "fn":
            v = float(PYFN[a.name](*[peval(q, env, cache) for q in a.args]))
        elif a.kind == "ite":
            v = peval(a.args[1] if beval(a.args[0], env, cache) else a.args[2], env, cache)
        else:
            raise EvalError(a.kind)
    except (ValueError, OverflowError):
        v = float("nan")
    cache[aid] = v
    return v


def beval(b, env, cache=None):
    if cache is None:
        cache = {}
    k = b.kind
    if k == "const":
        return b.args[0]
    key = ("b", b.bid)
    if key in cache:
        return cache[key]
    if k == "var":
        r = bool(env[b.args[0]])
    elif k == "cmp":
        v = peval(b.args[1], env, cache)
        r = v < 0 if b.args[0] == "<" else v == 0
    elif k == "not":
        r = not beval(b.args[0], env, cache)
    elif k == "and":
        r = all(beval(x, env, cache) for x in b.args)
    else:
        r = any(beval(x, env, cache) for x in b.args)
    cache[key] = r
    return r


def psubst_bool(p, c, val, memo):
    """substitute condition c := val inside the ite atoms of p"""
    k = ("p", p)
    if k in memo:
        return memo[k]
    out = P0
    for m, co in p.t.items():
        r = pconst(co)
        for a, e in m:
            r = pmul(r, ppow(asubst(a, c, val, memo), e))
        out = padd(out, r)
    memo[k] = out
    return out


def asubst(aid, c, val, memo):
    k = ("a", aid)
    if k in memo:
        return memo[k]
    a = ATOMS[aid]
    if a.kind == "ite":
        cond = bsubst(a.args[0], c, val, memo)
        if cond.kind == "const":
            r = psubst_bool(a.args[1] if cond.args[0] else a.args[2], c, val, memo)
        else:
            r = pite(cond, psubst_bool(a.args[1], c, val, memo), psubst_bool(a.args[2], c, val, memo))
    elif a.kind == "inv":
        q = psubst_bool(a.args[0], c, val, memo)
        if q.is_const() and q.const() == 0:
            r = patom(aid)      # undefined there; value irrelevant (guarded)
        else:
            r = pinv(q)
    elif a.kind == "fn":
        r = pfn(a.name, *[psubst_bool(q, c, val, memo) for q in a.args])
    else:
        r = patom(aid)
    memo[k] = r
    return r


def bsubst(b, c, val, memo):
    if b is c:
        return TRUE if val else FALSE
    k = ("b", b.bid)
    if b.kind == "const" or b.kind == "var":
        return b
    if k in memo:
        return memo[k]
    if b.kind == "cmp":
        q = psubst_bool(b.args[1], c, val, memo)
        r = b if q is b.args[1] else _cmp0(b.args[0], q)
    elif b.kind == "not":
        r = bnot(bsubst(b.args[0], c, val, memo))
    elif b.kind == "and":
        r = band(*[bsubst(x, c, val, memo) for x in b.args])
    else:
        r = bor(*[bsubst(x, c, val, memo) for x in b.args])
    memo[k] = r
    return r


def ite_conds_p(p, out, seen):
    for a in p.atoms():
        if a in seen:
            continue
        seen.add(a)
        at = ATOMS[a]
        if at.kind == "ite":
            out.setdefault(at.args[0].bid, at.args[0])
            ite_conds_b(at.args[0], out, seen)
            ite_conds_p(at.args[1], out, seen)
            ite_conds_p(at.args[2], out, seen)
        elif at.kind in ("inv", "fn"):
            for q in at.args:
                ite_conds_p(q, out, seen)


def ite_conds_b(b, out, seen):
    if b.kind == "cmp":
        ite_conds_p(b.args[1], out, seen)
    elif b.kind in ("and", "or", "not"):
        for x in b.args:
            ite_conds_b(x, out, seen)


def reach_atoms_b(b, out, seen=None):
    """all atom ids / bool vars a formula mentions, transitively"""
    if seen is None:
        seen = set()
    if ("b", b.bid) in seen:
        return
    seen.add(("b", b.bid))
    if b.kind == "cmp":
        reach_atoms_p(b.args[1], out, seen)
    elif b.kind in ("and", "or", "not"):
        for x in b.args:
            reach_atoms_b(x, out, seen)


def reach_atoms_p(p, out, seen):
    for a in p.atoms():
        if a in out:
            continue
        out.add(a)
        at = ATOMS[a]
        if at.kind == "ite":
            reach_atoms_b(at.args[0], out, seen)
            reach_atoms_p(at.args[1], out, seen)
            reach_atoms_p(at.args[2], out, seen)
        else:
            for q in at.args:
                reach_atoms_p(q, out, seen)
