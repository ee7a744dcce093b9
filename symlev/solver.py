"""Translation of terms to z3 and the decision procedure on top of it."""
import os
import sys
import time
from fractions import Fraction

for _p in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
    if _p not in sys.path:
        sys.path.append(_p)
import z3  # noqa: E402

from . import terms as T  # noqa: E402

STATS = {
    "queries": 0, "unsat": 0, "sat": 0, "unknown": 0,
    "relaxed": 0, "exact": 0, "case_splits": 0, "solver_s": 0.0,
}
PI = 3.14159265358979


def reset_stats():
    for k in STATS:
        STATS[k] = 0.0 if k == "solver_s" else 0


def _q(fr):
    if isinstance(fr, int):
        return z3.RealVal(fr)
    return z3.Q(fr.numerator, fr.denominator)


def is_linear_mono(m):
    return len(m) == 1 and m[0][1] == 1


class Enc:
    def __init__(self, exact):
        self.exact = exact
        self.side = []
        self.pc = {}
        self.bc = {}
        self.ac = {}
        self.mc = {}
        self.fns = []
        self.invs = []
        self.approx = False     # something was abstracted

    def poly(self, p):
        r = self.pc.get(p)
        if r is not None:
            return r
        parts = []
        for m, c in p.t.items():
            if not m:
                parts.append(_q(c))
            else:
                e = self.mono(m)
                parts.append(e if c == 1 else _q(c) * e)
        r = z3.Sum(parts) if len(parts) > 1 else (parts[0] if parts else z3.RealVal(0))
        self.pc[p] = r
        if not self.exact and len(p.t) > 1 and any(not is_linear_mono(m) for m in p.t if m):
            self.bound(r, *p.iv())
        return r

    def mono(self, m):
        if is_linear_mono(m):
            return self.atom(m[0][0])
        r = self.mc.get(m)
        if r is not None:
            return r
        if self.exact:
            r = None
            for a, e in m:
                x = self.atom(a)
                for _ in range(e):
                    r = x if r is None else r * x
        else:
            self.approx = True
            r = z3.Real("m!%d" % len(self.mc))
            lo, hi = T.mono_iv(m)
            self.bound(r, lo, hi)
            if not (lo > 0 or hi < 0):
                # sign rule of a product
                fs = [(self.atom(a), e) for a, e in m]
                self.side.append((r == 0) == z3.Or([x == 0 for x, _ in fs]))
                odd = [x < 0 for x, e in fs if e % 2]
                if not odd:
                    self.side.append(r >= 0)
                else:
                    par = odd[0]
                    for o in odd[1:]:
                        par = z3.Xor(par, o)
                    self.side.append(z3.Implies(r != 0, (r < 0) == par))
            self.mc[m] = r
            self.mono_congruence(m, r)
        self.mc[m] = r
        return r

    def mono_congruence(self, m, r):
        """monomials that differ in one factor agree where the factors do"""
        n = 0
        d = dict(m)
        for m2, r2 in list(self.mc.items()):
            if m2 == m or len(m2) != len(m):
                continue
            d2 = dict(m2)
            x = [a for a in d if d2.get(a) != d[a]]
            y = [a for a in d2 if d.get(a) != d2[a]]
            if len(x) == 1 and len(y) == 1 and d[x[0]] == d2[y[0]] and T.ATOMS[x[0]].kind == T.ATOMS[y[0]].kind == "inv":
                self.side.append(z3.Implies(self.atom(x[0]) == self.atom(y[0]), r == r2))
                n += 1
                if n >= 6:
                    return

    def inv_congruence(self, a, r):
        """1/p and 1/q agree where p and q do"""
        n = 0
        for aid, r2 in list(self.invs):
            b = T.ATOMS[aid]
            self.side.append(z3.Implies(self.poly(a.args[0]) == self.poly(b.args[0]), r == r2))
            n += 1
            if n >= 12:
                break
        self.invs.append((a.aid, r))

    def bound(self, r, lo, hi):
        if not isinstance(lo, float):
            self.side.append(r >= _q(lo))
        if not isinstance(hi, float):
            self.side.append(r <= _q(hi))

    def atom(self, aid):
        r = self.ac.get(aid)
        if r is not None:
            return r
        a = T.ATOMS[aid]
        if a.kind == "var":
            r = z3.Real("x!" + a.name)
            self.ac[aid] = r
            self.bound(r, a.lo, a.hi)
        elif a.kind == "ite":
            r = z3.If(self.bool(a.args[0]), self.poly(a.args[1]), self.poly(a.args[2]))
            self.ac[aid] = r
        elif a.kind == "inv":
            r = z3.Real("i!%d" % aid)
            self.ac[aid] = r
            self.bound(r, a.lo, a.hi)
            q = a.args[0]
            if self.exact:
                pq = self.poly(q)
                self.side.append(z3.Implies(pq != 0, r * pq == 1))
            else:
                self.approx = True
                lo, hi = q.iv()
                if not (lo > 0 or hi < 0):
                    pq = self.poly(q)
                    self.side.append(z3.Implies(pq > 0, r > 0))
                    self.side.append(z3.Implies(pq < 0, r < 0))
                self.inv_congruence(a, r)
        elif a.kind == "fn":
            r = z3.Real("f!%d" % aid)
            self.ac[aid] = r
            self.bound(r, a.lo, a.hi)
            self.fn_axioms(a, r)
        else:
            raise AssertionError(a.kind)
        return r

    def fn_axioms(self, a, r):
        self.approx = True
        n = a.name
        x = self.poly(a.args[0])
        s = self.side
        lo, hi = a.args[0].iv()
        if n == "floor":
            k = z3.Int("k!%d" % a.aid)
            s += [r == z3.ToReal(k), r <= x, x < r + 1]
        if n == "sqrt":
            s += [r >= 0, z3.Implies(x > 0, r > 0), z3.Implies(x == 0, r == 0)]
            s += [z3.Implies(x >= 1, z3.And(r >= 1, r <= x)), z3.Implies(z3.And(x >= 0, x <= 1), z3.And(r <= 1, r >= x))]
            if self.exact:
                s.append(z3.Implies(x >= 0, r * r == x))
        elif n == "log":
            s += [z3.Implies(x > 0, r <= x - 1)]
            s += [z3.Implies(z3.And(x > 0, x < 1), r < 0), z3.Implies(x > 1, r > 0), z3.Implies(x == 1, r == 0)]
        elif n == "exp":
            s += [r > 0, r >= 1 + x, z3.Implies(x < 0, r < 1), z3.Implies(x == 0, r == 1)]
        elif n == "arctan":
            s += [z3.Implies(x > 0, z3.And(r > 0, r < x)), z3.Implies(x < 0, z3.And(r < 0, r > x)), z3.Implies(x == 0, r == 0)]
        elif n == "sin":
            s += [z3.Implies(z3.And(x > 0, x < _q(Fraction(PI))), z3.And(r > 0, r < x))]
            s += [z3.Implies(z3.And(x < 0, x > _q(-Fraction(PI))), z3.And(r < 0, r > x)), z3.Implies(x == 0, r == 0)]
        elif n == "cos":
            s += [z3.Implies(z3.And(x > _q(-Fraction(PI) / 2), x < _q(Fraction(PI) / 2)), r > 0)]
        for b, rb in self.fns:
            if b.name != n or len(b.args) != len(a.args):
                continue
            if len(a.args) == 2:
                y = self.poly(b.args[0])
                s.append(z3.Implies(z3.And(x == y, self.poly(a.args[1]) == self.poly(b.args[1])), r == rb))
                continue
            d = T.psub(a.args[0], b.args[0])
            dd = self.poly(d)
            y = self.poly(b.args[0])
            s.append(z3.Implies(dd == 0, r == rb))
            L = None
            blo, bhi = b.args[0].iv()
            if n in ("sin", "cos", "arctan", "tanh"):
                L = Fraction(1)
            elif n == "log" and min(lo, blo) > 0:
                L = 1 / min(lo, blo)
            elif n == "sqrt" and min(lo, blo) > 0:
                L = Fraction(1) / (2 * Fraction(float(min(lo, blo)) ** 0.5 * 0.999))
            if L is not None and not isinstance(L, float):
                s += [r - rb <= _q(L) * z3.If(dd >= 0, dd, -dd), rb - r <= _q(L) * z3.If(dd >= 0, dd, -dd)]
            mono = n in ("log", "sqrt", "exp", "arctan", "tanh", "floor")
            h = Fraction(PI) / 2
            if n == "sin" and all(not isinstance(v, float) and abs(v) <= h + Fraction(1, 10**9) for v in (lo, hi, blo, bhi)):
                mono = True
            if mono and n in ("sin", "arctan", "tanh"):
                # odd: f(x) + f(y) has the sign of x + y
                ss = self.poly(T.padd(a.args[0], b.args[0]))
                s += [z3.Implies(ss < 0, r + rb < 0), z3.Implies(ss > 0, r + rb > 0), z3.Implies(ss == 0, r + rb == 0)]
            if mono:
                if n == "floor":
                    s += [z3.Implies(dd <= 0, r <= rb), z3.Implies(dd >= 0, r >= rb)]
                elif min(lo, blo) >= 0 or n not in ("log", "sqrt"):
                    s += [z3.Implies(dd < 0, r < rb), z3.Implies(dd > 0, r > rb)]
                else:
                    s += [z3.Implies(z3.And(dd < 0, x >= 0), r < rb), z3.Implies(z3.And(dd > 0, y >= 0), r > rb)]
        self.fns.append((a, r))

    def bool(self, b):
        k = b.kind
        if k == "const":
            return z3.BoolVal(b.args[0])
        r = self.bc.get(b.bid)
        if r is not None:
            return r
        if k == "var":
            r = z3.Bool("b!" + b.args[0])
        elif k == "cmp":
            e = self.poly(b.args[1])
            r = e < 0 if b.args[0] == "<" else e == 0
        elif k == "not":
            r = z3.Not(self.bool(b.args[0]))
        elif k == "and":
            r = z3.And([self.bool(x) for x in b.args])
        else:
            r = z3.Or([self.bool(x) for x in b.args])
        self.bc[b.bid] = r
        return r


def _val(v):
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        w = v.approx(30)
        return Fraction(w.numerator_as_long(), w.denominator_as_long())
    return None


def check(bs, exact=False, timeout=10.0, extra=None):
    """-> (verdict, env or None, abstracted?)"""
    enc = Enc(exact)
    forms = [enc.bool(b) for b in bs]
    s = z3.Solver()
    s.set("timeout", int(timeout * 1000))
    s.set("random_seed", int(os.environ.get("VERIF_SEED", "1") or 1) % 1000)
    for f in forms:
        s.add(f)
    i = 0
    while i < len(enc.side):
        s.add(enc.side[i])
        i += 1
    t0 = time.time()
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    STATS["solver_s"] += time.time() - t0
    STATS["queries"] += 1
    STATS["exact" if exact else "relaxed"] += 1
    v = str(r)
    STATS[v] += 1
    env = None
    if r == z3.sat:
        m = s.model()
        env = {}
        for d in m.decls():
            nm = d.name()
            if nm.startswith("x!") or nm.startswith("b!"):
                env[nm[2:]] = _val(m[d])
    return v, env, enc.approx


_FEAS = {}


def feasible(bs, timeout=3.0):
    """False only when the solver refutes the conjunction"""
    f = T.band(*bs)
    if f.kind == "const":
        return f.args[0]
    r = _FEAS.get(f.bid)
    if r is not None:
        return r
    v, env, ab = check([f], False, timeout)
    if v == "sat" and ab:
        if env is not None and holds(f, env):
            pass
        else:
            v2, _, _ = check([f], True, timeout)
            if v2 == "unsat":
                v = "unsat"
    r = v != "unsat"
    _FEAS[f.bid] = r
    return r


def complete(env, f=None):
    """total assignment: unmentioned variables get the middle of their range"""
    out = {}
    for a in T.ATOMS:
        if a.kind == "var":
            v = env.get(a.name)
            if v is None:
                lo, hi = a.lo, a.hi
                if isinstance(lo, float):
                    v = Fraction(0) if isinstance(hi, float) else hi - 1
                elif isinstance(hi, float):
                    v = lo + 1
                else:
                    v = (lo + hi) / 2
            out[a.name] = v
    for k, v in env.items():
        out.setdefault(k, v)
    for key, b in list(T._BCACHE.items()):
        if b.kind == "var" and b.args[0] not in out:
            out[b.args[0]] = False
    return out


def holds(f, env):
    try:
        return T.beval(f, {k: (v if isinstance(v, bool) else float(v)) for k, v in complete(env).items()})
    except Exception:
        return False


def refute(cons, timeout=20.0, depth=0, max_split=14, deadline=None):
    """decide satisfiability of the conjunction `cons`.

    returns ('unsat', None), ('sat', env) or ('unknown', env-or-None)"""
    if deadline is None:
        deadline = time.time() + 6 * timeout
    f = T.band(*cons)
    if f is T.FALSE:
        STATS["queries"] += 1
        STATS["unsat"] += 1
        return "unsat", None
    v, env, ab = check([f], False, timeout)
    if v == "unsat":
        return "unsat", None
    if v == "sat":
        if not ab:
            return "sat", env
        if holds(f, env):
            return "sat", env
    if time.time() > deadline:
        return "unknown", env
    conds = {}
    T.ite_conds_b(f, conds, set())
    if conds and depth < max_split:
        # split on the shallowest condition
        c = min(conds.values(), key=lambda b: (T.bool_depth(b), b.bid))
        if c.kind in ("and", "or"):
            # prefer an atomic sub-condition
            st = [c]
            while st:
                x = st.pop()
                if x.kind in ("and", "or", "not"):
                    st.extend(x.args)
                else:
                    c = x
                    break
        if c.kind == "not":
            c = c.args[0]
        STATS["case_splits"] += 1
        unk = None
        for val in (True, False):
            memo = {}
            lit = c if val else T.bnot(c)
            try:
                sub = [T.bsubst(x, c, val, memo) for x in cons]
            except T.TermLimit:
                return "unknown", env
            r, e = refute(sub + [lit], timeout, depth + 1, max_split, deadline)
            if r == "sat":
                return r, e
            if r == "unknown":
                unk = (r, e)
        return unk if unk else ("unsat", None)
    v2, env2, _ = check([f], True, timeout)
    if v2 == "unsat":
        return "unsat", None
    if v2 == "sat":
        return "sat", env2
    return "unknown", env


def confirm_equal(pairs, pc, timeout=20.0, batch=64):
    """the solver's verdict on comparisons that met in normal form or within the
    tolerance: no pair differs (inverses and functions abstracted alike)"""
    for k in range(0, len(pairs), batch):
        enc = Enc(False)
        diffs = []
        for a, b, t in pairs[k:k + batch]:
            if a == b:
                diffs.append(enc.poly(a) != Enc(False).poly(b) if a.is_const() else enc.poly(a) != enc.poly(b))
                continue
            d = T.psub(a, b)
            n = d
            if T._has_inv(d):
                n = T.clear(d)[0]
            if not n.t:
                diffs.append(enc.poly(n) != 0)
                continue
            e = enc.poly(d)
            enc.bound(e, *d.iv())
            diffs.append(z3.Or(e > _q(T.frac(t)), e < _q(-T.frac(t))))
        s = z3.Solver()
        s.set("timeout", int(timeout * 1000))
        s.add(z3.Or(diffs))
        for x in enc.side:
            s.add(x)
        t0 = time.time()
        r = s.check()
        STATS["solver_s"] += time.time() - t0
        STATS["queries"] += 1
        STATS["relaxed"] += 1
        STATS[str(r)] += 1
        if r != z3.unsat:
            return False
    return True
