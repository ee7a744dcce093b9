"""Merging of equal sub-terms before a hard query.

Sub-terms (if-then-else values, functions, inverses, conditions) that agree on
sample points are proposed as equal; the solver proves each proposal under the
path condition; proved ones are merged bottom-up, so that two computations of
the same quantity meet in one term and the remaining query gets easy.  Samples
only propose: nothing is merged without an unsat verdict."""
import math
import random
import time

from . import solver as S
from . import terms as T
from .terms import B, TRUE, FALSE, P0


def samples(pc, want=24, seed=7):
    """points satisfying pc"""
    rng = random.Random(seed)
    f = T.band(*pc)
    vs = [a for a in T.ATOMS if a.kind == "var"]
    bs = [b for b in list(T._BCACHE.values()) if b.kind == "var"]
    out = []
    t0 = time.time()
    tries = 0

    def draw(fix=None):
        env = {}
        for a in vs:
            lo = -1e3 if isinstance(a.lo, float) else float(a.lo)
            hi = 1e3 if isinstance(a.hi, float) else float(a.hi)
            env[a.name] = rng.uniform(lo, hi)
        for b in bs:
            env[b.args[0]] = rng.random() < 0.3
        if fix:
            env.update(fix)
        return env
    while len(out) < want and tries < 300 and time.time() - t0 < 1.5:
        tries += 1
        env = draw()
        try:
            if T.beval(f, env):
                out.append(env)
        except Exception:
            pass
    if len(out) >= 6 or f is TRUE:
        return out
    # constrained: only the variables of pc come from the solver
    at = set()
    T.reach_atoms_b(f, at)
    pv = [T.ATOMS[i] for i in at if T.ATOMS[i].kind == "var"]
    import z3

    enc = S.Enc(False)
    g = enc.bool(f)
    s = z3.Solver()
    s.set("timeout", 500)
    s.add(g)
    for x in enc.side:
        s.add(x)
    t0 = time.time()
    while len(out) < want and time.time() - t0 < 4:
        s.push()
        order = list(pv)
        rng.shuffle(order)
        for a in order:
            lo = -1000.0 if isinstance(a.lo, float) else float(a.lo)
            hi = 1000.0 if isinstance(a.hi, float) else float(a.hi)
            mid = rng.uniform(lo, hi)
            w = (hi - lo) / 10
            x = z3.Real("x!" + a.name)
            s.push()
            s.add(x >= S._q(T.frac(max(lo, mid - w))), x <= S._q(T.frac(min(hi, mid + w))))
            if s.check() != z3.sat:
                s.pop()
        r = s.check()
        if r == z3.sat:
            m = s.model()
            fix = {}
            for d in m.decls():
                nm = d.name()
                if nm.startswith("x!") or nm.startswith("b!"):
                    v = S._val(m[d])
                    if v is not None:
                        fix[nm[2:]] = v if isinstance(v, bool) else float(v)
            env = draw(fix)
            try:
                if T.beval(f, env):
                    out.append(env)
            except Exception:
                pass
        # unwind everything
        while s.num_scopes() > 0:
            s.pop()
    return out


class Sweep:
    def __init__(self, pc, timeout=2.0, budget=40.0):
        self.pc = list(pc)
        self.envs = samples(pc)
        self.caches = [dict() for _ in self.envs]
        self.deadline = time.time() + budget
        self.timeout = timeout
        self.am, self.bm, self.pm = {}, {}, {}
        self.sig = {}
        self.bsig = {}
        self.merged = 0
        self.tried = 0

    # signatures
    def psig(self, p):
        r = []
        for e, c in zip(self.envs, self.caches):
            try:
                r.append(T.peval(p, e, c))
            except Exception:
                r.append(float("nan"))
        return r

    def prove(self, f):
        """f unsatisfiable under pc?"""
        if f is FALSE:
            return True
        if time.time() > self.deadline:
            return False
        self.tried += 1
        v, _ = S.refute(self.pc + [f], self.timeout, max_split=8, deadline=time.time() + 2 * self.timeout)
        return v == "unsat"

    def atom(self, aid):
        r = self.am.get(aid)
        if r is not None:
            return r
        a = T.ATOMS[aid]
        if a.kind == "var":
            r = T.patom(aid)
            self.am[aid] = r
            return r
        if a.kind == "ite":
            c = self.boolean(a.args[0])
            if c.kind == "const":
                r = self.poly(a.args[1] if c.args[0] else a.args[2])
            else:
                r = T.pite(c, self.poly(a.args[1]), self.poly(a.args[2]))
        elif a.kind == "inv":
            q = self.poly(a.args[0])
            r = T.patom(aid) if q.is_const() and q.const() == 0 else T.pinv(q)
        else:
            r = T.pfn(a.name, *[self.poly(q) for q in a.args])
        if a.kind in ("ite", "fn") and self.envs and not r.is_const():
            r = self.rep(r)
        self.am[aid] = r
        return r

    def rep(self, p):
        if len(p.t) > 60:
            return p
        sg = self.psig(p)
        if any(math.isnan(x) or math.isinf(x) for x in sg):
            return p
        mx = max(abs(x) for x in sg)
        key = tuple(float("%.7g" % x) for x in sg)
        if mx == 0:
            if self.prove(T.bor(T.blt(p, P0), T.blt(P0, p))):
                self.merged += 1
                return P0
            return p
        q = self.sig.get(key)
        if q is None:
            self.sig[key] = p
            return p
        if q == p:
            return q
        if self.prove(T.bor(T.blt(p, q), T.blt(q, p))):
            self.merged += 1
            return q
        return p

    def poly(self, p):
        r = self.pm.get(p)
        if r is not None:
            return r
        out = P0
        for m, co in p.t.items():
            t = T.pconst(co)
            for a, e in m:
                t = T.pmul(t, T.ppow(self.atom(a), e))
            out = T.padd(out, t)
        self.pm[p] = out
        return out

    def boolean(self, b):
        if b.kind in ("const", "var"):
            return b
        r = self.bm.get(b.bid)
        if r is not None:
            return r
        if b.kind == "cmp":
            r = T._cmp0(b.args[0], self.poly(b.args[1]))
        elif b.kind == "not":
            r = T.bnot(self.boolean(b.args[0]))
        elif b.kind == "and":
            r = T.band(*[self.boolean(x) for x in b.args])
        else:
            r = T.bor(*[self.boolean(x) for x in b.args])
        if r.kind != "const" and r.kind != "var" and len(self.envs) >= 4:
            r = self.brep(r)
        self.bm[b.bid] = r
        return r

    def brep(self, b):
        if b.kind == "not":
            return b
        sg = []
        for e, c in zip(self.envs, self.caches):
            try:
                sg.append(T.beval(b, e, c))
            except Exception:
                return b
        key = tuple(sg)
        if not any(sg):
            return b
        cand = self.bsig.setdefault(key, [])
        for q in cand[:3]:
            if q is b:
                return q
            if self.prove(T.bor(T.band(b, T.bnot(q)), T.band(q, T.bnot(b)))):
                self.merged += 1
                return q
        cand.append(b)
        return b
