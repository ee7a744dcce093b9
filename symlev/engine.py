"""Path exploration, obligations, replay."""
import contextlib
import io
import math
import os
import re
import random
import time
import traceback
import warnings
from fractions import Fraction

import numpy as np

from . import num as N
from . import solver as S
from . import terms as T
from . import symarray as SA
from . import sweep as W
from .num import Num, Unsupported, lift
from .symarray import SymArray, F8, BO
from .terms import B, TRUE, FALSE, band, bor, bnot, tob

CUR = [None]


class Infeasible(Exception):
    """the assumptions on this path cannot be met"""


class AssumptionFailed(Exception):
    """a concrete point is outside the assumptions"""


class PathLimit(Exception):
    pass


# -------------------------------------------------------------- hooks used by terms/num
def decide(b):
    c = CUR[0]
    if c is None:
        raise Unsupported("branch on a symbolic value outside an exploration")
    return c.decide(b)


def possible(b):
    c = CUR[0]
    if c is None:
        return True
    return c.possible(b)


def round_rel(v, eps):
    c = CUR[0]
    if v.is_const() or c is None:
        return v
    return c.round_rel(v, eps)


# ------------------------------------------------------------------ shared
class Base:
    symbolic = False
    mag = 1             # factor on the ranges of the arrays and on the scales
    double = ""         # arrays (by name) that stay in double precision there
    size = 0.0          # magnitude of the values behind a comparison that may cancel (concrete runs: rounding floor)
    single = None       # tolerance (in units of scale) of a case in single precision

    def array(self, name, shape, lo, hi, nan=False, step=None):
        """free array of reals in [lo, hi]; nan=True: every element may be missing
        (independently); nan=<bool object array>: missing exactly there. In a case in single precision the array is of type float32 (its values are real numbers all the same)"""
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        o = np.empty(shape, dtype=object)
        lo_a = np.broadcast_to(np.asarray(lo, dtype=object), shape)
        hi_a = np.broadcast_to(np.asarray(hi, dtype=object), shape)
        for i in np.ndindex(*shape):
            k = ",".join(map(str, i))
            o[i] = self.real(f"{name}[{k}]", lo_a[i] * self.mag, hi_a[i] * self.mag)
            if nan is True:
                o[i] = self.missing_if(self.boolean(f"{name}.missing[{k}]"), o[i])
            elif nan is not False and nan is not None:
                o[i] = self.missing_if(np.broadcast_to(nan, shape)[i], o[i])
        x = self.pack(o)
        if self.single is not None and not re.fullmatch(self.double, name):
            x = SymArray(x.a, np.dtype("float32")) if isinstance(x, SymArray) else np.asarray(x).astype("float32")
        return x

    def ints(self, name, shape, lo, hi):
        """integer array with elements in [lo, hi]"""
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        o = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            o[i] = self.fn("floor", self.real(f"{name}[{','.join(map(str, i))}]", lo, hi + Fraction(9, 10)))
        if self.symbolic:
            return SymArray(o, SA.I8)
        return o.astype(float).astype(np.int64)

    def bools(self, name, shape):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        o = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            o[i] = self.boolean(f"{name}[{','.join(map(str, i))}]")
        return o

    def elems(self, x):
        """object array of scalar values"""
        if hasattr(x, "dims"):
            x = x.data
        if isinstance(x, SymArray):
            return x.a
        if SA.is_sym(x):
            return SA.obj(x)
        x = np.asarray(x)
        if x.dtype.kind in "fiu":
            o = np.empty(x.shape, dtype=object)
            for i in np.ndindex(*x.shape):
                o[i] = self.const(float(x[i]))
            return o
        return x.astype(object)

    def sum(self, xs):
        xs = list(xs)
        r = xs[0] if xs else self.const(0.0)
        for x in xs[1:]:
            r = r + x
        return r

    def nansum(self, xs):
        return self.sum([self.where(self.isnan(x), 0.0, x) for x in xs])

    def fmap(self, f, *arrs):
        return SA.emap(f, *[np.asarray(a, dtype=object) if not isinstance(a, np.ndarray) else a for a in arrs])

    def clip(self, x, lo, hi):
        return self.max(lo, self.min(hi, x))

    def choice(self, name, options):
        for i, o in enumerate(options[:-1]):
            if self.branch(self.boolean(f"{name}={i}")):
                return o
        return options[-1]

    def cover(self, *fns):
        """record which functions of the code under test this case encodes"""
        for f in fns:
            self.functions.add(f if isinstance(f, str) else f"{f.__module__}.{f.__qualname__}")

    def raises(self, label, excs, fn):
        """fn must raise one of excs"""
        try:
            fn()
        except excs:
            self.true(label, True)
            return
        except (Unsupported, Infeasible, AssumptionFailed, PathLimit):
            raise
        except Exception as e:
            self.true(f"{label} (raised {type(e).__name__} instead)", False)
            return
        self.true(label, False)

    def attempt(self, fn):
        """(result, None) or (None, exception)"""
        try:
            return fn(), None
        except (Unsupported, Infeasible, AssumptionFailed, PathLimit, T.TermLimit):
            raise
        except Exception as e:
            return None, e

    # values -------------------------------------------------------------
    def dims_ok(self, label, impl, dims):
        got = tuple(getattr(impl, "dims", ()))
        ok = set(got) == set(dims) and len(got) == len(dims)
        self.true(f"{label}: dimensions {tuple(dims)} (got {got})" if not ok else f"{label}: dimensions", ok)
        return ok

    def compare(self, label, impl, spec, dims=None, scale=None, tol=1e-7, skip=None, known=None):
        """impl equals spec elementwise (missing values included).

        skip: boolean object array, elements about which nothing is claimed
        known: (finding id, cond object array, alternative spec)"""
        if dims is not None and hasattr(impl, "dims"):
            if not self.dims_ok(label, impl, dims):
                return
            impl = impl.transpose(*dims)
        ie = self.elems(impl)
        se = spec if isinstance(spec, np.ndarray) and spec.dtype == object else self.elems(spec)
        if ie.shape != se.shape:
            self.true(f"{label}: shape {ie.shape} expected {se.shape}", False)
            return
        for i in np.ndindex(*se.shape):
            sk = None if skip is None else np.broadcast_to(np.asarray(skip, dtype=object), se.shape)[i]
            kn = None
            if known is not None:
                fid, cond, alt = known
                kn = (fid, np.broadcast_to(np.asarray(cond, dtype=object), se.shape)[i],
                      None if alt is None else np.broadcast_to(alt, se.shape)[i])
            lab = label if se.ndim == 0 else f"{label}[{','.join(map(str, i))}]"
            self.equal(lab, ie[i], se[i], scale=scale, tol=tol, skip=sk, known=kn)


# --------------------------------------------------------------- symbolic
class Sym(Base):
    symbolic = True

    def __init__(self, prefix, run):
        self.prefix = prefix
        self.run = run
        self.pc = []            # path constraints (assumptions, decisions)
        self.known_dec = {}
        self.pos = 0
        self.taken = []
        self.obl = []           # (label, viol formula, strong viol, kind, known)
        self.values = []        # (label, Num) for conformance
        self.closed = []        # pairs whose difference cancelled in normal form
        self.functions = run.functions
        self.nround = 0

    # inputs
    def real(self, name, lo=None, hi=None):
        return Num(T.mkvar(name, -T.INF if lo is None else T.frac(lo), T.INF if hi is None else T.frac(hi)))

    def boolean(self, name):
        return T.bvar(name)

    def missing_if(self, b, x):
        b = tob(b)
        return Num(x.p, bor(x.nan, b), x.inf)

    def pack(self, o):
        return SA.wrap(o, F8, concretize=False)

    def const(self, v):
        return lift(v)

    def assume(self, b):
        b = tob(b) if not isinstance(b, SymArray) else tob(b.item())
        if b is TRUE:
            return
        self.pc.append(b)
        if b is FALSE or not S.feasible(self.pc):
            raise Infeasible()

    def branch(self, b):
        return bool(b)

    # spec scalar operations
    def where(self, c, a, b):
        return N.ite(tob(c), lift(a), lift(b))

    def min(self, *xs):
        r = lift(xs[0])
        for x in xs[1:]:
            r = N.minimum(r, lift(x))
        return r

    def max(self, *xs):
        r = lift(xs[0])
        for x in xs[1:]:
            r = N.maximum(r, lift(x))
        return r

    def abs(self, x):
        return N.absolute(lift(x))

    def isnan(self, x):
        return lift(x).nan

    def and_(self, *xs):
        return band(*[tob(x) for x in xs])

    def or_(self, *xs):
        return bor(*[tob(x) for x in xs])

    def not_(self, x):
        return bnot(tob(x))

    def fn(self, name, *xs):
        xs = [lift(x) for x in xs]
        return (N.UN[name] if len(xs) == 1 else N.BIN[name])(*xs)

    nan = N.NAN

    def le(self, a, b):
        return N.le(lift(a), lift(b))

    def lt(self, a, b):
        return N.lt(lift(a), lift(b))

    def eq(self, a, b):
        return N.eq(lift(a), lift(b))

    # forks
    def decide(self, b):
        if b.kind == "not":
            return not self.decide(b.args[0])
        k = self.known_dec.get(b.bid)
        if k is not None:
            return k
        t = S.feasible(self.pc + [b])
        f = S.feasible(self.pc + [bnot(b)])
        if t and not f:
            v = True
        elif f and not t:
            v = False
        elif not t and not f:
            raise Infeasible()
        else:
            if self.pos < len(self.prefix):
                v = self.prefix[self.pos]
            else:
                v = True
                self.run.push(self.taken + [False])
            self.pos += 1
            self.taken = self.taken + [v]
            if len(self.taken) > self.run.max_depth:
                raise PathLimit(f"more than {self.run.max_depth} branches on one path")
            self.pc.append(b if v else bnot(b))
        self.known_dec[b.bid] = v
        return v

    def possible(self, b):
        return S.feasible(self.pc + [b])

    def round_rel(self, v, eps):
        self.nround += 1
        e = Num(T.mkvar(f"~round{len(self.taken)}.{self.nround}", -eps, eps))
        return N.mul(v, N.add(N.ONE, e))

    # obligations
    def true(self, label, cond):
        b = tob(cond) if not isinstance(cond, SymArray) else tob(cond.item())
        if b is None:
            b = TRUE if cond else FALSE
        self.run.checked += 1
        if b is TRUE:
            self.run.trivial += 1
            return
        self.obl.append((label, bnot(b), bnot(b), None))

    def equal(self, label, impl, spec, scale=None, tol=1e-7, skip=None, known=None):
        tol = tol if self.single is None else max(tol, self.single)
        scale = scale if scale is None or self.mag == 1 else float(scale) * self.mag
        a, s = lift(impl), lift(spec)
        self.run.checked += 1
        self.values.append((label, a, scale))
        sk = FALSE if skip is None else tob(skip)
        v, strong = _neq(a, s, scale, tol)
        v, strong = band(v, bnot(sk)), band(strong, bnot(sk))
        if v is FALSE:
            self.run.trivial += 1
            self.closed.append((a, s, tolerance(s, a, scale, tol)))
            return
        if known is not None:
            fid, cond, alt = known
            cond = tob(cond)
            if alt is not None:
                va, sa = _neq(a, lift(alt), scale, tol)
                inside, insides = band(v, cond, va), band(strong, cond, sa)
                if inside is not FALSE:
                    self.obl.append((f"{label} (inside finding {fid}, but a different value)", inside, insides, None))
            self.run.known_q.append((fid, label, list(self.pc), band(v, cond)))
            v, strong = band(v, bnot(cond)), band(strong, bnot(cond))
            if v is FALSE:
                return
        self.obl.append((label, v, strong, None))


def tolerance(s, a, scale, tol):
    if scale is None:
        lo, hi = s.p.iv()
        m = max(abs(lo), abs(hi))
        if isinstance(m, float) or m == 0:
            lo, hi = a.p.iv()
            m = max(abs(lo), abs(hi))
        scale = Fraction(1) if isinstance(m, float) or m == 0 else m
    return T.frac(tol) * T.frac(scale)


def _neq(a, s, scale, tol):
    both_nan_differ = bor(band(a.nan, bnot(s.nan)), band(bnot(a.nan), s.nan))
    fin = band(bnot(a.nan), bnot(s.nan))
    if a.inf is FALSE and s.inf is FALSE:
        infd = FALSE
    else:
        infd = bor(band(a.inf, bnot(s.inf)), band(bnot(a.inf), s.inf),
                   band(a.inf, s.inf, T.blt(T.pmul(a.p, s.p), T.P0)))
        fin = band(fin, bnot(a.inf), bnot(s.inf))
    d = T.psub(a.p, s.p)
    if not d.t:
        r = bor(both_nan_differ, infd)
        return r, r
    if T._has_inv(d):
        n, dens = T.clear(d)
        if not n.t:
            r = bor(both_nan_differ, infd)
            return r, r
    t = tolerance(s, a, scale, tol)
    out = []
    for k in (t, t * 1000):
        kk = T.pconst(k)
        v = bor(T.blt(kk, d), T.blt(d, T.pneg(kk)))
        out.append(bor(both_nan_differ, band(bnot(a.nan), bnot(s.nan), infd), band(fin, v)))
    return out[0], out[1]


# ---------------------------------------------------------------- concrete
class Conc(Base):
    worst = 0.0         # largest deviation seen, in units of the tolerance
    """the same case on ordinary floats: real code, real numpy, nothing patched"""

    def __init__(self, env, rng=None, style=0):
        self.env = env
        self.used = {}
        self.rng = rng
        self.style = style
        self.fail = []          # (label, impl, spec, known id or None)
        self.values = []
        self.functions = set()

    def real(self, name, lo=None, hi=None):
        if name in self.used:
            return np.float64(self.used[name])
        v = self.env.get(name)
        if v is None:
            lo_ = -1e3 if lo is None else float(lo)
            hi_ = 1e3 if hi is None else float(hi)
            if self.rng is None:
                v = (lo_ + hi_) / 2
            else:
                r = self.rng.random()
                if self.style == 1 and r < 0.25:
                    v = lo_
                elif self.style == 1 and r < 0.5:
                    v = hi_
                elif self.style == 2 and self.used and r < 0.4:
                    c = [w for w in self.used.values() if not isinstance(w, bool) and lo_ <= w <= hi_]
                    v = self.rng.choice(c) if c else self.rng.uniform(lo_, hi_)
                else:
                    v = self.rng.uniform(lo_, hi_)
        v = float(v)
        self.used[name] = v
        return np.float64(v)

    def boolean(self, name):
        if name in self.used:
            return self.used[name]
        v = self.env.get(name)
        if v is None:
            v = False if self.rng is None else self.rng.random() < (0.15, 0.4, 0.3)[self.style]
        v = bool(v)
        self.used[name] = v
        return v

    def missing_if(self, b, x):
        return np.float64(np.nan) if b else x

    def pack(self, o):
        return o.astype(float)

    def const(self, v):
        return np.float64(v)

    def assume(self, b):
        if not bool(b):
            raise AssumptionFailed()

    def branch(self, b):
        return bool(b)

    def where(self, c, a, b):
        return np.float64(a) if bool(c) else np.float64(b)

    def min(self, *xs):
        r = np.float64(xs[0])
        for x in xs[1:]:
            r = np.minimum(r, np.float64(x))
        return r

    def max(self, *xs):
        r = np.float64(xs[0])
        for x in xs[1:]:
            r = np.maximum(r, np.float64(x))
        return r

    def abs(self, x):
        return np.abs(x)

    def isnan(self, x):
        return bool(np.isnan(x))

    def and_(self, *xs):
        return all(bool(x) for x in xs)

    def or_(self, *xs):
        return any(bool(x) for x in xs)

    def not_(self, x):
        return not bool(x)

    def fn(self, name, *xs):
        return getattr(np, name)(*[np.float64(x) for x in xs])

    nan = np.float64(np.nan)

    def le(self, a, b):
        return bool(a <= b)

    def lt(self, a, b):
        return bool(a < b)

    def eq(self, a, b):
        return bool(a == b)

    def true(self, label, cond):
        if not bool(cond):
            self.fail.append((label, False, True, None))

    def equal(self, label, impl, spec, scale=None, tol=1e-7, skip=None, known=None):
        tol = tol if self.single is None else max(tol, self.single)
        scale = scale if scale is None or self.mag == 1 else float(scale) * self.mag
        a = float(impl)
        s = float(spec)
        self.values.append((label, a))
        self.worst = max(self.worst, abs(a - s) / (float(tol) * (float(scale) if scale is not None else max(abs(s), 1e-300)))) if math.isfinite(a) and math.isfinite(s) else self.worst
        if skip is not None and bool(skip):
            return
        if not _fneq(a, s, scale, tol, self.single is not None, self.size):
            return
        kid = None
        if known is not None:
            fid, cond, alt = known
            if bool(cond) and (alt is None or not _fneq(a, float(alt), scale, tol, self.single is not None, self.size)):
                kid = fid
        self.fail.append((label, a, s, kid))


def _fneq(a, s, scale, tol, single=False, size=0.0):
    if math.isnan(a) or math.isnan(s):
        return math.isnan(a) != math.isnan(s)
    if math.isinf(a) or math.isinf(s):
        return a != s
    m = float(scale) if scale is not None else max(abs(s), 1e-300)
    t = 0.5 * float(tol) * m
    # rounding floor: never below a few hundred ulp of the values themselves
    t = max(t, (1e-4 if single else 1e-11) * max(abs(a), abs(s)), (1e-5 if single else 1e-13) * size)
    return abs(a - s) > t


def _quiet(fn):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            return fn()


def run_concrete(case, env, rng=None, style=0):
    """-> (Conc, status) status: 'ok' | 'fail' | 'assume' | ('exc', text)"""
    assert not SA._active[0]
    saved, CUR[0] = CUR[0], None
    c = Conc(env, rng, style)
    c.single = case.single
    c.mag = case.mag
    c.double = case.double
    try:
        _quiet(lambda: case.fn(c, **case.params))
        st = "fail" if any(f[3] is None for f in c.fail) else "ok"
    except AssumptionFailed:
        st = "assume"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb) if "momlevel" in f.filename and "/verif/" not in f.filename), None)
        st = ("exc", f"{type(e).__name__}: {str(e)[:200]}" + (f" at {where}" if where else ""))
    finally:
        CUR[0] = saved
    return c, st


# -------------------------------------------------------------------- case
class Case:
    def __init__(self, name, fn, tier="quick", max_paths=400, budget=120.0, qtimeout=15.0,
                 bounds=None, samples=6, single=None, mag=1, double="", **params):
        self.name, self.fn, self.params = name, fn, params
        self.tier = tier
        self.max_paths, self.budget, self.qtimeout = max_paths, budget, qtimeout
        self.bounds = bounds or (fn.__doc__ or "").strip()
        self.samples = samples
        self.single = single
        self.mag = mag
        self.double = double


class Run:
    def __init__(self, case):
        self.case = case
        self.queue = [[]]
        self.functions = set()
        self.checked = 0
        self.trivial = 0
        self.paths = 0
        self.max_depth = 400
        self.known_q = []

    def push(self, p):
        self.queue.append(p)


def _floatenv(env):
    return {k: (v if isinstance(v, bool) else float(v)) for k, v in env.items() if v is not None}


def _sample_env(rng, style):
    env = {}
    vals = []
    for a in T.ATOMS:
        if a.kind == "var":
            lo = -1e3 if isinstance(a.lo, float) else float(a.lo)
            hi = 1e3 if isinstance(a.hi, float) else float(a.hi)
            r = rng.random()
            if style == 1 and r < 0.5:
                v = lo if r < 0.25 else hi
            elif style == 2 and r < 0.4 and vals:
                v = min(max(rng.choice(vals), lo), hi)
            else:
                v = rng.uniform(lo, hi)
            vals.append(v)
            env[a.name] = v
    for b in list(T._BCACHE.values()):
        if b.kind == "var":
            env[b.args[0]] = rng.random() < (0.15, 0.4, 0.3)[style]
    return env


def find_model(f, rng, tries=60):
    """cheap search for a satisfying assignment by evaluation"""
    t0 = time.time()
    for i in range(tries):
        env = _sample_env(rng, i % 3)
        try:
            if T.beval(f, env):
                return env
        except Exception:
            pass
        if time.time() - t0 > 2.0:
            break
    return None


def run_case(case, seed=1):
    """explore a case; returns a result dict"""
    t0 = time.time()
    T.reset()
    S.reset_stats()
    S._FEAS.clear()
    rng = random.Random(seed)
    run = Run(case)
    res = {"case": case.name, "status": "ok", "violations": [], "known": {}, "notes": [],
           "paths": 0, "conformance": 0, "conformance_bad": 0, "infeasible": 0, "samples": []}
    deadline = t0 + case.budget
    degraded = None
    concrete_runs = [0]

    def note(s):
        if s not in res["notes"]:
            res["notes"].append(s)

    def confirm(env, label):
        """replay on the real code; True when it violates there too"""
        env = _floatenv(env)
        c, st = run_concrete(case, env)
        concrete_runs[0] += 1
        if st == "fail":
            f = next(x for x in c.fail if x[3] is None)
            res["violations"].append({"label": f[0], "impl": repr(f[1]), "spec": repr(f[2]), "env": c.used,
                                      "found_by": label})
            return True
        if isinstance(st, tuple):
            res["violations"].append({"label": f"unexpected {st[1]}", "impl": st[1], "spec": "a result", "env": c.used,
                                      "found_by": label})
            return True
        return False

    while run.queue and not res["violations"]:
        if run.paths >= case.max_paths or time.time() > deadline:
            degraded = degraded or f"exploration bound reached after {run.paths} paths"
            break
        prefix = run.queue.pop()
        c = Sym(prefix, run)
        c.single = case.single
        c.mag = case.mag
        c.double = case.double
        CUR[0] = c
        exc = None
        with SA.active():
            try:
                _quiet(lambda: case.fn(c, **case.params))
            except Infeasible:
                res["infeasible"] += 1
                CUR[0] = None
                continue
            except (Unsupported, T.TermLimit, PathLimit) as e:
                degraded = degraded or f"not encodable: {type(e).__name__}: {e}"
                tb = traceback.extract_tb(e.__traceback__)
                w = next((f"{f.filename}:{f.lineno}" for f in reversed(tb) if "/momlevel/" in f.filename), "")
                note(f"{degraded} {w}")
                CUR[0] = None
                if len(res["notes"]) > 5:
                    break
                continue
            except Exception as e:
                exc = e
                if os.environ.get("SYMLEV_DEBUG"):
                    traceback.print_exc()
        run.paths += 1
        try:
            if exc is not None:
                v, env = S.refute(c.pc or [TRUE], case.qtimeout)
                if v == "unsat":
                    continue
                cand = []
                if env is not None:
                    cand.append(S.complete(env))
                m = find_model(band(*c.pc), rng)
                if m:
                    cand.append(m)
                if not any(confirm(x, f"exception {type(exc).__name__} on a symbolic path") for x in cand):
                    degraded = degraded or f"symbolic run raised {type(exc).__name__}: {str(exc)[:200]}"
                    note(degraded)
                continue
            _discharge(case, c, run, res, rng, confirm, note, deadline)
            # conformance: a witness of this path, encoding vs real code
            if run.paths <= 6 or run.paths % 16 == 0:
                env = _witness(c, rng, case)
                if env is None:
                    if run.paths == 1:
                        note("no witness found for a path")
                else:
                    _conform(case, c, env, res, concrete_runs)
        finally:
            CUR[0] = None
    CUR[0] = None
    # known findings reached?
    for fid, label, pc, f in run.known_q:
        if fid in res["known"]:
            continue
        g = band(*pc, f)
        if g is FALSE:
            continue
        env = find_model(g, rng)
        if env is None:
            v, env = S.refute([g], case.qtimeout)
            env = S.complete(env) if v == "sat" and env is not None else None
        if env is not None:
            cc, st = run_concrete(case, _floatenv(env))
            concrete_runs[0] += 1
            hit = [x for x in cc.fail if x[3] == fid]
            if hit:
                res["known"][fid] = {"label": hit[0][0], "impl": repr(hit[0][1]), "spec": repr(hit[0][2]), "env": cc.used}
    # random conformance / fallback points on the real code
    sure = degraded is None and not res.get("unknown")
    _points(case, seed, res, concrete_runs, case.samples if sure else 150, 10 if sure else 45)
    if run.paths == 0 and degraded is None:
        degraded = "no feasible path"
    if degraded:
        res["status"] = "degraded"
        note(degraded)
    if res.get("unknown"):
        res["status"] = "degraded" if degraded else "inconclusive"
    res.update(paths=run.paths, checked=run.checked, trivial=run.trivial, functions=sorted(run.functions),
               concrete_runs=concrete_runs[0], atoms=len(T.ATOMS), stats=dict(S.STATS),
               wall_s=round(time.time() - t0, 2), bounds=case.bounds)
    return res


def _points(case, seed, res, concrete_runs, n, seconds):
    """the specification against the real code on points of the case's box: no claim, but a disagreement is a violation"""
    tlim = time.time() + seconds
    got = 0
    for i in range(n * 3):
        if got >= n or time.time() > tlim or res["violations"]:
            break
        cc, st = run_concrete(case, {}, random.Random(seed * 1000 + i), i % 3)
        if st == "assume":
            continue
        got += 1
        concrete_runs[0] += 1
        for x in cc.fail:
            if x[3] is not None and x[3] not in res["known"]:
                res["known"][x[3]] = {"label": x[0], "impl": repr(x[1]), "spec": repr(x[2]), "env": cc.used}
        if st == "fail":
            f = next(x for x in cc.fail if x[3] is None)
            res["violations"].append({"label": f[0], "impl": repr(f[1]), "spec": repr(f[2]), "env": cc.used,
                                      "found_by": "conformance run of the real code"})
        elif isinstance(st, tuple):
            res["violations"].append({"label": f"unexpected {st[1]}", "impl": st[1], "spec": "a result", "env": cc.used,
                                      "found_by": "conformance run of the real code"})


def run_points(case, seed=1, seconds=30, n=150):
    """what is left when the symbolic run of a case did not end"""
    t0 = time.time()
    res = {"case": case.name, "status": "error", "violations": [], "known": {}, "notes": [], "paths": 0, "conformance": 0, "conformance_bad": 0,
           "checked": 0, "trivial": 0, "functions": [], "atoms": 0, "stats": {}, "bounds": case.bounds, "infeasible": 0, "samples": []}
    k = [0]
    _points(case, seed, res, k, n, seconds)
    res.update(concrete_runs=k[0], wall_s=round(time.time() - t0, 2))
    return res


def _witness(c, rng, case):
    f = band(*c.pc)
    env = find_model(f, rng)
    if env is None:
        v, env = S.refute([f], min(5.0, case.qtimeout))
        if v == "sat" and env is not None:
            env = S.complete(env)
            try:
                if not T.beval(f, env):     # relaxed model, not a real witness
                    env = None
            except Exception:
                env = None
        else:
            env = None
    return env


def _conform(case, c, env, res, concrete_runs):
    cc, st = run_concrete(case, _floatenv(env))
    concrete_runs[0] += 1
    if st == "assume":
        return
    if isinstance(st, tuple) or st == "fail":
        f = next((x for x in cc.fail if x[3] is None), None)
        if f is None:
            f = (f"unexpected {st[1]}", st[1], "a result")
        res["violations"].append({"label": f[0], "impl": repr(f[1]), "spec": repr(f[2]), "env": cc.used,
                                  "found_by": "witness run of the real code"})
        return
    # same labels in the same order: compare the encoding with the code
    bad = 0
    fe = {k: (v if isinstance(v, bool) else float(v)) for k, v in S.complete(env).items()}
    cache = {}
    n = 0
    ctab = {}
    for l, v in cc.values:
        ctab.setdefault(l, v)
    for l, a, sc in c.values:
        if l not in ctab:
            continue
        n += 1
        v = ctab[l]
        try:
            nan = T.beval(a.nan, fe, cache)
            inf = T.beval(a.inf, fe, cache)
            p = T.peval(a.p, fe, cache) if not nan else float("nan")
        except Exception:
            continue
        if nan or math.isnan(v):
            ok = nan == math.isnan(v)
        elif inf or math.isinf(v):
            ok = inf and math.isinf(v)
        else:
            ok = abs(p - v) <= (1e-6 if case.single is None else 1e-3) * max(abs(p), abs(v)) + ((1e-8 if case.single is None else case.single) * float(sc) if sc is not None else 1e-18)
        if not ok:
            bad += 1
            if len(res["samples"]) < 6:
                res["samples"].append(f"encoding/code mismatch at {l}: {p if not nan else 'nan'} vs {v}")
    res["conformance"] += 1
    if bad:
        res["conformance_bad"] += 1
    elif len(res["samples"]) < 2 and n:
        l = c.values[0][0]
        res["samples"].append(f"witness agrees on {n} values, e.g. {l} = {ctab.get(l)}")


def _discharge(case, c, run, res, rng, confirm, note, deadline):
    if c.closed:
        # the two sides met in normal form; the solver confirms their equality
        if not S.confirm_equal([(a.p, s.p, t) for a, s, t in c.closed], c.pc):
            note("solver did not confirm a normal-form equality")
            res["unknown"] = res.get("unknown", 0) + 1
    if not c.obl:
        return
    pc = band(*c.pc)
    # all obligations of the path at once
    allv = bor(*[o[1] for o in c.obl])
    g = band(pc, allv)
    if g is FALSE:
        S.STATS["queries"] += 1
        S.STATS["unsat"] += 1
        return
    v, env, ab = S.check([g], False, case.qtimeout)
    if v == "unsat":
        return
    # search for a concrete counterexample first: cheap
    strong = band(pc, bor(*[o[2] for o in c.obl]))
    m = find_model(strong, rng)
    if m is not None and confirm(m, "evaluation of the violation formula"):
        return
    if v == "sat" and env is not None and S.holds(g, env) and confirm(S.complete(env), "solver model"):
        return
    # merge equal sub-terms, then try again
    obl = c.obl
    try:
        sw = W.Sweep(c.pc, timeout=min(2.0, case.qtimeout), budget=min(40.0, max(1.0, deadline - time.time())))
        obl = [(o[0], sw.boolean(o[1]), o[2], o[3]) for o in c.obl]
        S.STATS["merged_terms"] = S.STATS.get("merged_terms", 0) + sw.merged
        g2 = band(pc, bor(*[o[1] for o in obl]))
        if g2 is FALSE:
            S.STATS["queries"] += 1
            S.STATS["unsat"] += 1
            return
        v, env, ab = S.check([g2], False, case.qtimeout)
        if v == "unsat":
            return
    except T.TermLimit:
        obl = c.obl
    for label, vf, st, _ in obl:
        if time.time() > deadline:
            res["unknown"] = res.get("unknown", 0) + 1
            note(f"time bound reached before {label}")
            return
        h = band(pc, vf)
        r, env = S.refute([h], case.qtimeout)
        if r == "unsat":
            continue
        if r == "sat":
            cands = []
            if st is not vf:
                r2, e2 = S.refute([band(pc, st)], case.qtimeout)
                if r2 == "sat" and e2 is not None:
                    cands.append(S.complete(e2))
            if env is not None:
                cands.append(S.complete(env))
            if any(confirm(x, f"solver model for {label}") for x in cands):
                return
            res["unknown"] = res.get("unknown", 0) + 1
            res.setdefault("unconfirmed", []).append(
                {"label": label, "env": {k: (v if isinstance(v, bool) else float(v)) for k, v in (cands[-1] if cands else {}).items()}})
            note(f"counterexample for {label} did not reproduce on the real code")
        else:
            m = find_model(band(pc, st), rng, 200)
            if m is not None and confirm(m, f"evaluation for {label}"):
                return
            res["unknown"] = res.get("unknown", 0) + 1
            note(f"solver undecided on {label}")
        if res.get("unknown", 0) > 12:
            return
