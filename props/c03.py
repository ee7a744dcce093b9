"""C03: the linear equation of state"""
import numpy as np
import xarray as xr
from momlevel import derived, eos

from .common import Case, PHI, PLO, SHI, SLO, THI, TLO, da, lin, objs


def affine(c, n, missing, ref):
    """n free points, any missing; optional free reference density in [900, 1100]"""
    c.cover(eos.linear.density)
    t = c.array("T", (n,), -50, 60, nan=missing)
    s = c.array("S", (n,), 0, 60, nan=missing)
    te, se = c.elems(t), c.elems(s)
    if ref:
        r = c.real("rho_ref", 900.0, 1100.0)
        out = eos.linear.density(t, s, rho_ref=r)
        spec = objs((n,), lambda i: 1000.0 - r + (-0.2 * te[i] + 0.8 * se[i]))
    else:
        out = eos.linear.density(t, s)
        spec = objs((n,), lambda i: 1000.0 + (-0.2 * te[i] + 0.8 * se[i]))
    c.compare("density", out, spec, scale=1000.0)


def pressure_free(c):
    """density does not depend on pressure: two free pressures (one possibly missing, one absent) give the same density"""
    c.cover(eos.linear.density, derived.calc_rho)
    t, s = c.array("T", (2,), TLO, THI), c.array("S", (2,), SLO, SHI)
    p = c.array("p", (2,), PLO, PHI, nan=True)
    q = c.array("q", (2,), PLO, PHI)
    a, b, d = eos.linear.density(t, s, p), eos.linear.density(t, s, q), eos.linear.density(t, s)
    c.compare("p vs q", a, c.elems(b), scale=1000.0)
    c.compare("p vs none", a, c.elems(d), scale=1000.0)
    for nm, f in (("alpha", eos.linear.alpha), ("beta", eos.linear.beta)):
        c.compare(nm, f(t, s, p), c.elems(f(t, s, q)), scale=1e-4)


def number_types(c, kind):
    """free integer temperatures in [-5, 40] and salinities in [0, 45], as integer arrays, integer DataArrays or python ints
    (ints: the four corners): same law as for floats"""
    c.cover(eos.linear.alpha, eos.linear.beta, eos.linear.density)
    if kind == "python":
        for a in (-5, 0, 10, 40):
            for b in (0, 35):
                rho = 1000.0 - 0.2 * a + 0.8 * b
                for nm, f, v in (("alpha", eos.linear.alpha, 0.2 / rho), ("beta", eos.linear.beta, 0.8 / rho), ("density", eos.linear.density, rho)):
                    for ty in (int, float, np.int32, np.float64):
                        c.equal(f"{nm}({ty.__name__} {a},{b})", c.const(float(f(ty(a), ty(b), 0.0))), c.const(v), scale=v)
        return
    t, s = c.ints("T", (2,), -5, 40), c.ints("S", (2,), 0, 45)
    te, se = c.elems(t), c.elems(s)
    law = {"alpha": (lambda r: 0.2 / r, 1e-4), "beta": (lambda r: 0.8 / r, 1e-4), "density": (lambda r: r, 1000.0)}
    for nm, (g, sc) in law.items():
        spec = objs((2,), lambda i: g(lin(te[i], se[i])))
        if kind == "intarray":
            c.compare(nm, getattr(eos.linear, nm)(t, s, 0.0), spec, scale=sc)
        else:
            f = {"alpha": derived.calc_alpha, "beta": derived.calc_beta, "density": derived.calc_rho}[nm]
            c.compare(nm, f(da(t, ("x",)), da(s, ("x",)), 0.0, eos="linear"), spec, dims=("x",), scale=sc)


def mixed_shapes(c):
    """alpha and beta broadcast temperature, salinity and pressure like the density does"""
    c.cover(eos.linear.alpha, eos.linear.beta)
    t = c.array("T", (2, 1), TLO, THI, nan=True)
    s = c.array("S", (1, 2), SLO, SHI, nan=True)
    te, se = c.elems(t), c.elems(s)
    spec = lambda k: objs((2, 2), lambda i, j: k / lin(te[i, 0], se[0, j]))
    c.compare("alpha", eos.linear.alpha(t, s, 0.0), spec(0.2), scale=1e-4)
    c.compare("beta", eos.linear.beta(t, s, 0.0), spec(0.8), scale=1e-4)


def labelled(c, kind):
    """through calc_rho / calc_pdens / calc_alpha: any pressure (a field with missing values, a number, None, a map), any order"""
    c.cover(derived.calc_rho, derived.calc_pdens, derived.calc_alpha, derived.calc_beta)
    if kind == "permuted":
        t, s, p = (c.array(n, (2, 2, 2), lo, hi, nan=True) for n, lo, hi in (("T", -50, 60), ("S", 0, 60), ("p", PLO, PHI)))
        te, se = c.elems(t), c.elems(s)
        X = da(t, ("z_l", "y", "x")), da(s, ("x", "z_l", "y")), da(p, ("y", "x", "z_l"))
        for nm, f, g, sc in (("rho", derived.calc_rho, lambda r: r, 1000.0), ("alpha", derived.calc_alpha, lambda r: 0.2 / r, 1e-4), ("beta", derived.calc_beta, lambda r: 0.8 / r, 1e-4)):
            c.compare(nm, f(*X, eos="linear"), objs((2, 2, 2), lambda k, j, i: g(lin(te[k, j, i], se[i, k, j]))), dims=("z_l", "y", "x"), scale=sc)
        return
    t, s = c.array("T", (2, 3), -50, 60, nan=True), c.array("S", (3, 2), 0, 60, nan=True)
    te, se = c.elems(t), c.elems(s)
    T, S = da(t, ("z_l", "x")), da(s, ("x", "z_l"))
    spec = objs((2, 3), lambda k, i: lin(te[k, i], se[i, k]))
    if kind == "none":
        P = None
    elif kind == "number":
        P = c.real("p", PLO, PHI)
    elif kind == "field":
        P = da(c.array("p", (2, 3), PLO, PHI, nan=True), ("z_l", "x"))
    elif kind == "map":      # pressure has a dimension of its own
        P = da(c.array("p", (2, 3), PLO, PHI, nan=True), ("time", "x"))
        wide = lambda g: objs((2, 2, 3), lambda a, k, i: g(spec[k, i]))
        for nm, f, g, sc in (("rho", derived.calc_rho, lambda r: r, 1000.0), ("alpha", derived.calc_alpha, lambda r: 0.2 / r, 1e-4), ("beta", derived.calc_beta, lambda r: 0.8 / r, 1e-4)):
            c.compare(nm, f(T, S, P, eos="linear"), wide(g), dims=("time", "z_l", "x"), scale=sc)
        return
    if kind == "pdens":
        lv, pa = c.real("level", 0.0, 7500.0), da(c.array("patm", (3,), 8e4, 1.2e5, nan=True), ("x",))
        c.compare("pdens", derived.calc_pdens(T, S, level=lv, patm=pa, eos="LINEAR"), spec, dims=("z_l", "x"), scale=1000.0)
        return
    c.compare("rho", derived.calc_rho(T, S, P, eos="linear"), spec, dims=("z_l", "x"), scale=1000.0)
    c.compare("alpha", derived.calc_alpha(T, S, P, eos="linear"), objs((2, 3), lambda k, i: 0.2 / spec[k, i]), dims=("z_l", "x"), scale=1e-4)
    c.compare("beta", derived.calc_beta(T, S, P, eos="linear"), objs((2, 3), lambda k, i: 0.8 / spec[k, i]), dims=("z_l", "x"), scale=1e-4)


def number(c, ref):
    """plain numbers, a reference density of any size (zero included) and a pressure"""
    c.cover(eos.linear.density)
    t, s, p = c.real("T", -50, 60), c.real("S", 0, 60), c.real("p", PLO, PHI)
    r = {"zero": 0.0, "free": c.real("rho_ref", -2000.0, 2000.0), "none": None}[ref]
    c.equal("density", eos.linear.density(t, s, p, rho_ref=r), lin(t, s) - (0.0 if r is None else r), scale=1000.0)
    c.equal("density no pressure", eos.linear.density(t, s, rho_ref=r), lin(t, s) - (0.0 if r is None else r), scale=1000.0)


def cases(tier):
    q = [Case(f"labelled {k}", labelled, kind=k) for k in ("none", "number", "field", "map", "pdens", "permuted")]
    q += [Case(f"number ref {r}", number, ref=r) for r in ("none", "zero", "free")]
    q += [Case("affine", affine, n=1, missing=False, ref=False), Case("affine missing", affine, n=3, missing=True, ref=False),
         Case("affine reference", affine, n=2, missing=True, ref=True), Case("pressure independence", pressure_free), Case("broadcast", mixed_shapes)]
    for k in ("python", "intarray", "dataarray"):
        q.append(Case(f"number types {k}", number_types, kind=k))
    if tier == "thorough":
        q.append(Case("affine n=32", affine, n=32, missing=True, ref=True))
    return q
