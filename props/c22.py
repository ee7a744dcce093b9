"""C22: stability (Turner) angle"""
import math

import numpy as np
import xarray as xr
from momlevel import derived

from .common import Case, da, objs
from .c18 import expand, gradient, levels


def angle(c, nz, eos, free=False, nx=1, nt=None, order=None, fixed=False, missing=True, up=False, zname="z_l", extra=False, sorder=None, field=False, flat=False):
    c.cover(derived.calc_stability_angle, derived.calc_alpha, derived.calc_beta)
    zl = levels(c, nz, free, up)
    lead = () if nt is None else (nt,)
    sh = lead + (nz, nx)
    dims = (("time",) if nt else ()) + (zname, "xh")
    t, s = c.array("T", sh, -10.0, 60.0, nan=missing), c.array("S", sh, -2.0, 80.0, nan=missing)
    T, S = c.elems(t), c.elems(s)
    A, B = (da(v, dims, {zname: c.pack(zl)}) for v in (t, s))
    if extra:
        A, B = (v.assign_coords(xh=np.arange(nx) * 10.0, run=3, site=("xh", [f"s{i}" for i in range(nx)])) for v in (A, B))
    if order:
        A, B = A.transpose(*order), B.transpose(*order)
    if sorder:
        B = B.transpose(*sorder)
    if fixed:
        p = c.real("p", 0.0, 1e8)
        P = [p] * nz
        pres = p
    else:
        P = [zl[k] * 1e4 for k in range(nz)]
        pres = da(c.pack(zl), (zname,), {zname: c.pack(zl)}) * 1e4
    pe = None
    if field:           # a full pressure field, missing where it likes
        pf = c.array("p", (nz, nx), 0.0, 1e8, nan=missing)
        pe, pres = c.elems(pf), da(pf, (zname, "xh"), {zname: c.pack(zl)})
    kw = {} if eos == "Wright" else {"eos": eos}
    if zname != "z_l":
        kw["zcoord"] = zname
    if flat:
        A, B = (v.isel(xh=0, drop=True) for v in (A, B))
    out = derived.calc_stability_angle(A, B, pres, **kw)
    if flat:
        c.true("profile", tuple(out.dims) == (zname,))
        out = out.expand_dims("xh")
    spec, skip = np.empty(sh, dtype=object), np.empty(sh, dtype=object)
    for q in np.ndindex(*lead, nx):
        ix = lambda k: q[:-1] + (k,) + q[-1:]
        dt, ds = gradient(zl, [T[ix(k)] for k in range(nz)]), gradient(zl, [S[ix(k)] for k in range(nz)])
        for k in range(nz):
            al, be = expand(c, eos, T[ix(k)], S[ix(k)], P[k] if pe is None else pe[k, q[-1]])
            a, b = al * dt[k], be * ds[k]
            # tan(angle) = (a + b) / (a - b): undefined for exactly a == 0 (density ratio) and a == b
            gone = c.or_(c.isnan(a), c.isnan(b))
            a0, b0 = c.where(gone, 1.0, a), c.where(gone, 0.0, b)
            skip[ix(k)] = c.and_(c.not_(gone), c.or_(c.eq(a0, 0.0), c.eq(a0, b0)))
            r = b / a
            spec[ix(k)] = c.fn("arctan", (1.0 + r) / (1.0 - r)) * (180.0 / math.pi)
    c.compare("angle", out.transpose(*dims), spec, dims=dims, scale=10.0, skip=skip)
    c.true("units", out.attrs.get("units") == "degrees")
    o = c.elems(out.transpose(*dims))
    for q in np.ndindex(*sh):
        c.true(f"range{q}", c.or_(c.isnan(o[q]), c.le(c.abs(c.where(c.isnan(o[q]), 0.0, o[q])), 90.0001)))


def quadrant(c):
    """temperature alone gives +45 degrees, whatever its gradient (linear equation of state)"""
    c.cover(derived.calc_stability_angle)
    zl = levels(c, 3, False)
    a, s = c.real("a", 1e-4, 1e-3), c.real("s", 30.0, 36.0)
    sg = c.choice("sign", (-1.0, 1.0))
    T = objs((3,), lambda k: 15.0 + sg * a * float(zl[k]))
    o = c.elems(derived.calc_stability_angle(da(c.pack(T), ("z_l",), {"z_l": c.pack(zl)}), da(c.pack(objs((3,), lambda k: s)), ("z_l",), {"z_l": c.pack(zl)}), 1e5, eos="linear"))
    for k in range(3):
        c.compare(f"45 degrees[{k}]", o[k], 45.0, dims=(), scale=1.0)


def compensated(c, nz, up=False):
    """temperature and salinity gradients that cancel exactly (density ratio one): ninety degrees, whatever the gradient"""
    c.cover(derived.calc_stability_angle)
    zl = levels(c, nz, False, up)
    a, s = c.real("a", 1e-4, 1e-3), c.real("s", 5.0, 9.0)
    sg = c.choice("sign", (-1.0, 1.0))
    co = {"z_l": c.pack(zl)}
    S = objs((nz,), lambda k: s + sg * a * float(zl[k]))
    T = objs((nz,), lambda k: 4.0 * S[k])
    o = c.elems(derived.calc_stability_angle(da(c.pack(T), ("z_l",), co), da(c.pack(S), ("z_l",), co), 1e5, eos="linear"))
    for k in range(nz):
        c.compare(f"90 degrees[{k}]", c.abs(o[k]), 90.0, dims=(), scale=1.0, tol=1e-4)


def cases(tier):
    q = [Case("temperature alone", quadrant), Case("compensated", compensated, nz=3), Case("compensated bottom up", compensated, nz=4, up=True)]
    for e in ("Wright", "linear"):
        q += [Case(f"{e}", angle, nz=3, eos=e, nx=1), Case(f"{e} fixed pressure", angle, nz=3, eos=e, fixed=True), Case(f"{e} any levels", angle, nz=3, eos=e, free=True), Case(f"{e} time", angle, nz=3, eos=e, nt=2, order=("xh", "time", "z_l"))]
    q.append(Case("linear columns", angle, nz=4, eos="linear", nx=2))
    for e in ("Wright", "linear"):
        q += [Case(f"{e} bottom up", angle, nz=4, eos=e, up=True), Case(f"{e} any levels bottom up", angle, nz=3, eos=e, free=True, up=True), Case(f"{e} name", angle, nz=3, eos=e, zname="lev", nx=2), Case(f"{e} labelled", angle, nz=3, eos=e, nx=2, extra=True), Case(f"{e} mixed orders", angle, nz=3, eos=e, nx=2, sorder=("xh", "z_l")), Case(f"{e} profile", angle, nz=4, eos=e, flat=True), Case(f"{e} five", angle, nz=5, eos=e)]
    q.append(Case("Wright pressure field", angle, nz=3, eos="Wright", nx=2, field=True))
    q += [Case("linear eighty", angle, nz=80, eos="linear", missing=False), Case("Wright twelve", angle, nz=12, eos="Wright", missing=False)]
    if tier == "thorough":
        q += [Case(f"{e} deep", angle, nz=6, eos=e, nx=2, budget=500) for e in ("Wright", "linear")]
    return q
