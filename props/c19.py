"""C19: Coriolis parameter, first baroclinic wave speed, Rossby radius"""
import math

import numpy as np
import xarray as xr
from momlevel import derived

from .common import Case, da, objs
from .c18 import carried

PI = math.pi


def coriolis(c, n, shape2=None):
    """any latitudes: 2 * (2 pi / 86400 s) * sin(latitude)"""
    c.cover(derived.calc_coriolis)
    x = c.array("lat", (n, 2), -90.0, 90.0, nan=True)
    e = c.elems(x)
    out = derived.calc_coriolis(da(x, ("yh", "xh")))
    c.compare("f", out, objs((n, 2), lambda j, i: (4.0 * PI / 86400.0) * c.fn("sin", e[j, i] * (PI / 180.0))), dims=("yh", "xh"), scale=1e-4)
    o = c.elems(out)
    for j in range(n):
        p = c.where(c.isnan(e[j, 0]), 0.0, e[j, 0])
        f = c.where(c.isnan(o[j, 0]), 0.0, o[j, 0])
        c.true(f"hemisphere[{j}]", c.and_(c.or_(c.le(p, 0.0), c.lt(0.0, f)), c.or_(c.le(0.0, p), c.lt(f, 0.0)), c.le(c.abs(f), 1.4545e-4)))
    c.true("units", out.attrs.get("units") == "s-1")


def odd(c):
    """antisymmetric about the equator and growing with latitude"""
    c.cover(derived.calc_coriolis)
    a, b = c.real("a", -90.0, 90.0), c.real("b", -90.0, 90.0)
    o = c.elems(derived.calc_coriolis(da(c.pack(objs((3,), lambda i: (a, -1.0 * a, b)[i])), ("yh",))))
    c.compare("odd", o[1], -1.0 * o[0], dims=(), scale=1e-4)
    c.assume(c.lt(a + 0.001, b))
    c.true("monotone", c.lt(o[0], o[2]))


def speed_spec(c, col, h):
    """sum over the layers that are present of N dz / pi, missing where the top layer is"""
    adj = carried(c, col, 1e-8)
    tot = 0.0
    for a, d in zip(adj, h):
        gone = c.or_(c.isnan(a), c.isnan(d))
        tot = tot + c.where(gone, 0.0, c.fn("sqrt", c.where(c.isnan(a), 1.0, a)) * c.where(c.isnan(d), 0.0, d))
    return c.where(c.isnan(col[0]), c.nan, tot / PI)


def speed(c, nz, ny=1, nx=1, negative=True, zname="z_l", dzdims=None, missing=True):
    """any profile (unstable layers included), any thicknesses"""
    c.cover(derived.calc_wave_speed, derived.adjust_negative_n2)
    d = (zname, "yh", "xh")
    n2 = c.array("n2", (nz, ny, nx), -1e-3 if negative else 1e-10, 1e-3, nan=missing)
    e = c.elems(n2)
    h = c.array("h", (nz, ny, nx), 0.0, 500.0, nan=missing)
    he = c.elems(h)
    H = da(h, d, {zname: np.arange(nz) * 1.0})
    if dzdims:
        H = H.transpose(*dzdims)
    kw = {} if zname == "z_l" else {"zcoord": zname}
    out = derived.calc_wave_speed(da(n2, d, {zname: np.arange(nz) * 1.0}), H, **kw)
    if c.dims_ok("speed", out.transpose(*sorted(out.dims, reverse=True)), ("yh", "xh")):
        c.compare("speed", out.transpose("yh", "xh"), objs((ny, nx), lambda j, i: speed_spec(c, list(e[:, j, i]), list(he[:, j, i]))), dims=("yh", "xh"), scale=1.0)
        c.true("units", out.attrs.get("units") == "m s-1")


def speed_time(c, nt, nz, nx=1):
    """arrays with a leading time dimension (recorded finding: masked with the first time step level by level, so that the
    result keeps a vertical dimension)"""
    c.cover(derived.calc_wave_speed)
    d = ("time", "z_l", "yh", "xh")
    n2 = c.array("n2", (nt, nz, 1, nx), 1e-10, 1e-3, nan=True)
    e = c.elems(n2)
    h = c.elems(c.array("h", (nz, 1, nx), 0.0, 500.0))
    co = {"z_l": np.arange(nz) * 1.0}
    out = derived.calc_wave_speed(da(n2, d, co), da(c.pack(h), d[1:], co))
    spec = objs((nt, 1, nx), lambda t, j, i: speed_spec(c, list(e[t, :, j, i]), list(h[:, j, i])))
    if set(out.dims) == {"time", "yh", "xh"}:
        c.compare("speed", out.transpose("time", "yh", "xh"), spec, dims=("time", "yh", "xh"), scale=1.0)
        return
    if set(out.dims) != set(d):
        c.true(f"dimensions {out.dims}", False)
        return
    raw = objs((nt, 1, nx), lambda t, j, i: c.sum([c.where(c.isnan(a), 0.0, c.fn("sqrt", c.where(c.isnan(a), 1.0, a)) * b) for a, b in zip(e[t, :, j, i], h[:, j, i])]) / PI)
    full = objs((nt, nz, 1, nx), lambda t, k, j, i: spec[t, j, i])
    alt = objs((nt, nz, 1, nx), lambda t, k, j, i: c.where(c.isnan(e[0, k, j, i]), c.nan, raw[t, j, i]))
    c.compare("speed", out.transpose(*d), full, dims=d, scale=1.0, known=("F3", objs((nt, nz, 1, nx), lambda *q: c.eq(0.0, 0.0)), alt))


def positive(c, nz):
    """never negative"""
    c.cover(derived.calc_wave_speed)
    n2, h = c.array("n2", (nz, 1, 1), -1e-3, 1e-3, nan=True), c.array("h", (nz, 1, 1), 0.0, 500.0)
    d, co = ("z_l", "yh", "xh"), {"z_l": np.arange(nz) * 1.0}
    o = c.elems(derived.calc_wave_speed(da(n2, d, co), da(h, d, co))).ravel()[0]
    c.true("nonnegative", c.or_(c.isnan(o), c.le(0.0, c.where(c.isnan(o), 0.0, o))))


def radius(c, n):
    """wave speed over the magnitude of the Coriolis parameter, in both hemispheres"""
    c.cover(derived.calc_rossby_rd)
    s, f = c.array("s", (n, 2), 0.0, 10.0, nan=True), c.array("f", (n, 2), -1.5e-4, 1.5e-4, nan=True)
    S, F = c.elems(s), c.elems(f)
    for q in np.ndindex(n, 2):
        c.assume(c.or_(c.isnan(F[q]), c.le(1e-9, c.abs(c.where(c.isnan(F[q]), 1.0, F[q])))))
    out = derived.calc_rossby_rd(da(s, ("yh", "xh"), name="speed"), da(f, ("yh", "xh"), name="f"))
    c.compare("radius", out, objs((n, 2), lambda j, i: c.where(c.or_(c.isnan(S[j, i]), c.isnan(F[j, i])), c.nan, c.where(c.isnan(S[j, i]), 0.0, S[j, i]) / c.abs(c.where(c.isnan(F[j, i]), 1.0, F[j, i])))), dims=("yh", "xh"), scale=1e4)


def radius_lat(c):
    """same radius at the same latitude north and south"""
    c.cover(derived.calc_rossby_rd, derived.calc_coriolis)
    a, s = c.real("lat", 0.1, 90.0), c.real("s", 0.0, 10.0)
    f = derived.calc_coriolis(da(c.pack(objs((2,), lambda i: (a, -1.0 * a)[i])), ("yh",)))
    o = c.elems(derived.calc_rossby_rd(da(c.pack(objs((2,), lambda i: s)), ("yh",)), f))
    c.compare("mirror", o[0], o[1], dims=(), scale=1e4)


def layouts(c, dims, extra=False):
    """latitudes of any layout; the radius broadcasts by name"""
    c.cover(derived.calc_coriolis, derived.calc_rossby_rd)
    sh = {"yh": 2, "xh": 3, "site": 2}
    sh = tuple(sh[d] for d in dims)
    x = c.array("lat", sh, -90.0, 90.0, nan=True)
    L = da(x, dims, name="geolat", attrs={"units": "degrees"})
    if extra:
        L = L.assign_coords({d: np.arange(n) * 5.0 for d, n in zip(dims, sh)}).assign_coords(run=1)
    f = derived.calc_coriolis(L)
    e = c.elems(x)
    c.compare("f", f, objs(sh, lambda *q: (4.0 * PI / 86400.0) * c.fn("sin", e[q] * (PI / 180.0))), dims=dims, scale=1e-4)
    c.true("coordinates", all(k in f.coords and list(f[k].values) == list(L[k].values) for k in dims if k in L.coords))
    w = c.array("w", (2,), 0.0, 10.0, nan=True)
    g = c.array("g", sh, -1.5e-4, 1.5e-4)
    G = c.elems(g)
    for q in np.ndindex(*sh):
        c.assume(c.le(1e-9, c.abs(G[q])))
    out = derived.calc_rossby_rd(da(w, ("t",), name="c1"), da(g, dims, name="f"))
    we = c.elems(w)
    c.compare("radius", out.transpose("t", *dims), objs((2,) + sh, lambda t, *q: we[t] / c.abs(G[q])), dims=("t",) + dims, scale=1e4)
    c.true("unnamed", f.name is None and out.name is None)


def equator(c):
    """no rotation at the equator: the radius grows without bound"""
    c.cover(derived.calc_coriolis, derived.calc_rossby_rd)
    s = c.real("s", 0.1, 10.0)
    f = derived.calc_coriolis(da(c.pack(objs((2,), lambda i: c.const((0.0, 30.0)[i]))), ("yh",)))
    fe = c.elems(f)
    c.compare("no rotation", fe[0], 0.0, dims=(), scale=1e-8)
    c.compare("thirty degrees", fe[1], 2.0 * PI / 86400.0, dims=(), scale=1e-4)
    r = c.elems(derived.calc_rossby_rd(da(c.pack(objs((2,), lambda i: s)), ("yh",)), f))
    c.compare("radius", r[1], s * (86400.0 / (2.0 * PI)), dims=(), scale=1e4)


def monotone(c, nz):
    """thicker or more stratified layers never slow the wave"""
    c.cover(derived.calc_wave_speed)
    d, co = ("z_l", "yh", "xh"), {"z_l": np.arange(nz) * 1.0}
    n2, h, m2, g = (c.array(k, (nz, 1, 1), lo, hi) for k, lo, hi in (("n2", 1e-9, 1e-3), ("h", 0.0, 500.0), ("m2", 1e-9, 1e-3), ("g", 0.0, 500.0)))
    for a, b in ((n2, m2), (h, g)):
        for p, q in zip(c.elems(a).ravel(), c.elems(b).ravel()):
            c.assume(c.le(p, q))
    a, b = (c.elems(derived.calc_wave_speed(da(x, d, co), da(y, d, co))).ravel()[0] for x, y in ((n2, h), (m2, g)))
    c.true("monotone", c.le(a, b + 1e-9))


def cases(tier):
    q = [Case("coriolis", coriolis, n=3), Case("coriolis symmetry", odd), Case("speed", speed, nz=3, nx=2), Case("speed four", speed, nz=4), Case("speed stable", speed, nz=5, ny=2, negative=False), Case("speed name", speed, nz=3, zname="lev"), Case("thickness order", speed, nz=3, nx=2, ny=2, dzdims=("xh", "z_l", "yh")),
         Case("speed time", speed_time, nt=2, nz=2, nx=1), Case("speed positive", positive, nz=3), Case("radius", radius, n=2), Case("radius mirror", radius_lat)]
    q += [Case(f"latitudes {'x'.join(d)}", layouts, dims=d, extra=e) for d, e in ((("yh",), True), (("yh", "xh"), True), (("xh", "yh"), False), (("site",), False), ((), False))]
    q += [Case("equator", equator), Case("speed two layers", speed, nz=2, nx=2, ny=2), Case("speed one layer", speed, nz=1, nx=2), Case("speed six", speed, nz=6), Case("speed name order", speed, nz=3, nx=2, zname="lev", dzdims=("yh", "xh", "lev")), Case("positive five", positive, nz=5)]
    q += [Case(f"monotone {n}", monotone, nz=n) for n in (1, 2)]
    q += [Case("speed eighty", speed, nz=80, negative=False, missing=False), Case("speed eight", speed, nz=8, missing=False), Case("coriolis thirty", coriolis, n=30), Case("speed wide", speed, nz=2, ny=5, nx=5)]
    if tier == "thorough":
        q += [Case("speed deep", speed, nz=7, ny=2, nx=2, budget=500), Case("speed time deep", speed_time, nt=3, nz=3, nx=2, budget=500), Case("coriolis wide", coriolis, n=12)]
    return q
