"""C26: tide gauge extraction"""
import os
import shutil
import tempfile
import warnings

import numpy as np
import pandas as pd
import xarray as xr
import momlevel
from momlevel import tidegauge, util

from symlev import symarray as SA
from .common import Case, da, months, objs, rich
from .c25 import ASSUMPTIONS, RAD, hav, tree  # noqa: F401

ATTRS = {**rich("ssh"), "units": "m"}
SITES = [("ALPHA", 12.0, -71.5), ("BRAVO", 14.75, -68.25), ("CHARLIE", -33.0, 151.0)]


def write(path, sites):
    with open(path, "w") as f:
        f.write("Country,PSMSL_site,NOAA_name,PSMSLID,NOAAID,lat,lon\n")
        for k, (n, la, lo) in enumerate(sites):
            f.write(f"Somewhere,{n},,{k + 1},,{la!r},{lo!r}\n")


def run(c, sites, fn):
    """fn(csv path) with a scratch file of sites"""
    d = tempfile.mkdtemp(prefix="gauges")
    try:
        p = os.path.join(d, "sites.csv")
        write(p, sites)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            SA.LOOSE[0] = True
            try:
                with tree(c):
                    return fn(p)
            finally:
                SA.LOOSE[0] = False
    finally:
        shutil.rmtree(d, ignore_errors=True)


def field(c, nt, ny, nx, order, attrs=None):
    x = c.array("ssh", (nt, ny, nx), -5.0, 5.0, nan=True)
    A = da(x, ("time", "yh", "xh"), {"time": months("noleap", 1, 1, nt), "yh": 10.0 + 2.5 * np.arange(ny), "xh": -72.0 + 3.0 * np.arange(nx)}, name="ssh", attrs=attrs or {"distance": -1.0, "name": "old", **ATTRS})
    return A.transpose(*order), c.elems(x)


def verify(c, out, e, sites, la, lo, wet, nt, thr=None, R=6378.0, dims=("time",)):
    """la, lo: (ny, nx) object arrays; wet: predicate on the mask (decided on this path)"""
    ny, nx = la.shape
    pts = [(j, i) for j in range(ny) for i in range(nx) if wet(j, i)]
    for n, ya, xo in sites:
        H = {q: hav(c, c.const(float(np.deg2rad(ya))), c.const(float(np.deg2rad(xo))), la[q] * RAD, lo[q] * RAD) for q in pts}
        b = pts[0]
        for q in pts[1:]:
            if c.branch(c.lt(H[q], H[b])):
                b = q
        d = R * (2.0 * c.fn("arcsin", c.fn("sqrt", H[b])))
        near = [b] if c.symbolic else [q for q in pts if q == b or c.branch(c.and_(c.le(H[q], H[b] + 1e-9), c.le(H[b], H[q] + 1e-9)))]
        if thr is not None:
            if n not in out:
                c.true(f"{n} dropped: nothing within the threshold", c.le(thr - 1e-3, d))
                continue
            c.true(f"{n} kept: within the threshold", c.le(d, thr + 1e-3))
        elif n not in out:
            c.true(f"{n} extracted", False)
            continue
        v = out[n]
        if not c.dims_ok(n, v, dims):
            continue
        s = c.elems(v)
        if len(near) == 1:
            for t in np.ndindex(*e.shape[:-2]):
                c.compare(f"{n}{list(t)}", s[t], e[t + b], dims=(), scale=1.0)
        c.true(f"{n} name and attributes", v.name == n and all(q in v.attrs and v.attrs[q] == ATTRS[q] for q in ATTRS) and v.attrs.get("name") == n)
        c.compare(f"{n} distance", v.attrs.get("distance"), d, dims=(), scale=10.0, tol=1e-5)
    c.true("no other series", set(out.data_vars) <= {s[0] for s in sites})


def free_grid(c, nt, ny, nx, nsites, order=("time", "yh", "xh"), by="name", mask=None, thr=None, box=((5.0, 20.0), (-80.0, -60.0)), morder=("yh", "xh")):
    """any cell positions in a box, any field values (any missing), any mask of 0 / 1 / missing"""
    c.cover(tidegauge.extract_tidegauge, tidegauge.extract_point, util.geolocate_points, util.validate_tidegauge_data)
    A, e = field(c, nt, ny, nx, order)
    la, lo = c.array("geolat", (ny, nx), *box[0]), c.array("geolon", (ny, nx), *box[1])
    co = {"yh": A["yh"], "xh": A["xh"]}
    la_, lo_ = c.elems(la), c.elems(lo)
    LA, LO = da(la, ("yh", "xh"), co, name="geolat"), da(lo, ("yh", "xh"), co, name="geolon")
    kw = {}
    if by == "name":
        A = A.assign_coords(geolat=LA, geolon=LO)
    elif by == "other name":
        A = A.assign_coords(LAT=LA, LON=LO)
        kw = {"xcoord": "LON", "ycoord": "LAT"}
    else:
        kw = {"xcoord": LO, "ycoord": LA}
    wet = lambda j, i: True
    if mask == "any value":      # only a mask of exactly one is wet
        mv = c.array("mask", (ny, nx), -2.0, 3.0, nan=True)
        me = c.elems(mv)
        c.assume(c.or_(*[c.eq(me[q], 1.0) for q in np.ndindex(ny, nx)]))
        kw["mask"] = da(mv, ("yh", "xh"), co, name="wet").transpose(*morder)
        wet = lambda j, i: c.branch(c.and_(c.not_(c.isnan(me[j, i])), c.eq(me[j, i], 1.0)))
    elif mask:
        w, g = c.bools("wet", (ny, nx)), c.bools("gap", (ny, nx))
        val = objs((ny, nx), lambda j, i: c.missing_if(g[j, i], c.where(w[j, i], c.const(1.0), c.const(0.0))))
        c.assume(c.or_(*[c.and_(w[q], c.not_(g[q])) for q in np.ndindex(ny, nx)]))
        M = da(c.pack(val), ("yh", "xh"), co, name=mask)
        kw["mask"] = M.transpose(*morder)
        wet = lambda j, i: c.branch(c.and_(w[j, i], c.not_(g[j, i])))
    T = None
    if thr == "zero":
        kw["threshold"] = T = 0.0
    elif thr:
        kw["threshold"] = T = c.real("threshold", 0.0, thr)
    sites = SITES[:nsites]
    out = run(c, sites, lambda p: tidegauge.extract_tidegauge(A, csv=p, **kw))
    verify(c, out, e, sites, la_, lo_, wet, nt, T)


def shapes(c, what):
    """fields without a time axis, with a vertical axis, with auxiliary coordinates; descending and wrapped axes; gauges in either
    longitude convention; thresholds with masks"""
    c.cover(tidegauge.extract_tidegauge, tidegauge.extract_point, util.geolocate_points)
    ny, nx = 2, 3
    yh, xh = 10.0 + 2.5 * np.arange(ny), -72.0 + 3.0 * np.arange(nx)
    sites, kw, wet = SITES[:2], {"xcoord": "xh", "ycoord": "yh"}, lambda j, i: True
    lead = {"map": (), "levels": ("time", "z_l")}.get(what, ("time",))
    sh = tuple({"time": 2, "z_l": 2}[k] for k in lead) + (ny, nx)
    if what == "descending":
        yh, xh = yh[::-1], xh[::-1]
    if what == "other convention":
        xh = xh + 360.0
    if what == "gauges 0..360":
        sites = [(n, a, b + 360.0) for n, a, b in sites]
    if what == "numpy integers":
        yh, xh = np.array([10, 13]), np.array([-72, -69, -66])
    if what == "one name twice":
        sites = [SITES[0], ("BRAVO", 12.5, -66.0)]
    co = {"yh": yh, "xh": xh}
    if "time" in lead:
        co["time"] = months("noleap", 1, 1, 2)
    if "z_l" in lead:
        co["z_l"] = [5.0, 15.0]
    x = c.array("ssh", sh, -5.0, 5.0, nan=True)
    A = da(x, lead + ("yh", "xh"), co, name=None if what == "no name" else "ssh", attrs={**ATTRS, "name": "old", "distance": "far"})
    if what in ("text axes", "unordered axes"):      # the positions are geolat and geolon, the axes only label
        kw = {}
        A = A.assign_coords(geolat=(("yh", "xh"), np.tile(yh[:, None], (1, nx))), geolon=(("yh", "xh"), np.tile(xh, (ny, 1))))
        A = A.assign_coords(**({"yh": ["south", "north"], "xh": ["w", "m", "e"]} if what == "text axes" else {"yh": [7.0, -3.0], "xh": [2.0, 9.0, 4.0]}))
    if what == "auxiliary":
        A = A.assign_coords(geolat=(("yh", "xh"), np.zeros((ny, nx))), month=(("time",), [1, 2]), basin=3, deptho=(("xh", "yh"), np.ones((nx, ny))))
    if what == "encoded":
        A.encoding["dtype"] = "float32"
    thr = None
    if what == "mask and threshold":
        m = np.array([[0.0, 1.0, np.nan], [1.0, 0.0, 1.0]])
        kw["mask"] = da(m, ("yh", "xh"), {"yh": yh, "xh": xh}, name="wet")
        wet = lambda j, i: m[j, i] == 1.0
        thr = kw["threshold"] = c.real("threshold", 0.0, 600.0)
        sites = SITES
    la, lo = objs((ny, nx), lambda j, i: c.const(float(yh[j]))), objs((ny, nx), lambda j, i: c.const(float(xh[i])))
    out = run(c, sites, lambda p: tidegauge.extract_tidegauge(A, csv=p, **kw))
    verify(c, out, c.elems(x), sites, la, lo, wet, 2, thr, dims=lead)


def nominal(c, nt, ny, nx, order=("time", "yh", "xh"), by="name", mask=False, builtin=None):
    """rectilinear grid given by its 1-d coordinates, any field values"""
    c.cover(tidegauge.extract_tidegauge, tidegauge.extract_point, util.geolocate_points, util.tile_nominal_coords)
    A, e = field(c, nt, ny, nx, order)
    la = objs((ny, nx), lambda j, i: c.const(float(A["yh"].values[j])))
    lo = objs((ny, nx), lambda j, i: c.const(float(A["xh"].values[i])))
    kw = {"xcoord": "xh", "ycoord": "yh"} if by == "name" else {"xcoord": A["xh"], "ycoord": A["yh"]}
    wet = lambda j, i: True
    if mask:
        land = {(0, 0), (ny - 1, 1)}
        kw["mask"] = da(np.array([[np.nan if (j, i) == (0, 0) else 0.0 if (j, i) in land else 1.0 for i in range(nx)] for j in range(ny)]), ("yh", "xh"), {"yh": A["yh"], "xh": A["xh"]}, name="wet")
        wet = lambda j, i: (j, i) not in land
    if builtin is None:
        sites = SITES
        out = run(c, sites, lambda p: tidegauge.extract_tidegauge(A, csv=p, **kw))
    else:
        f = os.path.join(os.path.dirname(momlevel.__file__), "resources", {"us": "us", "global": "global"}[builtin] + "_tide_gauges.csv")
        t = pd.read_csv(f)
        sites = [(r["PSMSL_site"], r["lat"], r["lon"]) for _, r in t.iterrows()]
        last = {n: (n, a, b) for n, a, b in sites}
        sites = list(last.values())
        out = run(c, sites, lambda p: tidegauge.extract_tidegauge(A, csv=builtin, **kw))
        c.true("every listed gauge", set(out.data_vars) == set(last))
    verify(c, out, e, sites, la, lo, wet, nt)


def tiles(c, ny, nx):
    """tiled coordinates: every row carries the longitudes, every column the latitudes"""
    c.cover(util.tile_nominal_coords)
    x, y = c.array("x", (nx,), -360.0, 360.0), c.array("y", (ny,), -90.0, 90.0)
    X, Y = da(x, ("i",), name="i"), da(y, ("j",), name="j")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        gx, gy = util.tile_nominal_coords(X, Y)
        hx, hy = util.tile_nominal_coords(X, Y, warn=False)
    ex, ey = c.elems(x), c.elems(y)
    for a, b in ((gx, gy), (hx, hy)):
        c.compare("longitude", a, objs((ny, nx), lambda j, i: ex[i]), dims=("j", "i"), scale=1.0)
        c.compare("latitude", b, objs((ny, nx), lambda j, i: ey[j]), dims=("j", "i"), scale=1.0)
        c.true("names", a.name == "geolon" and b.name == "geolat")


def refused(c):
    c.cover(tidegauge.extract_tidegauge)
    A, _ = field(c, 2, 2, 2, ("time", "yh", "xh"))
    for nm, kw in (("unknown coordinate", {"xcoord": "nolon", "ycoord": "yh"}), ("no such file", {"xcoord": "xh", "ycoord": "yh", "csv": "/nonexistent/sites.csv"}), ("raw mask", {"xcoord": "xh", "ycoord": "yh", "mask": np.ones((2, 2))})):
        c.raises(nm, (AssertionError, ValueError, KeyError, FileNotFoundError), lambda: tidegauge.extract_tidegauge(A, **kw))


def cases(tier):
    q = [Case("by name", free_grid, nt=2, ny=2, nx=2, nsites=1), Case("two sites", free_grid, nt=2, ny=1, nx=2, nsites=2), Case("by array", free_grid, nt=2, ny=1, nx=3, nsites=1, by="array"), Case("other names", free_grid, nt=1, ny=2, nx=1, nsites=1, by="other name"),
         Case("axes order", free_grid, nt=2, ny=2, nx=2, nsites=1, order=("xh", "time", "yh")), Case("axes order by array", free_grid, nt=2, ny=2, nx=1, nsites=1, order=("xh", "yh", "time"), by="array"), Case("mask", free_grid, nt=1, ny=1, nx=2, nsites=1, mask="wet"),
         Case("mask of three", free_grid, nt=1, ny=1, nx=3, nsites=1, mask="mask", max_paths=1500), Case("mask other order", free_grid, nt=1, ny=1, nx=2, nsites=1, mask="wet", morder=("xh", "yh")), Case("threshold", free_grid, nt=1, ny=1, nx=2, nsites=2, thr=2000.0),
         Case("nominal", nominal, nt=2, ny=3, nx=3), Case("nominal arrays", nominal, nt=2, ny=2, nx=3, by="array", order=("yh", "xh", "time")), Case("nominal mask", nominal, nt=2, ny=3, nx=3, mask=True), Case("US gauges", nominal, nt=1, ny=2, nx=2, builtin="us"),
         Case("tiles", tiles, ny=2, nx=3), Case("refused", refused)]
    q += [Case("any mask value", free_grid, nt=1, ny=1, nx=2, nsites=1, mask="any value"), Case("any mask value, order", free_grid, nt=1, ny=2, nx=1, nsites=1, mask="any value", morder=("xh", "yh"), by="array")]
    q += [Case(f"field: {w}", shapes, what=w) for w in ("map", "levels", "descending", "other convention", "gauges 0..360", "numpy integers", "no name", "auxiliary", "encoded", "mask and threshold", "one name twice", "text axes", "unordered axes")]
    q += [Case("zero threshold", free_grid, nt=1, ny=1, nx=2, nsites=2, thr="zero")]
    if tier == "thorough":
        q += [Case("mask 2x2", free_grid, nt=1, ny=2, nx=2, nsites=1, mask="mask", box=((10.0, 11.0), (-72.0, -71.0)), max_paths=1500, budget=600), Case("global gauges", nominal, nt=1, ny=2, nx=3, builtin="global", budget=400), Case("mask threshold", free_grid, nt=1, ny=1, nx=3, nsites=2, mask="wet", thr=3000.0, budget=400, max_paths=3000), Case("three sites", free_grid, nt=2, ny=2, nx=2, nsites=3, budget=400, max_paths=2000)]
    return q
