"""C25: geolocation picks the nearest usable model point"""
import contextlib
import math
import sys
import warnings

import numpy as np
import pandas as pd
import pandas.core.construction as pcon
import sklearn.neighbors
from momlevel import util

from .common import Case, objs

ASSUMPTIONS = ["the ball tree of scikit-learn is taken to return the nearest point and the great-circle angle in the haversine metric; it is replaced by exactly that (arg-min over all points) in the symbolic run and used as installed in every replay"]
RAD = math.pi / 180.0
REAL = sklearn.neighbors.BallTree


class Tree:
    """meaning of BallTree(points, metric="haversine").query(q, k=1)"""
    ctx = None

    def __init__(self, pts, *a, metric="minkowski", **k):
        if metric != "haversine":
            raise NotImplementedError(metric)
        self.p = np.asarray(pts, dtype=object)
        if len(self.p) == 0:
            raise ValueError("no points")

    def query(self, q, k=1, return_distance=True, **kw):
        c = self.ctx
        if k != 1:
            raise NotImplementedError("k")
        q = np.asarray(q, dtype=object)
        d, ix = np.empty((len(q), 1), dtype=object), np.zeros((len(q), 1), dtype=np.int64)
        for r in range(len(q)):
            hs = [hav(c, q[r, 0], q[r, 1], p[0], p[1]) for p in self.p]
            best = 0
            for j in range(1, len(hs)):
                if c.branch(c.lt(hs[j], hs[best])):
                    best = j
            d[r, 0] = 2.0 * c.fn("arcsin", c.fn("sqrt", hs[best]))
            ix[r, 0] = best
        return (d, ix) if return_distance else ix


@contextlib.contextmanager
def tree(c):
    if not c.symbolic:
        yield
        return
    Tree.ctx = c
    spots = [(m, k) for n, m in list(sys.modules.items()) if (n.startswith("momlevel") or n == "sklearn.neighbors") and m is not None for k, v in list(vars(m).items()) if v is REAL]
    for m, k in spots:
        setattr(m, k, Tree)
    infer = pcon.maybe_infer_to_datetimelike      # refuses 2-d object columns
    pcon.maybe_infer_to_datetimelike = lambda v, *a, **k: v if getattr(v, "ndim", 1) > 1 else infer(v, *a, **k)
    try:
        yield
    finally:
        pcon.maybe_infer_to_datetimelike = infer
        for m, k in spots:
            setattr(m, k, REAL)
        Tree.ctx = None


def hav(c, la1, lo1, la2, lo2):
    """haversine of the great-circle angle (radians)"""
    a, b = c.fn("sin", 0.5 * (la1 - la2)), c.fn("sin", 0.5 * (lo1 - lo2))
    return c.clip(a * a + c.fn("cos", la1) * c.fn("cos", la2) * (b * b), 0.0, 1.0)


def frames(c, n, m, mc=("geolat", "geolon"), lc=("lat", "lon"), mask=None, wide=True, box=(-89.0, 89.0, -360.0, 360.0)):
    """n model points (2-d index), m locations, anywhere"""
    la, lo = c.elems(c.array("mlat", (n,), box[0], box[1])), c.elems(c.array("mlon", (n,), box[2], box[3]))
    ya, xo = c.elems(c.array("lat", (m,), box[0], box[1])), c.elems(c.array("lon", (m,), box[2], box[3]))
    ix = pd.MultiIndex.from_tuples([(10.5 + k // 2, -70.0 + 2 * (k % 2)) for k in range(n)], names=["yh", "xh"])
    cols = {mc[1]: list(lo), mc[0]: list(la)}
    if mask is not None:
        cols["mask"] = mask
    model = pd.DataFrame(cols, index=ix)
    locs = pd.DataFrame({"name": [f"site{k}" for k in range(m)], "id": [100 + k for k in range(m)], lc[0]: list(ya), lc[1]: list(xo)}, index=[7 + 3 * k for k in range(m)])
    return model, locs, la, lo, ya, xo


def check(c, out, model, la, lo, ya, xo, usable, thr=None, R=6378.0, messages=None):
    n, m = len(la), len(ya)
    slack = 1e-9
    H = objs((m, n), lambda k, j: hav(c, ya[k] * RAD, xo[k] * RAD, la[j] * RAD, lo[j] * RAD))
    keep = []
    rows = {r["name"]: (i, r) for i, r in out.iterrows()}
    c.true("no location twice", len(rows) == len(out))
    c.true("order of the locations", [r for r in rows] == [f"site{k}" for k in range(m) if f"site{k}" in rows])
    for k in range(m):
        nm = f"site{k}"
        if nm not in rows:
            c.true(f"{nm} may be dropped", thr is not None)
            if thr is not None:
                for j in usable:
                    c.true(f"{nm} dropped: no usable point within the threshold", c.le(thr - 1e-6, R * (2.0 * c.fn("arcsin", c.fn("sqrt", H[k, j])))) if j == near(c, H[k], usable) else True)
            if messages is not None:
                c.true(f"{nm} warned", sum(f"{nm} " in t for t in messages) == 1)
            continue
        i, r = rows[nm]
        c.true(f"{nm} keeps its row label and other columns", i == 7 + 3 * k and r["id"] == 100 + k)
        vals = tuple(r["dim_vals"])
        pos = [j for j in range(n) if tuple(model.index[j]) == vals]
        c.true(f"{nm} maps to a usable model point", len(pos) == 1 and pos[0] in usable)
        if not (len(pos) == 1 and pos[0] in usable):
            continue
        b = pos[0]
        for j in usable:
            c.true(f"{nm} nearest", c.le(H[k, b], H[k, j] + slack) if j != b else True)
        d = R * (2.0 * c.fn("arcsin", c.fn("sqrt", H[k, b])))
        c.compare(f"{nm} distance", r["distance"], d, dims=(), scale=10.0, tol=1e-6)
        if thr is not None:
            c.true(f"{nm} kept: within the threshold", c.le(r["distance"], thr + 1e-6))
        for q, (a, e) in enumerate(((r["model_coords"][0], la[b]), (r["model_coords"][1], lo[b]), (r["real_coords"][0], ya[k]), (r["real_coords"][1], xo[k]))):
            c.compare(f"{nm} coordinate {q}", a, e, dims=(), scale=1.0)
        if messages is not None:
            c.true(f"{nm} not warned", not any(f"{nm} " in t for t in messages))


def near(c, hs, usable):
    b = usable[0]
    for j in usable[1:]:
        if c.branch(c.lt(hs[j], hs[b])):
            b = j
    return b


def locate(c, n, m, thr=False, radius=False, names=None, masked=None, apply_mask=None, warn=False, doubled=False, box=(-89.0, 89.0, -360.0, 360.0)):
    """any coordinates (longitudes -360..360), any threshold / radius; mask fixed per case"""
    c.cover(util.geolocate_points)
    mc, lc = names or (("geolat", "geolon"), ("lat", "lon"))
    free = masked == "free"
    if free:        # any mask value, any of them missing: only exactly one is usable
        me = c.elems(c.array("mask", (n,), -2.0, 3.0, nan=True))
        if apply_mask is not False:
            c.assume(c.or_(*[c.eq(v, 1.0) for v in me]))
        masked = list(me)
    model, locs, la, lo, ya, xo = frames(c, n, m, mc, lc, masked, box=box)
    kw, T, R = {}, None, 6378.0
    if thr:
        kw["threshold"] = T = c.real("threshold", 0.0, 2e4)
    if doubled:     # duplicate columns, as left by joining tables
        model = pd.concat([model, model[[mc[0]]], model[[mc[1]]]], axis=1)
    if radius:
        kw["rad_earth"] = R = c.real("radius", 1e3, 1e4)
    if names:
        kw.update(model_coords=mc, loc_coords=lc)
    if apply_mask is not None:
        kw["apply_mask"] = apply_mask
    if warn:
        kw["disable_warning"] = False
    snap = (list(model.columns), list(locs.columns), len(model), len(locs))
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        with tree(c):
            out = util.geolocate_points(model, locs, **kw)
    msg = [str(x.message) for x in w if "nable to map" in str(x.message)]
    if free and apply_mask is not False:
        masked = [1.0 if c.branch(c.and_(c.not_(c.isnan(v)), c.eq(v, 1.0))) else 0.0 for v in me]
    usable = [j for j in range(n) if masked is None or apply_mask is False or masked[j] == 1.0]
    check(c, out, model, la, lo, ya, xo, usable, T, R, msg if warn else None)
    if not warn:
        c.true("silent", not msg)
    c.true("frames untouched", snap == (list(model.columns), list(locs.columns), len(model), len(locs)))
    c.true("columns", {"name", "id", "distance", "mod_index", "model_coords", "dim_vals", "real_coords"} <= set(out.columns) and not set(lc) & set(out.columns))


def many(c, n, m, thr=False, radius=False, warn=False):
    """many model points and locations at given places, any threshold and radius"""
    c.cover(util.geolocate_points)
    la, lo = [(-80.0 + 160.0 * ((7 * k) % n) / n) for k in range(n)], [(-170.0 + 340.0 * ((11 * k) % n) / n) for k in range(n)]
    ya, xo = [(-68.7 + 133.0 * ((5 * k) % m) / m) for k in range(m)], [(-347.3 + 691.0 * ((3 * k) % m) / m) for k in range(m)]
    ix = pd.MultiIndex.from_tuples([(10.5 + k // 4, -70.0 + 2 * (k % 4)) for k in range(n)], names=["yh", "xh"])
    model = pd.DataFrame({"geolat": la, "geolon": lo}, index=ix)
    locs = pd.DataFrame({"name": [f"site{k}" for k in range(m)], "id": [100 + k for k in range(m)], "lat": ya, "lon": xo}, index=[7 + 3 * k for k in range(m)])
    kw, T, R = {}, None, 6378.0
    if thr:
        kw["threshold"] = T = c.real("threshold", 0.0, 2e4)
    if radius:
        kw["rad_earth"] = R = c.real("radius", 1e3, 1e4)
    if warn:
        kw["disable_warning"] = False
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        with tree(c):
            out = util.geolocate_points(model, locs, **kw)
    check(c, out, model, la, lo, ya, xo, list(range(n)), T, R, [str(x.message) for x in w if "nable to map" in str(x.message)] if warn else None)


def exact(c):
    """a location on a model point maps to it at distance zero, also across the date line"""
    c.cover(util.geolocate_points)
    la, lo, far = c.real("lat", -80.0, 80.0), c.real("lon", -180.0, 180.0), c.real("far", 84.0, 86.0)
    for turn in (0.0, 360.0, -360.0):
        model = pd.DataFrame({"geolat": [far, la], "geolon": [lo, lo + turn]}, index=pd.MultiIndex.from_tuples([(0, 0), (0, 1)], names=["yh", "xh"]))
        locs = pd.DataFrame({"name": ["a"], "lat": [la], "lon": [lo]})
        if c.symbolic and turn:
            continue
        with tree(c):
            out = util.geolocate_points(model, locs)
        c.true("same point", tuple(out["dim_vals"].iloc[0]) == (0, 1))
        c.compare("distance", out["distance"].iloc[0], 0.0, dims=(), scale=1.0, tol=1e-3)


def cases(tier):
    q = [Case("one point", locate, n=1, m=1), Case("three points", locate, n=3, m=1), Case("two by two", locate, n=2, m=2), Case("threshold", locate, n=2, m=1, thr=True), Case("threshold two locations", locate, n=2, m=2, thr=True),
         Case("radius", locate, n=2, m=1, radius=True, thr=True), Case("names", locate, n=2, m=1, names=(("yy", "xx"), ("la", "ln"))), Case("warnings", locate, n=1, m=2, thr=True, warn=True), Case("warnings no threshold", locate, n=2, m=1, warn=True),
         Case("masked", locate, n=3, m=1, masked=[0.0, 1.0, 1.0]), Case("masked last", locate, n=3, m=2, masked=[1.0, 0.0, 0.0]), Case("mask of another value", locate, n=4, m=1, masked=[1.0, 0.5, 2.0, 1.0]),
         Case("mask ignored", locate, n=2, m=1, masked=[0.0, 1.0], apply_mask=False), Case("masked with threshold", locate, n=3, m=1, masked=[0.0, 1.0, 1.0], thr=True, warn=True), Case("near the pole", locate, n=2, m=1, box=(85.0, 90.0, -180.0, 180.0)),
         Case("regional", locate, n=3, m=1, box=(30.0, 45.0, -80.0, -60.0), thr=True), Case("same point", exact)]
    q += [Case("any mask", locate, n=2, m=1, masked="free"), Case("any mask of three", locate, n=3, m=1, masked="free", thr=True), Case("any mask ignored", locate, n=2, m=1, masked="free", apply_mask=False), Case("any mask asked for", locate, n=2, m=1, masked="free", apply_mask=True, names=(("yy", "xx"), ("la", "ln"))),
          Case("mask asked for, none there", locate, n=2, m=1, apply_mask=True), Case("joined tables", locate, n=2, m=1, doubled=True, masked="free"), Case("same names", locate, n=2, m=1, names=(("lat", "lon"), ("lat", "lon"))), Case("swapped names", locate, n=2, m=1, names=(("lon", "lat"), ("lon", "lat"))),
          Case("names, threshold, warnings", locate, n=2, m=2, thr=True, warn=True, names=(("geolat_c", "geolon_c"), ("latitude", "longitude"))), Case("several turns", locate, n=2, m=1, box=(-60.0, 60.0, -720.0, 720.0)), Case("poles", locate, n=2, m=1, box=(-90.0, 90.0, 0.0, 360.0), thr=True, radius=True, warn=True)]
    q += [Case("many", many, n=24, m=15), Case("many, radius", many, n=13, m=30, radius=True), Case("many, threshold", many, n=12, m=13, thr=True, warn=True)]
    if tier == "thorough":
        q += [Case("five points", locate, n=5, m=1, budget=300, max_paths=2000), Case("three locations", locate, n=3, m=3, thr=True, budget=400, max_paths=2000), Case("masked six", locate, n=6, m=1, masked=[1.0, 0.0, 1.0, 1.0, 0.0, 1.0], thr=True, warn=True, budget=300)]
    return q
