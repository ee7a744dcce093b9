"""C16: seasonal regression model"""
import datetime

import numpy as np
import xarray as xr
from momlevel import trend

from .common import CALENDARS, Case, da, labels, month_days, objs


def basis(dec):
    d = np.array(dec)
    return np.array([np.ones(len(d)), d - d.mean(), np.sin(2 * np.pi * d), np.cos(2 * np.pi * d), np.sin(4 * np.pi * d), np.cos(4 * np.pi * d)])


def project(c, B, x):
    """least squares fit of the rows of B to the values x -> fitted values"""
    H = np.linalg.pinv(B) @ B
    n = len(x)
    return [c.sum([float(H[j, k]) * x[j] for j in range(n)]) for k in range(n)]


def day_of_year(cal, y, m, d):
    return sum(month_days(cal, y, k) for k in range(1, m)) + d


def dates(kind):
    if kind == "monthly":
        return [(3 + k // 12, k % 12 + 1, 15, 0) for k in range(14)]
    if kind == "uneven":
        return [(1, 1, 1, 0), (1, 1, 20, 6), (1, 3, 1, 12), (1, 5, 5, 0), (1, 8, 31, 18), (1, 12, 31, 23), (2, 2, 3, 0), (2, 7, 9, 3), (3, 1, 1, 12)]
    if kind == "short":     # fewer points than coefficients
        return [(2, 1, 10, 0), (2, 5, 10, 0), (2, 9, 1, 0), (3, 1, 3, 0)]
    if kind == "late":
        return [(1990 + k // 6, 2 * (k % 6) + 1, 28, 12) for k in range(12)]


def dates2(kind):
    if kind == "three years":
        return [(1 + k // 12, k % 12 + 1, 15, 12) for k in range(36)]
    if kind == "backwards":
        return dates("uneven")[::-1]
    if kind == "hours":
        return [(5, 1 + k, 1 + 2 * k, (7 * k) % 24) for k in range(12)]
    if kind == "twice":
        return [d for d in dates("late")[:7] for _ in (0, 1)]
    if kind == "single":
        return [(2, 7, 1, 0)]
    if kind == "twenty years":
        return [(1980 + k // 12, k % 12 + 1, 15, 0) for k in range(240)]
    if kind == "decades":
        return [(1850 + 11 * k, (5 * k) % 12 + 1, 1 + 3 * k, k) for k in range(9)]


def dates3(kind):
    """records shorter than a year"""
    n, step = {"part of a year": (12, 20), "half a year": (9, 20), "a season": (12, 8)}[kind]
    t0 = CALENDARS["noleap"](2, 2, 3)
    return [(t.year, t.month, t.day, 0) for t in (t0 + datetime.timedelta(days=step * k) for k in range(n))]


def model(c, kind, shape=(), dims=(), coords=True, order=None, tname="time", extra=False, attrs=True, cal="noleap", stride=1):
    c.cover(trend.seasonal_model)
    ds = dates(kind) or dates2(kind) or dates3(kind)
    n = len(ds)
    x = c.array("x", (n,) + shape, -10.0, 10.0)
    e = c.elems(x)
    if stride > 1:      # the other values are given numbers
        free = e
        e = objs((n,) + shape, lambda k, *i: free[(k,) + i] if k % stride == 0 else c.const(float((7 * k) % 11 - 5)))
        x = c.pack(e)
    co = {tname: [CALENDARS[cal](*d) for d in ds]}
    if coords:
        co.update({d: labels(s) for d, s in zip(dims, shape)})
    A = da(x, (tname,) + dims, co, name="v", attrs={"units": "m", "standard_name": "zos", "long_name": "ssh"} if attrs else None)
    if extra:
        A = A.assign_coords(run=3, site=(dims[0], [f"s{i}" for i in range(shape[0])]), lat=(dims, np.ones(shape)))
    if order:
        A = A.transpose(*order)
    kw = {} if tname == "time" else {"tcoord": tname}
    m, r = trend.seasonal_model(A, return_model=True, **kw)
    r2 = trend.seasonal_model(A, **kw)
    dec = [y + (day_of_year(cal, y, mo, d) - 1 + h / 24) / 365 for y, mo, d, h in ds]
    B = basis(dec)
    sm = np.empty((n,) + shape, dtype=object)
    for i in np.ndindex(*shape):
        f = project(c, B, [e[(k,) + i] for k in range(n)])
        for k in range(n):
            sm[(k,) + i] = f[k]
    full = (tname,) + dims
    if set(m.dims) != set(full) or set(r.dims) != set(full):
        c.true(f"dimensions {m.dims} {r.dims}", False)
        return
    c.true("residual order", tuple(r.dims) == tuple(r2.dims) == tuple(A.dims))
    c.compare("model", m.transpose(*full), sm, dims=full, scale=1.0, tol=1e-5)
    res = objs((n,) + shape, lambda *i: e[i] - sm[i])
    c.compare("residuals", r.transpose(*full), res, dims=full, scale=1.0, tol=1e-5)
    c.compare("residuals alone", r2.transpose(*full), res, dims=full, scale=1.0, tol=1e-5)
    for d in dims if coords else ():
        c.true(f"coordinate {d}", list(m[d].values) == list(A[d].values) == list(r[d].values))
    c.true("dates", list(m[tname].values) == list(A[tname].values) == list(r[tname].values))
    if attrs:
      c.true("units", m.attrs.get("units") == "m" and r.attrs.get("units") == "m")
      c.true("names", m.attrs.get("standard_name") == "zos_smodel" and r.attrs.get("standard_name") == "zos_sresid")
    rr = c.elems(r.transpose(*full))
    for i in np.ndindex(*shape):
        for q in range(6):
            c.compare(f"orthogonal to term {q} {i}", c.sum([rr[(k,) + i] * float(B[q][k]) for k in range(n)]), 0.0, dims=(), scale=1.0, tol=1e-4)


def exact(c, kind):
    """anything made of a constant, a trend, an annual and a semiannual harmonic is explained entirely"""
    c.cover(trend.seasonal_model)
    ds = dates(kind) or dates3(kind)
    n = len(ds)
    co = c.elems(c.array("k", (6,), -10.0, 10.0))
    dec = [y + (day_of_year("noleap", y, mo, d) - 1 + h / 24) / 365 for y, mo, d, h in ds]
    B = basis(dec)
    A = da(c.pack(objs((n,), lambda k: c.sum([co[q] * float(B[q][k]) for q in range(6)]))), ("time",), {"time": [CALENDARS["noleap"](*d) for d in ds]}, name="v")
    c.compare("nothing left", trend.seasonal_model(A), objs((n,), lambda k: 0.0), dims=("time",), scale=1.0, tol=1e-4)


def missing(c):
    """a gap in one column leaves the other columns alone; the column with the gap has neither model nor residuals"""
    c.cover(trend.seasonal_model)
    ds = dates("uneven")
    n = len(ds)
    x = c.elems(c.array("x", (n,), -10.0, 10.0))
    y = c.elems(c.array("y", (n,), -10.0, 10.0, nan=True))
    ts = [CALENDARS["noleap"](*d) for d in ds]
    A = da(c.pack(objs((n, 2), lambda k, i: y[k] if i else x[k])), ("time", "x"), {"time": ts, "x": [1.0, 0.0]}, name="v")
    one = da(c.pack(x), ("time",), {"time": ts}, name="v")
    c.compare("other column", trend.seasonal_model(A).transpose("time", "x").isel(x=0), c.elems(trend.seasonal_model(one)), dims=("time",), scale=1.0, tol=1e-5)
    dec = [yr + (day_of_year("noleap", yr, mo, d) - 1 + h / 24) / 365 for yr, mo, d, h in ds]
    f = project(c, basis(dec), list(y))
    m, r = trend.seasonal_model(A, return_model=True)
    c.compare("model of the column with gaps", m.transpose("time", "x").isel(x=1), objs((n,), lambda k: f[k]), dims=("time",), scale=1.0, tol=1e-5)
    c.compare("residuals of the column with gaps", r.transpose("time", "x").isel(x=1), objs((n,), lambda k: y[k] - f[k]), dims=("time",), scale=1.0, tol=1e-5)


def cases(tier):
    q = [Case(f"{k}", model, kind=k) for k in ("monthly", "uneven", "short", "late")]
    q += [Case("column", model, kind="uneven", shape=(3,), dims=("x",)), Case("map", model, kind="uneven", shape=(2, 2), dims=("yh", "xh")), Case("no coordinates", model, kind="uneven", shape=(2,), dims=("x",), coords=False),
          Case("time last", model, kind="late", shape=(2, 1), dims=("yh", "xh"), order=("xh", "yh", "time")), Case("time named otherwise", model, kind="uneven", shape=(2,), dims=("x",), tname="t0"), Case("exact monthly", exact, kind="monthly"), Case("exact uneven", exact, kind="uneven"), Case("missing", missing)]
    q += [Case(f"{k}", model, kind=k) for k in ("three years", "backwards", "hours", "twice", "single", "decades")]
    q += [Case("labelled map", model, kind="uneven", shape=(2, 3), dims=("yh", "xh"), extra=True), Case("labelled, time last", model, kind="late", shape=(2, 2), dims=("yh", "xh"), extra=True, order=("xh", "time", "yh")), Case("no attributes", model, kind="uneven", shape=(2,), dims=("x",), attrs=False),
          Case("cube", model, kind="uneven", shape=(2, 2, 2), dims=("lev", "yh", "xh"), order=("lev", "time", "yh", "xh")), Case("single point", model, kind="monthly", shape=(1, 1), dims=("yh", "xh")), Case("no coordinates map", model, kind="uneven", shape=(2, 2), dims=("yh", "xh"), coords=False, order=("yh", "xh", "time"))]
    q += [Case(f"{cal} {k}", model, kind=k, cal=cal, shape=(2,), dims=("x",)) for cal in ("standard", "julian", "360_day") for k in ("late", "monthly")]
    q += [Case(f"exact {k}", exact, kind=k) for k in ("short", "late")]
    q += [Case(k, model, kind=k) for k in ("part of a year", "half a year", "a season")] + [Case(f"exact {k}", exact, kind=k) for k in ("part of a year", "half a year", "a season")]
    q += [Case("twenty years", model, kind="twenty years", stride=24), Case("wide", model, kind="short", shape=(6, 6), dims=("yh", "xh"))]
    if tier == "thorough":
        q += [Case("large map", model, kind="monthly", shape=(3, 4), dims=("yh", "xh"))]
    return q
