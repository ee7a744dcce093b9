"""C14: linear trend and detrending are ordinary least squares on the points present"""
from fractions import Fraction

import numpy as np
import xarray as xr
from momlevel import trend

from .common import CALENDARS, Case, da, labels, months, objs, rich

NS = {"ns": 1.0, "s": 1e9, "min": 60e9, "hr": 3600e9, "day": 86400e9, "mon": 86400e9 * 30.417, "yr": 86400e9 * 365.0}


def axis(kind):
    """-> coordinate values, numeric positions"""
    if kind == "numeric":
        v = [0.0, 1.0, 2.5, 4.0]
        return np.array(v), v
    if kind == "repeated":
        v = [0.0, 0.0, 1.0, 2.5, 2.5]
        return np.array(v), v
    if kind == "repeated dates":
        ts, pos = axis(("standard", 1999, 11, 3, 2))
        return [t for t in ts for _ in (0, 1)], [p for p in pos for _ in (0, 1)]
    if kind == "descending":
        v = [9.0, 4.0, 3.0, -1.0]
        return np.array(v), v
    cal, y0, m0, n, step = kind
    ts = [CALENDARS[cal](y0 + (m0 - 1 + step * k) // 12, (m0 - 1 + step * k) % 12 + 1, 16) for k in range(n)]
    e = CALENDARS[cal](1970, 1, 1)
    return ts, [(t - e).total_seconds() * 1e9 for t in ts]


def fit_ok(c, label, x, pos, m, b, unit=1.0):
    """(m, b) is the least squares line through the present points of x: residuals sum to zero and are orthogonal to the axis"""
    t0 = pos[0]
    span = max(abs(p - t0) for p in pos)
    r = [c.where(c.isnan(v), 0.0, v - (m / unit * p + b)) for v, p in zip(x, pos)]
    c.compare(label + ": residuals sum to zero", c.sum(r), 0.0, dims=(), scale=1.0, tol=1e-5)
    c.compare(label + ": residuals orthogonal", c.sum([ri * ((p - t0) / span) for ri, p in zip(r, pos)]), 0.0, dims=(), scale=1.0, tol=1e-5)


def present(c, x, n=2):
    c.assume(c.le(float(n), c.sum([c.where(c.isnan(v), 0.0, 1.0) for v in x])))


def slope(c, kind, units=None, nan=True, nx=1, order=None, varunits=None, dim="time", extra=False):
    c.cover(trend.calc_linear_trend)
    ts, pos = axis(kind)
    n = len(pos)
    x = c.array("x", (n, nx), -10.0, 10.0, nan=nan)
    e = c.elems(x)
    if nan:
        for i in range(nx):
            present(c, e[:, i])
    A = da(x, (dim, "x"), {dim: ts, "x": labels(nx)}, name="v", attrs={"units": varunits} if varunits else None).transpose(*(order or (dim, "x")))
    if extra:
        A = A.assign_coords(site=("x", [f"s{i}" for i in range(nx)]), run=4)
    kw = {} if dim == "time" else {"dim": dim}
    out = trend.calc_linear_trend(A, **kw) if units is None else trend.calc_linear_trend(A, time_units=units, **kw)
    c.true("names", set(out.data_vars) == {"v_slope", "v_intercept"})
    if not (c.dims_ok("slope", out["v_slope"], ("x",)) and c.dims_ok("intercept", out["v_intercept"], ("x",))):
        return
    m, b = c.elems(out["v_slope"]), c.elems(out["v_intercept"])
    timed = not isinstance(kind, str) or "dates" in kind
    for i in range(nx):
        fit_ok(c, f"column {i}", list(e[:, i]), pos, m[i], b[i], NS[units or "ns"] if timed else 1.0)
    if timed:
        c.true("units", out["v_slope"].attrs.get("units", "").split() == (varunits.split() if varunits else []) + [f"{units or 'ns'}-1"])
    c.true("coordinates", list(out["v_slope"]["x"].values) == labels(nx))


def all_missing(c, kind):
    """a column without data has no trend"""
    c.cover(trend.calc_linear_trend, trend.linear_detrend)
    ts, pos = axis(kind)
    n = len(pos)
    y = c.elems(c.array("x", (n,), -10.0, 10.0))
    A = da(c.pack(objs((n, 2), lambda k, i: c.nan if i else y[k])), ("time", "x"), {"time": ts}, name="v")
    out = trend.calc_linear_trend(A)
    d = trend.linear_detrend(A)
    c.true("no slope", c.isnan(c.elems(out["v_slope"])[1]))
    c.true("nothing to detrend", c.and_(*[c.isnan(v) for v in c.elems(d.transpose("time", "x"))[:, 1]]))
    fit_ok(c, "other column", list(y), pos, c.elems(out["v_slope"])[0], c.elems(out["v_intercept"])[0])


def detrend(c, kind, nan=True, nx=1, dim="time", ds=False, varunits=None, order=None):
    """remove: x minus its own least squares line; correct: only the slope part is removed; other attributes survive"""
    c.cover(trend.linear_detrend, trend._detrend_array, trend.broadcast_trend, trend.calc_linear_trend)
    ts, pos = axis(kind)
    n = len(pos)
    x = c.array("x", (n, nx), -10.0, 10.0, nan=nan)
    e = c.elems(x)
    if nan:
        for i in range(nx):
            present(c, e[:, i])
    at = {**rich("v"), "units": varunits or "m", "note": "kept"}
    A = da(x, (dim, "x"), {dim: ts, "x": labels(nx)}, name="v", attrs=at).transpose(*(order or (dim, "x")))
    kw = {} if dim == "time" else {"dim": dim}
    if ds:
        s = c.array("s", (2,), -1.0, 1.0, nan=True)
        D = xr.Dataset({"v": A, "static": (("x2",), s)})
        o1, o2 = trend.linear_detrend(D, **kw), trend.linear_detrend(D, mode="correct", **kw)
        c.compare("static variable untouched", o1["static"], c.elems(s), dims=("x2",), scale=1.0)
        r, k = o1["v"], o2["v"]
    else:
        r, k = trend.linear_detrend(A, **kw), trend.linear_detrend(A, mode="correct", **kw)
    for w in (r, k):
        c.true("attributes", all(q in w.attrs and w.attrs[q] == at[q] for q in at) and w.name == "v")
    c.true(f"dimension order of {A.dims}", tuple(r.dims) == tuple(A.dims) == tuple(k.dims))
    c.true("axis labels", list(r["x"].values) == labels(nx) == list(k["x"].values))
    c.dims_ok("remove", r, tuple(A.dims))
    c.dims_ok("correct", k, tuple(A.dims))
    r, k = c.elems(r.transpose(dim, "x")), c.elems(k.transpose(dim, "x"))
    t = trend.calc_linear_trend(A, **kw)
    m, b = c.elems(t["v_slope"]), c.elems(t["v_intercept"])
    span = max(abs(p - pos[0]) for p in pos)
    for i in range(nx):
        for j in range(n):
            c.compare(f"remove[{j},{i}]", r[j, i], e[j, i] - (m[i] * pos[j] + b[i]), dims=(), scale=1.0, tol=1e-5)
            c.compare(f"correct[{j},{i}]", k[j, i], e[j, i] - m[i] * pos[j], dims=(), scale=1.0, tol=1e-5)
        z = [c.where(c.isnan(v), 0.0, v) for v in r[:, i]]
        c.compare(f"sum {i}", c.sum(z), 0.0, dims=(), scale=1.0, tol=1e-5)
        c.compare(f"no trend left {i}", c.sum([v * ((p - pos[0]) / span) for v, p in zip(z, pos)]), 0.0, dims=(), scale=1.0, tol=1e-5)


def dataset(c, mode, dim="time", kind=("standard", 1999, 11, 4, 2)):
    """every variable with the dimension is detrended on its own, the others come back as they were"""
    c.cover(trend.linear_detrend)
    ts, pos = axis(kind)
    n = len(pos)
    x, y, z = c.array("x", (n, 2), -10.0, 10.0), c.array("y", (n,), -1e-3, 1e-3), c.array("z", (2, 1, n), -1e3, 1e3)
    s = c.array("s", (2,), -1.0, 1.0, nan=True)
    w = np.array([(5 * k * k) % 7 for k in range(n)])
    D = xr.Dataset({"n": ((dim,), w.astype("int32")), "f": ((dim,), w.astype("float32")), "b": ((dim, "x"), x, {"units": "m s-1"}), "a": ((dim,), y, {"units": "m", "note": "n"}), "c": (("x", "lev", dim), z), "static": (("x",), s, {"units": "1"}), "flag": ((), 7)}, coords={dim: ts, "x": [7.0, 5.0]}, attrs={"title": "t"})
    kw = {} if dim == "time" else {"dim": dim}
    out = trend.linear_detrend(D, mode=mode, **kw)
    c.true("variables", set(out.data_vars) == {"a", "b", "c", "n", "f", "static", "flag"} and int(out["flag"]) == 7 and list(out["x"].values) == [7.0, 5.0])
    c.true("attributes", out["b"].attrs["units"] == "m s-1" and out["a"].attrs["note"] == "n" and out["static"].attrs == {"units": "1"})
    c.compare("static", out["static"], c.elems(s), dims=("x",), scale=1.0)
    mw, bw = np.polyfit((np.array(pos) - pos[0]) / (pos[-1] - pos[0]), w, 1)
    for v in ("n", "f"):
        o = np.asarray(c.elems(out[v]), dtype=float)
        want = w - (mw * (np.array(pos) - pos[0]) / (pos[-1] - pos[0]) + bw)
        if mode == "correct":       # only the slope part: the mean level differs by a constant
            o, want = o - o[0], want - want[0]
        c.true(f"{v} is detrended", bool(np.allclose(o, want, atol=1e-3)))
    for v, w, d, sc in (("a", y, (dim,), 1e-3), ("b", x, (dim, "x"), 1.0), ("c", z, ("x", "lev", dim), 100.0)):
        e, t = c.elems(w), trend.calc_linear_trend(D[v], **kw)
        ax = d.index(dim)
        rest = tuple(q for q in d if q != dim)
        if not (c.dims_ok(v, out[v], d) and c.dims_ok(v, t[f"{v}_slope"], rest)):
            continue
        c.true(f"dimension order {v}", tuple(out[v].dims) == d)
        m, b = c.elems(t[f"{v}_slope"]), c.elems(t[f"{v}_intercept"])
        def want(*i):
            k, j = i[ax], tuple(q for a, q in enumerate(i) if a != ax)
            r = e[i] - m[j] * pos[k]
            return r - b[j] if mode == "remove" else r
        c.compare(v, out[v], objs(e.shape, want), dims=d, scale=sc, tol=1e-5)
        for j in np.ndindex(*m.shape):
            col = [e[j[:ax] + (k,) + j[ax:]] / sc for k in range(n)]
            fit_ok(c, f"{v} {j}", col, pos, m[j] / sc, b[j] / sc)


def line(c, kind):
    """a straight line detrends to zero, and adding one changes nothing"""
    c.cover(trend.linear_detrend)
    ts, pos = axis(kind)
    n = len(pos)
    x = c.elems(c.array("x", (n,), -10.0, 10.0, nan=True))
    present(c, x)
    a, g = c.real("a", -10.0, 10.0), c.real("g", -10.0, 10.0)
    span = max(abs(p - pos[0]) for p in pos)
    y = objs((n,), lambda k: x[k] + a + g * ((pos[k] - pos[0]) / span))
    mk = lambda v: da(c.pack(v), ("time",), {"time": ts}, name="v")
    p, q = trend.linear_detrend(mk(x)), trend.linear_detrend(mk(y))
    c.compare("unchanged", q, c.elems(p), dims=("time",), scale=1.0, tol=1e-5)
    z = trend.linear_detrend(mk(objs((n,), lambda k: a + g * ((pos[k] - pos[0]) / span))))
    c.compare("zero", z, objs((n,), lambda k: 0.0), dims=("time",), scale=1.0, tol=1e-5)


def unnamed(c, kind, mode, label=None, dim="time"):
    """an array without a name (or with any name) is detrended like any other and keeps its name"""
    c.cover(trend.linear_detrend)
    ts, pos = axis(kind)
    n = len(pos)
    x = c.array("x", (n, 2), -10.0, 10.0)
    mk = lambda nm: da(x, (dim, "x"), {dim: ts, "x": labels(2)}, name=nm, attrs={"units": "m"})
    p, q = trend.linear_detrend(mk("v"), dim=dim, mode=mode), trend.linear_detrend(mk(label), dim=dim, mode=mode)
    c.true("name", q.name == label)
    c.true("attributes", q.attrs.get("units") == "m")
    c.compare("values", q, c.elems(p), dims=(dim, "x"), scale=1.0, tol=1e-5)
    z = c.elems(q)
    e = c.elems(x)
    for i in range(2):
        if mode == "remove":
            c.compare(f"sum {i}", c.sum(list(z[:, i])), 0.0, dims=(), scale=1.0, tol=1e-5)


def bad(c):
    c.cover(trend.linear_detrend, trend.calc_linear_trend)
    x = c.array("x", (4,), -10.0, 10.0)
    A = da(x, ("time",), {"time": months("noleap", 1, 1, 4)}, name="v")
    c.raises("mode", ValueError, lambda: trend.linear_detrend(A, mode="keep"))
    c.raises("order", AssertionError, lambda: trend.linear_detrend(A, order=2))
    c.raises("type", TypeError, lambda: trend.linear_detrend(A.values))
    c.raises("units", AssertionError, lambda: trend.calc_linear_trend(A, time_units="decade"))


def cases(tier):
    ax = {"noleap": ("noleap", 1975, 1, 4, 1), "early": ("noleap", 3, 6, 4, 1), "standard": ("standard", 1995, 11, 4, 3), "360": ("360_day", 1850, 1, 4, 12), "julian": ("julian", 1900, 2, 4, 1)}
    q = []
    for k, v in list(ax.items()) + [("numeric", "numeric"), ("descending", "descending")]:
        q.append(Case(f"slope {k}", slope, kind=v))
        if k != "descending":       # detrending requires an increasing axis
            q += [Case(f"detrend {k}", detrend, kind=v), Case(f"line {k}", line, kind=v)]
    for u in NS:
        q.append(Case(f"slope per {u}", slope, kind=ax["standard"], units=u, varunits="kg m-3" if u == "day" else "m"))
    for k in ("repeated", "repeated dates"):
        q += [Case(f"slope {k}", slope, kind=k, nan=False, nx=2), Case(f"slope {k}, gaps", slope, kind=k, nan=True, max_paths=80)]
    q += [Case("slope columns", slope, kind=ax["standard"], nan=False, nx=3), Case("slope columns x first", slope, kind=ax["360"], nan=False, nx=3, order=("x", "time")), Case("slope six points", slope, kind=("standard", 1999, 1, 6, 1)),
          Case("detrend columns", detrend, kind=ax["noleap"], nan=False, nx=3), Case("detrend x first", detrend, kind=ax["noleap"], nan=False, nx=2, order=("x", "time")), Case("detrend dim", detrend, kind="numeric", dim="lev"), Case("detrend dataset", detrend, kind=ax["standard"], ds=True),
          Case("missing column", all_missing, kind=ax["noleap"]), Case("rejections", bad)]
    for u in ("m s-1", "kg m-1 s-1", "W m-2", "1", "s-1", "m yr-1"):
        q.append(Case(f"detrend units {u}", detrend, kind=ax["noleap"], varunits=u, nan=False))
    q += [Case("slope dim", slope, kind=ax["standard"], dim="t0", units="yr"), Case("slope labelled", slope, kind=ax["noleap"], nan=False, nx=2, units="mon", extra=True, order=("x", "time")), Case("slope twelve points", slope, kind=("standard", 1999, 3, 12, 1), nan=False, nx=2, units="yr"), Case("slope thirty points", slope, kind=("360_day", 1, 3, 30, 5), nan=False, units="day"),
          Case("slope two gappy columns", slope, kind=("noleap", 1968, 5, 3, 7), nx=2, max_paths=60), Case("slope far dates", slope, kind=("noleap", 2150, 5, 4, 7)), Case("slope across 1970", slope, kind=("standard", 1969, 5, 4, 6), units="hr"), Case("slope two points", slope, kind=("standard", 1969, 5, 2, 6), nan=False, nx=2),
          Case("detrend two gappy columns", detrend, kind=("noleap", 1968, 5, 3, 7), nx=2, max_paths=60), Case("detrend gappy x first", detrend, kind=ax["noleap"], order=("x", "time")), Case("detrend twelve points", detrend, kind=("standard", 1999, 3, 12, 1), nan=False, nx=2), Case("detrend two points", detrend, kind=("standard", 1999, 3, 2, 1), nan=False), Case("detrend far dates", detrend, kind=("noleap", 2150, 5, 4, 7)),
          Case("missing column numeric", all_missing, kind="numeric"), Case("line twelve", line, kind=("noleap", 3, 2, 5, 9))]
    q += [Case(f"dataset {m}", dataset, mode=m) for m in ("remove", "correct")] + [Case(f"dataset {m} dim", dataset, mode=m, dim="lat", kind="numeric") for m in ("remove", "correct")] + [Case(f"dataset {m} named time", dataset, mode=m, dim="t0", kind=("noleap", 4, 1, 5, 1)) for m in ("remove", "correct")]
    q += [Case("slope 150 points", slope, kind=("noleap", 1900, 1, 150, 1), nan=False), Case("detrend 80 points", detrend, kind=("standard", 1965, 1, 80, 1), nan=False), Case("slope twelve columns", slope, kind=ax["standard"], nan=False, nx=12), Case("detrend twelve columns", detrend, kind=ax["standard"], nan=False, nx=12), Case("dataset eighty points", dataset, mode="correct", kind=("noleap", 4, 1, 40, 1))]
    q += [Case(f"name {nm} {m} {d}", unnamed, kind=k, mode=m, label=nm, dim=d) for nm in (None, "x_slope", "time_mean", "v_intercept") for m in ("remove", "correct") for k, d in ((ax["noleap"], "time"), ("numeric", "lev"))]
    if tier == "thorough":
        q += [Case("slope ten points", slope, kind=("standard", 1999, 1, 10, 1), nan=False, nx=4), Case("detrend seven points", detrend, kind=("standard", 1999, 1, 7, 5), max_paths=400, budget=600), Case("two columns missing", slope, kind=("noleap", 1, 1, 4, 7), nx=2, max_paths=400, budget=600)]
    return q
