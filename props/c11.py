"""C11: annual means weight each month by its length in the data's calendar"""
from datetime import timedelta

import numpy as np
import xarray as xr
from momlevel import util

from .common import CALENDARS, Case, da, labels, month_days, months, objs, rich, year_days


ATTRS = {**rich("v"), "units": "m", "valid_min": -3.5, "flag": 4, "cell_methods": "time: mean", "levels": [1, 2], "range": np.array([0.0, 2.0]), "empty": ""}


def same_attrs(a, b):
    return set(a) == set(b) and all(np.array_equal(np.asarray(a[k]), np.asarray(b[k])) for k in b)


def mid_year(cal, y):
    t = CALENDARS[cal]
    return t(y, 1, 1) + (t(y + 1, 1, 1) - t(y, 1, 1)) / 2


def year_mean(c, cal, y, vals):
    """vals: the twelve monthly values of year y"""
    w = [month_days(cal, y, m) for m in range(1, 13)]
    num = c.sum([c.where(c.isnan(v), 0.0, v) * wm for v, wm in zip(vals, w)])
    den = c.sum([c.where(c.isnan(v), 0.0, float(wm)) for v, wm in zip(vals, w)])
    gone = c.and_(*[c.isnan(v) for v in vals])
    return c.where(gone, c.nan, num / c.where(gone, 1.0, den))


def check(c, label, out, x, cal, years, scale=1.0, xdims=("x",)):
    """x: object array (time, ...) in calendar order"""
    spec = np.empty((len(years),) + x.shape[1:], dtype=object)
    for a, y in enumerate(years):
        for i in np.ndindex(*x.shape[1:]):
            spec[(a,) + i] = year_mean(c, cal, y, [x[(12 * a + m,) + i] for m in range(12)])
    c.compare(label, out, spec, dims=("time",) + xdims, scale=scale)
    c.true(label + ": mid-year dates", [str(v) for v in out["time"].values] == [str(mid_year(cal, y)) for y in years])
    c.true(label + ": calendar", all(v.calendar == CALENDARS[cal](1, 1, 1).calendar for v in out["time"].values))


def array(c, cal, y0, ny, nx=1, day=15, order=("time", "x"), perm=None, extra=False):
    """any field, any missing months; perm: the months are listed in another order"""
    c.cover(util.annual_average)
    n = 12 * ny
    x = c.array("x", (n, nx), -1e3, 1e3, nan=True)
    ts = months(cal, y0, 1, n, day)
    A = da(x, ("time", "x"), {"time": ts}, name="v", attrs=dict(ATTRS))
    if extra:
        A = A.assign_coords(x=labels(nx), name=("x", [f"site {i}" for i in range(nx)]), run=3)
        A["x"].attrs.update(rich("x"))
        A["time"].attrs.update(rich("time"))
    if perm is not None:
        A = A.isel(time=[(perm * k + perm) % n for k in range(n)])
    out = util.annual_average(A.transpose(*order))
    if extra:
        c.true("coordinates", list(out["x"].values) == labels(nx) and out["x"].attrs == rich("x") and out["time"].attrs == rich("time"))
    check(c, "annual mean", out, c.elems(x), cal, range(y0, y0 + ny))
    c.true("attributes kept", same_attrs(out.attrs, ATTRS))


def dataset(c, cal, y0):
    """every numeric variable of a dataset"""
    c.cover(util.annual_average)
    x, y = c.array("x", (12, 2), -1e3, 1e3, nan=True), c.array("y", (12,), -1e-3, 1e-3, nan=True)
    ts = months(cal, y0, 1, 12)
    k, f = np.arange(12, dtype="int32") ** 2, (np.arange(12) / 4).astype("float32")
    ds = xr.Dataset({"a": (("time", "x"), x, {"units": "K", "_no": 3}), "n": (("time",), k), "f": (("time",), f), "w": (("x", "time"), np.stack([k, -k])), "b": (("time",), y, {"units": "m"}), "average_T1": (("time",), np.array(ts, dtype=object)),
                     "average_DT": (("time",), np.full(12, np.timedelta64(30 * 86400 * 10**9, "ns")))}, coords={"time": ts, "x": [10.0, 20.0]}, attrs={"title": "t", **ATTRS})
    ds["x"].attrs["n"] = 5
    ds["time"].attrs["k"] = [1.5]
    out = util.annual_average(ds)
    c.true("dataset attributes", same_attrs(out.attrs, {"title": "t", **ATTRS}) and same_attrs(out["a"].attrs, {"units": "K", "_no": 3}) and same_attrs(out["b"].attrs, {"units": "m"}) and same_attrs(out["x"].attrs, {"n": 5}) and same_attrs(out["time"].attrs, {"k": [1.5]}) and same_attrs(out["f"].attrs, {}))
    check(c, "first variable", out["a"], c.elems(x), cal, [y0])
    check(c, "second variable", out["b"], c.elems(y), cal, [y0], 1e-6, xdims=())
    c.true("attributes", (out["a"].attrs.get("units"), out["b"].attrs.get("units"), out.attrs.get("title")) == ("K", "m", "t"))
    c.true("coordinate values", list(out["x"].values) == [10.0, 20.0])
    c.true("only numeric variables", set(out.data_vars) == {"a", "b", "n", "f", "w"})
    for v, d in (("n", k), ("f", f)):
        check(c, f"variable {v}", out[v], objs((12,), lambda i: c.const(float(d[i]))), cal, [y0], xdims=())
    check(c, "variable w", out["w"], objs((12, 2), lambda i, j: c.const(float(k[i]) * (1 - 2 * j))), cal, [y0])


def static(c, cal, y0, ny):
    """a numeric variable without a time dimension keeps its values in every year"""
    c.cover(util.annual_average)
    n = 12 * ny
    x, g, k = c.array("x", (n,), -1e3, 1e3, nan=True), c.array("g", (2,), -1e3, 1e3, nan=True), c.real("k", -1e3, 1e3)
    ds = xr.Dataset({"x": (("time",), x), "g": (("p",), g, {"units": "m2"}), "k": ((), c.pack(objs((), lambda: k))), "n": (("p",), np.array([4, 9]))}, coords={"time": months(cal, y0, 1, n)})
    out = util.annual_average(ds)
    check(c, "series", out["x"], c.elems(x), cal, range(y0, y0 + ny), xdims=())
    c.true("variables", set(out.data_vars) == {"x", "g", "k", "n"})
    G = c.elems(g)
    for nm, d, v in (("g", ("p",), lambda i: G[i]), ("k", (), lambda *i: k), ("n", ("p",), lambda i: c.const((4.0, 9.0)[i]))):
        if nm not in out:
            continue
        for a in range(ny):
            o = out[nm].isel(time=a) if "time" in out[nm].dims else out[nm]
            c.compare(f"{nm} in year {a}", o, objs((2,) if d else (), v), dims=d, scale=1.0)


def names(c, cal, y0, ny=1):
    """numeric variables are averaged whatever they are called"""
    c.cover(util.annual_average)
    n = 12 * ny
    nm = ("time_bnds", "lat_bnds", "average_DT", "average_T1", "bounds", "year", "time_mean", "month_length", "_x", "volcello", "nv")
    x = {k: c.array(k, (n,), -1e3, 1e3) for k in nm}
    ds = xr.Dataset({k: (("time",), v, {"units": k}) for k, v in x.items()}, coords={"time": months(cal, y0, 1, n)})
    out = util.annual_average(ds)
    c.true("variables", set(out.data_vars) == set(nm))
    for k in nm:
        if k in out:
            check(c, k, out[k], c.elems(x[k]), cal, range(y0, y0 + ny), xdims=())
            c.true("attributes " + k, same_attrs(out[k].attrs, {"units": k}))


def constant(c, cal, y0):
    """a field constant within the year averages to that constant, and the mean stays within the range of the months"""
    c.cover(util.annual_average)
    k = c.real("k", -1e3, 1e3)
    d = c.array("d", (12,), 0.0, 10.0, nan=True)
    ts = {"time": months(cal, y0, 1, 12)}
    o1 = c.elems(util.annual_average(da(c.pack(objs((12,), lambda i: k)), ("time",), ts, name="v")))[0]
    c.compare("constant", o1, k, dims=(), scale=1.0)
    o2 = c.elems(util.annual_average(da(d, ("time",), ts, name="v")))[0]
    c.true("in range", c.or_(c.isnan(o2), c.and_(c.le(-1e-9, o2), c.le(o2, 10.0 + 1e-9))))


def partial(c, n, m0=1, drop=None, cal="noleap", again=None):
    """years that are not twelve months long are refused, arrays and datasets"""
    c.cover(util.annual_average)
    ts = [t for k, t in enumerate(months(cal, 2, m0, n)) if k != drop]
    if again is not None:       # one month sampled twice
        ts.insert(again + 1, ts[again] + timedelta(days=3))
    x = c.array("x", (len(ts),), -1e3, 1e3, nan=True)
    A = da(x, ("time",), {"time": ts}, name="v")
    c.raises("incomplete year", (AssertionError, ValueError), lambda: util.annual_average(A))
    c.raises("incomplete year in a dataset", (AssertionError, ValueError), lambda: util.annual_average(xr.Dataset({"v": A})))


def cases(tier):
    q = []
    for cal, y0 in (("noleap", 1), ("standard", 2000), ("standard", 1900), ("360_day", 7), ("julian", 1900), ("all_leap", 3), ("proleptic_gregorian", 1896)):
        q.append(Case(f"{cal} {y0}", array, cal=cal, y0=y0, ny=1, nx=2))
        q.append(Case(f"constant {cal} {y0}", constant, cal=cal, y0=y0))
    q += [Case("two years to leap", array, cal="standard", y0=2003, ny=2), Case("month starts", array, cal="noleap", y0=1999, ny=1, day=1), Case("late dates", array, cal="standard", y0=2004, ny=1, day=28),
          Case("time last", array, cal="noleap", y0=12, ny=2, order=("x", "time")), Case("dataset", dataset, cal="standard", y0=2004), Case("dataset noleap", dataset, cal="noleap", y0=5)]
    q += [Case(f"static variables {cal}", static, cal=cal, y0=y0, ny=ny) for cal, y0, ny in (("standard", 2000, 1), ("360_day", 5, 2))]
    q += [Case(f"names {cal}", names, cal=cal, y0=y0, ny=ny) for cal, y0, ny in (("standard", 2000, 1), ("noleap", 5, 2))]
    q += [Case(f"partial {n}", partial, n=n) for n in (1, 11, 13, 18, 23)]
    q += [Case(f"partial {n} from {m}", partial, n=n, m0=m) for n, m in ((12, 2), (24, 7), (36, 12))] + [Case(f"gap {d} {cal}", partial, n=24, drop=d, cal=cal) for d in (0, 5, 11, 12, 23) for cal in ("standard", "360_day")]
    q += [Case(f"month {k} of {n} twice {cal}", partial, n=n, again=k, cal=cal) for cal in ("standard", "360_day") for n, k in ((12, 0), (12, 11), (12, 6), (24, 13), (24, 5))]
    for cal, y0 in (("noleap", 1999), ("standard", 2099), ("standard", 1581), ("360_day", 1900), ("julian", 1999), ("all_leap", 1900), ("proleptic_gregorian", 1999)):
        q.append(Case(f"two years {cal} {y0}", array, cal=cal, y0=y0, ny=2))
    q += [Case(f"shuffled {cal}", array, cal=cal, y0=1999, ny=2, perm=p) for cal, p in (("standard", 5), ("noleap", 7), ("360_day", 23), ("julian", 11))]
    q += [Case("labelled", array, cal="standard", y0=1996, ny=2, nx=2, extra=True), Case("labelled, time last, shuffled", array, cal="standard", y0=1999, ny=2, nx=2, extra=True, order=("x", "time"), perm=13), Case("five years", array, cal="standard", y0=1898, ny=5), Case("far future", array, cal="proleptic_gregorian", y0=2999, ny=2, day=1),
          Case("dataset 360", dataset, cal="360_day", y0=30), Case("dataset julian", dataset, cal="julian", y0=1900)]
    q += [Case("twelve years", array, cal="standard", y0=1992, ny=12), Case("thirty years", array, cal="noleap", y0=1, ny=30), Case("eight columns", array, cal="standard", y0=2000, ny=1, nx=8)]
    if tier == "thorough":
        q += [Case("four years", array, cal="standard", y0=1999, ny=4, nx=3, budget=300), Case("three years 360", array, cal="360_day", y0=1, ny=3, nx=3, budget=300)]
    return q
