"""C15: trends in any time unit describe the same line"""
import warnings

import numpy as np
import xarray as xr
from momlevel import trend

from .common import CALENDARS, Case, da, months, objs
from .c14 import NS, axis


def factors(c, src):
    """conversion factors: exact ratios of unit lengths, whatever the month and year lengths"""
    c.cover(trend.time_conversion_factor)
    dm, dy = c.real("dm", 28.0, 31.0), c.real("dy", 354.0, 366.0)
    L = {"ns": 1.0, "s": 1e9, "min": 60e9, "hr": 3600e9, "day": 86400e9, "mon": 86400e9 * dm, "yr": 86400e9 * dy}
    for dst in NS:
        f = trend.time_conversion_factor(src, dst, days_per_month=dm, days_per_year=dy)
        g = trend.time_conversion_factor(dst, src, days_per_month=dm, days_per_year=dy)
        c.compare(f"{src} to {dst}", f, L[src] / L[dst], dims=(), scale=NS[src] / NS[dst])
        c.compare(f"{src} to {dst} and back", f * g, 1.0, dims=(), scale=1.0)
        c.compare(f"{src} to {dst} default", trend.time_conversion_factor(src, dst), NS[src] / NS[dst], dims=(), scale=NS[src] / NS[dst])


def bad_units(c):
    c.cover(trend.time_conversion_factor, trend.broadcast_trend)
    for u in ("week", "years", "", None, "NS", "days", "hours", "hr-1", "sec", "second", "ms", "us", "month", "mo", "year", "y", "d", "h", "m", "minute", "Yr", " yr", "yr ", "decade", "century"):
        c.raises(f"source {u}", (AssertionError, ValueError, KeyError), lambda: trend.time_conversion_factor(u, "s"))
        c.raises(f"destination {u}", (AssertionError, ValueError, KeyError), lambda: trend.time_conversion_factor("s", u))
    t = da(np.arange(3.0), ("time",), {"time": months("noleap", 1, 1, 3)})["time"]
    s = c.array("s", (2,), -1.0, 1.0)
    c.raises("two inverse units", ValueError, lambda: trend.broadcast_trend(da(s, ("x",), attrs={"units": "m s-1 yr-1"}), t))
    c.raises("unknown inverse unit", (AssertionError, ValueError, KeyError), lambda: trend.broadcast_trend(da(s, ("x",), attrs={"units": "m week-1"}), t))
    for u in ("days", "hours", "years", "months", "sec", "d", "h", "y", "m", "month", "year", "Yr", "MON", "century", "decade"):
        c.raises(f"slope per {u}", (AssertionError, ValueError, KeyError), lambda: trend.broadcast_trend(da(s, ("x",), attrs={"units": f"m {u}-1"}), t))
        c.raises(f"trend per {u}", (AssertionError, ValueError, KeyError), lambda: trend.calc_linear_trend(da(c.array(f"x{u}", (3,), -1.0, 1.0), ("time",), {"time": months("noleap", 1, 1, 3)}, name="v"), time_units=u))
    c.raises("slope type", (AssertionError, TypeError), lambda: trend.broadcast_trend(s, t))
    c.raises("axis type", (AssertionError, TypeError), lambda: trend.broadcast_trend(da(s, ("x",)), np.arange(3.0)))


def broadcast(c, kind, unit=None, zero=False, dim="time", varunit="m"):
    """slope times elapsed time in the slope's unit (counted from 1970-01-01, or from the first date)"""
    c.cover(trend.broadcast_trend)
    ts, pos = axis(kind)
    n = len(pos)
    s = c.array("s", (2,), -1.0, 1.0, nan=True)
    e = c.elems(s)
    timed = not isinstance(kind, str)
    at = {"units": f"{varunit} {unit}-1"} if unit else {}
    t = da(np.zeros(n), (dim,), {dim: ts})[dim]
    out = trend.broadcast_trend(da(s, ("x",), {"x": [1.0, 5.0]}, attrs=at, name="m"), t, subtract_time_zero=True) if zero else trend.broadcast_trend(da(s, ("x",), {"x": [1.0, 5.0]}, attrs=at, name="m"), t)
    L = NS[unit or "ns"] if timed else 1.0
    p0 = pos[0] if zero else 0.0
    if c.dims_ok("line", out.transpose("x", dim), ("x", dim)):
        big = max(abs(p - p0) for p in pos) / L or 1.0
        c.compare("line", out.transpose("x", dim), objs((2, n), lambda i, k: e[i] * ((pos[k] - p0) / L)), dims=("x", dim), scale=big * 1e-3)
        c.true("axis kept", list(out[dim].values) == list(t.values))


def shaped(c, kind, unit, zero, order=None, extra=False, text=None):
    """a map of slopes with its own coordinates, and a single slope"""
    c.cover(trend.broadcast_trend)
    ts, pos = axis(kind)
    n = len(pos)
    s, o = c.array("s", (2, 3), -1.0, 1.0, nan=True), c.real("o", -1.0, 1.0)
    e = c.elems(s)
    at = {"units": text or f"m {unit}-1", "note": "k"}
    t = da(np.zeros(n), ("time",), {"time": ts})["time"]
    S = da(s, ("yh", "xh"), {"yh": [1.0, 2.0], "xh": [7.0, 8.0, 9.0]}, attrs=at, name="m")
    if extra:
        S = S.assign_coords(geolat=(("yh", "xh"), np.arange(6.0).reshape(2, 3)), run=3)
    L, p0 = NS[unit], pos[0] if zero else 0.0
    big = max(abs(p - p0) for p in pos) / L
    out = trend.broadcast_trend(S.transpose(*order) if order else S, t, subtract_time_zero=zero)
    d = ("yh", "xh", "time")
    if set(out.dims) != set(d):
        c.true(f"dimensions {out.dims}", False)
        return
    c.compare("lines", out.transpose(*d), objs((2, 3, n), lambda j, i, k: e[j, i] * ((pos[k] - p0) / L)), dims=d, scale=big * 1e-3)
    c.true("coordinates", list(out["xh"].values) == [7.0, 8.0, 9.0] and list(out["yh"].values) == [1.0, 2.0])
    one = trend.broadcast_trend(da(c.pack(objs((), lambda: o)), (), attrs=at, name="m"), t, subtract_time_zero=zero)
    c.compare("single slope", one, objs((n,), lambda k: o * ((pos[k] - p0) / L)), dims=("time",), scale=big * 1e-3)


def unitfree(c, unit, kind):
    """fit in one unit, evaluate: the same line as fitting in nanoseconds"""
    c.cover(trend.broadcast_trend, trend.calc_linear_trend)
    ts, pos = axis(kind)
    n = len(pos)
    x = c.array("x", (n, 2), -10.0, 10.0)
    A = da(x, ("time", "x"), {"time": ts}, name="v")
    a = trend.calc_linear_trend(A)["v_slope"]
    b = trend.calc_linear_trend(A, time_units=unit)["v_slope"]
    for z in (False, True):
        p, q = (trend.broadcast_trend(v, A["time"], subtract_time_zero=z) for v in (a, b))
        c.compare(f"same line zero={z}", q.transpose("x", "time"), c.elems(p.transpose("x", "time")), dims=("x", "time"), scale=1.0, tol=1e-5)


def warning(c):
    """a trend without a recognisable time unit is taken per nanosecond, with a warning"""
    c.cover(trend.broadcast_trend)
    s = c.array("s", (2,), -1.0, 1.0)
    ts, pos = axis(("noleap", 1971, 1, 3, 1))
    t = da(np.zeros(3), ("time",), {"time": ts})["time"]
    for at in ({}, {"units": "m"}, {"units": ""}, {"units": "m s-2"}):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            out = trend.broadcast_trend(da(s, ("x",), attrs=at), t)
        c.true(f"warned {at}", len(w) > 0)
        c.compare(f"per nanosecond {at}", out.transpose("x", "time"), objs((2, 3), lambda i, k: c.elems(s)[i] * pos[k]), dims=("x", "time"), scale=1e16)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        trend.broadcast_trend(da(s, ("x",), attrs={"units": "m yr-1"}), t)
    c.true("quiet when the unit is known", not [x for x in w if "time unit" in str(x.message)])


def cases(tier):
    ax = {"noleap": ("noleap", 1975, 1, 4, 1), "early": ("noleap", 3, 6, 3, 1), "standard": ("standard", 1995, 11, 4, 3), "360": ("360_day", 1850, 1, 3, 12), "julian": ("julian", 1970, 1, 3, 1)}
    q = [Case(f"factors from {u}", factors, src=u) for u in NS] + [Case("rejections", bad_units), Case("no unit", warning)]
    for u in [None] + list(NS):
        for k in (("standard", "early") if tier == "quick" else ax):
            for z in (False, True):
                q.append(Case(f"line per {u} {k} zero={z}", broadcast, kind=ax[k], unit=u, zero=z))
        if u:
            q.append(Case(f"unit independence {u}", unitfree, unit=u, kind=ax["noleap"]))
    q += [Case("numeric axis", broadcast, kind="numeric", dim="lev"), Case("numeric axis zero", broadcast, kind="numeric", dim="lev", zero=True), Case("time named otherwise", broadcast, kind=ax["360"], dim="t0", unit="yr", zero=True), Case("dimensionless", broadcast, kind=ax["julian"], unit="day", varunit="1")]
    for u in NS:
        q += [Case(f"map per {u} zero={z}", shaped, kind=ax["360" if z else "standard"], unit=u, zero=z, order=("xh", "yh") if z else None, extra=z) for z in (False, True)]
        q += [Case(f"unit first {u}", shaped, kind=ax["early"], unit=u, zero=False, text=f"{u}-1 kg m-3"), Case(f"unit alone {u}", shaped, kind=ax["standard"], unit=u, zero=True, text=f"{u}-1")]
        q += [Case(f"unit independence {u} {k}", unitfree, unit=u, kind=ax[k]) for k in ("standard", "360", "early")]
    q += [Case(f"single date from itself {u}", broadcast, kind=("standard", 1999, 2, 1, 1), unit=u, zero=True) for u in ("ns", "yr")] + [Case("two dates from the first", broadcast, kind=("360_day", 1899, 12, 2, 1), unit="mon", zero=True)]
    q += [Case("single date", broadcast, kind=("standard", 1999, 2, 1, 1), unit="yr"), Case("long axis", broadcast, kind=("standard", 1900, 1, 60, 11), unit="day", zero=True), Case("numeric axis with a unit", broadcast, kind="numeric", dim="lev", unit="yr")]
    return q
