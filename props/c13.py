"""C13: annual cycle (climatology)"""
import numpy as np
import xarray as xr
from momlevel import util

from .common import CALENDARS, Case, da, labels, months, objs
from .c12 import mean, mid_month


def stat(c, vals, func):
    gone = c.and_(*[c.isnan(v) for v in vals])
    if func == "mean":
        return mean(c, vals)
    if func in ("min", "max"):
        r = None
        for v in vals:
            pick = c.min if func == "min" else c.max
            if r is None:
                r = v
            else:
                r = c.where(c.isnan(r), v, c.where(c.isnan(v), r, pick(c.where(c.isnan(r), 0.0, r), c.where(c.isnan(v), 0.0, v))))
        return r
    m = mean(c, vals)
    m0 = c.where(gone, 0.0, m)
    n = c.sum([c.where(c.isnan(v), 0.0, 1.0) for v in vals])
    sq = c.sum([c.where(c.isnan(v), 0.0, (c.where(c.isnan(v), 0.0, v) - m0) * (c.where(c.isnan(v), 0.0, v) - m0)) for v in vals])
    return c.where(gone, c.nan, c.fn("sqrt", sq / c.where(gone, 1.0, n)))


def mid_year_of(cal, y0, m0, n, day):
    """calendar year at the middle of the series"""
    ts = months(cal, y0, m0, n, day)
    return (ts[0] + (ts[-1] - ts[0]) / 2).year


def cycle(c, cal, y0, n, func=None, m0=1, year=None, nx=1, order=("time", "x"), day=15, rev=False, missing=True, extra=False):
    c.cover(util.annual_cycle)
    x = c.array("x", (n, nx), -10.0, 10.0, nan=missing)
    kw = {}
    if func is not None:
        kw["func"] = func
    if year is not None:
        kw["time_axis_year"] = year
    A = da(x, ("time", "x"), {"time": months(cal, y0, m0, n, day)}, name="v").transpose(*order)
    if rev:
        A = A.isel(time=slice(None, None, -1))
    if extra:
        A = A.assign_coords(x=labels(nx), name=("x", [f"site {i}" for i in range(nx)]), run=3)
    out = util.annual_cycle(A, **kw)
    if extra:
        c.true("coordinates", list(out["x"].values) == labels(nx))
    e = c.elems(x)
    def spec(m, i):
        return stat(c, [e[k, i] for k in range(n) if (m0 - 1 + k) % 12 == m], func or "mean")
    # where a month repeats, the first of the twelve results is January
    c.compare("climatology", out.transpose("time", "x"), objs((12, nx), spec), dims=("time", "x"), scale=1.0)
    y = int(year) if year is not None else mid_year_of(cal, y0, m0, n, day)
    c.true("dates", [str(v) for v in out["time"].values] == [str(mid_month(cal, y, m)) for m in range(1, 13)])
    c.true("calendar", all(v.calendar == CALENDARS[cal](1, 1, 1).calendar for v in out["time"].values))


def repeated(c, func, how):
    """dates that occur more than once: every value counts"""
    c.cover(util.annual_cycle)
    ts = months("noleap", 3, 1, 12)
    T = {"strung together": ts + ts, "side by side": [t for t in ts for _ in (0, 1)], "one twice": ts + [ts[4]]}[how]
    n = len(T)
    x = c.array("x", (n, 2), -10.0, 10.0, nan=True)
    out = util.annual_cycle(da(x, ("time", "x"), {"time": T, "x": labels(2)}, name="v"), func=func)
    e = c.elems(x)
    c.compare("climatology", out.transpose("time", "x"), objs((12, 2), lambda m, i: stat(c, [e[k, i] for k in range(n) if T[k].month == m + 1], func)), dims=("time", "x"), scale=1.0)
    c.true("labels", list(out["x"].values) == labels(2))


def dataset(c, func):
    c.cover(util.annual_cycle)
    n = 24
    x, y = c.array("x", (n, 1), -10.0, 10.0, nan=True), c.array("y", (n,), -1e-3, 1e-3, nan=True)
    ts = months("noleap", 3, 1, n)
    k = np.arange(n, dtype="int32") ** 2
    D = xr.Dataset({"a": (("time", "x"), x), "n": (("time",), k), "dt": (("time",), np.full(n, np.timedelta64(10**9, "ns"))), "b": (("time",), y), "average_T1": (("time",), np.array(ts, dtype=object))}, coords={"time": ts})
    out = util.annual_cycle(D, func=func)
    ex, ey = c.elems(x), c.elems(y)
    c.compare("first", out["a"].transpose("time", "x"), objs((12, 1), lambda m, i: stat(c, [ex[m, i], ex[m + 12, i]], func)), dims=("time", "x"), scale=1.0)
    c.compare("second", out["b"], objs((12,), lambda m: stat(c, [ey[m], ey[m + 12]], func)), dims=("time",), scale=1e-6)
    c.true("only numeric variables", set(out.data_vars) == {"a", "b", "n"})
    c.compare("integers", out["n"], objs((12,), lambda m: stat(c, [c.const(float(k[m])), c.const(float(k[m + 12]))], func)), dims=("time",), scale=1.0)


def bad(c):
    c.cover(util.annual_cycle)
    x = c.array("x", (12,), -10.0, 10.0, nan=True)
    A = da(x, ("time",), {"time": months("noleap", 1, 1, 12)}, name="v")
    for f in ("median", "sum", "MEAN", None):
        c.raises(f"func={f}", ValueError, lambda: util.annual_cycle(A, func=f))


def cases(tier):
    q = [Case("default", cycle, cal="noleap", y0=1, n=24), Case("one year", cycle, cal="standard", y0=1999, n=12), Case("unknown statistic", bad)]
    for f in ("mean", "min", "max", "std"):
        q += [Case(f"{f} two years", cycle, cal="standard", y0=2003, n=24, func=f, nx=1), Case(f"{f} three years", cycle, cal="360_day", y0=1, n=36, func=f), Case(f"{f} offset start", cycle, cal="noleap", y0=4, n=24, func=f, m0=5)]
        q.append(Case(f"dataset {f}", dataset, func=f))
    q += [Case("uneven months", cycle, cal="noleap", y0=1, n=29, func="mean", m0=3), Case("uneven min", cycle, cal="julian", y0=1900, n=31, func="min", m0=7), Case("given year", cycle, cal="standard", y0=2001, n=24, year=2004), Case("given year text", cycle, cal="noleap", y0=2001, n=24, year="12"),
          Case("time last", cycle, cal="noleap", y0=1, n=24, order=("x", "time"), nx=2), Case("year spanning leap", cycle, cal="standard", y0=1996, n=60, func="mean"), Case("late dates", cycle, cal="proleptic_gregorian", y0=1999, n=24, m0=11, day=28, func="max")]
    for f in ("mean", "min", "max", "std"):
        q += [Case(f"{f} reversed", cycle, cal="standard", y0=1999, n=25, func=f, rev=True), Case(f"{f} labelled", cycle, cal="noleap", y0=1999, n=13, func=f, m0=2, nx=2, extra=True, order=("x", "time")), Case(f"{f} one year", cycle, cal="julian", y0=1900, n=12, func=f, m0=9),
              Case(f"{f} complete five years", cycle, cal="standard", y0=1998, n=60, func=f, missing=False), Case(f"{f} year", cycle, cal="360_day", y0=10, n=14, func=f, year=1)]
    q += [Case(f"complete {n} months {f}", cycle, cal="noleap", y0=1, n=n, func=f, missing=False) for n, f in ((84, "mean"), (84, "std"), (132, "mean"), (132, "std"), (361, "mean"))]
    q += [Case(f"complete {n} months {f}", cycle, cal="standard", y0=1899, n=n, func=f, missing=False) for n, f in ((84, "min"), (84, "max"), (121, "min"), (121, "max"), (480, "mean"))] + [Case(f"wide {f}", cycle, cal="noleap", y0=1, n=24, func=f, missing=False, nx=8) for f in ("mean", "std")]
    q += [Case(f"{f} {h}", repeated, func=f, how=h) for f in ("mean", "min", "max", "std") for h in ("strung together", "side by side", "one twice")]
    if tier == "thorough":
        q += [Case(f"{f} five years", cycle, cal="standard", y0=1999, n=60, func=f, nx=2, budget=400) for f in ("mean", "min", "max", "std")]
    return q
