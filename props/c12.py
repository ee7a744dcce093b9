"""C12: monthly means"""
import numpy as np
import xarray as xr
from momlevel import util

from .common import CALENDARS, Case, da, labels, objs


def mid_month(cal, y, m):
    t = CALENDARS[cal]
    a, b = t(y, m, 1), t(y + m // 12, m % 12 + 1, 1)
    return a + (b - a) / 2


def mean(c, vals):
    """mean of the values that are present"""
    n = c.sum([c.where(c.isnan(v), 0.0, 1.0) for v in vals])
    gone = c.and_(*[c.isnan(v) for v in vals])
    return c.where(gone, c.nan, c.nansum(vals) / c.where(gone, 1.0, n))


def groups(dates):
    keys = sorted({(y, m) for y, m, *_ in dates})
    return [(k, [i for i, (y, m, *_) in enumerate(dates) if (y, m) == k]) for k in keys]


def check(c, label, out, x, cal, dates, xdims=(), scale=1.0):
    g = groups(dates)
    spec = np.empty((len(g),) + x.shape[1:], dtype=object)
    for a, (_, idx) in enumerate(g):
        for i in np.ndindex(*x.shape[1:]):
            spec[(a,) + i] = mean(c, [x[(j,) + i] for j in idx])
    c.compare(label, out, spec, dims=("time",) + xdims, scale=scale)
    c.true(label + ": mid-month dates", [str(v) for v in out["time"].values] == [str(mid_month(cal, y, m)) for (y, m), _ in g])


def sample(kind):
    if kind == "daily":
        return [(3, 1, d) for d in (1, 2, 15, 30, 31)] + [(3, 2, d) for d in (1, 14, 28)]
    if kind == "five-day":
        return [(1999, 12, 3), (1999, 12, 28), (2000, 1, 2), (2000, 1, 7), (2000, 2, 29), (2000, 12, 31), (2001, 1, 1), (2001, 1, 30)]
    if kind == "one year":
        return [(5, m, d) for m in range(1, 13) for d in (1, 20)]
    if kind == "gaps":
        return [(9, 2, 1), (9, 2, 9), (9, 7, 1), (11, 3, 5), (11, 3, 6), (11, 12, 30)]
    if kind == "monthly":
        return [(1 + k // 12, k % 12 + 1, 15) for k in range(14)]
    if kind == "unordered":
        return [(2, 3, 1), (1, 12, 5), (2, 1, 9), (1, 12, 7), (2, 3, 4)]


def sample2(kind):
    if kind == "twelve samples":       # as many samples as months in a year, over fewer months
        return [(4, m, d) for m in (3, 4, 5, 9) for d in (1, 10, 20)]
    if kind == "twelve in eleven":
        return [(4, m, 15) for m in range(1, 12)] + [(4, 7, 20)]
    if kind == "mid-year start":
        return [(1999 + (6 + k) // 12, (6 + k) % 12 + 1, 15) for k in range(12)]
    if kind == "thirteen samples":
        return [(6, m, 2) for m in range(1, 13)] + [(6, 12, 30)]
    if kind == "single":
        return [(2000, 2, 29)]
    if kind == "one month":
        return [(7, 8, d) for d in (31, 1, 15, 2)]
    if kind == "hours":
        return [(2000, 2, 28, 23), (2000, 2, 29, 0), (2000, 2, 29, 23), (2000, 3, 1, 0), (2000, 3, 31, 23), (2000, 4, 1, 0)]
    if kind == "reversed":
        return [(2001, 1, 1), (2000, 12, 31), (2000, 12, 1), (2000, 3, 1), (2000, 2, 29), (1999, 12, 31)]
    if kind == "repeated":
        return [(8, 1, 1), (8, 1, 1), (8, 1, 1), (8, 2, 1)]
    if kind == "interleaved":
        return [(1 + k % 3, k % 12 + 1, 1 + k % 28) for k in range(30)]
    if kind == "month":
        return [(2004, 2, d) for d in range(1, 30)] + [(2004, 3, 1)]
    if kind == "twenty years":
        return [(1990 + k // 24, (k // 2) % 12 + 1, 1 + 14 * (k % 2)) for k in range(480)]
    if kind == "year of days":
        return [(2000, m, d) for m in range(1, 13) for d in range(1, 29)]
    if kind == "several a day":
        return [(2003, m, d, h) for m in range(1, 13) for d in range(1, 29, 2) for h in (0, 6, 12)]
    if kind == "ends":
        return [(y, m, d) for y in (1899, 1900, 2000) for m, d in ((1, 1), (2, 28), (12, 30))]


KINDS2 = ("twelve samples", "twelve in eleven", "mid-year start", "thirteen samples", "one month", "hours", "reversed", "repeated", "interleaved", "month", "ends", "single")


def array(c, cal, kind, nx=1, order=("time", "x"), extra=False, missing=True, every=None):
    """every: only every so manieth sample may be missing"""
    c.cover(util.monthly_average)
    ds = sample(kind) or sample2(kind)
    x = c.array("x", (len(ds), nx), -1e3, 1e3, nan=missing)
    if every:
        e, g = c.elems(x), c.elems(c.array("g", (len(ds) // every + 1, nx), -1e3, 1e3, nan=True))
        x = c.pack(objs(e.shape, lambda i, j: g[i // every, j] if i % every == 1 else e[i, j]))
    A = da(x, ("time", "x"), {"time": [CALENDARS[cal](*d) for d in ds]}, name="v").transpose(*order)
    if extra:
        A = A.assign_coords(x=labels(nx), name=("x", [f"site {i}" for i in range(nx)]), run=3)
    out = util.monthly_average(A)
    if extra:
        c.true("coordinates", list(out["x"].values) == labels(nx))
    check(c, "monthly mean", out, c.elems(x), cal, ds, ("x",))


def dataset(c, cal, kind):
    c.cover(util.monthly_average)
    ds = sample(kind) or sample2(kind)
    n = len(ds)
    x, y = c.array("x", (n, 2), -1e3, 1e3, nan=True), c.array("y", (n,), -1e-3, 1e-3, nan=True)
    ts = [CALENDARS[cal](*d) for d in ds]
    k, f = np.arange(n, dtype="int32") ** 2, (np.arange(n) / 4).astype("float32")
    D = xr.Dataset({"a": (("time", "x"), x), "n": (("time",), k), "f": (("time",), f), "w": (("x", "time"), np.stack([k, -k])), "dt": (("time",), np.full(n, np.timedelta64(10**9, "ns"))), "b": (("time",), y), "average_T1": (("time",), np.array(ts, dtype=object))}, coords={"time": ts, "x": [1.0, 2.0]})
    out = util.monthly_average(D)
    check(c, "first variable", out["a"], c.elems(x), cal, ds, ("x",))
    check(c, "second variable", out["b"], c.elems(y), cal, ds, (), 1e-6)
    c.true("only numeric variables", set(out.data_vars) == {"a", "b", "n", "f", "w"})
    for v, d in (("n", k), ("f", f)):
        check(c, f"variable {v}", out[v], objs((n,), lambda i: c.const(float(d[i]))), cal, ds)
    check(c, "variable w", out["w"], objs((n, 2), lambda i, j: c.const(float(k[i]) * (1 - 2 * j))), cal, ds, ("x",))


def cases(tier):
    q = []
    for cal, kind in (("noleap", "daily"), ("standard", "five-day"), ("360_day", "one year"), ("julian", "gaps"), ("noleap", "monthly"), ("proleptic_gregorian", "five-day"), ("all_leap", "gaps"), ("standard", "one year"), ("noleap", "unordered")):
        q.append(Case(f"{cal} {kind}", array, cal=cal, kind=kind, nx=2))
    q += [Case("time last", array, cal="noleap", kind="daily", nx=2, order=("x", "time")), Case("dataset five-day", dataset, cal="standard", kind="five-day"), Case("dataset gaps", dataset, cal="noleap", kind="gaps")]
    for k in KINDS2:
        for cal in ("standard", "noleap", "360_day", "julian"):
            dd = sample2(k)
            if (cal == "360_day" and any(d[2] > 30 for d in dd)) or (cal == "noleap" and any(d[1:3] == (2, 29) for d in dd)):
                continue
            if cal == "julian" and k not in ("ends", "hours", "twelve samples"):
                continue
            q.append(Case(f"{cal} {k}", array, cal=cal, kind=k, nx=2, missing=k != "month"))
    q += [Case(f"dataset {k}", dataset, cal="standard", kind=k) for k in ("twelve samples", "reversed", "mid-year start", "single")]
    q += [Case(f"labelled {k}", array, cal="standard", kind=k, nx=2, extra=True, order=o) for k, o in (("twelve samples", ("time", "x")), ("gaps", ("x", "time")), ("unordered", ("x", "time")))]
    q += [Case(f"{cal} {k}", array, cal=cal, kind=k, missing=m) for cal in ("standard", "noleap") for k, m in (("twenty years", True), ("year of days", False))] + [Case("wide", array, cal="standard", kind="gaps", nx=12)]
    q += [Case(f"{cal} several a day", array, cal=cal, kind="several a day", missing=False, every=9) for cal in ("standard", "360_day")]
    if tier == "thorough":
        q += [Case(f"wide {k}", array, cal="standard", kind=k, nx=4, budget=300) for k in ("five-day", "gaps", "monthly")]
    return q
