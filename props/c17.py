"""C17: deseasonalising"""
import numpy as np
import xarray as xr
from momlevel import trend

from .common import CALENDARS, Case, da, labels, months, objs, year_days
from .c16 import basis


def decimal(cal, ds):
    """elapsed years, each step the inverse length of its year"""
    t, out = 0.0, []
    for y, m, d in ds:
        out.append(t)
        t += 1.0 / year_days(cal, y)
    return out


def days(cal, y, m, d, n):
    t = CALENDARS[cal](y, m, d)
    one = CALENDARS[cal](y, 1, 2) - CALENDARS[cal](y, 1, 1)
    return [t + one * k for k in range(n)]


def fit(B, x, c):
    P = np.linalg.pinv(B)
    n = len(x)
    co = [c.sum([float(P[j, q]) * x[j] for j in range(n)]) for q in range(6)]
    md = [c.sum([co[q] * float(B[q][k]) for q in range(6)]) for k in range(n)]
    return co, md


def deseason(c, cal, start, n, fmt, shape=(), dims=(), order=None, tname="time", stride=1, chunks=None, extra=False):
    """stride: days between free values, the others hold a fixed pattern"""
    c.cover(trend.deseason, trend.seasonal_cycle_model, trend._detrend_deseason_chunk, trend._detrend_deseason_lazy)
    ts = days(cal, *start, n)
    free = c.elems(c.array("x", ((n + stride - 1) // stride,) + shape, -10.0, 10.0))
    e = objs((n,) + shape, lambda k, *i: free[(k // stride,) + i] if k % stride == 0 else c.const(((k * 7 + 3 * sum(i)) % 11 - 5.0) * c.mag))
    x = c.pack(e)
    A = da(x, (tname,) + dims, {tname: ts}, name="v", attrs={"units": "m", "long_name": "ssh"})
    if order:
        A = A.transpose(*order)
    if extra:
        A = A.assign_coords({d: labels(m, 2.0) for d, m in zip(dims, shape)}).assign_coords(run=2)
    if chunks:
        A = A.chunk(chunks)
    kw = {} if tname == "time" else {"tdim": tname}
    if fmt:
        kw["output_format"] = fmt
    out = trend.deseason(A, **kw)
    if chunks:
        c.true("stays lazy", out.chunks is not None)
        out = out.compute()
    B = basis(decimal(cal, [(t.year, t.month, t.day) for t in ts]))
    fmt = fmt or "residuals"
    first = "coeff" if fmt == "coeff" else tname
    spec = np.empty((6 if fmt == "coeff" else n,) + shape, dtype=object)
    for i in np.ndindex(*shape):
        co, md = fit(B, [e[(k,) + i] for k in range(n)], c)
        v = co if fmt == "coeff" else md if fmt == "model" else [e[(k,) + i] - md[k] for k in range(n)]
        for k, w in enumerate(v):
            spec[(k,) + i] = w
    full = (first,) + dims
    if set(out.dims) != set(full):
        c.true(f"dimensions {out.dims}", False)
        return
    c.true("leading dimension", out.dims[0] == first)
    c.compare(fmt, out.transpose(*full), spec, dims=full, scale=1.0 if fmt != "coeff" else 10.0, tol=1e-4)
    if extra:
        c.true("coordinates", all(list(out[d].values) == labels(m, 2.0) for d, m in zip(dims, shape)))
    if fmt != "coeff":
        c.true("dates", list(out[tname].values) == ts)
        c.true("units", out.attrs.get("units") == "m")


def kernel(c, n, diy, spread=None):
    """the one-series kernel with a given year length (number or one per step)"""
    c.cover(trend.seasonal_cycle_model)
    x = c.array("x", (n,), -10.0, 10.0)
    e = c.elems(x)
    arg = np.array([diy + (spread[k % len(spread)]) for k in range(n)]) if spread else diy
    co, r, m = trend.seasonal_cycle_model(x, daysinyear=arg)
    if spread:
        t = np.concatenate(([0.0], np.cumsum(1.0 / arg)[:-1]))
    else:
        t = np.arange(n) / diy
    sc, sm = fit(basis(t), list(e), c)
    c.compare("coefficients", co, objs((6,), lambda q: sc[q]), scale=10.0, tol=1e-4)
    c.compare("model", m, objs((n,), lambda k: sm[k]), scale=1.0, tol=1e-4)
    c.compare("residuals", r, objs((n,), lambda k: e[k] - sm[k]), scale=1.0, tol=1e-4)
    rr = c.elems(r)
    B = basis(t)
    for q in range(6):
        c.compare(f"orthogonal to term {q}", c.sum([rr[k] * float(B[q][k]) for k in range(n)]), 0.0, dims=(), scale=1.0, tol=1e-4)


def parts(c, cal, start, n, stride):
    """model plus residuals is the input; the coefficient names are in order"""
    c.cover(trend.deseason)
    ts = days(cal, *start, n)
    free = c.elems(c.array("x", ((n + stride - 1) // stride, 2), -10.0, 10.0))
    e = objs((n, 2), lambda k, i: free[k // stride, i] if k % stride == 0 else c.const(0.0))
    A = da(c.pack(e), ("time", "x"), {"time": ts, "x": [9.0, 3.0]}, name="v", attrs={"units": "m"})
    r, m, co = (trend.deseason(A, output_format=f) for f in ("residuals", "model", "coeff"))
    R, M = c.elems(r.transpose("time", "x")), c.elems(m.transpose("time", "x"))
    c.compare("sum of parts", c.pack(objs((n, 2), lambda k, i: R[k, i] + M[k, i])), e, scale=1.0, tol=1e-5)
    c.true("coefficient names", list(co["coeff"].values) == ["constant", "trend", "sin_annual", "cos_annual", "sin_semiannual", "cos_semiannual"])
    c.true("coordinates", list(r["x"].values) == [9.0, 3.0] == list(co["x"].values))


def gaps(c, fmt, n=10):
    """a column with a gap has no result at all, its neighbour is not affected"""
    c.cover(trend.deseason)
    x, y = c.elems(c.array("x", (n,), -10.0, 10.0)), c.elems(c.array("y", (n,), -10.0, 10.0, nan=True))
    ts = days("noleap", 2, 5, 1, n)
    A = da(c.pack(objs((n, 2), lambda k, i: y[k] if i else x[k])), ("time", "x"), {"time": ts, "x": [1.0, 0.0]}, name="v", attrs={"units": "m"})
    out = trend.deseason(A, output_format=fmt)
    t = np.arange(n) / 365.0
    first = "coeff" if fmt == "coeff" else "time"
    spec = np.empty((6 if fmt == "coeff" else n, 2), dtype=object)
    for i, v in enumerate((x, y)):
        co, md = fit(basis(t), list(v), c)
        for k, w in enumerate(co if fmt == "coeff" else md if fmt == "model" else [v[k] - md[k] for k in range(n)]):
            spec[k, i] = w
    if fmt == "coeff":
        # the coefficients of ten days are ill conditioned: only their presence is asked for
        o = c.elems(out.transpose(first, "x"))
        for k in range(6):
            c.true(f"present[{k}]", c.and_(c.not_(c.isnan(o[k, 0])), c.or_(c.and_(c.isnan(o[k, 1]), c.isnan(spec[k, 1])), c.and_(c.not_(c.isnan(o[k, 1])), c.not_(c.isnan(spec[k, 1]))))))
        return
    c.compare(fmt, out.transpose(first, "x"), spec, dims=(first, "x"), scale=1.0, tol=1e-4)


def bad(c):
    c.cover(trend.deseason)
    x = c.array("x", (5,), -1.0, 1.0)
    A = da(x, ("time",), {"time": days("noleap", 1, 1, 1, 5)}, name="v")
    c.raises("format", ValueError, lambda: trend.deseason(A, output_format="trend"))
    c.raises("dimension", (AssertionError, ValueError), lambda: trend.deseason(A, tdim="t0"))
    c.raises("type", (AssertionError, TypeError), lambda: trend.deseason(A.to_dataset()))


def cases(tier):
    q = []
    for cal, y in (("noleap", 1), ("standard", 1999), ("standard", 2000), ("360_day", 5), ("julian", 1900), ("all_leap", 1), ("proleptic_gregorian", 1899)):
        for f in ("residuals", "coeff"):
            q.append(Case(f"{f} {cal} {y}", deseason, cal=cal, start=(y, 3, 1), n=400, fmt=f, stride=40))
    q += [Case("default is residuals", deseason, cal="noleap", start=(1, 1, 1), n=40, fmt=None), Case("model", deseason, cal="standard", start=(2003, 6, 1), n=400, fmt="model", stride=40), Case("all days free", deseason, cal="noleap", start=(2, 1, 1), n=60, fmt="residuals")]
    for f in ("residuals", "model", "coeff"):
        q += [Case(f"column {f}", deseason, cal="noleap", start=(1, 1, 1), n=200, fmt=f, shape=(2,), dims=("x",), stride=40), Case(f"map {f}", deseason, cal="noleap", start=(1, 1, 1), n=200, fmt=f, shape=(2, 2), dims=("yh", "xh"), stride=50),
              Case(f"time last {f}", deseason, cal="noleap", start=(1, 1, 1), n=200, fmt=f, shape=(2, 2), dims=("yh", "xh"), order=("xh", "yh", "time"), stride=50), Case(f"time named otherwise {f}", deseason, cal="noleap", start=(1, 1, 1), n=200, fmt=f, shape=(2,), dims=("x",), tname="t0", stride=40)]
    for f in ("residuals", "coeff"):
        q.append(Case(f"chunked {f}", deseason, cal="noleap", start=(1, 1, 1), n=200, fmt=f, shape=(3,), dims=("x",), stride=50, chunks={"time": 50, "x": 2}))
    q += [Case("kernel integer year", kernel, n=12, diy=10), Case("kernel float year", kernel, n=12, diy=9.5), Case("kernel varying year", kernel, n=14, diy=8, spread=[0, 1, 2, 0.5]), Case("parts", parts, cal="standard", start=(1999, 8, 1), n=300, stride=60), Case("rejections", bad)] + [Case(f"gaps {f}", gaps, fmt=f) for f in ("residuals", "model", "coeff")]
    for f in ("residuals", "model", "coeff"):
        q += [Case(f"labelled cube {f}", deseason, cal="standard", start=(1999, 12, 1), n=120, fmt=f, shape=(2, 1, 2), dims=("lev", "yh", "xh"), order=("lev", "time", "xh", "yh"), stride=60, extra=True),
              Case(f"chunked map, time last {f}", deseason, cal="standard", start=(2000, 2, 1), n=120, fmt=f, shape=(2, 2), dims=("yh", "xh"), order=("yh", "xh", "time"), stride=60, chunks={"time": 120, "xh": 1}, extra=True),
              Case(f"chunked in time {f}", deseason, cal="360_day", start=(1, 1, 1), n=100, fmt=f, stride=20, chunks={"time": 30}), Case(f"chunked, named otherwise {f}", deseason, cal="noleap", start=(1, 1, 1), n=100, fmt=f, shape=(2,), dims=("x",), stride=50, chunks={"t0": 40}, tname="t0"),
              Case(f"short {f}", deseason, cal="noleap", start=(1, 12, 28), n=8 if f != "coeff" else 60, fmt=f), Case(f"into a leap year {f}", deseason, cal="standard", start=(1999, 12, 20), n=30, fmt=f), Case(f"out of a leap year {f}", deseason, cal="julian", start=(1900, 12, 20), n=30, fmt=f), Case(f"century {f}", deseason, cal="proleptic_gregorian", start=(2099, 12, 20), n=400, fmt=f, stride=50),
              Case(f"two years {f}", deseason, cal="standard", start=(2003, 7, 1), n=800, fmt=f, stride=100), Case(f"one cell map {f}", deseason, cal="noleap", start=(1, 1, 1), n=50, fmt=f, shape=(1, 1), dims=("yh", "xh"), stride=10)]
    q += [Case(f"three years {f}", deseason, cal="standard", start=(1999, 7, 1), n=1200, fmt=f, stride=150) for f in ("residuals", "coeff")] + [Case(f"wide {f}", deseason, cal="noleap", start=(1, 1, 1), n=40, fmt=f, shape=(5, 5), dims=("yh", "xh"), stride=40) for f in ("residuals", "model", "coeff")]
    if tier == "thorough":
        q += [Case(f"dense {f}", deseason, cal="standard", start=(1999, 8, 1), n=370, fmt=f, stride=2, budget=600) for f in ("residuals", "coeff", "model")]
        q += [Case(f"four years {f}", deseason, cal="standard", start=(1999, 8, 1), n=1500, fmt=f, stride=60, budget=600) for f in ("residuals", "coeff")]
    return q
