"""C31: chunked (lazy) input gives the results of the same data in memory"""
import numpy as np
import xarray as xr
import momlevel
from momlevel import derived, trend, util

from .common import Case, CALENDARS, Ocean, da, months, objs
from .c06 import wet
from .c20 import dataset as flow
from .c26 import SITES, field, run


def attrs_of(a):
    return {k: "missing" if isinstance(v, float) and v != v else v for k, v in a.attrs.items() if k not in ("detrend_comment", "distance")}


def same(c, label, lazy, eager, scale=1.0, tol=1e-6):
    """values, dimension order, names, coordinates and attributes"""
    if isinstance(eager, tuple):
        for k, (a, b) in enumerate(zip(lazy, eager)):
            same(c, f"{label} {k}", a, b, scale, tol)
        return
    if isinstance(eager, xr.Dataset):
        c.true(f"{label}: variables", set(lazy.variables) == set(eager.variables) and set(lazy.data_vars) == set(eager.data_vars))
        for v in eager.data_vars:
            same(c, f"{label}: {v}", lazy[v], eager[v], scale, tol)
        c.true(f"{label}: attributes", attrs_of(lazy) == attrs_of(eager))
        return
    c.true(f"{label}: dimensions", tuple(lazy.dims) == tuple(eager.dims) and lazy.shape == eager.shape)
    c.true(f"{label}: name", lazy.name == eager.name)
    c.true(f"{label}: attributes", attrs_of(lazy) == attrs_of(eager))
    if "distance" in eager.attrs:
        c.equal(f"{label}: distance", lazy.attrs["distance"], eager.attrs["distance"], 1.0, tol)
    c.true(f"{label}: coordinates", set(lazy.coords) == set(eager.coords))
    for k in eager.coords:
        v, w = lazy.coords[k].values, eager.coords[k].values
        if isinstance(v, np.ndarray) and isinstance(w, np.ndarray) and k in lazy.coords:
            c.true(f"{label}: coordinate {k}", v.shape == w.shape and bool(np.all(v == w)))
    if eager.dtype.kind in "OMmUS":
        c.true(label, bool((eager.values == lazy.values).all()))
        return
    c.compare(label, lazy.compute(), c.elems(eager.compute()), dims=tuple(eager.dims), scale=scale, tol=tol)


def steric(c, domain, variant="steric", chunks=None, annual=False, given=False, eosname="linear", nt=2, nz=2, ny=1, nx=2, strict=False, missing="shared", order=None):
    c.cover(momlevel.steric, derived.calc_dz, derived.calc_rho, derived.calc_masso, momlevel.reference.setup_reference_state, util.annual_average)
    nt = 12 if annual else nt
    o = Ocean(c, nt, nz, ny, nx, missing=missing if not annual else None, strict_area=strict, order=order)
    if domain == "global":
        wet(c, o)
    kw = dict(domain=domain, variant=variant, strict=strict, annual=annual, equation_of_state=eosname)
    ke = dict(kw)
    lz = o.ds.chunk(chunks)
    if given:
        kw["reference"] = momlevel.reference.setup_reference_state(lz, eos=eosname, time_index=-1)
        ke["reference"] = momlevel.reference.setup_reference_state(o.ds, eos=eosname, time_index=-1)
        same(c, "supplied reference", kw["reference"], ke["reference"], 1e-6)
    a, ra = momlevel.steric(lz, **kw)
    b, rb = momlevel.steric(o.ds, **ke)
    same(c, "result", a, b, 1e-3)
    same(c, "reference", ra, rb, 1e-6)


def water(c, nt=2, nz=3, nx=2):
    zl = np.array([2.5, 10.0, 20.0, 32.5, 51.25][:nz])
    sh, dims = (nt, nz, 1, nx), ("time", "z_l", "yh", "xh")
    co = {"z_l": zl, "xh": 10.0 * np.arange(nx), "time": months("noleap", 1, 1, nt)}
    t, s = c.array("T", sh, -10.0, 60.0, nan=True), c.array("S", sh, -2.0, 80.0, nan=True)
    return da(t, dims, co, name="thetao", attrs={"units": "degC"}), da(s, dims, co, name="so", attrs={"units": "psu"})


def pointwise(c, what, chunks, eosname="Wright", first="time"):
    c.cover(derived.calc_rho, derived.calc_alpha, derived.calc_beta, derived.calc_pdens, derived.calc_spice, derived.calc_stability_angle, derived.calc_n2, momlevel.inverse_barometer, derived.adjust_negative_n2)
    T, S = water(c)
    if first != "time":
        T, S = T.transpose(first, ...), S.transpose(first, ...)
    P = T["z_l"] * 1e4 + 101325.0
    Q = da(c.array("pso", T.shape, 9e4, 1.1e5, nan=True), T.dims, {k: v for k, v in T.coords.items() if k in T.dims})
    f, scale = {"rho": (lambda t, s, p, q: derived.calc_rho(t, s, p, eos=eosname), 1.0), "alpha": (lambda t, s, p, q: derived.calc_alpha(t, s, p, eos=eosname), 1e-4), "beta": (lambda t, s, p, q: derived.calc_beta(t, s, p, eos=eosname), 1e-4),
                "pdens": (lambda t, s, p, q: derived.calc_pdens(t, s, level=2000.0, eos=eosname), 1.0), "spice": (lambda t, s, p, q: derived.calc_spice(t, s), 1.0), "n2": (lambda t, s, p, q: derived.calc_n2(t, s, eos=eosname), 1e-5), "angle": (lambda t, s, p, q: derived.calc_stability_angle(t, s, p, eos=eosname), 1.0),
                "adjusted n2": (lambda t, s, p, q: derived.calc_n2(t, s, eos=eosname, adjust_negative=True), 1e-5), "ibh": (lambda t, s, p, q: momlevel.inverse_barometer(t, s, q, equation_of_state=eosname), 1.0),
                "mass": (lambda t, s, p, q: derived.calc_masso(t, s), 1.0), "volume": (lambda t, s, p, q: derived.calc_volo(t.isel(time=0)), 1.0)}[what]
    same(c, what, f(T.chunk(chunks), S.chunk(chunks), P, Q.chunk(chunks)), f(T, S, P, Q), scale)


def waves(c, chunks, nz=3):
    c.cover(derived.calc_wave_speed, derived.adjust_negative_n2, derived.calc_rossby_rd, derived.calc_coriolis)
    n2, h = c.array("n2", (nz, 1, 2), -1.0, 1.0, nan=True), c.array("h", (nz, 1, 2), 0.0, 1e3)
    co = {"z_l": 10.0 * np.arange(nz) + 5, "yh": [10.0], "xh": [0.0, 1.0]}
    N, H = da(n2, ("z_l", "yh", "xh"), co, attrs={"units": "s-2"}), da(h, ("z_l", "yh", "xh"), co)
    lat = da(c.array("lat", (1, 2), 1.0, 89.0), ("yh", "xh"))
    same(c, "adjusted", derived.adjust_negative_n2(N.chunk(chunks)), derived.adjust_negative_n2(N), 1e-5)
    a, b = derived.calc_wave_speed(N.chunk(chunks), H.chunk(chunks)), derived.calc_wave_speed(N, H)
    same(c, "speed", a, b, 1.0)
    lc = {k: v for k, v in chunks.items() if k != "z_l"}
    f, g = derived.calc_coriolis(lat.chunk(lc)), derived.calc_coriolis(lat)
    same(c, "coriolis", f, g, 1e-5)
    same(c, "radius", derived.calc_rossby_rd(a, f), derived.calc_rossby_rd(b, g), 1.0)


def thickness(c, chunks, fraction=False, limits=False):
    c.cover(derived.calc_dz)
    nz = 3
    zi = np.array([0.0, 5.0, 15.0, 40.0])
    Z, I = da((zi[1:] + zi[:-1]) / 2, ("z_l",), {"z_l": (zi[1:] + zi[:-1]) / 2}), da(zi, ("z_i",), {"z_i": zi})
    D = da(c.array("D", (2, 2), 0.0, 100.0, nan=True), ("yh", "xh"))
    kw = {"fraction": fraction}
    if limits:
        kw["bottom"] = c.real("bottom", 0.0, 60.0)
    same(c, "thickness", derived.calc_dz(Z, I, D.chunk(chunks), **kw), derived.calc_dz(Z, I, D, **kw), 1.0)


def vorticity(c, sym, chunks):
    c.cover(derived.calc_rel_vort, derived.calc_pv)
    ds, _, (py, px) = flow(c, 2, 2, sym, nt=2)
    kw = {"symmetric": True} if sym else {}
    a, b = derived.calc_rel_vort(ds.chunk(chunks), **kw), derived.calc_rel_vort(ds, **kw)
    same(c, "vorticity", a, b, 1e-5)
    n2 = da(c.array("n2", (2, 2, 2), -1e-3, 1e-3, nan=True), ("time", "yh", "xh"), {"yh": ds["yh"], "xh": ds["xh"]})
    f = da(c.array("f", (py, px), -1.5e-4, 1.5e-4), ("yq", "xq"), {"yq": ds["yq"], "xq": ds["xq"]})
    for u in ("m", "cm"):
        same(c, "potential vorticity " + u, derived.calc_pv(a, f.chunk({k: v for k, v in chunks.items() if k in f.dims}), n2.chunk({k: v for k, v in chunks.items() if k in n2.dims}), units=u, **kw), derived.calc_pv(b, f, n2, units=u, **kw), 1e-9 * (1e12 if u == "cm" else 1))


def series(c, n=24, nx=2, cal="standard", y0=1999, m0=1, nan=True):
    x = c.array("x", (n, nx), -10.0, 10.0, nan=nan)
    return da(x, ("time", "x"), {"time": months(cal, y0, m0, n), "x": 3.0 * np.arange(nx)}, name="v", attrs={"units": "m", "long_name": "ssh"})


def averages(c, what, chunks, ds=False, cal="standard", order=None):
    c.cover(util.annual_average, util.monthly_average, util.annual_cycle)
    n = 12 if what in ("annual", "monthly") else 24
    A = series(c, n=n, cal=cal)
    if order:
        A = A.transpose(*order)
    X = xr.Dataset({"v": A, "w": A.isel(x=0, drop=True) * 2.0}) if ds else A
    f = {"annual": util.annual_average, "monthly": util.monthly_average}.get(what) or (lambda q: util.annual_cycle(q, func=what))
    same(c, what, f(X.chunk(chunks)), f(X), 1.0)


def trends(c, what, chunks, nan=False, order=None):
    c.cover(trend.calc_linear_trend, trend.linear_detrend, trend.broadcast_trend, trend.seasonal_model)
    A = series(c, n=3 if nan else 8, nan=nan, cal="noleap", y0=1)
    if order:
        A = A.transpose(*order)
    f = {"trend": lambda q: trend.calc_linear_trend(q, time_units="yr"), "detrend": lambda q: trend.linear_detrend(q), "correct": lambda q: trend.linear_detrend(q, mode="correct"), "seasonal": lambda q: trend.seasonal_model(q, return_model=True),
         "dataset": lambda q: trend.linear_detrend(xr.Dataset({"v": q, "k": q.isel(time=0, drop=True)}))}[what]
    same(c, what, f(A.chunk(chunks)), f(A), 1.0, tol=1e-5)


def spread(c, chunks):
    c.cover(trend.broadcast_trend)
    s = da(c.array("s", (3,), -1.0, 1.0, nan=True), ("x",), {"x": [0.0, 1.0, 2.0]}, name="slope", attrs={"units": "m yr-1"})
    t = xr.DataArray(months("noleap", 3, 4, 4), dims=("time",))
    t = t.assign_coords(time=t)
    for z in (False, True):
        same(c, f"spread {z}", trend.broadcast_trend(s.chunk(chunks), t["time"], subtract_time_zero=z), trend.broadcast_trend(s, t["time"], subtract_time_zero=z), 1.0)


def gauges(c, chunks, order=("time", "yh", "xh"), masked=False):
    c.cover(momlevel.tidegauge.extract_tidegauge)
    A, _ = field(c, 2, 2, 2, order)
    la, lo = np.array([[8.0, 8.5], [15.0, 15.5]]), np.array([[-79.0, -70.0], [-78.0, -65.0]])
    A = A.assign_coords(geolat=(("yh", "xh"), la), geolon=(("yh", "xh"), lo))
    kw = {}
    if masked:
        kw["mask"] = da(np.array([[1.0, np.nan], [0.0, 1.0]]), ("yh", "xh"), {"yh": A["yh"], "xh": A["xh"]}, name="wet")
    km = {k: v.chunk({"yh": 1}) for k, v in kw.items()}
    a = run(c, SITES[:2], lambda p: momlevel.extract_tidegauge(A.chunk(chunks), csv=p, **km))
    b = run(c, SITES[:2], lambda p: momlevel.extract_tidegauge(A, csv=p, **kw))
    same(c, "series", a, b, 1.0)


def area(c, chunks, ny=2, nx=2):
    """the plausibility of the global area does not depend on the storage"""
    c.cover(util.validate_areacello)
    a = da(c.array("A", (ny, nx), 0.0, 2e14, nan=True), ("yh", "xh"))
    c.true("area", util.validate_areacello(a.chunk(chunks)) == util.validate_areacello(a))
    c.true("own reference", util.validate_areacello(a.chunk(chunks), reference=2e14, tolerance=0.25) == util.validate_areacello(a, reference=2e14, tolerance=0.25))


CH = {"time": 1, "xh": 1}


def cases(tier):
    q = [Case("local", steric, domain="local", chunks=CH), Case("global", steric, domain="global", chunks=CH), Case("local levels", steric, domain="local", chunks={"z_l": 1}), Case("global levels", steric, domain="global", chunks={"z_l": 1, "time": 2}), Case("local one chunk", steric, domain="local", chunks={}),
         Case("local strict", steric, domain="local", chunks=CH, strict=True), Case("global strict", steric, domain="global", chunks={"yh": 1, "xh": 1}, strict=True), Case("local any missing", steric, domain="local", chunks=CH, missing="free"), Case("local order", steric, domain="local", chunks={"xh": 1, "z_l": 1}, order=("x", "z", "y", "t")),
         Case("local Wright", steric, domain="local", chunks=CH, eosname="Wright"), Case("global Wright", steric, domain="global", chunks={"time": 1}, eosname="Wright", nz=1), Case("local annual", steric, domain="local", chunks={"time": 5}, annual=True, nz=1, nx=1), Case("global annual", steric, domain="global", chunks={"time": 6}, annual=True, nz=1, nx=1)]
    for v in ("thermosteric", "halosteric"):
        q += [Case(f"{v} {d} supplied", steric, domain=d, variant=v, chunks=CH, given=True) for d in ("local", "global")]
    for e in ("Wright", "linear"):
        q += [Case(f"{f} {e}", pointwise, what=f, chunks=CH, eosname=e) for f in ("rho", "alpha", "beta", "pdens", "n2", "angle", "ibh")]
    q += [Case(f"{f} by level", pointwise, what=f, chunks={"z_l": 2}, eosname="linear") for f in ("rho", "spice", "mass", "volume")]
    q += [Case("spice", pointwise, what="spice", chunks=CH), Case("mass", pointwise, what="mass", chunks=CH), Case("volume", pointwise, what="volume", chunks={"xh": 1}), Case("adjusted n2", pointwise, what="adjusted n2", chunks=CH, eosname="linear", first="z_l")]
    q += [Case("waves", waves, chunks={"xh": 1}), Case("waves by level", waves, chunks={"z_l": 2}), Case("thickness", thickness, chunks={"xh": 1}), Case("thickness limits", thickness, chunks={"yh": 1}, limits=True), Case("thickness fraction", thickness, chunks={"xh": 1, "yh": 1}, fraction=True)]
    q += [Case(f"vorticity symmetric={s}", vorticity, sym=s, chunks={"time": 1}) for s in (False, True)]
    q += [Case("vorticity in blocks", vorticity, sym=False, chunks={"xh": 1, "yh": 1, "xq": 2, "yq": 2})]
    for f in ("annual", "monthly", "mean", "min", "max", "std"):
        q += [Case(f"{f}", averages, what=f, chunks={"time": 5}), Case(f"{f} dataset", averages, what=f, chunks={"x": 1}, ds=True, cal="360_day"), Case(f"{f} order", averages, what=f, chunks={"x": 1, "time": 7}, order=("x", "time"))]
    for f in ("trend", "detrend", "correct", "seasonal", "dataset"):
        q += [Case(f"{f}", trends, what=f, chunks={"x": 1}), Case(f"{f} in time", trends, what=f, chunks={"time": 3}), Case(f"{f} order", trends, what=f, chunks={"x": 1}, order=("x", "time"))]
        if f != "seasonal":
            q.append(Case(f"{f} missing", trends, what=f, chunks={"x": 1}, nan=True))
    q += [Case(f"area {k}", area, chunks=k) for k in ({"yh": 1}, {"xh": 1}, {"yh": 1, "xh": 1}, {})]
    q += [Case("spread", spread, chunks={"x": 2}), Case("gauges", gauges, chunks={"time": 1}), Case("gauges in blocks", gauges, chunks={"yh": 1, "xh": 1}, order=("xh", "time", "yh")), Case("gauges mask", gauges, chunks={"time": 1}, masked=True)]
    return q
