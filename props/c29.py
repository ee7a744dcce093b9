"""C29: no function modifies what it is given"""
import copy
import sys
import warnings

import numpy as np
import pandas as pd
import xarray as xr
import momlevel
from momlevel import derived, dynamic, eos, reference, spice, tidegauge, trend, util

from symlev import symarray as SA
from symlev.num import Num
from .common import Case, Ocean, da, months, objs, rich
from .c05 import COVER
from .c20 import dataset as vort_dataset
from .c25 import ASSUMPTIONS, frames, tree  # noqa: F401
from . import c26


def grab(c, x):
    """everything observable about a value, elements by identity"""
    if isinstance(x, xr.Dataset):
        return ("ds", list(x.data_vars), list(x.coords), copy.deepcopy(dict(x.attrs)), copy.deepcopy(dict(x.encoding)), {k: grab(c, x[k]) for k in x.variables})
    if isinstance(x, xr.DataArray):
        v = x.variable
        return ("da", x.name, x.dims, sorted(map(str, x.coords)), copy.deepcopy(dict(v.attrs)), copy.deepcopy(dict(v.encoding)), grab(c, v.data if not isinstance(v, xr.IndexVariable) else np.array(v.values, dtype=object)),
                {str(k): grab(c, np.array(y.values, dtype=object) if isinstance(y.variable, xr.IndexVariable) else y.variable.data) for k, y in x.coords.items() if k != x.name}, {str(k): (copy.deepcopy(dict(y.attrs)), copy.deepcopy(dict(y.encoding))) for k, y in x.coords.items()})
    if isinstance(x, pd.DataFrame):
        return ("df", list(x.columns), list(x.index), list(x.index.names), list(x.columns.names), str(x.index.dtype), [str(t) for t in x.dtypes], dict(x.attrs), [grab(c, np.array(x[k].tolist(), dtype=object)) for k in x.columns])
    if isinstance(x, dict):
        return ("dict", list(x.items()))
    if isinstance(x, (list, tuple)):
        return ("seq", [grab(c, y) for y in x])
    if isinstance(x, SA.SymArray):
        return ("array", x.shape, str(x.dtype), [y for y in x.a.ravel()])
    if isinstance(x, np.ndarray):
        return ("array", x.shape, str(x.dtype), x.ravel().tolist())
    return ("value", x)


def diff(c, where, a, b, out):
    """collect conditions under which b equals a"""
    if isinstance(a, (tuple, list)):
        if type(a) is not type(b) or len(a) != len(b):
            out.append((where, False))
            return
        for i, (p, q) in enumerate(zip(a, b)):
            diff(c, where, p, q, out)
        return
    if isinstance(a, dict):
        if not isinstance(b, dict) or list(a) != list(b):
            out.append((where, False))
            return
        for k in a:
            diff(c, f"{where}.{k}", a[k], b[k], out)
        return
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        out.append((where, np.array_equal(a, b)))
        return
    if isinstance(a, (Num, float)) and not isinstance(a, bool) and isinstance(b, (Num, float)):
        out.append((where, (a, b)))
        return
    if a is not b and not bool(a == b):
        out.append((where, False))


def dress(x):
    """row and column coordinates, and attributes on every coordinate"""
    if isinstance(x, (xr.DataArray, xr.Dataset)):
        for k in ("yh", "xh"):
            if k in x.dims and k not in x.coords:
                x = x.assign_coords({k: 0.5 + np.arange(x.sizes[k])})
        if "yh" in x.dims and "xh" in x.dims and "geolat" not in x.coords and x.name != "geolat" if isinstance(x, xr.DataArray) else False:
            x = x.assign_coords(geolat=(("yh", "xh"), 1.0 + np.arange(x.sizes["yh"] * x.sizes["xh"]).reshape(x.sizes["yh"], x.sizes["xh"])))
        for k in x.coords:
            for q, w in rich(str(k)).items():
                x[k].attrs.setdefault(q, w)
            x[k].encoding.setdefault("dtype", "float64")
            x[k].encoding.setdefault("_FillValue", None)
        x.encoding.setdefault("source", "somewhere.nc")
        x.attrs.setdefault("history", "made")
        for v in [x] if isinstance(x, xr.DataArray) else [x[k] for k in x.data_vars]:
            for q, w in rich("v").items():
                if q != "units":
                    v.attrs.setdefault(q, w)
            for k, w in (("dtype", "float32"), ("_FillValue", 1e20), ("chunksizes", (1,)), ("preferred_chunks", {"a": 1}), ("zlib", True)):
                v.encoding.setdefault(k, w)
    return x


def bare(x):
    """the same array without a name, attributes or encoding"""
    if isinstance(x, xr.DataArray):
        x = x.copy().rename(None)
        for v in [x] + [x.coords[k] for k in x.coords]:
            v.attrs, v.encoding = {}, {}
    return x


def unchanged(c, label, fn, *args, **kw):
    """call, then compare every argument with what it was; as given, and without names and attributes"""
    plain = [bare(a) for a in args], {k: bare(v) for k, v in kw.items()}
    out = once(c, label, fn, [dress(a) for a in args], {k: dress(v) for k, v in kw.items()})
    if any(isinstance(a, xr.DataArray) for a in list(args) + list(kw.values())):
        try:
            once(c, f"{label}, bare", fn, *plain)
        except (ValueError, TypeError, KeyError, AttributeError, AssertionError):
            pass        # some functions need the names
    return out


def tried(c, label, fn, *args, **kw):
    """a call that may be refused leaves its arguments alone as well"""
    def go(*a, **k):
        return c.attempt(lambda: fn(*a, **k))[1]
    e = once(c, label, go, [dress(a) for a in args], {k: dress(v) for k, v in kw.items()})
    return e is not None


def once(c, label, fn, args, kw):
    before = [grab(c, a) for a in args] + [grab(c, v) for v in kw.values()]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = fn(*args, **kw)
    after = [grab(c, a) for a in args] + [grab(c, v) for v in kw.values()]
    names = [f"argument {i}" for i in range(len(args))] + [f"argument {k}" for k in kw]
    for nm, a, b in zip(names, before, after):
        bad = []
        diff(c, nm, a, b, bad)
        c.true(f"{label}: {nm} unchanged", all(x is not False for _, x in bad))
        pairs = [x for _, x in bad if isinstance(x, tuple)]
        if pairs:
            c.compare(f"{label}: {nm} values", objs((len(pairs),), lambda i: pairs[i][1]), objs((len(pairs),), lambda i: pairs[i][0]), scale=1e-9)
    return out


def full(o):
    """attributes and encodings on everything"""
    ds = o.ds
    ds.attrs["title"] = "run 1"
    for k in ds.variables:
        ds[k].attrs.update({"note": f"about {k}"})
        ds[k].encoding["chunks"] = (1,)
    for k in ("thetao", "so", "volcello"):
        ds[k].attrs["units"] = "1"
    return ds


def stericc(c, domain, which, annual=False, given=False, dtype=None, pmap=False, **ocean):
    """sea level calculation: input dataset, reference dataset and name dictionaries"""
    c.cover(*COVER)
    o = Ocean(c, 12 if annual else 2, 1, 1, 1 if annual else 2, missing="shared", **ocean)
    ds = full(o)
    if domain == "global":
        c.assume(c.not_(c.isnan(o.V[0, 0, 0, 0])))
        c.assume(c.not_(c.isnan(o.A[0, 0])))
    kw = {"strict": False, "equation_of_state": "linear", "domain": domain, "variant": which, "annual": annual, "coord_names": {"t": "time", "z": "z_l"}, "varname_map": {"thetao": "thetao"}}
    if given:
        kw["reference"] = unchanged(c, "reference state", reference.setup_reference_state, ds, eos="linear", coord_names={"t": "time"})
        kw["reference"].attrs["made"] = "by hand"
    if dtype:
        kw["dtype"] = dtype
    if pmap:
        kw["patm"] = da(c.array("patm", (1, 2), 9e4, 1.1e5), ("yh", "xh"), {k: ds[k] for k in ("yh", "xh") if k in ds.coords}, name="patm", attrs={"units": "Pa"})
    unchanged(c, "sea level", momlevel.steric, ds, **kw)
    fn = {"thermosteric": momlevel.thermosteric, "halosteric": momlevel.halosteric}.get(which)
    if fn:
        kw.pop("variant")
        unchanged(c, which, fn, ds, **kw)


def refusals(c):
    """calls with incomplete or unknown names, options and variables"""
    c.cover(momlevel.steric, derived.calc_rel_vort, derived.calc_pv, derived.calc_dz, util.annual_average, util.annual_cycle, util.validate_dataset, util.default_coords, trend.linear_detrend, trend.calc_linear_trend, trend.broadcast_trend, trend.deseason)
    ds, _, (py, px) = vort_dataset(c, 2, 2, False)
    VM = {"u": "uo", "v": "vo", "dx": "dxCu", "dy": "dyCv", "area": "areacello_bu"}
    CD = {"xcenter": "xh", "ycenter": "yh", "xcorner": "xq", "ycorner": "yq"}
    for k in VM:
        tried(c, f"vorticity, {k} not mapped", derived.calc_rel_vort, ds, varname_map={q: v for q, v in VM.items() if q != k})
        tried(c, f"vorticity, {k} not there", derived.calc_rel_vort, ds.drop_vars(VM[k]), varname_map=dict(VM))
        tried(c, f"vorticity, only {k} mapped", derived.calc_rel_vort, ds, varname_map={k: VM[k]})
    tried(c, "vorticity, empty mapping", derived.calc_rel_vort, ds, varname_map={}, coord_dict={})
    for k in CD:
        tried(c, f"vorticity, {k} not mapped", derived.calc_rel_vort, ds, coord_dict={q: v for q, v in CD.items() if q != k})
        tried(c, f"grid, {k} not mapped", util.get_xgcm_grid, ds, coord_dict={q: v for q, v in CD.items() if q != k})
        tried(c, f"grid, only {k} mapped", util.get_xgcm_grid, ds, coord_dict={k: CD[k]})
    f = da(c.array("f", (py, px), -1e-4, 1e-4), ("yq", "xq"), {"yq": ds.yq, "xq": ds.xq}, name="f", attrs={"units": "s-1"})
    n2 = da(c.array("n2", (2, 2), -1e-4, 1e-3, nan=True), ("yh", "xh"), {"yh": ds.yh, "xh": ds.xh}, name="n2", attrs={"units": "s-2"})
    for u in ("km", ""):
        tried(c, f"potential vorticity units {u!r}", derived.calc_pv, f, f, n2, units=u, coord_dict=dict(CD))
    tried(c, "potential vorticity, partial names", derived.calc_pv, f, f, n2, coord_dict={"xcenter": "xh"})
    o = Ocean(c, 2, 1, 1, 2, missing=None)
    d = full(o)
    kw = {"strict": False, "equation_of_state": "linear"}
    for lab, k in (("variant", {"variant": "total"}), ("law", {"equation_of_state": "eos80"}), ("names", {"coord_names": {"z": "lev"}}), ("all names", {"coord_names": {"t": "tt", "z": "lev", "zbounds": "b"}}), ("variables", {"varname_map": {"nothing": "thetao"}}), ("area", {"strict": True}), ("reference", {"reference": {"thetao": 1.0}})):
        tried(c, f"sea level, unknown {lab}", momlevel.steric, d, **{"coord_names": {"x": "xh"}, "varname_map": {"thetao": "thetao"}, **kw, **k})
    for v in ("thetao", "so", "volcello", "areacello", "deptho", "z_i"):
        for dom in ("local", "global"):
            tried(c, f"sea level {dom} without {v}", momlevel.steric, d.drop_vars(v), domain=dom, coord_names={}, varname_map={}, **kw)
        tried(c, f"sea level, reference without {v}", momlevel.steric, d, reference=d.isel(time=0, drop=True).drop_vars(v), coord_names={}, **kw)
    for v in (["tos"], ["tos", "sos"], ["deptho"], []):
        for ref in (False, True):
            tried(c, f"dataset {v} {ref}", util.validate_dataset, d, reference=ref, strict=False, additional_vars=list(v))
    for k in ({}, {"z": "lev"}, {"t": "tt"}, {"zbounds": "b"}, {"x": "lon"}):
        tried(c, f"names {k}", util.default_coords, dict(k))
    A = series(c, 7, None)
    for nm, g in (("annual", util.annual_average), ("monthly", util.monthly_average), ("cycle", util.annual_cycle)):
        tried(c, f"{nm} of seven months", g, A)
        tried(c, f"{nm} without dates", g, A.drop_vars("time"))
        tried(c, f"{nm} other name", g, A, tcoord="t")
    tried(c, "unknown statistic", util.annual_cycle, A, func="median")
    tried(c, "unknown mode", trend.linear_detrend, A, mode="add")
    tried(c, "unknown mode of a dataset", trend.linear_detrend, xr.Dataset({"v": A}), mode="add")
    tried(c, "unknown order", trend.linear_detrend, A, order=2)
    tried(c, "unknown time unit", trend.calc_linear_trend, A, time_units="century")
    for u in ("m", "m yr-1 s-1", "m century-1", ""):
        tried(c, f"slope in {u!r}", trend.broadcast_trend, da(c.array("s" + str(len(u)), (1,), 0.0, 1.0), ("x",), {"x": [3.0]}, name="s", attrs={"units": u}), A["time"])
    tried(c, "unknown output", trend.deseason, A, output_format="all")
    tried(c, "no such axis", trend.deseason, A, tdim="t")
    zl, zi = np.array([5.0, 20.0]), np.array([0.0, 10.0, 30.0])
    tried(c, "negative depth", derived.calc_dz, da(zl, ("z_l",), {"z_l": zl}, name="z_l"), da(zi, ("z_i",), {"z_i": zi}, name="z_i"), da(np.array([[-5.0, np.nan]]), ("yh", "xh"), name="deptho"))
    tried(c, "negative levels", derived.calc_dz, da(-zl, ("z_l",), {"z_l": -zl}, name="z_l"), da(-zi, ("z_i",), {"z_i": -zi}, name="z_i"), da(np.array([[5.0, np.nan]]), ("yh", "xh"), name="deptho"))


def integers(c):
    """whole-number arrays, lists and scalars"""
    c.cover(eos.linear.density, eos.wright.density, spice.flament.spice, util.standard_grid_cell_area, derived.calc_rho, derived.calc_spice)
    t, s, p = np.array([1, 2, 3]), np.array([30, 35, 40]), np.array([0, 10000, 20000])
    for e in (eos.linear, eos.wright):
        for nm in ("density", "drho_dtemp", "drho_dsal", "alpha", "beta"):
            unchanged(c, f"{e.__name__} {nm}", getattr(e, nm), t, s, p)
    unchanged(c, "spice kernel", spice.flament.spice, t, s)
    T, S, P = (da(v, ("x",), {"x": [0, 1, 2]}, name=n) for n, v in (("T", t), ("S", s), ("P", p)))
    for e in ("Wright", "linear"):
        for nm in ("calc_rho", "calc_alpha", "calc_beta"):
            unchanged(c, f"{nm} {e}", getattr(derived, nm), T, S, P, eos=e)
    unchanged(c, "calc_spice", derived.calc_spice, T, S)
    x = c.array("x", (2,), 0.0, 1.0)
    for attrs in (["chunks"], []):
        lst = list(attrs)
        d = xr.Dataset({"a": (("i",), x)}, coords={"i": [0.0, 1.0]}, attrs={"t": 1})
        util.reset_encoding(d, attrs=lst)
        c.true(f"list of encodings {attrs}", lst == attrs)


def repaired(c):
    """stratification that needs repair, every element"""
    c.cover(derived.adjust_negative_n2, derived.calc_wave_speed)
    z = np.array([5.0, 20.0, 60.0])
    n2 = da(c.array("n2", (3, 2), -1e-4, 1e-3, nan=True), ("z_l", "x"), {"z_l": z}, name="n2", attrs={"units": "s-2"})
    dz = da(c.array("dz", (3, 2), 0.0, 100.0, nan=True), ("z_l", "x"), {"z_l": z}, name="dz", attrs={"units": "m"})
    unchanged(c, "adjust_negative_n2", derived.adjust_negative_n2, n2)
    unchanged(c, "calc_wave_speed", derived.calc_wave_speed, n2, dz)
    n3 = n2.rename(z_l="lev")
    unchanged(c, "adjust_negative_n2 other name", derived.adjust_negative_n2, n3, zcoord="lev")


def density(c, eosname):
    """density family"""
    c.cover(derived.calc_rho, derived.calc_alpha, derived.calc_beta, derived.calc_pdens, derived.calc_masso, derived.calc_volo, derived.calc_spice, dynamic.inverse_barometer)
    o = Ocean(c, 2, 2, 1, 1, missing="free")
    ds = full(o)
    T, S, V = ds["thetao"], ds["so"], ds["volcello"]
    p = ds["z_l"] * 1e4
    p.attrs["units"] = "Pa"
    for nm in ("calc_rho", "calc_alpha", "calc_beta"):
        r = unchanged(c, nm, getattr(derived, nm), T, S, p, eos=eosname)
        if nm == "calc_rho":
            m = unchanged(c, "calc_masso", derived.calc_masso, r, V)
            v = unchanged(c, "calc_volo", derived.calc_volo, V.isel(time=0))
            unchanged(c, "calc_rhoga", derived.calc_rhoga, m, v)
    unchanged(c, "calc_pdens", derived.calc_pdens, T, S, level=1000.0, eos=eosname)
    unchanged(c, "calc_spice", derived.calc_spice, T, S)
    unchanged(c, "inverse_barometer", dynamic.inverse_barometer, T.isel(z_l=0, drop=True), S.isel(z_l=0, drop=True), da(c.array("ps", (2, 1, 1), 9e4, 1.1e5, nan=True), ("time", "yh", "xh")), equation_of_state=eosname)
    m = getattr(eos, eosname.lower())
    t, s, q = (c.array(k, (2,), a, b, nan=True) for k, a, b in (("t", -2, 30), ("s", 5, 40), ("q", 0, 1e7)))
    for nm in ("density", "drho_dtemp", "drho_dsal", "alpha", "beta"):
        unchanged(c, nm, getattr(m, nm), t, s, q)
    unchanged(c, "spice kernel", spice.flament.spice, t, s)


def column(c):
    """thickness, stratification, wave speed"""
    c.cover(derived.calc_dz, derived.calc_n2, derived.adjust_negative_n2, derived.calc_wave_speed, derived.calc_rossby_rd, derived.calc_coriolis, derived.calc_stability_angle)
    z = np.array([5.0, 20.0, 60.0])
    zi = np.array([0.0, 10.0, 35.0, 100.0])
    lev, inter = da(z, ("z_l",), {"z_l": z}, name="z_l", attrs={"units": "m"}), da(zi, ("z_i",), {"z_i": zi}, name="z_i", attrs={"units": "m"})
    dep = da(c.array("depth", (1, 1), 0.0, 120.0, nan=True), ("yh", "xh"), name="deptho", attrs={"units": "m"})
    dz = unchanged(c, "calc_dz", derived.calc_dz, lev, inter, dep)
    unchanged(c, "calc_dz options", derived.calc_dz, lev, inter, dep, bottom=50.0, fraction=True)
    n2 = da(c.array("n2", (3, 1, 1), -1e-4, 1e-3, nan=True), ("z_l", "yh", "xh"), {"z_l": z}, name="n2", attrs={"units": "s-2"})
    unchanged(c, "adjust_negative_n2", derived.adjust_negative_n2, n2)
    pos = da(c.array("n2p", (3, 1, 1), 1e-9, 1e-3, nan=True), ("z_l", "yh", "xh"), {"z_l": z}, name="n2", attrs={"units": "s-2"})
    dzz = da(c.array("dz", (3, 1, 1), 0.0, 100.0), ("z_l", "yh", "xh"), {"z_l": z}, name="dz")
    w = unchanged(c, "calc_wave_speed", derived.calc_wave_speed, pos, dzz)
    lat = da(c.array("lat", (1, 1), -89.0, 89.0), ("yh", "xh"), name="geolat", attrs={"units": "degrees"})
    f = unchanged(c, "calc_coriolis", derived.calc_coriolis, lat)
    unchanged(c, "calc_rossby_rd", derived.calc_rossby_rd, w, f)
    T, S = (da(c.array(k, (3, 1, 1), a, b, nan=True), ("z_l", "yh", "xh"), {"z_l": z}, name=k, attrs={"units": "1"}) for k, a, b in (("thetao", 0, 30), ("so", 5, 40)))
    unchanged(c, "calc_n2", derived.calc_n2, T, S, eos="linear")
    unchanged(c, "calc_stability_angle", derived.calc_stability_angle, T, S, lev * 1e4, eos="linear")


def negative(c):
    """stratification with the adjustment switched on"""
    c.cover(derived.calc_n2, derived.adjust_negative_n2)
    z = np.array([5.0, 20.0, 60.0])
    T, S = (da(c.array(k, (3,), a, b), ("z_l",), {"z_l": z}, name=k, attrs={"units": "1"}) for k, a, b in (("thetao", 0, 30), ("so", 5, 40)))
    unchanged(c, "calc_n2", derived.calc_n2, T, S, eos="linear", adjust_negative=True)


def vorticity(c, sym):
    c.cover(derived.calc_rel_vort, derived.calc_pv, util.get_xgcm_grid)
    ds, _, (py, px) = vort_dataset(c, 2, 2, sym)
    ds.attrs["title"] = "kept"
    for k in ds.variables:
        ds[k].attrs["note"] = k
    z = unchanged(c, "calc_rel_vort", derived.calc_rel_vort, ds, symmetric=sym, coord_dict={"xcenter": "xh", "ycenter": "yh", "xcorner": "xq", "ycorner": "yq"}, varname_map={"u": "uo", "v": "vo", "dx": "dxCu", "dy": "dyCv", "area": "areacello_bu"})
    unchanged(c, "grid", util.get_xgcm_grid, ds, symmetric=sym)
    f = da(c.array("f", (py, px), -1e-4, 1e-4), ("yq", "xq"), {"yq": ds.yq, "xq": ds.xq}, name="f", attrs={"units": "s-1"})
    n2 = da(c.array("n2", (2, 2), -1e-4, 1e-3, nan=True), ("yh", "xh"), {"yh": ds.yh, "xh": ds.xh}, name="n2", attrs={"units": "s-2"})
    unchanged(c, "calc_pv", derived.calc_pv, z, f, n2, symmetric=sym, coord_dict={"xcenter": "xh", "ycenter": "yh", "xcorner": "xq", "ycorner": "yq"})


def series(c, n, kind):
    x = c.array("x", (n, 1), -10.0, 10.0, nan=kind == "nan")
    A = da(x, ("time", "x"), {"time": months("standard", 2000, 1, n), "x": [3.0]}, name="v", attrs={"units": "m", "note": "n"})
    A.encoding["chunks"] = (1, 1)
    A["time"].attrs["axis"] = "T"
    return A


def averages(c, ds):
    """averaging and climatologies of arrays and datasets"""
    c.cover(util.annual_average, util.monthly_average, util.annual_cycle, util.alphabetize_dataset)
    A = series(c, 24, "nan")
    if ds:
        t0 = np.array(months("standard", 2000, 1, 24), dtype=object)
        A = xr.Dataset({"v": A, "average_T1": (("time",), t0), "average_T2": (("time",), t0), "b": (("time",), c.array("y", (24,), 0.0, 1.0))}, attrs={"title": "t"})
        unchanged(c, "alphabetize", util.alphabetize_dataset, A)
    unchanged(c, "annual_average", util.annual_average, A)
    unchanged(c, "monthly_average", util.monthly_average, A)
    for f in ("mean", "max", "std"):
        unchanged(c, f"annual_cycle {f}", util.annual_cycle, A, func=f)


def trends(c, ds, numeric=False):
    c.cover(trend.calc_linear_trend, trend.linear_detrend, trend.broadcast_trend, trend.time_conversion_factor)
    A = series(c, 4, None)
    if numeric:
        A = A.assign_coords(time=[0.0, 1.0, 2.5, 4.0])
        A["time"].attrs["axis"] = "T"
    r = unchanged(c, "calc_linear_trend", trend.calc_linear_trend, A, **({} if numeric else {"time_units": "yr"}))
    if not numeric:
        unchanged(c, "broadcast_trend", trend.broadcast_trend, r["v_slope"], A["time"])
        unchanged(c, "broadcast_trend from zero", trend.broadcast_trend, r["v_slope"], A["time"], subtract_time_zero=True)
    B = xr.Dataset({"v": A, "s": (("x2",), c.array("s", (2,), 0.0, 1.0))}, attrs={"title": "t"}) if ds else A
    for m in ("remove", "correct"):
        unchanged(c, f"linear_detrend {m}", trend.linear_detrend, B, mode=m)
    unchanged(c, "old linear_detrend", util.linear_detrend, B)


def seasons(c):
    c.cover(trend.seasonal_model, trend.deseason, trend.seasonal_cycle_model)
    n = 14
    x = c.array("x", (n, 1), -10.0, 10.0)
    A = da(x, ("time", "x"), {"time": months("noleap", 3, 1, n), "x": [3.0]}, name="v", attrs={"units": "m", "note": "n"})
    A["time"].attrs["axis"] = "T"
    for rm in (False, True):
        unchanged(c, f"seasonal_model {rm}", trend.seasonal_model, A, return_model=rm)
    for f in ("residuals", "model", "coeff"):
        unchanged(c, f"deseason {f}", trend.deseason, A, output_format=f)


def points(c):
    """tables; indexed by position, by unnamed or by named labels, with and without a mask"""
    c.cover(util.geolocate_points)
    for nm, ix in (("position", None), ("labels", ["p", "q"]), ("named", pd.Index([4, 9], name="cell")), ("unnamed levels", pd.MultiIndex.from_tuples([(1, 2), (1, 3)]))):
        for mask in (None, [1.0, 1.0], [1, 0]):
            model, locs, *_ = frames(c, 2, 1, mask=mask)
            model.index = pd.RangeIndex(2) if ix is None else ix
            model.attrs["title"] = "t"
            locs.attrs["title"] = "s"
            if nm == "position":
                locs = locs.reset_index(drop=True)
            for kw in ({}, {"threshold": 500.0}, {"apply_mask": False}):
                with tree(c):
                    unchanged(c, f"geolocate_points {nm}, mask {mask} {kw}", util.geolocate_points, model, locs, **kw)
    model, locs, *_ = frames(c, 2, 1, mask=[1.0, 1.0])
    with tree(c):
        unchanged(c, "geolocate_points", util.geolocate_points, model, locs)
        unchanged(c, "geolocate_points threshold", util.geolocate_points, model, locs, threshold=500.0, disable_warning=False)


def gauges(c):
    c.cover(tidegauge.extract_tidegauge)
    A, e = c26.field(c, 2, 2, 2, ("time", "yh", "xh"))
    M = da(np.array([[1.0, np.nan], [0.0, 1.0]]), ("yh", "xh"), {"yh": A["yh"], "xh": A["xh"]}, name="wet", attrs={"long_name": "wet"})
    gx, gy = xr.broadcast(A["xh"], A["yh"])
    gx, gy = gx.transpose("yh", "xh").rename("geolon"), gy.transpose("yh", "xh").rename("geolat")
    c26.run(c, c26.SITES, lambda p: unchanged(c, "extract_tidegauge", tidegauge.extract_tidegauge, A, xcoord=gx, ycoord=gy, mask=M, csv=p))
    c26.run(c, c26.SITES, lambda p: unchanged(c, "extract_tidegauge by name", tidegauge.extract_tidegauge, A, xcoord="xh", ycoord="yh", csv=p))
    unchanged(c, "tile", util.tile_nominal_coords, A["xh"], A["yh"], warn=False)
    for nm, a, m in (("unnamed", A.rename(None), M.rename(None)), ("mask", A, M.rename("mask")), ("named as a coordinate", A.rename("geolon"), M.rename("xh2"))):
        c26.run(c, c26.SITES, lambda p: unchanged(c, f"extract_tidegauge {nm}", tidegauge.extract_tidegauge, a, xcoord=gx, ycoord=gy, mask=m, csv=p))
        c26.run(c, c26.SITES, lambda p: unchanged(c, f"extract_tidegauge {nm} by name", tidegauge.extract_tidegauge, a, xcoord="xh", ycoord="yh", mask=m, csv=p, threshold=1e6))


def checks(c):
    c.cover(util.validate_dataset, util.validate_areacello, util.validate_tidegauge_data, util.standard_grid_cell_area, util.default_coords)
    o = Ocean(c, 2, 1, 1, 2, missing="free")
    ds = full(o)
    unchanged(c, "validate_dataset", util.validate_dataset, ds, strict=False, additional_vars=["deptho"])
    unchanged(c, "validate_areacello", util.validate_areacello, ds["areacello"])
    unchanged(c, "default_coords", util.default_coords, {"t": "Time"})
    la, lo = np.array([0.0, 1.0, 2.0]), np.array([0.0, 2.0])
    for kind, a, b in (("arrays", la, lo), ("labelled", da(la, ("lat",), {"lat": la}), da(lo, ("lon",), {"lon": lo})), ("lists", list(la), list(lo))):
        unchanged(c, f"standard_grid_cell_area {kind}", util.standard_grid_cell_area, a, b)


def cases(tier):
    q = [Case(f"{d} {w}", stericc, domain=d, which=w) for d in ("local", "global") for w in ("steric", "thermosteric", "halosteric")]
    q += [Case(f"{d} given reference", stericc, domain=d, which="steric", given=True) for d in ("local", "global")] + [Case("annual local", stericc, domain="local", which="steric", annual=True), Case("annual global given", stericc, domain="global", which="thermosteric", annual=True, given=True), Case("float64", stericc, domain="local", which="steric", dtype="float64")]
    q += [Case(f"{d} {w} labelled, mixed orders", stericc, domain=d, which=w, extra=True, flip=True) for d in ("local", "global") for w in ("steric", "thermosteric")] + [Case("pressure map", stericc, domain="local", which="halosteric", pmap=True, extra=True), Case("given, labelled", stericc, domain="local", which="halosteric", given=True, extra=True, flip=True)]
    q += [Case("whole numbers", integers), Case("repair", repaired), Case("refused calls", refusals)]
    q += [Case(f"density {e}", density, eosname=e) for e in ("Wright", "linear")] + [Case("column", column), Case("negative stratification", negative)] + [Case(f"vorticity symmetric={s}", vorticity, sym=s) for s in (False, True)]
    q += [Case(f"averages dataset={d}", averages, ds=d) for d in (False, True)] + [Case(f"trends dataset={d}", trends, ds=d) for d in (False, True)] + [Case("trends numeric", trends, ds=False, numeric=True), Case("seasons", seasons), Case("tables", points), Case("gauges", gauges), Case("checks", checks)]
    return q
