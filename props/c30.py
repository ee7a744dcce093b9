"""C30: results carry their names, units, storage type and coordinates; dataset utilities keep the data"""
import contextlib
import io
import warnings

import numpy as np
import xarray as xr
import momlevel
from momlevel import derived, dynamic, trend, util

from .common import Case, Ocean, da, labels, months, objs, rich
from .c05 import COVER
from .c06 import wet


def dressed(c, nt, nz, ny, nx, extra=False, few=None, **kw):
    o = Ocean(c, nt, nz, ny, nx, missing="shared", extra=extra, **kw)
    ds = o.ds if extra else o.ds.assign_coords(yh=labels(ny), xh=labels(nx, 20.0))
    if extra:
        ds = ds.assign_coords(month=(("time",), np.arange(nt) + 1), layer=(("z_l",), 100.0 + np.arange(nz)), tlat=(("time", "yh"), np.arange(nt * ny).reshape(nt, ny) + 0.5))
    for i, k in enumerate(sorted(ds.coords)):
        if few is None:
            ds[k].attrs.update(rich(k))
        else:           # one attribute at most
            ds[k].attrs = {"note": f"n {k}"} if (i + few) % 3 else {}
    return o, ds


def kept(c, label, out, ds, coords):
    """coordinates of the input, with their attributes, on the output"""
    for k in coords:
        if k not in out.coords:
            c.true(f"{label}: coordinate {k} present", False)
            continue
        c.true(f"{label}: attributes of {k}", dict(out[k].attrs) == dict(ds[k].attrs))
        if k == "time":
            c.true(f"{label}: times", [str(v) for v in out[k].values] == [str(v) for v in ds[k].values])
        else:
            a, b = c.elems(np.array(out[k].values, dtype=object) if out[k].variable._data.__class__.__name__ == "PandasIndexingAdapter" else out[k]), c.elems(np.array(ds[k].values, dtype=object))
            c.compare(f"{label}: values of {k}", a, b, scale=1.0)


def sealevel(c, domain, which, dtype=None, annual=False, extra=False, given=False, eosname="linear", **ocean):
    c.cover(*COVER)
    o, ds = dressed(c, 12 if annual else 2, 1, 1, 2, extra=extra, **ocean)
    if domain == "global":
        wet(c, o)
    kw = {} if dtype is None else {"dtype": dtype}
    f = {"steric": momlevel.steric, "thermosteric": momlevel.thermosteric, "halosteric": momlevel.halosteric}[which]
    if given:
        kw["reference"] = momlevel.reference.setup_reference_state(ds, eos=eosname)
    said = io.StringIO()
    with contextlib.redirect_stdout(said):
        out, ref = f(ds, domain=domain, strict=False, equation_of_state=eosname, annual=annual, **kw)
    if given:
        c.true("the reference used is the one given", set(ref.variables) == set(kw["reference"].variables))
    c.true("silent", said.getvalue() == "")
    want = {"local": {which, "delta_rho"}, "global": {which, "reference_height"}}[domain]
    c.true("variables", set(out.data_vars) == want)
    c.true("reference is a dataset without time", isinstance(ref, xr.Dataset) and "time" not in ref.dims and "time" not in ref.coords)
    c.true("units", out[which].attrs.get("units") == "m" and which in out[which].attrs.get("long_name", "").lower())
    if domain == "local":
        c.true("units of the density change", out["delta_rho"].attrs.get("units") == "kg m-3")
    else:
        c.true("units of the reference height", out["reference_height"].attrs.get("units") == "m")
    for v in want:
        e = out[v].encoding.get("dtype")
        c.true(f"storage type of {v}", e is not None and str(np.dtype(e)) == (dtype or "float32"))
    space = ("yh", "xh", "z_l") + (("geolat", "basin", "layer") if extra else ())
    if domain == "local":
        kept(c, "sea level", out, ds, space)
        c.true("time first", out[which].dims[0] == "time" and out["delta_rho"].dims[0] == "time")
        for v in want:
            c.true(f"coordinates of {v}", set(("yh", "xh")) <= set(out[v].coords))
            if extra and not annual:
                c.true(f"auxiliary coordinates of {v}", {"geolat", "basin", "month", "tlat"} <= set(out[v].coords))
    else:
        c.true("no space left", set(out[which].dims) == {"time"})
    if not annual:
        kept(c, "sea level in time", out, ds, ("time",) + (("month",) if extra else ()) + (("tlat",) if extra and domain == "local" else ()))
    else:
        c.true("one year", out[which].sizes["time"] == 1 and dict(out["time"].attrs) == dict(ds["time"].attrs))


def units(c):
    """units of every derived quantity, coordinates of the input kept"""
    c.cover(derived.calc_rho, derived.calc_alpha, derived.calc_beta, derived.calc_pdens, derived.calc_spice, derived.calc_masso, derived.calc_volo, derived.calc_rhoga, derived.calc_coriolis, derived.calc_rossby_rd)
    o, ds = dressed(c, 2, 3, 1, 1)
    T, S, V = ds["thetao"], ds["so"], ds["volcello"]
    p = ds["z_l"] * 1e4
    d4 = ("time", "z_l", "yh", "xh")
    for nm, r, u in (("density", derived.calc_rho(T, S, p), "kg m-3"), ("expansion", derived.calc_alpha(T, S, p), "degC-1"), ("contraction", derived.calc_beta(T, S, p), "PSU-1"), ("potential density", derived.calc_pdens(T, S), "kg m-3"), ("spice", derived.calc_spice(T, S), "1")):
        c.true(f"{nm}: units", r.attrs.get("units") == u)
        kept(c, nm, r, ds, d4)
    for e in ("Wright", "linear"):
        c.true(f"the equation of state is recorded ({e})", e in derived.calc_rho(T, S, p, eos=e).attrs.get("comment", ""))
    m, v = derived.calc_masso(derived.calc_rho(T, S, p), V), derived.calc_volo(V.isel(time=0))
    c.true("mass", m.attrs.get("units") == "kg" and tuple(m.dims) == ("time",))
    c.true("volume", v.attrs.get("units") == "m3" and tuple(v.dims) == ())
    c.true("mean density", derived.calc_rhoga(m, v).attrs.get("units") == "kg m-3")
    n2 = derived.calc_n2(T, S, eos="linear")
    c.true("stratification", n2.attrs.get("units") == "s-2")
    lat = da(c.array("lat", (1, 1), 5.0, 89.0), ("yh", "xh"))
    f = derived.calc_coriolis(lat)
    c.true("Coriolis", f.attrs.get("units") == "s-1")
    w = da(c.array("c1", (1, 1), 0.1, 5.0), ("yh", "xh"))
    c.true("Rossby radius", derived.calc_rossby_rd(w, f).attrs.get("units") == "m")


def more_units(c, eosname):
    """units and coordinates of the remaining diagnostics; the coordinates' attributes survive"""
    c.cover(derived.calc_n2, derived.calc_stability_angle, derived.calc_wave_speed, derived.adjust_negative_n2, derived.calc_coriolis, derived.calc_rossby_rd, dynamic.inverse_barometer)
    z = np.array([5.0, 20.0, 60.0])
    T, S = (da(c.array(k, (3, 1, 2), a, b, nan=True), ("z_l", "yh", "xh"), {"z_l": z, "yh": [10.0], "xh": [20.0, 30.0], "geolat": (("yh", "xh"), [[1.0, 2.0]])}, name=k, attrs={"units": "u", "standard_name": "s"}) for k, a, b in (("thetao", 5, 30), ("so", 5, 40)))
    for a in (T, S):
        for k in a.coords:
            a[k].attrs.update({"axis": k[0].upper(), "note": f"n {k}"})
    lev = T["z_l"]
    tos, sos = T.isel(z_l=0, drop=True), S.isel(z_l=0, drop=True)
    ps = da(c.array("ps", (1, 2), 9e4, 1.1e5, nan=True), ("yh", "xh"), {"yh": T["yh"], "xh": T["xh"]}, attrs={"units": "Pa"})
    lat = da(c.array("lat", (1, 2), 5.0, 89.0), ("yh", "xh"), {"yh": T["yh"], "xh": T["xh"]}, name="geolat2", attrs={"units": "degrees_north"})
    n2 = da(c.array("n2", (3, 1, 2), 1e-9, 1e-3, nan=True), ("z_l", "yh", "xh"), dict(T.coords), name="n2", attrs={"units": "s-2", "long_name": "given"})
    dz = da(c.array("dz", (3, 1, 2), 0.0, 100.0), ("z_l", "yh", "xh"), dict(T.coords), name="dz", attrs={"units": "m"})
    f = derived.calc_coriolis(lat)
    w = derived.calc_wave_speed(n2, dz)
    adj = derived.adjust_negative_n2(n2)
    s2, s3 = ("yh", "xh"), ("z_l", "yh", "xh", "geolat")
    for nm, r, u, co in (("stratification", derived.calc_n2(T, S, eos=eosname), "s-2", s3), ("repaired stratification", adj, "s-2", s3), ("stability angle", derived.calc_stability_angle(T, S, lev * 1e4, eos=eosname), "degrees", s3),
                         ("inverse barometer", dynamic.inverse_barometer(tos, sos, ps, equation_of_state=eosname), "m", s2), ("Coriolis", f, "s-1", s2), ("wave speed", w, "m s-1", s2), ("Rossby radius", derived.calc_rossby_rd(w, f), "m", s2)):
        c.true(f"{nm}: units", r.attrs.get("units") == u)
        c.true(f"{nm}: no attribute of an input", r.attrs.get("standard_name") != "s" and "note" not in r.attrs)
        for k in co:
            c.true(f"{nm}: coordinate {k}", k in r.coords and np.array_equal(r[k].values, T[k].values))
    c.true("repair keeps attributes", adj.attrs.get("long_name") == "given")


def refusals(c):
    """options outside the documented ones are refused"""
    c.cover(*COVER)
    o, ds = dressed(c, 2, 1, 1, 2)
    kw = {"strict": False, "equation_of_state": "linear"}
    c.raises("variant", ValueError, lambda: momlevel.steric(ds, variant="barosteric", **kw))
    c.raises("equation of state", (ValueError, AssertionError), lambda: momlevel.steric(ds, strict=False, equation_of_state="teos"))
    for e in (3, None, ["Wright"]):
        c.raises(f"equation of state {e}", AssertionError, lambda: util.eos_func_from_str(e))
    c.raises("reference type", (AssertionError, ValueError, TypeError), lambda: momlevel.steric(ds, reference=ds["thetao"], **kw))
    c.raises("coordinate names", (AssertionError, TypeError, ValueError), lambda: momlevel.steric(ds, coord_names=["time"], **kw))


def lazy(c):
    """alphabetical order: same variables, same data"""
    c.cover(util.alphabetize_dataset)
    x, y, z = (c.array(k, (2,), -1.0, 1.0, nan=True) for k in ("x", "y", "z"))
    ds = xr.Dataset({"zeta": (("i",), x, {"units": "m"}), "Alpha": (("i",), y), "beta": (("i",), z), "mid": ((), 3.0)}, coords={"i": [5.0, 6.0]}, attrs={"title": "t"})
    out = util.alphabetize_dataset(ds)
    c.true("order", list(out.data_vars) == sorted(["zeta", "Alpha", "beta", "mid"]))
    c.true("attributes", out.attrs == {"title": "t"} and out["zeta"].attrs == {"units": "m"} and list(out["i"].values) == [5.0, 6.0])
    for k, v in (("zeta", x), ("Alpha", y), ("beta", z)):
        c.compare(k, out[k], c.elems(v), dims=("i",), scale=1.0)


def encoding(c):
    """only the named encodings go, from the dataset and every variable in it"""
    c.cover(util.reset_encoding)
    x = c.array("x", (2,), -1.0, 1.0, nan=True)

    ENC = {"chunks": (1,), "preferred_chunks": {"i": 1}, "dtype": "float32", "zlib": True, "chunksizes": (2,), "_FillValue": 1e20, "missing_value": 1e20, "scale_factor": 0.5, "add_offset": 3.0, "units": "days since 1900-01-01", "calendar": "noleap", "source": "a.nc", "original_shape": (2,), "complevel": 4, "shuffle": True, "fletcher32": False, "contiguous": False,
           "compressor": "blosc", "filters": None, "coordinates": "w", "chunk": 1, "preferred": 2}
    TOP = {"chunks": 1, "unlimited_dims": {"i"}, "preferred_chunks": 3, "source": "a.nc", "chunksizes": 4, "dtype": "f8"}
    left = lambda e, gone: {k: v for k, v in e.items() if k not in gone}  # noqa: E731

    def fresh():
        d = xr.Dataset({"a": (("i",), x), "b": (("i",), np.arange(2.0))}, coords={"i": [0.0, 1.0], "w": (("i",), [7.0, 8.0])}, attrs={"title": "t"})
        for v in list(d.variables):
            d[v].encoding = dict(ENC)
        d.encoding = dict(TOP)
        return d
    for attrs, gone in ((None, {"chunks", "preferred_chunks"}), (["dtype"], {"dtype"}), ([], set()), (["zlib", "chunks", "absent"], {"zlib", "chunks"}), (("chunksizes",), {"chunksizes"}), (["_FillValue", "units", "calendar"], {"_FillValue", "units", "calendar"}), (["source"], {"source"})):
        d = fresh()
        r = util.reset_encoding(d) if attrs is None else util.reset_encoding(d, attrs=attrs)
        for v in r.variables:
            c.true(f"{v} without {sorted(gone)}", r[v].encoding == left(ENC, gone))
        c.true(f"dataset without {sorted(gone)}", r.encoding == left(TOP, gone))
        c.true("contents", set(r.variables) == {"a", "b", "i", "w"} and r.attrs == {"title": "t"})
        c.compare("data", r["a"], c.elems(x), dims=("i",), scale=1.0)
        a = fresh()["a"]
        q = util.reset_encoding(a) if attrs is None else util.reset_encoding(a, attrs=attrs)
        c.true(f"array without {sorted(gone)}", q.encoding == left(ENC, gone))
        for k in q.coords:
            c.true(f"array coordinate {k} without {sorted(gone)}", left(q[k].encoding, gone) == left(ENC, gone))
        c.compare("array data", q, c.elems(x), dims=("i",), scale=1.0)
    for bad in (np.ones(2), {"a": 1}, None, "a"):
        c.raises(f"refuses {type(bad).__name__}", ValueError, lambda: util.reset_encoding(bad))


def alias(c, mode):
    """the old entry point still detrends and says it is going away"""
    c.cover(util.linear_detrend, trend.linear_detrend)
    x = c.array("x", (4, 2), -5.0, 5.0)
    A = da(x, ("time", "x"), {"time": months("noleap", 1, 1, 4)}, name="v", attrs={"units": "m"})
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        a = util.linear_detrend(A, mode=mode)
    c.true("deprecation", any(issubclass(q.category, DeprecationWarning) for q in w))
    b = trend.linear_detrend(A, mode=mode)
    c.compare("same result", a, c.elems(b.transpose("time", "x")), dims=("time", "x"), scale=1.0)


def cases(tier):
    q = [Case(f"{d} {w}", sealevel, domain=d, which=w) for d in ("local", "global") for w in ("steric", "thermosteric", "halosteric")]
    q += [Case(f"{d} {t}", sealevel, domain=d, which="steric", dtype=t) for d in ("local", "global") for t in ("float64", "float16")] + [Case(f"{d} annual", sealevel, domain=d, which="steric", annual=True) for d in ("local", "global")]
    q += [Case(f"{d} {w} labelled", sealevel, domain=d, which=w, extra=True, dtype="float64") for d in ("local", "global") for w in ("steric", "thermosteric", "halosteric")]
    q += [Case(f"{d} labelled, given reference", sealevel, domain=d, which="steric", extra=True, given=True) for d in ("local", "global")] + [Case(f"{d} labelled, Wright", sealevel, domain=d, which="thermosteric", extra=True, eosname="Wright") for d in ("local", "global")]
    q += [Case(f"{d} annual {w} {t}", sealevel, domain=d, which=w, dtype=t, annual=True, extra=x) for d in ("local", "global") for w, t, x in (("thermosteric", "float64", False), ("halosteric", None, False))]
    q += [Case(f"local {'/'.join(o)}", sealevel, domain="local", which="steric", order=o) for o in (("x", "y", "z", "t"), ("z", "t", "y", "x"), ("y", "x", "t", "z"))] + [Case("local mixed orders", sealevel, domain="local", which="halosteric", flip=True, extra=True)]
    q += [Case(f"{d} few attributes {f}{x}", sealevel, domain=d, which=w, few=f, extra=bool(x)) for d, w in (("local", "steric"), ("global", "thermosteric")) for f, x in ((0, ""), (1, ""), (2, " labelled"))]
    q += [Case(f"more units {e}", more_units, eosname=e) for e in ("Wright", "linear")]
    q += [Case("units", units), Case("refusals", refusals), Case("alphabetical order", lazy), Case("encodings", encoding)] + [Case(f"old detrend {m}", alias, mode=m) for m in ("remove", "correct")]
    return q
