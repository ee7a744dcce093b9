"""C09: missing data never leaks"""
import numpy as np
import xarray as xr
import momlevel
from momlevel import derived, trend, util

from .common import Case, Ocean, RHO, SHI, SLO, THI, TLO, da, dz_of, months, objs
from .c05 import COVER, local_spec
from .c06 import global_spec, wet


def local(c, nt, nz, ny, nx, eosname="Wright", which="steric"):
    """every element of T, S, volume, depth and area independently missing: a missing cell adds nothing, a column is missing
    exactly when its top reference volume is"""
    c.cover(*COVER)
    o = Ocean(c, nt, nz, ny, nx, missing="free")
    out, _ = momlevel.steric(o.ds, strict=False, equation_of_state=eosname, variant=which)
    dr, h = local_spec(c, o, eosname, which)
    c.compare("density change", out["delta_rho"], dr, dims=o.dims, scale=1.0)
    c.compare("height", out[which], h, dims=("time", "yh", "xh"), scale=0.01)


def glob(c, nt, nz, ny, nx, eosname="Wright", which="steric"):
    """same for the global level: missing cells add neither mass nor volume"""
    c.cover(*COVER)
    o = Ocean(c, nt, nz, ny, nx, missing="free")
    wet(c, o)
    out, _ = momlevel.steric(o.ds, domain="global", strict=False, equation_of_state=eosname, variant=which)
    h, lev = global_spec(c, o, eosname, which)
    c.compare("reference height", out["reference_height"], objs((), lambda: h), dims=(), scale=1.0)
    c.compare("level", out[which], lev, dims=("time",), scale=1e-3)


def columns(c, what):
    """a column's result is the same whatever its neighbour holds (values or missing)"""
    c.cover(*COVER)
    o = Ocean(c, 2, 3 if what == "n2" else 2, 1, 2, missing="free")
    alone = o.ds.isel(xh=slice(0, 1))
    if what == "steric":
        a, _ = momlevel.steric(o.ds, strict=False, equation_of_state="linear")
        b, _ = momlevel.steric(alone, strict=False, equation_of_state="linear")
        for v, d in (("steric", ("time", "yh", "xh")), ("delta_rho", o.dims)):
            c.compare(v, a[v].isel(xh=slice(0, 1)), c.elems(b[v].transpose(*d)), dims=d, scale=0.01)
    else:
        f = {"dz": lambda d: derived.calc_dz(d["z_l"], d["z_i"], d["deptho"]), "n2": lambda d: derived.calc_n2(d["thetao"], d["so"], eos="linear"),
             "rho": lambda d: derived.calc_rho(d["thetao"], d["so"], d["z_l"] * 1e4), "spice": lambda d: derived.calc_spice(d["thetao"], d["so"])}[what]
        a, b = f(o.ds), f(alone)
        d = tuple(b.dims)
        c.compare(what, a.isel(xh=slice(0, 1)), c.elems(b), dims=d, scale=1.0)


def series(c, what):
    """time operators: one column alone gives what it gives beside another, whatever the other holds"""
    f, n, dims = {"annual": (util.annual_average, 12, None), "monthly": (util.monthly_average, 4, None), "cycle": (util.annual_cycle, 12, None), "cycle max": (lambda v: util.annual_cycle(v, func="max"), 12, None), "cycle std": (lambda v: util.annual_cycle(v, func="std"), 14, None),
                  "slope": (lambda v: trend.calc_linear_trend(v)["v_slope"], 3, None), "intercept": (lambda v: trend.calc_linear_trend(v)["v_intercept"], 3, None), "detrend": (trend.linear_detrend, 3, None), "correct": (lambda v: trend.linear_detrend(v, mode="correct"), 3, None),
                  "seasonal": (trend.seasonal_model, 10, None), "deseason": (trend.deseason, 10, None), "deseason coeff": (lambda v: trend.deseason(v, output_format="coeff"), 10, None)}[what]
    c.cover(util.annual_average, util.monthly_average, util.annual_cycle, trend.calc_linear_trend, trend.linear_detrend, trend.seasonal_model, trend.deseason)
    hole = what in ("annual", "monthly", "cycle", "slope", "intercept", "detrend", "correct")
    x = c.array("x", (n, 2), -10.0, 10.0, nan=hole)
    A = da(x, ("time", "x"), {"time": months("noleap", 3, 1, n), "x": [1.0, 2.0]}, name="v", attrs={"units": "m"})
    a, b = f(A), f(A.isel(x=slice(0, 1)))
    d = tuple(b.dims)
    c.compare(what, a.isel(x=slice(0, 1)), c.elems(b), dims=d, scale={"slope": 1e-15}.get(what, 1.0))


def mapped(c, what):
    """column diagnostics beside a neighbour of any content"""
    c.cover(derived.adjust_negative_n2, derived.calc_wave_speed, derived.calc_stability_angle, derived.calc_dz, derived.calc_coriolis, derived.calc_rossby_rd)
    z = np.array([5.0, 20.0, 60.0])
    mk = lambda nm, lo, hi: da(c.array(nm, (3, 1, 2), lo, hi, nan=True), ("z_l", "yh", "xh"), {"z_l": z})
    if what == "repair":
        X, f = (mk("n2", -1e-3, 1e-3),), derived.adjust_negative_n2
    elif what == "wave speed":
        X, f = (mk("n2", -1e-3, 1e-3), mk("dz", 0.0, 100.0)), derived.calc_wave_speed
    elif what == "angle":
        X, f = (mk("T", 0.0, 30.0), mk("S", 20.0, 40.0)), lambda t, s: derived.calc_stability_angle(t, s, 1e5, eos="linear")
    elif what == "fraction":
        zi = da(np.array([0.0, 10.0, 35.0, 100.0]), ("z_i",))
        X, f = (da(c.array("depth", (1, 2), 0.0, 150.0, nan=True), ("yh", "xh")),), lambda d: derived.calc_dz(da(z, ("z_l",), {"z_l": z}), zi, d, fraction=True, bottom=80.0)
    else:
        w, lat = (da(c.array(nm, (1, 2), lo, hi, nan=True), ("yh", "xh")) for nm, lo, hi in (("c1", 0.0, 5.0), ("lat", 1.0, 89.0)))
        X, f = (w, lat), lambda a, b: derived.calc_rossby_rd(a, derived.calc_coriolis(b))
    a, b = f(*X), f(*[v.isel(xh=slice(0, 1)) for v in X])
    d = tuple(b.dims)
    c.compare(what, a.isel(xh=slice(0, 1)), c.elems(b), dims=d, scale=1e-3 if "n2" in what or what == "repair" else 1.0)


def totals(c):
    """mass, volume and area totals ignore missing cells"""
    c.cover(derived.calc_masso, derived.calc_volo)
    r, v = c.array("rho", (2, 2, 1, 2), 900.0, 1100.0, nan=True), c.array("vol", (2, 1, 2), 0.0, 1e15, nan=True)
    R, V = c.elems(r), c.elems(v)
    cells = list(np.ndindex(2, 1, 2))
    m = derived.calc_masso(da(r, ("time", "z_l", "yh", "xh")), da(v, ("z_l", "yh", "xh")))
    c.compare("mass", m, objs((2,), lambda t: c.nansum([R[(t,) + q] * V[q] for q in cells])), dims=("time",), scale=1e10)
    c.compare("volume", derived.calc_volo(da(v, ("z_l", "yh", "xh"))), objs((), lambda: c.nansum([V[q] for q in cells])), dims=(), scale=1e8)


def pointwise(c, what):
    """an elementwise diagnostic is missing exactly where one of its inputs is"""
    fs = {"calc_rho": (lambda t, s, p: derived.calc_rho(t, s, p), 3), "calc_alpha": (lambda t, s, p: derived.calc_alpha(t, s, p), 3), "calc_beta": (lambda t, s, p: derived.calc_beta(t, s, p), 3),
          "calc_rho linear": (lambda t, s, p: derived.calc_rho(t, s, p, eos="linear"), 2), "calc_spice": (lambda t, s, p: derived.calc_spice(t, s), 2), "calc_pdens": (lambda t, s, p: derived.calc_pdens(t, s), 2),
          "inverse_barometer": (lambda t, s, p: momlevel.dynamic.inverse_barometer(t, s, p), 3)}
    f, n = fs[what]
    c.cover("momlevel." + what.split()[0])
    x = [c.array(nm, (3,), lo, hi, nan=True) for nm, lo, hi in (("T", TLO, THI), ("S", SLO, SHI), ("p", 0.0, 1e8))]
    out = f(*[da(v, ("x",)) for v in x])
    oe, xe = c.elems(out), [c.elems(v) for v in x]
    for i in range(3):
        miss = c.or_(*[c.isnan(v[i]) for v in xe[:n]])
        c.true(f"missing iff missing[{i}]", c.or_(c.and_(c.isnan(oe[i]), miss), c.and_(c.not_(c.isnan(oe[i])), c.not_(miss))))


def cases(tier):
    q = [Case("local", local, nt=2, nz=2, ny=1, nx=1), Case("local linear", local, nt=2, nz=2, ny=1, nx=2, eosname="linear"),
         Case("global", glob, nt=2, nz=1, ny=1, nx=2), Case("global linear", glob, nt=2, nz=2, ny=1, nx=2, eosname="linear")]
    for w in ("thermosteric", "halosteric"):
        q += [Case(f"local {w}", local, nt=2, nz=2, ny=1, nx=1, which=w, eosname="linear"), Case(f"global {w}", glob, nt=2, nz=1, ny=1, nx=2, which=w, eosname="linear")]
    for w in ("steric", "dz", "n2", "rho", "spice"):
        q.append(Case(f"columns {w}", columns, what=w))
    for w in ("calc_rho", "calc_alpha", "calc_beta", "calc_rho linear", "calc_spice", "calc_pdens", "inverse_barometer"):
        q.append(Case(f"pointwise {w}", pointwise, what=w))
    q += [Case(f"columns {w}", series, what=w) for w in ("annual", "monthly", "cycle", "cycle max", "cycle std", "slope", "intercept", "detrend", "correct", "seasonal", "deseason", "deseason coeff")]
    q += [Case(f"columns {w}", mapped, what=w) for w in ("repair", "wave speed", "angle", "fraction", "radius")] + [Case("totals", totals)]
    q += [Case("local three times", local, nt=3, nz=2, ny=1, nx=1), Case("local plane", local, nt=2, nz=1, ny=2, nx=2), Case("local deep", local, nt=2, nz=4, ny=1, nx=1, eosname="linear"), Case("global three times", glob, nt=3, nz=1, ny=1, nx=2), Case("global plane", glob, nt=2, nz=1, ny=2, nx=2, eosname="linear"), Case("global column", glob, nt=2, nz=3, ny=1, nx=1, eosname="linear")]
    q += [Case(f"{d} {w} Wright", g, nt=2, nz=1, ny=1, nx=2, which=w) for w in ("thermosteric", "halosteric") for d, g in (("local", local), ("global", glob))]
    if tier == "thorough":
        q += [Case("local large", local, nt=3, nz=4, ny=1, nx=2, eosname="linear", budget=500), Case("local wright large", local, nt=2, nz=3, ny=1, nx=2, budget=500)]
    return q
