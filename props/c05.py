"""C05: local steric height"""
import numpy as np
import xarray as xr
import momlevel
from momlevel import derived, reference as refmod
from momlevel import steric as _s  # noqa: F401
import sys

from .common import Case, Ocean, RHO, SHI, SLO, THI, TLO, da, dz_of, month_days, months, objs

steric_mod = sys.modules["momlevel.steric"]

COVER = (steric_mod.steric, derived.calc_dz, derived.calc_rho, refmod.setup_reference_state, "momlevel.util.validate_dataset", "momlevel.util.default_coords")


def local_spec(c, o, eosname, variant, rhozero=1035.0, patm=101325.0, ref=None):
    """-> (density change, height) as object arrays (t,z,y,x), (t,y,x)"""
    nt, nz, ny, nx = o.shape
    if ref is None:
        ref = {"T": o.T[0], "S": o.S[0], "V": o.V[0], "rho": objs((nz, ny, nx), lambda k, j, i: o.rho(c, eosname, 0, k, j, i, patm=patm if not callable(patm) else patm(j, i)))}

    def pa(j, i):
        return patm(j, i) if callable(patm) else patm

    def drho(a, k, j, i):
        t = ref["T"][k, j, i] if variant == "halosteric" else o.T[a, k, j, i]
        s = ref["S"][k, j, i] if variant == "thermosteric" else o.S[a, k, j, i]
        r = RHO[eosname](t, s, o.p(k, pa(j, i))) - ref["rho"][k, j, i]
        return c.where(c.isnan(ref["V"][k, j, i]), c.nan, r)
    dr = objs(o.shape, drho)
    dz = objs((nz, ny, nx), lambda k, j, i: dz_of(c, o.zi[k], o.zi[k + 1], o.D[j, i]))

    def height(a, j, i):
        tot = c.nansum([dz[k, j, i] * dr[a, k, j, i] for k in range(nz)])
        return c.where(c.isnan(ref["V"][0, j, i]), c.nan, tot * (-1.0 / rhozero))
    return dr, objs((nt, ny, nx), height)


def local(c, nt, nz, ny, nx, eosname="Wright", missing="shared", rhozero=None, patm=None, strict=False, given=False, order=None, annual=False, **more):
    """symbolic T, S, cell volume, depth, vertical grid and land mask; levels in [0, 6000] m"""
    c.cover(*COVER)
    o = Ocean(c, nt, nz, ny, nx, missing=missing, strict_area=strict, order=order, flip=more.get("flip", False), extra=more.get("extra", False), vlo=0.0)
    kw = {"strict": strict}
    for k in ("dtype", "verbose", "domain", "variant"):
        if k in more:
            kw[k] = more[k]
    rz, pa = 1035.0, 101325.0
    if rhozero == "free":
        rz = kw["rhozero"] = c.real("rhozero", 500.0, 2000.0)
    if patm == "free":
        pa = kw["patm"] = c.real("patm", 0.0, 2.0e5)
    if patm == "map":
        pm = c.array("patm", (ny, nx), 0.0, 2.0e5)
        pe = c.elems(pm)
        kw["patm"] = da(pm, ("yh", "xh"))
        pa = lambda j, i: pe[j, i]
    if eosname != "Wright":
        kw["equation_of_state"] = eosname
    ref = None
    if given:
        sh = (nz, ny, nx)
        d3 = ("z_l", "yh", "xh")
        arr = {"T": c.array("rT", sh, TLO, THI, nan=True), "S": c.array("rS", sh, SLO, SHI, nan=True), "V": c.array("rV", sh, 0.0, 1e15, nan=True), "rho": c.array("rrho", sh, 900.0, 1200.0, nan=True)}
        kw["reference"] = xr.Dataset({"thetao": (d3, arr["T"]), "so": (d3, arr["S"]), "volcello": (d3, arr["V"]), "rho": (d3, arr["rho"]), "volo": ((), 1.3e18), "masso": ((), 1.3e21), "rhoga": ((), 1000.0),
                                      "areacello": (("yh", "xh"), c.pack(o.A) if strict else c.array("rA", (ny, nx), 1e8, 3.7e14))}, coords={"z_l": ("z_l", c.pack(o.zl))})
        ref = {k: c.elems(v) for k, v in arr.items()}
    out, _ = momlevel.steric(o.ds, **kw)
    which = more.get("variant", "steric")
    dr, h = local_spec(c, o, eosname, which, rz, pa, ref)
    c.compare("density change", out["delta_rho"], dr, dims=o.dims, scale=1.0)
    c.compare("steric height", out[which], h, dims=("time", "yh", "xh"), scale=0.01)


def tall(c, nz):
    """many levels on a given grid, any temperature and salinity"""
    c.cover(*COVER)
    D = ("time", "z_l", "yh", "xh")
    zi = np.array([10.0 * k for k in range(nz + 1)])
    zl = (zi[1:] + zi[:-1]) / 2
    T, S = c.array("T", (2, nz, 1, 1), TLO, THI), c.array("S", (2, nz, 1, 1), SLO, SHI)
    ds = xr.Dataset({"thetao": (D, T), "so": (D, S), "volcello": (D, np.full((2, nz, 1, 1), 1e10)), "areacello": (("yh", "xh"), np.full((1, 1), 1e9)), "deptho": (("yh", "xh"), np.full((1, 1), 10.0 * nz - 3.0))},
                    coords={"z_l": zl, "z_i": zi, "time": months("noleap", 1, 1, 2)})
    out, _ = momlevel.steric(ds, strict=False, equation_of_state="linear")
    t, s = c.elems(T), c.elems(S)
    rho = objs((2, nz), lambda a, k: RHO["linear"](t[a, k, 0, 0], s[a, k, 0, 0], zl[k] * 1e4 + 101325.0))
    h = [10.0] * (nz - 1) + [7.0]
    c.compare("density change", out["delta_rho"], objs((2, nz, 1, 1), lambda a, k, j, i: rho[a, k] - rho[0, k]), dims=D, scale=1.0)
    c.compare("steric height", out["steric"], objs((2, 1, 1), lambda a, j, i: c.sum([(rho[a, k] - rho[0, k]) * h[k] for k in range(nz)]) * (-1.0 / 1035.0)), dims=("time", "yh", "xh"), scale=0.01)


def yearly(c, x, cal="noleap", y=1):
    """mean of twelve monthly values weighted by month length, over the values present"""
    w = [float(month_days(cal, y, m)) for m in range(1, 13)]
    num = c.nansum([x[m] * w[m] for m in range(12)])
    den = c.nansum([c.where(c.isnan(x[m]), c.const(0.0), c.const(w[m])) for m in range(12)])
    return c.where(c.and_(*[c.isnan(v) for v in x]), c.nan, num / den)


def annual(c, eosname, variant="steric", missing="shared", cal="noleap", nx=1, ny=1, nz=1):
    """annual=True: the year's day-weighted mean of the monthly heights and density changes"""
    c.cover(*COVER, "momlevel.util.annual_average")
    o = Ocean(c, 12, nz, ny, nx, missing=missing, calendar=cal)
    out, ref = momlevel.steric(o.ds, strict=False, equation_of_state=eosname, annual=True, variant=variant)
    dr, h = local_spec(c, o, eosname, variant)
    c.compare("density change", out["delta_rho"], objs((1, nz, ny, nx), lambda a, k, j, i: yearly(c, dr[:, k, j, i], cal)), dims=o.dims, scale=1.0)
    c.compare("height", out[variant], objs((1, ny, nx), lambda a, j, i: yearly(c, h[:, j, i], cal)), dims=("time", "yh", "xh"), scale=0.01)
    c.true("reference keeps no time", "time" not in ref.dims)


def rejects(c, what):
    """an unknown variant, a missing input field or a reference of the wrong kind is refused"""
    c.cover(*COVER)
    o = Ocean(c, 1, 2, 1, 1, missing=None)
    if what == "variant":
        c.raises("unknown variant", (ValueError,), lambda: momlevel.steric(o.ds, variant="haline", strict=False))
    elif what == "reference":
        c.raises("reference type", (AssertionError, TypeError, ValueError), lambda: momlevel.steric(o.ds, reference={"rho": 1}, strict=False))
    elif what == "eos":
        c.raises("unknown equation of state", (ValueError,), lambda: momlevel.steric(o.ds, equation_of_state="teos10", strict=False))
    else:
        for v in ("thetao", "so", "volcello", "areacello", "deptho", "z_i"):
            c.raises(f"missing {v}", (ValueError,), lambda: momlevel.steric(o.ds.drop_vars(v), strict=False))


def cases(tier):
    q = [Case("column nz=2", local, nt=2, nz=2, ny=1, nx=1), Case("plane", local, nt=2, nz=2, ny=1, nx=2),
         Case("strict area", local, nt=2, nz=1, ny=1, nx=2, strict=True),
         Case("linear plane", local, nt=3, nz=3, ny=2, nx=2, eosname="linear"),
         Case("free rho0 and pressure", local, nt=2, nz=2, ny=1, nx=1, rhozero="free", patm="free"),
         Case("pressure map", local, nt=2, nz=1, ny=1, nx=2, patm="map"),
         Case("supplied reference", local, nt=2, nz=2, ny=1, nx=1, given=True),
         Case("supplied reference linear", local, nt=1, nz=3, ny=1, nx=2, given=True, eosname="linear"),
         Case("dimension order xyzt", local, nt=2, nz=2, ny=1, nx=2, eosname="linear", order=("x", "y", "z", "t"))]
    q += [Case("any missing", local, nt=2, nz=2, ny=1, nx=1, missing="free"), Case("any missing linear", local, nt=3, nz=2, ny=1, nx=2, missing="free", eosname="linear"),
          Case("reference, rho0, pressure", local, nt=2, nz=2, ny=1, nx=1, given=True, rhozero="free", patm="free"),
          Case("reference, pressure map", local, nt=2, nz=1, ny=1, nx=2, given=True, patm="map", missing="free"),
          Case("reference, linear, strict", local, nt=2, nz=2, ny=1, nx=2, given=True, eosname="linear", strict=True, rhozero="free"),
          Case("single time", local, nt=1, nz=2, ny=1, nx=2, missing="free", patm="free"),
          Case("mixed orders", local, nt=2, nz=2, ny=2, nx=1, flip=True), Case("mixed orders, reference", local, nt=2, nz=2, ny=1, nx=2, flip=True, given=True, eosname="linear", rhozero="free"),
          Case("extra variables", local, nt=2, nz=2, ny=1, nx=2, extra=True, missing="free", eosname="linear"),
          Case("extra variables, strict, options", local, nt=2, nz=2, ny=1, nx=2, extra=True, strict=True, dtype="float64", verbose=True, patm="free", rhozero="free"),
          Case("explicit options", local, nt=2, nz=2, ny=1, nx=1, domain="local", variant="steric", dtype="float64", verbose=True, given=True, patm="free"),
          Case("column nz=5", local, nt=2, nz=5, ny=1, nx=1, eosname="linear"), Case("five times", local, nt=5, nz=1, ny=1, nx=2, missing="free"), Case("wide", local, nt=2, nz=1, ny=3, nx=4, eosname="linear")]
    q += [Case(f"annual {v} {e}", annual, eosname=e, variant=v) for v in ("steric", "thermosteric", "halosteric") for e in ("linear", "Wright")] + [Case("annual plane", annual, eosname="linear", nx=2, nz=2), Case("annual 360 day", annual, eosname="linear", cal="360_day"), Case("annual all leap", annual, eosname="linear", cal="all_leap", ny=2)]
    for v in ("thermosteric", "halosteric"):
        q += [Case(f"{v} options", local, nt=2, nz=2, ny=1, nx=1, variant=v, rhozero="free", patm="free", missing="free"), Case(f"{v} reference, map", local, nt=2, nz=1, ny=1, nx=2, variant=v, rhozero="free", patm="map", given=True, missing="free"),
              Case(f"{v} linear, strict", local, nt=2, nz=2, ny=1, nx=2, variant=v, rhozero="free", eosname="linear", strict=True, given=True, extra=True)]
    q += [Case("square, mixed orders", local, nt=2, nz=2, ny=2, nx=2, flip=True, eosname="linear"), Case("square, order", local, nt=2, nz=2, ny=2, nx=2, order=("y", "t", "x", "z"), eosname="linear", patm="map"), Case("square, map", local, nt=2, nz=2, ny=2, nx=2, patm="map", given=True, flip=True, eosname="linear", rhozero="free")]
    for w in ("variant", "reference", "eos", "fields"):
        q.append(Case(f"rejects {w}", rejects, what=w))
    # many levels, times and columns
    q += [Case("linear nz=25", local, nt=2, nz=25, ny=1, nx=1, eosname="linear"), Case("eighty levels", tall, nz=80), Case("nz=12", local, nt=1, nz=12, ny=1, nx=1, given=True), Case("linear nt=14", local, nt=14, nz=1, ny=1, nx=2, eosname="linear", missing="free"), Case("6x6", local, nt=1, nz=1, ny=6, nx=6, eosname="linear", given=True)]
    if tier == "thorough":
        q += [Case("column nz=6", local, nt=3, nz=6, ny=1, nx=1, budget=400), Case("linear nz=10", local, nt=3, nz=10, ny=1, nx=2, eosname="linear", budget=400)]
    return q
