"""C06: global steric height"""
import sys

import numpy as np
import xarray as xr
import momlevel
from momlevel import derived, reference as refmod

from .common import Case, Ocean, RHO, SHI, SLO, THI, TLO, da, magnitude, objs
from .c05 import COVER, steric_mod, yearly

COVER = COVER + (derived.calc_masso, derived.calc_volo, derived.calc_rhoga)


def global_spec(c, o, eosname, variant, patm=101325.0, ref=None):
    """reference height V0 / sum(area) and its product with ln(rho_ref mean / rho mean)"""
    nt, nz, ny, nx = o.shape
    cells = [(k, j, i) for k in range(nz) for j in range(ny) for i in range(nx)]
    if ref is None:
        ref = {"T": o.T[0], "S": o.S[0], "V": o.V[0], "A": o.A}
        ref["volo"] = c.nansum([ref["V"][q] for q in cells])
        m0 = c.nansum([o.rho(c, eosname, 0, *q, patm=patm) * ref["V"][q] for q in cells])
        ref["rhoga"] = m0 / ref["volo"]
    h = ref["volo"] / c.nansum(list(ref["A"].ravel()))

    def level(a):
        ms = []
        for q in cells:
            t = ref["T"][q] if variant == "halosteric" else o.T[(a,) + q]
            s = ref["S"][q] if variant == "thermosteric" else o.S[(a,) + q]
            ms.append(RHO[eosname](t, s, o.p(q[0], patm)) * ref["V"][q])
        mean = c.nansum(ms) / ref["volo"]
        return h * c.fn("log", ref["rhoga"] / mean)
    return h, objs((nt,), level)


def wet(c, o):
    """at least one valid cell at every time (otherwise there is no ocean)"""
    nt, nz, ny, nx = o.shape
    for a in range(nt):
        c.assume(c.or_(*[c.not_(c.or_(c.isnan(o.T[a, k, j, i]), c.isnan(o.S[a, k, j, i]), c.isnan(o.V[0, k, j, i]), c.isnan(o.T[0, k, j, i]), c.isnan(o.S[0, k, j, i])))
                         for k in range(nz) for j in range(ny) for i in range(nx)]))
    c.assume(c.or_(*[c.not_(c.isnan(x)) for x in o.A.ravel()]))


def glob(c, nt, nz, ny, nx, eosname="Wright", missing="shared", patm=None, strict=False, given=False, order=None, variant="steric", **more):
    """symbolic T, S, volume, area, vertical grid and land mask"""
    c.cover(*COVER)
    o = Ocean(c, nt, nz, ny, nx, missing=missing, strict_area=strict, order=order, flip=more.get("flip", False), extra=more.get("extra", False), vlo=more.get("vlo", 1e9))
    if "vlo" in more:
        for a in range(nt):
            c.assume(c.le(1.0, c.nansum([c.where(c.or_(*[c.isnan(x[b][q]) for x in (o.T, o.S) for b in (0, a)]), c.nan, o.V[0][q]) for q in np.ndindex(nz, ny, nx)])))
    wet(c, o)
    kw = {"strict": strict, "domain": "global", "variant": variant}
    for k in ("dtype", "verbose", "rhozero"):
        if k in more:
            kw[k] = more[k]
    pa = 101325.0
    if patm == "free":
        pa = kw["patm"] = c.real("patm", 0.0, 2.0e5)
    if eosname != "Wright":
        kw["equation_of_state"] = eosname
    ref = None
    if given:
        sh, d3 = (nz, ny, nx), ("z_l", "yh", "xh")
        arr = {"T": c.array("rT", sh, TLO, THI), "S": c.array("rS", sh, SLO, SHI), "V": c.array("rV", sh, 1e9, 1e15), "A": c.pack(o.A) if strict else c.array("rA", (ny, nx), 1e8, 3.7e14)}
        vo, rg = c.real("volo", 1e6, 1e19), c.real("rhoga", 800.0, 1300.0)
        kw["reference"] = xr.Dataset({"thetao": (d3, arr["T"]), "so": (d3, arr["S"]), "volcello": (d3, arr["V"]), "rho": (d3, c.array("rrho", sh, 990.0, 1060.0)),
                                      "volo": ((), c.pack(objs((), lambda: vo))), "masso": ((), 1.3e21), "rhoga": ((), c.pack(objs((), lambda: rg))), "areacello": (("yh", "xh"), arr["A"])},
                                     coords={"z_l": ("z_l", c.pack(o.zl))})
        ref = {k: c.elems(v) for k, v in arr.items()}
        ref.update(volo=vo, rhoga=rg)
        magnitude(c, np.array([vo]), ref["A"])
    out, _ = momlevel.steric(o.ds, **kw)
    h, lev = global_spec(c, o, eosname, variant, pa, ref)
    c.compare("reference height", out["reference_height"], objs((), lambda: h), dims=(), scale=1.0)
    c.compare("global level", out[variant], lev, dims=("time",), scale=1e-3)


def annual(c, eosname, variant="steric", cal="noleap", nx=2):
    """annual=True: the year's day-weighted mean of the monthly levels; the reference height stays what it is"""
    c.cover(*COVER, "momlevel.util.annual_average")
    o = Ocean(c, 12, 1, 1, nx, missing="shared", calendar=cal)
    wet(c, o)
    out, _ = momlevel.steric(o.ds, strict=False, domain="global", equation_of_state=eosname, annual=True, variant=variant)
    h, lev = global_spec(c, o, eosname, variant)
    c.compare("level", out[variant], objs((1,), lambda a: yearly(c, lev, cal)), dims=("time",), scale=1e-3)
    r = out["reference_height"]
    c.compare("reference height", r.isel(time=0) if "time" in r.dims else r, objs((), lambda: h), dims=(), scale=1.0)


def no_depth_needed(c, which="steric"):
    """the global calculation needs neither depth nor layer interfaces"""
    c.cover(*COVER)
    o = Ocean(c, 2, 1, 1, 2, missing=None)
    a, _ = momlevel.steric(o.ds, domain="global", strict=False, variant=which)
    b, _ = momlevel.steric(o.ds.drop_vars(["deptho", "z_i"]), domain="global", strict=False, variant=which)
    c.compare("level", b[which], c.elems(a[which]), dims=("time",), scale=1e-3)


def shift(c, eosname):
    """warming every cell (salinity fixed) never lowers the global level where density falls: the level is positive exactly when
    the mean density drops"""
    c.cover(*COVER)
    o = Ocean(c, 2, 1, 1, 2, missing=None, area_missing=False)
    out, _ = momlevel.steric(o.ds, domain="global", strict=False, equation_of_state=eosname)
    lev = c.elems(out["steric"])
    for i in range(2):
        c.assume(c.lt(o.T[0, 0, 0, i] + 0.01, o.T[1, 0, 0, i]))
        c.assume(c.eq(o.S[0, 0, 0, i], o.S[1, 0, 0, i]))
    c.true("warming raises the level", c.lt(0.0, lev[1]))


def cases(tier):
    q = [Case("basin", glob, nt=2, nz=2, ny=1, nx=1), Case("plane", glob, nt=2, nz=1, ny=1, nx=2), Case("strict area", glob, nt=2, nz=1, ny=1, nx=2, strict=True),
         Case("linear", glob, nt=3, nz=2, ny=1, nx=2, eosname="linear"), Case("free pressure", glob, nt=2, nz=2, ny=1, nx=1, patm="free"),
         Case("supplied reference", glob, nt=2, nz=1, ny=1, nx=2, given=True), Case("supplied reference linear", glob, nt=2, nz=2, ny=1, nx=2, given=True, eosname="linear"),
         Case("dimension order xzyt", glob, nt=2, nz=2, ny=1, nx=2, eosname="linear", order=("x", "z", "y", "t")),
         *[Case(f"depth not needed {v}", no_depth_needed, which=v) for v in ("steric", "thermosteric", "halosteric")], Case("warming linear", shift, eosname="linear")]
    q += [Case("empty cells", glob, nt=2, nz=1, ny=1, nx=2, vlo=0.0), Case("empty cells linear", glob, nt=2, nz=2, ny=1, nx=2, vlo=0.0, eosname="linear", variant="halosteric"),
          Case("square, mixed orders", glob, nt=2, nz=2, ny=2, nx=2, flip=True, eosname="linear"), Case("square, order", glob, nt=2, nz=2, ny=2, nx=2, order=("y", "t", "x", "z"), eosname="linear")]
    for v in ("thermosteric", "halosteric"):
        q.append(Case(v, glob, nt=2, nz=1, ny=1, nx=2, variant=v))
        q.append(Case(v + " supplied", glob, nt=2, nz=1, ny=1, nx=2, variant=v, given=True, eosname="linear"))
    q += [Case("any missing", glob, nt=2, nz=1, ny=1, nx=2, missing="free"), Case("any missing linear", glob, nt=2, nz=2, ny=1, nx=2, missing="free", eosname="linear"),
          Case("reference and pressure", glob, nt=2, nz=1, ny=1, nx=2, given=True, patm="free"), Case("reference, strict, missing", glob, nt=2, nz=1, ny=1, nx=2, given=True, strict=True, missing="free", eosname="linear"),
          Case("mixed orders", glob, nt=2, nz=2, ny=1, nx=2, flip=True), Case("extra variables", glob, nt=2, nz=1, ny=1, nx=2, extra=True, missing="free", rhozero=1000.0),
          Case("options", glob, nt=2, nz=1, ny=2, nx=1, strict=True, extra=True, dtype="float64", verbose=True, patm="free"), Case("single time", glob, nt=1, nz=2, ny=1, nx=2, missing="free"),
          Case("four times", glob, nt=4, nz=1, ny=1, nx=2, eosname="linear", missing="free"), Case("three levels", glob, nt=2, nz=3, ny=1, nx=2, eosname="linear")]
    q += [Case(f"{v} any missing {e}", glob, nt=2, nz=1, ny=1, nx=2, variant=v, missing="free", eosname=e) for v in ("thermosteric", "halosteric") for e in ("Wright", "linear")]
    q += [Case(f"{v} reference pressure", glob, nt=2, nz=1, ny=1, nx=2, variant=v, given=True, patm="free") for v in ("thermosteric", "halosteric")]
    q += [Case(f"annual {v}", annual, eosname="linear", variant=v) for v in ("steric", "thermosteric", "halosteric")] + [Case("annual Wright", annual, eosname="Wright", nx=1), Case("annual 360 day", annual, eosname="linear", cal="360_day", nx=1), Case("annual all leap", annual, eosname="linear", cal="all_leap", nx=1)]
    q += [Case("linear nz=12", glob, nt=1, nz=12, ny=1, nx=1, eosname="linear", missing=None, given=True), Case("linear nz=80", glob, nt=1, nz=80, ny=1, nx=1, eosname="linear", missing=None, given=True), Case("linear nt=13", glob, nt=13, nz=1, ny=1, nx=1, eosname="linear"), Case("linear 4x4", glob, nt=1, nz=1, ny=4, nx=4, eosname="linear", given=True, missing=None)]
    if tier == "thorough":
        q += [Case("linear large", glob, nt=3, nz=3, ny=2, nx=2, eosname="linear", budget=600), Case("wright large", glob, nt=3, nz=2, ny=1, nx=2, budget=600)]
    return q
