"""C07: the reference state"""
import numpy as np
import xarray as xr
import momlevel
from momlevel import derived, reference as refmod

from .common import Case, Ocean, RHO, da, objs


def state(c, nt, nz, ny, nx, eosname="Wright", missing="free", index=0, patm=None, coord=False, order=None, flip=False, extra=False, zero=False):
    """symbolic ocean; reference taken at a given time level (default the first)"""
    c.cover(refmod.setup_reference_state, derived.calc_rho, derived.calc_masso, derived.calc_volo, derived.calc_rhoga)
    names = {"t": "Time", "z": "lev", "zb": "lev_b"} if coord else None
    o = Ocean(c, nt, nz, ny, nx, missing=missing, vlo=0.0 if zero else 1.0, names=names, order=order, flip=flip, extra=extra)
    if zero:        # areas and volumes of zero are values like any other
        A0 = c.array("A0", (ny, nx), 0.0, 3.7e14, nan=True)
        o.ds["areacello"], o.A = ((o.n["y"], o.n["x"]), A0), c.elems(A0)
        c.assume(c.le(1.0, c.nansum([o.V[(index % nt,) + q] for q in np.ndindex(nz, ny, nx)])))
    kw = {}
    pa = 101325.0
    if patm == "free":
        pa = kw["patm"] = c.real("patm", 0.0, 2.0e5)
    if patm == "map":
        pm = c.array("patm", (ny, nx), 0.0, 2.0e5)
        pe = c.elems(pm)
        kw["patm"] = da(pm, (o.n["y"], o.n["x"]))
    if eosname != "Wright":
        kw["eos"] = eosname
    if index != 0:
        kw["time_index"] = index
    if coord:
        kw["coord_names"] = {"t": "Time", "z": "lev", "zbounds": "lev_b"}
    r = refmod.setup_reference_state(o.ds, **kw)
    a = index % nt
    cells = [(k, j, i) for k in range(nz) for j in range(ny) for i in range(nx)]
    d3 = o.dims[1:]
    c.true("variables", set(r.data_vars) == {"thetao", "so", "volcello", "rho", "volo", "masso", "rhoga", "areacello"})
    c.compare("temperature", r["thetao"], o.T[a], dims=d3, scale=1.0)
    c.compare("salinity", r["so"], o.S[a], dims=d3, scale=1.0)
    c.compare("volume", r["volcello"], o.V[a], dims=d3, scale=1e12)
    rho = objs((nz, ny, nx), lambda k, j, i: o.rho(c, eosname, a, k, j, i, patm=pe[j, i] if patm == "map" else pa))
    c.compare("density", r["rho"], rho, dims=d3, scale=1000.0)
    vol = c.nansum([o.V[(a,) + q] for q in cells])
    mass = c.nansum([rho[q] * o.V[(a,) + q] for q in cells])
    c.compare("total volume", r["volo"], objs((), lambda: vol), dims=(), scale=1e12)
    c.compare("total mass", r["masso"], objs((), lambda: mass), dims=(), scale=1e15)
    none = c.and_(*[c.isnan(o.V[(a,) + q]) for q in cells])
    c.compare("mean density", r["rhoga"], objs((), lambda: mass / vol), dims=(), scale=1000.0, skip=objs((), lambda: none))
    c.compare("area", r["areacello"], o.A, dims=o.dims[2:], scale=1e8)
    c.true("no time coordinate", "time" not in [str(x).lower() for x in r.coords] and o.n["t"] not in r.dims)
    return o, r


def reusable(c, domain, which="steric", eosname="Wright", nt=2, k=1, patm=None, extra=False, flip=False):
    """a reference taken at time k and passed back gives the same answer as the implicit one when k = 0, and zero change at time k"""
    c.cover(refmod.setup_reference_state, "momlevel.steric.steric")
    o = Ocean(c, nt, 1, 1, 2, missing="shared" if domain == "local" else None, area_missing=False, extra=extra, flip=flip)
    kr, ks = {"eos": eosname}, {"strict": False, "domain": domain, "variant": which, "equation_of_state": eosname}
    if patm is not None:
        kr["patm"] = ks["patm"] = c.real("patm", 0.0, 2.0e5)
    r0 = refmod.setup_reference_state(o.ds, **kr)
    a, ra = momlevel.steric(o.ds, **ks)
    b, rb = momlevel.steric(o.ds, reference=r0, **ks)
    dims = ("time", "yh", "xh") if domain == "local" else ("time",)
    c.compare("implicit = explicit", b[which], c.elems(a[which].transpose(*dims)), dims=dims, scale=0.01)
    for v in ("thetao", "so", "volcello", "rho"):
        c.compare(f"returned reference {v}", ra[v], c.elems(r0[v].transpose("z_l", "yh", "xh")), dims=("z_l", "yh", "xh"), scale=1.0)
        c.compare(f"supplied reference returned {v}", rb[v], c.elems(r0[v].transpose("z_l", "yh", "xh")), dims=("z_l", "yh", "xh"), scale=1.0)
    r1 = refmod.setup_reference_state(o.ds, time_index=k, **kr)
    d, _ = momlevel.steric(o.ds, reference=r1, **ks)
    k %= nt
    e = c.elems(d[which].transpose(*dims))[k:k + 1].reshape(dims == ("time",) and (1,) or (1, 2))
    for i in np.ndindex(*e.shape):
        v = e[i]
        miss = c.isnan(o.V[k, 0, 0, i[-1]]) if domain == "local" else False
        c.equal(f"zero at the reference time{list(i)}", v, c.where(miss, c.nan, 0.0), scale=0.01)


def mass_volume(c, eosname):
    """total mass and volume on their own: free time coordinate name, time kept, other dimensions summed"""
    c.cover(derived.calc_masso, derived.calc_volo, derived.calc_rhoga)
    sh = (2, 2, 1, 2)
    rho, vol = c.array("rho", sh, 990.0, 1060.0, nan=True), c.array("V", sh, 1e9, 1e12, nan=True)
    re_, ve = c.elems(rho), c.elems(vol)
    for t in ("time", "T0"):
        d = (t, "z_l", "yh", "xh")
        m = derived.calc_masso(da(rho, d), da(vol, d), tcoord=t)
        spec = objs((2,), lambda a: c.nansum([re_[(a,) + q] * ve[(a,) + q] for q in np.ndindex(2, 1, 2)]))
        c.compare(f"mass per time ({t})", m, spec, dims=(t,), scale=1e12)
    v = derived.calc_volo(da(vol[0] if not c.symbolic else c.pack(ve[0]), ("z_l", "yh", "xh")))
    c.compare("volume", v, objs((), lambda: c.nansum(list(ve[0].ravel()))), dims=(), scale=1e9)
    c.raises("volume needs three dimensions", (AssertionError, ValueError), lambda: derived.calc_volo(da(vol, ("time", "z_l", "yh", "xh"))))


def cases(tier):
    q = [Case("column", state, nt=2, nz=2, ny=1, nx=1), Case("plane", state, nt=1, nz=1, ny=2, nx=2), Case("linear", state, nt=2, nz=2, ny=2, nx=2, eosname="linear"),
         Case("time index 1", state, nt=3, nz=1, ny=1, nx=2, index=1), Case("last time", state, nt=3, nz=1, ny=1, nx=2, index=-1),
         Case("free pressure", state, nt=2, nz=2, ny=1, nx=1, patm="free"), Case("renamed", state, nt=2, nz=2, ny=1, nx=1, coord=True, index=1, eosname="linear"),
         Case("single cell", state, nt=1, nz=1, ny=1, nx=1), Case("order", state, nt=2, nz=2, ny=1, nx=2, order=("z", "x", "t", "y"), eosname="linear"),
         Case("reuse local", reusable, domain="local"), Case("reuse global", reusable, domain="global"), Case("totals", mass_volume, eosname="linear")]
    q += [Case("zero areas and volumes", state, nt=2, nz=2, ny=1, nx=2, zero=True, eosname="linear"), Case("zero areas and volumes Wright", state, nt=2, nz=1, ny=2, nx=2, zero=True, index=1, missing=None)]
    q += [Case("pressure map", state, nt=2, nz=1, ny=1, nx=2, patm="map"), Case("mixed orders", state, nt=2, nz=2, ny=1, nx=2, flip=True), Case("extra variables", state, nt=3, nz=2, ny=1, nx=2, extra=True, index=-2),
          Case("extra, pressure, linear", state, nt=3, nz=2, ny=2, nx=1, extra=True, index=2, patm="free", eosname="linear"), Case("many times", state, nt=7, nz=1, ny=1, nx=1, index=4), Case("from the end", state, nt=7, nz=1, ny=1, nx=1, index=-7),
          Case("renamed, pressure, order", state, nt=3, nz=2, ny=1, nx=1, coord=True, index=-1, patm="free", order=("y", "t", "x", "z")), Case("deep", state, nt=2, nz=6, ny=1, nx=1, eosname="linear"), Case("wide", state, nt=1, nz=1, ny=3, nx=3, index=-1)]
    for d in ("local", "global"):
        for w in ("steric", "thermosteric", "halosteric"):
            q += [Case(f"reuse {d} {w} pressure", reusable, domain=d, which=w, patm="free"), Case(f"reuse {d} {w} linear last", reusable, domain=d, which=w, eosname="linear", nt=3, k=-1, patm="free"), Case(f"reuse {d} {w} mixed", reusable, domain=d, which=w, extra=True, flip=True)]
    q += [Case("thirty times", state, nt=30, nz=1, ny=1, nx=1, index=17, eosname="linear"), Case("thirty times, from the end", state, nt=30, nz=1, ny=1, nx=1, index=-29), Case("nz=80", state, nt=1, nz=80, ny=1, nx=1, eosname="linear", missing=None), Case("6x6", state, nt=1, nz=1, ny=6, nx=6, eosname="linear", missing=None)]
    if tier == "thorough":
        q += [Case("large", state, nt=3, nz=3, ny=2, nx=2, index=2, budget=400)]
    return q
