"""C10: names of coordinates and variables are the caller's choice"""
import numpy as np
import xarray as xr
import momlevel
from momlevel import derived, reference, trend, util

from .common import Case, Ocean, da, months, objs
from .c05 import COVER
from .c06 import wet

NAMES = {"t": "ocean_time", "z": "lev", "zb": "lev_edges", "y": "nj", "x": "ni"}
BACK = {"ocean_time": "time", "lev": "z_l", "lev_edges": "z_i", "nj": "yh", "ni": "xh"}


def same(c, label, a, b, dims, scale):
    """b (already renamed back) equals a"""
    if not c.dims_ok(label, b, dims) or not c.dims_ok(label + " (default names)", a, dims):
        return
    c.compare(label, b, c.elems(a.transpose(*dims)), dims=dims, scale=scale)


def named(c, b, dims):
    """the result is under the caller's names"""
    c.true(f"dimensions {sorted(map(str, b.dims))}", set(b.dims) == set(dims))


def partial(c, domain, which, decoy=False, varmap=None):
    """a mapping that lists only some names changes only those; other coordinates or variables that happen to carry a default
    name are not mistaken for the real ones"""
    c.cover(*COVER)
    nm = {"t": {"t": "ocean_time"}, "z": {"z": "lev"}, "zb": {"zb": "lev_edges"}, "tz": {"t": "ocean_time", "z": "lev"}, "tzb": {"t": "ocean_time", "zb": "lev_edges"}, "zzb": {"z": "lev", "zb": "lev_edges"}, "level": {"z": "level"}, "zl": {"z": "zl"}, "rho2_l": {"z": "rho2_l"}, "edges": {"zb": "z_edges"}, "depth_i": {"zb": "depth_i"}, "t0": {"t": "t"}, "time_l": {"t": "time_l"}, "all": {"t": "ocean_time", "z": "lev", "zb": "lev_edges"}, "": {}}[which]
    ren = varmap or {}
    o = Ocean(c, 2, 2, 1, 2, missing="shared", names=nm, rename=ren)
    if domain == "global":
        wet(c, o)
    kw = {"strict": False, "equation_of_state": "linear", "domain": domain}
    std = o.ds.rename({v: {"t": "time", "z": "z_l", "zb": "z_i"}[k] for k, v in nm.items()}).rename({v: k for k, v in ren.items()})
    ds = o.ds
    if decoy:
        if "z" in nm:
            ds = ds.assign_coords(z_l=((nm["z"],), [3000.0, 1.0]))
        if "zb" in nm:
            ds = ds.assign_coords(z_i=((nm["zb"],), [9.0, 8.0, 7.0]))
    a, ra = momlevel.steric(std, **kw)
    b, rb = momlevel.steric(ds, coord_names={{"zb": "zbounds"}.get(k, k): v for k, v in nm.items()}, varname_map={v: k for k, v in ren.items()} or None, **kw)
    back = {v: {"t": "time", "z": "z_l", "zb": "z_i"}[k] for k, v in nm.items()}
    if decoy:
        b, rb = b.drop_vars(["z_l", "z_i"], errors="ignore"), rb.drop_vars(["z_l", "z_i"], errors="ignore")
    named(c, b, (nm.get("t", "time"),) + (("yh", "xh", nm.get("z", "z_l")) if domain == "local" else ()))
    b = b.rename({k: v for k, v in back.items() if k in b.dims})
    rb = rb.rename({k: v for k, v in back.items() if k in rb.dims})
    same(c, "steric", a["steric"], b["steric"], ("time", "yh", "xh") if domain == "local" else ("time",), 0.01)
    if domain == "local":
        same(c, "delta_rho", a["delta_rho"], b["delta_rho"], ("time", "z_l", "yh", "xh"), 1.0)
    for v in ("rho", "volcello", "thetao"):
        same(c, f"reference {v}", ra[v], rb[v], ("z_l", "yh", "xh"), 1.0)


def supplied(c, domain, variant):
    """a reference state taken under other names is used under those names"""
    c.cover(*COVER)
    o = Ocean(c, 3, 2, 1, 2, missing="shared", names=NAMES)
    if domain == "global":
        wet(c, o)
    kw = {"strict": False, "equation_of_state": "linear", "domain": domain, "variant": variant}
    cn = {"t": "ocean_time", "z": "lev", "zbounds": "lev_edges"}
    std = o.ds.rename(BACK)
    ra, rb = reference.setup_reference_state(std, eos="linear", time_index=1), reference.setup_reference_state(o.ds, eos="linear", time_index=1, coord_names=cn)
    a, _ = momlevel.steric(std, reference=ra, **kw)
    b, _ = momlevel.steric(o.ds, reference=rb, coord_names=cn, **kw)
    named(c, b, ("ocean_time", "nj", "ni", "lev") if domain == "local" else ("ocean_time",))
    b = b.rename({k: v for k, v in BACK.items() if k in b.dims})
    same(c, variant, a[variant], b[variant], ("time", "yh", "xh") if domain == "local" else ("time",), 0.01)
    for v in ("volo", "masso", "rhoga"):
        same(c, f"reference {v}", ra[v], rb[v], (), 1.0)


def seasonal(c, what):
    """seasonal models on a renamed time axis, with an unrelated coordinate that carries the default name"""
    c.cover(trend.seasonal_model, trend.deseason)
    n = 14
    ts = months("noleap", 3, 1, n)
    x = c.array("x", (n, 2), -10.0, 10.0)
    A, B = da(x, ("time", "x"), {"time": ts, "x": [1.0, 2.0]}, name="v"), da(x, ("tt", "x"), {"tt": ts, "x": [1.0, 2.0]}, name="v")
    C = B.assign_coords(time=("tt", months("noleap", 7, 6, n)))
    f = {"residual": lambda v, k: trend.seasonal_model(v, tcoord=k), "model": lambda v, k: trend.seasonal_model(v, tcoord=k, return_model=True)[0],
         "deseason": lambda v, k: trend.deseason(v, tdim=k), "deseason model": lambda v, k: trend.deseason(v, tdim=k, output_format="model"), "deseason coeff": lambda v, k: trend.deseason(v, tdim=k, output_format="coeff")}[what]
    a = f(A, "time")
    for lab, v in (("renamed", B), ("decoy", C)):
        b = f(v, "tt")
        b = b.drop_vars("time", errors="ignore")
        c.true(f"{lab}: names", "time" not in b.dims and ("tt" in b.dims) == ("time" in a.dims))
        b = b.rename({"tt": "time"}) if "tt" in b.dims else b
        same(c, lab, a, b, tuple(a.dims), 1.0)


def mass(c):
    """total mass keeps the time axis, whatever it is called, and sums all others"""
    c.cover(derived.calc_masso)
    r, v = c.array("rho", (2, 2, 1, 2), 900.0, 1100.0, nan=True), c.array("vol", (2, 2, 1, 2), 0.0, 1e15, nan=True)
    d0, d1 = ("time", "z_l", "yh", "xh"), ("tau", "lev", "time", "x")
    a = derived.calc_masso(da(r, d0), da(v, d0))
    b = derived.calc_masso(da(r, d1), da(v, d1), tcoord="tau").rename({"tau": "time"})
    same(c, "mass", a, b, ("time",), 1e10)
    s = derived.calc_masso(da(r, d1), da(v, d1), tcoord="absent")
    e = c.elems(a)
    c.compare("no time axis", s, objs((), lambda: e[0] + e[1]), dims=(), scale=1e10)


def steric(c, domain, variant="steric", vars_too=False, annual=False):
    """the same data under two sets of names"""
    c.cover(*COVER)
    nt = 12 if annual else 2
    o = Ocean(c, nt, 1 if annual else 2, 1, 1 if annual else 2, missing="shared", names=NAMES, rename={"thetao": "ptemp", "so": "salt", "volcello": "vol", "areacello": "area", "deptho": "ht"} if vars_too else None)
    if domain == "global":
        wet(c, o)
    kw = {"strict": False, "equation_of_state": "linear", "domain": domain, "variant": variant, "annual": annual}
    vm = {"ptemp": "thetao", "salt": "so", "vol": "volcello", "area": "areacello", "ht": "deptho"} if vars_too else None
    std = o.ds.rename(BACK)
    if vars_too:
        std = std.rename(vm)
    a, _ = momlevel.steric(std, **kw)
    b, _ = momlevel.steric(o.ds, coord_names={"t": "ocean_time", "z": "lev", "zbounds": "lev_edges"}, varname_map=vm, **kw)
    named(c, b, ("ocean_time", "nj", "ni", "lev") if domain == "local" else ("ocean_time",))
    c.true("time axis", "ocean_time" in b and list(b["ocean_time"].values) == list(a["time"].values))
    b = b.rename({k: v for k, v in BACK.items() if k in b.dims})
    same(c, variant, a[variant], b[variant], ("time", "yh", "xh") if domain == "local" else ("time",), 0.01)
    if domain == "local":
        same(c, "delta_rho", a["delta_rho"], b["delta_rho"], ("time", "z_l", "yh", "xh"), 1.0)


def vertical(c, what, order=None):
    """vertical diagnostics on a renamed vertical coordinate"""
    c.cover(derived.calc_n2, derived.adjust_negative_n2, derived.calc_wave_speed, derived.calc_stability_angle)
    zl = c.elems(c.array("z", (3,), 0.0, 6000.0))
    for k in range(2):
        c.assume(c.le(zl[k] + 1.0, zl[k + 1]))
    t, s = c.array("T", (3, 1, 2), -10.0, 60.0, nan=True), c.array("S", (3, 1, 2), -2.0, 80.0, nan=True)
    d, e = ("z_l", "yh", "xh"), ("lev", "yh", "xh")
    def mk(dims, v):
        r = da(v, dims, {dims[0]: c.pack(zl), "xh": [0.0, 4.0], "yh": [7.0]})
        return r if order is None else r.transpose(*[dims[k] for k in order])
    kw = {"eos": "linear"}
    if what == "n2":
        a, b = derived.calc_n2(mk(d, t), mk(d, s), **kw), derived.calc_n2(mk(e, t), mk(e, s), zcoord="lev", **kw)
    elif what == "n2 adjusted":
        a, b = (derived.adjust_negative_n2(mk(d, c.array("n2", (3, 1, 2), -1.0, 1.0, nan=True))), derived.adjust_negative_n2(mk(e, c.array("n2", (3, 1, 2), -1.0, 1.0, nan=True)), zcoord="lev"))
    elif what == "n2 with adjustment":
        a, b = derived.calc_n2(mk(d, t), mk(d, s), adjust_negative=True, **kw), derived.calc_n2(mk(e, t), mk(e, s), zcoord="lev", adjust_negative=True, **kw)
    elif what == "angle":
        for v in (t, s):
            pass
        a, b = derived.calc_stability_angle(mk(d, t), mk(d, s), 1e5, **kw), derived.calc_stability_angle(mk(e, t), mk(e, s), 1e5, zcoord="lev", **kw)
    else:
        n2 = c.array("n2", (3, 1, 2), 0.0, 1.0, nan=True)
        h = c.array("h", (3, 1, 2), 0.0, 500.0)
        a, b = derived.calc_wave_speed(mk(d, n2), mk(d, h)), derived.calc_wave_speed(mk(e, n2), mk(e, h), zcoord="lev")
        same(c, what, a, b, ("yh", "xh"), 1.0)
        return
    same(c, what, a, b.rename({"lev": "z_l"}), d, 1.0 if what == "angle" else 1e-4)


def timeops(c, what):
    """time operators on a renamed time coordinate"""
    nt = 24 if what in ("annual", "cycle", "monthly") else 4
    ts = months("noleap", 3, 1, nt)
    x = c.array("x", (nt, 1 if "trend" in what else 2), -10.0, 10.0, nan=True)
    A, B = da(x, ("time", "x"), {"time": ts}, name="v"), da(x, ("tt", "x"), {"tt": ts}, name="v")
    if what == "annual":
        f = lambda v, n: util.annual_average(v, tcoord=n)
        c.cover(util.annual_average)
    elif what == "monthly":
        f = lambda v, n: util.monthly_average(v, tcoord=n)
        c.cover(util.monthly_average)
    elif what == "cycle":
        f = lambda v, n: util.annual_cycle(v, tcoord=n)
        c.cover(util.annual_cycle)
    elif what == "trend":
        f = lambda v, n: trend.calc_linear_trend(v, dim=n)["v_slope"]
        c.cover(trend.calc_linear_trend)
    elif what == "detrend":
        f = lambda v, n: trend.linear_detrend(v, dim=n)
        c.cover(trend.linear_detrend)
    elif what == "broadcast":
        f = lambda v, n: trend.broadcast_trend(v.isel({n: 0}, drop=True), v[n], subtract_time_zero=True)
        c.cover(trend.broadcast_trend)
    a, b = f(A, "time"), f(B, "tt")
    c.true("names", "time" not in b.dims and "time" not in b.coords and ("tt" in b.dims) == ("time" in a.dims))
    b = b.rename({"tt": "time"}) if "tt" in b.dims else b
    same(c, what, a, b, tuple(a.dims), 1e-15 if what == "trend" else 1.0)
    if "time" in a.dims:
        c.true("time axis", list(a["time"].values) == list(b["time"].values))


def dataset_names(c, what):
    """datasets: any variable name, any time name"""
    c.cover(util.annual_average, util.monthly_average, util.annual_cycle)
    ts = months("noleap", 3, 1, 12)
    x = c.array("x", (12,), -10.0, 10.0, nan=True)
    f = {"annual": util.annual_average, "monthly": util.monthly_average, "cycle": util.annual_cycle}[what]
    a = f(xr.Dataset({"v": ("time", x)}, coords={"time": ts}))
    b = f(xr.Dataset({"zos_q": ("t0", x)}, coords={"t0": ts}), tcoord="t0").rename({"t0": "time", "zos_q": "v"})
    same(c, what, a["v"], b["v"], tuple(a["v"].dims), 1.0)


def vorticity(c, symmetric):
    """velocity, metric and grid coordinate names"""
    c.cover(derived.calc_rel_vort, util.get_xgcm_grid)
    n = 2
    nq = n + 1 if symmetric else n
    u, dx = c.array("u", (n, nq), -2.0, 2.0), c.array("dx", (n, nq), 1e3, 1e5)
    v, dy = c.array("v", (nq, n), -2.0, 2.0), c.array("dy", (nq, n), 1e3, 1e5)
    ar = c.array("A", (nq, nq), 1e6, 1e10)
    def mk(vn, cn):
        return xr.Dataset({vn["u"]: ((cn["ycenter"], cn["xcorner"]), u), vn["dx"]: ((cn["ycenter"], cn["xcorner"]), dx), vn["v"]: ((cn["ycorner"], cn["xcenter"]), v), vn["dy"]: ((cn["ycorner"], cn["xcenter"]), dy),
                           vn["area"]: ((cn["ycorner"], cn["xcorner"]), ar)}, coords={cn["xcenter"]: np.arange(n) + 0.5, cn["ycenter"]: np.arange(n) + 0.5, cn["xcorner"]: np.arange(nq) * 1.0, cn["ycorner"]: np.arange(nq) * 1.0})
    vn0 = {"u": "uo", "v": "vo", "dx": "dxCu", "dy": "dyCv", "area": "areacello_bu"}
    cn0 = {"xcenter": "xh", "ycenter": "yh", "xcorner": "xq", "ycorner": "yq"}
    vn1 = {"u": "ssu", "v": "ssv", "dx": "DXU", "dy": "DYV", "area": "AQ"}
    cn1 = {"xcenter": "ic", "ycenter": "jc", "xcorner": "ib", "ycorner": "jb"}
    a = derived.calc_rel_vort(mk(vn0, cn0), symmetric=symmetric)
    b = derived.calc_rel_vort(mk(vn1, cn1), varname_map=vn1, coord_dict=cn1, symmetric=symmetric)
    same(c, "vorticity", a, b.rename({"ib": "xq", "jb": "yq"}), ("yq", "xq"), 1e-5)


def defaults(c):
    """every subset of the coordinate mapping: given names are used, others keep their default; non-mappings are refused"""
    c.cover(util.default_coords)
    for m in range(8):
        d = {}
        if m & 1:
            d["t"] = "T"
        if m & 2:
            d["z"] = "Z"
        if m & 4:
            d["zbounds"] = "ZB"
        c.true(f"mapping {d}", tuple(util.default_coords(d)) == ("T" if m & 1 else "time", "Z" if m & 2 else "z_l", "ZB" if m & 4 else "z_i"))
    for n in ("level", "zl", "z", "depth", "olevel", "z_L", "z_i2", "rho2_l", "lev_i", "st_ocean", "t", "z_l ", "Time", "time_l", "deptht", "z_i", "time"):
        c.true(f"only z {n}", tuple(util.default_coords({"z": n})) == ("time", n, "z_i"))
        c.true(f"only t {n}", tuple(util.default_coords({"t": n})) == (n, "z_l", "z_i"))
        c.true(f"only zbounds {n}", tuple(util.default_coords({"zbounds": n})) == ("time", "z_l", n))
        c.true(f"two of them {n}", tuple(util.default_coords({"t": n + "t", "zbounds": n})) == (n + "t", "z_l", n) and tuple(util.default_coords({"z": n, "t": n + "t"})) == (n + "t", n, "z_i") and tuple(util.default_coords({"zbounds": n + "b", "z": n})) == ("time", n, n + "b"))
    c.true("none", tuple(util.default_coords()) == ("time", "z_l", "z_i") == tuple(util.default_coords({"x": "lon", "y": "lat"})))
    c.raises("not a mapping", (AssertionError, TypeError, ValueError), lambda: util.default_coords(["z_l"]))


def cases(tier):
    q = [Case("local", steric, domain="local"), Case("global", steric, domain="global"), Case("local variables", steric, domain="local", vars_too=True, variant="halosteric"),
         Case("global variables", steric, domain="global", vars_too=True, variant="thermosteric"), Case("annual local", steric, domain="local", annual=True, budget=200), Case("default names", defaults)]
    for w in ("n2", "n2 adjusted", "n2 with adjustment", "angle", "wave speed"):
        q.append(Case(w, vertical, what=w))
        if w in ("n2", "angle"):     # the level need not be the first dimension
            q += [Case(f"{w} order {o}", vertical, what=w, order=o) for o in ((1, 2, 0), (2, 0, 1))]
    for w in ("annual", "monthly", "cycle", "trend", "detrend", "broadcast"):
        q.append(Case(f"time {w}", timeops, what=w))
    for w in ("annual", "monthly", "cycle"):
        q.append(Case(f"dataset {w}", dataset_names, what=w))
    for d in ("local", "global"):
        q += [Case(f"partial mapping {w or 'empty'} {d}", partial, domain=d, which=w) for w in ("", "t", "z", "zb", "tz", "tzb", "zzb", "level", "zl", "rho2_l", "edges", "depth_i", "t0", "time_l")] + [Case(f"decoys {w} {d}", partial, domain=d, which=w, decoy=True) for w in ("z", "zb", "all")]
        q += [Case(f"partial variables {'/'.join(m)} {d}", partial, domain=d, which=w, varmap=m) for w, m in (("", {"thetao": "ptemp"}), ("t", {"so": "salt", "areacello": "area"}), ("all", {"volcello": "vol"}), ("z", {"thetao": "so2", "deptho": "ht"}))]
        q += [Case(f"supplied reference {d} {v}", supplied, domain=d, variant=v) for v in ("steric", "thermosteric")]
    q += [Case(f"seasonal {w}", seasonal, what=w) for w in ("residual", "model", "deseason", "deseason model", "deseason coeff")] + [Case("mass", mass), Case("annual global", steric, domain="global", annual=True, budget=200), Case("swapped variable names", partial, domain="local", which="", varmap={"thetao": "so", "so": "thetao"})]
    for s in (False, True):
        q.append(Case(f"vorticity symmetric={s}", vorticity, symmetric=s))
    return q
