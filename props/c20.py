"""C20: relative vorticity is circulation per area"""
import numpy as np
import xarray as xr
from momlevel import derived, util

from .common import Case, da, objs

CN = {"xcenter": "xh", "ycenter": "yh", "xcorner": "xq", "ycorner": "yq"}


def dataset(c, ny, nx, sym, nt=None, missing=True, metrics=False):
    py, px = (ny + 1, nx + 1) if sym else (ny, nx)
    lead, ld = ((), ()) if nt is None else ((nt,), ("time",))
    u, v = c.array("u", lead + (ny, px), -3.0, 3.0, nan=missing), c.array("v", lead + (py, nx), -3.0, 3.0, nan=missing)
    dx, dy = c.array("dx", (ny, px), 1e2, 1e5, nan=metrics), c.array("dy", (py, nx), 1e2, 1e5, nan=metrics)
    a = c.array("A", (py, px), 1e4, 1e10, nan=missing)
    ds = xr.Dataset({"uo": (ld + ("yh", "xq"), u), "vo": (ld + ("yq", "xh"), v), "dxCu": (("yh", "xq"), dx), "dyCv": (("yq", "xh"), dy), "areacello_bu": (("yq", "xq"), a)},
                    coords={"xh": np.arange(nx) + 0.5, "yh": np.arange(ny) + 0.5, "xq": np.arange(px) + (0.0 if sym else 1.0), "yq": np.arange(py) + (0.0 if sym else 1.0)})
    return ds, tuple(c.elems(x) for x in (u, v, dx, dy, a)), (py, px)


def edge(c, f, n, q, sym):
    """difference at corner q of a quantity f known at n centres (zero outside)"""
    hi, lo = (q, q - 1) if sym else (q + 1, q)
    return (f(hi) if hi < n else 0.0), (f(lo) if lo >= 0 else 0.0)


def general(c, ny, nx, sym, lead=("time", "z_l"), morder=None, names=None, aux=False, shift=0.0):
    """any number of leading dimensions, every field in its own order, other names, auxiliary coordinates, any axis values"""
    c.cover(derived.calc_rel_vort, util.get_xgcm_grid)
    ds, (u, v, dx, dy, a), (py, px) = dataset(c, ny, nx, sym)
    n = len(lead)
    sz = (2, 1, 2)[:n]
    U, V = c.array("uu", sz + (ny, px), -50.0, 50.0, nan=True), c.array("vv", sz + (py, nx), -50.0, 50.0, nan=True)
    ds["uo"], ds["vo"] = (lead + ("yh", "xq"), U), (lead + ("yq", "xh"), V)
    u, v = c.elems(U), c.elems(V)
    if morder:
        for k in ("uo", "vo", "dxCu", "dyCv", "areacello_bu"):
            ds[k] = ds[k].transpose(*[d for d in morder.get(k, ds[k].dims)])
    if aux:
        ds = ds.assign_coords(geolat_c=(("yq", "xq"), np.ones((py, px))), geolon_u=(("yh", "xq"), np.ones((ny, px))), basin=2)
        ds["extra"] = (("yh", "xh"), np.ones((ny, nx)))
    if shift:
        ds = ds.assign_coords({k: shift - 2.0 * ds[k] for k in ("xh", "yh", "xq", "yq")})
    kw, back = {}, {}
    if names:
        ds = ds.rename(names)
        back = {w: k for k, w in names.items()}
        g = lambda k: names.get(k, k)
        kw = {"varname_map": {"u": g("uo"), "v": g("vo"), "dx": g("dxCu"), "dy": g("dyCv"), "area": g("areacello_bu")}, "coord_dict": {"xcenter": g("xh"), "ycenter": g("yh"), "xcorner": g("xq"), "ycorner": g("yq")}}
    if sym:
        kw["symmetric"] = True
    out = derived.calc_rel_vort(ds, **kw)
    dims = lead + ("yq", "xq")
    if {back.get(d, d) for d in out.dims} != set(dims):
        c.true(f"dimensions {out.dims}", False)
        return
    out = out.rename({w: k for w, k in back.items() if w in out.dims})

    def spec(*ix):
        t, (j, i) = ix[:-2], ix[-2:]
        un, us = edge(c, lambda r: u[t + (r, i)] * dx[r, i], ny, j, sym)
        ve, vw = edge(c, lambda s: v[t + (j, s)] * dy[j, s], nx, i, sym)
        return ((ve - vw) - (un - us)) / a[j, i]
    c.compare("vorticity", out.transpose(*dims), objs(sz + (py, px), spec), dims=dims, scale=1e-5)


def vorticity(c, ny, nx, sym, nt=None, order=None, metrics=False):
    """any velocities, metrics and areas; missing neighbours give a missing value"""
    c.cover(derived.calc_rel_vort, util.get_xgcm_grid)
    ds, (u, v, dx, dy, a), (py, px) = dataset(c, ny, nx, sym, nt, metrics=metrics)
    if order:
        for k in ("uo", "vo"):
            ds[k] = ds[k].transpose(*[d for d in order if d in ds[k].dims])
    out = derived.calc_rel_vort(ds, symmetric=sym)
    lead = () if nt is None else (nt,)
    dims = (() if nt is None else ("time",)) + ("yq", "xq")

    def spec(*ix):
        t, (j, i) = ix[:-2], ix[-2:]
        un, us = edge(c, lambda r: u[t + (r, i)] * dx[r, i], ny, j, sym)
        ve, vw = edge(c, lambda s: v[t + (j, s)] * dy[j, s], nx, i, sym)
        return ((ve - vw) - (un - us)) / a[j, i]
    if set(out.dims) != set(dims):
        c.true(f"dimensions {out.dims}", False)
        return
    c.compare("vorticity", out.transpose(*dims), objs(lead + (py, px), spec), dims=dims, scale=1e-5)
    c.true("units", out.attrs.get("units") == "s-1")


def rotation(c, sym, n=3):
    """solid-body rotation at rate w has vorticity 2 w in the interior; a uniform flow has none"""
    c.cover(derived.calc_rel_vort)
    w, h = c.real("w", -1e-4, 1e-4), c.real("h", 1e3, 1e5)
    u0, v0 = c.real("u0", -1.0, 1.0), c.real("v0", -1.0, 1.0)
    p = n + 1 if sym else n
    off = 0.0 if sym else 1.0
    xh, xq = np.arange(n) + 0.5, np.arange(p) + off
    u = objs((n, p), lambda j, i: u0 - w * h * float(xh[j]))
    v = objs((p, n), lambda j, i: v0 + w * h * float(xh[i]))
    k = lambda s: c.pack(objs(s, lambda *_: h))
    ds = xr.Dataset({"uo": (("yh", "xq"), c.pack(u)), "vo": (("yq", "xh"), c.pack(v)), "dxCu": (("yh", "xq"), k((n, p))), "dyCv": (("yq", "xh"), k((p, n))), "areacello_bu": (("yq", "xq"), c.pack(objs((p, p), lambda *_: h * h)))}, coords={"xh": xh, "yh": xh, "xq": xq, "yq": xq})
    o = c.elems(derived.calc_rel_vort(ds, symmetric=sym).transpose("yq", "xq"))
    r = range(1, n) if sym else range(0, n - 1)
    for j in r:
        for i in r:
            c.compare(f"interior[{j},{i}]", o[j, i], 2.0 * w, dims=(), scale=1e-5)


def absent(c):
    """a dataset without a needed field is refused"""
    c.cover(derived.calc_rel_vort)
    ds, _, _ = dataset(c, 2, 2, False)
    for k in ("uo", "vo", "dxCu", "dyCv", "areacello_bu"):
        c.raises(f"without {k}", ValueError, lambda: derived.calc_rel_vort(ds.drop_vars(k)))


def cases(tier):
    q = [Case("absent fields", absent)]
    for s in (False, True):
        q += [Case(f"missing metrics symmetric={s}", vorticity, ny=2, nx=2, sym=s, metrics=True), Case(f"missing metrics in time symmetric={s}", vorticity, ny=2, nx=1, sym=s, nt=2, metrics=True)]
        q += [Case(f"symmetric={s}", vorticity, ny=2, nx=3, sym=s), Case(f"single cell symmetric={s}", vorticity, ny=1, nx=2, sym=s), Case(f"tall symmetric={s}", vorticity, ny=4, nx=2, sym=s), Case(f"time symmetric={s}", vorticity, ny=2, nx=2, sym=s, nt=2), Case(f"order symmetric={s}", vorticity, ny=2, nx=3, sym=s, nt=2, order=("xq", "xh", "time", "yh", "yq")), Case(f"rotation symmetric={s}", rotation, sym=s)]
    N1 = {"uo": "ssu", "vo": "ssv", "dxCu": "e1", "dyCv": "e2", "areacello_bu": "aq", "xh": "ic", "yh": "jc", "xq": "ib", "yq": "jb"}
    N2 = {"xh": "yh", "yh": "xh", "xq": "yq", "yq": "xq"}
    M = {"dxCu": ("xq", "yh"), "dyCv": ("xh", "yq"), "areacello_bu": ("xq", "yq")}
    M2 = dict(M, uo=("xq", "z_l", "yh", "time"), vo=("z_l", "xh", "time", "yq"))
    for s in (False, True):
        q += [Case(f"levels symmetric={s}", general, ny=2, nx=2, sym=s), Case(f"metrics in another order symmetric={s}", general, ny=2, nx=3, sym=s, lead=(), morder=M), Case(f"all orders symmetric={s}", general, ny=2, nx=3, sym=s, morder=M2), Case(f"names symmetric={s}", general, ny=2, nx=3, sym=s, names=N1, lead=("time",)),
              Case(f"swapped names symmetric={s}", general, ny=2, nx=2 if s else 2, sym=s, names=N2, lead=()), Case(f"auxiliary symmetric={s}", general, ny=3, nx=2, sym=s, aux=True, lead=("time",)), Case(f"descending axes symmetric={s}", general, ny=2, nx=3, sym=s, shift=10.0, lead=()),
              Case(f"wide symmetric={s}", vorticity, ny=2, nx=7, sym=s), Case(f"three leading symmetric={s}", general, ny=1, nx=2, sym=s, lead=("member", "time", "z_l"))]
    for s in (False, True):
        for n, l in (("", ()), (" in time", ("time",))):
            q.append(Case(f"square, metrics in another order{n} symmetric={s}", general, ny=2, nx=2, sym=s, lead=l, morder=M))
            for k in M:
                q.append(Case(f"square, {k} in another order{n} symmetric={s}", general, ny=2, nx=2, sym=s, lead=l, morder={k: M[k]}))
        q += [Case(f"square, all orders symmetric={s}", general, ny=2, nx=2, sym=s, morder=M2), Case(f"square, velocities in another order symmetric={s}", general, ny=2, nx=2, sym=s, lead=(), morder={"uo": ("xq", "yh"), "vo": ("xh", "yq")}), Case(f"12x13 symmetric={s}", vorticity, ny=12, nx=13, sym=s)]
    if tier == "thorough":
        q += [Case(f"large symmetric={s}", vorticity, ny=6, nx=7, sym=s, nt=2, budget=400) for s in (False, True)]
    return q
