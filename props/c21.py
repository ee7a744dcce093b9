"""C21: potential vorticity"""
import numpy as np
import xarray as xr
from momlevel import derived, util

from .common import Case, da, objs


def interp1(lo, hi):
    return 0.5 * (lo + hi)


def corner(c, n2, ny, nx, j, i, sym):
    """mean of the four surrounding centre values, zero outside"""
    js, is_ = ((j - 1, j), (i - 1, i)) if sym else ((j, j + 1), (i, i + 1))

    def at(a, b):
        return n2[a, b] if 0 <= a < ny and 0 <= b < nx else c.const(0.0)
    return 0.25 * (at(js[0], is_[0]) + at(js[0], is_[1]) + at(js[1], is_[0]) + at(js[1], is_[1]))


def pv(c, ny, nx, sym=False, units=None, gravity=False, interp=True, nz=None, names=None):
    """any vorticity, Coriolis and stratification"""
    c.cover(derived.calc_pv, util.get_xgcm_grid)
    py, px = (ny + 1, nx + 1) if sym else (ny, nx)
    cn = names or {"xcenter": "xh", "ycenter": "yh", "xcorner": "xq", "ycorner": "yq"}
    qd = (cn["ycorner"], cn["xcorner"])
    hd = (cn["ycenter"], cn["xcenter"])
    lead, ld = ((), ()) if nz is None else ((nz,), ("z_l",))
    z, f = c.array("zeta", (py, px), -1e-3, 1e-3, nan=True), c.array("f", (py, px), -1.5e-4, 1.5e-4)
    n2 = c.array("n2", lead + ((ny, nx) if interp else (py, px)), -1e-3, 1e-3, nan=True)
    Z, F, N = c.elems(z), c.elems(f), c.elems(n2)
    co = {cn["xcenter"]: np.arange(nx) + 0.5, cn["ycenter"]: np.arange(ny) + 0.5, cn["xcorner"]: np.arange(px) + (0.0 if sym else 1.0), cn["ycorner"]: np.arange(py) + (0.0 if sym else 1.0)}
    mk = lambda v, d: da(v, d, {k: co[k] for k in d if k in co})
    kw = {}
    if units:
        kw["units"] = units
    g = 9.8
    if gravity:
        kw["gravity"] = g = c.real("g", 0.1, 30.0)
    if not interp:
        kw["interp_n2"] = False
    if sym:
        kw["symmetric"] = True
    if names:
        kw["coord_dict"] = names
    out = derived.calc_pv(mk(z, qd), mk(f, qd), mk(n2, ld + (hd if interp else qd)), **kw)
    dims = ld + qd

    def spec(*ix):
        t, (j, i) = ix[:-2], ix[-2:]
        m = corner(c, N[t] if t else N, ny, nx, j, i, sym) if interp else N[ix]
        v = (Z[j, i] + F[j, i]) * m / g
        return c.abs(v) * 1e12 if units == "cm" else v
    if set(out.dims) != set(dims):
        c.true(f"dimensions {out.dims}", False)
        return
    sc = 1e-9 * (1e12 if units == "cm" else 1)
    c.compare("pv", out.transpose(*dims), objs(lead + (py, px), spec), dims=dims, scale=sc)
    c.true("units", out.attrs.get("units") == ("10^14 cm-1 s-1" if units == "cm" else "m-1 s-1"))


def general(c, sym, interp, units=None, zl=(), fl=(), nl=(), orders=None, ny=2, nx=2):
    """vorticity, Coriolis and stratification with their own leading dimensions and orders; any of them missing"""
    c.cover(derived.calc_pv, util.get_xgcm_grid)
    py, px = (ny + 1, nx + 1) if sym else (ny, nx)
    size = {"time": 2, "z_l": 2, "yh": ny, "xh": nx, "yq": py, "xq": px}
    co = {"xh": np.arange(nx) + 0.5, "yh": np.arange(ny) + 0.5, "xq": np.arange(px) + (0.0 if sym else 1.0), "yq": np.arange(py) + (0.0 if sym else 1.0)}
    X = {}
    for nm, d, lo, hi in (("zeta", zl + ("yq", "xq"), -1e-2, 1e-2), ("f", fl + ("yq", "xq"), -1.5e-4, 1.5e-4), ("n2", nl + (("yh", "xh") if interp else ("yq", "xq")), -1e-2, 1e-2)):
        a = c.array(nm, tuple(size[k] for k in d), lo, hi, nan=True)
        A = da(a, d, {k: v for k, v in co.items() if k in d}, name={"f": "coriolis"}.get(nm, nm), attrs={"units": "other", "note": "n"})
        X[nm] = (A.transpose(*orders[nm]) if orders and nm in orders else A, c.elems(a), d)
    kw = {"symmetric": sym, "interp_n2": interp}
    if units:
        kw["units"] = units
    out = derived.calc_pv(X["zeta"][0], X["f"][0], X["n2"][0], **kw)
    lead = tuple(k for k in ("time", "z_l") if k in zl + fl + nl)
    dims = lead + ("yq", "xq")
    if set(out.dims) != set(dims):
        c.true(f"dimensions {out.dims}", False)
        return

    def at(nm, ix):
        _, e, d = X[nm]
        return e[tuple(ix[dims.index(k)] for k in d)]

    def spec(*ix):
        if interp:
            N, d = X["n2"][1], X["n2"][2]
            m = corner(c, N[tuple(ix[dims.index(k)] for k in d[:-2])] if nl else N, ny, nx, ix[-2], ix[-1], sym)
        else:
            m = at("n2", ix)
        v = (at("zeta", ix) + at("f", ix)) * m / 9.8
        return c.abs(v) * 1e12 if units == "cm" else v
    c.compare("pv", out.transpose(*dims), objs(tuple(size[k] for k in dims), spec), dims=dims, scale=1e-9 * (1e12 if units == "cm" else 1))
    c.true("units", out.attrs.get("units") == ("10^14 cm-1 s-1" if units == "cm" else "m-1 s-1") and "note" not in out.attrs)


def centred(c, units, lead):
    """without interpolation the fields may sit on any common points: cell centres, tracks, single columns"""
    c.cover(derived.calc_pv)
    for nm, d, sh in (("centres", ("yh", "xh"), (2, 3)), ("sections", ("yh",), (3,)), ("stations", ("site",), (3,)), ("edges", ("yh", "xq"), (2, 2))):
        dd, ss = (("z_l",) + d, (2,) + sh) if lead else (d, sh)
        z, f, n = c.array(f"zeta {nm}", sh, -1e-3, 1e-3, nan=True), c.array(f"f {nm}", sh, -1.5e-4, 1.5e-4, nan=True), c.array(f"n2 {nm}", ss, -1e-3, 1e-3, nan=True)
        Z, F, N = c.elems(z), c.elems(f), c.elems(n)
        co = {k: np.arange(m) + 0.5 for k, m in zip(d, sh)}
        out = derived.calc_pv(da(z, d, co), da(f, d, co), da(n, dd, co), units=units, interp_n2=False)
        if set(out.dims) != set(dd):
            c.true(f"{nm} dimensions {out.dims}", False)
            continue

        def spec(*ix):
            q = ix[1:] if lead else ix
            v = (Z[q] + F[q]) * N[ix] / 9.8
            return c.abs(v) * 1e12 if units == "cm" else v
        c.compare(nm, out.transpose(*dd), objs(ss, spec), dims=dd, scale=1e-9 * (1e12 if units == "cm" else 1))


def bad(c):
    c.cover(derived.calc_pv)
    z = da(c.array("z", (2, 2), -1e-3, 1e-3), ("yq", "xq"))
    for u in ("km", "M", "", None):
        c.raises(f"units {u}", ValueError, lambda: derived.calc_pv(z, z, z, units=u, interp_n2=False))


def unitless(c):
    """centimetre values are the magnitude of the metre values on the 10^14 cm scale, never negative"""
    c.cover(derived.calc_pv)
    mk = lambda n, lo, hi: da(c.array(n, (2, 2), lo, hi), ("yq", "xq"))
    z, f, n = mk("z", -1e-3, 1e-3), mk("f", -1.5e-4, 1.5e-4), mk("n", -1e-3, 1e-3)
    a, b = (derived.calc_pv(z, f, n, units=u, interp_n2=False) for u in ("m", "cm"))
    A = c.elems(a)
    c.compare("magnitude", b, objs((2, 2), lambda j, i: c.abs(A[j, i]) * 1e12), dims=("yq", "xq"), scale=1e3)
    for q in np.ndindex(2, 2):
        c.true(f"nonnegative{q}", c.le(0.0, c.elems(b)[q]))


def cases(tier):
    q = [Case("unknown units", bad), Case("metres and centimetres", unitless)]
    q += [Case(f"other points {u} levels={k}", centred, units=u, lead=k) for u in ("m", "cm") for k in (False, True)]
    for s in (False, True):
        for u in (None, "m", "cm"):
            q.append(Case(f"symmetric={s} units={u}", pv, ny=2, nx=3, sym=s, units=u))
        q += [Case(f"gravity symmetric={s}", pv, ny=2, nx=2, sym=s, gravity=True), Case(f"levels symmetric={s}", pv, ny=2, nx=2, sym=s, nz=2), Case(f"names symmetric={s}", pv, ny=2, nx=3, sym=s, names={"xcenter": "ic", "ycenter": "jc", "xcorner": "ib", "ycorner": "jb"})]
    for u in ("m", "cm"):
        q.append(Case(f"no interpolation {u}", pv, ny=2, nx=2, units=u, interp=False))
    for s in (False, True):
        for i in (False, True):
            h = ("xh", "yh") if i else ("xq", "yq")
            q += [Case(f"own dimensions symmetric={s} interp={i}", general, sym=s, interp=i, zl=("time",), nl=("z_l",)), Case(f"all leading symmetric={s} interp={i}", general, sym=s, interp=i, units="cm", zl=("time", "z_l"), nl=("time", "z_l")),
                  Case(f"orders symmetric={s} interp={i}", general, sym=s, interp=i, zl=("time",), nl=("time",), ny=2, nx=3, orders={"zeta": ("xq", "time", "yq"), "f": ("xq", "yq"), "n2": h + ("time",)}), Case(f"one cell symmetric={s} interp={i}", general, sym=s, interp=i, ny=1, nx=1)]
        q += [Case(f"wide symmetric={s}", pv, ny=2, nx=6, sym=s, gravity=True), Case(f"tall symmetric={s}", pv, ny=5, nx=2, sym=s, units="cm"), Case(f"gravity cm symmetric={s}", pv, ny=2, nx=2, sym=s, gravity=True, units="cm"), Case(f"no interpolation gravity symmetric={s}", pv, ny=2, nx=2, sym=s, gravity=True, interp=False, nz=2)]
    for s in (False, True):
        for i in (False, True):
            h = ("xh", "yh") if i else ("xq", "yq")
            for k, o in (("zeta", ("xq", "yq")), ("f", ("xq", "yq")), ("n2", h)):
                q.append(Case(f"square, {k} in another order symmetric={s} interp={i}", general, sym=s, interp=i, ny=2, nx=2, orders={k: o}))
        q.append(Case(f"9x10 symmetric={s}", pv, ny=9, nx=10, sym=s))
    if tier == "thorough":
        q += [Case(f"large symmetric={s}", pv, ny=5, nx=6, sym=s, nz=2, gravity=True, budget=400) for s in (False, True)]
    return q
