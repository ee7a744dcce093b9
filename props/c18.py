"""C18: buoyancy frequency and its adjustment for unstable layers"""
import numpy as np
import xarray as xr
from momlevel import derived

from .common import Case, RHO, da, lin, objs, wright, wright_ds, wright_dt


def gradient(z, f):
    """second order derivative on any grid (three point Lagrange differences)"""
    n = len(z)

    def at(i0, i1, i2, k):
        zz = (z[i0], z[i1], z[i2])
        w = []
        for a in range(3):
            b, d = [q for q in range(3) if q != a]
            w.append((2 * z[k] - zz[b] - zz[d]) / ((zz[a] - zz[b]) * (zz[a] - zz[d])))
        return w[0] * f[i0] + w[1] * f[i1] + w[2] * f[i2]
    return [at(0, 1, 2, 0)] + [at(k - 1, k, k + 1, k) for k in range(1, n - 1)] + [at(n - 3, n - 2, n - 1, n - 1)]


def expand(c, eos, t, s, p):
    """thermal expansion, haline contraction"""
    if eos == "linear":
        r = lin(t, s)
        return 0.2 / r, 0.8 / r
    r = wright(t, s, p)
    return -(wright_dt(t, s, p) / r), wright_ds(t, s, p) / r


def levels(c, nz, free, up=False):
    """free levels (any spacing) or fixed ones, from the surface down or from the bottom up"""
    if up:
        return levels(c, nz, free)[::-1]
    if not free:
        return np.array(([2.5, 10.0, 20.0, 32.5, 51.25, 75.0, 100.0, 125.0] + [150.0 + 3.0 * k * k for k in range(max(0, nz - 8))])[:nz])
    zl = c.elems(c.array("z", (nz,), 0.0, 6000.0))
    for k in range(nz - 1):
        c.assume(c.le(zl[k] + 1.0, zl[k + 1]))
    return zl


def n2(c, nz, eos, free=False, nt=None, g=None, patm=None, missing=True, order=None, adjust=False, ny=1, nx=1, up=False, extra=False, sorder=None, zname="z_l", flat=False):
    c.cover(derived.calc_n2, derived.calc_alpha, derived.calc_beta)
    zl = levels(c, nz, free, up)
    lead = () if nt is None else (nt,)
    sh = lead + (nz, ny, nx)
    dims = (("time",) if nt else ()) + (zname, "yh", "xh")
    t, s = c.array("T", sh, -10.0, 60.0, nan=missing), c.array("S", sh, -2.0, 80.0, nan=missing)
    T, S = c.elems(t), c.elems(s)
    kw = {}
    if g is not None:
        kw["gravity"] = g = c.real("g", -30.0, 30.0)
    pm = None
    if patm == "map":
        pa_ = c.array("patm", (ny, nx), 0.0, 2e5)
        pm, patm = c.elems(pa_), None
        kw["patm"] = da(pa_, ("yh", "xh"))
    elif patm is not None:
        kw["patm"] = patm = c.real("patm", 0.0, 2e5)
    if zname != "z_l":
        kw["zcoord"] = zname
    A, B = (da(v, dims, {zname: c.pack(zl)}) for v in (t, s))
    if extra:
        A, B = (v.assign_coords(yh=np.linspace(50.0, -50.0, ny), xh=np.arange(nx) * 10.0, geolat=(("yh", "xh"), np.ones((ny, nx))), run=3, depth=(zname, 10.0 * np.arange(nz))) for v in (A, B))
    if order:
        A, B = A.transpose(*order), B.transpose(*order)
    if sorder:
        B = B.transpose(*sorder)
    if flat:            # a single profile
        A, B = (v.isel(yh=0, xh=0, drop=True) for v in (A, B))
    out = derived.calc_n2(A, B, eos=eos, **kw) if eos != "Wright" else derived.calc_n2(A, B, **kw)
    gg, pa = (-9.8 if g is None else g), (101325.0 if patm is None else patm)
    spec = np.empty(sh, dtype=object)
    for q in np.ndindex(*lead, ny, nx):
        ix = lambda k: q[:-2] + (k,) + q[-2:]
        dt, ds = gradient(zl, [T[ix(k)] for k in range(nz)]), gradient(zl, [S[ix(k)] for k in range(nz)])
        for k in range(nz):
            al, be = expand(c, eos, T[ix(k)], S[ix(k)], zl[k] * 1e4 + (pa if pm is None else pm[q[-2:]]))
            spec[ix(k)] = gg * (al * dt[k] - be * ds[k])
    if flat:
        c.compare("N2", out, spec[:, 0, 0], dims=(zname,), scale=1e-5)
        return
    c.compare("N2", out.transpose(*dims), spec, dims=dims, scale=1e-5)
    c.true("units", out.attrs.get("units") == "s-2")


def stable(c, nz):
    """density increasing downwards gives a positive N2, decreasing a negative one (constant gradients, linear equation of state)"""
    c.cover(derived.calc_n2)
    zl = levels(c, nz, True)
    t0, s0, a, b = c.real("t0", 5.0, 15.0), c.real("s0", 30.0, 35.0), c.real("a", -1e-3, 1e-3), c.real("b", -1e-4, 1e-4)
    mk = lambda u, v: da(c.pack(objs((nz,), lambda k: u + v * zl[k])), ("z_l",), {"z_l": c.pack(zl)})
    out = c.elems(derived.calc_n2(mk(t0, a), mk(s0, b), eos="linear"))
    drho = -0.2 * a + 0.8 * b
    for k in range(nz):
        c.true(f"sign[{k}]", c.and_(c.or_(c.le(drho, 1e-9), c.lt(0.0, out[k])), c.or_(c.le(-1e-9, drho), c.lt(out[k], 0.0))))


def carried(c, col, start):
    """nonpositive values take the last positive one above, starting from `start`"""
    out, v = [], start
    for x in col:
        bad = c.or_(c.isnan(x), c.le(c.where(c.isnan(x), 0.0, x), 0.0))
        v = c.where(bad, v, x)
        out.append(c.where(c.isnan(x), c.nan, v))
    return out


def adjust(c, nz, ny=1, nx=1, nt=None, order=None, zname="z_l"):
    c.cover(derived.adjust_negative_n2)
    lead = () if nt is None else (nt,)
    sh = lead + (nz, ny, nx)
    dims = (("time",) if nt else ()) + (zname, "yh", "xh")
    x = c.array("n2", sh, -1.0, 1.0, nan=True)
    e = c.elems(x)
    A = da(x, dims, {zname: np.arange(nz) * 10.0 + 5}, attrs={"units": "s-2"})
    if order:
        A = A.transpose(*order)
    out = derived.adjust_negative_n2(A) if zname == "z_l" else derived.adjust_negative_n2(A, zcoord=zname)
    spec = np.empty(sh, dtype=object)
    alt = np.empty(sh, dtype=object)
    first = A.dims[0]
    for q in np.ndindex(*lead, ny, nx):
        ix = lambda k: q[:-2] + (k,) + q[-2:]
        col = [e[ix(k)] for k in range(nz)]
        s = carried(c, col, 1e-8)
        # recorded finding: the surface value is only supplied along the first dimension of the array
        pos = {"time": q[0] if nt else None, "yh": q[-2], "xh": q[-1]}.get(first)
        if pos == 0:
            a = [c.where(c.isnan(v), c.nan, c.where(c.le(c.where(c.isnan(v), 1.0, v), 0.0), 1e-8, v)) for v in col]
        else:
            a = carried(c, col, c.nan)
        for k in range(nz):
            spec[ix(k)], alt[ix(k)] = s[k], a[k]
    known = None
    if first != zname:
        cond = np.empty(sh, dtype=object)
        for q in np.ndindex(*sh):
            # the finding concerns layers that need the carried value
            cond[q] = c.and_(c.not_(c.isnan(e[q])), c.or_(c.and_(c.isnan(alt[q]), c.not_(c.isnan(spec[q]))), c.le(c.where(c.isnan(e[q]), 1.0, e[q]), 0.0)))
        known = ("F2", cond, alt)
    c.compare("adjusted", out.transpose(*dims), spec, dims=dims, scale=1e-5, known=known)
    c.true("units kept", out.attrs.get("units") == "s-2")


def never_negative(c, nz):
    """the adjusted profile is positive wherever it is present, and present exactly where N2 is"""
    c.cover(derived.adjust_negative_n2)
    x = c.array("n2", (nz, 1, 1), -1.0, 1.0, nan=True)
    e = c.elems(x)[:, 0, 0]
    o = c.elems(derived.adjust_negative_n2(da(x, ("z_l", "yh", "xh"), {"z_l": np.arange(nz) * 1.0})).transpose("z_l", "yh", "xh"))[:, 0, 0]
    for k in range(nz):
        c.true(f"present[{k}]", c.or_(c.and_(c.isnan(e[k]), c.isnan(o[k])), c.and_(c.not_(c.isnan(e[k])), c.not_(c.isnan(o[k])), c.lt(0.0, c.where(c.isnan(o[k]), 1.0, o[k])))))
        c.true(f"positive values kept[{k}]", c.or_(c.isnan(e[k]), c.le(c.where(c.isnan(e[k]), 0.0, e[k]), 0.0), c.eq(c.where(c.isnan(o[k]), 0.0, o[k]), c.where(c.isnan(e[k]), 0.0, e[k]))))


def combined(c, nz, eos="linear", zname="z_l", nx=1, opts=False, free=False):
    """asking for the adjustment is the same as applying it"""
    c.cover(derived.calc_n2, derived.adjust_negative_n2)
    t, s = c.array("T", (nz, 1, nx), -10.0, 60.0, nan=True), c.array("S", (nz, 1, nx), -2.0, 80.0, nan=True)
    A, B = (da(v, (zname, "yh", "xh"), {zname: c.pack(levels(c, nz, free))}) for v in (t, s))
    kw = {"eos": eos}
    kz = {} if zname == "z_l" else {"zcoord": zname}
    if opts:
        kw.update(gravity=c.real("g", -30.0, 30.0), patm=c.real("patm", 0.0, 2e5))
    p = derived.calc_n2(A, B, adjust_negative=True, **kw, **kz)
    q = derived.adjust_negative_n2(derived.calc_n2(A, B, **kw, **kz), **kz)
    c.compare("adjusted", p, c.elems(q), dims=tuple(q.dims), scale=1e-6)


def cases(tier):
    q = []
    for e in ("Wright", "linear"):
        q += [Case(f"N2 {e}", n2, nz=4, eos=e), Case(f"N2 {e} any levels", n2, nz=3, eos=e, free=True), Case(f"N2 {e} gravity pressure", n2, nz=3, eos=e, g=True, patm=True), Case(f"N2 {e} time", n2, nz=3, eos=e, nt=2, nx=2), Case(f"N2 {e} order", n2, nz=3, eos=e, nt=2, order=("xh", "time", "yh", "z_l"))]
    q += [Case("stable", stable, nz=3), Case("stable four", stable, nz=4), Case("adjust", adjust, nz=4, nx=2), Case("adjust five", adjust, nz=5), Case("adjust z first", adjust, nz=3, nt=2, order=("z_l", "time", "yh", "xh")), Case("adjust time first", adjust, nz=3, nt=2),
          Case("adjust x first", adjust, nz=3, nx=2, order=("xh", "yh", "z_l")), Case("adjust name", adjust, nz=3, zname="lev"), Case("never negative", never_negative, nz=4), Case("combined", combined, nz=3)]
    for e in ("Wright", "linear"):
        q += [Case(f"N2 {e} bottom up", n2, nz=4, eos=e, up=True), Case(f"N2 {e} any levels bottom up", n2, nz=3, eos=e, free=True, up=True), Case(f"N2 {e} pressure map", n2, nz=3, eos=e, patm="map", nx=2, g=True), Case(f"N2 {e} labelled", n2, nz=3, eos=e, extra=True, nt=2, nx=2, ny=2),
              Case(f"N2 {e} mixed orders", n2, nz=3, eos=e, nt=2, nx=2, sorder=("xh", "z_l", "yh", "time")), Case(f"N2 {e} name", n2, nz=3, eos=e, zname="lev", nx=2, g=True, patm=True), Case(f"N2 {e} profile", n2, nz=4, eos=e, flat=True), Case(f"N2 {e} profile any levels", n2, nz=4, eos=e, flat=True, free=True, missing=False), Case(f"N2 {e} six", n2, nz=6, eos=e),
              Case(f"combined {e}", combined, nz=3, eos=e, opts=True, nx=2), Case(f"combined {e} name", combined, nz=4, eos=e, zname="lev", opts=True)]
    q += [Case("stable five", stable, nz=5), Case("adjust map", adjust, nz=3, ny=2, nx=2), Case("adjust eight", adjust, nz=8), Case("adjust two", adjust, nz=2, nx=2), Case("adjust one", adjust, nz=1), Case("adjust order", adjust, nz=3, ny=2, nx=2, order=("z_l", "xh", "yh")), Case("adjust name z first", adjust, nz=3, nt=2, zname="lev", order=("lev", "xh", "time", "yh")), Case("adjust time first wide", adjust, nz=3, nt=3, nx=2), Case("combined any levels", combined, nz=3, free=True), Case("never negative seven", never_negative, nz=7)]
    q += [Case(f"N2 {e} nz=80", n2, nz=80, eos=e) for e in ("Wright", "linear")] + [Case("adjust thirty", adjust, nz=30), Case("adjust eighty", adjust, nz=80), Case("adjust wide", adjust, nz=2, ny=5, nx=5)]
    if tier == "thorough":
        q += [Case(f"N2 {e} deep", n2, nz=8, eos=e, nt=2, ny=2, nx=2, budget=500) for e in ("Wright", "linear")] + [Case("adjust deep", adjust, nz=8, ny=2, nx=2, budget=500), Case("never negative deep", never_negative, nz=8), Case("N2 any levels five", n2, nz=5, eos="linear", free=True, budget=500), Case("adjust time deep", adjust, nz=4, nt=3, nx=2, budget=500)]
    return q
