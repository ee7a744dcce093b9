"""C04: layer thicknesses tile the water column"""
import numpy as np
import xarray as xr
from momlevel import derived

from .common import Case, da, dz_of, grid_z, objs


DMAX = 1.0e6     # far below the deepest level: fill values of a depth field are deep water


def inputs(c, nz, ny, nx, missing, names=("z_l", "z_i", "yh", "xh"), inside=True):
    zl, zi = grid_z(c, nz, inside=inside)
    depth = c.array("depth", (ny, nx), 0.0, DMAX, nan=missing)
    z, zb, y, x = names
    return (zl, zi, c.elems(depth), da(c.pack(zl), (z,), {z: c.pack(zl)}), da(c.pack(zi), (zb,), {zb: c.pack(zi)}), da(depth, (y, x)))


def thickness(c, nz, ny, nx, missing=True, names=("z_l", "z_i", "yh", "xh"), inside=True):
    """any vertical grid with nz layers (levels and interfaces free in [0, 6000] m), depth free in [0, 1e6] m or missing"""
    c.cover(derived.calc_dz)
    zl, zi, de, levels, inter, dep = inputs(c, nz, ny, nx, missing, names, inside)
    out = derived.calc_dz(levels, inter, dep)
    c.compare("thickness", out, objs((nz, ny, nx), lambda k, j, i: dz_of(c, zi[k], zi[k + 1], de[j, i])), dims=(names[0], names[2], names[3]), scale=1000.0)


def tiling(c, nz):
    """sum over the layers equals the depth, capped at the deepest interface; no layer is negative or thicker than its cell"""
    c.cover(derived.calc_dz)
    zl, zi, de, levels, inter, dep = inputs(c, nz, 1, 1, True)
    c.assume(c.eq(zi[0], 0.0))
    out = c.elems(derived.calc_dz(levels, inter, dep).transpose("z_l", "yh", "xh"))[:, 0, 0]
    d = c.where(c.isnan(de[0, 0]), 0.0, de[0, 0])
    c.equal("column total", c.sum(out), c.min(d, zi[nz]), scale=1000.0)
    for k in range(nz):
        c.true(f"bounds[{k}]", c.and_(c.le(-1e-6, out[k]), c.le(out[k], zi[k + 1] - zi[k] + 1e-6)))


def window(c, nz, use, fraction=False):
    """free window: top in [0, 6000] m and/or bottom in [0, 7000] m"""
    c.cover(derived.calc_dz)
    zl, zi, de, levels, inter, dep = inputs(c, nz, 1, 2, True)
    kw, top, bot = {}, 0.0, None
    if "t" in use:
        kw["top"] = top = c.real("top", 0.0, 7000.0)
    if "b" in use:
        kw["bottom"] = bot = c.real("bottom", 0.0, DMAX)
    if "t" in use and "b" in use:
        c.assume(c.le(top, bot))
    out = derived.calc_dz(levels, inter, dep, fraction=fraction, **kw)
    spec = objs((nz, 1, 2), lambda k, j, i: dz_of(c, zi[k], zi[k + 1], de[j, i], top, bot))
    known = None

    def floor_(j, i):
        d = c.where(c.isnan(de[j, i]), 0.0, de[j, i])
        return d if bot is None else c.min(d, bot)
    if "t" in use:
        # recorded finding: the floor of the column and `top` in one cell
        cond = objs((nz, 1, 2), lambda k, j, i: c.and_(c.lt(zi[k], top), c.lt(floor_(j, i), zi[k + 1])))
        alt = objs((nz, 1, 2), lambda k, j, i: c.min(c.max(0.0, zi[k + 1] - top), c.min(c.max(0.0, floor_(j, i) - zi[k]), zi[k + 1] - zi[k])))
        known = ("F1", cond, alt)
    skip = None
    if fraction:
        f = lambda a: objs((nz, 1, 2), lambda k, j, i: c.where(c.le(a[k, j, i], 0.0), c.nan, a[k, j, i] / (zi[k + 1] - zi[k])))
        spec = f(spec)
        if known:
            known = ("F1", known[1], f(known[2]))
    c.compare("thickness", out, spec, dims=("z_l", "yh", "xh"), scale=1.0 if fraction else 1000.0, known=known, skip=skip)


def layout(c, kind, use=""):
    """depth along one dimension, transposed, integer, with extra coordinates, or over a third dimension; limits optional"""
    c.cover(derived.calc_dz)
    nz = 3
    zl, zi = grid_z(c, nz)
    levels, inter = da(c.pack(zl), ("z_l",), {"z_l": c.pack(zl)}), da(c.pack(zi), ("z_i",), {"z_i": c.pack(zi)})
    sh, dims = {"line": ((3,), ("x",)), "transposed": ((3, 2), ("xh", "yh")), "ints": ((1, 3), ("yh", "xh")), "labelled": ((2, 3), ("yh", "xh")),
                "cube": ((2, 1, 2), ("time", "yh", "xh")), "big": ((4, 5), ("yh", "xh"))}[kind]
    d = c.ints("depth", sh, 0, 7000) if kind == "ints" else c.array("depth", sh, 0.0, DMAX, nan=True)
    de = c.elems(d)
    D = da(d, dims, {"yh": [10.0, -10.0], "xh": [0.0, 120.0, 240.0], "lon": (("yh", "xh"), np.arange(6.0).reshape(2, 3))} if kind == "labelled" else None)
    kw, bot = {}, None
    if use == "b":
        kw["bottom"] = bot = c.real("bottom", 0.0, DMAX)
    out = derived.calc_dz(levels, inter, D, **kw)
    c.compare("thickness", out, objs((nz,) + sh, lambda k, *x: dz_of(c, zi[k], zi[k + 1], de[x], 0.0, bot)), dims=("z_l",) + dims, scale=1000.0)
    if kind == "labelled":
        for n, v in (("yh", [10.0, -10.0]), ("xh", [0.0, 120.0, 240.0])):
            c.true(f"coordinate {n}", n in out.coords and list(np.asarray(out[n].values, dtype=float)) == v)


def rejects(c, which):
    """one free element of depth / levels / interfaces is negative: rejected; none is: accepted"""
    c.cover(derived.calc_dz)
    nz = 2
    lo = {k: (-100.0 if k == which else 0.0) for k in ("depth", "levels", "interfaces")}
    zl, zi = c.array("l", (nz,), lo["levels"], 100.0), c.array("i", (nz + 1,), lo["interfaces"], 100.0)
    de = c.array("depth", (1, 2), lo["depth"], 100.0, nan=True)
    l, i, d = c.elems(zl), c.elems(zi), c.elems(de)
    neg = {"depth": [c.and_(c.not_(c.isnan(x)), c.lt(x, 0.0)) for x in d.ravel()], "levels": [c.lt(x, 0.0) for x in l], "interfaces": [c.lt(x, 0.0) for x in i]}[which]
    out, e = c.attempt(lambda: derived.calc_dz(da(zl, ("z_l",)), da(zi, ("z_i",)), da(de, ("yh", "xh"))))
    bad = c.or_(*neg)
    c.true(f"{which}: rejected exactly when negative", bad if isinstance(e, (AssertionError, ValueError)) else c.not_(bad))
    if e is not None and not isinstance(e, (AssertionError, ValueError)):
        raise e


def cases(tier):
    q = [Case("thickness nz=1", thickness, nz=1, ny=1, nx=1), Case("thickness nz=3", thickness, nz=3, ny=1, nx=2),
         Case("thickness names", thickness, nz=2, ny=2, nx=1, names=("lev", "lev_bnds", "j", "i")),
         Case("tiling nz=2", tiling, nz=2), Case("tiling nz=4", tiling, nz=4)]
    for u in ("t", "b", "tb"):
        q.append(Case(f"window {u}", window, nz=3, use=u))
        q.append(Case(f"fraction {u}", window, nz=2, use=u, fraction=True))
    q.append(Case("fraction", window, nz=3, use="", fraction=True))
    for k in ("line", "transposed", "ints", "labelled", "cube", "big"):
        q.append(Case(f"layout {k}", layout, kind=k))
    q += [Case("layout line bottom", layout, kind="line", use="b"), Case("layout transposed bottom", layout, kind="transposed", use="b")]
    q.append(Case("thickness nz=6", thickness, nz=6, ny=1, nx=1))
    for w in ("depth", "levels", "interfaces"):
        q.append(Case(f"rejects negative {w}", rejects, which=w))
    q += [Case("levels anywhere", thickness, nz=3, ny=1, nx=2, inside=False), Case("thickness nz=80", thickness, nz=80, ny=1, nx=1)]
    # many layers, wide maps
    q += [Case("thickness nz=35", thickness, nz=35, ny=1, nx=1), Case("window t nz=30", window, nz=30, use="t"), Case("window b nz=30", window, nz=30, use="b"), Case("fraction b nz=25", window, nz=25, use="b", fraction=True), Case("window tb nz=12", window, nz=12, use="tb"), Case("thickness 12x12", thickness, nz=2, ny=12, nx=12)]
    if tier == "thorough":
        q += [Case("thickness nz=8", thickness, nz=8, ny=2, nx=2), Case("tiling nz=8", tiling, nz=8, budget=600, qtimeout=120), Case("window nz=6", window, nz=6, use="tb", budget=300)]
    return q
