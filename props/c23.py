"""C23: spiciness is Flament's polynomial"""
import numpy as np
import xarray as xr
from momlevel import derived, spice

from .common import Case, SHI, SLO, THI, TLO, da, months, objs

# Flament (2002), Prog. Oceanogr. 54, 493-501, table of b_ij (i: temperature, j: salinity - 35)
B = ((0.0, 7.7442e-1, -5.85e-3, -9.84e-4, -2.06e-4), (5.1655e-2, 2.034e-3, -2.742e-4, -8.5e-6, 1.36e-5), (6.64783e-3, -2.4681e-4, -1.428e-5, 3.337e-5, 7.894e-6),
     (-5.4023e-5, 7.326e-6, 7.0036e-6, -3.0412e-6, -1.0853e-6), (3.949e-7, -3.029e-8, -3.8209e-7, 1.0012e-7, 4.7133e-8), (-6.36e-10, -1.309e-9, 6.048e-9, -1.1409e-9, -6.676e-10))


def flament(t, s):
    """Horner form"""
    d = s - 35.0
    r = 0.0
    for row in reversed(B):
        q = 0.0
        for b in reversed(row):
            q = q * d + b
        r = r * t + q
    return r


def point(c, shape, dims, order=None, chunk=False, samedims=True):
    """any array shape; missing exactly where an input is"""
    c.cover(derived.calc_spice, spice.flament.spice)
    t, s = c.array("T", shape, TLO, THI, nan=True), c.array("S", shape, SLO, SHI, nan=True)
    A, S = da(t, dims), da(s, dims)
    if order:
        S = S.transpose(*order)
    out = derived.calc_spice(A, S)
    T_, S_ = c.elems(t), c.elems(s)
    c.compare("spice", out.transpose(*dims), objs(shape, lambda *i: flament(T_[i], S_[i])), dims=dims, scale=1.0)


def labelled(c, tdims, sdims, order=None):
    """labelled fields with their own dimensions, orders and coordinates"""
    c.cover(derived.calc_spice, spice.flament.spice)
    size = {"time": 2, "z_l": 3, "yh": 1, "xh": 2}
    co = {"time": months("noleap", 1, 1, 2), "z_l": [5.0, 15.0, 40.0], "yh": [7.0], "xh": [350.0, 340.0], "geolat": (("yh", "xh"), [[1.0, 2.0]]), "basin": 4}
    mk = lambda nm, d, lo, hi: c.array(nm, tuple(size[k] for k in d), lo, hi, nan=True)
    t, s = mk("T", tdims, TLO, THI), mk("S", sdims, SLO, SHI)
    use = lambda d: {k: v for k, v in co.items() if k in d or k == "basin" or (k == "geolat" and {"yh", "xh"} <= set(d))}
    T, S = da(t, tdims, use(tdims), name="thetao", attrs={"units": "degC"}), da(s, sdims, use(sdims), name="so", attrs={"units": "psu"})
    out = derived.calc_spice(T, S)
    T_, S_ = c.elems(t), c.elems(s)
    at = lambda v, d, ix: v[tuple(ix[tdims.index(k)] for k in d)]
    c.compare("spice", out, objs(tuple(size[k] for k in tdims), lambda *i: flament(T_[i], at(S_, sdims, i))), dims=tdims, scale=1.0)
    c.true("units", out.attrs.get("units") == "1")
    c.true("coordinates", set(use(tdims)) <= set(out.coords))


def whole(c):
    """whole-number fields give the same values as floating point ones"""
    c.cover(derived.calc_spice, spice.flament.spice)
    t, s = np.array([[0, 5, 31], [-1, 18, 2]]), np.array([[35, 30, 0], [36, 41, 33]])
    for lab, a, b in (("integers", t, s), ("integer temperature", t, s.astype(float)), ("integer salinity", t.astype(float), s), ("fractional temperature", t + 0.375, s), ("fractional salinity", t, s + 0.625), ("short integers", t.astype("int32"), s.astype("int16"))):
        o = np.asarray(spice.flament.spice(a, b))
        d = np.asarray(derived.calc_spice(da(a, ("y", "x")), da(b, ("y", "x"))))
        for i in np.ndindex(2, 3):
            for k, v in (("kernel", o[i]), ("labelled", d[i])):
                c.compare(f"{lab} {k} {i}", float(v), flament(float(a[i]), float(b[i])), dims=(), scale=1.0)


def kernel(c, shape):
    c.cover(spice.flament.spice)
    t, s = c.array("T", shape, TLO, THI, nan=True), c.array("S", shape, SLO, SHI, nan=True)
    T_, S_ = c.elems(t), c.elems(s)
    c.compare("spice", spice.flament.spice(t, s), objs(shape, lambda *i: flament(T_[i], S_[i])), scale=1.0)


def reference(c):
    """zero at 0 degrees and 35 PSU; at the reference salinity it grows with temperature between 0 and 30 degrees"""
    c.cover(derived.calc_spice)
    a, b = c.real("a", 0.0, 30.0), c.real("b", 0.0, 30.0)
    c.assume(c.le(a + 0.01, b))
    o = c.elems(derived.calc_spice(da(c.pack(objs((3,), lambda i: (a, b, c.const(0.0))[i])), ("x",)), da(np.full(3, 35.0), ("x",))))
    c.compare("origin", o[2], 0.0, dims=(), scale=1.0)
    c.compare("warm", o[0], flament(a, c.const(35.0)), dims=(), scale=1.0)


def mismatch(c):
    """fields of different shapes are refused by the kernel"""
    c.cover(spice.flament.spice)
    for a, b in (((2,), (3,)), ((2, 2), (4,)), ((2, 3), (3, 2))):
        c.raises(f"{a} {b}", (AssertionError, ValueError), lambda: spice.flament.spice(c.array("T", a, 0.0, 30.0), c.array("S", b, 30.0, 40.0)))


def scalars(c):
    """plain numbers are accepted"""
    c.cover(spice.flament.spice)
    for t in (-2, 0, 10, 31.5):
        for s in (0, 33.25, 35, 41):
            c.compare(f"{t} {s}", np.asarray(spice.flament.spice(t, s)).ravel()[0], flament(float(t), float(s)), dims=(), scale=1.0)


def cases(tier):
    q = [Case("vector", point, shape=(3,), dims=("x",)), Case("map", point, shape=(2, 3), dims=("yh", "xh")), Case("field", point, shape=(2, 2, 1, 2), dims=("time", "z_l", "yh", "xh")), Case("one point", point, shape=(1,), dims=("x",)), Case("salinity transposed", point, shape=(2, 3), dims=("yh", "xh"), order=("xh", "yh")), Case("salinity transposed, square", point, shape=(2, 2), dims=("yh", "xh"), order=("xh", "yh")), Case("cube transposed", point, shape=(2, 2, 2), dims=("z_l", "yh", "xh"), order=("xh", "z_l", "yh")),
         Case("kernel vector", kernel, shape=(2,)), Case("kernel cube", kernel, shape=(2, 1, 3)), Case("reference", reference), Case("mismatch", mismatch), Case("numbers", scalars)]
    F = ("time", "z_l", "yh", "xh")
    q += [Case("labelled", labelled, tdims=F, sdims=F), Case("labelled, orders", labelled, tdims=("xh", "z_l", "time", "yh"), sdims=("yh", "time", "xh", "z_l")), Case("labelled column", labelled, tdims=("time", "z_l"), sdims=("z_l", "time")), Case("whole numbers", whole),
          Case("kernel field", kernel, shape=(2, 2, 2, 2)), Case("kernel empty axis", kernel, shape=(1, 1, 1)), Case("long vector", point, shape=(30,), dims=("x",))]
    q += [Case("70x3", point, shape=(70, 3), dims=("x", "y")), Case("kernel long", kernel, shape=(120,))]
    if tier == "thorough":
        q += [Case("large", point, shape=(3, 4, 3, 4), dims=("time", "z_l", "yh", "xh"), budget=300)]
    return q
