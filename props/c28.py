"""C28: inverse barometer"""
import numpy as np
import xarray as xr
from momlevel import dynamic

from .common import Case, RHO, SHI, SLO, THI, TLO, da, months, objs


def height(c, shape, dims, eos=None, gravity=False, order=None, missing=True):
    """-pressure / (density * gravity), density at the surface temperature, salinity and pressure"""
    c.cover(dynamic.inverse_barometer)
    t, s, p = c.array("T", shape, TLO, THI, nan=missing), c.array("S", shape, SLO, SHI, nan=missing), c.array("p", shape, 0.0, 2e5, nan=missing)
    T, S, P = c.elems(t), c.elems(s), c.elems(p)
    kw, g = {}, 9.8
    if eos:
        kw["equation_of_state"] = eos
    if gravity:
        kw["gravity"] = g = c.real("g", 0.1, 30.0)
    X = [da(v, dims) for v in (t, s, p)]
    if order:
        X[1] = X[1].transpose(*order)
    out = dynamic.inverse_barometer(*X, **kw)
    f = RHO["linear" if eos and eos.lower() == "linear" else "Wright"]
    c.compare("height", out, objs(shape, lambda *i: -(P[i] / (f(T[i], S[i], P[i]) * g))), dims=dims, scale=1.0)
    c.true("units", out.attrs.get("units") == "m" and out.name == "ibh")


def mixed(c, what, eos=None):
    """fields with different dimensions or coordinates combine by name"""
    c.cover(dynamic.inverse_barometer)
    nt, ny, nx = 2, 2, 2
    D3, D2 = ("time", "yh", "xh"), ("yh", "xh")
    full = (nt, ny, nx)
    shp = {"static water": (D2, D2, D3), "static pressure": (D3, D3, D2), "static salinity": (D3, D2, D3), "orders": (("xh", "time", "yh"), D3, ("yh", "xh", "time")), "labelled": (D3, D3, D3), "ensemble": (D3, D3, ("member",) + D3), "one pressure": (D3, D3, None), "one salinity": (D3, None, D3), "series": (("time",), ("time",), ("time",))}[what]
    size = {"time": nt, "yh": ny, "xh": nx, "member": 2}
    lim = ((TLO, THI), (SLO, SHI), (0.0, 2e5))
    X, E = [], []
    for nm, d, (lo, hi) in zip("TSp", shp, lim):
        if d is None:
            v = c.real(nm, lo, hi)
            X.append(v)
            E.append((v, None))
            continue
        a = c.array(nm, tuple(size[k] for k in d), lo, hi, nan=True)
        co = {}
        if what == "labelled":
            co = {"time": months("noleap", 1, 1, nt), "yh": [50.0, 40.0], "xh": [300.0, 310.0], "geolat": (D2, np.arange(4.0).reshape(2, 2)), "z_l": 2.5}
        X.append(da(a, d, co, name={"T": "tos", "S": "sos", "p": "pso"}[nm], attrs={"units": "x"}))
        E.append((c.elems(a), d))
    dims = ("member",) + D3 if what == "ensemble" else ("time",) if what == "series" else D3
    kw = {"equation_of_state": eos} if eos else {}
    out = dynamic.inverse_barometer(*X, **kw)
    f = RHO["linear" if eos == "linear" else "Wright"]

    def at(e, ix):
        v, d = e
        return v if d is None else v[tuple(ix[dims.index(k)] for k in d)]

    def spec(*ix):
        t, s, p = (at(e, ix) for e in E)
        return -(p / (f(t, s, p) * 9.8))
    c.compare("height", out, objs(tuple(size[k] for k in dims), spec), dims=dims, scale=1.0)
    c.true("units", out.attrs.get("units") == "m" and out.name == "ibh")


def sign(c):
    """higher pressure pushes the sea surface down; about a centimetre per hectopascal"""
    c.cover(dynamic.inverse_barometer)
    t, s = c.real("T", -2.0, 35.0), c.real("S", 20.0, 42.0)
    p, d = c.real("p", 9e4, 1.05e5), c.real("d", 100.0, 3000.0)
    mk = lambda *v: da(c.pack(objs((len(v),), lambda i: v[i])), ("x",))
    o = c.elems(dynamic.inverse_barometer(mk(t, t), mk(s, s), mk(p, p + d), equation_of_state="linear"))
    c.true("negative", c.and_(c.lt(o[0], 0.0), c.lt(o[1], 0.0)))
    c.true("falls with pressure", c.lt(o[1], o[0]))
    c.true("centimetre per hectopascal", c.and_(c.le(0.9e-4 * d, o[0] - o[1]), c.le(o[0] - o[1], 1.1e-4 * d)))


def cases(tier):
    q = [Case("default", height, shape=(2, 2), dims=("yh", "xh")), Case("time", height, shape=(2, 1, 2), dims=("time", "yh", "xh")), Case("linear", height, shape=(2, 2), dims=("yh", "xh"), eos="linear"), Case("name of the law in any case", height, shape=(2,), dims=("x",), eos="WRIGHT"), Case("gravity", height, shape=(3,), dims=("x",), gravity=True),
         Case("gravity linear", height, shape=(3,), dims=("x",), gravity=True, eos="Linear"), Case("dimension order", height, shape=(2, 3), dims=("yh", "xh"), order=("xh", "yh")), Case("sign", sign)]
    q += [Case(f"{w} {e or 'default'}", mixed, what=w, eos=e) for w in ("static water", "static pressure", "static salinity", "orders", "labelled", "ensemble", "one pressure", "one salinity", "series") for e in (None, "linear")]
    q += [Case("order, gravity", height, shape=(2, 1, 2), dims=("time", "yh", "xh"), order=("xh", "time", "yh"), gravity=True, eos="wright"), Case("one cell", height, shape=(1,), dims=("x",), gravity=True), Case("no missing", height, shape=(2, 2), dims=("yh", "xh"), missing=False, gravity=True), Case("row", height, shape=(12,), dims=("x",))]
    q += [Case("12x12", height, shape=(12, 12), dims=("yh", "xh"), gravity=True)]
    if tier == "thorough":
        q += [Case("large", height, shape=(3, 4, 4), dims=("time", "yh", "xh"), gravity=True, budget=300)]
    return q
