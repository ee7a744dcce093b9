"""C01: Wright density, and the density entry points built on it"""
import numpy as np
import xarray as xr
from momlevel import derived, eos

from .common import Case, PHI, PLO, RHO, SHI, SLO, THI, TLO, da, lin, objs, wright


def kernel(c, n, missing):
    """n independent points: T in [-3, 40] degC, S in [0, 45], p in [0, 1.2e8] Pa, any of them missing"""
    c.cover(eos.wright.density)
    t = c.array("T", (n,), TLO, THI, nan=missing)
    s = c.array("S", (n,), SLO, SHI, nan=missing)
    p = c.array("p", (n,), PLO, PHI, nan=missing)
    out = eos.wright.density(t, s, p)
    te, se, pe = c.elems(t), c.elems(s), c.elems(p)
    c.compare("density", out, objs((n,), lambda i: wright(te[i], se[i], pe[i])), scale=1000.0)


def broadcast(c, via, eosname):
    """T(time,z,y,x), S likewise, p(z) or scalar; sizes 2,2,1,2"""
    c.cover(derived.calc_rho, f"momlevel.eos.{eosname.lower()}.density", "momlevel.util.eos_func_from_str")
    dims = ("time", "z_l", "yh", "xh")
    sh = (2, 2, 1, 2)
    t = c.array("T", sh, TLO, THI, nan=True)
    s = c.array("S", sh, SLO, SHI, nan=True)
    te, se = c.elems(t), c.elems(s)
    T, S = da(t, dims), da(s, dims)
    f = RHO[eosname.capitalize() if eosname.lower() == "wright" else "linear"]
    if via == "profile":
        p = c.array("p", (2,), PLO, PHI)
        pe = c.elems(p)
        out = derived.calc_rho(T, S, da(p, ("z_l",)), eos=eosname)
        spec = objs(sh, lambda a, k, j, i: f(te[a, k, j, i], se[a, k, j, i], pe[k]))
    elif via == "scalar":
        p = c.real("p", PLO, PHI)
        out = derived.calc_rho(T, S, p if not c.symbolic else c.pack(objs((), lambda: p)), eos=eosname)
        spec = objs(sh, lambda a, k, j, i: f(te[a, k, j, i], se[a, k, j, i], p))
    else:
        p = c.array("p", sh[::-1], PLO, PHI)
        pe = c.elems(p)
        out = derived.calc_rho(T, S, da(p, dims[::-1]), eos=eosname)
        spec = objs(sh, lambda a, k, j, i: f(te[a, k, j, i], se[a, k, j, i], pe[i, j, k, a]))
    c.compare("calc_rho", out, spec, dims=dims, scale=1000.0)


def potential(c, eosname, level, patm):
    """potential density at a fixed reference depth; level and surface pressure free (0..7500 m, 0..2e5 Pa) or default"""
    c.cover(derived.calc_pdens, derived.calc_rho)
    sh = (2, 2)
    t = c.array("T", sh, TLO, THI, nan=True)
    s = c.array("S", sh, SLO, SHI)
    te, se = c.elems(t), c.elems(s)
    T, S = da(t, ("y", "x")), da(s, ("y", "x"))
    kw = {}
    lv, pa = 0.0, 101325.0
    if level == "free":
        lv = c.real("level", 0.0, 7500.0)
        kw["level"] = lv
    elif level is not None:
        lv = level
        kw["level"] = level
    if patm == "free":
        pa = c.real("patm", 0.0, 2.0e5)
        kw["patm"] = pa
    out = derived.calc_pdens(T, S, eos=eosname, **kw)
    f = RHO[eosname]
    c.compare("potential density", out, objs(sh, lambda j, i: f(te[j, i], se[j, i], lv * 1.0e4 + pa)), dims=("y", "x"), scale=1000.0)


def layouts(c, kind, eosname):
    """temperature, salinity and pressure on different dimensions or in different orders; integer temperatures; scalars"""
    c.cover(derived.calc_rho, "momlevel.util.eos_func_from_str")
    f = RHO[eosname]
    if kind == "ints":
        t, s = c.ints("T", (2, 2), -2, 35), c.ints("S", (2, 2), 0, 42)
        p = c.array("p", (2,), PLO, PHI, nan=True)
        te, se, pe = c.elems(t), c.elems(s), c.elems(p)
        out = derived.calc_rho(da(t, ("z_l", "x")), da(s, ("z_l", "x")), da(p, ("z_l",)), eos=eosname)
        c.compare("rho", out, objs((2, 2), lambda k, i: f(te[k, i], se[k, i], pe[k])), dims=("z_l", "x"), scale=1000.0)
        return
    if kind == "mixed":      # T(time,z,x) S(x,z) p(time)
        t, s, p = c.array("T", (2, 2, 2), TLO, THI, nan=True), c.array("S", (2, 2), SLO, SHI, nan=True), c.array("p", (2,), PLO, PHI, nan=eosname == "Wright")
        te, se, pe = c.elems(t), c.elems(s), c.elems(p)
        out = derived.calc_rho(da(t, ("time", "z_l", "x")), da(s, ("x", "z_l")), da(p, ("time",)), eos=eosname)
        c.compare("rho", out, objs((2, 2, 2), lambda a, k, i: f(te[a, k, i], se[i, k], pe[a])), dims=("time", "z_l", "x"), scale=1000.0)
        return
    if kind == "permuted":   # same shape, every field in its own order, with or without labels
        t, s, p = c.array("T", (2, 2, 2), TLO, THI, nan=True), c.array("S", (2, 2, 2), SLO, SHI, nan=True), c.array("p", (2, 2, 2), PLO, PHI, nan=eosname == "Wright")
        te, se, pe = c.elems(t), c.elems(s), c.elems(p)
        co = {"z_l": [5.0, 15.0], "y": [1.0, 2.0], "x": [3.0, 4.0]}
        for nm, k in (("plain", None), ("labelled", co)):
            out = derived.calc_rho(da(t, ("z_l", "y", "x"), k), da(s, ("x", "z_l", "y"), k), da(p, ("y", "x", "z_l"), k), eos=eosname)
            c.compare(f"rho {nm}", out, objs((2, 2, 2), lambda k, j, i: f(te[k, j, i], se[i, k, j], pe[j, i, k])), dims=("z_l", "y", "x"), scale=1000.0)
        pd = derived.calc_pdens(da(t, ("z_l", "y", "x")), da(s, ("x", "z_l", "y")), level=3.0, eos=eosname)
        c.compare("potential density", pd, objs((2, 2, 2), lambda k, j, i: f(te[k, j, i], se[i, k, j], 3.0e4 + 101325.0)), dims=("z_l", "y", "x"), scale=1000.0)
        return
    if kind == "outer":      # T(y) S(x): the result spans both
        t, s, p = c.array("T", (3,), TLO, THI, nan=True), c.array("S", (2,), SLO, SHI, nan=True), c.array("p", (), PLO, PHI)
        te, se, pe = c.elems(t), c.elems(s), c.elems(p)
        out = derived.calc_rho(da(t, ("y",)), da(s, ("x",)), da(p, ()), eos=eosname)
        c.compare("rho", out, objs((3, 2), lambda j, i: f(te[j], se[i], pe[()])), dims=("y", "x"), scale=1000.0)
        return
    if kind == "pressure wider":      # a profile of pressures for a map of temperature and salinity
        t, s, p = c.array("T", (2, 2), TLO, THI, nan=True), c.array("S", (2,), SLO, SHI, nan=True), c.array("p", (2, 3), PLO, PHI, nan=eosname == "Wright")
        te, se, pe = c.elems(t), c.elems(s), c.elems(p)
        out = derived.calc_rho(da(t, ("y", "x")), da(s, ("x",)), da(p, ("x", "z_l")), eos=eosname)
        c.compare("rho", out, objs((3, 2, 2), lambda k, j, i: f(te[j, i], se[i], pe[i, k])), dims=("z_l", "y", "x"), scale=1000.0)
        return
    if kind == "all ints":
        t, s, p = c.ints("T", (3,), -2, 35), c.ints("S", (3,), 0, 42), c.ints("p", (3,), 0, 80000000)
        te, se, pe = c.elems(t), c.elems(s), c.elems(p)
        m = getattr(eos, eosname.lower())
        c.compare("kernel", m.density(t, s, p), objs((3,), lambda i: f(te[i], se[i], pe[i])), scale=1000.0)
        c.compare("rho", derived.calc_rho(da(t, ("x",)), da(s, ("x",)), da(p, ("x",)), eos=eosname), objs((3,), lambda i: f(te[i], se[i], pe[i])), dims=("x",), scale=1000.0)
        return
    if kind == "auxiliary":  # names, attributes, scalar and auxiliary coordinates do not matter
        t, s, p = c.array("T", (2, 2), TLO, THI, nan=True), c.array("S", (2, 2), SLO, SHI, nan=True), c.array("p", (2,), PLO, PHI)
        te, se, pe = c.elems(t), c.elems(s), c.elems(p)
        co = {"z_l": [5.0, 2.0], "x": [3.0, 9.0], "geolon": (("x",), [0.0, 1.0]), "time": 4.0}
        out = derived.calc_rho(da(t, ("z_l", "x"), co, name="so", attrs={"units": "K"}), da(s, ("z_l", "x"), co, name="thetao"), da(p, ("z_l",), {"z_l": [5.0, 2.0]}, name="time"), eos=eosname)
        c.compare("rho", out, objs((2, 2), lambda k, i: f(te[k, i], se[k, i], pe[k])), dims=("z_l", "x"), scale=1000.0)
        return
    if kind == "coords":     # labelled coordinates, 6 x 5 points
        t, s, p = c.array("T", (6, 5), TLO, THI, nan=True), c.array("S", (6, 5), SLO, SHI), c.array("p", (6,), PLO, PHI)
        te, se, pe = c.elems(t), c.elems(s), c.elems(p)
        z = [500.0, 400.0, 300.0, 20.0, 10.0, 0.0]
        out = derived.calc_rho(da(t, ("z_l", "x"), {"z_l": z}), da(s, ("z_l", "x"), {"z_l": z}), da(p, ("z_l",), {"z_l": z}), eos=eosname)
        c.compare("rho", out, objs((6, 5), lambda k, i: f(te[k, i], se[k, i], pe[k])), dims=("z_l", "x"), scale=1000.0)
        for k in range(6):
            c.equal(f"z[{k}]", c.const(float(out["z_l"].values[k])), c.const(z[k]), scale=1.0)
        return
    # python numbers straight into the equation of state
    t, s, p = c.real("T", TLO, THI), c.real("S", SLO, SHI), c.real("p", PLO, PHI)
    c.equal("density", getattr(eos, eosname.lower()).density(t, s, p), f(t, s, p), scale=1000.0)


def pressure_map(c, eosname, order):
    """potential density with a map of surface pressure, T and S in (z, y, x) order or reversed"""
    c.cover(derived.calc_pdens)
    sh = (2, 1, 2)
    t, s, q = c.array("T", sh, TLO, THI, nan=True), c.array("S", sh, SLO, SHI, nan=True), c.array("patm", (1, 2), 0.0, 2.0e5, nan=eosname == "Wright")
    te, se, qe = c.elems(t), c.elems(s), c.elems(q)
    dims = ("z_l", "yh", "xh")
    T, S = da(t, dims), da(s, dims)
    if order:
        T, S = T.transpose(*dims[::-1]), S.transpose("yh", "xh", "z_l")
    lv = c.real("level", 0.0, 7500.0)
    out = derived.calc_pdens(T, S, level=lv, patm=da(q, ("yh", "xh")), eos=eosname)
    f = RHO[eosname]
    c.compare("potential density", out, objs(sh, lambda k, j, i: f(te[k, j, i], se[k, j, i], lv * 1.0e4 + qe[j, i])), dims=dims, scale=1000.0)


def level_range(c):
    """reference levels outside [0, 7500] m are rejected, those inside accepted"""
    c.cover(derived.calc_pdens)
    lv = c.real("level", -1e5, 1e5)
    T, S = da(c.array("T", (1,), TLO, THI), ("x",)), da(c.array("S", (1,), SLO, SHI), ("x",))
    _, e = c.attempt(lambda: derived.calc_pdens(T, S, level=lv))
    inside = c.and_(c.le(0.0, lv), c.le(lv, 7500.0))
    c.true("level accepted iff in range", inside if e is None else c.not_(inside))


def default_eos(c):
    """default equation of state is Wright; unknown names are rejected; names are case-insensitive"""
    c.cover(derived.calc_rho, derived.calc_pdens)
    t, s, p = c.array("T", (1,), TLO, THI), c.array("S", (1,), SLO, SHI), c.array("p", (1,), PLO, PHI)
    te, se, pe = c.elems(t), c.elems(s), c.elems(p)
    T, S, P = da(t, ("x",)), da(s, ("x",)), da(p, ("x",))
    spec = objs((1,), lambda i: wright(te[i], se[i], pe[i]))
    c.compare("default", derived.calc_rho(T, S, P), spec, dims=("x",), scale=1000.0)
    for nm in ("wright", "WRIGHT", "Wright"):
        c.compare(nm, derived.calc_rho(T, S, P, eos=nm), spec, dims=("x",), scale=1000.0)
    spec = objs((1,), lambda i: lin(te[i], se[i]))
    for nm in ("linear", "Linear"):
        c.compare(nm, derived.calc_rho(T, S, P, eos=nm), spec, dims=("x",), scale=1000.0)
    c.raises("unknown equation of state rejected", (ValueError,), lambda: derived.calc_rho(T, S, P, eos="nosuch"))
    for nm in ("w", "wri", "wrigh", "wright97", "wrightt", "wright_full", " wright", "wright ", "wright.py", "l", "lin", "linea", "linear2", "linear_eos", "right", "near", "unesco", "teos10", "TEOS-10", "jackett", "none", ""):
        for how, f in (("rho", derived.calc_rho), ("alpha", derived.calc_alpha), ("beta", derived.calc_beta)):
            c.raises(f"{how} {nm!r} rejected", (ValueError, AssertionError, KeyError), lambda: f(T, S, P, eos=nm))
        c.raises(f"pdens {nm!r} rejected", (ValueError, AssertionError, KeyError), lambda: derived.calc_pdens(T, S, eos=nm))


def cases(tier):
    q = [
        Case("kernel n=1", kernel, n=1, missing=False),
        Case("kernel n=2 missing", kernel, n=2, missing=True),
        Case("level range", level_range),
        Case("eos names", default_eos),
    ]
    for e in ("Wright", "linear"):
        for v in ("profile", "scalar", "full"):
            q.append(Case(f"calc_rho {e} {v}", broadcast, via=v, eosname=e))
        q.append(Case(f"pdens {e} default", potential, eosname=e, level=None, patm=None))
        q.append(Case(f"pdens {e} free level", potential, eosname=e, level="free", patm=None))
        q.append(Case(f"pdens {e} free level patm", potential, eosname=e, level="free", patm="free"))
        for lev in (2000.0, 0, 1000, 7500, 7500.0, 0.5):
            q.append(Case(f"pdens {e} {lev} m", potential, eosname=e, level=lev, patm=None))
        for k in ("ints", "mixed", "permuted", "outer", "pressure wider", "all ints", "auxiliary", "coords", "numbers"):
            q.append(Case(f"layout {e} {k}", layouts, kind=k, eosname=e))
        q.append(Case(f"pressure map {e}", pressure_map, eosname=e, order=False))
        q.append(Case(f"pressure map {e} reordered", pressure_map, eosname=e, order=True))
    q.append(Case("kernel n=12", kernel, n=12, missing=True))
    if tier == "thorough":
        q += [Case("kernel n=24 missing", kernel, n=24, missing=True)]
    return q
