"""C32: results depend on the arguments alone, not on earlier calls"""
import contextlib
import copy
import decimal
import importlib
import locale
import logging
import os
import random
import sys
import warnings

import cftime
import numpy as np
import pandas as pd
import xarray as xr
import momlevel
from momlevel import derived, dynamic, reference, tidegauge, trend, util

from symlev import symarray as SA
from symlev.engine import AssumptionFailed, Infeasible, PathLimit, Unsupported
from symlev.terms import TermLimit
from symlev.num import Num
from .common import Case, Ocean, da, months, objs
from .c06 import wet
from .c20 import dataset as flow
from .c25 import ASSUMPTIONS as TREE, tree
from .c26 import SITES, write
from .c31 import attrs_of

ASSUMPTIONS = TREE + ["the state compared against is that of a freshly imported copy of the package in the same process; histories are the listed sequences of calls, forwards and backwards"]


class Copy:
    """a freshly imported copy of the package, with no history"""

    def __init__(self):
        old = {k: m for k, m in sys.modules.items() if k == "momlevel" or k.startswith("momlevel.")}
        for k in old:
            del sys.modules[k]
        try:
            self.m = importlib.import_module("momlevel")
            self.mods = {k: m for k, m in sys.modules.items() if k == "momlevel" or k.startswith("momlevel.")}
        finally:
            for k in list(sys.modules):
                if k == "momlevel" or k.startswith("momlevel."):
                    del sys.modules[k]
            sys.modules.update(old)

    @contextlib.contextmanager
    def current(self):
        old = {k: m for k, m in sys.modules.items() if k == "momlevel" or k.startswith("momlevel.")}
        for k in old:
            del sys.modules[k]
        sys.modules.update(self.mods)
        try:
            yield self.m
        finally:
            for k in list(sys.modules):
                if k == "momlevel" or k.startswith("momlevel."):
                    del sys.modules[k]
            sys.modules.update(old)


def settings():
    import dask

    s = np.random.get_state()
    return {"xarray options": dict(xr.get_options()), "floating point errors": np.geterr(), "warning filters": list(warnings.filters), "environment": dict(os.environ), "directory": os.getcwd(),
            "numpy random state": (s[1].tolist(), s[2]), "random state": random.getstate(), "dask options": copy.deepcopy(dask.config.config), "print options": {k: v for k, v in np.get_printoptions().items()},
            "pandas options": copy.deepcopy(pd._config.config._global_config), "locale": locale.setlocale(locale.LC_ALL), "recursion limit": sys.getrecursionlimit(), "decimal context": repr(decimal.getcontext()), "log level": logging.getLogger().level}


def restore(s):
    """undo what a call did to the settings, so that every call is judged on its own"""
    import dask

    xr.set_options(**{k: v for k, v in s["xarray options"].items() if xr.get_options().get(k) != v})
    np.seterr(**s["floating point errors"])
    if os.environ != s["environment"]:
        os.environ.clear()
        os.environ.update(s["environment"])
    os.chdir(s["directory"])
    st = np.random.get_state()
    np.random.set_state((st[0], np.array(s["numpy random state"][0], dtype=st[1].dtype), s["numpy random state"][1]) + tuple(st[3:]))
    random.setstate(s["random state"])
    dask.config.config.clear()
    dask.config.config.update(s["dask options"])
    np.set_printoptions(**{k: v for k, v in s["print options"].items() if k != "override_repr"})
    pd._config.config._global_config.clear()
    pd._config.config._global_config.update(s["pandas options"])
    sys.setrecursionlimit(s["recursion limit"])
    logging.getLogger().setLevel(s["log level"])


def dup(x):
    if isinstance(x, (xr.DataArray, xr.Dataset, pd.DataFrame)):
        return x.copy(deep=True)
    if isinstance(x, tuple):
        return tuple(dup(v) for v in x)
    if isinstance(x, list):
        return [dup(v) for v in x]
    if isinstance(x, dict):
        return {k: dup(v) for k, v in x.items()}
    if isinstance(x, (np.ndarray, SA.SymArray)):
        return x.copy()
    return x


def spoil(x):
    """what a caller may do to a result of their own"""
    if isinstance(x, tuple):
        for v in x:
            spoil(v)
    elif isinstance(x, xr.Dataset):
        for v in list(x.data_vars):
            spoil(x[v])
        x.attrs.clear()
    elif isinstance(x, xr.DataArray):
        x.attrs.clear()
        x.encoding.clear()
        d = x.variable._data
        if isinstance(d, SA.SymArray):
            if d.a.flags.writeable:
                if d.dtype.kind == "f":
                    d.a[...] = ZERO
        elif isinstance(d, np.ndarray) and d.dtype.kind == "f" and d.flags.writeable:
            d[...] = 0.0
    elif isinstance(x, list):
        x.clear()
    elif isinstance(x, dict):
        x.clear()
    elif isinstance(x, np.ndarray) and x.dtype.kind == "f" and x.flags.writeable:
        x[...] = 0.0


from symlev.num import lift  # noqa: E402

ZERO = lift(0.0)


def is_num(v):
    return isinstance(v, (Num, float, int, np.floating, np.integer)) and not isinstance(v, bool)


def same(c, label, a, b, scale=1.0):
    if isinstance(b, tuple):
        c.true(f"{label}: length", isinstance(a, tuple) and len(a) == len(b))
        for k, (p, q) in enumerate(zip(a, b)):
            same(c, f"{label} {k}", p, q, scale)
        return
    if isinstance(b, xr.Dataset):
        c.true(f"{label}: variables", list(a.variables) == list(b.variables) or set(a.variables) == set(b.variables) and set(a.data_vars) == set(b.data_vars))
        c.true(f"{label}: attributes", attrs_of(a) == attrs_of(b))
        for v in b.data_vars:
            same(c, f"{label}: {v}", a[v], b[v], scale)
        return
    if isinstance(b, xr.DataArray):
        c.true(f"{label}: dimensions", tuple(a.dims) == tuple(b.dims) and a.shape == b.shape)
        c.true(f"{label}: name", a.name == b.name)
        c.true(f"{label}: attributes", attrs_of(a) == attrs_of(b) and a.encoding == b.encoding)
        c.true(f"{label}: coordinates", set(a.coords) == set(b.coords))
        if "distance" in b.attrs:
            c.equal(f"{label}: distance", a.attrs["distance"], b.attrs["distance"], 1.0)
        for k in b.coords:
            v, w = a.coords[k].values, b.coords[k].values
            if isinstance(v, np.ndarray) and isinstance(w, np.ndarray):
                c.true(f"{label}: coordinate {k}", v.shape == w.shape and bool(np.all(v == w)) and a.coords[k].attrs == b.coords[k].attrs)
        if b.dtype.kind in "OMmUS":
            c.true(label, bool((a.values == b.values).all()))
        else:
            c.compare(label, a, c.elems(b), dims=tuple(b.dims), scale=scale)
        return
    if isinstance(b, pd.DataFrame):
        c.true(f"{label}: table", list(a.columns) == list(b.columns) and list(a.index) == list(b.index))
        for k in b.columns:
            for n, (p, q) in enumerate(zip(a[k].tolist(), b[k].tolist())):
                same(c, f"{label}: {k}[{n}]", p, q, scale)
        return
    if isinstance(b, (list, dict)) and not any(isinstance(v, (list, dict, tuple)) or is_num(v) for v in (b.values() if isinstance(b, dict) else b)):
        c.true(label, a == b)
        return
    if isinstance(b, (list, dict)):
        c.true(f"{label}: length", type(a) is type(b) and len(a) == len(b))
        for k in range(len(b)) if isinstance(b, list) else b:
            same(c, f"{label}[{k}]", a[k], b[k], scale)
        return
    if isinstance(b, (np.ndarray, SA.SymArray)):
        c.true(f"{label}: shape", a.shape == b.shape)
        c.compare(label, a, c.elems(b), scale=scale)
        return
    if is_num(b):
        if isinstance(b, float) and b != b:
            c.true(label, isinstance(a, float) and a != a)
        else:
            c.equal(label, a, b, scale)
        return
    c.true(label, bool(a == b))


def refused(fn):
    """what a call is refused with, or that it is not"""
    try:
        fn()
    except (Unsupported, Infeasible, AssumptionFailed, PathLimit, TermLimit):
        raise
    except Exception as e:
        return type(e).__name__
    return "accepted"


def refusals(*calls):
    return [(f"refusal {n}", lambda m, fn=fn: refused(lambda: fn(m)), 1.0) for n, fn in calls]


def history(c, what, **kw):
    """every call gives what it gives in a package without a history, whatever was called before and whatever the caller did to the results"""
    c.cover(*COVER[what])
    steps = STEPS[what](c, **kw)

    def do(m, fn):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            np.seterr(all="call")       # a state no function would choose itself
            before = settings()
            SA.LOOSE[0] = what in ("locations", "gauges")
            try:
                with tree(c):
                    r = fn(m)
            finally:
                SA.LOOSE[0] = False
            after = settings()
            bad = [k for k in before if before[k] != after[k]]
            if bad:
                restore(before)
        return r, bad

    np.seterrcall(lambda *a: None)
    alone = []
    for label, fn, scale in steps:
        u = Copy()
        with u.current() as m:
            r, bad = do(m, fn)
        c.true(f"{label}: settings as found {bad or ''}", not bad)
        alone.append(dup(r))
        spoil(r)
    for way in (1, -1):
        u = Copy()
        with u.current() as m:
            for k in list(range(len(steps)))[::way]:
                label, fn, scale = steps[k]
                r, bad = do(m, fn)
                same(c, f"{'then' if way > 0 else 'before'} {label}", dup(r), alone[k], scale)
                spoil(r)


def twice(x, dim="time"):
    """the same axes with the values in another order along dim"""
    y = x.isel({dim: slice(None, None, -1)})
    return y.assign_coords({dim: x[dim]}) if dim in x.coords else y


# ------------------------------------------------------------------ histories
def density(c):
    dims = ("time", "z_l", "xh")
    co = {"time": months("noleap", 1, 1, 2), "z_l": [5.0, 50.0]}
    T, S = da(c.array("T", (2, 2, 2), -10.0, 60.0, nan=True), dims, co), da(c.array("S", (2, 2, 2), -2.0, 80.0, nan=True), dims, co)
    P = T["z_l"] * 1e4
    q = []
    for e in ("Wright", "linear", "WRIGHT"):
        for f, sc in (("calc_rho", 1.0), ("calc_alpha", 1e-4), ("calc_beta", 1e-4)):
            q.append((f"{f} {e}", lambda m, f=f, e=e: getattr(m.derived, f)(T.copy(), S.copy(), P.copy(), eos=e), sc))
            q.append((f"{f} {e} deeper", lambda m, f=f, e=e: getattr(m.derived, f)(T.copy(), S.copy(), P.copy() + 1e7, eos=e), sc))
        q.append((f"reversed {e}", lambda m, e=e: m.derived.calc_rho(twice(T), S.copy(), P.copy(), eos=e), 1.0))
        for lev in (0.0, 2000.0):
            q.append((f"potential {e} {lev}", lambda m, e=e, lev=lev: m.derived.calc_pdens(T.copy(), S.copy(), level=lev, eos=e), 1.0))
        q.append((f"potential {e} patm", lambda m, e=e: m.derived.calc_pdens(T.copy(), S.copy(), level=2000.0, patm=0.0, eos=e), 1.0))
    q.append(("default law", lambda m: m.derived.calc_rho(T.copy(), S.copy(), P.copy()), 1.0))
    q.append(("kernels", lambda m: (m.eos.wright.density(T.copy().data, S.copy().data, 1e7), m.eos.linear.density(T.copy().data, S.copy().data), m.eos.linear.density(T.copy().data, S.copy().data, 1e5, 1035.0), m.eos.wright.drho_dtemp(T.copy().data, S.copy().data, 1e5), m.eos.wright.drho_dsal(T.copy().data, S.copy().data, 1e5)), 1.0))
    for e in ("eos80", "EOS80", "teos10", "unesco", "wright97", "jmd95", "", "lin", "Wright ", "numpy", "density"):
        q += refusals(*[(f"{f} {e!r}", lambda m, f=f, e=e: getattr(m.derived, f)(T.copy(), S.copy(), P.copy(), eos=e)) for f in ("calc_rho", "calc_alpha", "calc_beta")], (f"potential {e!r}", lambda m, e=e: m.derived.calc_pdens(T.copy(), S.copy(), eos=e)))
    q.append(("spice", lambda m: (m.derived.calc_spice(T.copy(), S.copy()), m.derived.calc_spice(twice(T), S.copy()), m.derived.calc_spice(T.copy().isel(time=0), S.copy().isel(time=0))), 1.0))
    return q


def barometer(c):
    D, sh = ("yh", "xh"), (2, 2)
    t, s, p = (da(c.array(n, sh, a, b, nan=True), D) for n, a, b in (("tos", -10.0, 60.0), ("sos", -2.0, 80.0), ("pso", 5e4, 1.1e5)))
    q = []
    for e in ("Wright", "linear"):
        for g in (9.8, 9.81):
            q += [(f"{e} {g}", lambda m, e=e, g=g: m.inverse_barometer(t.copy(), s.copy(), p.copy(), gravity=g, equation_of_state=e), 1.0), (f"{e} {g} other pressure", lambda m, e=e, g=g: m.inverse_barometer(t.copy(), s.copy(), twice(p, "xh"), gravity=g, equation_of_state=e), 1.0)]
    q += refusals(*[(f"law {e!r}", lambda m, e=e: m.inverse_barometer(t.copy(), s.copy(), p.copy(), equation_of_state=e)) for e in ("eos80", "teos10", "")])
    q.append(("default", lambda m: m.inverse_barometer(t.copy(), s.copy(), p.copy()), 1.0))
    return q


def layers(c):
    D = da(c.array("D", (1, 2), 0.0, 200.0, nan=True), ("yh", "xh"))
    q = []
    for n, zi in (("a", [0.0, 10.0, 30.0, 100.0]), ("b", [0.0, 20.0, 50.0, 100.0]), ("c", [0.0, 10.0, 90.0, 100.0])):
        zi = np.array(zi)
        zl = (zi[1:] + zi[:-1]) / 2 if n != "c" else np.array([5.0, 20.0, 65.0])
        for o, kw in (("", {}), (" top", {"top": 15.0}), (" bottom", {"bottom": 40.0}), (" both", {"top": 5.0, "bottom": 60.0}), (" fraction", {"fraction": True})):
            for d in ("", " other depth"):
                q.append((f"grid {n}{o}{d}", lambda m, zl=zl, zi=zi, kw=kw, d=d: m.derived.calc_dz(da(zl.copy(), ("z_l",), {"z_l": zl.copy()}), da(zi.copy(), ("z_i",), {"z_i": zi.copy()}), twice(D, "xh") if d else D.copy(), **kw), 1.0))
    zi, zl = np.array([0.0, 10.0, 30.0]), np.array([5.0, 20.0])
    q += refusals(*[(f"limits {kw}", lambda m, kw=kw: m.derived.calc_dz(da(zl.copy(), ("z_l",), {"z_l": zl.copy()}), da(zi.copy(), ("z_i",), {"z_i": zi.copy()}), D.copy(), **kw)) for kw in ({"top": 20.0, "bottom": 10.0}, {"top": "a"}, {"bottom": -5.0}, {"top": -5.0})],
                  ("unordered", lambda m: m.derived.calc_dz(da(zl[::-1].copy(), ("z_l",)), da(zi[::-1].copy(), ("z_i",)), D.copy())), ("missing interface", lambda m: m.derived.calc_dz(da(zl.copy(), ("z_l",)), da(zl.copy(), ("z_i",)), D.copy())))
    return q


def stability(c, eosname):
    z = np.array([5.0, 15.0, 40.0])
    T, S = c.array("T", (3, 2), -10.0, 60.0, nan=True), c.array("S", (3, 2), -2.0, 80.0, nan=True)

    def arr(x, zz, name="z_l"):
        return da(x.copy(), (name, "xh"), {name: zz.copy()})

    q = []
    for n, zz in (("a", z), ("b", np.array([5.0, 30.0, 40.0])), ("c", z + 1000.0)):
        for o, kw in (("", {}), (" gravity", {"gravity": -9.81}), (" patm", {"patm": 0.0}), (" adjusted", {"adjust_negative": True}), (" name", {"zcoord": "lev"})):
            nm = kw.get("zcoord", "z_l")
            if eosname == "Wright" and "adjusted" in o:
                continue
            q.append((f"n2 {n}{o}", lambda m, zz=zz, kw=kw, nm=nm: m.derived.calc_n2(arr(T, zz, nm), arr(S, zz, nm), eos=eosname, **kw), 1e-5))
        if eosname == "Wright":
            q.append((f"n2 {n} deeper", lambda m, zz=zz: m.derived.calc_n2(arr(T, zz + 10.0), arr(S, zz + 10.0), eos=eosname), 1e-5))
            continue
        q.append((f"angle {n}", lambda m, zz=zz: m.derived.calc_stability_angle(arr(T, zz), arr(S, zz), 1e5 + 1e4 * arr(T, zz)["z_l"], eos=eosname), 1.0))
        q.append((f"angle {n} surface", lambda m, zz=zz: m.derived.calc_stability_angle(arr(T, zz), arr(S, zz), 1e5, eos=eosname), 1.0))
        q.append((f"n2 {n} other salinity", lambda m, zz=zz: m.derived.calc_n2(arr(T, zz), twice(arr(S, zz), "xh"), eos=eosname), 1e-5))
    return q


def waves(c):
    co = {"z_l": [5.0, 15.0, 40.0]}
    N, H = da(c.array("n2", (3, 2), -1.0, 1.0, nan=True), ("z_l", "xh"), co), da(c.array("h", (3, 2), 0.0, 1e3), ("z_l", "xh"), co)
    lat = da(c.array("lat", (2,), -89.0, 89.0), ("xh",))
    q = [("adjust", lambda m: m.derived.adjust_negative_n2(N.copy()), 1e-5), ("adjust other", lambda m: m.derived.adjust_negative_n2(twice(N, "xh")), 1e-5), ("speed", lambda m: m.derived.calc_wave_speed(N.copy(), H.copy()), 1.0), ("speed other thickness", lambda m: m.derived.calc_wave_speed(N.copy(), twice(H, "xh")), 1.0),
         ("speed other name", lambda m: m.derived.calc_wave_speed(N.rename({"z_l": "lev"}), H.rename({"z_l": "lev"}), zcoord="lev"), 1.0), ("coriolis", lambda m: m.derived.calc_coriolis(lat.copy()), 1e-5), ("coriolis other", lambda m: m.derived.calc_coriolis(twice(lat, "xh")), 1e-5),
         ("radius", lambda m: m.derived.calc_rossby_rd(H.copy().isel(z_l=0, drop=True), 1e-4 + N.copy().isel(z_l=0, drop=True)), 1.0), ("radius other", lambda m: m.derived.calc_rossby_rd(H.copy().isel(z_l=1, drop=True), 1e-4 + N.copy().isel(z_l=0, drop=True)), 1.0)]
    return q


def vorticity(c, sym):
    ds, _, (py, px) = flow(c, 2, 2, sym, nt=2)
    kw = {"symmetric": sym}
    sw = ds.rename({"uo": "u", "vo": "v", "xh": "ic", "yh": "jc", "xq": "iq", "yq": "jq"})
    VM = {"u": "u", "v": "v", "dx": "dxCu", "dy": "dyCv", "area": "areacello_bu"}
    CD = {"xcenter": "ic", "ycenter": "jc", "xcorner": "iq", "ycorner": "jq"}
    n2 = da(c.array("n2", (2, 2), -1e-3, 1e-3, nan=True), ("yh", "xh"), {"yh": ds["yh"], "xh": ds["xh"]})
    f = da(c.array("f", (py, px), -1.5e-4, 1.5e-4), ("yq", "xq"), {"yq": ds["yq"], "xq": ds["xq"]})
    z = da(c.array("zeta", (py, px), -1e-4, 1e-4, nan=True), ("yq", "xq"), {"yq": ds["yq"], "xq": ds["xq"]})
    m1 = da(c.array("nq", (py, px), -1e-3, 1e-3), ("yq", "xq"), {"yq": ds["yq"], "xq": ds["xq"]})
    q = [("default names", lambda m: m.derived.calc_rel_vort(ds.copy(deep=True), **kw), 1e-5), ("own names", lambda m: m.derived.calc_rel_vort(sw.copy(deep=True), varname_map=dict(VM), coord_dict=dict(CD), **kw), 1e-5), ("other flow", lambda m: m.derived.calc_rel_vort(twice(ds), **kw), 1e-5),
         ("default names again", lambda m: m.derived.calc_rel_vort(ds.copy(deep=True), **kw), 1e-5)]
    for u in ("m", "cm"):
        k = 1e-9 * (1e12 if u == "cm" else 1)
        q += [(f"pv {u}", lambda m, u=u: m.derived.calc_pv(z.copy(), f.copy(), n2.copy(), units=u, **kw), k), (f"pv {u} gravity", lambda m, u=u: m.derived.calc_pv(z.copy(), f.copy(), n2.copy(), units=u, gravity=10.0, **kw), k), (f"pv {u} other", lambda m, u=u: m.derived.calc_pv(z.copy(), f.copy(), twice(n2, "xh"), units=u, **kw), k),
              (f"pv {u} corners", lambda m, u=u: m.derived.calc_pv(z.copy(), f.copy(), m1.copy(), units=u, interp_n2=False, **kw), k)]
    q += refusals(("no velocity", lambda m: m.derived.calc_rel_vort(ds.drop_vars("uo"), **kw)), ("no area", lambda m: m.derived.calc_rel_vort(ds.drop_vars("areacello_bu"), **kw)), ("own names on default data", lambda m: m.derived.calc_rel_vort(ds.copy(deep=True), varname_map=dict(VM), coord_dict=dict(CD), **kw)),
                  ("default names on own data", lambda m: m.derived.calc_rel_vort(sw.copy(deep=True), **kw)), ("other symmetry", lambda m: m.derived.calc_rel_vort(ds.copy(deep=True), symmetric=not sym)), *[(f"pv units {u!r}", lambda m, u=u: m.derived.calc_pv(z.copy(), f.copy(), n2.copy(), units=u, **kw)) for u in ("km", "mm", "", "M")])
    return q


def sealevel(c, domain, eosname="linear"):
    o = Ocean(c, 2, 2, 1, 2, missing="shared")
    if domain == "global":
        wet(c, o)
    ds = o.ds
    other = ds.copy()
    for v in ("thetao", "so"):
        other[v] = twice(ds[v])
    names = ds.rename({"time": "t", "z_l": "lev", "z_i": "levi", "thetao": "temp"})
    q = []
    base = dict(domain=domain, strict=False, equation_of_state=eosname)
    for v in ("steric", "thermosteric", "halosteric"):
        for n, k in (("", {}), (" rho0", {"rhozero": 1000.0}), (" pressure", {"patm": 0.0}), (" law", {"equation_of_state": "Wright" if eosname == "linear" else "linear"}), (" type", {"dtype": "float64"})):
            if v == "steric" or n in ("", " rho0"):
                q.append((v + n, lambda m, v=v, k=k: m.steric(ds.copy(deep=True), variant=v, **{**base, **k}), 1e-3))
        q.append((v + " supplied", lambda m, v=v: m.steric(ds.copy(deep=True), variant=v, reference=m.reference.setup_reference_state(ds.copy(deep=True), eos=eosname, time_index=1), **base), 1e-3))
        q.append((v + " other", lambda m, v=v: m.steric(other.copy(deep=True), variant=v, **base), 1e-3))
    q += [("by its own function", lambda m: (m.thermosteric(ds.copy(deep=True), **base), m.halosteric(ds.copy(deep=True), **base)), 1e-3),
          ("own names", lambda m: m.steric(names.copy(deep=True), coord_names={"t": "t", "z": "lev", "zbounds": "levi"}, varname_map={"temp": "thetao"}, **base), 1e-3), ("first again", lambda m: m.steric(ds.copy(deep=True), **base), 1e-3)]
    q += refusals(*[(f"variant {v!r}", lambda m, v=v: m.steric(ds.copy(deep=True), variant=v, **base)) for v in ("total", "Steric", "")], *[(f"domain {v!r}", lambda m, v=v: m.steric(ds.copy(deep=True), **{**base, "domain": v})) for v in ("regional", "Local", "")],
                  *[(f"law {v!r}", lambda m, v=v: m.steric(ds.copy(deep=True), **{**base, "equation_of_state": v})) for v in ("eos80", "teos10", "")], *[(f"without {v}", lambda m, v=v: m.steric(ds.drop_vars(v), **base)) for v in ("thetao", "so", "volcello", "areacello")],
                  *[(f"supplied without {v}", lambda m, v=v: m.steric(ds.copy(deep=True), reference=m.reference.setup_reference_state(ds.copy(deep=True), eos=eosname).drop_vars(v), **base)) for v in ("thetao", "so", "volcello", "rho")],
                  ("strict area", lambda m: m.steric(ds.copy(deep=True), **{**base, "strict": True})), ("own names, none given", lambda m: m.steric(names.copy(deep=True), **base)), ("names not there", lambda m: m.steric(ds.copy(deep=True), coord_names={"z": "lev"}, **base)), ("state out of range", lambda m: m.reference.setup_reference_state(ds.copy(deep=True), time_index=9, eos=eosname)))
    for i in (0, 1):
        q += [(f"state {i}", lambda m, i=i: m.reference.setup_reference_state(ds.copy(deep=True), time_index=i, eos=eosname), 1e-6), (f"state {i} pressure", lambda m, i=i: m.reference.setup_reference_state(ds.copy(deep=True), time_index=i, eos="Wright", patm=0.0), 1e-6), (f"state {i} other", lambda m, i=i: m.reference.setup_reference_state(other.copy(deep=True), time_index=i, eos=eosname), 1e-6)]
    return q


def calendars(c, which):
    n = 12 if which != "cycle" else 24
    x = c.array("x", (n, 2), -10.0, 10.0, nan=which == "monthly")

    def ser(cal, y=3, m0=1, ds=False):
        a = da(x.copy(), ("time", "x"), {"time": months(cal, y, m0, n), "x": [0.0, 1.0]}, name="v", attrs={"units": "m"})
        return xr.Dataset({"v": a, "w": a.isel(x=0, drop=True)}) if ds else a

    q = []
    for cal in ("noleap", "standard", "360_day", "all_leap"):
        for y in (3, 4):
            if which == "annual":
                q += [(f"annual {cal} {y}", lambda m, cal=cal, y=y: m.util.annual_average(ser(cal, y)), 1.0), (f"annual {cal} {y} dataset", lambda m, cal=cal, y=y: m.util.annual_average(ser(cal, y, ds=True)), 1.0)]
            elif which == "monthly":
                q += [(f"monthly {cal} {y}", lambda m, cal=cal, y=y: m.util.monthly_average(ser(cal, y)), 1.0), (f"monthly {cal} {y} from May", lambda m, cal=cal, y=y: m.util.monthly_average(ser(cal, y, 5)), 1.0)]
            else:
                for f in ("mean", "max", "std"):
                    q.append((f"{f} {cal} {y}", lambda m, cal=cal, y=y, f=f: m.util.annual_cycle(ser(cal, y), func=f), 1.0))
                q.append((f"mean {cal} {y} dated", lambda m, cal=cal, y=y: m.util.annual_cycle(ser(cal, y), time_axis_year=1850), 1.0))
                q.append((f"mean {cal} {y} from May", lambda m, cal=cal, y=y: m.util.annual_cycle(ser(cal, y, 5)), 1.0))
    f = {"annual": "annual_average", "monthly": "monthly_average", "cycle": "annual_cycle"}[which]
    q += refusals(("incomplete", lambda m: getattr(m.util, f)(ser("noleap").isel(time=slice(0, 7)))), ("no such axis", lambda m: getattr(m.util, f)(ser("noleap"), tcoord="t")), ("no dates", lambda m: getattr(m.util, f)(ser("noleap").drop_vars("time"))), ("not an array", lambda m: getattr(m.util, f)([1.0, 2.0])),
                  *[(f"statistic {v!r}", lambda m, v=v: m.util.annual_cycle(ser("noleap"), func=v)) for v in ("median", "sum", "MEAN", "", None)])
    if which != "cycle":
        q.append(("other name", lambda m: getattr(m.util, which + "_average")(ser("noleap").rename({"time": "t"}), tcoord="t"), 1.0))
    return q


def lines(c, what):
    n = 5
    x = c.array("x", (n, 2), -10.0, 10.0)
    T = CALS["noleap"]
    axes = {"monthly": months("noleap", 3, 1, n), "leap": months("standard", 2004, 1, n), "uneven": [T(3, 1, 15), T(3, 2, 15), T(3, 3, 20), T(3, 4, 1), T(3, 5, 15)], "later": months("noleap", 1999, 1, n)}

    def ser(k, units="m", dim="time"):
        return da(x.copy(), (dim, "x"), {dim: axes[k] if isinstance(k, str) else np.array(k), "x": [0.0, 1.0]}, name="v", attrs={"units": units})

    q = []
    for k in axes:
        if what == "trend":
            q += [(f"trend {k} {u}", lambda m, k=k, u=u: m.trend.calc_linear_trend(ser(k), time_units=u), 1e-3) for u in ("yr", "mon", "day")]
        elif what == "detrend":
            q += [(f"{mode} {k}", lambda m, k=k, mode=mode: m.trend.linear_detrend(ser(k), mode=mode), 1.0) for mode in ("remove", "correct")]
            q += [(f"dataset {k}", lambda m, k=k: m.trend.linear_detrend(xr.Dataset({"v": ser(k), "k": ser(k).isel(time=0, drop=True)})), 1.0)]
            q += [(f"old name {k}", lambda m, k=k: m.util.linear_detrend(ser(k)), 1.0)]
        elif what == "seasonal":
            q += [(f"seasonal {k}", lambda m, k=k: m.trend.seasonal_model(ser(k), return_model=True), 1.0), (f"seasonal {k} residual", lambda m, k=k: m.trend.seasonal_model(ser(k)), 1.0), (f"seasonal {k} one column", lambda m, k=k: m.trend.seasonal_model(ser(k).isel(x=0, drop=True)), 1.0)]
        elif what == "spread":
            for u in ("m yr-1", "m mon-1", "m day-1"):
                for z in (False, True):
                    q.append((f"spread {k} {u} {z}", lambda m, k=k, u=u, z=z: m.trend.broadcast_trend(da(x.copy()[0], ("x",), {"x": [0.0, 1.0]}, name="s", attrs={"units": u}), ser(k)["time"], subtract_time_zero=z), 1.0))
    q += refusals(*[(f"mode {v!r}", lambda m, v=v: m.trend.linear_detrend(ser("monthly"), mode=v)) for v in ("add", "Remove", "", None)], *[(f"time unit {v!r}", lambda m, v=v: m.trend.calc_linear_trend(ser("monthly"), time_units=v)) for v in ("century", "Yr", "", "years", "month")],
                  *[(f"slope units {v!r}", lambda m, v=v: m.trend.broadcast_trend(da(x.copy()[0], ("x",), {"x": [0.0, 1.0]}, name="s", attrs={"units": v}), ser("monthly")["time"])) for v in ("m", "m century-1", "", "yr", "m yr-2")], ("no units", lambda m: m.trend.broadcast_trend(da(x.copy()[0], ("x",), {"x": [0.0, 1.0]}, name="s"), ser("monthly")["time"])),
                  ("no such axis", lambda m: m.trend.calc_linear_trend(ser("monthly"), dim="z")), ("not an array", lambda m: m.trend.linear_detrend([1.0, 2.0])))
    if what == "trend":
        q += [("trend along numbers", lambda m: m.trend.calc_linear_trend(ser([0.0, 1.0, 2.0, 3.0, 4.0], dim="z"), dim="z"), 1e-3), ("trend along other numbers", lambda m: m.trend.calc_linear_trend(ser([0.0, 1.0, 2.0, 3.5, 4.0], dim="z"), dim="z"), 1e-3), ("trend without units", lambda m: m.trend.calc_linear_trend(ser("monthly").drop_attrs() if hasattr(xr.DataArray, "drop_attrs") else ser("monthly")), 1e-12)]
    return q


from .common import CALENDARS as CALS  # noqa: E402


def units(c):
    dm, dy = c.real("dm", 20.0, 40.0), c.real("dy", 300.0, 400.0)
    U = ("ns", "s", "min", "hr", "day", "mon", "yr")
    q = []
    for a in ("sec", "h", "d", "month", "year", "", "ms", "YR", "us", "wk", "dec"):
        q += refusals((f"from {a!r}", lambda m, a=a: m.trend.time_conversion_factor(a, "s")), (f"to {a!r}", lambda m, a=a: m.trend.time_conversion_factor("s", a)), (f"both {a!r}", lambda m, a=a: m.trend.time_conversion_factor(a, a)))
    for a in U:
        for b in U:
            q += [(f"{a} to {b}", lambda m, a=a, b=b: m.trend.time_conversion_factor(a, b), 1e-20), (f"{a} to {b}, own lengths", lambda m, a=a, b=b: m.trend.time_conversion_factor(a, b, days_per_month=dm, days_per_year=dy), 1e-20), (f"{a} to {b}, own year", lambda m, a=a, b=b: m.trend.time_conversion_factor(a, b, days_per_year=dy), 1e-20)]
    return q


def daily(c):
    n = 12
    x = c.array("x", (n, 2), -10.0, 10.0)

    def ser(cal, y=2004, dims=("time", "x")):
        t = CALS[cal]
        return da(x.copy(), ("time", "x"), {"time": [t(y, 1 + 2 * (k // 2), 1 + 14 * (k % 2)) for k in range(n)], "x": [0.0, 1.0]}, name="v", attrs={"units": "m"}).transpose(*dims)

    q = []
    for cal in ("noleap", "standard", "360_day"):
        for f in ("residuals", "model", "coeff"):
            q.append((f"{f} {cal}", lambda m, cal=cal, f=f: m.trend.deseason(ser(cal), output_format=f), 1.0))
        q += [(f"{cal} order", lambda m, cal=cal: m.trend.deseason(ser(cal, dims=("x", "time"))), 1.0), (f"{cal} other year", lambda m, cal=cal: m.trend.deseason(ser(cal, 2003)), 1.0)]
    q += refusals(*[(f"output {v!r}", lambda m, v=v: m.trend.deseason(ser("noleap"), output_format=v)) for v in ("residual", "Model", "", "coeffs", "all")], ("no such axis", lambda m: m.trend.deseason(ser("noleap"), tdim="t")))
    return q


def areas(c):
    R = c.real("R", 1e5, 1e7)
    q = []
    for n, la in (("a", [-30.0, 0.0, 30.0]), ("b", [-30.0, -10.0, 10.0]), ("c", [60.0, 30.0, 0.0])):
        for k, lo in (("a", [0.0, 10.0]), ("b", [0.0, 20.0]), ("c", [0.0, 10.0, 20.0])):
            for lab in (False, True):
                def args(la=la, lo=lo, lab=lab):
                    a, b = np.array(la), np.array(lo)
                    return (da(a, ("lat",), {"lat": a}), da(b, ("lon",), {"lon": b})) if lab else (a, b)
                q += [(f"area {n}{k} {lab}", lambda m, args=args: m.util.standard_grid_cell_area(*args()), 1e6), (f"area {n}{k} {lab} radius", lambda m, args=args: m.util.standard_grid_cell_area(*args(), r_earth=R), 1e6)]
    q += refusals(("one longitude", lambda m: m.util.standard_grid_cell_area(np.array([0.0, 1.0]), np.array([3.0]))), ("text", lambda m: m.util.standard_grid_cell_area("a", "b")), ("two-dimensional", lambda m: m.util.standard_grid_cell_area(np.zeros((2, 2)), np.zeros((2, 2)))))
    return q


def locations(c):
    R, thr = c.real("R", 1000.0, 10000.0), c.real("thr", 0.0, 2000.0)

    def grid(lat, mask=None, names=("geolat", "geolon")):
        d = pd.DataFrame({names[0]: lat, names[1]: [0.0, 5.0, 0.0]}, index=pd.MultiIndex.from_tuples([(0, 0), (1, 0), (2, 0)], names=["yh", "xh"]))
        if mask is not None:
            d["mask"] = mask
        return d

    def loc(lat, names=("lat", "lon")):
        return pd.DataFrame({"name": ["A", "B"], names[0]: lat, names[1]: [0.0, 1.0]})

    q = []
    for n, g in (("a", [0.0, 10.0, 20.0]), ("b", [0.0, 14.0, 20.0])):
        for k, p in (("a", [1.0, 13.0]), ("b", [13.0, 19.0])):
            q += [(f"{n}{k}", lambda m, g=g, p=p: m.util.geolocate_points(grid(g), loc(p)), 1.0), (f"{n}{k} radius", lambda m, g=g, p=p: m.util.geolocate_points(grid(g), loc(p), rad_earth=R), 1.0), (f"{n}{k} mask", lambda m, g=g, p=p: m.util.geolocate_points(grid(g, [1.0, 0.0, 1.0]), loc(p)), 1.0),
                  (f"{n}{k} other mask", lambda m, g=g, p=p: m.util.geolocate_points(grid(g, [0.0, 1.0, 1.0]), loc(p)), 1.0), (f"{n}{k} mask ignored", lambda m, g=g, p=p: m.util.geolocate_points(grid(g, [0.0, 1.0, 1.0]), loc(p), apply_mask=False), 1.0),
                  (f"{n}{k} names", lambda m, g=g, p=p: m.util.geolocate_points(grid(g, names=("yy", "xx")), loc(p, ("la", "ln")), model_coords=("yy", "xx"), loc_coords=("la", "ln")), 1.0)]
        q.append((f"{n} threshold", lambda m, g=g: m.util.geolocate_points(grid(g), loc([1.0, 13.0]), threshold=thr), 1.0))
        q.append((f"{n} fixed threshold", lambda m, g=g: m.util.geolocate_points(grid(g), loc([1.0, 13.0]), threshold=300.0), 1.0))
    q += refusals(("no such model names", lambda m: m.util.geolocate_points(grid([0.0, 10.0, 20.0]), loc([1.0, 13.0]), model_coords=("yy", "xx"))), ("no such location names", lambda m: m.util.geolocate_points(grid([0.0, 10.0, 20.0]), loc([1.0, 13.0]), loc_coords=("la", "ln"))))
    return q


def gauges(c):
    import shutil
    import tempfile

    x = c.array("ssh", (2, 2, 2), -5.0, 5.0, nan=True)
    la, lo = np.array([[8.0, 8.5], [15.0, 15.5]]), np.array([[-79.0, -70.0], [-78.0, -65.0]])

    def fld(la=la, lo=lo, flip=False):
        a = da(x.copy(), ("time", "yh", "xh"), {"time": months("noleap", 1, 1, 2), "yh": [10.0, 12.5], "xh": [-72.0, -69.0], "geolat": (("yh", "xh"), la.copy()), "geolon": (("yh", "xh"), lo.copy())}, name="ssh", attrs={"units": "m"})
        return twice(a) if flip else a

    def go(m, sites, *a, **k):
        d = os.path.join(tempfile.gettempdir(), f"gauges-{os.getpid()}")      # the same path every time
        os.makedirs(d, exist_ok=True)
        try:
            p = os.path.join(d, "sites.csv")
            write(p, sites)
            return m.extract_tidegauge(*a, csv=p, **k)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def mk(v):
        return da(np.array(v), ("yh", "xh"), {"yh": [10.0, 12.5], "xh": [-72.0, -69.0]}, name="wet")

    q = []
    for n, s in (("a", SITES[:2]), ("b", [("ALPHA", 15.0, -66.0), ("BRAVO", 8.0, -78.0)]), ("c", SITES[1:])):
        q += [(f"sites {n}", lambda m, s=s: go(m, s, fld()), 1.0), (f"sites {n} other values", lambda m, s=s: go(m, s, fld(flip=True)), 1.0), (f"sites {n} other grid", lambda m, s=s: go(m, s, fld(la[::-1], lo)), 1.0), (f"sites {n} mask", lambda m, s=s: go(m, s, fld(), mask=mk([[1.0, 0.0], [1.0, 1.0]])), 1.0),
              (f"sites {n} other mask", lambda m, s=s: go(m, s, fld(), mask=mk([[1.0, 1.0], [np.nan, 0.0]])), 1.0), (f"sites {n} threshold", lambda m, s=s: go(m, s, fld(), threshold=450.0), 1.0), (f"sites {n} one-dimensional", lambda m, s=s: go(m, s, fld(), xcoord="xh", ycoord="yh"), 1.0)]
    q += refusals(("no such table", lambda m: m.extract_tidegauge(fld(), csv="nowhere")), ("no such file", lambda m: m.extract_tidegauge(fld(), csv="/nonexistent/sites.csv")), ("no such coordinates", lambda m: go(m, SITES[:2], fld(), xcoord="lon2", ycoord="lat2")))
    q.append(("built-in", lambda m: m.extract_tidegauge(fld(), csv="us", threshold=3000.0), 1.0))
    return q


def odds(c):
    a = da(c.array("A", (2, 2), 5e13, 1.2e14), ("yh", "xh"))
    tol, ref = c.real("tol", 0.001, 0.5), c.real("ref", 1e14, 5e14)
    q = [("area check", lambda m: m.util.validate_areacello(a.copy()), 1.0), ("area check, own", lambda m: m.util.validate_areacello(a.copy(), reference=ref, tolerance=tol), 1.0), ("area check, default tolerance", lambda m: m.util.validate_areacello(a.copy(), reference=ref), 1.0)]
    for n, k in (("", None), (" t", {"t": "tt"}), (" z", {"z": "lev", "zbounds": "levi"}), (" empty", {}), (" ocean", {"t": "ocean_time", "z": "s_rho"}), (" upper", {"t": "Time", "z": "zt", "zbounds": "zw"}), (" none again", None)):
        q.append((f"names{n}", lambda m, k=k: m.util.default_coords(None if k is None else dict(k)), 1.0))
    q += refusals(("names as a list", lambda m: m.util.default_coords(["z_l"])), ("area of another planet", lambda m: m.util.validate_areacello(a.copy() * 0.0)))
    q.append(("colours", lambda m: m.util.get_pv_colormap(), 1.0))
    for n, d in (("a", ["z", "b", "a"]), ("b", ["a", "q"])):
        q.append((f"sorted {n}", lambda m, d=d: list(m.util.alphabetize_dataset(xr.Dataset({k: a.copy() for k in d})).variables), 1.0))
        q.append((f"tiles {n}", lambda m, d=d: m.util.tile_nominal_coords(da(np.arange(2.0) + len(d), ("xh",), {"xh": np.arange(2.0) + len(d)}, name="xh"), da(np.arange(3.0), ("yh",), {"yh": np.arange(3.0)}, name="yh"), warn=False), 1.0))

    def enc(m, which):
        b = a.copy(deep=True)
        b.encoding.update({"chunks": 1, "preferred_chunks": 2, "dtype": "f4"})
        r = m.util.reset_encoding(b) if which is None else m.util.reset_encoding(b, attrs=list(which))
        return dict(r.encoding)

    for n, w in (("default", None), ("own", ("dtype",)), ("none", ()), ("default again", None)):
        q.append((f"encoding {n}", lambda m, w=w: enc(m, w), 1.0))
    return q


STEPS = {"density": density, "barometer": barometer, "layers": layers, "stability": stability, "waves": waves, "vorticity": vorticity, "sealevel": sealevel, "calendars": calendars, "lines": lines, "units": units, "daily": daily, "areas": areas, "locations": locations, "gauges": gauges, "odds": odds}
COVER = {"density": (derived.calc_rho, derived.calc_alpha, derived.calc_beta, derived.calc_pdens, derived.calc_spice, util.eos_func_from_str), "barometer": (dynamic.inverse_barometer,), "layers": (derived.calc_dz,), "stability": (derived.calc_n2, derived.calc_stability_angle), "waves": (derived.adjust_negative_n2, derived.calc_wave_speed, derived.calc_coriolis, derived.calc_rossby_rd),
         "vorticity": (derived.calc_rel_vort, derived.calc_pv, util.get_xgcm_grid), "sealevel": (momlevel.steric, momlevel.thermosteric, momlevel.halosteric, reference.setup_reference_state), "calendars": (util.annual_average, util.monthly_average, util.annual_cycle), "lines": (trend.calc_linear_trend, trend.linear_detrend, trend.broadcast_trend, trend.seasonal_model),
         "units": (trend.time_conversion_factor,), "daily": (trend.deseason, trend.seasonal_cycle_model), "areas": (util.standard_grid_cell_area,), "locations": (util.geolocate_points,), "gauges": (tidegauge.extract_tidegauge,), "odds": (util.validate_areacello, util.default_coords, util.get_pv_colormap, util.alphabetize_dataset, util.tile_nominal_coords, util.reset_encoding)}


def cases(tier):
    q = [Case("density and spice", history, what="density"), Case("inverse barometer", history, what="barometer"), Case("layers", history, what="layers"), Case("stability Wright", history, what="stability", eosname="Wright"), Case("stability linear", history, what="stability", eosname="linear"), Case("waves", history, what="waves"),
         Case("vorticity", history, what="vorticity", sym=False), Case("vorticity symmetric", history, what="vorticity", sym=True)]
    q += [Case(f"sea level {d} {e}", history, what="sealevel", domain=d, eosname=e) for d in ("local", "global") for e in ("linear", "Wright")]
    q += [Case(w, history, what="calendars", which=w) for w in ("annual", "monthly", "cycle")]
    q += [Case(f"lines {w}", lines_case, sub=w) for w in ("trend", "detrend", "seasonal", "spread")]
    q += [Case(w, history, what=w) for w in ("units", "daily", "areas", "locations", "gauges", "odds")]
    return q


def lines_case(c, sub):
    STEPS["lines " + sub] = lambda c: lines(c, sub)
    COVER["lines " + sub] = COVER["lines"]
    history(c, "lines " + sub)
