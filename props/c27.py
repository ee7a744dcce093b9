"""C27: dataset validation accepts exactly the documented inputs"""
import itertools
import warnings

import numpy as np
import xarray as xr
import momlevel
from momlevel import util

from .common import Case, da, months, objs

REF = 3.6111092e14


def margin(c, tot, ref, tol):
    """(surely inside, surely outside) with a sliver at the limit left open"""
    e = c.abs(tot - ref)
    return c.lt(e, tol * ref * (1 - 1e-9)), c.lt(tol * ref * (1 + 1e-9), e)


def agrees(c, label, accepted, inside, outside):
    c.true(label + (" accepted" if accepted else " refused"), c.not_(outside) if accepted else c.not_(inside))


def area(c, ny, nx, custom=False):
    """the global area is accepted exactly within 2 % of the reference; missing cells count as land"""
    c.cover(util.validate_areacello)
    a = c.array("A", (ny, nx), 0.0, 4e14, nan=True)
    kw, ref, tol = {}, REF, 0.02
    if custom:
        kw = {"reference": 2e14, "tolerance": c.real("tol", 0.001, 0.5)}
        ref, tol = 2e14, kw["tolerance"]
    r = util.validate_areacello(da(a, ("yh", "xh")), **kw)
    c.true("a truth value", isinstance(r, bool))
    agrees(c, "area", r, *margin(c, c.nansum(list(c.elems(a).ravel())), ref, tol))


def make(c, reference, area_value, drop=(), ranks=None, time_coord=False, extra=()):
    full = {"time": 2, "z_l": 1, "yh": 1, "xh": 2}
    dims4 = ("z_l", "yh", "xh") if reference else ("time", "z_l", "yh", "xh")
    want = {"thetao": dims4, "so": dims4, "volcello": dims4, "areacello": ("yh", "xh"), "deptho": ("yh", "xh")}
    if reference:
        want.update({"rho": dims4, "masso": (), "volo": (), "rhoga": ()})
    want.update(ranks or {})
    v = {}
    for k, d in want.items():
        if k in drop:
            continue
        sh = tuple(full[x] for x in d)
        if k == "areacello" and d == ("yh", "xh"):
            v[k] = (d, c.pack(objs(sh, lambda j, i: area_value * 0.5)))
        elif k == "areacello":
            v[k] = (d, c.pack(objs(sh, lambda *q: area_value / float(np.prod(sh)))))
        else:
            v[k] = (d, np.ones(sh))
    for k in extra:
        v[k] = (("yh", "xh"), np.ones((1, 2)))
    ds = xr.Dataset(v)
    if not reference and "time" in ds.dims:
        ds = ds.assign_coords(time=months("noleap", 1, 1, 2))
    if time_coord:
        ds = ds.assign_coords({time_coord: 0.0})
    return ds


def verdict(c, ds, **kw):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        r, e = c.attempt(lambda: util.validate_dataset(ds, **kw))
    if e is not None and not isinstance(e, ValueError):
        c.true(f"clean refusal (got {type(e).__name__})", False)
    return e is None, [str(x.message) for x in w]


def strictness(c, reference, strict):
    """any ocean area: strict refuses what is out of range, otherwise it only warns"""
    c.cover(util.validate_dataset, util.validate_areacello)
    a = c.real("area", 0.0, 1e15)
    ok, w = verdict(c, make(c, reference, a), reference=reference, strict=strict)
    ins, out = margin(c, a, REF, 0.02)
    if strict:
        agrees(c, "dataset", ok, ins, out)
    else:
        c.true("accepted", ok)
        warned = any("areacello" in m for m in w)
        agrees(c, "without warning" if not warned else "warned", not warned, ins, out)


def presence(c, reference):
    """every subset of the expected variables: accepted exactly when none is missing"""
    c.cover(util.validate_dataset)
    a = c.real("area", 0.985 * REF, 1.015 * REF)
    names = ["thetao", "so", "volcello", "areacello"] + (["rho", "masso", "volo", "rhoga"] if reference else [])
    for n in range(0, 3):
        for drop in itertools.combinations(names, n):
            ok, _ = verdict(c, make(c, reference, a, drop=drop), reference=reference)
            c.true(f"without {drop}: {'accepted' if ok else 'refused'}", ok == (n == 0))
    ok, _ = verdict(c, make(c, reference, a, drop=("deptho",)), reference=reference)
    c.true("depth is optional", ok)


def additional(c):
    """variables asked for in addition are required too"""
    c.cover(util.validate_dataset)
    a = c.real("area", 0.985 * REF, 1.015 * REF)
    for req in ("deptho", ["deptho"], ["deptho", "tos"], "tos", [], None):
        need = set() if req is None else {req} if isinstance(req, str) else set(req)
        for have in ((), ("tos",)):
            for drop in ((), ("deptho",)):
                got = ({"deptho"} - set(drop)) | set(have)
                ok, _ = verdict(c, make(c, False, a, drop=drop, extra=have), additional_vars=req)
                c.true(f"need {sorted(need)} have {sorted(got)}: {'accepted' if ok else 'refused'}", ok == (need <= got))
    names = ["tos", "sos", "zos", "Tos", "mlotst", "z_i", "wet"]
    for n in (1, 3, 4, 7):
        for k in range(n + 1):      # all there, or the k-th one missing
            req = names[:n]
            for ref in (False, True):
                ok, _ = verdict(c, make(c, ref, a, extra=[v for i, v in enumerate(req) if i != k]), reference=ref, additional_vars=list(req))
                c.true(f"{n} more, {'none' if k == n else req[k]} missing{' from a reference' if ref else ''}", ok == (k == n))


def rank(c, reference):
    """every field must have its documented number of dimensions"""
    c.cover(util.validate_dataset)
    a = c.real("area", 0.985 * REF, 1.015 * REF)
    d3, d4 = ("z_l", "yh", "xh"), ("time", "z_l", "yh", "xh")
    bad = {v: [d3 if not reference else d4, ("yh", "xh")] for v in ("thetao", "so", "volcello")}
    bad.update({"areacello": [("xh",), d3], "deptho": [("xh",), d3]})
    if reference:
        bad.update({"rho": [d4, ("yh", "xh")], "masso": [("xh",)], "volo": [("xh",), ("yh", "xh")], "rhoga": [("z_l",)]})
    for v, ds in bad.items():
        for d in ds:
            ok, _ = verdict(c, make(c, reference, a, ranks={v: d}), reference=reference, strict=True)
            c.true(f"{v} with {d} {'accepted' if ok else 'refused'}", not ok)
            ok, _ = verdict(c, make(c, reference, a, ranks={v: d}), reference=reference, strict=False)
            c.true(f"{v} with {d} {'accepted' if ok else 'refused'} (not strict)", not ok)


def times(c):
    """a reference state has no time coordinate, whatever its capitalisation"""
    c.cover(util.validate_dataset)
    a = c.real("area", 0.985 * REF, 1.015 * REF)
    for t in ("time", "Time", "TIME"):
        ok, _ = verdict(c, make(c, True, a, time_coord=t), reference=True)
        c.true(f"reference with coordinate {t} {'accepted' if ok else 'refused'}", not ok)
    ok, _ = verdict(c, make(c, True, a), reference=True)
    c.true("reference without time", ok)


def entry(c, strict):
    """the sea level entry point applies the same rule before computing"""
    c.cover(momlevel.steric, util.validate_dataset)
    a = c.real("area", 1e13, 1e15)
    z = np.array([5.0])
    v = lambda x: (("time", "z_l", "yh", "xh"), np.full((2, 1, 1, 2), x))
    ds = xr.Dataset({"thetao": v(10.0), "so": v(35.0), "volcello": v(1e12), "areacello": (("yh", "xh"), c.pack(objs((1, 2), lambda j, i: 0.5 * a))), "deptho": (("yh", "xh"), np.full((1, 2), 10.0))}, coords={"z_l": z, "z_i": [0.0, 10.0], "time": months("noleap", 1, 1, 2)})
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        _, e = c.attempt(lambda: momlevel.steric(ds, strict=strict))
    if strict:
        agrees(c, "calculation", e is None, *margin(c, a, REF, 0.02))
    else:
        c.true("never refused", e is None)
    c.raises("without salinity", ValueError, lambda: momlevel.steric(ds.drop_vars("so"), strict=strict))


def lenient(c, reference):
    """not strict: what is missing or has the wrong dimensions is still refused, for every ocean area"""
    c.cover(util.validate_dataset)
    a = c.real("area", 0.0, 1e15)
    names = ["thetao", "so", "volcello", "areacello"] + (["rho", "masso", "volo", "rhoga"] if reference else [])
    for drop in names:
        ok, _ = verdict(c, make(c, reference, a, drop=(drop,)), reference=reference, strict=False)
        c.true(f"without {drop}: {'accepted' if ok else 'refused'}", not ok)
    for v in ("thetao", "areacello", "deptho") + (("rho", "volo") if reference else ()):
        ok, _ = verdict(c, make(c, reference, a, ranks={v: ("xh",)}), reference=reference, strict=False)
        c.true(f"{v} with one dimension: {'accepted' if ok else 'refused'}", not ok)
    for t in ("time", "Time"):
        if reference:
            ok, _ = verdict(c, make(c, reference, a, time_coord=t), reference=True, strict=False)
            c.true(f"reference with {t}: {'accepted' if ok else 'refused'}", not ok)
    ok, _ = verdict(c, make(c, reference, a), reference=reference, strict=False, additional_vars=["tos"])
    c.true("additional variable missing", not ok)
    ok, _ = verdict(c, make(c, reference, a, extra=("tos",)), reference=reference, strict=False, additional_vars=["tos", "deptho"])
    c.true("additional variables present", ok)


def harmless(c, reference):
    """other variables, names of dimensions and the order of dimensions do not matter"""
    c.cover(util.validate_dataset)
    a = c.real("area", 0.985 * REF, 1.015 * REF)
    ds = make(c, reference, a)
    for nm, d in (("extra variable", ds.assign(tos=(("xh",), np.ones(2)))), ("other dimension names", ds.rename(z_l="lev", yh="j", xh="i")), ("reversed order", ds.transpose(*list(ds["thetao"].dims)[::-1])), ("no depth", ds.drop_vars("deptho")),
                  ("scalar coordinate", ds.assign_coords(basin=3)), ("auxiliary coordinate", ds.assign_coords(geolat=(("yh", "xh"), np.ones((1, 2))))), ("attributes", ds.assign_attrs(title="t")), ("time-like names", ds.assign_coords(timestamp=1.0, runtime=2.0))):
        for st in (True, False):
            ok, w = verdict(c, d, reference=reference, strict=st)
            c.true(f"{nm} strict={st} {'accepted' if ok else 'refused'}", ok)
            c.true(f"{nm} strict={st} silent", not w)


def supplied(c, strict, domain, part="steric"):
    """the same rule holds for a supplied reference state"""
    c.cover(momlevel.steric, util.validate_dataset)
    a, b = c.real("area", 1e13, 1e15), c.real("reference area", 1e13, 1e15)
    v = lambda x, t: ((("time",) if t else ()) + ("z_l", "yh", "xh"), np.full(((2,) if t else ()) + (1, 1, 2), x))
    ar = lambda x: (("yh", "xh"), c.pack(objs((1, 2), lambda j, i: 0.5 * x)))
    ds = xr.Dataset({"thetao": v(10.0, 1), "so": v(35.0, 1), "volcello": v(1e12, 1), "areacello": ar(a), "deptho": (("yh", "xh"), np.full((1, 2), 10.0))}, coords={"z_l": [5.0], "z_i": [0.0, 10.0], "time": months("noleap", 1, 1, 2)})
    ref = xr.Dataset({"thetao": v(10.0, 0), "so": v(35.0, 0), "volcello": v(1e12, 0), "rho": v(1027.0, 0), "areacello": ar(b), "volo": ((), 2e12), "masso": ((), 2e15), "rhoga": ((), 1027.0)}, coords={"z_l": [5.0]})
    f = getattr(momlevel, part)
    run = lambda d, r: f(d, reference=r, strict=strict, domain=domain)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        _, e = c.attempt(lambda: run(ds, ref))
        if strict:
            i1, o1 = margin(c, a, REF, 0.02)
            i2, o2 = margin(c, b, REF, 0.02)
            agrees(c, "calculation", e is None, c.and_(i1, i2), c.or_(o1, o2))
        else:
            c.true("never refused", e is None)
        for k in ("rho", "volo", "masso", "rhoga", "so", "thetao", "volcello", "areacello"):
            c.raises(f"reference without {k}", ValueError, lambda: run(ds, ref.drop_vars(k)))
        c.raises("reference with time", ValueError, lambda: run(ds, ref.assign_coords(time=0.0)))
        c.raises("reference with time steps", ValueError, lambda: run(ds, ref.assign(rho=v(1027.0, 1))))
        for k in ("thetao", "so", "volcello", "areacello") + (("deptho",) if domain == "local" else ()):
            c.raises(f"dataset without {k}", ValueError, lambda: run(ds.drop_vars(k), ref))
        if domain == "local":
            c.raises("dataset without interfaces", ValueError, lambda: run(ds.drop_vars("z_i"), ref))
        c.raises("dataset of one time", ValueError, lambda: run(ds.isel(time=0, drop=True), ref))


def gauges(c):
    """tide gauge input checks"""
    c.cover(util.validate_tidegauge_data)
    A = da(c.array("x", (2, 2), -1.0, 1.0), ("yh", "xh"), {"geolon": (("yh", "xh"), np.zeros((2, 2))), "geolat": (("yh", "xh"), np.zeros((2, 2)))})
    lon, lat = A["geolon"], A["geolat"]
    for nm, args, good in (("names", (A, "geolon", "geolat", None), True), ("arrays", (A, lon, lat, None), True), ("mask", (A, lon, lat, A), True), ("unknown x", (A, "lon", "geolat", None), False), ("unknown y", (A, "geolon", "lat", None), False),
                           ("raw x", (A, np.zeros((2, 2)), lat, None), False), ("raw y", (A, lon, [1.0], None), False), ("raw mask", (A, lon, lat, np.ones((2, 2))), False), ("dataset", (A.to_dataset(name="v"), "geolon", "geolat", None), False)):
        if good:
            _, e = c.attempt(lambda: util.validate_tidegauge_data(*args))
            c.true(f"{nm} accepted" if e is None else f"{nm} refused: {e}", e is None)
        else:
            c.raises(f"{nm} refused", (AssertionError, ValueError, TypeError), lambda: util.validate_tidegauge_data(*args))


def cases(tier):
    q = [Case("area", area, ny=2, nx=2), Case("area one row", area, ny=1, nx=3), Case("area other reference", area, ny=1, nx=2, custom=True), Case("additional", additional), Case("time coordinate", times), Case("tide gauge input", gauges)]
    for r in (False, True):
        q += [Case(f"presence reference={r}", presence, reference=r), Case(f"ranks reference={r}", rank, reference=r)]
        for s in (False, True):
            q.append(Case(f"area reference={r} strict={s}", strictness, reference=r, strict=s))
    q += [Case(f"entry point strict={s}", entry, strict=s) for s in (False, True)]
    q += [Case(f"not strict reference={r}", lenient, reference=r) for r in (False, True)] + [Case(f"harmless differences reference={r}", harmless, reference=r) for r in (False, True)]
    q += [Case(f"supplied reference {d} {f} strict={s}", supplied, strict=s, domain=d, part=f) for d in ("local", "global") for s in (False, True) for f in ("steric", "thermosteric", "halosteric")]
    q += [Case("area of a column", area, ny=4, nx=1), Case("area six cells", area, ny=2, nx=3)]
    if tier == "thorough":
        q += [Case("area large", area, ny=3, nx=4, budget=300)]
    return q
