"""C08: thermosteric / halosteric decomposition"""
import numpy as np
import xarray as xr
import momlevel
from momlevel import derived

from .common import Case, Ocean, da, dz_of, objs
from .c05 import COVER, local, local_spec
from .c06 import glob, global_spec, wet

COVER = COVER + ("momlevel.steric.thermosteric", "momlevel.steric.halosteric")
FN = {"thermosteric": lambda: momlevel.thermosteric, "halosteric": lambda: momlevel.halosteric}


def variant(c, nt, nz, ny, nx, which, eosname="Wright", missing="shared", index=None):
    """thermosteric: temperature varies, salinity held at the reference; halosteric: the converse"""
    c.cover(*COVER)
    o = Ocean(c, nt, nz, ny, nx, missing=missing)
    kw = {"strict": False, "equation_of_state": eosname}
    ref = None
    if index is not None:
        r = momlevel.reference.setup_reference_state(o.ds, eos=eosname, time_index=index)
        kw["reference"] = r
        ref = {"T": o.T[index], "S": o.S[index], "V": o.V[index], "rho": objs((nz, ny, nx), lambda k, j, i: o.rho(c, eosname, index, k, j, i))}
    out, _ = FN[which]()(o.ds, **kw)
    dr, h = local_spec(c, o, eosname, which, ref=ref)
    c.compare("height", out[which], h, dims=("time", "yh", "xh"), scale=0.01)
    c.compare("density change", out["delta_rho"], dr, dims=o.dims, scale=1.0)
    alt, _ = momlevel.steric(o.ds, variant=which, **kw)
    c.compare("variant keyword", alt[which], c.elems(out[which].transpose("time", "yh", "xh")), dims=("time", "yh", "xh"), scale=0.01)


def no_change(c, which, eosname, domain):
    """fields that equal the reference at every time give exactly zero"""
    c.cover(*COVER)
    o = Ocean(c, 2, 2, 1, 2, missing="shared" if domain == "local" else None, area_missing=False)
    ds = o.ds.copy()
    for v in {"thermosteric": ["thetao"], "halosteric": ["so"], "steric": ["thetao", "so"]}[which]:
        a = c.elems(ds[v]).copy()
        a[1] = a[0]
        ds[v] = (o.dims, c.pack(a))
    out, _ = momlevel.steric(ds, variant=which, strict=False, equation_of_state=eosname, domain=domain)
    if domain == "global":
        c.compare("level", out[which], objs((2,), lambda a: c.const(0.0)), dims=("time",), scale=1e-3)
        return
    miss = lambda a, j, i: c.where(c.isnan(o.V[0, 0, j, i]), c.nan, 0.0)
    c.compare("height", out[which], objs((2, 1, 2), miss), dims=("time", "yh", "xh"), scale=0.01)


def additive(c, nt, nz, ny, nx):
    """linear equation of state: thermosteric + halosteric = steric, and the thermosteric part is 0.2/rho0 times the
    thickness-weighted warming"""
    c.cover(*COVER)
    o = Ocean(c, nt, nz, ny, nx, missing="shared")
    kw = {"strict": False, "equation_of_state": "linear"}
    s, _ = momlevel.steric(o.ds, **kw)
    t, _ = momlevel.thermosteric(o.ds, **kw)
    h, _ = momlevel.halosteric(o.ds, **kw)
    d = ("time", "yh", "xh")
    te, he, se = (c.elems(x.transpose(*d)) for x in (t["thermosteric"], h["halosteric"], s["steric"]))
    c.compare("sum", c.pack(te + he), se, scale=0.01)
    heat = objs((nt, ny, nx), lambda a, j, i: c.where(c.isnan(o.V[0, 0, j, i]), c.nan, (0.2 / 1035.0) * c.nansum([dz_of(c, o.zi[k], o.zi[k + 1], o.D[j, i]) * (o.T[a, k, j, i] - o.T[0, k, j, i]) for k in range(nz)])))
    c.compare("warming", t["thermosteric"], heat, dims=d, scale=0.01)


def independent(c, which):
    """the thermosteric height does not see the salinity of later times, the halosteric height not their temperature"""
    c.cover(*COVER)
    o = Ocean(c, 2, 1, 1, 2, missing="shared")
    other = {"thermosteric": "so", "halosteric": "thetao"}[which]
    ds = o.ds.copy()
    a = c.elems(ds[other]).copy()
    b = c.elems(c.array("other", a.shape, 0.0, 40.0))
    a[1] = np.array([[[c.where(c.isnan(o.T[1, 0, 0, i]), c.nan, b[1, 0, 0, i]) for i in range(2)]]], dtype=object)
    ds[other] = (o.dims, c.pack(a))
    x, _ = FN[which]()(o.ds, strict=False)
    y, _ = FN[which]()(ds, strict=False)
    c.compare("height", y[which], c.elems(x[which].transpose("time", "yh", "xh")), dims=("time", "yh", "xh"), scale=0.01)


def unseen(c, which, domain, eosname, given, nt=2):
    """every missing pattern in every field and time: changing the other variable after the reference time changes nothing"""
    c.cover(*COVER)
    o = Ocean(c, nt, 1, 1, 2, missing="free", area_missing=False)
    other = {"thermosteric": "so", "halosteric": "thetao"}[which]
    ds = o.ds.copy()
    a = c.elems(ds[other]).copy()
    b = c.elems(c.array("other", a.shape, 0.0, 40.0, nan=True))
    a[1:] = b[1:]
    ds[other] = (o.dims, c.pack(a))
    kw = {"strict": False, "domain": domain, "equation_of_state": eosname}
    if given:
        kw["reference"] = momlevel.reference.setup_reference_state(o.ds, eos=eosname)
    x, _ = FN[which]()(o.ds, **kw)
    y, _ = FN[which]()(ds, **kw)
    d = ("time", "yh", "xh") if domain == "local" else ("time",)
    c.compare("change", y[which], c.elems(x[which].transpose(*d)), dims=d, scale=0.01 if domain == "local" else 1e-3)


def options(c, which, domain, **k):
    """a part with its own constant density, surface pressure, reference time and dimension orders, any cell missing"""
    c.cover(*COVER)
    nt, nz, ny, nx = k.get("shape", (2, 2, 1, 1))
    o = Ocean(c, nt, nz, ny, nx, missing=k.get("missing", "free"), flip=k.get("flip", False), extra=k.get("extra", False))
    eosname = k.get("eosname", "Wright")
    rz, pa = c.real("rhozero", 500.0, 2000.0), c.real("patm", 0.0, 2.0e5)
    kw = {"strict": False, "domain": domain, "rhozero": rz, "patm": pa, "equation_of_state": eosname, "verbose": True, "dtype": "float64"}
    index = k.get("index")
    ref = None
    if domain == "global":
        wet(c, o)
        if index is not None:
            c.assume(c.or_(*[c.not_(c.or_(c.isnan(o.T[index][q]), c.isnan(o.S[index][q]), c.isnan(o.V[index][q]))) for q in np.ndindex(nz, ny, nx)]))
            for a in range(nt):
                c.assume(c.or_(*[c.not_(c.or_(c.isnan(o.T[a][q]), c.isnan(o.S[a][q]), c.isnan(o.V[index][q]), c.isnan(o.T[index][q]), c.isnan(o.S[index][q]))) for q in np.ndindex(nz, ny, nx)]))
    if index is not None:
        kw["reference"] = momlevel.reference.setup_reference_state(o.ds, patm=pa, eos=eosname, time_index=index)
        ref = {"T": o.T[index], "S": o.S[index], "V": o.V[index], "A": o.A, "rho": objs((nz, ny, nx), lambda k_, j, i: o.rho(c, eosname, index, k_, j, i, patm=pa))}
        ref["volo"] = c.nansum(list(ref["V"].ravel()))
        if domain == "global":
            ref["rhoga"] = c.nansum(list((ref["rho"] * ref["V"]).ravel())) / ref["volo"]
    out, _ = FN[which]()(o.ds, **kw)
    if domain == "global":
        h, lev = global_spec(c, o, eosname, which, pa, ref)
        c.compare("reference height", out["reference_height"], objs((), lambda: h), dims=(), scale=1.0)
        c.compare("level", out[which], lev, dims=("time",), scale=1e-3)
        return
    dr, h = local_spec(c, o, eosname, which, rz, pa, ref)
    c.compare("density change", out["delta_rho"], dr, dims=o.dims, scale=1.0)
    c.compare("height", out[which], h, dims=("time", "yh", "xh"), scale=0.01)


def entry(c, which, domain, annual, given, positional=False):
    """the function and the option are the same with every other option set"""
    c.cover(*COVER)
    nt = 12 if annual else 2
    names = {"t": "ocean_time", "z": "lev", "zb": "lev_edges"}
    o = Ocean(c, nt, 1, 1, 1 if annual else 2, missing="shared" if domain == "local" else None, area_missing=False, names=names, rename={"thetao": "ptemp"}, strict_area=True)
    kw = {"coord_names": {"t": "ocean_time", "z": "lev", "zbounds": "lev_edges"}, "varname_map": {"ptemp": "thetao"}, "rhozero": c.real("rhozero", 500.0, 2000.0), "patm": c.real("patm", 0.0, 2.0e5),
          "equation_of_state": "linear", "domain": domain, "dtype": "float64", "strict": True, "annual": annual, "verbose": False}
    if given:
        kw["reference"] = momlevel.reference.setup_reference_state(o.ds.rename(ptemp="thetao"), patm=kw["patm"], eos="linear", coord_names=kw["coord_names"], time_index=nt - 1)
    b, rb = momlevel.steric(o.ds, variant=which, **kw)
    if positional:
        r = kw.pop("reference", None)
        a, ra = FN[which]()(o.ds, r, kw.pop("coord_names"), kw.pop("varname_map"), **kw)
    else:
        a, ra = FN[which]()(o.ds, **kw)
    c.true("variables", set(a.variables) == set(b.variables) and set(ra.variables) == set(rb.variables))
    for lab, x, y in [(str(v), a[v], b[v]) for v in b.data_vars] + [(f"reference {v}", ra[v], rb[v]) for v in rb.data_vars]:
        c.compare(lab, x, c.elems(y), dims=tuple(y.dims), scale=1e-3)
        c.true(f"{lab} metadata", dict(x.attrs) == dict(y.attrs) and x.encoding == y.encoding and tuple(x.dims) == tuple(y.dims))


def signs(c, which):
    """linear equation of state, one wet layer at 5..40 degC; warming raises, salting lowers"""
    c.cover(*COVER)
    o = Ocean(c, 2, 1, 1, 1, missing=None, depth_missing=False, area_missing=False)
    c.assume(c.le(o.zi[0] + 1.0, o.D[0, 0]))
    if which == "thermosteric":
        c.assume(c.and_(c.le(5.0, o.T[0, 0, 0, 0]), c.le(o.T[0, 0, 0, 0] + 0.1, o.T[1, 0, 0, 0])))
    else:
        c.assume(c.le(o.S[0, 0, 0, 0] + 0.1, o.S[1, 0, 0, 0]))
    out, _ = FN[which]()(o.ds, strict=False, equation_of_state="linear")
    v = c.elems(out[which])[1, 0, 0]
    c.true("sign", c.lt(0.0, v) if which == "thermosteric" else c.lt(v, 0.0))


def cases(tier):
    q = []
    for w in ("thermosteric", "halosteric"):
        q += [Case(f"{w}", variant, nt=2, nz=2, ny=1, nx=1, which=w), Case(f"{w} linear", variant, nt=2, nz=2, ny=1, nx=2, which=w, eosname="linear"),
              Case(f"{w} reference at time 1", variant, nt=2, nz=1, ny=1, nx=1, which=w, index=1), Case(f"{w} independence", independent, which=w), Case(f"{w} sign", signs, which=w)]
    for w in ("thermosteric", "halosteric", "steric"):
        for d in ("local", "global"):
            q.append(Case(f"no change {w} {d}", no_change, which=w, eosname="Wright", domain=d))
            q.append(Case(f"no change {w} {d} linear", no_change, which=w, eosname="linear", domain=d))
    for w in ("thermosteric", "halosteric"):
        for d in ("local", "global"):
            q += [Case(f"unseen {w} {d} {e}{' given' if g else ''}", unseen, which=w, domain=d, eosname=e, given=g) for e in ("Wright", "linear") for g in (False, True)]
            q += [Case(f"options {w} {d}", options, which=w, domain=d, shape=(2, 1, 1, 2)), Case(f"options {w} {d} index", options, which=w, domain=d, shape=(2, 1, 1, 2), index=1),
                  Case(f"options {w} {d} linear", options, which=w, domain=d, shape=(3, 2, 1, 1), eosname="linear", index=2, flip=True), Case(f"options {w} {d} extra", options, which=w, domain=d, shape=(2, 1, 1, 2), extra=True, missing="shared")]
    q += [Case(f"entry {w} {d}{' annual' if a else ''}{' given' if g else ''}{' positional' if p else ''}", entry, which=w, domain=d, annual=a, given=g, positional=p)
          for w in ("thermosteric", "halosteric") for d in ("local", "global") for a, g, p in ((False, False, False), (False, True, True), (True, False, True), (True, True, False))]
    for w in ("thermosteric", "halosteric"):
        q += [Case(f"{w} given reference {e}", local, nt=2, nz=2, ny=1, nx=1, variant=w, given=True, eosname=e) for e in ("Wright", "linear")] + [Case(f"{w} given reference global", glob, nt=2, nz=1, ny=1, nx=2, variant=w, given=True, eosname="linear")]
    q.append(Case("additive", additive, nt=2, nz=2, ny=1, nx=2))
    if tier == "thorough":
        q.append(Case("additive large", additive, nt=3, nz=5, ny=1, nx=2, budget=400))
    return q
