"""Oracles and input builders shared by the property modules."""
import numpy as np
import xarray as xr

from symlev.engine import Case  # noqa: F401

# Wright (1997), J. Atmos. Ocean. Tech. 14, 735-740, extended-range fit
WA = (7.057924e-4, 3.480336e-7, -1.112733e-7)
WB = (5.790749e8, 3.516535e6, -4.002714e4, 2.084372e2, 5.944068e5, -9.643486e3)
WC = (1.704853e5, 7.904722e2, -7.984422, 5.140652e-2, -2.302158e2, -3.079464)


def wright_parts(t, s, p):
    al0 = WA[0] + WA[1] * t + WA[2] * s
    p0 = WB[0] + WB[1] * t + WB[2] * t * t + WB[3] * t * t * t + WB[4] * s + WB[5] * s * t
    lam = WC[0] + WC[1] * t + WC[2] * t * t + WC[3] * t * t * t + WC[4] * s + WC[5] * s * t
    return al0, p0, lam


def wright(t, s, p):
    al0, p0, lam = wright_parts(t, s, p)
    return (p + p0) / (al0 * (p + p0) + lam)


def wright_dt(t, s, p):
    """analytic derivative of the published formula (quotient rule)"""
    al0, p0, lam = wright_parts(t, s, p)
    dp0 = WB[1] + 2 * WB[2] * t + 3 * WB[3] * t * t + WB[5] * s
    dl = WC[1] + 2 * WC[2] * t + 3 * WC[3] * t * t + WC[5] * s
    n, d = p + p0, al0 * (p + p0) + lam
    dd = WA[1] * n + al0 * dp0 + dl
    return (dp0 * d - n * dd) / (d * d)


def wright_ds(t, s, p):
    al0, p0, lam = wright_parts(t, s, p)
    dp0 = WB[4] + WB[5] * t
    dl = WC[4] + WC[5] * t
    n, d = p + p0, al0 * (p + p0) + lam
    dd = WA[2] * n + al0 * dp0 + dl
    return (dp0 * d - n * dd) / (d * d)


def lin(t, s, p=None):
    return 1000.0 - 0.2 * t + 0.8 * s


RHO = {"Wright": wright, "linear": lin}

# physical ranges
TLO, THI = -10.0, 60.0
SLO, SHI = -2.0, 80.0
PLO, PHI = 0.0, 2.0e8


def da(data, dims, coords=None, name=None, attrs=None):
    return xr.DataArray(data, dims=dims, coords=coords, name=name, attrs=attrs)


def labels(n, start=10.0):
    """axis labels in no order: neither ascending nor, from three on, descending"""
    return [start + 4.0 - 3.0 * i + (11.0 if i % 3 == 2 else 0.0) for i in range(n)]


def grid_z(c, nz, zmax=6000.0, gap=1.0, name="z", inside=True):
    """free interfaces 0 <= i0 < i1 < ... and free levels, inside the layers or anywhere"""
    zi = c.elems(c.array(name + "i", (nz + 1,), 0.0, zmax))
    for k in range(nz):
        c.assume(c.le(zi[k] + gap, zi[k + 1]))
    zl = c.elems(c.array(name + "l", (nz,), 0.0, zmax))
    for k in range(nz):
        if inside:
            c.assume(c.and_(c.le(zi[k], zl[k]), c.le(zl[k], zi[k + 1])))
        if k:
            c.assume(c.lt(zl[k - 1], zl[k]))
    return zl, zi


def dz_of(c, zt, zb, depth, top=0.0, bottom=None):
    """overlap of the cell [zt, zb] with the water column between `top` and
    min(depth, bottom); a missing depth is land (0)"""
    d = c.where(c.isnan(depth), 0.0, depth)
    if bottom is not None:
        d = c.min(d, bottom)
    return c.max(0.0, c.min(zb, d) - c.max(zt, top))


def objs(shape, f):
    o = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        o[i] = f(*i)
    return o


import cftime  # noqa: E402

CALENDARS = {"noleap": cftime.DatetimeNoLeap, "standard": cftime.DatetimeGregorian, "360_day": cftime.Datetime360Day,
             "julian": cftime.DatetimeJulian, "all_leap": cftime.DatetimeAllLeap, "proleptic_gregorian": cftime.DatetimeProlepticGregorian}
DIM = {"noleap": [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31], "360_day": [30] * 12,
       "all_leap": [31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]}


def leap(cal, y):
    if cal == "noleap" or cal == "360_day":
        return False
    if cal == "all_leap":
        return True
    if cal == "julian" or (cal == "standard" and y < 1582):
        return y % 4 == 0
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def month_days(cal, y, m):
    if cal == "360_day":
        return 30
    return DIM["all_leap" if leap(cal, y) else "noleap"][m - 1]


def year_days(cal, y):
    return sum(month_days(cal, y, m) for m in range(1, 13))


def months(cal, y0, m0, n, day=15):
    """n consecutive monthly dates"""
    t = CALENDARS[cal]
    return [t(y0 + (m0 - 1 + k) // 12, (m0 - 1 + k) % 12 + 1, day) for k in range(n)]


def rich(k):
    """attributes as found on the variables of model output files"""
    return {"long_name": f"coordinate {k}", "units": "degrees_north", "standard_name": f"standard {k}", "axis": k[0].upper(), "cartesian_axis": k[0].upper(), "positive": "down", "bounds": f"{k}_bnds", "edges": f"{k}_edges",
            "calendar": "noleap", "calendar_type": "NOLEAP", "climatology": f"{k}_clim", "cell_methods": "time: mean", "cell_measures": "area: areacello", "coordinates": "geolat geolon", "comment": "", "history": "made", "source": "model",
            "_FillValue": 1e20, "missing_value": 1e20, "valid_range": (0.0, 1.0), "valid_min": -1.0, "scale_factor": 1.0, "add_offset": 0.0, "formula_terms": "", "interp_method": "none", "time_avg_info": "average_T1", "grid_mapping": "crs", "original_name": k, "note": None}


def magnitude(c, vol, area):
    """concrete runs: a level that nearly cancels is rounded at the size of the reference height (volume over area)"""
    if not c.symbolic:
        v, a = np.asarray(vol, dtype=float), np.asarray(area, dtype=float)
        c.size = max(c.size, float(np.nansum(v)) / max(float(np.nansum(a)), 1e8))


class Ocean:
    """a symbolic model output: potential temperature, salinity, cell volume, area, depth"""

    def __init__(self, c, nt, nz, ny, nx, missing="shared", depth_missing=True, area_missing=True, names=None, calendar="noleap", rename=None,
                 volume_time=True, order=None, t0=(1, 1), strict_area=False, flip=False, extra=False, vlo=1e9):
        n = {"t": "time", "z": "z_l", "zb": "z_i", "y": "yh", "x": "xh"}
        n.update(names or {})
        r = {k: k for k in ("thetao", "so", "volcello", "areacello", "deptho")}
        r.update(rename or {})
        self.n, self.r = n, r
        sh = (nt, nz, ny, nx)
        self.shape = sh
        if missing == "shared":        # land mask common to all fields and times
            m = c.bools("land", (nz, ny, nx))
            m = np.broadcast_to(m, sh)
            mt = ms = mv = m
        elif missing == "free":
            mt = ms = mv = True
        else:
            mt = ms = mv = False
        self.zl, self.zi = grid_z(c, nz)
        dims = (n["t"], n["z"], n["y"], n["x"])
        self.dims = dims
        t = c.array("T", sh, TLO, THI, nan=mt)
        s = c.array("S", sh, SLO, SHI, nan=ms)
        v = c.array("V", sh, vlo, 1e15, nan=mv)
        self.T, self.S, self.V = c.elems(t), c.elems(s), c.elems(v)
        if strict_area:
            a = c.array("A", (ny, nx), 0.0, 3.7e14, nan=area_missing)
            tot = c.nansum(c.elems(a).ravel())
            c.assume(c.and_(c.le(0.9801 * 3.6111092e14, tot), c.le(tot, 1.0199 * 3.6111092e14)))
        else:
            a = c.array("A", (ny, nx), 1e8, 3.7e14, nan=area_missing)
        d = c.array("D", (ny, nx), 0.0, 1.0e6, nan=depth_missing)
        self.A, self.D = c.elems(a), c.elems(d)
        magnitude(c, self.V, self.A)
        coords = {n["z"]: ((n["z"],), c.pack(self.zl)), n["zb"]: ((n["zb"],), c.pack(self.zi))}
        if nt:
            coords[n["t"]] = ((n["t"],), months(calendar, t0[0], t0[1], nt))
        ds = xr.Dataset({r["thetao"]: (dims, t), r["so"]: (dims, s), r["volcello"]: (dims, v),
                         r["areacello"]: ((n["y"], n["x"]), a), r["deptho"]: ((n["y"], n["x"]), d)}, coords=coords)
        if order is not None:
            o = [n[k] for k in order]
            for k in ("thetao", "so", "volcello"):
                ds[r[k]] = ds[r[k]].transpose(*o)
        if flip:      # each field with its own order of dimensions
            ds[r["so"]] = ds[r["so"]].transpose(n["x"], n["z"], n["t"], n["y"])
            ds[r["volcello"]] = ds[r["volcello"]].transpose(n["z"], n["y"], n["x"], n["t"])
            ds[r["areacello"]] = ds[r["areacello"]].transpose(n["x"], n["y"])
            ds[r["deptho"]] = ds[r["deptho"]].transpose(n["x"], n["y"])
        if extra:     # labelled horizontal axes, auxiliary coordinates and unrelated variables
            ds = ds.assign_coords({n["y"]: np.linspace(60.0, -60.0, ny), n["x"]: labels(nx, 300.0),
                                   "geolat": ((n["y"], n["x"]), np.arange(ny * nx, dtype=float).reshape(ny, nx)), "basin": 7})
            ds["wet"] = ((n["y"], n["x"]), np.ones((ny, nx)))
            ds["umo"] = ((n["t"],), np.arange(float(nt)))
        self.ds = ds

    def p(self, k, patm=101325.0):
        return self.zl[k] * 1.0e4 + patm

    def rho(self, c, eosname, a, k, j, i, tt=None, ss=None, patm=101325.0):
        """density at (time a, level k, row j, column i), temperature / salinity from time tt / ss"""
        tt = a if tt is None else tt
        ss = a if ss is None else ss
        return RHO[eosname](self.T[tt, k, j, i], self.S[ss, k, j, i], self.p(k, patm))
