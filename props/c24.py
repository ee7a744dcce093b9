"""C24: grid cell areas are areas on the sphere"""
import math

import numpy as np
import xarray as xr
from momlevel import util

from .common import Case, da, objs

R0 = 6.371e6
RAD = math.pi / 180.0


def cell(c, la, dla, dlo, r):
    """r^2 * dlon * |sin north - sin south|; a row at a pole ends there"""
    edge = lambda v: c.max(c.min(v, 90.0), -90.0)
    return r * r * (RAD * c.abs(dlo)) * c.abs(c.fn("sin", edge(la + 0.5 * dla) * RAD) - c.fn("sin", edge(la - 0.5 * dla) * RAD))


def axes(c, n, m, sign=1.0, lat=(-90.0, 90.0), step=60.0, east=1.0, inside=False, wide=60.0):
    """any regular grid: first latitude / longitude and spacings free; all centres between the poles"""
    la, dla = c.real("lat0", *lat), c.real("dlat", 0.01, step)
    lo, dlo = c.real("lon0", -300.0, 360.0), c.real("dlon", 0.01, wide)
    dla, dlo = dla * sign, dlo * east
    lat, lon = [la + k * dla for k in range(n)], [lo + k * dlo for k in range(m)]
    for v in (lat[0], lat[-1]):
        c.assume(c.and_(c.le(-90.0, v), c.le(v, 90.0)))
    if inside:
        c.assume(c.and_(c.le(-90.0, lat[0] - 0.5 * c.abs(dla)), c.le(lat[0] + 0.5 * c.abs(dla), 90.0), c.le(-90.0, lat[-1] - 0.5 * c.abs(dla)), c.le(lat[-1] + 0.5 * c.abs(dla), 90.0)))
    return lat, lon, dla, dlo


def area(c, n, m, labelled, sign=1.0, radius=False, names=("lat", "lon"), east=1.0, inside=False, step=60.0, wide=60.0):
    c.cover(util.standard_grid_cell_area)
    lat, lon, dla, dlo = axes(c, n, m, sign, east=east, inside=inside, step=step, wide=wide)
    kw, r = {}, R0
    if radius:
        kw["r_earth"] = r = c.real("r", 1e6, 1e7)
    LA, LO = c.pack(objs((n,), lambda i: lat[i])), c.pack(objs((m,), lambda i: lon[i]))
    if labelled == "latitude":
        LA = da(LA, (names[0],), {names[0]: LA})
    elif labelled:
        LA, LO = da(LA, (names[0],), {names[0]: LA}), da(LO, (names[1],), {names[1]: LO})
    out = util.standard_grid_cell_area(LA, LO, **kw)
    spec = objs((n, m), lambda j, i: cell(c, lat[j], dla, dlo, r))
    c.compare("area", out, spec, dims=names if labelled is True else None, scale=1e10)
    if labelled is True:
        for nm, v in zip(names, (lat, lon)):
            c.compare(f"coordinate {nm}", c.elems(np.array(out[nm].values, dtype=object)), np.array(v, dtype=object), scale=1.0)
        c.true("units", out.attrs.get("units") == "m2")


def sphere(c, n, m, offset=0.0, poles=False, down=False, west=False):
    """cells of a grid that covers the globe add up to its surface, for any radius"""
    c.cover(util.standard_grid_cell_area)
    r = c.real("r", 1e5, 1e8)
    dla, dlo = 180.0 / n, 360.0 / m
    lat, lon = -90.0 + dla * (np.arange(n) + 0.5), offset + dlo * (np.arange(m) + 0.5)
    if poles:           # rows centred on both poles
        lat = np.linspace(-90.0, 90.0, n)
    o = c.elems(util.standard_grid_cell_area(lat[::-1] if down else lat, lon[::-1] if west else lon, r_earth=r))
    c.compare("sphere", c.sum(list(o.ravel())) / (r * r), 4.0 * math.pi, dims=(), scale=1.0)


def positive(c):
    c.cover(util.standard_grid_cell_area)
    lat, lon, dla, dlo = axes(c, 2, 2, lat=(-60.0, 40.0), step=20.0, inside=True)
    o = c.elems(util.standard_grid_cell_area(c.pack(objs((2,), lambda i: lat[i])), c.pack(objs((2,), lambda i: lon[i]))))
    for q in np.ndindex(2, 2):
        c.true(f"positive{q}", c.lt(0.0, o[q]))


def lists(c):
    """plain lists"""
    c.cover(util.standard_grid_cell_area)
    r = c.real("r", 1e6, 1e7)
    o = util.standard_grid_cell_area([-45.0, 0.0, 45.0], [0.0, 90.0], r_earth=r)
    c.compare("area", o, objs((3, 2), lambda j, i: cell(c, c.const(-45.0 + 45.0 * j), c.const(45.0), c.const(90.0), r)), scale=1e12)


def integers(c):
    """whole-degree axes of integer type"""
    c.cover(util.standard_grid_cell_area)
    r = c.real("r", 1e6, 1e7)
    for lat, lon in ((np.array([-3, 2, 7]), np.array([0, 3])), (np.arange(90, -91, -45), np.array([350, 345, 340]))):
        o = util.standard_grid_cell_area(lat, lon, r_earth=r)
        c.compare(f"area from {lat[0]}", o, objs((len(lat), len(lon)), lambda j, i: cell(c, c.const(float(lat[j])), c.const(float(lat[1] - lat[0])), c.const(float(lon[1] - lon[0])), r)), scale=1e12)


def cases(tier):
    q = []
    for lab in (False, True):
        q += [Case(f"labelled={lab}", area, n=3, m=2, labelled=lab), Case(f"south first={lab}", area, n=2, m=3, labelled=lab, sign=-1.0), Case(f"radius labelled={lab}", area, n=2, m=2, labelled=lab, radius=True)]
    q += [Case("names", area, n=2, m=2, labelled=True, names=("nj", "ni")), Case("sphere", sphere, n=6, m=4), Case("sphere fine", sphere, n=18, m=12, offset=-180.0), Case("positive", positive), Case("lists", lists)]
    q += [Case("one axis labelled", area, n=2, m=2, labelled="latitude"), Case("westward", area, n=2, m=3, labelled=True, east=-1.0), Case("both descending", area, n=3, m=2, labelled=False, sign=-1.0, east=-1.0, radius=True), Case("longer", area, n=7, m=5, labelled=True), Case("inside", area, n=3, m=2, labelled=True, inside=True),
          Case("poles", sphere, n=5, m=4, poles=True), Case("poles, two rows", sphere, n=2, m=3, poles=True), Case("poles, north first", sphere, n=19, m=6, poles=True, down=True), Case("north first, westward", sphere, n=9, m=5, down=True, west=True, offset=-180.0), Case("integers", integers)]
    q += [Case("24x36", area, n=24, m=36, labelled=False), Case("thirty rows", area, n=30, m=3, labelled=True, sign=-1.0), Case("sphere 90x45", sphere, n=90, m=45)]
    q += [Case(f"wide cells {k}", area, n=2, m=2, labelled=k, step=180.0, wide=360.0, sign=s, east=e) for k, s, e in ((True, 1.0, 1.0), (False, -1.0, -1.0))] + [Case("sphere 1x1", sphere, n=2, m=2, offset=-180.0), Case("sphere 3x2", sphere, n=3, m=2)]
    if tier == "thorough":
        q += [Case("large", area, n=6, m=6, labelled=True, radius=True, budget=300), Case("sphere one degree rows", sphere, n=180, m=4)]
    return q
