"""C12 Region selections contain exactly the requested coordinates."""
from .lib import lats, lons, bandw, PI

BOUNDS = ("grids of 20-60 degrees (thorough: also 10 and 15); all real longitude bounds in [-30, 400] and latitude bounds in [-100, 100], single values in the same ranges, "
          "open ends, hemispheres, and all pairs of dimensions on the coarsest grid; all field values")
OUTSIDE = "finer grids; bounds of other numeric types than float and int"
OPTS = {"max_paths": 4000}


def tasks(tier):
    q = tier == "quick"
    out = []
    for res in ([45., 36.] if q else [60., 45., 36., 30., 20., 15.]):
        for k in ("both", "lo", "hi", "none"):
            out.append(("longitudes", dict(res=res, kind=k)))
            out.append(("latitudes", dict(res=res, kind=k)))
        out.append(("single", dict(res=res, dim=0)))
        out.append(("single", dict(res=res, dim=1)))
    for res in ([90.] if q else [90., 60.]):
        out.append(("joint", dict(res=res)))
    for res in ([20.] if q else [20., 10., 5.]):
        out.append(("ints", dict(res=res)))
    for wrap in (0, 1):
        out.append(("extract", dict(res=45., wrap=wrap)))
        out.append(("area", dict(res=45., wrap=wrap)))
    out.append(("refuse", {}))
    out.append(("single_extract", {}))
    return out


def describe(c, g, r, ilat, ilon, x=None):
    """everything about region r says that it consists of rows ilat and columns ilon"""
    la, lo = g.lat, g.lon
    nla, nlo = len(ilat), len(ilon)
    c.check("shape", tuple(r.shape) == (nla, nlo))
    c.check("dimensions", r.lat.shape == (nla,) and r.lon.shape == (nlo,))
    c.close("latitudes", r.lat, c.np.array([la[i] for i in ilat]), 1e-9)
    c.close("longitudes", r.lon, c.np.array([lo[i] for i in ilon]), 1e-9)
    mono, wraps = [], 0
    for k in range(nlo - 1, -1, -1):
        if k < nlo - 1 and ilon[k] > ilon[k + 1]:
            wraps += 1
        mono.insert(0, lo[ilon[k]] - 360. * wraps)
    c.close("continuous longitudes", r.lon_mono, c.np.array(mono), 1e-9)
    m = r.mask
    c.check("mask shape", m.shape == g.shape)
    c.check("mask", all(bool(m[i, j]) == (i in ilat and j in ilon) for i in range(g.nlat) for j in range(g.nlon)))
    f2, fl, fm = (c.np.array([[100. * i + j for j in range(g.nlon)] for i in range(g.nlat)]), c.np.array([1. * j for j in range(g.nlon)]),
                  c.np.array([10. * i for i in range(g.nlat)]))
    e = r.extract(f2)
    c.check("field shape", e.shape == (nla, nlo))
    c.close("field", e, c.np.array([100. * i + j for i in ilat for j in ilon]).reshape((nla, nlo)), 1e-9)
    out = r.extract(fm, f2, fl)
    c.check("tuple", isinstance(out, tuple) and len(out) == 3)
    c.close("meridional profile", out[0], c.np.array([10. * i for i in ilat]), 1e-9)
    c.close("field among several", out[1], e, 1e-9)
    c.close("zonal profile", out[2], c.np.array([1. * j for j in ilon]), 1e-9)


def pick_lon(c, g, lo, hi):
    n = g.nlon
    if lo is not None and hi is not None and c.decide(lo > hi):
        return [i for i in range(n) if c.decide(g.lon[i] >= lo)] + [i for i in range(n) if c.decide(g.lon[i] <= hi) and not c.decide(g.lon[i] >= lo)]
    return [i for i in range(n) if (lo is None or c.decide(g.lon[i] >= lo)) and (hi is None or c.decide(g.lon[i] <= hi))]


def pick_lat(c, g, lo, hi):
    if lo is not None and hi is not None and c.decide(lo > hi):
        lo, hi = hi, lo
    return [i for i in range(g.nlat) if (lo is None or c.decide(g.lat[i] >= lo)) and (hi is None or c.decide(g.lat[i] <= hi))]


def bounds(c, kind, a, b):
    lo = c.real("lo", a, b) if kind in ("both", "lo") else None
    hi = c.real("hi", a, b) if kind in ("both", "hi") else None
    return lo, hi


def longitudes(c, res, kind):
    g = c.bt.Grid(res)
    lo, hi = bounds(c, kind, -30, 400)
    ilon = pick_lon(c, g, lo, hi)
    ilat = list(range(g.nlat))
    describe(c, g, g.region[lo:hi], ilat, ilon)
    describe(c, g, g.region[lo:hi, :], ilat, ilon)
    describe(c, g, g.region[lo:hi, 85:-20], [i for i in ilat if -20 <= lats(res)[i] <= 85], ilon)


def latitudes(c, res, kind):
    g = c.bt.Grid(res)
    lo, hi = bounds(c, kind, -100, 100)
    ilat = pick_lat(c, g, lo, hi)
    describe(c, g, g.region[:, lo:hi], ilat, list(range(g.nlon)))
    describe(c, g, g.region[200:50, lo:hi], ilat, [i for i in range(g.nlon) if lons(res)[i] >= 200] + [i for i in range(g.nlon) if lons(res)[i] <= 50])
    if kind == "none":
        for key, a, b in (("N", 0, 90), ("S", -90, 0)):
            describe(c, g, g.region[:, key], [i for i in range(g.nlat) if a - 1e-9 <= lats(res)[i] <= b + 1e-9], list(range(g.nlon)))


def joint(c, res):
    g = c.bt.Grid(res)
    a, b = c.real("lo", 0, 360), c.real("hi", 0, 360)
    p, q = c.real("south", -90, 90), c.real("north", -90, 90)
    describe(c, g, g.region[a:b, p:q], pick_lat(c, g, p, q), pick_lon(c, g, a, b))


def ints(c, res):
    """integer bounds, also of numpy types"""
    g = c.bt.Grid(res)
    k = c.int("k", 0, g.nlon - 1)
    w = c.int("w", 0, g.nlon - 1)
    w0 = c.pick("width", [0, 1, 4])
    kk = c.pick("index", list(range(0, g.nlon, 3)) + [g.nlon - 1])
    c.assume(c.and_(k == kk, w == w0))
    lo, hi = int(round(kk * res)), int(round((kk + w0) % g.nlon * res))
    ilon = [(kk + i) % g.nlon for i in range(w0 + 1)]
    describe(c, g, g.region[lo:hi], list(range(g.nlat)), ilon)
    describe(c, g, g.region[c.np.int64(lo):c.np.float64(hi), 30:60], [i for i in range(g.nlat) if 29.99 <= lats(res)[i] <= 60.01], ilon)


def single(c, res, dim):
    g = c.bt.Grid(res)
    xs = list(g.lat if dim else g.lon)
    x = c.real("x", -100, 100) if dim else c.real("x", -20, 380)
    sel = (lambda v: g.region[:, v]) if dim else (lambda v: g.region[v])
    near = [i for i in range(len(xs)) if c.decide(c.and_(x > xs[i] - .01, x < xs[i] + .01))]
    if near:
        i = near[0]
        c.assume(c.and_(x > xs[i] - 1e-9, x < xs[i] + 1e-9))
        full = list(range(g.nlon if dim else g.nlat))
        describe(c, g, sel(x), [i] if dim else full, full if dim else [i])
    else:
        c.refuses("off the grid", lambda: sel(x), IndexError)


def single_extract(c):
    g = c.bt.Grid(60.)
    f = c.array("f", g.shape, -10, 10)
    for i in range(g.nlat):
        for j in range(g.nlon):
            e = g.region[float(60 * j), float(90 - 60 * i)].extract(f)
            c.close("point", e, f[i:i + 1, j:j + 1], 1e-12)
    c.observe("e", e)


def sample(c, g, wrap):
    lo, hi = c.real("lo", 0, 359), c.real("hi", 0, 359)
    c.assume(lo > hi if wrap else lo <= hi)
    return g.region[lo:hi, 50:-60], [1, 2, 3], pick_lon(c, g, lo, hi)


def extract(c, res, wrap):
    """values, and copies of them"""
    g = c.bt.Grid(res)
    r, ilat, ilon = sample(c, g, wrap)
    f = c.array("f", g.shape, -10, 10)
    p, z = c.array("p", (g.nlat,), -10, 10), c.array("z", (g.nlon,), -10, 10)
    sf, sp, sz = c.snapshot(f), c.snapshot(p), c.snapshot(z)
    ef, ep, ez, ef2 = r.extract(f, p, z, -f)
    c.check("shapes", ef.shape == (len(ilat), len(ilon)) and ep.shape == (len(ilat),) and ez.shape == (len(ilon),) and ef2.shape == ef.shape)
    for a, i in enumerate(ilat):
        c.close("meridional profile", ep[a], p[i], 1e-12)
        for b, j in enumerate(ilon):
            c.close("field", ef[a, b], f[i, j], 1e-12)
            c.close("second field", ef2[a, b], -f[i, j], 1e-12)
    for b, j in enumerate(ilon):
        c.close("zonal profile", ez[b], z[j], 1e-12)
    for e in (ef, ep, ez):
        e[...] = 77.
    for e in (r.lat, r.lon, r.lon_mono):
        e[...] = 77.
    r.mask[...] = True
    full = g.region[:, :]
    for e in full.extract(f, p, z):
        e[...] = 78.
    for e in (full.lat, full.lon, full.lon_mono):
        e[...] = 78.
    c.unchanged("field", f, sf)
    c.unchanged("meridional profile", p, sp)
    c.unchanged("zonal profile", z, sz)
    describe(c, g, r, ilat, ilon)
    c.close("grid latitudes", g.lat, lats(res), 1e-9)
    c.close("grid longitudes", g.lon, lons(res), 1e-9)


def area(c, res, wrap):
    g = c.bt.Grid(res, rsphere=2.)
    r, ilat, ilon = sample(c, g, wrap)
    w = bandw(res)
    a = r.gridpoint_area
    c.check("shape", a.shape == (len(ilat),))
    for x, i in enumerate(ilat):
        c.close("area", a[x], 4. * w[i] * 2 * PI / g.nlon, 1e-6)
    if ilon:
        f = c.array("f", g.shape, -10, 10)
        want = sum(w[i] * f[i, j] for i in ilat for j in ilon) / (sum(w[i] for i in ilat) * len(ilon))
        c.close("mean", r.mean(f), want, 1e-6)
        c.close("mean", r.mean(r.extract(f)), want, 1e-6)


def refuse(c):
    g = c.bt.Grid(45.)
    R = g.region
    step = c.pick("step", [1, 2, 10., -1, 0])
    for s in (slice(0, 90, step), slice(None, None, step), slice("a", 3), slice(3, "b"), slice([1], 3), "E", [10, 20], None, (3, 4), slice(3, (4,))):
        c.refuses("longitudes", lambda: R[s, :], IndexError)
        c.refuses("latitudes", lambda: R[:, s], IndexError)
    c.refuses("longitudes", lambda: R["N", :], IndexError)
    c.refuses("longitudes", lambda: R["N"], IndexError)
    for s in ("n", "North", "", "NS"):
        c.refuses("hemisphere", lambda: R[:, s], IndexError)
    c.refuses("dimensions", lambda: R[0:90, 0:90, 0:90], IndexError)
    c.refuses("dimensions", lambda: R[(slice(0, 90),)], IndexError)
    r = R[0:100, -50:50]
    f = c.array("f", g.shape, -10, 10)
    for bad in (f[:4], f[:, :7], f.T, f[:, :, None], f[0, :4], f[:4, 0], f[1:3, :3], f[0, 0]):
        c.refuses("field", lambda: r.extract(bad))
        c.refuses("field", lambda: r.extract(f, bad))
    c.refuses("nothing", lambda: r.extract())
