"""C10 Area-weighted means are true averages."""
from .lib import PI, bandw, lats, lons, nl

BOUNDS = ("grids of 12 to 90 degrees; radius in [0.5, 3] (and Earth); all field values in [-10, 10]; "
          "16 regions: wrapping, single rows and columns, hemispheres, open bounds")
OUTSIDE = "finer grids, masked or non-finite fields"

# (lon selection, lat selection)
REGIONS = [
    ((None, None), (None, None)), ((None, None), "N"), ((None, None), "S"), ((300, 60), (None, None)), ((90, 200), (-60, 30)),
    ((180, 120), (90, 0)), ((0, 0), (None, None)), ((330, 20), (-90, -60)), ((None, 100), (30, None)), ((240, None), (None, -30)),
    ((60, 60), (60, 60)), ((None, None), (90, 90)), ((0, 359), (0, 0)), ((350, 349), (-45, 45)), ((120, 240), "N"), ((200, 100), "S"),
]


def tasks(tier):
    out = []
    rs = [30., 45.] if tier == "quick" else [12., 15., 18., 20., 30., 36., 45., 60., 90.]
    for r in rs + ([22.5] if tier == "quick" else []):
        out.append(("area", dict(res=r)))
    for r in rs:
        out.append(("globe", dict(res=r)))
    reg = range(len(REGIONS))
    for r in ([30.] if tier == "quick" else [20., 30., 45.]):
        for i in reg:
            out.append(("region", dict(res=r, i=i)))
    for i in ((3, 7) if tier == "quick" else reg):
        out.append(("region", dict(res=45. if tier == "quick" else 60., i=i)))
    out.append(("refuse", {}))
    return out


def area(c, res):
    R = c.real("R", 0.5, 3)
    nlat, nlon = nl(res)
    w = bandw(res)
    for g, rr, tol in ((c.bt.Grid(res, rsphere=R), R, 1e-7), (c.bt.Grid(res), 6371.2e3, 1e6)):
        a = g.gridpoint_area
        c.check("shape", a.shape == (nlat,))
        c.le("positive", 1e-9, a)
        c.close("symmetric", a, a[::-1], tol)
        c.close("sum", sum(list(a)) * nlon, 4 * PI * rr * rr, tol * 100)
        c.close("cell", a, c.const([x * 2 * PI / nlon for x in w]) * rr * rr, tol)
        c.observe("a", a)


def sel(g, i):
    lo, la = REGIONS[i]
    return g.region[slice(*lo), la if isinstance(la, str) else slice(*la)]


def members(res, i):
    """row and column numbers of the region, in order"""
    lo, la = REGIONS[i]
    if la == "N":
        la = (0, 90)
    if la == "S":
        la = (-90, 0)
    a, b = [x for x in la]
    if a is not None and b is not None:
        a, b = min(a, b), max(a, b)
    rows = [j for j, x in enumerate(lats(res)) if (a is None or x >= a) and (b is None or x <= b)]
    L, H = lo
    lon = lons(res)
    if L is not None and H is not None and H < L:
        cols = [k for k, x in enumerate(lon) if x >= L] + [k for k, x in enumerate(lon) if x <= H]
    else:
        cols = [k for k, x in enumerate(lon) if (L is None or x >= L) and (H is None or x <= H)]
    return rows, cols


def ref(c, f, w, rows, cols):
    W = sum(w[j] for j in rows)
    tot = sum(w[j] / W / len(cols) * f[j, k] for j in rows for k in cols)
    mer = [sum(w[j] / W * f[j, k] for j in rows) for k in cols]
    zon = [sum(f[j, k] for k in cols) / len(cols) for j in rows]
    return tot, mer, zon


def compare(c, mean, f, w, rows, cols):
    tot, mer, zon = ref(c, f, w, rows, cols)
    c.close("global", mean(None), tot, 1e-7)
    for ax in (0, -2, "meridional"):
        c.close("meridional", mean(ax), mer, 1e-7)
    for ax in (1, -1, "zonal"):
        c.close("zonal", mean(ax), zon, 1e-7)


def globe(c, res):
    nlat, nlon = nl(res)
    g = c.bt.Grid(res, rsphere=c.real("R", 0.5, 3))
    lo, hi = c.real("lo", -10, 10), c.real("hi", -10, 10)
    if res >= 30:
        f = c.array("f", g.shape, -10, 10)
    else:                       # every row symbolic, two symbolic columns
        f = c.np.ones(g.shape) * c.array("f", (nlat, 1), -10, 10)
        f[:, 1] = c.array("f1", nlat, -10, 10)
    s = c.snapshot(f)
    w = bandw(res)
    compare(c, lambda ax: g.mean(f) if ax is None else g.mean(f, axis=ax), f, w, range(nlat), range(nlon))
    c.unchanged("input", f, s)
    m = g.mean(f)
    for x in list(f.reshape(-1)):
        c.assume(c.and_(lo <= x, x <= hi))
    c.le("at least the minimum", lo, m, 1e-7)
    c.le("at most the maximum", m, hi, 1e-7)
    z = g.mean(f, axis="zonal")
    c.close("mean of zonal means", g.mean(c.np.ones(g.shape) * z[:, None], axis="meridional"), c.np.ones(nlon) * m, 1e-7)
    k = c.real("k", -100, 100)
    const = c.np.ones(g.shape) * k
    c.close("constant", g.mean(const), k, 1e-7)
    c.close("constant zonal", g.mean(const, axis=1), c.np.ones(nlat) * k, 1e-7)
    c.close("constant meridional", g.mean(const, axis=0), c.np.ones(nlon) * k, 1e-7)
    c.close("linear", g.mean(3. * f - const), 3. * m - k, 1e-6)
    c.observe("m", m)
    c.observe("z", z)


def region(c, res, i):
    nlat, nlon = nl(res)
    g = c.bt.Grid(res)
    f = c.array("f", g.shape, -10, 10)
    rg = sel(g, i)
    rows, cols = members(res, i)
    w = bandw(res)
    c.check("shape", tuple(rg.shape) == (len(rows), len(cols)))
    s = c.snapshot(f)
    compare(c, lambda ax: g.mean(f, region=rg) if ax is None else g.mean(f, axis=ax, region=rg), f, w, rows, cols)
    if (len(rows), len(cols)) != (nlat, nlon):
        e = rg.extract(f)
        compare(c, lambda ax: g.mean(e, axis=ax, region=rg), f, w, rows, cols)
    c.close("shortcut", rg.mean(f), ref(c, f, w, rows, cols)[0], 1e-7)
    W = 4 * PI * 6371.2e3 ** 2
    c.close("area", rg.gridpoint_area / W, [w[j] / 2 / nlon for j in rows], 1e-9)
    c.unchanged("input", f, s)
    k = c.real("k", -10, 10)
    c.close("constant", g.mean(c.np.ones(g.shape) * k, region=rg), k, 1e-7)
    c.observe("m", g.mean(f, region=rg))


def refuse(c):
    g = c.bt.Grid(45.)
    f = c.array("f", g.shape, -10, 10)
    for ax in (2, -3, "lat", "both"):
        c.refuses("axis", lambda: g.mean(f, axis=ax))
        c.refuses("axis in region", lambda: g.mean(f, axis=ax, region=g.region[:90, :]))
    c.refuses("shape", lambda: g.mean(f[1:, :]))
    c.refuses("shape", lambda: g.mean(f[:, 1:]))
    c.refuses("extracted shape", lambda: g.mean(f[1:, :], region=g.region[:90, :]))
