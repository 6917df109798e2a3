"""C15 Meridional interpolation honours nodes and pole values."""
from .lib import lats, nl

BOUNDS = ("1..3 nodes (thorough: ..4) at arbitrary distinct latitudes in (-89, 89) in any order, grids of 22.5-90 degrees or one arbitrary evaluation latitude, 1D and 2D (two columns), "
          "all node and pole values in [-10, 10]; 5-9 nodes at given unordered latitudes")
OUTSIDE = "more nodes at arbitrary latitudes; nodes closer than 0.01 degrees to each other or within 1 degree of the poles; evaluation latitudes off the sphere; coinciding nodes"
OPTS = {"max_paths": 8000}


def tasks(tier):
    q = tier == "quick"
    out = []
    for n, res, cols in ([(1, 30., 0), (2, 45., 0), (2, 60., 2), (3, 90., 0)] if q else [(1, 22.5, 0), (1, 45., 2), (2, 30., 0), (2, 45., 2), (3, 60., 0), (3, 45., 2), (4, 90., 0)]):
        out.append(("grid_latitudes", dict(n=n, res=res, cols=cols)))
    for n, cols in ([(1, 0), (2, 2), (3, 0)] if q else [(1, 0), (1, 2), (2, 0), (2, 2), (3, 0), (3, 2), (4, 0)]):
        out.append(("anywhere", dict(n=n, cols=cols)))
    for k in range(len(GIVEN)):
        for cols in (0, 2):
            out.append(("given_nodes", dict(k=k, res=22.5 if q else 10., cols=cols)))
    out.append(("nodes", dict(n=2)))
    out.append(("nodes", dict(n=3)))
    out.append(("own_latitudes", dict(res=36., cols=0)))
    out.append(("own_latitudes", dict(res=45., cols=3)))
    out.append(("refusals", {}))
    return out


GIVEN = [[80., 40., 10., -30., -85.], [-35., 70., 15., -60., 5., 52.5, -88.], [20., 10., 30., -10., -20., 60., 50., -70., 40.], [67.5, 45., 22.5, 0., -22.5, -45., -67.5]]


def reference(c, nodes, x):
    """piecewise linear through the (ascending) nodes"""
    for (x0, y0), (x1, y1) in zip(nodes[:-1], nodes[1:]):
        if c.decide(x <= x1):
            return y0 + (y1 - y0) * ((x - x0) / (x1 - x0))


def nodes_of(c, lat, vals, pn, ps):
    """ascending nodes with the poles"""
    ns = []
    for x, y in zip(lat, vals):
        k = 0
        while k < len(ns) and c.decide(ns[k][0] < x):
            k += 1
        ns.insert(k, (x, y))
    return [(-90., ps)] + ns + [(90., pn)]


def inputs(c, n, cols):
    lat = c.array("x", (n,), -89, 89)
    for i in range(n):
        for j in range(i):
            c.assume(c.or_(lat[i] >= lat[j] + 0.01, lat[i] <= lat[j] - 0.01))
    f = c.array("f", (n, cols) if cols else (n,), -10, 10)
    return lat, f, c.real("north", -10, 10), c.real("south", -10, 10)


def compare(c, got, f, lat, pn, ps, at, cols):
    lo, hi = (c.min([pn, ps] + list(f.reshape(-1))), c.max([pn, ps] + list(f.reshape(-1)))) if not cols else (None, None)
    for k in range(max(cols, 1)):
        ns = nodes_of(c, lat, f[:, k] if cols else f, pn, ps)
        for i, x in enumerate(at):
            v = got[i, k] if cols else got[i]
            c.close("value", v, reference(c, ns, x), 1e-6)
    if not cols:
        c.le("range", got, hi, 1e-6)
        c.le("range", lo, got, 1e-6)


def grid_latitudes(c, n, res, cols):
    g = c.bt.Grid(res, rsphere=2.)
    lat, f, pn, ps = inputs(c, n, cols)
    sl, sf = c.snapshot(lat), c.snapshot(f)
    # not right at a grid latitude
    for x in lats(res):
        c.assume(c.and_(*[c.or_(l < x - 1e-6, l > x + 1e-6) for l in lat]))
    got = g.interpolate_meridional(f, lat, (pn, ps))
    c.check("shape", got.shape == ((g.nlat, cols) if cols else (g.nlat,)))
    compare(c, got, f, lat, pn, ps, lats(res), cols)
    c.close("poles", got[0], [pn] * cols if cols else pn, 1e-9)
    c.close("poles", got[-1], [ps] * cols if cols else ps, 1e-9)
    c.unchanged("nodes", lat, sl)
    c.unchanged("values", f, sf)
    c.observe("got", got)


def anywhere(c, n, cols):
    g = c.bt.Grid(60., rsphere=2.)
    lat, f, pn, ps = inputs(c, n, cols)
    x = c.real("at", -90, 90)
    c.assume(c.and_(*[c.or_(l < x - 1e-6, l > x + 1e-6) for l in lat]))
    fn = g.interp1d_meridional(f, lat, pole_values=(pn, ps))
    got = fn(c.np.array([x]))
    c.check("shape", got.shape == ((1, cols) if cols else (1,)))
    compare(c, got, f, lat, pn, ps, [x], cols)
    c.observe("got", got)


def nodes(c, n):
    """the node values are reproduced"""
    g = c.bt.Grid(60., rsphere=2.)
    lat, f, pn, ps = inputs(c, n, 0)
    fn = g.interp1d_meridional(f, lat, pole_values=(pn, ps))
    c.close("node values", fn(lat), f, 1e-6)
    c.close("pole values", fn(c.np.array([90., -90.])), [pn, ps], 1e-9)
    c.observe("got", fn(lat))


def given_nodes(c, k, res, cols):
    g = c.bt.Grid(res, rsphere=2.)
    lat = c.np.array(GIVEN[k])
    n = len(lat)
    f = c.array("f", (n, cols) if cols else (n,), -10, 10)
    pn, ps = c.real("north", -10, 10), c.real("south", -10, 10)
    sf = c.snapshot(f)
    got = g.interpolate_meridional(f, lat, pole_values=(pn, ps))
    c.check("shape", got.shape == ((g.nlat, cols) if cols else (g.nlat,)))
    order = sorted(range(n), key=lambda i: GIVEN[k][i])
    xs = [-90.] + [GIVEN[k][i] for i in order] + [90.]
    for col in range(max(cols, 1)):
        ys = [ps] + [f[i, col] if cols else f[i] for i in order] + [pn]
        for j, x in enumerate(lats(res)):
            i = max(i for i in range(len(xs) - 1) if xs[i] <= x)
            c.close("value", got[j, col] if cols else got[j], ys[i] + (ys[i + 1] - ys[i]) * ((x - xs[i]) / (xs[i + 1] - xs[i])), 1e-6)
    c.unchanged("values", f, sf)
    c.close("nodes", lat, GIVEN[k], 0.)
    c.observe("got", got)


def own_latitudes(c, res, cols):
    """inner latitudes of the grid as nodes (and the poles, which are superseded by the pole values)"""
    g = c.bt.Grid(res, rsphere=2.)
    n = g.nlat
    f = c.array("f", (n, cols) if cols else (n,), -10, 10)
    pn, ps = c.real("north", -10, 10), c.real("south", -10, 10)
    for lat, ff in ((g.lat[1:-1], f[1:-1]), (g.lat, f)):
        got = g.interpolate_meridional(ff, lat, (pn, ps))
        c.close("identity", got[1:-1], f[1:-1], 1e-6)
        c.close("poles", got[0], [pn] * cols if cols else pn, 1e-9)
        c.close("poles", got[-1], [ps] * cols if cols else ps, 1e-9)
    c.observe("got", got)


def refusals(c):
    g = c.bt.Grid(60., rsphere=2.)
    lat = c.np.array([10., 20.])
    a = c.real("a", -1, 1)
    c.refuses("pole values", lambda: g.interp1d_meridional(c.np.array([a, 1.]), lat, (1., 2., a)))
    c.refuses("dimensions", lambda: g.interp1d_meridional(c.np.ones((2, 2, 2)) * a, lat, (1., 2.)))
