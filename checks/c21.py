"""C21 Orographic forcing is -f/H u.grad(h) for every configuration."""
import math
from .lib import PI, D2R, lats, lons, nl, smooth

BOUNDS = ("forcing: grids of 45-60 degrees (thorough: 36), radius 1-2, all states with total wavenumbers up to 2 (coefficients in [-1, 1]) on given orographies, all orographies with arbitrary heights at 3 nodes with given states, "
          "all scale heights in [0.5, 10], wind factors and reference Coriolis parameters in [-5, 5], three winds, sequences of three grids; interpolation: heights arbitrary everywhere on given (irregular, coarser and finer) "
          "node grids, one arbitrary node latitude and longitude; mountains: all heights, centres and widths (given widths 5-60 degrees or arbitrary)")
OUTSIDE = "finer grids; orographies that are not ordered north to south or do not cover the globe"
OPTS = {"max_paths": 3000}


def tasks(tier):
    q = tier == "quick"
    out = []
    for res in ([60.] if q else [60., 45.]):
        for wind in ("act", "zon", "sbr"):
            for ref in (False, True):
                out.append(("forcing", dict(res=res, wind=wind, ref=ref)))
                out.append(("heights", dict(res=res, wind=wind, ref=ref)))
            out.append(("special", dict(res=res, wind=wind)))
    for i in range(len(NODES)):
        for res in ([60., 36.] if q else [60., 45., 36., 22.5, 15.]):
            out.append(("interpolated", dict(i=i, res=res)))
    out.append(("exact", dict(res=60.)))
    out.append(("any_node", dict(res=60., axis="lat")))
    out.append(("any_node", dict(res=60., axis="lon")))
    for res in ([60., 45.] if q else [60., 45., 22.5]):
        for w in ((7.5, 20.), (30., 10.), 40., None):
            out.append(("gaussian", dict(res=res, stdev=w)))
    out.append(("gaussian_any", dict(res=60.)))
    for res in ([60., 30.] if q else [60., 45., 30., 22.5]):
        for k in (0, 1, 2, 4, None):
            out.append(("sine", dict(res=res, k=k)))
    out += [("grids", dict(wind=w)) for w in ("act", "zon", "sbr")]
    out += [("defaults", {}), ("refusals", {}), ("subclass", {}), ("combined", {})]
    return out


def orography(c, g, arbitrary):
    n, m = g.shape
    h = [[((3 * i + 5 * j) % 7) * 0.4 for i in range(m)] for j in range(n)]
    if arbitrary:
        for k in range(3):
            h[k % n][(2 * k + 1) % m] = c.real(f"h{k}", 0, 3)
    # the 0 meridian is repeated at 360 degrees
    return h, c.np.array([r + r[:1] for r in h])


def term(c, g, H, **kw):
    lon = c.np.array(list(lons(360. / g.nlon)) + [360.])
    return c.bt.rhs.Orography(lon, g.lat, H, **kw)


def reference(c, g, st, h, H, wind, factor, ref):
    n, m = g.shape
    gx, gy = g.gradient(c.np.array(h))
    out = []
    la = lats(180. / (n - 1))
    for j in range(n):
        f = ref if ref is not None else 2. * 3. * math.sin(la[j] * D2R)
        um = sum(st.u[j]) / m
        row = []
        for i in range(m):
            if wind == "act":
                d = factor * (st.u[j, i] * gx[j, i] + st.v[j, i] * gy[j, i])
            elif wind == "zon":
                d = factor * um * gx[j, i]
            else:
                d = factor * math.cos(la[j] * D2R) * gx[j, i]
            row.append(-f / H * d)
        out.append(row)
    return out


def arbitrary_state(c, g):
    return c.bt.State(g, 0., pv_spectral=smooth(c, g, "q", 2))


def given_state(c, g, b=1.):
    n, m = g.shape
    return c.bt.State(g, 0., pv=c.np.array([[b * (n - 1. - j) ** 1.5 + .6 * b * ((3 * i + 5 * j) % 7) for i in range(m)] for j in range(n)]))


def forcing(c, res, wind, ref):
    """arbitrary states and parameters, given orography"""
    g = c.bt.Grid(res, rsphere=2., omega=3.)
    H, a = c.real("H", .5, 10), c.real("a", -5, 5)
    f0 = c.real("f0", -5, 5) if ref else None
    st = arbitrary_state(c, g)
    h, hh = orography(c, g, False)
    t = term(c, g, hh, scale_height=H, wind=(wind, a), fcor_ref=f0)
    c.check("type", isinstance(t, c.bt.rhs.RHS))
    snaps = [c.snapshot(x) for x in (st.u, st.v, st.pv, hh)]
    got = t(st)
    c.close("formula", got, reference(c, g, st, h, H, wind, a, f0), 1e-4)
    for x, s in zip((st.u, st.v, st.pv, hh), snaps):
        c.unchanged("inputs", x, s)
    c.observe("got", got)


def heights(c, res, wind, ref):
    """arbitrary orography, given state"""
    g = c.bt.Grid(res, rsphere=2., omega=3.)
    f0 = 1.7 if ref else None
    st = given_state(c, g)
    h, hh = orography(c, g, True)
    s = c.snapshot(hh)
    t = term(c, g, hh, scale_height=2.5, wind=(wind, 1.3), fcor_ref=f0)
    c.close("formula", t(st), reference(c, g, st, h, 2.5, wind, 1.3, f0), 1e-4)
    c.unchanged("orography", hh, s)
    # (again, from whatever was kept)
    c.close("formula", t(st), reference(c, g, st, h, 2.5, wind, 1.3, f0), 1e-4)
    # linear in the height, inverse in the scale height
    k, H = c.real("k", -2, 2), c.real("H", .5, 10)
    x = term(c, g, hh * 2., scale_height=2.5, wind=(wind, 1.3), fcor_ref=f0)(st)
    c.close("linear", x, t(st) * 2., 1e-4)
    y = term(c, g, hh, scale_height=H, wind=(wind, 1.3), fcor_ref=f0)(st)
    c.close("scale height", y * H, t(st) * 2.5, 1e-4)
    c.observe("y", y)


def special(c, res, wind):
    """constant orography, no wind"""
    g = c.bt.Grid(res, rsphere=2., omega=3.)
    k, a = c.real("k", -3, 3), c.real("a", -5, 5)
    flat = c.np.zeros((g.nlat, g.nlon + 1)) + k
    c.close("constant", term(c, g, flat, scale_height=2., wind=(wind, a))(arbitrary_state(c, g)), c.np.zeros(g.shape), 1e-4)
    if wind != "sbr":
        h, hh = orography(c, g, True)
        calm = c.bt.State(g, 0., pv=g.fcor2)
        c.close("no wind", term(c, g, hh, scale_height=2., wind=(wind, a))(calm), c.np.zeros(g.shape), 1e-3)
    h, hh = orography(c, g, True)
    c.close("factor", term(c, g, hh, scale_height=2., wind=(wind, 0.))(given_state(c, g)), c.np.zeros(g.shape), 1e-6)


NODES = [([90., 30., 10., -60., -90.], [0., 100., 130., 250., 360.]),
         ([90., -90.], [0., 180., 360.]),
         ([90., 0., -90.], [-10., 0., 45., 90., 300., 340., 370.]),
         ([90., 75., 60., 45., 30., 15., 0., -15., -30., -45., -60., -75., -90.], [0., 90., 180., 270., 360.])]


def bilinear(la, lo, h, x, y):
    """lon x, lat y; la decreasing"""
    j = max(k for k in range(len(la) - 1) if la[k] >= y)
    i = max(k for k in range(len(lo) - 1) if lo[k] <= x)
    s, t = (la[j] - y) / (la[j] - la[j + 1]), (x - lo[i]) / (lo[i + 1] - lo[i])
    return (1 - s) * ((1 - t) * h[j, i] + t * h[j, i + 1]) + s * ((1 - t) * h[j + 1, i] + t * h[j + 1, i + 1])


def interpolated(c, i, res):
    g = c.bt.Grid(res, rsphere=2.)
    la, lo = NODES[i]
    h = c.array("h", (len(la), len(lo)), -5, 5)
    s = c.snapshot(h)
    t = c.bt.rhs.Orography(c.np.array(lo), c.np.array(la), h)
    got = t.orography(g)
    c.check("shape", got.shape == g.shape)
    c.close("bilinear", got, [[bilinear(la, lo, h, x, y) for x in lons(res)] for y in lats(res)], 1e-6)
    c.unchanged("heights", h, s)
    c.observe("got", got)


def exact(c, res):
    g = c.bt.Grid(res, rsphere=2.)
    h = c.array("h", (g.nlat, g.nlon), -5, 5)
    hh = c.np.hstack([h, h[:, :1]])
    lon = c.np.array(lons(res) + [360.])
    c.close("nodes", c.bt.rhs.Orography(lon, g.lat, hh).orography(g), h, 1e-7)


def any_node(c, res, axis):
    g = c.bt.Grid(res, rsphere=2.)
    la, lo = [90., 40., -90.], [0., 110., 360.]
    if axis == "lat":
        la[1] = c.real("node", -85, 85)
    else:
        lo[1] = c.real("node", 5, 355)
    v = la[1] if axis == "lat" else lo[1]
    for x in (lats(res) if axis == "lat" else lons(res)):
        c.assume(c.or_(v > x + 1e-3, v < x - 1e-3))
    h = c.array("h", (3, 3), -5, 5)
    got = c.bt.rhs.Orography(c.np.array(lo), c.np.array(la), h).orography(g)
    for j, y in enumerate(lats(res)):
        for i, x in enumerate(lons(res)):
            a, b = (0 if c.decide(la[1] < y) else 1), (0 if c.decide(lo[1] > x) else 1)
            s, t = (la[a] - y) / (la[a] - la[a + 1]), (x - lo[b]) / (lo[b + 1] - lo[b])
            c.close("bilinear", got[j, i], (1 - s) * ((1 - t) * h[a, b] + t * h[a, b + 1]) + s * ((1 - t) * h[a + 1, b] + t * h[a + 1, b + 1]), 1e-5)
    c.observe("got", got)


def gaussian(c, res, stdev):
    """given centre and widths, arbitrary height"""
    g = c.bt.Grid(res, rsphere=2.)
    stdev = tuple(stdev) if isinstance(stdev, (list, tuple)) else stdev
    H = c.real("height", -3, 3)
    cen = c.pick("centre", [(30., 45.), (200., -10.), (0., 90.), (120., 0.)])
    if stdev is None:
        t, cen, (sx, sy) = c.bt.rhs.GaussianMountain(H), (30., 45.), (7.5, 20.)
    else:
        t = c.bt.rhs.GaussianMountain(H, center=cen, stdev=stdev)
        sx, sy = stdev if isinstance(stdev, tuple) else (stdev, stdev)
    got = t.orography(g)
    c.check("shape", got.shape == g.shape)
    c.close("shape", got, [[H * math.exp(-.5 * ((x - cen[0]) / sx) ** 2 - .5 * ((y - cen[1]) / sy) ** 2) for x in lons(res)] for y in lats(res)], 1e-6)
    c.observe("got", got)


def gaussian_any(c, res):
    """arbitrary centre and widths"""
    g = c.bt.Grid(res, rsphere=2.)
    H = c.real("height", .5, 3)
    cx, cy, sx, sy = c.real("cx", 0, 360), c.real("cy", -90, 90), c.real("sx", 5, 60), c.real("sy", 5, 60)
    got = c.bt.rhs.GaussianMountain(H, (cx, cy), (sx, sy)).orography(g)
    e = c.np.exp
    c.close("shape", got, [[H * e(-.5 * (x - cx) ** 2 / sx ** 2 - .5 * (y - cy) ** 2 / sy ** 2) for x in lons(res)] for y in lats(res)], 1e-6)
    # at the grid's points: the peak is at the centre
    x, y = lons(res)[2], lats(res)[1]
    peak = c.bt.rhs.GaussianMountain(H, (x, y), (sx, sy)).orography(g)
    c.close("peak", peak[1, 2], H, 1e-7)


def sine(c, res, k):
    g = c.bt.Grid(res, rsphere=2.)
    H = c.real("height", -3, 3)
    cy, sy = c.pick("centre", [(45., 10.), (-20., 40.)])
    if k is None:
        t, k, cy, sy = c.bt.rhs.ZonalSineMountains(H), 4, 45., 10.
    else:
        t = c.bt.rhs.ZonalSineMountains(H, cy, sy, k)
    got = t.orography(g)
    c.close("shape", got, [[H * .5 * (1. + math.cos(k * x * D2R)) * math.exp(-.5 * ((y - cy) / sy) ** 2) for x in lons(res)] for y in lats(res)], 1e-6)
    c.observe("got", got)


def grids(c, wind):
    """one term with several grids, in turn"""
    gs = [c.bt.Grid(60., rsphere=2., omega=3.), c.bt.Grid(45., rsphere=2., omega=3.), c.bt.Grid(60., rsphere=1., omega=3.), c.bt.Grid(60., rsphere=2., omega=3.)]
    h = c.array("h", (2,), -3, 3)
    t = c.bt.rhs.ZonalSineMountains(h[0], 20., 40., 1, scale_height=2., wind=(wind, 1.5), fcor_ref=.7)
    o = c.bt.rhs.Orography(c.np.array([0., 90., 180., 270., 360.]), c.np.array([90., 0., -90.]), c.np.array([[0., 0., 0., 0., 0.], [h[1], 1., 2., 0., h[1]], [0., 0., 0., 0., 0.]]), scale_height=3., wind=(wind, -1.), fcor_ref=.7)
    for g in gs:
        st = given_state(c, g)
        ho = [[h[0] * .5 * (1. + math.cos(x * D2R)) * math.exp(-.5 * ((y - 20.) / 40.) ** 2) for x in lons(360. / g.nlon)] for y in lats(360. / g.nlon)]
        c.close("mountains", t(st), reference(c, g, st, ho, 2., wind, 1.5, .7), 1e-4)
        c.close("gridded", o(st), reference(c, g, st, o.orography(g), 3., wind, -1., .7), 1e-4)


def defaults(c):
    """scale height of 10 km, actual wind, actual Coriolis parameter"""
    g = c.bt.Grid(60., rsphere=2., omega=3.)
    h, hh = orography(c, g, True)
    hh, h = hh * 1e4, [[x * 1e4 for x in r] for r in h]
    st = given_state(c, g)
    t = term(c, g, hh)
    c.close("defaults", t(st), reference(c, g, st, h, 1e4, "act", 1., None), 1e-3)
    k = c.bt.rhs.GaussianMountain(stdev=50., scale_height=2.)
    G = [[1500. * math.exp(-.5 * ((x - 30.) / 50.) ** 2 - .5 * ((y - 45.) / 50.) ** 2) for x in lons(60.)] for y in lats(60.)]
    sm = given_state(c, g, c.real("b", .5, 1.))
    c.close("height", k(sm), reference(c, g, sm, G, 2., "act", 1., None), 1e-1)


def refusals(c):
    x = c.real("x", -1, 1)
    R = c.bt.rhs
    for w in ("actual", "", None, "ACT", "uv"):
        c.refuses("wind", lambda: R.GaussianMountain(wind=(w, x)))
        c.refuses("wind", lambda: R.Orography(None, None, None, wind=(w, x)))
        c.refuses("wind", lambda: R.ZonalSineMountains(wind=(w, x)))


def subclass(c):
    """other terms only implement the orography method"""
    g = c.bt.Grid(60., rsphere=2., omega=3.)
    h, _ = orography(c, g, True)

    class Mine(c.bt.rhs.Orography):
        def __init__(self, **kw):
            super().__init__(None, None, None, **kw)

        def orography(self, grid):
            return c.np.array(h)
    st = given_state(c, g)
    c.close("formula", Mine(scale_height=2., wind=("act", .5))(st), reference(c, g, st, h, 2., "act", .5, None), 1e-4)


def combined(c):
    """several orographies side by side do not mix"""
    g = c.bt.Grid(60., rsphere=2., omega=3.)
    a, b = c.real("a", -3, 3), c.real("b", -3, 3)
    S = c.bt.rhs.ZonalSineMountains
    x, y = S(a, 20., 40., 1, scale_height=2.), S(b, -20., 30., 2, scale_height=3., wind=("zon", 2.))
    st = given_state(c, g)
    ho = lambda h, cy, sy, k: [[h * .5 * (1. + math.cos(k * l * D2R)) * math.exp(-.5 * ((p - cy) / sy) ** 2) for l in lons(60.)] for p in lats(60.)]
    rx, ry = reference(c, g, st, ho(a, 20., 40., 1), 2., "act", 1., None), reference(c, g, st, ho(b, -20., 30., 2), 3., "zon", 2., None)
    c.close("sum", (x + y)(st), [[p + q for p, q in zip(r, s)] for r, s in zip(rx, ry)], 1e-4)
    c.close("first", x(st), rx, 1e-4)
    c.close("second", y(st), ry, 1e-4)
