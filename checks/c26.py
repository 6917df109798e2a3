"""C26 Plot data preparation keeps data and labels together."""
import datetime
from .lib import lons

BOUNDS = ("all centre longitudes in [-1000, 1000] for evenly spaced longitudes of 4..12 (thorough: 3..24) gridpoints and fields with arbitrary values in one latitude; all fields and extents in [-100, 100] with 2..12 levels; "
          "all 2D coordinates and vectors of up to 13x24 points with every density; all states' times and profiles (up to 4 states); all times in [-1e12, 1e12] s as printed")
OUTSIDE = "rendering; ties between two equally near meridians; densities that are not integers; all-zero fields without a given extent (two levels -1, 1)"
OPTS = {"max_paths": 6000}


def tasks(tier):
    q = tier == "quick"
    out = []
    for m in ((4, 6, 8, 12) if q else (3, 4, 5, 6, 7, 8, 9, 12, 16, 18, 24)):
        out += [("centre", dict(m=m)), ("nearest", dict(m=m))]
    for m in ((12, 24) if q else (12, 24, 36)):
        out.append(("labels", dict(m=m)))
    out += [("default_centre", {}), ("offset", {})]
    out += [("levels", dict(n=n)) for n in ((2, 5, 10) if q else (2, 3, 4, 5, 7, 10, 11, 17, 30))]
    out += [("levels_given", dict(n=n)) for n in ((2, 7) if q else (2, 3, 6, 7, 12, 17))]
    for ny, nx in (((4, 6), (7, 12)) if q else ((3, 5), (4, 6), (5, 8), (7, 12), (13, 24))):
        out.append(("vectors", dict(ny=ny, nx=nx)))
    out += [("hov", dict(kind=k, n=n)) for k in ("lon", "lat") for n in ((1, 3) if q else (1, 2, 3, 5))]
    out += [("hov_times", {}), ("hov_refusals", {}), ("time_text", {}), ("time_int", {}), ("time_objects", {}), ("time_state", {})]
    return out


class Axes:
    """records ticks and labels"""
    def __init__(self):
        self.ticks, self.labels = None, None

    def set_xticks(self, ticks, labels=None, **kw):
        self.ticks = list(ticks)
        if labels is not None:
            self.labels = list(labels)

    def get_xticks(self):
        return self.ticks

    def set_xticklabels(self, labels, **kw):
        self.labels = list(labels)

    def set_xlim(self, *a, **k): pass
    def set_xlabel(self, *a, **k): pass


def number(c, text):
    return c.number(text.rstrip("°").strip())


def dist(c, a, b):
    """distance on the circle of values that differ by less than 3600 degrees"""
    d = abs(a - b)
    return c.min([abs(d - 360. * k) for k in range(12)])


def grid_lon(c, m):
    return c.np.linspace(0., 360., m, endpoint=False)


def centre(c, m):
    """fields and their labels are moved together"""
    lon = grid_lon(c, m)
    ctr = c.real("ctr", -1000, 1000)
    roll, conf = c.bt.plot.roll_lon(lon, ctr)
    # the longitude displayed in each column
    shown = roll(c.np.array([lon] * 3))
    f = c.np.array([[c.real(f"f{i}", -5, 5) if j == 1 else 10. * j + i for i in range(m)] for j in range(3)])
    sf = c.snapshot(f)
    r = roll(f)
    c.check("shape", r.shape == (3, m))
    k = [i for i in range(m) if c.decide(shown[0, 0] == lon[i])]
    c.check("columns", len(k) == 1)
    k = k[0]
    for j in range(3):
        c.close("columns", shown[j], [lon[(i + k) % m] for i in range(m)], 1e-9)
        c.close("values", r[j], [f[j, (i + k) % m] for i in range(m)], 1e-12)
    # nearest to the requested meridian in the middle
    c.le("middle", dist(c, shown[0, m // 2], ctr), 180. / m, 1e-6)
    # labels of the axis, whose coordinates are the unmodified longitudes
    ax = Axes()
    conf(ax)
    c.check("labels", len(ax.ticks) == len(ax.labels) and len(ax.ticks) > 1)
    for x, t in zip(ax.ticks, ax.labels):
        c.le("label", dist(c, number(c, t), x + shown[0, 0]), 0.5, 1e-6)
    c.unchanged("field", f, sf)
    c.observe("r", r)


def nearest(c, m):
    """meridians of the grid, also outside of 0..360, end up in the middle"""
    lon = grid_lon(c, m)
    i, turn = c.pick("i", list(range(m))), c.pick("turn", [-2, -1, 0, 1, 2])
    e = c.real("e", -0.49, 0.49)
    roll, conf = c.bt.plot.roll_lon(lon, (i + e) * 360. / m + 360. * turn)
    r = roll(c.np.array([lon]))
    c.close("middle", r[0, m // 2], lon[i], 1e-9)
    f = roll(c.np.array([[[1., 2.] + [0.] * (m - 2)]] * 2))
    c.check("dimensions", f.shape == (2, 1, m))


def labels(c, m):
    """labels of the meridians of grids that contain the ticks"""
    lon = grid_lon(c, m)
    ctr = c.real("ctr", -360, 720)
    roll, conf = c.bt.plot.roll_lon(lon, ctr)
    shown = roll(c.np.array([lon]))
    ax = Axes()
    conf(ax)
    n = 0
    for x, t in zip(ax.ticks, ax.labels):
        for i in range(m):
            if abs(float(x) - 360. * i / m) < 1e-9:
                n += 1
                c.le("label", dist(c, number(c, t), shown[0, i]), 0.5, 1e-6)
                c.le("range", 0., number(c, t))
                c.le("range", number(c, t), 360.)
    c.check("ticks", n > 1)


def default_centre(c):
    """unmodified for the default"""
    lon = grid_lon(c, 8)
    roll, conf = c.bt.plot.roll_lon(lon)
    f = c.array("f", (2, 8), -5, 5)
    c.close("unmodified", roll(f), f, 0.)
    ax, ax2 = Axes(), Axes()
    conf(ax)
    c.bt.plot.configure_lon_x(ax2)
    for a in (ax, ax2):
        c.close("labels", [number(c, t) for t in a.labels], a.ticks, 1e-9)


def offset(c):
    o = c.real("o", -500, 500)
    ax = Axes()
    c.bt.plot.configure_lon_x(ax, o)
    for x, t in zip(ax.ticks, ax.labels):
        c.le("label", dist(c, number(c, t), x - o), 0.5, 1e-6)
        c.check("degrees", t.endswith("°"))


def even(c, lv, n, ext, tol=1e-9):
    c.check("number", lv.shape == (n,))
    c.close("levels", lv, [ext * (2. * i / (n - 1) - 1.) for i in range(n)], tol)


def levels(c, n):
    """from the largest absolute value of the field"""
    f = c.array("f", (2, 3), -100, 100)
    ext = c.max([abs(f[j, i]) for j in range(2) for i in range(3)])
    c.assume(ext > 1e-6)
    sf = c.snapshot(f)
    lv = c.bt.plot.symmetric_levels(f, n)
    even(c, lv, n, ext)
    c.unchanged("field", f, sf)
    c.observe("levels", lv)
    if n == 10:
        even(c, c.bt.plot.symmetric_levels(f), 10, ext)


def levels_given(c, n):
    f = c.array("f", (2, 2), -100, 100)
    ext = c.real("ext", 1e-6, 100)
    even(c, c.bt.plot.symmetric_levels(f, n, ext), n, ext)
    even(c, c.bt.plot.symmetric_levels(f, ext=ext), 10, ext)
    even(c, c.bt.plot.symmetric_levels(f * 0., n=n, ext=ext), n, ext)
    z = c.bt.plot.symmetric_levels(f * 0., n)
    c.check("zero", z.shape[0] >= 2)
    c.close("zero", [z[0] + z[-1]], [0.], 1e-12)
    c.check("increasing", all(c.decide(z[i] < z[i + 1]) for i in range(z.shape[0] - 1)))


def vectors(c, ny, nx):
    """points keep their vectors and are evenly spaced"""
    k = c.pick("k", list(range(1, ny + 3)) + [100])
    x = c.np.array([[100. * i + 0. * j for i in range(nx)] for j in range(ny)])
    y = c.np.array([[1000. * j + 0. * i for i in range(nx)] for j in range(ny)])
    u = c.np.array([[c.real(f"u{j}", -5, 5) + i for i in range(nx)] for j in range(ny)])
    v = c.np.array([[c.real(f"v{i}", -5, 5) - j for i in range(nx)] for j in range(ny)])
    X, Y, U, V = c.bt.plot.reduce_vectors(x, y, u, v, k)
    c.check("shapes", X.shape == Y.shape == U.shape == V.shape)
    n, m = X.shape
    c.check("points", n > 0 and m > 0)
    jj = [int(round(float(Y[a, 0]) / 1000.)) for a in range(n)]
    ii = [int(round(float(X[0, b]) / 100.)) for b in range(m)]
    for a in range(n):
        for b in range(m):
            c.close("coordinates", [X[a, b], Y[a, b]], [100. * ii[b], 1000. * jj[a]], 0.)
            c.close("vectors", [U[a, b], V[a, b]], [u[jj[a], ii[b]], v[jj[a], ii[b]]], 1e-12)
    # the same stride in both directions, everything covered
    s = max(ny // k, 1)
    for idx, size in ((jj, ny), (ii, nx)):
        c.check("stride", all(q - p == s for p, q in zip(idx, idx[1:])))
        c.check("covered", 0 <= idx[0] < s and size - s <= idx[-1] < size)
    # approximately as many as requested
    c.check("density", n >= min(k, ny) and (k > ny or n <= 2 * k))


def make(c, n, res=60.):
    g = c.bt.Grid(res, rsphere=2.)
    out = []
    for k in range(n):
        f = [[((3 * i + 5 * j + 2 * k) % 7) - 2.5 + j for i in range(g.nlon)] for j in range(g.nlat)]
        f[1][k % 6] = c.real(f"p{k}", -10, 10)
        out.append(c.bt.State(g, c.real(f"t{k}", -100, 100), pv=c.np.array(f)))
    return g, out


def hov(c, kind, n):
    g, st = make(c, n)
    a = c.real("a", -3, 3)
    H = c.bt.plot.hovmoellerify
    f = (lambda s: s.pv[1, :] * a + s.time) if kind == "lon" else (lambda s: s.pv[:, 1] * a + s.time)
    for s in (st, tuple(st), c.bt.StateList(st)):
        x, y, F = H(s, f)
        times = [z.time for z in st]
        prof = [f(z) for z in st]
        if kind == "lon":
            c.close("longitude", x, g.lon, 1e-12)
            c.close("time", y, times, 1e-12)
            c.check("shape", F.shape == (n, g.nlon))
            for k in range(n):
                c.close("profile", F[k], prof[k], 1e-9)
        else:
            c.close("time", x, times, 1e-12)
            c.close("latitude", y, g.lat, 1e-12)
            c.check("shape", F.shape == (g.nlat, n))
            for k in range(n):
                c.close("profile", F[:, k], prof[k], 1e-9)
    c.observe("F", F)


def hov_times(c):
    """datetimes and states out of order"""
    g, st = make(c, 3)
    p = c.pick("order", [(0, 1, 2), (2, 0, 1), (1, 1, 0)])
    s = [st[i] for i in p]
    x, y, F = c.bt.plot.hovmoellerify(s, lambda z: z.pv[:, 2])
    c.close("time", x, [z.time for z in s], 1e-12)
    c.close("field", F, [[z.pv[j, 2] for z in s] for j in range(4)], 1e-9)
    d = [datetime.datetime(2020, 1, 1 + k) for k in range(3)]
    for z, t in zip(st, d):
        z.time = t
    x, y, F = c.bt.plot.hovmoellerify(st, lambda z: z.pv[2])
    c.check("time", list(y) == d)
    c.close("field", F, [z.pv[2] for z in st], 1e-9)


def hov_refusals(c):
    g, st = make(c, 2)
    H = c.bt.plot.hovmoellerify
    c.refuses("none", lambda: H([], lambda z: z.pv[1]))
    for n in (1, 3, 5, 7):
        c.refuses("size", lambda: H(st, lambda z: c.np.ones(n) * z.pv[0, 0]))


UNIT = {"s": 1., "min": 60., "h": 3600., "d": 86400.}


def printed(c, text, t, tol=1e-6):
    """the printed number in its unit is the time, to within rounding of the last digit"""
    c.check("form", text.startswith("t = "))
    num, unit = text[4:].rsplit(" ", 1)
    c.check("unit", unit in UNIT)
    c.le("time", abs(c.number(num) * UNIT[unit] - t), 0.05 * UNIT[unit], tol)
    # relative accuracy of large times
    c.check("accuracy", c.or_(abs(t) < 120., 0.05 * UNIT[unit] <= 0.03 * abs(t)))


def time_text(c):
    t = c.real("t", -1e12, 1e12)
    f = c.bt.formatting.format_time
    s = f(t)
    printed(c, s, t, 1e-3)


def time_int(c):
    t = c.int("t", -10 ** 9, 10 ** 9)
    printed(c, c.bt.formatting.format_time(t), t, 1e-3)


def time_objects(c):
    f = c.bt.formatting.format_time
    for d in (datetime.datetime(2020, 2, 29, 12, 30), datetime.datetime(1960, 1, 1), datetime.datetime(2020, 1, 1, 1, 1, 1, 5)):
        c.check("date", f(d) == d.isoformat())
    for t in (0, 1., -5.5, 119.96, 120., 120.04, 7199.9, 7200., 864000., 863999., 1e9, c.np.float64(5000.), c.np.int64(86400)):
        printed(c, f(t), float(t))


def time_state(c):
    g = c.bt.Grid(60., rsphere=2.)
    t = c.real("t", -1e9, 1e9)
    st = c.bt.State(g, t, pv=c.np.ones(g.shape))
    text = repr(st)
    c.check("form", "t = " in text and text.endswith(">"))
    printed(c, text[text.index("t = "):-1], t, 1e-3)
