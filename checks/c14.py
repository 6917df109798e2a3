"""C14 Wave activity is nonnegative and vanishes without waves."""
from .lib import PI, D2R, bandw, nl
from .c11 import primitive, coords

BOUNDS = ("grids of 45-90 degrees (thorough: 36), radius 2; definition: all fields in [-10, 10] on one longitude with one arbitrary contour (trapezoidal) or two (boxcount), and given fields on "
          "several longitudes with all contours; equivalent latitudes away from the poles (sphere fraction 1e-3..0.999); families a*pattern+b on the globe for the default contours, all a, b")
OUTSIDE = "finer grids; contours with an equivalent latitude of exactly +-90 degrees if not interpolated (division by zero)"
OPTS = {"max_paths": 6000}


def tasks(tier):
    q = tier == "quick"
    out = []
    for res in ([90.] if q else [90., 60., 45.]):
        out.append(("definition_trapz", dict(res=res)))
    for res, rows in ([(60., (0, 2)), (60., (1, 3))] if q else [(60., (0, 2)), (60., (1, 3)), (60., (0, 1, 2)), (60., (1, 2, 3)), (45., (0, 1, 3)), (45., (2, 4))]):
        out.append(("definition_boxcount", dict(res=res, rows=rows)))
    for fam in ((0, 2) if q else (0, 1, 2, 3)):
        out.append(("contours", dict(res=60. if q else 45., fam=fam)))
        for quad in ("sptrapz", "boxcount"):
            out.append(("variants", dict(res=60. if q else 45., fam=fam, quad=quad)))
            out.append(("states", dict(res=60. if q else 45., fam=fam, quad=quad)))
    for quad in ("sptrapz", "boxcount"):
        out.append(("rotation", dict(quad=quad, shifts=(2,) if q else (1, 2, 3))))
    for res in ([60.] if q else [60., 45., 36.]):
        for quad in ("sptrapz", "boxcount"):
            out.append(("no_waves", dict(res=res, quad=quad)))
    out.append(("no_waves_default", dict(res=60.)))
    out.append(("no_waves_default", dict(res=45.)))
    return out


PATTERNS = [(lambda i, j, n, m: 1. * (n - 1 - j), lambda i, j, n, m: float((i * 3 + j) % m == 1)),
            (lambda i, j, n, m: 1. * j, lambda i, j, n, m: float(i == j or i == 0)),
            (lambda i, j, n, m: 1. * ((i * j) % 3), lambda i, j, n, m: 0.3 * (n - 1 - j)),
            (lambda i, j, n, m: 1. * (n - 1 - j), lambda i, j, n, m: 2.5 * ((i + j) % 2))]


def pattern(c, fam, n, m, b=0.5):
    p, r = PATTERNS[fam]
    return [[p(i, j, n, m) + b * r(i, j, n, m) for i in range(m)] for j in range(n)]


def absolute(c, phi, d, y):
    """Integral of |d| cos over the part of the meridian where (d >= 0) differs from (latitude >= y), d piecewise linear.

    This is the wave activity (times the cosine): a sum of integrals of functions that are nowhere negative."""
    tot = 0.
    for j in range(len(phi) - 1):
        xn, xs = phi[j], phi[j + 1]
        a = (d[j + 1] - d[j]) / (xs - xn)
        b = d[j] - a * xn
        F = lambda x: primitive(c, a, b, x)
        pn, ps = c.decide(d[j] >= 0), c.decide(d[j + 1] >= 0)
        yn, ys = c.decide(xn >= y), c.decide(xs >= y)
        x0 = None if pn == ps else xn + (xs - xn) * (d[j] / (d[j] - d[j + 1]))
        # integral of d over the part with d >= 0 (from north to south)
        pos = 0. if not pn and not ps else F(xn) - F(xs) if x0 is None else F(xn) - F(x0) if pn else F(x0) - F(xs)
        # ... over the part north of y
        nor = 0. if not yn and not ys else F(xn) - F(xs) if yn and ys else F(xn) - F(y)
        tot = tot + pos - nor
    return tot


def columns(c, g, k):
    """arbitrary fields on the first k longitudes, given ones elsewhere"""
    f = c.np.array([[((j * 3 + i * 5) % 7) - 3. for i in range(g.nlon)] for j in range(g.nlat)])
    for j in range(g.nlat):
        for i in range(k):
            f[j, i] = c.real(f"f{j}_{i}", -10, 10)
    return f


def definition_trapz(c, res):
    """one arbitrary longitude"""
    g = c.bt.Grid(res, rsphere=2.)
    n, m = g.shape
    phi = coords(res)
    f = columns(c, g, 1)
    t = c.real("t", -10, 10)
    sf = c.snapshot(f)
    q, y = g.zonalize(f, levels=c.np.array([t]), interpolate=False)
    s = c.np.sin(c.np.deg2rad(y[0]))
    c.assume(c.and_(s > -.998, s < .998))
    lwa, yy = c.bt.diagnostics.falwa(f, g, levels=c.np.array([t]), interpolate=False)
    c.check("shape", lwa.shape == (1, m) and yy.shape == (1,))
    c.close("latitude", c.np.sin(c.np.deg2rad(yy[0])), s, 1e-9)
    for i in range(m):
        want = 2. * absolute(c, phi, [f[j, i] - t for j in range(n)], c.np.deg2rad(y[0]))
        c.close("definition", lwa[0, i] * c.np.cos(c.np.deg2rad(y[0])), want, 1e-6)
    c.unchanged("field", f, sf)
    c.observe("lwa", lwa)
    c.observe("y", yy)


def contours(c, res, fam):
    """given field on several longitudes, all contours"""
    g = c.bt.Grid(res, rsphere=2.)
    n, m = g.shape
    phi = coords(res)
    f = c.np.array(pattern(c, fam, n, m))
    t = c.real("t", 0, 4)
    q, y = g.zonalize(f, levels=c.np.array([t]), interpolate=False)
    s = c.np.sin(c.np.deg2rad(y[0]))
    c.assume(c.and_(s > -.998, s < .998))
    lwa, yy = c.bt.diagnostics.falwa(f, g, levels=c.np.array([t]), interpolate=False)
    c.check("shape", lwa.shape == (1, m))
    for i in range(m):
        c.close("definition", lwa[0, i] * c.np.cos(c.np.deg2rad(y[0])), 2. * absolute(c, phi, [f[j][i] - t for j in range(n)], c.np.deg2rad(y[0])), 1e-6)
    c.observe("lwa", lwa)


def interpolate(c, q, y, lo, hi, x):
    """piecewise linear in y with hi at 90 and lo at -90"""
    nodes = [(-90., lo)] + [(y[k], q[k]) for k in range(len(q))] + [(90., hi)]
    for (y0, q0), (y1, q1) in zip(nodes[:-1], nodes[1:]):
        if c.decide(x <= y1):
            return q0 + (q1 - q0) * ((x - y0) / (y1 - y0))


def definition_boxcount(c, res, rows):
    g = c.bt.Grid(res, rsphere=2.)
    n = g.nlat
    w = bandw(res)
    f = columns(c, g, 0)
    for j in rows:
        f[j, 1] = c.real(f"f{j}", -10, 10)
    ncol = g.nlon
    lev = c.np.array(c.pick("levels", [(-1.5, 0.5), (0.5, 1.5)]))
    q, y = g.zonalize(f, levels=lev, interpolate=False, quad="boxcount")
    # distinct latitudes, not at the poles
    c.assume(c.and_(y[0] > -89., y[1] < 89., y[1] > y[0] + 1.))
    lat = [0.5 * (g.lat[j] + g.lat[j + 1]) for j in range(n - 1)]
    lwa, yy = c.bt.diagnostics.falwa(f, g, levels=lev, interpolate=False, quad="boxcount")
    c.check("shape", lwa.shape == (n - 1, g.nlon))
    c.close("latitudes", yy, lat, 1e-9)
    lo, hi = c.min(f.reshape(-1)), c.max(f.reshape(-1))
    for k in range(n - 1):
        # not right at a node
        c.assume(c.and_(*[c.or_(yj < lat[k] - 1e-3, yj > lat[k] + 1e-3) for yj in y]))
        z = interpolate(c, q, y, lo, hi, lat[k])
        for i in range(ncol):
            want = 0.
            for j in range(n):
                d = f[j, i] - z
                want = want + 2. * w[j] * (c.ite(d >= 0, 0., -d) if j <= k else c.ite(d >= 0, d, 0.))
            # (the integral of |PV - contour| over where the domains differ)
            c.close("definition", lwa[k, i] * c.np.cos(c.np.deg2rad(lat[k])), want, 1e-5)
    c.observe("y", y)


def variants(c, res, fam, quad):
    """local and zonally averaged, interpolated or not, from states and arrays"""
    g = c.bt.Grid(res, rsphere=2.)
    n, m = g.shape
    a, b = c.real("a", 0.5, 2), c.real("b", -1, 1)
    p = pattern(c, fam, n, m, 1.)
    f = c.np.array([[a * p[j][i] + b for i in range(m)] for j in range(n)])
    D = c.bt.diagnostics
    kw = {} if quad == "sptrapz" else {"quad": quad}
    lwa, y = D.falwa(f, g, interpolate=False, **kw)
    k = n if quad == "sptrapz" else n - 1
    c.check("shape", lwa.shape == (k, m) and y.shape == (k,))
    c.le("not negative", 0., lwa, 1e-5)
    wa, y1 = D.fawa(f, g, interpolate=False, **kw)
    c.close("latitudes", y1, y, 1e-9)
    mean = c.np.array([sum(lwa[j, i] for i in range(m)) / m for j in range(k)])
    c.close("zonal mean", wa, mean, 1e-6)
    L = D.falwa(f, g, **kw)
    c.check("shape", L.shape == (n, m))
    W = D.fawa(f, g, **kw)
    c.close("zonal mean", W, c.np.array([sum(L[j, i] for i in range(m)) / m for j in range(n)]), 1e-5)
    c.close("poles", L[0], [0.] * m, 1e-5)
    c.close("poles", L[-1], [0.] * m, 1e-5)
    c.le("not negative", 0., L, 1e-5)
    c.observe("lwa", lwa)


def states(c, res, fam, quad):
    """states instead of arrays"""
    g = c.bt.Grid(res, rsphere=2.)
    n, m = g.shape
    a = c.real("a", 0.5, 2)
    p = pattern(c, fam, n, m, 1.)
    st = c.bt.State(g, 0., pv=c.np.array([[a * p[j][i] for i in range(m)] for j in range(n)]))
    f = st.pv
    sf = c.snapshot(f)
    D = c.bt.diagnostics
    kw = {} if quad == "sptrapz" else {"quad": quad}
    for fn in (D.falwa, D.fawa):
        c.close("state", fn(st, **kw), fn(f, g, **kw), 1e-6)
        for x, y in zip(fn(st, interpolate=False, **kw), fn(f, g, interpolate=False, **kw)):
            c.close("state", x, y, 1e-6)
    if quad == "sptrapz":
        c.close("local", st.falwa, D.falwa(f, g), 1e-6)
        c.close("averaged", st.fawa, D.fawa(f, g), 1e-6)
    c.unchanged("state", st.pv, sf)
    c.observe("lwa", st.falwa)


def rotation(c, quad, shifts):
    g = c.bt.Grid(60., rsphere=2.)
    m = 6
    t = c.real("t", 0.2, 3.4)
    base = pattern(c, 0, 4, 6, 0.5)
    f = c.np.array([[base[j][i] + 0.25 * i for i in range(m)] for j in range(4)])
    kw = dict(levels=c.np.array([t]), interpolate=False, quad=quad)
    q, y = g.zonalize(f, **kw)
    s = c.np.sin(c.np.deg2rad(y))
    c.assume(c.and_(s[0] > -.998, s[0] < .998))
    lwa, y = c.bt.diagnostics.falwa(f, g, **kw)
    for k in shifts:
        r = [(i + k) % m for i in range(m)]
        lwa2, y2 = c.bt.diagnostics.falwa(f[:, r], g, **kw)
        c.close("rotated", lwa2, lwa[:, r], 1e-6)
    c.observe("lwa", lwa)


def no_waves(c, res, quad):
    """zonally symmetric, decreasing southward"""
    g = c.bt.Grid(res, rsphere=2.)
    n = g.nlat
    d = [c.real(f"d{j}", 0.5, 3) for j in range(n)]
    if quad == "sptrapz":
        # one contour between any two neighbouring latitudes
        k = c.pick("segment", range(n - 1))
        t = c.real("t", -5, 5)
        lev = c.np.array([t])
        p = [t + sum(d[j:k + 1]) if j <= k else t - sum(d[k + 1:j + 1]) for j in range(n)]
    else:
        p = [sum(d[:j]) * -1. for j in range(n)]
        lev = c.np.array([0.5 * (p[j] + p[j + 1]) for j in range(n - 1)])
    f = c.np.array([[x] * g.nlon for x in p])
    if quad == "sptrapz":
        s = c.np.sin(c.np.deg2rad(g.zonalize(f, levels=lev, interpolate=False)[1][0]))
        c.assume(c.and_(s > -.998, s < .998))
    lwa, y = c.bt.diagnostics.falwa(f, g, levels=lev, interpolate=False, quad=quad)
    c.check("shape", lwa.shape == ((1 if quad == "sptrapz" else n - 1), g.nlon))
    c.close("nothing", lwa, c.np.zeros(lwa.shape), 1e-5)
    c.observe("lwa", lwa, 1e-4)


def no_waves_default(c, res):
    g = c.bt.Grid(res, rsphere=2.)
    n, m = g.shape
    a, b = c.real("a", 0.5, 2), c.real("b", -1, 1)
    v = c.pick("profile", [0, 1, 2])
    p = [[float(n - j), -float(j * j) / n, 2. - abs(j - .5) ** 1.5 if j else 4.][v] for j in range(n)]
    f = c.np.array([[a * x + b] * m for x in p])
    st = c.bt.State(g, 0., pv=f)
    L = c.bt.diagnostics.falwa(st)
    c.close("nothing", L, c.np.zeros((n, m)), 1e-5)
    c.close("nothing", c.bt.diagnostics.fawa(st), c.np.zeros(n), 1e-5)
    c.observe("L", L, 1e-4)
