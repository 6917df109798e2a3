"""C11 Surface integrals are additive, exact and domain-correct."""
from .lib import PI, D2R, bandw, nl

BOUNDS = ("grids of 36-60 degrees (thorough: 22.5-90), sectors of 1..3 longitudes and the whole globe, radius in [0.5, 3] or Earth, all integrands in [-10, 10]; "
          "all domain fields in [-5, 5] on one longitude (with any signs and zeros), on further longitudes a fixed one")
OUTSIDE = "finer grids; for the trapezoidal scheme more than one symbolic domain column at once (columns are shown independent)"


def tasks(tier):
    q = tier == "quick"
    out = []
    for res, n in ([(45., 1), (60., 3)] if q else [(22.5, 1), (30., 1), (36., 2), (45., 3), (60., 6), (90., 4)]):
        out.append(("boxcount", dict(res=res, ncol=n)))
        out.append(("boxcount_additive", dict(res=res, ncol=n)))
    for res in ([60., 45.] if q else [90., 60., 45., 36., 30.]):
        for side in (0, 1):
            out.append(("trapz", dict(res=res, side=side)))
    for res in ([60.] if q else [60., 45., 36.]):
        out.append(("trapz_additive", dict(res=res)))
    for res, n in ([(45., 2), (36., 1), (20., 3)] if q else [(45., 2), (36., 1), (30., 12), (20., 3), (15., 2), (10., 2)]):
        out.append(("whole", dict(res=res, ncol=n)))
        for m in ("sptrapz", "boxcount"):
            out.append(("nonneg", dict(res=res, ncol=n, method=m)))
    for m in ("sptrapz", "boxcount"):
        out.append(("linear", dict(method=m)))
        out.append(("columns", dict(method=m)))
        out.append(("refuse", dict(method=m)))
    out.append(("earth", {}))
    return out


def primitive(c, a, b, x):
    """antiderivative of (a x + b) cos x"""
    return (a * x + b) * c.np.sin(x) + a * c.np.cos(x)


def line(c, phi, y, z):
    """integral of the interpolant of y times cos(phi) over the part with interpolated z >= 0"""
    tot = 0.
    for j in range(len(phi) - 1):
        xn, xs = phi[j], phi[j + 1]
        a = (y[j + 1] - y[j]) / (xs - xn)
        b = y[j] - a * xn
        pn, ps = (True, True) if z is None else (c.decide(z[j] >= 0), c.decide(z[j + 1] >= 0))
        if not pn and not ps:
            continue
        if not (pn and ps):
            x0 = xn + (xs - xn) * (z[j] / (z[j] - z[j + 1]))
            xn, xs = (xn, x0) if pn else (x0, xs)
        tot = tot + primitive(c, a, b, xn) - primitive(c, a, b, xs)
    return tot


def coords(res):
    n = nl(res)[0]
    return [(90. - 180. * j / (n - 1)) * D2R for j in range(n)]


def boxcount(c, res, ncol):
    R = c.real("R", 0.5, 3)
    g = c.bt.Grid(res, rsphere=R)
    nlat, nlon = nl(res)
    w = bandw(res)
    y = c.array("y", (nlat, ncol), -10, 10)
    z = c.array("z", (nlat, ncol), -5, 5)
    sy, sz = c.snapshot(y), c.snapshot(z)
    q = g.quad_meridional(y, z=z, method="boxcount")
    c.check("shape", q.shape == (ncol,))
    want = [sum(w[j] * c.ite(z[j, i] >= 0, y[j, i], 0.) for j in range(nlat)) * R for i in range(ncol)]
    c.close("line integrals", q, want, 1e-6)
    s = g.quad(y, z, "boxcount")
    c.close("surface", s, sum(want) * R * 2 * PI / nlon, 1e-6)
    c.unchanged("integrand", y, sy)
    c.unchanged("domain", z, sz)
    c.observe("q", q)


def boxcount_additive(c, res, ncol):
    g = c.bt.Grid(res, rsphere=2.)
    y = c.array("y", (g.nlat, ncol), -10, 10)
    z = c.array("z", (g.nlat, ncol), -5, 5)
    for x in z.reshape(-1):
        c.assume(c.or_(x > 0, x < 0))
    q, p, t = g.quad_meridional(y, z=z, method="boxcount"), g.quad_meridional(y, z=-z, method="boxcount"), g.quad_meridional(y, method="boxcount")
    c.close("additive", q + p, t, 1e-6)
    c.close("additive", g.quad(y, z=z, method="boxcount") + g.quad(y, z=-z, method="boxcount"), g.quad(y, method="boxcount"), 1e-6)
    c.observe("q", q)


def trapz(c, res, side):
    """one column with arbitrary domain, next to one with a fixed domain"""
    g = c.bt.Grid(res, rsphere=2.)
    n, nlon = nl(res)
    phi = coords(res)
    y = c.array("y", (n, 2), -10, 10)
    z = c.np.zeros((n, 2))
    for j in range(n):
        z[j, side] = c.real(f"z{j}", -5, 5)
        z[j, 1 - side] = (1., -0.5, -2., 0.25, 0.75, -1., 3.)[j % 7]
    sy, sz = c.snapshot(y), c.snapshot(z)
    q = g.quad_meridional(y, z=z) if side else g.quad_meridional(y, z, "sptrapz")
    c.check("shape", q.shape == (2,))
    want = [2. * line(c, phi, [y[j, i] for j in range(n)], [z[j, i] for j in range(n)]) for i in (0, 1)]
    c.close("line integrals", q, want, 1e-6)
    c.close("surface", g.quad(y, z=z), (q[0] + q[1]) * 2. * 2 * PI / nlon, 1e-6)
    c.unchanged("integrand", y, sy)
    c.unchanged("domain", z, sz)
    c.observe("q", q)


def trapz_additive(c, res):
    """z >= 0 and z < 0 together are everything"""
    g = c.bt.Grid(res, rsphere=2.)
    n = g.nlat
    y = c.array("y", (n, 1), -10, 10)
    z = c.array("z", (n, 1), -5, 5)
    for j in range(n):
        c.assume(c.or_(z[j, 0] > 0, z[j, 0] < 0))
    c.close("additive", g.quad_meridional(y, z=z) + g.quad_meridional(y, z=-z), g.quad_meridional(y), 1e-6)
    c.observe("y", y)


def whole(c, res, ncol):
    """no domain, full domain, empty domain"""
    R = c.real("R", 0.5, 3)
    g = c.bt.Grid(res, rsphere=R)
    n, nlon = nl(res)
    w = bandw(res)
    phi = coords(res)
    y = c.array("y", (n, ncol), -10, 10)
    for method in ("sptrapz", "boxcount"):
        q = g.quad_meridional(y, method=method)
        if method == "sptrapz":
            want = [R * line(c, phi, [y[j, i] for j in range(n)], None) for i in range(ncol)]
            c.close("default scheme", g.quad_meridional(y), q, 1e-9)
            c.close("default scheme", g.quad(y), g.quad(y, None, "sptrapz"), 1e-6)
        else:
            want = [R * sum(w[j] * y[j, i] for j in range(n)) for i in range(ncol)]
        c.close("line integrals", q, want, 1e-6)
        c.close("surface", g.quad(y, method=method), sum(want) * R * 2 * PI / nlon, 1e-6)
        c.close("full domain", g.quad_meridional(y, z=y * 0. + 3., method=method), q, 1e-9)
        c.close("zero domain", g.quad_meridional(y, z=y * 0., method=method), q, 1e-9)
        c.close("empty domain", g.quad_meridional(y, z=y * 0. - 3., method=method), [0.] * ncol, 1e-9)
        c.close("ones", g.quad(y * 0. + 1., method=method), 4 * PI * R * R * ncol / nlon, 1e-6)
    c.observe("q", q)


def nonneg(c, res, ncol, method):
    g = c.bt.Grid(res, rsphere=2.)
    n = g.nlat
    y = c.array("y", (n, ncol), 0, 10)
    pat = (1., -0.5, -2., 0.25, 0.75, -1e-3, 3., 0., -1., 0., 4., -9.)
    for k in range(12):
        z = c.np.array([[pat[(j * (i + 1) + k) % 12] for i in range(ncol)] for j in range(n)])
        c.le("not negative", 0., g.quad_meridional(y, z=z, method=method), 1e-6)
    c.le("not negative", 0., g.quad_meridional(y, method=method), 1e-9)
    c.observe("q", g.quad_meridional(y, method=method))


def linear(c, method):
    g = c.bt.Grid(45., rsphere=2.)
    y, x = c.array("y", (5, 2), -10, 10), c.array("x", (5, 2), -10, 10)
    k = c.real("k", -3, 3)
    z = c.np.array([[1., -1.], [-0.5, 0.], [2., 3.], [-1., 2.], [0.3, -7.]])
    q = lambda a: g.quad_meridional(a, z=z, method=method)
    c.close("linear", q(k * x + y), k * q(x) + q(y), 1e-6)
    c.close("surface", g.quad(k * x + y, z=z, method=method), k * g.quad(x, z=z, method=method) + g.quad(y, z=z, method=method), 1e-5)
    c.observe("q", q(y))


def columns(c, method):
    """each longitude by itself, whatever the width of the sector"""
    g = c.bt.Grid(60., rsphere=2.)
    y = c.array("y", (4, 6), -10, 10)
    z = c.np.array([[1., -1., 2., -3., 0., 5.], [-0.5, 0., 1., -2., 3., -1.], [2., 3., -1., 0.2, -0.4, 1.], [-1., 2., 1., 1., -5., -1.]])
    for zz in (z, None):
        q = g.quad_meridional(y, z=zz, method=method)
        for w in (1, 2, 5):
            for i in range(0, 7 - w, w):
                s = slice(i, i + w)
                c.close("sector", g.quad_meridional(y[:, s], z=None if zz is None else zz[:, s], method=method), q[s], 1e-9)
        r = [3, 0, 5, 1, 4, 2]
        c.close("permuted", g.quad_meridional(y[:, r], z=None if zz is None else zz[:, r], method=method), q[r], 1e-9)
    c.observe("q", q)


def refuse(c, method):
    g = c.bt.Grid(45., rsphere=2.)
    y = c.array("y", (5, 2), -10, 10)
    for f in (g.quad_meridional, g.quad):
        c.refuses("profile", lambda: f(y[:, 0], method=method))
        c.refuses("wrong size", lambda: f(y[:4], method=method))
        c.refuses("transposed", lambda: f(y.T, method=method))
        c.refuses("3D", lambda: f(y[:, :, None], method=method))
        for bad in ("trapz", "box", None, "", "sptrapz2", "BOXCOUNT"):
            c.refuses("scheme", lambda: f(y, method=bad))


def earth(c):
    """realistic magnitudes: relative accuracy"""
    g = c.bt.Grid(30.)
    y = c.array("y", (7, 12), 0, 10)
    R = g.rsphere
    for m in ("sptrapz", "boxcount"):
        c.close("ones", g.quad(y * 0. + 2., method=m) / R / R, 8 * PI, 1e-9)
        c.close("mean", g.quad(y, method=m) / R / R, sum(list(g.quad_meridional(y, method=m))) / R * PI / 6, 1e-6)
    c.close("boxcount is the mean times the area", g.quad(y, method="boxcount") / R / R / 4 / PI, g.mean(y), 1e-6)
    c.observe("q", g.quad(y))
