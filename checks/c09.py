"""C09 Meridional derivative is exact to its order everywhere."""

BOUNDS = ("nlat 3..13 (resolutions 15 to 90 degrees), orders 2, 4 and None, 1D profiles and 2D fields with 1, 2 or 5 columns; "
          "polynomial coefficients in [-2, 2], field values in [-10, 10]")
OUTSIDE = "other numbers of latitudes; integer-dtype input"


def tasks(tier):
    out = []
    res = [30., 36., 60.] if tier == "quick" else [90., 60., 45., 36., 30., 22.5, 20., 18., 15.]
    for r in res:
        for order in (2, 4, None):
            if order != 2 and r > 45.:
                out.append(("refuse", dict(res=r, order=order)))
                continue
            out.append(("exact1d", dict(res=r, order=order)))
            out.append(("exact2d", dict(res=r, order=order, ncol=2)))
            out.append(("columns", dict(res=r, order=order, ncol=2 if tier == "quick" else 5)))
    for order in (0, 1, 3, 5, 6, "4"):
        out.append(("refuse", dict(res=30., order=order)))
    out.append(("refuse", dict(res=90., order=4)))
    out.append(("refuse3d", dict()))
    return out


def poly(c, name, deg, x):
    """value and derivative at x of a polynomial with symbolic coefficients"""
    co = [c.real(f"{name}{i}", -2, 2) for i in range(deg + 1)]
    f = sum(co[i] * x ** i for i in range(deg + 1))
    d = sum(i * co[i] * x ** (i - 1) for i in range(1, deg + 1))
    return f, d


def exact1d(c, res, order):
    g = c.bt.Grid(res)
    deg = 2 if order == 2 else 4
    phi = [(90. - i * res) * 3.141592653589793 / 180. for i in range(g.nlat)]
    f = c.np.zeros(g.nlat)
    want = c.np.zeros(g.nlat)
    for j in range(g.nlat):
        f[j], want[j] = poly(c, "a", deg, phi[j])
    s = c.snapshot(f)
    d = g.derivative_meridional(f) if order is None and res == 30. else g.derivative_meridional(f, order=order)
    c.check("shape", d.shape == (g.nlat,))
    c.close("interior", d[1:-1], want[1:-1], 1e-7)
    c.close("poles", d[[0, -1]], [0., 0.], 1e-12)
    c.unchanged("input", f, s)
    c.observe("d", d)


def exact2d(c, res, order, ncol):
    g = c.bt.Grid(res)
    deg = 2 if order == 2 else 4
    f = c.np.zeros((g.nlat, ncol))
    want = c.np.zeros((g.nlat, ncol))
    for i in range(ncol):
        for j in range(g.nlat):
            f[j, i], want[j, i] = poly(c, "a" if i == 0 else f"b{i}_", deg, (90. - j * res) * 3.141592653589793 / 180.)
    s = c.snapshot(f)
    d = g.derivative_meridional(f, order=order)
    c.close("everywhere", d, want, 1e-7)
    c.unchanged("input", f, s)
    c.observe("d", d)


def columns(c, res, order, ncol):
    """linear, and each column by itself"""
    g = c.bt.Grid(res)
    f = c.array("f", (g.nlat, ncol), -10, 10)
    h = c.array("h", (g.nlat, ncol), -10, 10)
    k = 2.5
    df, dh = g.derivative_meridional(f, order=order), g.derivative_meridional(h, order=order)
    c.close("linear", g.derivative_meridional(k * f - h, order=order), k * df - dh, 1e-7)
    for i in range(ncol):
        c.close("column alone", g.derivative_meridional(f[:, i:i + 1], order=order)[:, 0], df[:, i], 1e-9)
        p = g.derivative_meridional(f[:, i], order=order)
        c.close("as profile", p[1:-1], df[1:-1, i], 1e-9)
        c.close("profile poles", p[[0, -1]], [0., 0.], 1e-12)
    c.close("list input", g.derivative_meridional(list(f[:, 0]), order=order), g.derivative_meridional(f[:, 0], order=order), 1e-9)
    c.observe("d", df)


def refuse(c, res, order):
    g = c.bt.Grid(res)
    f = c.array("f", (g.nlat, 2), -10, 10)
    c.refuses("2D", lambda: g.derivative_meridional(f, order=order))
    c.refuses("1D", lambda: g.derivative_meridional(f[:, 0], order=order))


def refuse3d(c):
    g = c.bt.Grid(30.)
    f = c.array("f", (g.nlat, 2, 2), -10, 10)
    c.refuses("3D", lambda: g.derivative_meridional(f))
