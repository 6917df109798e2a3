"""C18 Stationary wavenumber follows its definition for every wind profile."""
import math
from .lib import PI, D2R, lats, nl

BOUNDS = ("all wind profiles in [-20, 20] at 3 latitudes (given elsewhere) on grids of 30-45 degrees (thorough: all latitudes, 22.5), all rotation rates and radii of the box, thresholds in [0.001, 5] away from ties of 1e-6, "
          "both derivative orders, all three variants; 2D winds with 2 arbitrary longitudes; states with arbitrary amplitude and given patterns")
OUTSIDE = "finer grids; winds within 1e-6 of the threshold; wind speeds above the threshold but below 0.001"
OPTS = {"max_paths": 4000}


def tasks(tier):
    q = tier == "quick"
    out = []
    for order in (2, 4):
        for kind in ("squared", "complex"):
            for res, rows in ([(45., (1, 2, 3)), (30., (2, 4, 5))] if q else [(45., (0, 1, 2, 3, 4)), (30., (1, 2, 3)), (30., (3, 4, 5)), (22.5, (0, 1, 2)), (22.5, (4, 5, 7))]):
                out.append(("profile", dict(order=order, kind=kind, res=res, rows=rows)))
        for res in ([45.] if q else [45., 36.]):
            out.append(("field", dict(order=order, res=res)))
            out.append(("states", dict(order=order, res=res)))
        out.append(("flat_pv", dict(order=order)))
        out.append(("no_wind", dict(order=order)))
    out.append(("threshold", {}))
    out.append(("planet", {}))
    out.append(("refusals", {}))
    return out


def isinf(c, x):
    return (not hasattr(x, "p")) and abs(float(x)) == math.inf


def derivative(p, order, dphi):
    """finite differences (zero at the poles for profiles); dphi < 0 southward"""
    n = len(p)
    out = [0.] * n
    for j in range(1, n - 1):
        if order == 2:
            d = (p[j + 1] - p[j - 1]) / 2.
        elif j == 1:
            d = (-3. * p[0] - 10. * p[1] + 18. * p[2] - 6. * p[3] + p[4]) / 12.
        elif j == n - 2:
            d = (3. * p[n - 1] + 10. * p[n - 2] - 18. * p[n - 3] + 6. * p[n - 4] - p[n - 5]) / 12.
        else:
            d = (p[j - 2] - 8. * p[j - 1] + 8. * p[j + 1] - p[j + 2]) / 12.
        out[j] = d / dphi
    return out


def pv_of(u, res, R, om, order):
    phi = [x * D2R for x in lats(res)]
    n = len(phi)
    uc = [u[j] * (math.cos(phi[j]) if 0 < j < n - 1 else 0.) for j in range(n)]
    d = derivative(uc, order, -PI / (n - 1))
    return [2. * om * math.sin(phi[j]) + (-d[j] / (R * math.cos(phi[j])) if 0 < j < n - 1 else 0.) for j in range(n)]


def check(c, got, u, pv, res, R, order, min_u, kind, tol=1e-5):
    """got against the definition (zonal means u, pv)"""
    phi = [x * D2R for x in lats(res)]
    n = len(phi)
    d = derivative(pv, order, -PI / (n - 1))
    for j in range(n):
        c2 = math.cos(phi[j]) ** 2 if 0 < j < n - 1 else 0.
        beta = R * c2 * d[j]
        g = got[j]
        small = c.decide(c.and_(u[j] <= min_u, u[j] >= -min_u))
        if small:
            # infinite with the sign of the gradient, zero if that is zero
            if 0 < j < n - 1:
                c.assume(c.or_(beta > 1e-3, beta < -1e-3))
                sign = 1 if c.decide(beta > 0) else -1
            else:
                sign = 0
            if kind == "complex":
                re, im = c.np.real(g), c.np.imag(g)
                c.check("small wind", (isinf(c, re) and float(re) > 0 and not isinf(c, im)) if sign > 0 else (isinf(c, im) and float(im) > 0 and not isinf(c, re)) if sign < 0 else c.and_(re == 0, im == 0))
            else:
                c.check("small wind", isinf(c, g) and (float(g) > 0) == (sign > 0) if sign else g == 0)
            continue
        if kind == "squared":
            c.close("definition", g * u[j], beta, tol)
        elif kind == "complex":
            re, im = c.np.real(g), c.np.imag(g)
            c.close("definition", (re * re - im * im) * u[j], beta, tol)
            c.close("axis", re * im, 0., 1e-9)
            c.le("principal", 0., re)
            c.le("principal", 0., im)


def check_real(c, real, comp):
    """the real variant is the real minus the imaginary part of the complex one"""
    c.check("shape", real.shape == comp.shape)
    for g, h in zip(real, comp):
        re, im = c.np.real(h), c.np.imag(h)
        if isinf(c, re):
            c.check("real variant", isinf(c, g) and float(g) > 0)
        elif isinf(c, im):
            c.check("real variant", isinf(c, g) and float(g) < 0)
        else:
            c.close("real variant", g, re - im, 1e-9)


def wind(c, n, rows):
    u = [[14., -6., 9., 21., -11., 5., 17., 8., -4.][j] for j in range(n)]
    for j in rows:
        u[j] = c.real(f"u{j}", -20, 20)
    return u


def away(c, u, min_u):
    """not at the threshold"""
    for x in u:
        c.assume(c.and_(*[c.or_(x > t + 1e-6, x < t - 1e-6) for t in (min_u, -min_u)]))


def profile(c, order, kind, res, rows):
    g = c.bt.Grid(res, rsphere=2., omega=3.)
    n = g.nlat
    u = wind(c, n, rows)
    away(c, u, .5)
    arr = c.np.array(u)
    su = c.snapshot(arr)
    ks = c.bt.diagnostics.stationary_wavenumber(arr, g, order=order, min_u=.5, kind=kind)
    c.check("shape", ks.shape == (n,))
    check(c, ks, u, pv_of(u, res, 2., 3., order), res, 2., order, .5, kind)
    if kind == "complex":
        check_real(c, c.bt.diagnostics.stationary_wavenumber(arr, g, order=order, min_u=.5, kind="real"), ks)
    c.unchanged("wind", arr, su)


def field(c, order, res):
    """2D winds enter by their zonal means; default variant is complex, default threshold 0.001"""
    g = c.bt.Grid(res, rsphere=2., omega=3.)
    n, m = g.shape
    f = [[((3 * i + 5 * j) % 7) * 4. - 9. for i in range(m)] for j in range(n)]
    f[1][0], f[2][3] = c.real("a", -100, 100), c.real("b", -100, 100)
    u = [sum(r) / m for r in f]
    away(c, u, .001)
    arr = c.np.array(f)
    su = c.snapshot(arr)
    D = c.bt.diagnostics
    check(c, D.stationary_wavenumber(arr, g, order=order), u, pv_of(u, res, 2., 3., order), res, 2., order, .001, "complex")
    check(c, D.stationary_wavenumber(arr, grid=g, order=order, kind="squared"), u, pv_of(u, res, 2., 3., order), res, 2., order, .001, "squared")
    if order == 4:
        check_real(c, D.stationary_wavenumber(arr, g, kind="real"), D.stationary_wavenumber(arr, grid=g))
    c.unchanged("wind", arr, su)


def states(c, order, res):
    """wind and PV from the state"""
    g = c.bt.Grid(res, rsphere=2., omega=3.)
    n, m = g.shape
    a = c.real("a", 0.5, 2)
    st = c.bt.State(g, 0., pv=c.np.array([[a * ((n - 1. - j) ** 1.5 + .6 * ((3 * i + 5 * j) % 7)) for i in range(m)] for j in range(n)]))
    u, pv = [sum(r) / m for r in st.u], [sum(r) / m for r in st.pv]
    away(c, u, .001)
    su, sp = c.snapshot(st.u), c.snapshot(st.pv)
    D = c.bt.diagnostics
    check(c, D.stationary_wavenumber(st, order=order, kind="squared"), u, pv, res, 2., order, .001, "squared")
    check(c, D.stationary_wavenumber(st, order=order), u, pv, res, 2., order, .001, "complex")
    check_real(c, D.stationary_wavenumber(st, order=order, kind="real"), D.stationary_wavenumber(st, order=order))
    if order == 4:
        check(c, st.stationary_wavenumber, u, pv, res, 2., order, .001, "complex")
    c.unchanged("u", st.u, su)
    c.unchanged("pv", st.pv, sp)


def flat_pv(c, order):
    """no gradient of PV: zero everywhere, whatever the wind; never NaN"""
    class Flat:
        pass
    g = c.bt.Grid(45., rsphere=2., omega=3.)
    n = g.nlat
    s = Flat()
    s.grid = g
    if order == 2:
        u = wind(c, n, (1, 2, 3))
        away(c, u, .001)
    else:
        # (the stencil leaves rounding, which must not meet a wind of zero)
        u = wind(c, n, ())
    s.u, s.pv = c.np.array(u), c.np.zeros(n) + c.real("q", -5, 5)
    for kind in ("squared", "real", "complex") if order == 2 else ("squared",):
        ks = c.bt.diagnostics.stationary_wavenumber(s, order=order, kind=kind)
        c.close("zero", ks, [0.] * n, 1e-4)


def no_wind(c, order):
    """motionless: infinite where planetary vorticity has a gradient"""
    om = c.real("om", -5, 5)
    c.assume(c.or_(om > .1, om < -.1))
    g = c.bt.Grid(45., rsphere=2., omega=om)
    n = g.nlat
    fn = c.bt.diagnostics.stationary_wavenumber
    for kind in ("squared", "complex"):
        check(c, fn(c.np.zeros(n), g, order=order, kind=kind), [0.] * n, pv_of([0.] * n, 45., 2., om, order), 45., 2., order, .001, kind)
    check_real(c, fn(c.np.zeros(n), g, order=order, kind="real"), fn(c.np.zeros(n), g, order=order))


def threshold(c):
    """arbitrary threshold"""
    g = c.bt.Grid(45., rsphere=2., omega=3.)
    n = g.nlat
    t = c.real("min_u", .001, 5)
    u = wind(c, n, (1, 2))
    away(c, u, t)
    ks = c.bt.diagnostics.stationary_wavenumber(c.np.array(u), g, min_u=t, kind="squared")
    check(c, ks, u, pv_of(u, 45., 2., 3., 4), 45., 2., 4, t, "squared")


def planet(c):
    """arbitrary radius and rotation"""
    R, om = c.real("R", .5, 3), c.real("om", -3, 3)
    g = c.bt.Grid(45., rsphere=R, omega=om)
    n = g.nlat
    u = wind(c, n, ())
    ks = c.bt.diagnostics.stationary_wavenumber(c.np.array(u), g, kind="squared")
    check(c, ks, u, pv_of(u, 45., R, om, 4), 45., R, 4, .001, "squared")


def refusals(c):
    g = c.bt.Grid(45.)
    u = c.np.ones(g.nlat) * c.real("u", 1, 20)
    for k in ("imag", "", None, "Squared", 2):
        c.refuses("variant", lambda: c.bt.diagnostics.stationary_wavenumber(u, g, kind=k))
    c.refuses("order", lambda: c.bt.diagnostics.stationary_wavenumber(u, g, order=3))
