"""C01 Grid geometry follows from the resolution."""
from .lib import PI, D2R

BOUNDS = ("180/resolution = 2..18 (thorough: 2..72 and 90, 120, 180, 256, 360), every resolution within a relative error of 2e-5 of that (or the exact one), radius in [0.5, 10] or Earth, "
          "rotation in [0, 1], all query latitudes in [-90, 90]; equality: radii in [0.5, 10] and [1e6, 1e8], rotation in [1e-9, 1e-3] and [0, 1]")
OUTSIDE = "resolutions that do not divide 180 degrees; negative rotation; relative differences of radius or rotation between 1e-9 and 1e-3 may count as equal or not"


def tasks(tier):
    q = tier == "quick"
    ks = list(range(2, 19)) if q else list(range(2, 73)) + [90, 120, 180, 256, 360]
    out = []
    for k in ks:
        out.append(("geometry", dict(k=k)))
    for k in ([2, 3, 4, 5, 7, 12, 18] if q else list(range(2, 31)) + [36, 60, 72, 90]):
        out.append(("planet", dict(k=k)))
    for how in ("radius", "omega", "both"):
        for scale in (False, True):
            out.append(("equality", dict(how=how, scale=scale)))
    out.append(("resolutions", {}))
    out.append(("others", {}))
    out.append(("default", {}))
    return out


def check_coords(c, g, k, tol):
    """all coordinate arrays of a grid with 2k longitudes and k+1 latitudes"""
    nlon, nlat = 2 * k, k + 1
    lon = [360. * i / nlon for i in range(nlon)]
    lat = [90. - 180. * i / k for i in range(nlat)]
    c.check("nlon", g.nlon == nlon)
    c.check("nlat", g.nlat == nlat)
    c.check("shape", tuple(g.shape) == (nlat, nlon))
    c.close("lon", g.lon, lon, 1e-9)
    c.close("lat", g.lat, lat, 1e-9)
    c.close("lon2", g.lon2, [lon] * nlat, 1e-9)
    c.close("lat2", g.lat2, [[x] * nlon for x in lat], 1e-9)
    c.close("lam", g.lam, [x * D2R for x in lon], 1e-9)
    c.close("phi", g.phi, [x * D2R for x in lat], 1e-9)
    c.close("lam2", g.lam2, [[x * D2R for x in lon]] * nlat, 1e-9)
    c.close("phi2", g.phi2, [[x * D2R] * nlon for x in lat], 1e-9)
    c.close("dlon", g.dlon, 360. / nlon, tol)
    c.close("dlat", g.dlat, -180. / k, tol)
    c.close("dlam", g.dlam, 360. / nlon * D2R, tol)
    c.close("dphi", g.dphi, -180. / k * D2R, tol)
    return lat, lon


def geometry(c, k):
    """every resolution near 180/k"""
    d = c.real("d", -2e-5, 2e-5)
    g = c.bt.Grid(180. / k * (1. + d), rsphere=1.)
    check_coords(c, g, k, 4.1e-5 * 180 / k)
    c.observe("lon", g.lon)


def planet(c, k):
    import math
    R, om, la = c.real("R", 0.5, 10), c.real("om", 0, 1), c.real("la", -90, 90)
    res = 180 if k == 1 else (180. / k if 180 % k else 180 // k)
    for g, r, o in ((c.bt.Grid(res, rsphere=R, omega=om), R, om), (c.bt.Grid(180. / k, R, om), R, om), (c.bt.Grid(res), 6371200., 7.292e-5)):
        lat, lon = check_coords(c, g, k, 1e-9)
        if o is om:
            c.close("radius", g.rsphere, r, 1e-9)
            c.close("omega", g.omega, o, 1e-9)
            f = [2 * o * math.sin(x * D2R) for x in lat]
            c.close("fcor", g.fcor, f, 1e-9)
            c.close("fcor2", g.fcor2, [[x] * len(lon) for x in f], 1e-9)
            c.close("fcor2_spectral", g.to_grid(g.fcor2_spectral), g.fcor2, 1e-5)
            c.close("circumference of latitudes", g.circumference(g.lat), [2 * PI * r * math.cos(x * D2R) for x in lat], 1e-7)
            s, co = c.np.sin(la * D2R), c.np.cos(la * D2R)
            c.close("coriolis", g.coriolis(la), 2 * o * s, 1e-9)
            c.close("circumference", g.circumference(la), 2 * PI * r * co, 1e-7)
            z = c.np.array([la, 0., -30.])
            c.close("array of latitudes", g.circumference(z), [2 * PI * r * co, 2 * PI * r, 2 * PI * r * math.cos(30 * D2R)], 1e-7)
            c.close("array of latitudes", g.coriolis(z), [2 * o * s, 0., -2 * o * math.sin(30 * D2R)], 1e-9)
    c.observe("fcor", g.fcor)


def verdicts(c, a, b, same, label):
    """eq, ne, hash in both directions"""
    r, r2 = a == b, b == a
    c.check(label, c.iff(r, same))
    c.check(label + " (reversed)", c.iff(r2, same))
    c.check(label + " (!=)", c.iff(a != b, c.not_(same)))
    if c.decide(r):
        c.check("equal grids have equal hashes", hash(a) == hash(b))


def equality(c, how, scale):
    """equal exactly if radius and rotation agree up to rounding"""
    lo, hi = (1e6, 1e8) if scale else (0.5, 10)
    olo, ohi = (1e-9, 1e-3) if scale else (0, 1)
    R1 = c.real("R1", lo, hi)
    o1 = c.real("o1", olo, ohi)
    e = c.real("e", -2, 2)
    f = c.real("f", -2, 2)
    # relative differences: within rounding or clear
    small, smallf = c.and_(e <= 1e-12, e >= -1e-12), c.and_(f <= 1e-12, f >= -1e-12)
    c.assume(c.or_(small, e >= 1e-3, e <= -1e-3))
    c.assume(c.or_(smallf, f >= 1e-3, f <= -1e-3))
    c.assume(e >= -0.9)
    c.assume(f >= -0.9)
    if how == "radius":
        c.assume(f == 0)
    if how == "omega":
        c.assume(e == 0)
    if not scale:
        c.assume(c.or_(o1 == 0, o1 >= 1e-3))
    g = c.bt.Grid(60., rsphere=R1, omega=o1)
    h = c.bt.Grid(60., rsphere=R1 * (1 + e), omega=o1 * (1 + f))
    same = c.and_(small, c.or_(smallf, o1 == 0))
    verdicts(c, g, h, same, "equal iff radius and rotation agree")
    c.check("equal to itself", c.and_(g == g, c.not_(g != g)))
    c.observe("R1", R1)


def resolutions(c):
    """different shapes or truncations are never equal; legfunc and rounding of the resolution do not matter"""
    R, d = c.real("R", 0.5, 10), c.real("d", -2e-5, 2e-5)
    b = c.bt.Grid
    for x, y, same in ((b(60., R), b(45., R), False), (b(60., R), b(60., R, ntrunc=2), False), (b(60., R, ntrunc=2), b(60., R, ntrunc=2), True),
                       (b(60., R), b(60., R, ntrunc=3), True), (b(60., R), b(60. * (1. + d), R), True), (b(60., R), b(60., R, legfunc="computed"), True),
                       (b(60., R, 0.), b(60., R, 0.), True), (b(36., R, ntrunc=3), b(45., R, ntrunc=3), False)):
        verdicts(c, x, y, same, "equal iff shape and truncation agree")
    c.check("set", len({b(60., R), b(60., R), b(45., R)}) == 2)
    c.observe("R", R)


class Other:
    shape = (4, 6)
    rsphere, omega, _ntrunc = 1., 1., 3


def others(c):
    R = c.real("R", 0.5, 10)
    g = c.bt.Grid(60., R)
    for x in (None, 3, "grid", (4, 6), 60., Other(), object(), [g], c.bt):
        c.check("never raises", c.raises(lambda: (g == x, x == g, g != x)) is None)
        c.check("not equal", (g == x) is False and (x == g) is False and g != x)
    c.check("in a list", g in [None, "x", g] and [None, 2].count(g) == 0)
    c.observe("R", R)


def default(c):
    """defaults: 2.5 degrees, planet Earth"""
    la = c.real("la", -90, 90)
    g = c.bt.Grid()
    check_coords(c, g, 72, 1e-9)
    c.close("Earth's radius (km)", g.rsphere / 1000., 6371., 10.)
    c.close("Earth's rotation (1e-5)", g.omega * 1e5, 7.292, 0.01)
    c.close("coriolis", g.coriolis(la) * 1e5, 2e5 * g.omega * c.np.sin(la * D2R), 1e-6)
    c.check("truncation", g == c.bt.Grid(2.5, ntrunc=72))
    c.observe("f", g.coriolis(la))
