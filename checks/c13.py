"""C13 Zonalization is an area-preserving monotone rearrangement."""
from .lib import PI, D2R, bandw, nl
from .c11 import line, coords

BOUNDS = ("equivalent latitude: all areas in [-1, 5] sphere areas, all radii in [0.5, 3]; zonalization: grids of 36-90 degrees, all fields in [-10, 10] on one or two longitudes, "
          "1..3 arbitrary or automatic contours (spherical trapezoidal scheme: one longitude), and fields a*pattern1 + b*pattern2 with all a, b on the full globe with all contours of the default choice; "
          "order of all pairs of contours for given fields (trapezoidal) or for all fields (boxcount); sectors of the globe")
OUTSIDE = "finer grids, more arbitrary longitudes; ordering of areas of different contours under the trapezoidal scheme other than for the bounded families"
OPTS = {"max_paths": 6000}


def tasks(tier):
    q = tier == "quick"
    out = [("eqlat", dict(n=n)) for n in (0, 1, 3)]
    for res, ncol, nlev in ([(60., 2, 2), (45., 1, 3)] if q else [(60., 2, 2), (45., 1, 3), (36., 2, 2), (30., 1, 2), (90., 4, 3)]):
        out.append(("boxcount", dict(res=res, ncol=ncol, nlev=nlev)))
    for res in ([60., 45.] if q else [90., 60., 45., 36.]):
        out.append(("trapz", dict(res=res)))
    for fam in (0, 1, 2, 3):
        out.append(("trapz_monotone", dict(res=60. if q else 45., fam=fam)))
    for quad in ("boxcount", "sptrapz"):
        for levels in ((1, 2) if q else (1, 2, 3)):
            out.append(("automatic", dict(res=60., quad=quad, levels=levels)))
        out.append(("default_number", dict(res=60., quad=quad)))
        out.append(("invariance", dict(quad=quad)))
        out.append(("constant", dict(quad=quad)))
        for ncol in (1, 4, 5, 6) if q else (1, 2, 3, 4, 5, 6):
            out.append(("sector", dict(res=60., quad=quad, ncol=ncol)))
        for ncol in () if q else (3, 5, 7):
            out.append(("sector", dict(res=45., quad=quad, ncol=ncol)))
        for fam in range(2 if q else 4):
            out.append(("family", dict(res=60. if q else 45., quad=quad, fam=fam)))
    for res, ncol, nlev in ([(60., 1, 2)] if q else [(60., 1, 2), (60., 2, 2), (60., 1, 3), (45., 1, 2)]):
        out.append(("profile", dict(res=res, ncol=ncol, nlev=nlev, quad="boxcount")))
    out.append(("profile", dict(res=90., ncol=1, nlev=2, quad="sptrapz")))
    if not q:
        out.append(("profile", dict(res=60., ncol=1, nlev=1, quad="sptrapz")))
    return out


def eqlat(c, n):
    R = c.real("R", 0.5, 3)
    g = c.bt.Grid(60., rsphere=R)
    k = c.real("k", -1, 5) if n == 0 else c.array("k", (n,), -1, 5)
    A = k * (4 * PI * R * R)
    sA = c.snapshot(A)
    y = g.equivalent_latitude(A)
    c.check("shape", c.np.shape(y) == c.np.shape(A))
    for yy, kk in zip([y] if n == 0 else y, [k] if n == 0 else k):
        clipped = c.ite(kk < 0, 0., c.ite(kk > 1, 1., kk))
        c.close("area", 0.5 * (1. - c.np.sin(c.np.deg2rad(yy))), clipped, 1e-9)
        c.le("range", -90., yy, 1e-9)
        c.le("range", yy, 90., 1e-9)
    if n:
        c.unchanged("areas", A, sA)
    c.observe("y", y)


def check_areas(c, label, g, y, fractions):
    """the equivalent latitudes belong to these fractions of the sphere"""
    c.check("number", tuple(c.np.shape(y)) == (len(fractions),))
    for yy, f in zip(y, fractions):
        c.close(label, 0.5 * (1. - c.np.sin(c.np.deg2rad(yy))), c.min([1., c.max([0., f])]), 1e-7)
        c.le("range", -90., yy, 1e-9)
        c.le("range", yy, 90., 1e-9)


def box_fraction(c, res, f, t):
    w = bandw(res)
    ncol = f.shape[1]
    return sum(0.5 * w[j] / ncol * c.ite(f[j, i] >= t, 1., 0.) for j in range(f.shape[0]) for i in range(ncol))


def line_fraction(c, res, f, t):
    phi = coords(res)
    n, ncol = f.shape
    return sum(0.5 / ncol * line(c, phi, [1.] * n, [f[j, i] - t for j in range(n)]) for i in range(ncol))


FRACTION = {"boxcount": box_fraction, "sptrapz": line_fraction}


def boxcount(c, res, ncol, nlev):
    g = c.bt.Grid(res, rsphere=2.)
    f = c.array("f", (g.nlat, ncol), -10, 10)
    lev = c.array("t", (nlev,), -11, 11)
    sf, sl = c.snapshot(f), c.snapshot(lev)
    q, y = g.zonalize(f, levels=lev, interpolate=False, quad="boxcount")
    c.close("contours", q, sl, 1e-12)
    check_areas(c, "area", g, y, [box_fraction(c, res, f, t) for t in lev])
    for a in range(nlev):
        for b in range(a):
            c.check("monotone", c.and_(c.implies(lev[a] >= lev[b], y[a] >= y[b] - 1e-9), c.implies(lev[a] <= lev[b], y[a] <= y[b] + 1e-9)))
    c.unchanged("field", f, sf)
    c.unchanged("contours", lev, sl)
    c.observe("y", y)


def trapz(c, res):
    g = c.bt.Grid(res, rsphere=2.)
    f = c.array("f", (g.nlat, 1), -10, 10)
    t = c.real("t", -11, 11)
    q, y = g.zonalize(f, levels=c.np.array([t]), interpolate=False)
    c.close("contours", q, c.np.array([t]), 1e-12)
    check_areas(c, "area", g, y, [line_fraction(c, res, f, t)])
    q2, y2 = g.zonalize(f, levels=c.np.array([t]), interpolate=False, quad="sptrapz")
    c.close("default", c.np.sin(c.np.deg2rad(y2)), c.np.sin(c.np.deg2rad(y)), 1e-9)
    c.observe("y", y)


def trapz_monotone(c, res, fam):
    """two arbitrary contours of a given field"""
    g = c.bt.Grid(res, rsphere=2.)
    p, r = PATTERNS[fam]
    n, m = g.nlat, 3
    f = c.np.array([[p(i, j, n, m) + 0.5 * r(i, j, n, m) - 0.25 * i for i in range(m)] for j in range(n)])
    t, d = c.real("t", -2, 5), c.real("d", 0, 5)
    s = t + d
    q, y = g.zonalize(f, levels=c.np.array([t, s]), interpolate=False)
    check_areas(c, "area", g, y, [line_fraction(c, res, f, t), line_fraction(c, res, f, s)])
    a = [0.5 * (1. - c.np.sin(c.np.deg2rad(yy))) for yy in y]
    c.lemma_sin_monotone(a)
    c.check("monotone", a[0] >= a[1] - 1e-9)
    c.observe("y", y)


def automatic(c, res, quad, levels):
    """automatic contours lie inside the range; one longitude"""
    g = c.bt.Grid(res, rsphere=2.)
    f = c.array("f", (g.nlat, 1), -10, 10)
    lo, hi = c.min(f.reshape(-1)), c.max(f.reshape(-1))
    c.assume(hi > lo + 1e-3)
    if quad == "sptrapz" and levels > 1:
        # keeps the number of orderings within reach
        c.assume(f[0, 0] >= f[1, 0])
    q, y = g.zonalize(f, levels=levels, interpolate=False, quad=quad)
    c.check("number", q.shape == (levels,))
    for t in q:
        c.check("inside", c.and_(t > lo, t < hi))
    check_areas(c, "area", g, y, [FRACTION[quad](c, res, f, t) for t in q])
    if quad == "boxcount":
        for i in range(levels):
            for j in range(levels):
                c.check("monotone", c.implies(q[i] >= q[j], y[i] >= y[j] - 1e-9))
    c.observe("q", q)


def default_number(c, res, quad):
    """number of contours without a choice; all given numbers"""
    g = c.bt.Grid(res, rsphere=2.)
    n = g.nlat
    a = c.real("a", 0.1, 5)
    f = c.np.array([[a * (n - j + (0.25 if i else 0.)) for i in range(2)] for j in range(n)])
    lo, hi = a * 1., a * (n + .25)
    k = c.pick("levels", [None, 1, 2, 3, 4, 7, 12])
    q, y = g.zonalize(f, interpolate=False, quad=quad, **({} if k is None else {"levels": k}))
    want = k if k is not None else (2 * n if quad == "boxcount" else n)
    c.check("number", q.shape == (want,) and y.shape == (want,))
    for t in q:
        c.check("inside", c.and_(t > lo, t < hi))
    c.check("distinct", c.and_(*[q[i] < q[i + 1] for i in range(want - 1)]) if c.decide(q[0] <= q[-1]) else c.and_(*[q[i] > q[i + 1] for i in range(want - 1)]))
    check_areas(c, "area", g, y, [FRACTION[quad](c, res, f, t) for t in q])
    c.observe("q", q)


PATTERNS = [(lambda i, j, n, m: 1. * (n - 1 - j), lambda i, j, n, m: float((i * 3 + j) % m == 1)),
            (lambda i, j, n, m: 1. * j, lambda i, j, n, m: float(i == j or i == 0)),
            (lambda i, j, n, m: 1. * ((i * j) % 3), lambda i, j, n, m: 0.3 * (n - 1 - j)),
            (lambda i, j, n, m: 1. * (n - 1 - j), lambda i, j, n, m: 1. * ((i + j) % 2))]


def family(c, res, quad, fam):
    """full globe, the default interpolated result"""
    g = c.bt.Grid(res, rsphere=2.)
    a, b = c.real("a", 0.5, 2), c.real("b", -1, 1)
    p, r = PATTERNS[fam]
    n, m = g.shape
    if quad == "boxcount":
        f = c.np.array([[a * p(i, j, n, m) + b * r(i, j, n, m) for i in range(m)] for j in range(n)])
    else:
        f = c.np.array([[a * (p(i, j, n, m) + 0.5 * r(i, j, n, m)) + b for i in range(m)] for j in range(n)])
    c.assume(c.max(f.reshape(-1)) > c.min(f.reshape(-1)) + 1e-3)
    q, y = g.zonalize(f, interpolate=False, quad=quad)
    check_areas(c, "area", g, y, [FRACTION[quad](c, res, f, t) for t in q])
    check_profile(c, g, f, q, y, g.zonalize(f, quad=quad))


def check_profile(c, g, f, q, y, prof, between=True):
    lo, hi = c.min(f.reshape(-1)), c.max(f.reshape(-1))
    c.check("shape", prof.shape == (g.nlat,))
    c.close("maximum at the North Pole", prof[0], hi, 1e-6)
    c.close("minimum at the South Pole", prof[-1], lo, 1e-6)
    for j in range(g.nlat - 1):
        c.le("monotone", prof[j + 1], prof[j], 1e-6)
    for k in range(len(q) if between else 0):
        # a contour bounds the profile north and south of its latitude (together with the contours of the same latitude)
        same = [c.and_(y[l] > y[k] - 1e-3, y[l] < y[k] + 1e-3) for l in range(len(q))]
        top = c.max([c.ite(same[l], q[l], q[k]) for l in range(len(q))])
        low = c.min([c.ite(same[l], q[l], q[k]) for l in range(len(q))])
        for j in range(1, g.nlat - 1):
            c.check("between contours", c.and_(c.implies(y[k] > g.lat[j] + 1e-3, prof[j] <= top + 1e-6), c.implies(y[k] < g.lat[j] - 1e-3, prof[j] >= low - 1e-6)))
    c.observe("profile", prof)


def profile(c, res, ncol, nlev, quad):
    g = c.bt.Grid(res, rsphere=2.)
    f = c.array("f", (g.nlat, ncol), -10, 10)
    lo, hi = c.min(f.reshape(-1)), c.max(f.reshape(-1))
    c.assume(hi > lo + 1e-3)
    q, y = g.zonalize(f, levels=nlev, interpolate=False, quad=quad)
    check_profile(c, g, f, q, y, g.zonalize(f, levels=nlev, quad=quad), quad == "boxcount")


def invariance(c, quad):
    """permuted longitudes, repeated sectors"""
    g = c.bt.Grid(60., rsphere=2.)
    f = c.array("f", (4, 1), -10, 10)
    w = c.np.array([[3., 1.], [-1., 2.], [0., -2.], [1., 2.]])
    lev = c.np.array([c.real("t", -11, 11)])
    pick = lambda *cols: c.np.stack([f[:, 0] if k == 0 else w[:, k - 1] for k in cols], axis=1)
    q, y = g.zonalize(pick(0, 1, 2), levels=lev, interpolate=False, quad=quad)
    for cols in ((2, 0, 1), (1, 0, 2), (0, 1, 2, 0, 1, 2), (2, 2, 1, 1, 0, 0)):
        q2, y2 = g.zonalize(pick(*cols), levels=lev, interpolate=False, quad=quad)
        c.close("contours", q2, q, 1e-9)
        c.close("latitudes", c.np.sin(c.np.deg2rad(y2)), c.np.sin(c.np.deg2rad(y)), 1e-9)
    c.observe("y", y)


def sector(c, res, quad, ncol):
    """sectors of any width, also if they do not fit evenly into the globe; areas of the sector are scaled to the globe"""
    g = c.bt.Grid(res, rsphere=2.)
    n, m = g.shape
    x = c.array("f", (n,), -10, 10)
    f = c.np.array([[x[j] if i == ncol // 2 else float((3 * i + 2 * j) % 5) - 1.5 for i in range(ncol)] for j in range(n)])
    t = c.real("t", -11, 11)
    q, y = g.zonalize(f, levels=c.np.array([t]), interpolate=False, quad=quad)
    check_areas(c, "area", g, y, [FRACTION[quad](c, res, f, t)])
    c.observe("y", y)


def constant(c, quad):
    """constant fields: the contour covers everything or nothing"""
    g = c.bt.Grid(60., rsphere=2.)
    k = c.real("k", -10, 10)
    f = c.np.ones((4, 6)) * k
    t = c.real("t", -11, 11)
    q, y = g.zonalize(f, levels=c.np.array([t]), interpolate=False, quad=quad)
    c.close("latitude", c.np.sin(c.np.deg2rad(y[0])), c.ite(t <= k, -1., 1.), 1e-9)
    prof = g.zonalize(f, quad=quad)
    c.close("profile", prof, c.np.ones(4) * k, 1e-6)
