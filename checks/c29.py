"""C29 Text representations describe the object."""
from .lib import lats, lons, nl

BOUNDS = ("regions: all pairs of latitude and longitude bounds in [-95, 95] and [-10, 370] on grids of 45-60 degrees (thorough: 30; regions over the prime meridian included, one dimension arbitrary at a time, and all pairs of "
          "gridpoint indices), their text read back; models: diffusion orders 1-12, all coefficients in [1e-6, 1e20] and zero; grids: all radii and rotation rates in [0.01, 1e8]; nested sums and products of all factors in [-50, 50]; lists of 0-5 states")
OUTSIDE = "exact layout and wording; resolutions that are not a whole number of degrees"
OPTS = {"max_paths": 3000}


def tasks(tier):
    q = tier == "quick"
    out = []
    for res in ((60., 45.) if q else (60., 45., 36., 30.)):
        out += [("region_lat", dict(res=res)), ("region_lon", dict(res=res))]
    for res in ((30.,) if q else (45., 30., 20., 15.)):
        out += [("region_cells", dict(res=res))]
    out += [("region_empty", {}), ("grid", dict(res=60.)), ("grid", dict(res=10.)), ("model", {}), ("model_times", {}), ("forcing", {}), ("statelist", {}), ("unmodified", {})]
    return out


def rows(text):
    """the map: 9 rows of 36 cells"""
    out = []
    for line in text.split("\n"):
        cells = [x for x in line.strip()[:36] if x in "X·"]
        if len(cells) == 36:
            out.append(cells)
    return out


def bounds(c, text, unit):
    """the two numbers in front of the unit, or None"""
    for line in text.split("\n"):
        if " to " in line and unit in line:
            a, b = line.split(unit)[0].split(" to ")
            return c.number(a.split()[-1]), c.number(b.split()[-1])
    return None


def count(text, name):
    for line in text.split("\n"):
        if name + " = " in line:
            return int(line.split(name + " = ")[1].rstrip(")"))
    return None


def check_region(c, r, res, ilat, ilon):
    text = repr(r)
    la, lo = lats(res), lons(res)
    c.check("nlat", count(text, "nlat") == len(ilat))
    c.check("nlon", count(text, "nlon") == len(ilon))
    b = bounds(c, text, "°N")
    c.check("lat bounds", (b is None) == (len(ilat) == 0))
    if ilat and b is not None:
        c.close("lat bounds", list(b), [la[ilat[-1]], la[ilat[0]]], 0.0051)
    b = bounds(c, text, "°E")
    c.check("lon bounds", (b is None) == (len(ilon) == 0))
    if ilon and b is not None:
        c.close("lon bounds", list(b), [lo[ilon[0]], lo[ilon[-1]]], 0.0051)
    m = rows(text)
    c.check("map", len(m) == 9)
    # cells of 20 x 10 degrees from the north west; the southern and western edge belong to a cell, and the pole
    for j in range(9):
        south = 70. - 20. * j
        inlat = any(south <= la[i] < south + 20. or (j == 0 and la[i] == 90.) for i in ilat)
        for k in range(36):
            inlon = any(10. * k <= lo[i] < 10. * k + 10. for i in ilon)
            c.check("map", (m[j][k] == "X") == (inlat and inlon))
    c.check("grid", repr(r.grid if hasattr(r, "grid") else r._grid) in text)


def region_lat(c, res):
    g = c.bt.Grid(resolution=res)
    la = lats(res)
    a, b = c.real("a", -95, 95), c.real("b", -95, 95)
    r = g.region[:, a:b]
    idx = [i for i in range(len(la)) if c.decide(c.and_(c.min([a, b]) <= la[i], la[i] <= c.max([a, b])))]
    check_region(c, r, res, idx, list(range(g.nlon)))


def region_lon(c, res):
    g = c.bt.Grid(resolution=res)
    lo = lons(res)
    a, b = c.real("a", -10, 370), c.real("b", -10, 370)
    r = g.region[a:b, 10:-50]
    if c.decide(a <= b):
        idx = [i for i in range(len(lo)) if c.decide(c.and_(a <= lo[i], lo[i] <= b))]
    else:
        idx = [i for i in range(len(lo)) if c.decide(a <= lo[i])] + [i for i in range(len(lo)) if c.decide(lo[i] <= b)]
    la = lats(res)
    check_region(c, r, res, [i for i in range(len(la)) if -50 <= la[i] <= 10], idx)


def region_cells(c, res):
    g = c.bt.Grid(resolution=res)
    n, m = nl(res)
    i, k = c.int("i", 0, n - 1), c.int("k", 0, m - 1)
    i, k = int(i), int(k)
    la, lo = lats(res), lons(res)
    j = c.pick("j", [0, 1, n - 1])
    l = c.pick("l", [0, m // 2, m - 1])
    r = g.region[lo[k]:lo[l], la[i]:la[j]]
    ilon = list(range(k, l + 1)) if k <= l else list(range(k, m)) + list(range(l + 1))
    check_region(c, r, res, list(range(min(i, j), max(i, j) + 1)), ilon)


def region_empty(c):
    g = c.bt.Grid(resolution=60.)
    a, b = c.real("a", 31, 59), c.real("b", 1, 29)
    k = c.pick("k", [0, 1, 2])
    r = g.region[b + 60.:b + 60. if k < 2 else 359., a if k > 0 else -90:a] if k else g.region[10:b + 10., :]
    text = repr(r)
    if k == 0:
        check_region(c, r, 60., [0, 1, 2, 3], [])
    else:
        check_region(c, r, 60., [], [] if k == 1 else [i for i in range(6) if c.decide(c.and_(b + 60. <= 60. * i, 60. * i <= 359.))])


def field_after(text, name):
    for line in text.split("\n"):
        w = line.split("=", 1)
        if len(w) == 2 and w[0].strip() == name:
            return w[1].strip()
    return None


def grid(c, res):
    R, om = c.real("R", 0.01, 1e8), c.real("om", 0.01, 1e8)
    nt = c.pick("nt", [None, 1, 2])
    leg = c.pick("leg", ["stored", "computed"])
    g = c.bt.Grid(resolution=res, rsphere=R, omega=om, ntrunc=nt, legfunc=leg)
    text = repr(g)
    c.check("shape", field_after(text, "(nlat, nlon)") == str(nl(res)))
    c.close("resolution", c.number(field_after(text, "resolution").rstrip("°")), res, 1e-9)
    c.close("radius", c.number(field_after(text, "rsphere").split()[0]), R, 1e-6)
    c.close("rotation", c.number(field_after(text, "omega").split()[0]), om, 1e-6)
    c.check("truncation", int(field_after(text, "ntrunc")) == (nl(res)[0] - 1 if nt is None else nt))
    c.check("legendre", field_after(text, "legfunc") == leg)


SUP = {"⁰": "0", "¹": "1", "²": "2", "³": "3", "⁴": "4", "⁵": "5", "⁶": "6", "⁷": "7", "⁸": "8", "⁹": "9"}


def exponents(text):
    out, cur = [], ""
    for x in text + " ":
        if x in SUP:
            cur += SUP[x]
        elif cur:
            out.append((cur, x))
            cur = ""
    return out


class Named:
    def __init__(self, name): self.name = name
    def __repr__(self): return self.name
    def __call__(self, state): return 0.


def model(c):
    order = int(c.int("order", 1, 12))
    zero = c.bool("zero")
    k = 0. if c.decide(zero) else c.real("k", 1e-6, 1e20)
    f = c.pick("f", [None, Named("my forcing"), c.bt.rhs.TimedOffSwitch(5.) * 2.])
    kw = {} if f is None else dict(rhs=f)
    m = c.bt.BarotropicModel(diffusion_order=order, diffusion_coeff=k, **kw)
    text = repr(m)
    ln = text.split("\n")
    e = exponents("\n".join(x for x in ln if "RHS =" not in x).replace("s⁻¹", ""))
    c.check("exponents", len(e) == 2)
    for x, _ in e:
        c.check("exponent", int(x) == 2 * order)
    num = field_after(text, "where κ").split()[0]
    c.le("coefficient", abs(c.number(num) - k), 5.001e-6 * k)
    if f is not None:
        c.check("forcing", ln[-1].endswith("RHS = " + repr(f)))


def model_times(c):
    """two models do not share anything"""
    M = c.bt.BarotropicModel
    a, b = M(diffusion_order=1, diffusion_coeff=2.), M(diffusion_order=3, diffusion_coeff=c.real("k", 4., 9.))
    ta, tb = repr(a), repr(b)
    c.check("differ", ta != tb)
    c.close("first", c.number(field_after(ta, "where κ").split()[0]), 2., 1e-9)
    c.le("second", abs(c.number(field_after(tb, "where κ").split()[0]) - b.diffusion_coeff), 1e-4)


def forcing(c):
    x = c.real("x", -50, 50)
    R = c.bt.rhs
    class T(R.RHS):
        def __call__(self, state): return 1.
        def __repr__(self): return "T"
    t, u = T(), Named("U")
    s = repr(t + u)
    c.check("sum", s.replace(" ", "") in ("(T+U)", "T+U"))
    s = repr(u + t)
    c.check("sum", s.count("T") == 1 and s.count("U") == 1 and s.count("+") == 1 and "*" not in s)
    s = repr(t * Named("F"))
    c.check("product", s.count("T") == 1 and s.count("F") == 1 and s.count("*") == 1 and "+" not in s)
    s = repr((t + u) * Named("F") + Named("V"))
    c.check("nested", s.replace(" ", "") in ("(((T+U)*F)+V)", "((T+U)*F)+V", "(T+U)*F+V"))
    c.check("number", "T" in repr(x * t))


def statelist(c):
    n = c.pick("n", [0, 1, 2, 5])
    g = c.bt.Grid(resolution=60.)
    S = c.bt.State(g, c.real("t", 0, 100), pv=c.np.zeros(g.shape))
    L = c.bt.StateList([S] * n)
    c.check("count", [int(w) for w in repr(L).strip("<>").split() if w.isdigit()] == [n])


def unmodified(c):
    g = c.bt.Grid(resolution=60., rsphere=2., omega=3.)
    pv = c.array("q", g.shape, -5, 5)
    st = c.bt.State(g, c.real("t", 0, 100), pv=pv)
    sp = c.snapshot(st.pv_spectral)
    r = g.region[10:200, "N"]
    for x in (g, r, st, c.bt.BarotropicModel(), c.bt.StateList([st])):
        c.check("repeated", repr(x) == repr(x) or x is st)
        c.check("text", isinstance(str(x), str))
    c.unchanged("state", st.pv_spectral, sp)
    c.close("area", r.gridpoint_area, g.gridpoint_area[:2], 1e-9)
