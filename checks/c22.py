"""C22 Preset initial states have the documented flow."""
import datetime
import math
from .lib import PI, D2R, nl, lats, EARTH_OM, EARTH_R

BOUNDS = ("all amplitudes in [-100, 100], Held coefficients in [-500, 500], jet centres in [-90, 90] and widths in [1, 90] degrees (one at a time with given others where both enter the exponential), "
          "all wind and PV profiles in [-50, 50], all times in [-1e6, 1e6], grids of 60 to 5 degrees (profiles: 60, 30), two planets")
OUTSIDE = "grids finer than stated; float32 rounding of the transforms (1e-3 of the amplitude)"
OPTS = {"max_paths": 2000}


def tasks(tier):
    q = tier == "quick"
    out = [("motionless", dict(res=r)) for r in ((60., 30.) if q else (60., 45., 36., 30., 22.5, 15.))]
    out += [("solid", dict(res=r)) for r in ((60., 30., 15.) if q else (60., 45., 36., 30., 22.5, 20., 15., 10.))]
    out += [("held", dict(res=r)) for r in ((60., 30., 15.) if q else (60., 45., 30., 20., 15., 10., 5.))]
    out += [("jet", dict(res=r, free=f)) for r in ((60., 30.) if q else (60., 45., 30., 22.5, 15.)) for f in ("amplitude", "center", "width", "both")]
    out += [("jet_value", dict(res=r)) for r in ((15.,) if q else (15., 10.))]
    out += [("profile", dict(res=r, kind=k)) for r in ((60., 30.) if q else (60., 45., 30., 22.5, 20., 15.)) for k in ("u", "pv")]
    out += [("forms", dict(kind=k)) for k in ("u", "pv")]
    out += [("defaults", dict(res=30.)), ("times", {}), ("refusals", {}), ("planet", {})]
    return out


def lat2(g):
    return [[x] * g.nlon for x in lats(180. / (g.nlat - 1))]


def wind(c, g, prof):
    """a zonally symmetric state from the wind in the documented way"""
    u = c.np.array([[x] * g.nlon for x in prof])
    return c.bt.State.from_wind(g, 0., u, c.np.zeros(g.shape))


def common(c, st, g, t, v=1e-4):
    c.check("grid", st.grid is g)
    c.check("type", isinstance(st, c.bt.State))
    if isinstance(t, datetime.datetime):
        c.check("time", st.time == t)
    else:
        c.close("time", st.time, t, 1e-12)
    c.check("shape", st.pv.shape == g.shape)
    c.close("v", st.v, c.np.zeros(g.shape), v)


def time(c):
    return c.real("t", -1e6, 1e6)


def motionless(c, res):
    g = c.bt.Grid(res)
    t = time(c)
    st = c.bt.init.motionless(g, t)
    common(c, st, g, t)
    c.close("u", st.u, c.np.zeros(g.shape), 1e-3)
    c.close("pv", st.pv, [[2. * EARTH_OM * math.sin(x * D2R)] * g.nlon for x in lats(res)], 1e-10)
    c.observe("pv", st.pv)


def solid(c, res):
    g = c.bt.Grid(res)
    a, t = c.real("a", -100, 100), time(c)
    st = c.bt.init.solid_body_rotation(g, t, a)
    common(c, st, g, t)
    c.close("u", st.u, [[a * math.cos(x * D2R)] * g.nlon for x in lats(res)], 1e-3)
    # its vorticity
    c.close("pv", st.pv, [[(2. * EARTH_OM + 2. * a / EARTH_R) * math.sin(x * D2R)] * g.nlon for x in lats(res)], 1e-9)
    st2 = c.bt.init.solid_body_rotation(g, amplitude=a)
    c.close("time", st2.time, 0., 0.)
    c.close("u", st2.u, st.u, 1e-3)
    c.observe("u", st.u)


def held(c, res):
    g = c.bt.Grid(res)
    A, B, C, t = c.real("A", -500, 500), c.real("B", -500, 500), c.real("C", -500, 500), time(c)
    st = c.bt.init.held_1985(g, t, A, B, C)
    common(c, st, g, t)
    prof = []
    for x in lats(res):
        co, si = math.cos(x * D2R), math.sin(x * D2R)
        prof.append(A * co - B * co ** 3 + C * co ** 6 * si ** 2)
    c.close("u", st.u, wind(c, g, prof).u, 2e-3)
    if res <= 20:
        # spectral truncation changes little (relative to the largest coefficient)
        tol = 500. * {20.: 0.02, 15.: 0.01, 10.: 0.004, 5.: 0.002}[res]
        c.close("profile", st.u, [[x] * g.nlon for x in prof], tol)
    st2 = c.bt.init.held_1985(g, t, C=C, A=A, B=B)
    c.close("keywords", st2.u, st.u, 1e-3)
    c.observe("u", st.u)


def bell(c, res, a, m, s):
    """documented wind profile: Gaussian plus a linear function of latitude, zero at both poles"""
    g = lambda x: a * c.np.exp(-0.5 * (x - m) ** 2 / s ** 2)
    n, so = g(90.), g(-90.)
    return [g(x) - 0.5 * (n + so) - (n - so) * x / 180. for x in lats(res)]


def params(c, free):
    a, m, s = 20., 35., 12.
    if free in ("amplitude", "both"):
        a = c.real("a", -100, 100)
    if free in ("center", "both"):
        m = c.real("m", -90, 90)
    if free == "width":
        s = c.real("s", 1, 90)
    return a, m, s


def jet(c, res, free):
    g = c.bt.Grid(res)
    a, m, s = params(c, free)
    t = time(c)
    st = c.bt.init.gaussian_jet(g, t, a, m, s)
    prof = bell(c, res, a, m, s)
    common(c, st, g, t, 1e-2)
    c.close("poles", [prof[0], prof[-1]], [0., 0.], 1e-9)
    c.close("u", st.u, wind(c, g, prof).u, 5e-3)
    st2 = c.bt.init.gaussian_jet(g, stdev_lat=s, center_lat=m, amplitude=a)
    c.close("keywords", st2.u, st.u, 5e-3)
    c.close("time", st2.time, 0., 0.)
    c.observe("u", st.u, 1e-3)


def jet_value(c, res):
    """the wind of a well-resolved jet"""
    g = c.bt.Grid(res)
    a = c.real("a", -100, 100)
    m = c.pick("m", [0., 30., -40.])
    s = c.pick("s", [25., 35.])
    st = c.bt.init.gaussian_jet(g, 0., a, m, s)
    c.close("u", st.u, [[x] * g.nlon for x in bell(c, res, a, m, s)], 100. * (0.03 if res > 10. else 0.015))


def profile(c, res, kind):
    g = c.bt.Grid(res)
    n = g.nlat
    t = time(c)
    if kind == "pv":
        p = c.array("p", (n,), -50, 50)
        sp = c.snapshot(p)
        st = c.bt.init.zonally_symmetric(g, t, pv=p)
        ref = c.bt.State(g, t, pv=c.np.array([[p[j]] * g.nlon for j in range(n)]))
        c.close("pv", st.pv, ref.pv, 1e-4)
        got = st.pv
    else:
        p = c.array("p", (n,), -50, 50)
        sp = c.snapshot(p)
        st = c.bt.init.zonally_symmetric(g, t, u=p)
        ref = wind(c, g, list(p))
        c.close("v", st.v, c.np.zeros(g.shape), 1e-2)
        c.close("u", st.u, ref.u, 5e-3)
        got = st.u
    c.check("grid", st.grid is g)
    c.close("time", st.time, t, 1e-12)
    # the same at every longitude
    c.close("symmetric", got, [[got[j, 0]] * g.nlon for j in range(n)], 5e-3)
    c.unchanged("profile", p, sp)
    c.observe("got", got, 1e-3)
    # profiles of the truncation are reproduced exactly: combinations of cos(lat) P(sin(lat)) for wind, P(sin(lat)) for PV
    K = n - 2 if kind == "pv" else n - 3
    a = [c.real(f"a{k}", -5, 5) for k in range(min(K, 4) + 1)]
    want = [sum(a[k] * math.sin(x * D2R) ** k for k in range(len(a))) * (1. if kind == "pv" else math.cos(x * D2R)) for x in lats(res)]
    st = c.bt.init.zonally_symmetric(g, t, **{kind: c.np.array(want)})
    c.close("exact", getattr(st, kind), [[x] * g.nlon for x in want], 1e-3)


def forms(c, kind):
    """lists and tuples are profiles as well"""
    g = c.bt.Grid(60.)
    x = [c.real(f"x{k}", -50, 50) for k in range(4)]
    ref = c.bt.init.zonally_symmetric(g, 5., **{kind: c.np.array(x)})
    for f in (list, tuple):
        st = c.bt.init.zonally_symmetric(g, 5., **{kind: f(x)})
        c.close("pv", st.pv, ref.pv, 1e-6)
    # positions of the arguments
    st = c.bt.init.zonally_symmetric(g, 5., x) if kind == "u" else c.bt.init.zonally_symmetric(g, 5., None, x)
    c.close("pv", st.pv, ref.pv, 1e-6)


def defaults(c, res):
    g = c.bt.Grid(res)
    t = time(c)
    I = c.bt.init
    for f, want in ((I.solid_body_rotation, lambda: I.solid_body_rotation(g, t, 15.)), (I.gaussian_jet, lambda: I.gaussian_jet(g, t, 20., 45., 5.)),
                    (I.held_1985, lambda: I.held_1985(g, t, 25., 30., 300.)), (I.motionless, lambda: c.bt.State(g, t, pv=g.fcor2))):
        st = f(g, t)
        c.close("default", st.pv, want().pv, 1e-12)
        c.close("time", st.time, t, 1e-12)
        c.close("time", f(g).time, 0., 0.)


def times(c):
    g = c.bt.Grid(60.)
    d = datetime.datetime(2020, 2, 29, 13, 45)
    I = c.bt.init
    p = c.array("p", (4,), -5, 5)
    for st in (I.motionless(g, d), I.solid_body_rotation(g, d), I.gaussian_jet(g, d), I.held_1985(g, time=d), I.zonally_symmetric(g, d, u=p), I.zonally_symmetric(g, d, pv=p)):
        c.check("time", st.time == d)
        c.check("grid", st.grid is g)
    # numbers stay numbers
    c.check("time", I.motionless(g, 7).time == 7)


def planet(c):
    """radius and rotation rate of the grid are used"""
    R, om = 2., 0.3
    g = c.bt.Grid(30., rsphere=R, omega=om)
    a = c.real("a", -3, 3)
    st = c.bt.init.solid_body_rotation(g, 0., a)
    c.close("u", st.u, [[a * math.cos(x * D2R)] * g.nlon for x in lats(30.)], 1e-4)
    c.close("pv", st.pv, [[(2. * om + 2. * a / R) * math.sin(x * D2R)] * g.nlon for x in lats(30.)], 1e-4)
    st = c.bt.init.motionless(g)
    c.close("pv", st.pv, [[2. * om * math.sin(x * D2R)] * g.nlon for x in lats(30.)], 1e-5)
    c.close("u", st.u, c.np.zeros(g.shape), 1e-5)
    st = c.bt.init.held_1985(g, 0., a, 0., 0.)
    c.close("u", st.u, [[a * math.cos(x * D2R)] * g.nlon for x in lats(30.)], 1e-4)


def refusals(c):
    g = c.bt.Grid(60.)
    x = c.real("x", -5, 5)
    z = c.bt.init.zonally_symmetric
    p = c.np.ones(4) * x
    c.refuses("both", lambda: z(g, 0., u=p, pv=p))
    c.refuses("neither", lambda: z(g, 0.))
    for k in ("u", "pv"):
        for n in (1, 3, 5, 6):
            c.refuses("size", lambda: z(g, 0., **{k: c.np.ones(n) * x}))
        c.refuses("field", lambda: z(g, 0., **{k: c.np.ones((4, 1)) * x}))
        c.refuses("field", lambda: z(g, 0., **{k: c.np.ones(g.shape) * x}))
        c.refuses("field", lambda: z(g, 0., **{k: c.np.ones((1, 4)) * x}))
        c.refuses("number", lambda: z(g, 0., **{k: x}))
