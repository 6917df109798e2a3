"""C02 A model step is the documented filtered leapfrog/Euler scheme."""
import datetime
from .lib import smooth, specindex

BOUNDS = ("grids 45-60 degrees (thorough also 30-36), radius 1, 2 and Earth, truncations full and reduced; every pair of states with total wavenumbers 0..nlat-2 "
          "(coefficients in [-1, 1]), time step in [0.001, 1] and concrete time intervals up to days, diffusion coefficient in [0, 2], orders 1-4, "
          "filter parameter in [-1, 1], forcing affine in the state's PV and time; grids of different planets and truncations in turn with one model")
OUTSIDE = "finer grids; forcing that is nonlinear in the state (the scheme does not look inside it)"


def tasks(tier):
    q = tier == "quick"
    out = []
    grids = [dict(res=60., R=1., om=0.4), dict(res=45., R=2., om=0.3, ntrunc=3)] if q else \
        [dict(res=60., R=1., om=0.4), dict(res=45., R=2., om=0.3), dict(res=45., R=2., om=0.3, ntrunc=3), dict(res=36., R=1., om=0.3, ntrunc=3), dict(res=60., R=1., om=0.4, legfunc="computed")]
    for p in grids:
        for step in ("euler", "leapfrog"):
            for forced in (False, True):
                for bg in (False, True):
                    out.append(("step", dict(p, step=step, forced=forced, bg=bg, order=2 if forced else 1)))
    for step in ("euler", "leapfrog"):
        out.append(("step", dict(res=60., R=1., om=0.4, step=step, forced=True, bg=True, order=3)))
        out.append(("step", dict(res=60., R=1., om=0.4, step=step, forced=True, bg=False, order=4)))
        for i in range(4):
            out.append(("dates", dict(step=step, i=i)))
        out.append(("defaults", dict(step=step)))
    out.append(("rhs_state", {}))
    for step in ("euler", "leapfrog"):
        out += [("timedeltas", dict(step=step, i=i)) for i in range(len(DELTAS))]
    out += [("several_grids", dict(bg=b, order=o)) for b, o in ((True, 1), (True, 2), (False, 2))]
    return out


def nmax(g):
    return min(g.nlat - 2, g._ntrunc)


def reference(g, base, tend, dts, bg, k, order):
    """damped (base + dts*tend)"""
    x = base + dts * tend
    R = g.rsphere
    out = x * 0.
    for i, (m, n) in enumerate(specindex(g._ntrunc)):
        b = 0. if bg is None else bg[i]
        out[i] = b + (x[i] - b) / (1. + dts * k * (n * (n + 1) / R / R) ** order)
    return out


def tendency(c, g, s, time, rhs):
    st = c.bt.State(g, time, pv_spectral=s * 1.)
    t = -g.divergence_spectral(st.pv * st.u, st.pv * st.v)
    return t if rhs is None else t + g.to_spectral(rhs(st))


def step(c, res, R, om, step, forced, bg, order, **kw):
    g = c.bt.Grid(res, rsphere=R, omega=om, **kw)
    s = smooth(c, g, "Mq", nmax(g))
    dt, k = c.real("dt", 0.001, 1), c.real("k", 0, 2)
    t0 = c.real("t0", -100, 100)
    if forced:
        A, B, G = c.real("A", -1, 1), c.real("B", -1, 1), g.to_grid(smooth(c, g, "MF", 2))
        rhs = lambda st: G + A * st.pv + B * st.time
    else:
        rhs = None
    bs = smooth(c, g, "Mb", 2) if bg else None
    model = c.bt.BarotropicModel(rhs=rhs, diffusion_order=order, diffusion_coeff=k, diffusion_bg=g.to_grid(bs) if bg else None)
    now = c.bt.State(g, t0 + (dt if step == "leapfrog" else 0.), pv_spectral=s)
    snaps = [(now.pv_spectral, c.snapshot(now.pv_spectral), "now")]
    if step == "leapfrog":
        so = smooth(c, g, "Mo", nmax(g))
        old = c.bt.State(g, t0, pv_spectral=so)
        snaps.append((old.pv_spectral, c.snapshot(old.pv_spectral), "old"))
        a = c.real("a", -1, 1)
        flt, new = model.leapfrog(old, now, filter_parameter=a)
        want = reference(g, so, tendency(c, g, s, t0 + dt, rhs), 2 * dt, bs, k, order)
        c.close("new pv", new.pv_spectral, want, 1e-3)
        c.close("new time", new.time, t0 + 2 * dt, 1e-6)
        c.close("filtered time", flt.time, t0 + dt, 1e-6)
        c.close("filtered pv", flt.pv_spectral, (1 - 2 * a) * s + a * (so + new.pv_spectral), 1e-4)
        c.check("grids", new.grid is g and flt.grid is g)
        c.check("times kept", c.and_(old.time == t0, now.time == t0 + dt))
        c.close("filtered gridded", flt.pv, g.to_grid(flt.pv_spectral), 1e-4)
        c.observe("flt", flt.pv_spectral)
    else:
        new = model.euler(now, dt)
        c.close("new pv", new.pv_spectral, reference(g, s, tendency(c, g, s, t0, rhs), dt, bs, k, order), 1e-3)
        c.close("new time", new.time, t0 + dt, 1e-6)
        c.check("grids", new.grid is g)
        c.check("times kept", now.time == t0)
    c.close("new gridded", new.pv, g.to_grid(new.pv_spectral), 1e-4)
    for x, sn, lab in snaps:
        c.unchanged("input states", x, sn)
    c.close("now still the same", now.pv, g.to_grid(s), 1e-6)
    c.observe("new", new.pv_spectral)


DATES = [(datetime.datetime(2020, 2, 28, 23, 59, 59), datetime.timedelta(seconds=900)),
         (datetime.datetime(1999, 12, 31), datetime.timedelta(days=1, seconds=1, microseconds=500000)),
         (datetime.datetime(2021, 6, 1, 1), datetime.timedelta(microseconds=250000)),
         (datetime.datetime(2000, 1, 1), datetime.timedelta(hours=-6))]


def dates(c, step, i):
    """datetime times, realistic magnitudes"""
    t0, dt = DATES[i]
    dts = dt.days * 86400 + dt.seconds + dt.microseconds / 1e6
    g = c.bt.Grid(60.)
    k = 1e15 if dts > 0 else 0.
    s = g.fcor2_spectral + smooth(c, g, "q", nmax(g)) * 1e-5
    model = c.bt.BarotropicModel(diffusion_coeff=k)
    now = c.bt.State(g, t0, pv_spectral=s)
    if step == "euler":
        new = model.euler(now, dt)
        want = reference(g, s, tendency(c, g, s, t0, None), dts, None, k, 2)
    else:
        so = g.fcor2_spectral + smooth(c, g, "o", nmax(g)) * 1e-5
        old = c.bt.State(g, t0 - dt, pv_spectral=so)
        flt, new = model.leapfrog(old, now)
        want = reference(g, so, tendency(c, g, s, t0, None), 2 * dts, None, k, 2)
        c.check("filtered time", flt.time == t0)
        c.check("old time", old.time == t0 - dt)
        c.close("filtered", flt.pv_spectral * 1e5, (0.6 * s + 0.2 * (so + new.pv_spectral)) * 1e5, 1e-3)
    c.check("new time", new.time == t0 + dt)
    c.check("now time", now.time == t0)
    c.close("new pv", new.pv_spectral * 1e5, want * 1e5, 1e-3)
    c.observe("new", new.pv_spectral)


def defaults(c, step):
    """documented default order, coefficient and filter parameter; gridded state; Earth"""
    g = c.bt.Grid(60.)
    s = g.fcor2_spectral + smooth(c, g, "q", nmax(g)) * 1e-5
    pv = g.to_grid(s)
    now = c.bt.State(g, 900., pv=pv)
    sn = c.snapshot(pv)
    model = c.bt.BarotropicModel()
    if step == "euler":
        new = model.euler(now, 900.)
        want = reference(g, s, tendency(c, g, s, 0., None), 900., None, 1e15, 2)
    else:
        so = g.fcor2_spectral + smooth(c, g, "o", nmax(g)) * 1e-5
        flt, new = model.leapfrog(c.bt.State(g, 300., pv=g.to_grid(so)), now)
        want = reference(g, so, tendency(c, g, s, 0., None), 1200., None, 1e15, 2)
        c.close("filtered", flt.pv_spectral * 1e5, (0.6 * s + 0.2 * (so + new.pv_spectral)) * 1e5, 1e-3)
    c.close("new pv", new.pv_spectral * 1e5, want * 1e5, 1e-3)
    c.close("time", new.time, 1800. if step == "euler" else 1500., 1e-6)
    c.unchanged("input", pv, sn)
    c.observe("new", new.pv_spectral)


def rhs_state(c):
    """the forcing sees exactly the current state"""
    g = c.bt.Grid(60., rsphere=1., omega=0.3)
    s, so = smooth(c, g, "Mq", 1), smooth(c, g, "Mo", 1)
    seen = []

    def rhs(st):
        seen.append(st)
        return st.pv * 0.
    model = c.bt.BarotropicModel(rhs, diffusion_coeff=0.)
    old, now = c.bt.State(g, 1., pv_spectral=so), c.bt.State(g, 1.5, pv_spectral=s)
    model.euler(now, 0.5)
    model.leapfrog(old, now)
    c.check("evaluated", len(seen) >= 2)
    for st in seen:
        c.check("time of the state", st.time == 1.5)
        c.close("pv of the state", st.pv_spectral, s, 1e-6)
    c.observe("s", s)


DELTAS = [datetime.timedelta(microseconds=250000), datetime.timedelta(seconds=1, microseconds=500000), datetime.timedelta(seconds=-1, microseconds=250000),
          datetime.timedelta(days=1, seconds=1), datetime.timedelta(microseconds=7), datetime.timedelta(days=-2, hours=5, milliseconds=3)]


def timedeltas(c, step, i):
    """every part of a time step given as timedelta counts (steps of the order of the time scale of the forcing)"""
    dt = DELTAS[i]
    dts = dt.days * 86400 + dt.seconds + dt.microseconds / 1e6
    g = c.bt.Grid(60., rsphere=1., omega=0.)
    t0 = datetime.datetime(2021, 12, 31, 23, 59, 58)
    f = smooth(c, g, "MF", 2)
    fg = g.to_grid(f) / dts
    m = c.bt.BarotropicModel(rhs=lambda s: fg, diffusion_coeff=0.)
    zero = c.np.zeros(g.shape)
    now = c.bt.State(g, t0, pv=zero)
    if step == "euler":
        new = m.euler(now, dt)
        c.close("pv", new.pv_spectral, f, 1e-4)
    else:
        flt, new = m.leapfrog(c.bt.State(g, t0 - dt, pv=zero), now)
        c.close("pv", new.pv_spectral, 2 * f, 1e-4)
        c.check("filtered time", flt.time == t0)
    c.check("time", new.time == t0 + dt)
    # damping
    k = c.real("k", 0, 2)
    m = c.bt.BarotropicModel(rhs=lambda s: fg, diffusion_coeff=k / abs(dts), diffusion_order=1)
    if dts > 0:
        if step == "euler":
            new = m.euler(now, dt)
            c.close("damped", new.pv_spectral, reference(g, c.np.zeros(f.shape, dtype=complex), f, 1., None, k, 1), 1e-3)
        else:
            new = m.leapfrog(c.bt.State(g, t0 - dt, pv=zero), now)[1]
            c.close("damped", new.pv_spectral, reference(g, c.np.zeros(f.shape, dtype=complex), f, 2., None, k, 1), 1e-3)


def several_grids(c, bg, order):
    """one model, states on grids of different planets and truncations in turn"""
    grids = [c.bt.Grid(45., rsphere=1., omega=0.3), c.bt.Grid(45., rsphere=1., omega=0.3, ntrunc=2), c.bt.Grid(45., rsphere=2., omega=0.3), c.bt.Grid(45., rsphere=1., omega=0.1)]
    k = c.real("k", 0, 2)
    b = c.real("b", -1, 1)
    bgf = c.np.array([[b * (j - 2.) + 0.25 * (i % 3) for i in range(8)] for j in range(5)])
    rhs = lambda st: 0.5 * st.pv
    m = c.bt.BarotropicModel(rhs, diffusion_order=order, diffusion_coeff=k, diffusion_bg=bgf if bg else None)
    for r, n in enumerate((0, 1, 2, 0, 3, 1)):
        g = grids[n]
        s = g.fcor2_spectral + smooth(c, g, "q", 2)
        now = c.bt.State(g, 1. * r, pv_spectral=s)
        new = m.euler(now, 0.25)
        want = reference(g, s, tendency(c, g, s, 0., rhs), 0.25, g.to_spectral(bgf) if bg else None, k, order)
        c.close("pv", new.pv_spectral, want, 1e-3)
    c.observe("new", new.pv_spectral)
