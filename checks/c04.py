"""C04 The dynamics conserve what they must and diffusion only damps."""
from .lib import smooth, specindex

BOUNDS = ("grids 36-60 degrees (thorough also 30), radius 1, 2 and Earth, truncations full and reduced; one Euler and one leapfrog step from every pair of states with total "
          "wavenumbers 0..nlat-2 (conservation) and every pair of zonally symmetric states (steadiness), time step in [0.001, 2], diffusion coefficient in [0, 10], orders 1-4")
OUTSIDE = "finer grids; the steps are shown from arbitrary states, so longer histories follow by induction (up to rounding)"


def tasks(tier):
    q = tier == "quick"
    grids = [dict(res=60., R=1., om=0.4), dict(res=45., R=2., om=0.3, ntrunc=3)] if q else \
        [dict(res=60., R=1., om=0.4), dict(res=45., R=2., om=0.3), dict(res=45., R=2., om=0.3, ntrunc=3), dict(res=36., R=1., om=0.5, ntrunc=4), dict(res=30., R=2., om=0.5, ntrunc=3)]
    out = []
    for p in grids:
        for step in ("euler", "leapfrog"):
            out.append(("mean", dict(p, step=step)))
            out.append(("zonal", dict(p, step=step)))
        for order in (1, 2, 3) if q else (1, 2, 3, 4, 5):
            out.append(("damping", dict(p, order=order)))
        out.append(("background", dict(p, order=2)))
        out.append(("gridded", dict(p, order=2)))
    for step in ("euler", "leapfrog"):
        out.append(("zonal", dict(res=36., R=1., om=0.5, step=step)))
        out.append(("earth", dict(step=step)))
    return out


def mk(c, res, R, om, **kw):
    return c.bt.Grid(res, rsphere=R, omega=om, **kw)


def nmax(g):
    return min(g.nlat - 2, g._ntrunc)


def mean(c, step, **kw):
    g = mk(c, **kw)
    s = smooth(c, g, "Mq", nmax(g))
    dt, k = c.real("dt", 0.001, 2), c.real("k", 0, 10)
    b = g.to_grid(smooth(c, g, "Mb", 2))
    now = c.bt.State(g, dt, pv_spectral=s)
    for model in (c.bt.BarotropicModel(diffusion_coeff=k), c.bt.BarotropicModel(diffusion_coeff=k, diffusion_order=1, diffusion_bg=b)):
        if step == "euler":
            new = model.euler(now, dt)
        else:
            so = smooth(c, g, "Mo", nmax(g))
            so[0] = s[0]
            flt, new = model.leapfrog(c.bt.State(g, 0., pv_spectral=so), now)
            c.close("filtered mean", flt.pv_spectral[0], s[0], 1e-4)
        c.close("global mean", new.pv_spectral[0], s[0], 1e-4)
    c.observe("m", new.pv_spectral[0])


def zonal(c, step, **kw):
    """zonally symmetric flow without diffusion, and at the reference of a linear relaxation"""
    g = mk(c, **kw)
    s = smooth(c, g, "Mq", nmax(g), mmax=0)
    dt, rate = c.real("dt", 0.001, 2), c.real("rate", 0, 1)
    now = c.bt.State(g, dt, pv_spectral=s)
    for model, label in ((c.bt.BarotropicModel(diffusion_coeff=0.), "steady"),
                         (c.bt.BarotropicModel(c.bt.rhs.LinearRelaxation(rate, now.pv), diffusion_coeff=0.), "relaxed")):
        if step == "euler":
            new = model.euler(now, dt)
        else:
            flt, new = model.leapfrog(c.bt.State(g, 0., pv_spectral=s * 1.), now)
            c.close(f"{label}: filtered", flt.pv_spectral, s, 1e-4)
        c.close(label, new.pv_spectral, s, 1e-4)
        c.close(f"{label}: gridded", new.pv, now.pv, 1e-3)
    c.observe("new", new.pv_spectral)


def damping(c, order, **kw):
    g = mk(c, **kw)
    dt, k = c.real("dt", 0, 10), c.real("k", 0, 10)
    idx = specindex(g._ntrunc)
    f = c.np.ones(len(idx), dtype=complex)
    d = g.solve_diffusion_spectral(f, coeff=k, dt=dt, order=order)
    re, im = d.real, d.imag
    c.close("real factors", im, 0. * im, 1e-9)
    c.close("mean kept", re[0], 1., 1e-6)
    by = {}
    for i, (m, n) in enumerate(idx):
        by.setdefault(n, []).append(re[i])
    for n in by:
        for x in by[n]:
            c.le("not amplified", x, 1., 1e-6)
            c.le("sign kept", 0., x, 1e-6)
            if n:
                c.le("larger wavenumbers are damped at least as much", x, by[n - 1][0], 1e-6)
        for x in by[n][1:]:
            c.close("independent of the zonal wavenumber", x, by[n][0], 1e-6)
    s = smooth(c, g, "Mq", 99)
    out = g.solve_diffusion_spectral(s, coeff=k, dt=dt, order=order)
    c.close("componentwise", out, [x * y for x, y in zip(s, re)], 1e-4)
    # one model step without dynamics: the same factors applied (motionless planet without rotation)
    h = c.bt.Grid(kw["res"], rsphere=kw["R"], omega=0., ntrunc=kw.get("ntrunc"))
    s = smooth(c, h, "Mz", 2, mmax=0)
    dt2 = c.real("dt2", 0.001, 2)
    new = c.bt.BarotropicModel(diffusion_coeff=k, diffusion_order=order).euler(c.bt.State(h, 0., pv_spectral=s), dt2)
    want = h.solve_diffusion_spectral(s, coeff=k, dt=dt2, order=order)
    c.close("in the model", new.pv_spectral, want, 1e-4)
    c.observe("d", d)


def gridded(c, order, **kw):
    g = mk(c, **kw)
    s = smooth(c, g, "Mq", nmax(g))
    for k, dt in ((0.2, 1.), (10., 5.), (0., 1.), (1., 0.)):
        x = g.to_spectral(g.solve_diffusion(g.to_grid(s), k, dt, order))
        c.close("mean kept", x[0], s[0], 1e-4)
        for i in range(1, len(s)):
            fac = 1. / (1. + k * dt * (specindex(g._ntrunc)[i][1] * (specindex(g._ntrunc)[i][1] + 1) / g.rsphere ** 2) ** order)
            c.close("damped", x[i], s[i] * fac, 1e-4)
    c.observe("x", x)


def background(c, order, **kw):
    g = mk(c, **kw)
    b = smooth(c, g, "Mb", nmax(g), mmax=0)
    bg = g.to_grid(b)
    sn = c.snapshot(bg)
    dt, k = c.real("dt", 0.001, 2), c.real("k", 0, 10)
    for o in (1, order):
        model = c.bt.BarotropicModel(diffusion_coeff=k, diffusion_order=o, diffusion_bg=bg)
        now = c.bt.State(g, dt, pv_spectral=b)
        new = model.euler(now, dt)
        c.close("background kept", new.pv_spectral, b, 1e-4)
        flt, new = model.leapfrog(c.bt.State(g, 0., pv_spectral=b * 1.), now)
        c.close("background kept", new.pv_spectral, b, 1e-4)
        c.close("background kept", flt.pv_spectral, b, 1e-4)
    c.unchanged("background field", bg, sn)
    c.observe("new", new.pv_spectral)


def earth(c, step):
    """default model and planet: mean and zonal flow over realistic steps"""
    g = c.bt.Grid(60.)
    s = g.fcor2_spectral + smooth(c, g, "Mq", nmax(g)) * 1e-5
    z = g.fcor2_spectral + smooth(c, g, "Mz", nmax(g), mmax=0) * 1e-5
    for x, model in ((s, c.bt.BarotropicModel()), (z, c.bt.BarotropicModel(diffusion_coeff=0.))):
        now = c.bt.State(g, 900., pv_spectral=x)
        if step == "euler":
            new = model.euler(now, 900.)
        else:
            flt, new = model.leapfrog(c.bt.State(g, 0., pv_spectral=x * 1.), now)
        c.close("global mean", new.pv_spectral[0] * 1e5, x[0] * 1e5, 1e-3)
    c.close("steady", new.pv_spectral * 1e5, z * 1e5, 1e-3)
    c.observe("new", new.pv_spectral)
