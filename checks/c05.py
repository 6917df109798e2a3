"""C05 All descriptions and derived fields of a state agree."""
import datetime
from .lib import smooth

BOUNDS = ("grids 30-60 degrees, radius 1, 2, Earth, rotation 0 to 0.5 and Earth, truncations full and reduced, both legfunc settings; "
          "every vorticity field with total wavenumbers 1..nlat-2, coefficients in [-1, 1]; 6 orders of field access")
OUTSIDE = "finer grids; components of total wavenumber nlat-1 (not resolved by the grid)"

FIELDS = ["pv", "avo", "vorticity", "vo", "u", "v", "streamfunction", "pv_spectral", "vorticity_spectral", "enstrophy",
          "eddy_enstrophy", "energy", "pv_flux_spectral"]


def tasks(tier):
    q = tier == "quick"
    grids = [dict(res=45., R=2., om=0.3), dict(res=60., R=1., om=0.5), dict(res=36., R=1., om=0.2, ntrunc=3)] if q else \
        [dict(res=45., R=2., om=0.3), dict(res=60., R=1., om=0.5), dict(res=36., R=1., om=0.2, ntrunc=3), dict(res=30., R=1., om=0.5, ntrunc=4),
         dict(res=45., R=0.5, om=0.1, legfunc="computed"), dict(res=36., R=1., om=0.), dict(res=30., R=1., om=0.4)]
    out = []
    for p in grids:
        for how in ("pv", "vorticity", "wind", "pv_spectral"):
            out.append(("build", dict(p, how=how)))
        out.append(("derived", p))
    for i in range(6 if q else 12):
        out.append(("order", dict(res=60., R=1., om=0.5, seed=i)))
    out.append(("sym_planet", dict(res=45.)))
    out.append(("earth", dict(res=45.)))
    out.append(("zonal_flow", dict(res=45.)))
    out.append(("refuse", {}))
    return out


def mk(c, res, R, om, **kw):
    return c.bt.Grid(res, rsphere=R, omega=om, **kw)


def nmax(g):
    return min(g.nlat - 2, g._ntrunc)


def make(c, g, how, t, vs):
    """the state with relative vorticity vs; returns state, arrays it was built from"""
    z = c.np.zeros(len(vs), dtype=complex)
    if how == "pv_spectral":
        a = g.fcor2_spectral + vs
        return c.bt.State(g, t, pv_spectral=a), [a]
    if how == "wind":
        u, v = g.wind(vs, z)
        return c.bt.State.from_wind(g, t, u, v), [u, v]
    vo = g.to_grid(vs)
    if how == "vorticity":
        return c.bt.State.from_vorticity(g, t, vo), [vo]
    pv = g.fcor2 + vo
    return c.bt.State(g, t, pv=pv), [pv]


def build(c, how, **kw):
    g = mk(c, **kw)
    vs = smooth(c, g, "v", nmax(g))
    t = c.real("t", -1e6, 1e6)
    st, ins = make(c, g, how, t, vs)
    sn = [c.snapshot(x) for x in ins]
    f0 = c.snapshot(g.fcor2)
    vo = g.to_grid(vs)
    z = c.np.zeros(len(vs), dtype=complex)
    u, v = g.wind(vs, z)
    c.check("time", st.time == t)
    c.check("grid", st.grid is g)
    c.close("pv", st.pv, g.fcor2 + vo, 1e-3)
    c.close("avo", st.avo, g.fcor2 + vo, 1e-3)
    c.close("vorticity", st.vorticity, vo, 1e-3)
    c.close("vo", st.vo, vo, 1e-3)
    c.close("pv_spectral", st.pv_spectral, g.fcor2_spectral + vs, 1e-3)
    c.close("vorticity_spectral", st.vorticity_spectral, vs, 1e-3)
    c.close("u", st.u, u, 1e-3)
    c.close("v", st.v, v, 1e-3)
    c.close("curl of wind", g.vorticity(st.u, st.v), vo, 1e-3)
    c.close("no divergence", g.divergence(st.u, st.v), c.np.zeros(g.shape), 1e-3)
    psi = st.streamfunction
    c.close("laplace of streamfunction", g.laplace(psi), vo, 1e-3)
    c.close("streamfunction has no mean", g.to_spectral(psi)[0], 0., 1e-3)
    gx, gy = g.gradient(psi)
    c.close("u from streamfunction", -gy, u, 1e-3)
    c.close("v from streamfunction", gx, v, 1e-3)
    for x, s in zip(ins, sn):
        c.unchanged("input", x, s)
    c.unchanged("fcor2", g.fcor2, f0)
    c.observe("u", st.u)


def derived(c, **kw):
    g = mk(c, **kw)
    vs = smooth(c, g, "v", nmax(g))
    st = c.bt.State(g, 0., pv_spectral=g.fcor2_spectral + vs)
    pv, u, v = st.pv, st.u, st.v
    sn = [c.snapshot(x) for x in (pv, u, v, st.pv_spectral)]
    c.close("enstrophy", st.enstrophy, 0.5 * pv * pv, 1e-4)
    n = g.nlon
    zm = c.np.zeros(g.shape)
    for j in range(g.nlat):
        zm[j, :] = sum(list(pv[j, :])) / n
    c.close("eddy_enstrophy", st.eddy_enstrophy, 0.5 * (pv - zm) * (pv - zm), 1e-4)
    c.close("energy", st.energy, 0.5 * (u * u + v * v), 1e-4)
    c.close("pv_flux_spectral", st.pv_flux_spectral, g.divergence_spectral(pv * u, pv * v), 1e-3)
    c.check("shapes", st.enstrophy.shape == g.shape and st.eddy_enstrophy.shape == g.shape and st.energy.shape == g.shape)
    for x, s in zip((st.pv, st.u, st.v, st.pv_spectral), sn):
        c.unchanged("state", x, s)
    c.observe("energy", st.energy)


def order(c, res, R, om, seed):
    """any order of access, twice, gives the same fields"""
    import random
    g = mk(c, res, R, om)
    vs = smooth(c, g, "v", nmax(g))
    names = list(FIELDS)
    ref = {}
    hows = ("pv", "vorticity", "wind", "pv_spectral")
    for f in names:               # each field from its own fresh state
        ref[f] = getattr(make(c, g, hows[seed % 4], 0., vs)[0], f)
    random.Random(seed).shuffle(names)
    st, ins = make(c, g, hows[seed % 4], 0., vs)
    sn = [c.snapshot(x) for x in ins]
    got = []
    for f in names + names[::-1]:
        x = getattr(st, f)
        c.close(f, x, ref[f], 1e-4)
        got.append((f, x, c.snapshot(x)))
    for f, x, s in got:
        c.unchanged("earlier result", x, s)
    for x, s in zip(ins, sn):
        c.unchanged("input", x, s)
    c.observe("last", x)


def sym_planet(c, res):
    """radius and rotation arbitrary"""
    R, om = c.real("R", 0.5, 3), c.real("om", 0, 1)
    g = c.bt.Grid(res, rsphere=R, omega=om)
    vs = smooth(c, g, "v", nmax(g))
    vo = g.to_grid(vs)
    u, v = g.wind(vs, c.np.zeros(len(vs), dtype=complex))
    a, b = c.bt.State.from_vorticity(g, 0., vo), c.bt.State.from_wind(g, 0., u, v)
    for st in (a, b):
        c.close("pv", st.pv, g.coriolis(g.lat2) + vo, 1e-3)
        c.close("u", st.u, u, 1e-3)
        c.close("v", st.v, v, 1e-3)
        c.close("laplace of streamfunction", g.laplace(st.streamfunction), vo, 1e-3)
    c.observe("u", a.u)


def earth(c, res):
    """realistic magnitudes, datetime"""
    g = c.bt.Grid(res)
    t = datetime.datetime(2020, 2, 29, 12)
    vs = smooth(c, g, "v", nmax(g), amp=1e-5)
    vo = g.to_grid(vs)
    u, v = g.wind(vs, c.np.zeros(len(vs), dtype=complex))
    for st in (c.bt.State.from_vorticity(g, t, vo), c.bt.State.from_wind(g, t, u, v), c.bt.State(g, t, pv=g.fcor2 + vo)):
        c.check("time", st.time == t)
        c.close("pv", st.pv, g.fcor2 + vo, 1e-8)
        c.close("vorticity", st.vorticity, vo, 1e-8)
        c.close("u", st.u, u, 1e-2)
        c.close("v", st.v, v, 1e-2)
        c.close("energy", st.energy, 0.5 * (st.u * st.u + st.v * st.v), 1e-2)
        c.close("streamfunction", g.laplace(st.streamfunction), vo, 1e-8)
    c.observe("u", u)


def zonal_flow(c, res):
    """solid body rotation in closed form: signs and factors"""
    import math
    R, om = 2., 0.25
    g = c.bt.Grid(res, rsphere=R, omega=om)
    a = c.real("a", -1, 1)
    s = c.const([[math.sin((90. - res * j) * math.pi / 180)] * g.nlon for j in range(g.nlat)])
    co = c.const([[math.cos((90. - res * j) * math.pi / 180)] * g.nlon for j in range(g.nlat)])
    for st in (c.bt.State(g, 1., pv=2 * om * s + 2 * a * s / R), c.bt.State.from_vorticity(g, 1., 2 * a * s / R),
               c.bt.State.from_wind(g, 1., a * co, 0. * co)):
        c.close("u", st.u, a * co, 1e-4)
        c.close("v", st.v, 0. * co, 1e-4)
        c.close("pv", st.pv, (2 * om + 2 * a / R) * s, 1e-4)
        c.close("streamfunction", st.streamfunction, -a * R * s, 1e-4)
        c.close("energy", st.energy, 0.5 * a * a * co * co, 1e-4)
        c.close("enstrophy", st.enstrophy, 0.5 * (2 * om + 2 * a / R) ** 2 * s * s, 1e-4)
        c.close("eddy_enstrophy", st.eddy_enstrophy, 0. * s, 1e-4)
        c.close("pv flux", st.pv_flux_spectral, c.np.zeros(len(st.pv_spectral)), 1e-3)
    c.observe("u", st.u)


def refuse(c):
    g = c.bt.Grid(60.)
    s = smooth(c, g, "v", 2)
    c.refuses("pv and pv_spectral", lambda: c.bt.State(g, 0., pv=g.to_grid(s), pv_spectral=s))
