"""C06 Adding states superposes flow, counting planetary vorticity once."""
import datetime
from .lib import smooth

BOUNDS = ("grids 36-60 degrees (thorough also 30), radius 1, 2, Earth, rotation 0.1 to 0.5 and Earth, truncations full and reduced; every pair of vorticity "
          "fields with total wavenumbers 1..nlat-2, coefficients in [-1, 1]")
OUTSIDE = "finer grids; components of total wavenumber nlat-1 (not resolved by the grid)"


def tasks(tier):
    grids = [dict(res=45., R=2., om=0.3), dict(res=36., R=1., om=0.2, ntrunc=3)] if tier == "quick" else \
        [dict(res=45., R=2., om=0.3), dict(res=36., R=1., om=0.2, ntrunc=3), dict(res=60., R=1., om=0.5), dict(res=30., R=1., om=0.5),
         dict(res=45., R=0.5, om=0.1, legfunc="computed"), dict(res=45., R=6371.2e3, om=7.292e-5)]
    out = []
    for p in grids:
        for kind in ("wind", "vorticity"):
            for other in ("state", "array"):
                out.append(("add", dict(p, kind=kind, other=other)))
        out.append(("chain", p))
        out.append(("zero", p))
    out.append(("divergent", dict(res=45., R=2., om=0.3)))
    out.append(("refuse", {}))
    return out


def mk(c, res, R, om, **kw):
    return c.bt.Grid(res, rsphere=R, omega=om, **kw)


def nmax(g):
    return min(g.nlat - 2, g._ntrunc)


def st8(c, g, name, t):
    vs = smooth(c, g, name, nmax(g))
    if g.rsphere > 1e6:
        vs = vs * 1e-5
    return c.bt.State(g, t, pv_spectral=g.fcor2_spectral + vs), vs


def tols(g):
    return (1e-8, 1e-2) if g.rsphere > 1e6 else (1e-3, 1e-3)


def verify(c, g, r, t, vs):
    tv, tu = tols(g)
    vo = g.to_grid(vs)
    u, v = g.wind(vs, c.np.zeros(len(vs), dtype=complex))
    c.check("time", r.time == t)
    c.check("grid", r.grid is g)
    c.close("u", r.u, u, tu)
    c.close("v", r.v, v, tu)
    c.close("vorticity", r.vorticity, vo, tv)
    c.close("pv", r.pv, g.fcor2 + vo, tv)


def fields(a):
    return [a.pv, a.u, a.v, a.pv_spectral]


def add(c, kind, other, **kw):
    g = mk(c, **kw)
    t1, t2 = datetime.datetime(2021, 1, 1), 7.5
    if other == "array":
        t1, t2 = 12.5, -3.
    a, va = st8(c, g, "a", t1)
    b, vb = st8(c, g, "b", t2)
    ins = fields(a) + fields(b) + [b.vorticity, g.fcor2]
    sn = [c.snapshot(x) for x in ins]
    if kind == "wind":
        r = a.add_wind(b if other == "state" else (ins[5], ins[6]))
    else:
        r = a.add_vorticity(b if other == "state" else ins[8])
    c.check("new state", isinstance(r, c.bt.State) and r is not a and r is not b)
    verify(c, g, r, t1, va + vb)
    for x, s in zip(ins, sn):
        c.unchanged("operands", x, s)
    for x, y in zip(fields(a) + fields(b), sn):
        c.close("operand fields", x, y, 1e-12)
    c.check("operand times", a.time == t1 and b.time == t2)
    c.observe("u", r.u)


def chain(c, **kw):
    g = mk(c, **kw)
    tv, tu = tols(g)
    a, va = st8(c, g, "a", 1.)
    b, vb = st8(c, g, "b", 2.)
    w, v = a.add_wind(b), a.add_vorticity(b)
    c.close("wind = vorticity", w.pv, v.pv, tv)
    c.close("commutes", b.add_wind(a).pv, w.pv, tv)
    c.close("commutes", b.add_vorticity(a).pv, v.pv, tv)
    r = a.add_wind(b).add_vorticity(a).add_wind((b.u, b.v))
    verify(c, g, r, 1., 2. * va + 2. * vb)
    verify(c, g, a.add_vorticity(a), 1., 2. * va)
    verify(c, g, a.add_wind(a), 1., 2. * va)
    c.observe("u", r.u)


def zero(c, **kw):
    g = mk(c, **kw)
    tv, tu = tols(g)
    a, va = st8(c, g, "a", 5.)
    m = c.bt.init.motionless(g, time=9.)
    z = c.np.zeros(g.shape)
    for r in (a.add_wind(m), a.add_vorticity(m), a.add_wind((z, z)), a.add_vorticity(z)):
        verify(c, g, r, 5., va)
    for r in (m.add_wind(a), m.add_vorticity(a), m.add_wind((a.u, a.v)), m.add_vorticity(a.vorticity)):
        verify(c, g, r, 9., va)
    c.observe("u", r.u)


def divergent(c, **kw):
    """a divergent part of an added wind does not enter"""
    g = mk(c, **kw)
    a, va = st8(c, g, "a", 5.)
    vs, ds = smooth(c, g, "b", nmax(g)), smooth(c, g, "d", nmax(g))
    u, v = g.wind(vs, ds)
    verify(c, g, a.add_wind((u, v)), 5., va + vs)
    c.observe("u", a.u)


def refuse(c):
    g = c.bt.Grid(60.)
    a, va = st8(c, g, "a", 5.)
    for h in (c.bt.Grid(45.), c.bt.Grid(60., rsphere=1e6), c.bt.Grid(60., omega=1e-4), c.bt.Grid(60., ntrunc=2)):
        b = c.bt.init.motionless(h)
        c.refuses("other grid: wind", lambda: a.add_wind(b))
        c.refuses("other grid: vorticity", lambda: a.add_vorticity(b))
    f = c.np.zeros(g.shape)
    c.refuses("shape", lambda: a.add_wind((f[1:], f[1:])))
    c.refuses("shape", lambda: a.add_wind((f, f[:, 1:])))
    c.refuses("shape", lambda: a.add_wind((f[:, :1], f)))
    c.refuses("shape", lambda: a.add_vorticity(f[:, 1:]))
    c.refuses("shape", lambda: a.add_vorticity(f[:, 0]))
    c.refuses("shape", lambda: a.add_vorticity(f[:1, :]))
