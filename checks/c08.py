"""C08 Vorticity, divergence, wind and gradient are mutually consistent."""
import math
from .lib import D2R, lats, lons, smooth, specindex

BOUNDS = ("grids 30-60 degrees (thorough 20-60), radius 1, 2, 0.5, Earth and symbolic in [0.5, 3], truncations full and reduced, both legfunc settings; "
          "every field with total wavenumbers 1..nlat-2 (0..nlat-2 for scalars), coefficients in [-1, 1]")
OUTSIDE = "finer grids; components of total wavenumber nlat-1 (not resolved by the grid)"
ER = 6371.2e3


def tasks(tier):
    grids = [dict(res=45., R=2.), dict(res=30., R=1., ntrunc=4), dict(res=45., R="sym", legfunc="computed")] if tier == "quick" else \
        [dict(res=60., R=1.), dict(res=45., R=2.), dict(res=30., R=0.5), dict(res=30., R=1., ntrunc=4), dict(res=36., R=1.),
         dict(res=30., R=3., legfunc="computed"), dict(res=20., R=1.), dict(res=22.5, R=3., ntrunc=5), dict(res=45., R="sym"), dict(res=30., R="sym"), dict(res=30., R=ER)]
    out = []
    for p in grids:
        out += [("wind", p), ("gradient", p), ("transforms", p), ("signs", p)]
    out.append(("signs", dict(res=45., R=ER)))
    return out


def mk(c, res, R=1., ntrunc=None, legfunc="stored"):
    return c.bt.Grid(res, rsphere=c.real("R", 0.5, 3) if R == "sym" else R, ntrunc=ntrunc, legfunc=legfunc)


def nmax(g):
    return g.nlat - 2


def wind(c, res, **kw):
    g = mk(c, res, **kw)
    vs, ds = smooth(c, g, "v", nmax(g)), smooth(c, g, "d", nmax(g))
    vo, di = g.to_grid(vs), g.to_grid(ds)
    sn = [c.snapshot(x) for x in (vs, ds, vo, di)]
    u, v = g.wind(vs, ds)
    c.check("shape", u.shape == g.shape and v.shape == g.shape)
    for label, (a, b) in (("gridded", (vo, di)), ("mixed", (vs, di)), ("mixed", (vo, ds))):
        u1, v1 = g.wind(a, b)
        c.close(f"u from {label}", u1, u, 1e-3)
        c.close(f"v from {label}", v1, v, 1e-3)
    su, sv = c.snapshot(u), c.snapshot(v)
    c.close("vorticity", g.vorticity(u, v), vo, 1e-3)
    c.close("divergence", g.divergence(u, v), di, 1e-3)
    c.close("vorticity_spectral", g.vorticity_spectral(u, v), vs, 1e-3)
    c.close("divergence_spectral", g.divergence_spectral(u, v), ds, 1e-3)
    a, b = g.vorticity_divergence(u, v)
    c.close("vorticity_divergence[0]", a, vo, 1e-3)
    c.close("vorticity_divergence[1]", b, di, 1e-3)
    a, b = g.vorticity_divergence_spectral(u, v)
    c.close("vorticity_divergence_spectral[0]", a, vs, 1e-3)
    c.close("vorticity_divergence_spectral[1]", b, ds, 1e-3)
    for x, s in zip((vs, ds, vo, di, u, v), sn + [su, sv]):
        c.unchanged("input", x, s)
    # scaling with the radius: the same vorticity and divergence on the unit sphere
    u1, v1 = c.bt.Grid(res, rsphere=1., **{k: x for k, x in kw.items() if k != "R"}).wind(vs, ds)
    c.close("u scales", u, u1 * g.rsphere, 1e-3)
    c.close("v scales", v, v1 * g.rsphere, 1e-3)
    c.observe("u", u)


def gradient(c, res, **kw):
    g = mk(c, res, **kw)
    s = smooth(c, g, "Mf", nmax(g))
    f = g.to_grid(s)
    sn = c.snapshot(f)
    gx, gy = g.gradient(f)
    k = g.rsphere * g.rsphere
    big = kw["R"] == ER
    c.close("curl-free", g.vorticity(gx, gy) * k if big else g.vorticity(gx, gy), c.np.zeros(g.shape), 1e-3)
    c.close("divergence is laplace", g.divergence(gx, gy) * k if big else g.divergence(gx, gy), g.laplace(f) * k if big else g.laplace(f), 1e-2)
    # divergent wind of the velocity potential f
    u, v = g.wind(c.np.zeros(len(s), dtype=complex), g.laplace_spectral(s))
    c.close("zonal", gx * g.rsphere, u * g.rsphere, 1e-3)
    c.close("meridional", gy * g.rsphere, v * g.rsphere, 1e-3)
    # scalar fields have no curl: rotated gradient is the wind of the streamfunction
    u, v = g.wind(g.laplace_spectral(s), c.np.zeros(len(s), dtype=complex))
    c.close("u = -dpsi/dy", u * g.rsphere, -gy * g.rsphere, 1e-3)
    c.close("v = dpsi/dx", v * g.rsphere, gx * g.rsphere, 1e-3)
    c.unchanged("input", f, sn)
    c.observe("gx", gx * g.rsphere)


def transforms(c, res, **kw):
    g = mk(c, res, **kw)
    full = c.bt.Grid(res)
    s = smooth(c, full, "Mf", nmax(full))
    f = full.to_grid(s)
    sn = c.snapshot(f)
    T = g._ntrunc
    t = g.to_spectral(f)
    c.check("number of coefficients", len(t) == (T + 1) * (T + 2) // 2)
    where = {mn: i for i, mn in enumerate(specindex(full._ntrunc))}
    want = [s[where[mn]] for mn in specindex(T)]
    c.close("to_spectral(to_grid)", t, want, 1e-4)
    keep = c.np.zeros(len(s), dtype=complex)
    for mn in specindex(T):
        keep[where[mn]] = s[where[mn]]
    c.check("shape", g.to_grid(t).shape == g.shape)
    c.close("to_grid(to_spectral)", g.to_grid(t), full.to_grid(keep), 1e-4)
    c.unchanged("input", f, sn)
    h = c.array("h", g.shape, -1, 1)
    p = g.to_grid(g.to_spectral(h))
    c.close("linear", g.to_spectral(2. * h - f), 2. * g.to_spectral(h) - t, 1e-4)
    c.observe("p", p)


def signs(c, res, **kw):
    """harmonics of total wavenumber 1 (and one of 2) in closed form"""
    g = mk(c, res, **kw)
    r = g.rsphere
    a, b, d, e = [c.real(x, -1, 1) for x in "abde"]
    sp = c.const([[math.sin(y * D2R)] * g.nlon for y in lats(res)])
    cp = c.const([[math.cos(y * D2R)] * g.nlon for y in lats(res)])
    sl = c.const([[math.sin(x * D2R) for x in lons(res)]] * g.nlat)
    cl = c.const([[math.cos(x * D2R) for x in lons(res)]] * g.nlat)
    h = a * sp + b * cp * cl + d * cp * sl
    hx = -b * sl + d * cl                                # 1/cos dh/dlam
    hy = a * cp - b * sp * cl - d * sp * sl             # dh/dphi
    h2 = e * sp * cp * cl
    h2x, h2y = -e * sp * sl, e * (cp * cp - sp * sp) * cl
    gx, gy = g.gradient(h + h2)
    c.close("gradient zonal", gx * r, hx + h2x, 1e-3)
    c.close("gradient meridional", gy * r, hy + h2y, 1e-3)
    if res <= 45:
        c.close("laplace", g.laplace(h + h2) * r * r, -2. * h - 6. * h2, 1e-3)
    # streamfunction r*(h + h2): vorticity -2 h/r - 6 h2/r
    z = c.np.zeros(g.shape)
    u, v = g.wind((-2. * h - 6. * h2) / r, z)
    c.close("u", u, -hy - h2y, 1e-3)
    c.close("v", v, hx + h2x, 1e-3)
    u, v = g.wind(z, (-2. * h - 6. * h2) / r)
    c.close("divergent u", u, hx + h2x, 1e-3)
    c.close("divergent v", v, hy + h2y, 1e-3)
    c.close("vorticity", g.vorticity(-hy - h2y, hx + h2x) * r, -2. * h - 6. * h2, 1e-3)
    c.close("divergence", g.divergence(hx + h2x, hy + h2y) * r, -2. * h - 6. * h2, 1e-3)
    # solid body rotation
    c.close("solid body", g.vorticity(a * cp, z) * r, 2. * a * sp, 1e-3)
    c.observe("gx", gx * r)
