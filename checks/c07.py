"""C07 Laplacian, Poisson and diffusion solvers invert each other."""
from .lib import specindex, smooth

BOUNDS = ("grids 30-60 degrees (thorough 20-60), radius 1, 2, 0.5, Earth and symbolic in [0.5, 3]; truncations full and reduced; all spectral coefficients in [-1, 1]; "
          "op_add in [0.01, 50] and concrete; dt, coeff in [0, 10], orders 1-4; gridded fields: every field with total wavenumbers up to nlat-2")
OUTSIDE = "finer grids; gridded fields containing total wavenumber nlat-1 (not resolved by the grid)"
ER = 6371.2e3


def tasks(tier):
    out = []
    q = tier == "quick"
    grids = [dict(res=45., R=2.), dict(res=30., R=1., ntrunc=4)] if q else \
        [dict(res=60., R=1.), dict(res=45., R=2.), dict(res=30., R=0.5), dict(res=30., R=1., ntrunc=4), dict(res=36., R=1.),
         dict(res=30., R=1., legfunc="computed"), dict(res=20., R=1.), dict(res=22.5, R=3., ntrunc=5)]
    for p in grids:
        out += [("spectral", p), ("poisson", p), ("helmholtz", p), ("diffusion", dict(p, order=1)), ("diffusion", dict(p, order=2))]
        if not q:
            out += [("diffusion", dict(p, order=3)), ("diffusion", dict(p, order=4))]
    out += [("spectral", dict(res=45., R="sym")), ("spectral", dict(res=45., R=ER)), ("poisson", dict(res=45., R=ER)), ("diffusion", dict(res=45., R=1., order=3))]
    out += [("earth_diffusion", dict(order=2))] + ([] if q else [("earth_diffusion", dict(order=1)), ("earth_diffusion", dict(order=3))])
    return out


def mk(c, res, R=1., ntrunc=None, legfunc="stored"):
    return c.bt.Grid(res, rsphere=c.real("R", 0.5, 3) if R == "sym" else R, ntrunc=ntrunc, legfunc=legfunc)


def eig(g):
    return [n * (n + 1) / g.rsphere / g.rsphere for m, n in specindex(g._ntrunc)]


def coeffs(c, g, name, nmax=99):
    return smooth(c, g, "M" + name, nmax)


def spectral(c, res, R, **kw):
    """all spectral coefficients arbitrary"""
    g = mk(c, res, R, **kw)
    L = eig(g)
    f = coeffs(c, g, "f")
    sn = c.snapshot(f)
    unit = g.rsphere * g.rsphere if R in ("sym", ER) else 1.
    lap = g.laplace_spectral(f)
    c.close("laplace", lap * unit, [-l * unit * x for l, x in zip(L, f)], 1e-4)
    p = g.solve_poisson_spectral(f)
    c.check("length", len(p) == len(f) and len(lap) == len(f))
    c.close("zero mean", p[0], 0., 1e-9)
    c.close("laplace of poisson", g.laplace_spectral(p)[1:], f[1:], 1e-4)
    c.close("poisson of laplace", g.solve_poisson_spectral(lap)[1:], f[1:], 1e-4)
    c.unchanged("input", f, sn)
    if R != ER:
        a = c.real("a", 0.01, 50)
        h = g.solve_poisson_spectral(f, a)
        c.close("helmholtz", [-(l + a) * x for l, x in zip(L, h)], f, 1e-3)
        c.close("op_add=0", g.solve_poisson_spectral(f, op_add=0.), p, 1e-9)
        dt, k = c.real("dt", 0, 10), c.real("k", 0, 10)
        for order in (1, 2, 3):
            d = g.solve_diffusion_spectral(f, k, dt, order)
            c.close("diffusion", [(1 + dt * k * l ** order) * x for l, x in zip(L, d)], f, 1e-3)
        c.close("default order", g.solve_diffusion_spectral(f, coeff=k, dt=dt), g.solve_diffusion_spectral(f, k, dt, order=1), 1e-6)
    c.unchanged("input", f, sn)
    c.observe("p", p)


def poisson(c, res, R, **kw):
    g = mk(c, res, R, **kw)
    s = coeffs(c, g, "f", g.nlat - 2)
    f = g.to_grid(s)
    sn = c.snapshot(f)
    x = g.solve_poisson(f)
    unit = g.rsphere * g.rsphere
    c.check("shape", x.shape == g.shape)
    c.close("same as spectral", x / unit, g.to_grid(g.solve_poisson_spectral(s)) / unit, 1e-4)
    c.close("zero mean", g.to_spectral(x)[0] / unit, 0., 1e-4)
    m = c.np.zeros(len(s), dtype=complex)
    m[0] = s[0]
    c.close("laplace of poisson", g.laplace(x), f - g.to_grid(m), 1e-3)
    c.close("laplace", g.laplace(f) * unit, g.to_grid(g.laplace_spectral(s)) * unit, 1e-3)
    L = eig(g)
    want = c.np.zeros(len(s), dtype=complex)
    for i in range(len(s)):
        want[i] = -L[i] * s[i]
    c.close("laplace is -n(n+1)/r2", g.laplace(f) * unit, g.to_grid(want) * unit, 1e-3)
    c.unchanged("input", f, sn)
    c.observe("x", x)


def helmholtz(c, res, R, **kw):
    g = mk(c, res, R, **kw)
    s = coeffs(c, g, "f", g.nlat - 2)
    f = g.to_grid(s)
    sn = c.snapshot(f)
    for a in (0.5, 7.):
        x = g.solve_poisson(f, a)
        c.close("laplace(f) - c f = rhs", g.laplace(x) - a * x, f, 1e-3)
        c.close("same as spectral", x, g.to_grid(g.solve_poisson_spectral(s, op_add=a)), 1e-4)
    c.unchanged("input", f, sn)
    c.observe("x", x)


def diffusion(c, res, R, order, **kw):
    g = mk(c, res, R, **kw)
    s = coeffs(c, g, "f", g.nlat - 2)
    f = g.to_grid(s)
    sn = c.snapshot(f)
    for k, dt in ((0.3 / 20 ** (order - 1), 2.), (0., 3.), (1.5, 0.25), (1., 0.)):
        x = g.solve_diffusion(f, k, dt, order)
        y = x
        for _ in range(order):
            y = -g.laplace(y)
        c.close("g + dt k (-L)^n g = f", (x + dt * k * y), f, 1e-3 * (1 + dt * k * (g._ntrunc * (g._ntrunc + 1) / R / R) ** order * 0.01))
        c.close("same as spectral", x, g.to_grid(g.solve_diffusion_spectral(s, k, dt, order=order)), 1e-4)
        L = eig(g)
        w = c.np.zeros(len(s), dtype=complex)
        for i in range(len(s)):
            w[i] = s[i] / (1 + dt * k * L[i] ** order)
        c.close("factor", x, g.to_grid(w), 1e-4)
    c.unchanged("input", f, sn)
    c.observe("x", x)


def earth_diffusion(c, order):
    """realistic magnitudes: the default model's coefficient and time step"""
    g = c.bt.Grid(45.)
    f = coeffs(c, g, "f")
    L = eig(g)
    k, dt = {1: 1e6, 2: 1e15, 3: 1e26}[order], 900.
    d = g.solve_diffusion_spectral(f, k, dt, order)
    c.close("diffusion", d, [x / (1 + dt * k * l ** order) for l, x in zip(L, f)], 1e-4)
    c.observe("d", d)
