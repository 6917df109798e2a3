"""Reference formulas shared by the harnesses (plain Python floats)."""
import functools
import math

PI = math.pi
D2R = math.pi / 180.
EARTH_R = 6371.2e3
EARTH_OM = 7.292e-5


def nl(res):
    return round(180. / res) + 1, round(360. / res)


def lats(res):
    n = nl(res)[0]
    return [90. - 180. * i / (n - 1) for i in range(n)]


def lons(res):
    n = nl(res)[1]
    return [360. * i / n for i in range(n)]


def bandw(res):
    """sin(north edge) - sin(south edge) of each latitude band; sums to 2"""
    la = lats(res)
    n = len(la)
    edge = [90.] + [0.5 * (la[i] + la[i + 1]) for i in range(n - 1)] + [-90.]
    return [math.sin(edge[i] * D2R) - math.sin(edge[i + 1] * D2R) for i in range(n)]


def smooth(c, g, name, nmax, amp=1., mmin=0, mmax=None, real=True):
    """Arbitrary spectral coefficients for total wavenumbers 1..nmax (zonal mmin..mmax), others 0, as a spectral array

    The packing is that of spharm: m-major, n from m to ntrunc. The m=0 coefficients are real."""
    T = g._ntrunc
    N = (T + 1) * (T + 2) // 2
    out = c.np.zeros(N, dtype=complex)
    i = 0
    for m in range(T + 1):
        for n in range(m, T + 1):
            if (n >= 1 or name.startswith("M")) and n <= nmax and m >= mmin and (mmax is None or m <= mmax):
                re = c.real(f"{name}_{m}_{n}r", -amp, amp)
                out[i] = re + (1j * c.real(f"{name}_{m}_{n}i", -amp, amp) if m else 0.)
            i += 1
    return out


def specindex(T):
    """(m, n) of every spectral coefficient"""
    return [(m, n) for m in range(T + 1) for n in range(m, T + 1)]



def quietly(*fs):
    for f in fs:
        try:
            f()
        except Exception:
            pass


def used(g, depth=[]):
    """Use of a new grid with parameters that no harness uses, before the harness gets it"""
    if depth or g.nlon > 18:
        return
    depth.append(g)
    try:
        spec = g.fcor2_spectral
        quietly(lambda: g.solve_diffusion_spectral(spec, 0.37, 0.11, order=3), lambda: g.solve_poisson_spectral(spec, 0.83),
                lambda: g.derivative_meridional(g.phi, order=2), lambda: g.derivative_meridional(g.phi2),
                lambda: g.get_filter_window("triang", 130.), lambda: g.region[30:200, "N"].gridpoint_area,
                lambda: g.quad_meridional(g.fcor2 * 0. + 1., method="boxcount"), lambda: g.coriolis(12.))
    finally:
        depth.pop()


def prehistory(bt, params):
    """Use of other grids of the same size in the same process beforehand, and of every grid after its creation: nothing of it
    may show in the results"""
    res = params.get("res", 60.)
    if isinstance(res, (int, float)) and res >= 20.:
        for kw in (dict(rsphere=3.3, omega=0.77), dict(), dict(rsphere=1.5, omega=0.9, ntrunc=2)):
            quietly(lambda: other_grid(bt, float(res), kw))
    init = bt.Grid.__init__

    @functools.wraps(init)
    def wrapper(self, *args, **kwargs):
        init(self, *args, **kwargs)
        used(self)
    bt.Grid.__init__ = wrapper


def other_grid(bt, res, kw):
    g = bt.Grid(res, **kw)
    st = bt.init.solid_body_rotation(g, 0., 0.25)
    np, D = bt.grid.np, bt.diagnostics
    wave = st.pv + 0.2 * np.cos(2. * g.lam2) * np.cos(g.phi2)
    quietly(*[lambda name=name: getattr(st, name) for name in ("u", "pv", "vorticity", "streamfunction", "energy", "stationary_wavenumber", "fawa")],
            lambda: g.gradient(wave), lambda: g.quad(wave), lambda: g.mean(wave), lambda: g.get_filter_window("boxcar", 150.),
            lambda: g.zonalize(wave, levels=3), lambda: D.filter_by_wavenumber(wave, np.full(g.nlat, 1.5)),
            lambda: D.dominant_wavenumber_fourier(wave, g, wavenumber_range=(2, 3)), lambda: D.envelope_hilbert(wave, (1, 2)),
            lambda: g.filter_zonal(wave, "hann", 170.), lambda: g.interpolate_meridional(g.fcor, g.lat, (0.3, 0.4)),
            lambda: bt.BarotropicModel(diffusion_coeff=0.3).euler(st, 0.07))
