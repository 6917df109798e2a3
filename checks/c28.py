"""C28 Wavelet-based dominant wavenumber finds the local wavenumber."""
import math
import numpy as _native
from .lib import D2R, lats, lons, nl
from .pywt_standin import make

BOUNDS = ("single waves with at least 4 gridpoints per wavelength on 10-30 degree grids (thorough: 5), a different wavenumber, phase and arbitrary amplitude in [0.1, 10] (either sign) at every latitude; "
          "one wave of arbitrary phase (30-degree grid); rotations by any number of gridpoints and smoothing of all multiples of given fields; short waves beyond wavenumber 20 on finer grids")
OUTSIDE = "PyWavelets itself, which is not installed: a stand-in follows its documented algorithm; waves with less than 4 gridpoints per wavelength (the wavelet is not resolved)"
OPTS = {"max_paths": 400}


def tasks(tier):
    q = tier == "quick"
    out = []
    for res in ((30., 15.) if q else (30., 20., 15., 10., 7.5)):
        for s in ((0, 1) if q else range(4)):
            out.append(("wave", dict(res=res, s=s)))
    # phases repeat (up to the sign) when rotating by one gridpoint
    for k, ps in (((2, range(6)),) if q else ((1, range(3)), (2, range(6)), (3, range(8)))):
        out += [("phase", dict(res=30., k=k, p=p)) for p in ps]
    for k in ((2, 3) if q else (1, 2, 3, 4, 5)):
        out.append(("disturbed", dict(res=30. if k < 4 else 15., k=k)))
    out += [("local", dict(res=r)) for r in ((15.,) if q else (15., 10.))]
    out += [("rotation", dict(res=30.)), ("smoothing", dict(res=30.)), ("smoothing", dict(res=10.)), ("sign", dict(res=30.)), ("short_waves", dict(res=7.5)), *[("short_waves_fine", dict(res=r, short=k)) for r, k in (((4., 24), (4., 29), (6., 22)) if q else [(r, k) for r in (6., 4., 3.) for k in (21, 22, 24, 27, 29, 35, 44) if k < 180. / r])]]
    return out


def install(c):
    c.provide("pywt", make(_native, c.linear))


def waves(c, res, s, amp=True):
    n, m = nl(res)
    K = min(20, m // 4)
    k = [1 + (3 * j + 5 * s) % K for j in range(n)]
    a = [c.real(f"a{j}", 0.1, 10.) * (-1. if (j + s) % 3 == 0 else 1.) if amp else 1. for j in range(n)]
    return k, c.np.array([[a[j] * math.cos(k[j] * x * D2R + 0.37 * j + s) for x in lons(res)] for j in range(n)])


def wave(c, res, s):
    install(c)
    g = c.bt.Grid(resolution=res)
    k, f = waves(c, res, s)
    sf = c.snapshot(f)
    d = c.bt.diagnostics.dominant_wavenumber_wavelet(f, g, smooth=None)
    c.check("shape", d.shape == g.shape)
    for j in range(g.nlat):
        c.le("wavenumber", abs(d[j] - k[j]), 0.06 * k[j])
    c.unchanged("field", f, sf)
    c.observe("d", d)


def phase(c, res, k, p):
    """one wave, phases in an interval of width 0.2 (from 0.2 p; the amplitude is arbitrary as well by `sign`)"""
    install(c)
    g = c.bt.Grid(resolution=res)
    n, m = g.shape
    b = c.real("b", -math.tan(0.1001), math.tan(0.1001))
    r = g.nlat // 2
    x = [k * y * D2R - 0.2 * p for y in lons(res)]
    f = c.np.array([[math.cos(y) + b * math.sin(y) if j == r else math.cos(y + j) for y in x] for j in range(n)])
    d = c.bt.diagnostics.dominant_wavenumber_wavelet(f, g, smooth=None)
    c.le("wavenumber", abs(d[r] - k), 0.06 * k)


def disturbed(c, res, k):
    """a weak second wave does not matter"""
    install(c)
    g = c.bt.Grid(resolution=res)
    n, m = g.shape
    e = c.real("e", -0.02, 0.02)
    a = c.real("a", 1., 5.)
    l = k + 1 if k + 1 <= m // 4 else 1
    f = c.np.array([[a * (math.cos(k * x * D2R + j) + (e if j == 1 else 0.) * math.sin(l * x * D2R)) for x in lons(res)] for j in range(n)])
    d = c.bt.diagnostics.dominant_wavenumber_wavelet(f, g, smooth=None)
    for j in range(n):
        c.le("wavenumber", abs(d[j] - k), 0.09 * k)


def local(c, res):
    """different waves in the west and the east of the domain"""
    install(c)
    g = c.bt.Grid(resolution=res)
    n, m = g.shape
    a = c.real("a", 0.5, 3.)
    K = m // 4
    f = c.np.array([[a * math.cos((2 if x < 180. else K) * (x - 180.) * D2R) for x in lons(res)] for j in range(n)])
    d = c.bt.diagnostics.dominant_wavenumber_wavelet(f, g, smooth=None)
    for j in range(n):
        c.le("west", abs(d[j, m // 4] - 2.), 0.5)
        c.le("east", abs(d[j, 3 * m // 4] - K), 0.1 * K)


def packet(res, s=0):
    n, m = nl(res)
    la, lo = lats(res), lons(res)
    return [[math.cos((1 + (j + s) % 3) * x * D2R + j) * (1. + 0.3 * math.cos(x * D2R - 1.)) for x in lo] for j in range(n)]


def rotation(c, res):
    """rotation in longitude, up to the resolution of the scales"""
    install(c)
    g = c.bt.Grid(resolution=res)
    n, m = g.shape
    a = c.real("a", 0.1, 10.)
    k = c.pick("k", [1, 5, m - 1])
    f = a * c.np.array(packet(res))
    d = c.bt.diagnostics.dominant_wavenumber_wavelet(f, g, smooth=None)
    e = c.bt.diagnostics.dominant_wavenumber_wavelet(c.np.roll(f, k, axis=1), g, smooth=None)
    for j in range(n):
        for i in range(m):
            c.le("rotated", abs(e[j, (i + k) % m] - d[j, i]), 0.08 * d[j, i])


def sign(c, res):
    """scaling and changing the sign do not matter, nor do other latitudes"""
    install(c)
    g = c.bt.Grid(resolution=res)
    n, m = g.shape
    a = c.real("a", 0.01, 100.)
    p = packet(res)
    D = c.bt.diagnostics.dominant_wavenumber_wavelet
    d = D(c.np.array(p), g, smooth=None)
    c.close("scaled", D(a * c.np.array(p), g, smooth=None), d, 1e-6)
    c.close("sign", D(-a * c.np.array(p), g, smooth=None), d, 1e-6)
    q = packet(res, 1)
    q[2] = p[2]
    c.close("other latitudes", D(a * c.np.array(q), g, smooth=None)[2], d[2], 1e-6)


def smoothing(c, res):
    """smoothed if requested (and by default), zonally and meridionally with the given widths"""
    install(c)
    g = c.bt.Grid(resolution=res)
    a = c.real("a", 0.1, 10.)
    f = a * c.np.array(packet(res))
    D = c.bt.diagnostics.dominant_wavenumber_wavelet
    d = D(f, g, smooth=None)
    for sm in ((None,) if res < 20. else (("boxcar", 95., 65.), ("hann", 130., 95.))):
        w = ("hann", 40, 10) if sm is None else sm
        e = D(f, g) if sm is None else D(f, g, smooth=sm)
        # the two filters commute
        want = g.filter_zonal(g.filter_meridional(d, w[0], w[2]), w[0], w[1])
        c.close("smoothed", e, want, 1e-6)


def short_waves(c, res):
    """contributions beyond wavenumber 20 are left out"""
    install(c)
    g = c.bt.Grid(resolution=res)
    n, m = g.shape
    a, b = c.real("a", 0.5, 5.), c.real("b", 0.1, 50.)
    K = [2 + (3 * j) % (m // 4 - 1) for j in range(n)]
    f = c.np.array([[a * math.cos(K[j] * x * D2R + j) + (b if j == 3 else 3. if j % 2 else 0.) * math.cos((21 + j % 3) * x * D2R) for x in lons(res)] for j in range(n)])
    d = c.bt.diagnostics.dominant_wavenumber_wavelet(f, g, smooth=None)
    for j in range(n):
        c.le("wavenumber", abs(d[j] - K[j]), 0.06 * K[j])


def short_waves_fine(c, res, short):
    """the same on fine grids (one arbitrary latitude)"""
    install(c)
    g = c.bt.Grid(resolution=res)
    n, m = g.shape
    a = c.real("a", 0.5, 5.)
    K = [3 + j % 4 for j in range(n)]
    f = c.np.array([[(a if j == 3 else 1.) * (math.cos(K[j] * x * D2R + j) + 20. * math.cos((short if j == 3 else 21 + j % (m // 2 - 21)) * x * D2R)) for x in lons(res)] for j in range(n)])
    d = c.bt.diagnostics.dominant_wavenumber_wavelet(f, g, smooth=None)
    for j in range(n):
        c.le("wavenumber", abs(d[j] - K[j]), 0.06 * K[j])
