"""C17 Zonal wavenumber diagnostics report and use the right wavenumbers."""
import math
from .lib import PI, nl
from .c16 import weights, average

BOUNDS = ("dominant wavenumber: all amplitudes in [-10, 10] of all wavenumbers (given phases) on one latitude of 6..8 longitudes (thorough: 4..12), many (thorough: all) wavenumber ranges, smoothed and not; "
          "envelope: all fields on one latitude of 4..12 longitudes, all ranges; filter: all wavenumbers in [0, 10] at one or two points (profile or field) and all fields of 2 latitudes with 6..12 longitudes")
OUTSIDE = "equal powers (ties) beyond rounding; more longitudes; wavenumbers within 1e-6 of a jump of the window width"
OPTS = {"max_paths": 4000}


def tasks(tier):
    q = tier == "quick"
    out = []
    for m in ([6, 8] if q else [4, 6, 8, 10, 12]):
        K = m // 2
        ranges = [(1, K), (0, K), (2, 3), (1, 20), (K, K)] if q else [(a, b) for a in range(K + 1) for b in range(a, K + 1)] + [(1, 20)]
        for r in ranges:
            out.append(("dominant", dict(m=m, lo=r[0], hi=r[1])))
    for m in ([6, 8] if q else [6, 8, 12, 16]):
        out.append(("dominant_default", dict(m=m)))
        out.append(("dominant_smooth", dict(m=m)))
    for m in ([4, 6, 8, 12] if q else [4, 6, 8, 12, 16, 20]):
        K = m // 2
        for r in ([(0, K), (1, 2), (2, 10), (2, 2)] if q else [(a, b) for a in range(K + 1) for b in range(a, K + 1)] + [(2, 10), (3, 100)]):
            out.append(("envelope", dict(m=m, lo=r[0], hi=r[1])))
        out.append(("envelope_wave", dict(m=m)))
    out.append(("envelope_default", {}))
    for m, two in ([(6, False), (8, True), (6, True)] if q else [(6, False), (6, True), (8, True), (12, True), (16, True)]):
        out.append(("filter_width", dict(m=m, two=two)))
    for m in ([6, 8] if q else [6, 8, 12, 16]):
        for k in (0.4, 1., 1.7, 2., 3.3, 4., 7.):
            out.append(("filter_field", dict(m=m, k=k)))
        out.append(("filter_mixed", dict(m=m)))
    out.append(("states", dict(res=60.)))
    if not q:
        out.append(("states", dict(res=45.)))
    out.append(("refusals", {}))
    return out


def coefficients(f):
    """cosine and sine sums for each zonal wavenumber"""
    m = len(f)
    return [(sum(f[i] * math.cos(2. * PI * k * i / m) for i in range(m)), sum(f[i] * math.sin(2. * PI * k * i / m) for i in range(m))) for k in range(m // 2 + 1)]


def power(f):
    return [a * a + b * b for a, b in coefficients(f)]


def given(m, j):
    return [((i * i * 3 + i * (j + 1) * 2 + j) % 7) - 2.6 + 0.13 * ((i * 5) % 4) for i in range(m)]


def field(c, m, n, row):
    f = c.np.array([given(m, j) for j in range(n)])
    for i in range(m):
        f[row, i] = c.real(f"f{i}", -10, 10)
    return f


def waves(c, m, j, amp):
    """a latitude with these amplitudes of the wavenumbers 0.. and different phases; and the power of the wavenumbers"""
    K = m // 2
    ph = [0.3 + 0.8 * k + 0.5 * j for k in range(K + 1)]
    ph[0] = ph[K] = 0.
    row = [sum(amp[k] * math.cos(2. * PI * k * i / m + ph[k]) for k in range(K + 1)) for i in range(m)]
    return row, [amp[k] * amp[k] * (4. if k in (0, K) else 1.) for k in range(K + 1)]


def dominant(c, m, lo, hi):
    """arbitrary amplitudes of all wavenumbers at one latitude"""
    g = c.bt.Grid(360. / m, rsphere=2.)
    n, K = g.nlat, m // 2
    rows, ps = [], []
    for j in range(n):
        amp = [c.real(f"a{k}", -10, 10) for k in range(K + 1)] if j == 1 else [((k * 3 + j) % 5) + 0.25 * k for k in range(K + 1)]
        r, p = waves(c, m, j, amp)
        rows.append(r)
        ps.append(p)
    f = c.np.array(rows)
    sf = c.snapshot(f)
    k = c.bt.diagnostics.dominant_wavenumber_fourier(f, g, smooth=None, wavenumber_range=(lo, hi))
    c.check("shape", k.shape == (n,))
    top = min(hi, K)
    for j in range(n):
        c.check("range", c.and_(k[j] >= lo, k[j] <= top))
        for i in range(lo, top + 1):
            # no wavenumber in the range has more power
            c.check("maximal", c.or_(*[c.and_(k[j] == r, ps[j][i] <= ps[j][r] + 1e-6) for r in range(lo, top + 1)]))
    c.unchanged("field", f, sf)


def dominant_default(c, m):
    """the default range starts at 1; amplitudes of two waves and the mean at every latitude"""
    g = c.bt.Grid(360. / m, rsphere=2.)
    n, K = g.nlat, m // 2
    k1, k2 = c.pick("waves", [(1, 2), (2, K - 1), (K - 1, 1)] if K > 3 else [(1, 2), (2, 1)])
    a, b = c.real("a", 0, 10), c.real("b", 0, 10)
    c.assume(c.or_(a > b + 1e-3, b > a + 1e-3))
    f = c.np.array([waves(c, m, j, [30. if k == 0 else a * (j + 1.) if k == k1 else b * (j + 1.) if k == k2 else 0. for k in range(K + 1)])[0] for j in range(n)])
    k = c.bt.diagnostics.dominant_wavenumber_fourier(f, g, smooth=None)
    c.close("dominant", k, [c.ite(a > b, float(k1), float(k2))] * n, 1e-9)
    c.observe("k", k)


def dominant_smooth(c, m):
    """smoothed in meridional direction with the given or the default window"""
    g = c.bt.Grid(360. / m, rsphere=2.)
    n = g.nlat
    amp = [[c.real(f"a{k}", -10, 10) if j == 2 and k else ((k * 3 + j) % 5) + 0.25 * k for k in range(m // 2 + 1)] for j in range(n)]
    f = c.np.array([waves(c, m, j, amp[j])[0] for j in range(n)])
    ps = waves(c, m, 2, amp[2])[1]
    for i in (1, 2, 3):
        for j in range(1, i):
            c.assume(c.or_(ps[i] > ps[j] + 1e-3, ps[j] > ps[i] + 1e-3))
    D = c.bt.diagnostics
    raw = D.dominant_wavenumber_fourier(f, g, smooth=None, wavenumber_range=(1, 3))
    width = 360. / m * 3
    got = D.dominant_wavenumber_fourier(f, g, smooth=("hann", width), wavenumber_range=(1, 3))
    win = weights(1, 3)
    c.close("smoothed", got, [average(c, list(raw), j, win, "meridional") for j in range(n)], 1e-7)
    r0 = D.dominant_wavenumber_fourier(f, g, None)
    # (10 degrees are less than the grid spacing here)
    c.close("default", D.dominant_wavenumber_fourier(f, g), r0, 1e-9)
    c.observe("got", got)


def analytic(f, lo, hi):
    """real and imaginary part of the analytic signal of the components lo..hi"""
    m = len(f)
    co = coefficients(f)
    re, im = [0.] * m, [0.] * m
    for k in range(lo, min(hi, m // 2) + 1):
        s = 1. if k == 0 or 2 * k == m else 2.
        for i in range(m):
            cs, sn = math.cos(2. * PI * k * i / m), math.sin(2. * PI * k * i / m)
            a, b = co[k]
            re[i] = re[i] + s / m * (a * cs + b * sn)
            if s == 2.:
                # cos -> sin, sin -> -cos
                im[i] = im[i] + s / m * (a * sn - b * cs)
    return re, im


def envelope(c, m, lo, hi):
    f = field(c, m, 2, 1)
    sf = c.snapshot(f)
    e = c.bt.diagnostics.envelope_hilbert(f, (lo, hi))
    c.check("shape", e.shape == (2, m))
    for j in range(2):
        re, im = analytic(list(f[j]), lo, hi)
        for i in range(m):
            c.close("modulus", e[j, i] * e[j, i], re[i] * re[i] + im[i] * im[i], 1e-6)
            c.le("sign", 0., e[j, i])
    c.unchanged("field", f, sf)
    c.observe("e", e, 1e-4)


def envelope_wave(c, m):
    """pure wave plus others outside of the range"""
    K = m // 2
    a, b, o = c.real("a", -5, 5), c.real("b", -5, 5), c.real("o", -5, 5)
    k = c.pick("k", list(range(1, K)))
    lo, hi = c.pick("range", [(k, k), (max(k - 1, 1), k), (k, K - 1)])
    out = [x for x in range(K + 1) if x < lo or x > hi]
    f = c.np.array([[a * math.cos(2. * PI * k * i / m) + b * math.sin(2. * PI * k * i / m) + sum(o * math.cos(2. * PI * x * i / m + x) for x in out) for i in range(m)]] * 2)
    e = c.bt.diagnostics.envelope_hilbert(f, (lo, hi))
    c.close("amplitude", e * e, [[a * a + b * b] * m] * 2, 1e-6)
    c.observe("e", e, 1e-4)


def envelope_default(c):
    """the default range is 2 to 10"""
    m = 24
    a = [c.real(f"a{k}", 0.5, 5) for k in range(13)]
    f = c.np.array([[sum(a[k] * math.cos(2. * PI * k * i / m + k * k) for k in range(13)) for i in range(m)]])
    e = c.bt.diagnostics.envelope_hilbert(f)
    for i in range(m):
        ph = [2. * PI * k * i / m + k * k for k in range(13)]
        re, im = sum(a[k] * math.cos(ph[k]) for k in range(2, 11)), sum(a[k] * math.sin(ph[k]) for k in range(2, 11))
        c.close("modulus", e[0, i] * e[0, i], re * re + im * im, 1e-6)
    c.observe("e", e, 1e-4)


def hann(c, row, i, k):
    """periodic Hann average around i, wavelength of wavenumber k = half of the window between its zeros"""
    m = len(row)
    k = c.max([1., c.min([k, m / 2.])])
    h = 1
    while not c.decide(m < k * (h + 1)):
        h += 1
    w = [0.5 + 0.5 * math.cos(PI * d / h) for d in range(-h, h + 1)]
    return sum(w[d + h] * row[(i + d) % m] for d in range(-h, h + 1)) / sum(w)


def away(c, k, m):
    """not within 1e-6 of a jump of the window width"""
    for h in range(1, m + 2):
        c.assume(c.or_(k < float(m) / h - 1e-6, k > float(m) / h + 1e-6))


def filter_width(c, m, two):
    """given fields, arbitrary wavenumbers"""
    f = c.np.array([given(m, j) for j in range(3)])
    k = c.real("k", 0, 10)
    away(c, k, m)
    if two:
        # at one point of a field of wavenumbers
        ks = [[1.3 + ((i + 2 * j) % 4) for i in range(m)] for j in range(3)]
        ks[1][2] = k
        ks = c.np.array(ks)
    else:
        l = c.real("l", 0, 10)
        away(c, l, m)
        prof = [2.3, k, l]
        ks = c.np.array(prof)
    sk, sf = c.snapshot(ks), c.snapshot(f)
    got = c.bt.diagnostics.filter_by_wavenumber(f, ks)
    c.check("shape", got.shape == (3, m))
    for j in range(3):
        for i in range(m):
            c.close("average", got[j, i], hann(c, list(f[j]), i, ks[j, i] if two else ks[j]), 1e-7)
    c.unchanged("wavenumbers", ks, sk)
    c.unchanged("field", f, sf)
    c.observe("got", got)


def filter_field(c, m, k):
    """given wavenumber, arbitrary fields"""
    f = c.array("f", (2, m), -10, 10)
    sf = c.snapshot(f)
    D = c.bt.diagnostics
    got = D.filter_by_wavenumber(f, c.np.array([k, k]))
    got2 = D.filter_by_wavenumber(f, c.np.array([[k] * m] * 2))
    want = [[hann(c, list(f[j]), i, k) for i in range(m)] for j in range(2)]
    c.close("average", got, want, 1e-7)
    c.close("average", got2, want, 1e-7)
    c.unchanged("field", f, sf)
    x = c.real("x", -10, 10)
    const = c.np.zeros((2, m)) + x
    c.close("constant", D.filter_by_wavenumber(const, c.np.array([k, k])), const, 1e-9)
    c.observe("got", got)


def filter_mixed(c, m):
    """different wavenumbers everywhere, arbitrary fields"""
    f = c.array("f", (2, m), -10, 10)
    ks = [[0.71 + 0.9 * ((i * 3 + j) % m) for i in range(m)] for j in range(2)]
    got = c.bt.diagnostics.filter_by_wavenumber(f, c.np.array(ks))
    c.close("average", got, [[hann(c, list(f[j]), i, ks[j][i]) for i in range(m)] for j in range(2)], 1e-7)
    c.observe("got", got)


def states(c, res):
    """shortcuts of states use the meridional wind and the right parameters"""
    g = c.bt.Grid(res, rsphere=2.)
    n, m = g.shape
    a = c.real("a", 0.5, 2)
    pv = [[(n - 1 - j) + 0.7 * ((i * 3 + j) % m == 1) + 0.5 * math.cos(4. * PI * i / m + 1.) * math.sin(PI * j / (n - 1)) for i in range(m)] for j in range(n)]
    st = c.bt.State(g, 0., pv=c.np.array([[a * x for x in r] for r in pv]))
    D = c.bt.diagnostics
    v = st.v
    e = st.v_envelope_hilbert
    for j in range(n):
        re, im = analytic(list(v[j]), 2, 10)
        for i in range(m):
            c.close("envelope", e[j, i] * e[j, i], re[i] * re[i] + im[i] * im[i], 1e-5)
    k = D.dominant_wavenumber_fourier(v, g)
    # phase filter with twice the dominant wavenumber
    c.close("filtered", st.falwa_filtered, [[hann(c, list(st.falwa[j]), i, 2. * k[j]) for i in range(m)] for j in range(n)], 1e-6)
    c.observe("f", st.falwa_filtered)


def refusals(c):
    g = c.bt.Grid(60., rsphere=2.)
    x = c.real("x", -1, 1)
    f = c.np.ones(g.shape) * x
    D = c.bt.diagnostics
    for r in ((1,), (1, 2, 3), ()):
        c.refuses("range", lambda: D.dominant_wavenumber_fourier(f, g, wavenumber_range=r))
        c.refuses("range", lambda: D.envelope_hilbert(f, wavenumber_range=r))
    for k in (3, 5, 6):
        c.refuses("wavenumber profile", lambda: D.filter_by_wavenumber(f, c.np.ones(k)))
