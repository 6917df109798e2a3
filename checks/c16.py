"""C16 Filters are normalized moving averages with correct boundaries."""
import math
from .lib import nl

BOUNDS = ("windows boxcar, hann, hamming, triang, blackman, (kaiser, 5), (gaussian, 2) of all widths in [0, 400] degrees (away from ties of the rounding) on grids of 15-60 degrees (thorough: 10), 25-degree ranges of widths (thorough: all widths) on 1 and 2.5 degree grids, also after other windows of the same width; "
          "filters: all fields in [-10, 10] on grids of 30-90 degrees with all those widths, and all given windows of 1..9 points with entries in [-1, 1]")
OUTSIDE = "given windows with an even number of points (no centre), widths half way between two numbers of gridpoints, finer grids"
OPTS = {"max_paths": 4000}
WINDOWS = ["boxcar", "hann", "hamming", "triang", "blackman", ("kaiser", 5.), ("gaussian", 2.)]


def tasks(tier):
    q = tier == "quick"
    out = []
    for w in range(len(WINDOWS)):
        for res in ([60., 24.] if q else [60., 36., 24., 15., 10.]):
            out.append(("window", dict(w=w, res=res)))
        # wide windows on fine grids
        for res, lo, hi in ([(1., 60. * w, 60. * w + 25.)] if q else [(1., 40. * i, 40. * (i + 1)) for i in range(10)] + [(2.5, 50. * i, 50. * (i + 1)) for i in range(8)]):
            out.append(("window", dict(w=w, res=res, lo=lo, hi=hi)))
    for axis in ("meridional", "zonal"):
        for dim in (1, 2):
            for w in ([0, 1, 4] if q else range(len(WINDOWS))):
                out.append(("named", dict(axis=axis, dim=dim, w=w, res=(90., 60., 45.)[w % 3] if q or dim == 2 else 30.)))
            for n in ([1, 3, 5, 9] if q else [1, 3, 5, 7, 9, 13, 21]):
                out.append(("given", dict(axis=axis, dim=dim, n=n, res=60. if q else 45.)))
        for n in (3, 7):
            out.append(("given_window_any", dict(axis=axis, n=n)))
        out.append(("stays_between", dict(axis=axis, w=1, width=150.)))
        out.append(("stays_between", dict(axis=axis, w=0, width=600.)))
        out.append(("refusals", dict(axis=axis)))
    out.append(("rotation", dict(w=1)))
    out.append(("rotation", dict(w=3)))
    return out


def bessel0(x):
    t, s, k = 1., 1., 1
    while t > 1e-18 * s:
        t *= (x / 2.) ** 2 / k ** 2
        s += t
        k += 1
    return s


def weights(w, n):
    """the windows, symmetric, by their textbook formulas, normalized"""
    if n == 1:
        return [1.]
    kind = WINDOWS[w]
    a = [2. * math.pi * i / (n - 1) for i in range(n)]
    if kind == "boxcar":
        v = [1.] * n
    elif kind == "hann":
        v = [0.5 - 0.5 * math.cos(x) for x in a]
    elif kind == "hamming":
        v = [0.54 - 0.46 * math.cos(x) for x in a]
    elif kind == "triang":
        v = [1. - abs(2. * i - (n - 1)) / (n + 1) for i in range(n)]
    elif kind == "blackman":
        v = [0.42 - 0.5 * math.cos(x) + 0.08 * math.cos(2. * x) for x in a]
    elif kind[0] == "kaiser":
        v = [bessel0(kind[1] * math.sqrt(max(0., 1. - (2. * i / (n - 1) - 1.) ** 2))) for i in range(n)]
    else:
        v = [math.exp(-0.5 * ((i - (n - 1) / 2.) / kind[1]) ** 2) for i in range(n)]
    return [x / sum(v) for x in v]


def points(c, width, res):
    """nearest number of gridpoints, made odd by rounding up"""
    d = 360. / nl(res)[1]
    k = 0
    while not c.decide(width < (k + .5) * d):
        k += 1
    return k if k % 2 else k + 1


def arbitrary_width(c, res, hi=400., lo=0.):
    w = c.real("width", lo, hi)
    d = 360. / nl(res)[1]
    k = 0
    while (k + .5) * d < hi:
        c.assume(c.or_(w < (k + .5) * d - 1e-6, w > (k + .5) * d + 1e-6))
        k += 1
    return w


def window(c, w, res, **kw):
    g = c.bt.Grid(res, rsphere=2.)
    width = arbitrary_width(c, res, **kw)
    # other windows of the same width before
    for v in {(w + 1) % len(WINDOWS), 0 if w else 3}:
        g.get_filter_window(WINDOWS[v], width)
    win = g.get_filter_window(WINDOWS[w], width)
    want = weights(w, points(c, width, res))
    c.check("size", win.shape == (len(want),))
    c.close("window", win, want, 1e-9)
    c.observe("window", win)


def mirrored(k, n):
    """gridpoint at position k of the mirrored continuation (edges repeated)"""
    k = k % (2 * n)
    return k if k < n else 2 * n - 1 - k


def average(c, f, i, win, axis):
    """weighted average of a 1D profile around i"""
    n, h = len(f), len(win) // 2
    ix = (lambda k: mirrored(k, n)) if axis == "meridional" else (lambda k: k % n)
    # (true convolution: the first weight applies to the point with the largest index)
    return sum(win[h - k] * f[ix(i + k)] for k in range(-h, h + 1))


def compare(c, label, got, f, win, axis, dim):
    c.check("shape", got.shape == f.shape)
    if dim == 1:
        want = [average(c, list(f), i, win, axis) for i in range(len(f))]
    elif axis == "zonal":
        want = [[average(c, list(row), i, win, axis) for i in range(len(row))] for row in f]
    else:
        cols = [[average(c, list(f[:, k]), j, win, axis) for j in range(f.shape[0])] for k in range(f.shape[1])]
        want = [[cols[k][j] for k in range(f.shape[1])] for j in range(f.shape[0])]
    c.close(label, got, want, 1e-7)


def field(c, g, axis, dim):
    n = g.nlat if axis == "meridional" else g.nlon
    # (the other dimension is free for 2D fields)
    return c.array("f", (n,) if dim == 1 else (n, 3) if axis == "meridional" else (2, n), -10, 10)


def named(c, axis, dim, w, res):
    g = c.bt.Grid(res, rsphere=2.)
    f = field(c, g, axis, dim)
    sf = c.snapshot(f)
    fn = g.filter_meridional if axis == "meridional" else g.filter_zonal
    width = arbitrary_width(c, res)
    got = fn(f, WINDOWS[w], width)
    compare(c, "average", got, f, weights(w, points(c, width, res)), axis, dim)
    c.unchanged("field", f, sf)
    k = c.real("k", -10, 10)
    const = c.np.zeros(f.shape) + k
    c.close("constants", fn(const, WINDOWS[w], width), const, 1e-9)
    c.observe("got", got)


def given(c, axis, dim, n, res):
    """given windows (fixed, asymmetric weights) for all fields"""
    g = c.bt.Grid(res, rsphere=2.)
    f = field(c, g, axis, dim)
    win = [((i * 7 + 3) % 5 - 1.) / 4. for i in range(n)]
    a = c.np.array(win)
    fn = g.filter_meridional if axis == "meridional" else g.filter_zonal
    got = fn(f, a)
    compare(c, "average", got, f, win, axis, dim)
    c.close("window unchanged", a, win, 0.)
    c.observe("got", got)


def given_window_any(c, axis, n):
    """given windows with arbitrary weights for fixed fields"""
    g = c.bt.Grid(60., rsphere=2.)
    a = c.array("w", (n,), -1, 1)
    sa = c.snapshot(a)
    m = g.nlat if axis == "meridional" else g.nlon
    f = c.np.array([((i * 5 + 1) % 7) - 3. for i in range(m)])
    fn = g.filter_meridional if axis == "meridional" else g.filter_zonal
    got = fn(f, a)
    compare(c, "average", got, f, list(a), axis, 1)
    f2 = c.np.array([[((i * 5 + 1 + 2 * j) % 7) - 3. for i in range(g.nlon)] for j in range(g.nlat)])
    compare(c, "average", fn(f2, a), f2, list(a), axis, 2)
    c.unchanged("window", a, sa)
    c.observe("got", got)


def stays_between(c, axis, w, width):
    g = c.bt.Grid(60., rsphere=2.)
    f = field(c, g, axis, 1)
    fn = g.filter_meridional if axis == "meridional" else g.filter_zonal
    got = fn(f, WINDOWS[w], width)
    lo, hi = c.real("lo", -10, 10), c.real("hi", -10, 10)
    c.assume(c.and_(*[c.and_(x >= lo, x <= hi) for x in f]))
    c.le("range", got, hi, 1e-6)
    c.le("range", lo, got, 1e-6)
    if axis == "zonal":
        c.close("mean", sum(got), sum(f), 1e-6)
    c.observe("got", got)


def rotation(c, w):
    g = c.bt.Grid(45., rsphere=2.)
    f = field(c, g, "zonal", 2)
    m = g.nlon
    a = g.filter_zonal(f, WINDOWS[w], 200.)
    for s in range(1, m):
        r = [(i + s) % m for i in range(m)]
        c.close("rotation", g.filter_zonal(f[:, r], WINDOWS[w], 200.), a[:, r], 1e-7)
    c.close("mean", c.np.sum(a, axis=1), c.np.sum(f, axis=1), 1e-6)
    c.observe("a", a)


def refusals(c, axis):
    g = c.bt.Grid(60., rsphere=2.)
    n, m = g.shape
    x = c.real("x", -1, 1)
    fn = g.filter_meridional if axis == "meridional" else g.filter_zonal
    k = n if axis == "meridional" else m
    for shape in ((k + 1,), (k - 1,), (), (2, 2, k), (k, k, k), (k + 1, k + 1), (n - 1, m - 1), ((n + 1, m) if axis == "meridional" else (n, m + 1))):
        c.refuses("shape", lambda: fn(c.np.ones(shape) * x if shape else c.np.array(x), "hann", 120.))
        c.refuses("shape", lambda: fn(c.np.ones(shape) * x if shape else c.np.array(x), c.np.array([.25, .5, .25])))
