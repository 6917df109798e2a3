"""C19 Waveguides are exactly the latitudes where Ks is at least k."""
import math
from .lib import lats, nl

BOUNDS = ("grids of 30-60 degrees (thorough: 22.5), all stationary wavenumber profiles made of arbitrary real and imaginary values up to 20 and infinite ones at given latitudes, "
          "all wavenumbers in [-20, 20] (also imaginary ones), and the profiles of states; any latitude of the globe")
OUTSIDE = "finer grids; values within 1e-6 of k except where exactly equal"
OPTS = {"max_paths": 6000}

# r/i: arbitrary real/imaginary, +/-: positive/negative infinite (imaginary), k: equal to k, 0: zero
PATTERNS = ["rrrr", "riri", "0rr0", "ir+r", "r+ir", "r-rr", "+rri", "-+-r", "r+-r", "rr-+", "+-ri", "++rr", "rk-r", "k+ir"]
LONG = ["rrrrr", "0rir0", "r+rr-", "-rr+i", "rkrir", "i+r-r"]
LONGER = ["rrrrrrr", "0ri+-r0", "i+rr-ri", "rr+rrrr", "krrirrk", "r-irr+r"]


def tasks(tier):
    q = tier == "quick"
    out = [("bounds", dict(pat=p, kimag=False)) for p in PATTERNS + LONG + ([] if q else LONGER)]
    out += [("bounds", dict(pat=p, kimag=True)) for p in (PATTERNS[1], PATTERNS[4], LONG[1])]
    out += [("membership", dict(pat=p)) for p in (PATTERNS[:6] if q else PATTERNS + LONG)]
    out += [("equal", dict(pat=p)) for p in ("rkrr", "krrk", "kkrr", "rkkr", "kkkk", "rrkkr", "krkrk")]
    out += [("states", dict(res=45.))]
    return out


def profile(c, pat, k):
    """(complex stationary wavenumbers, real values)"""
    n = len(pat)
    ks, r = c.np.zeros(n, dtype=complex), []
    for j, x in enumerate(pat):
        if x in "ri":
            v = c.real(f"k{j}", 0, 20)
            ks[j] = v if x == "r" else 1j * v
            v = v if x == "r" else -v
        elif x == "k":
            # (only with real k)
            v = k
            ks[j] = v
        elif x == "0":
            v = 0.
        else:
            v = math.inf if x == "+" else -math.inf
            ks[j] = complex(math.inf, 0.) if x == "+" else complex(0., math.inf)
        r.append(v)
    return ks, r


def inf(x):
    return not hasattr(x, "p") and abs(float(x)) == math.inf


def wavenumber(c, imag):
    v = c.real("k", 0, 20)
    return (1j * v, -v) if imag else (v, v)


def separate(c, r, k, skip=()):
    for j, x in enumerate(r):
        if not inf(x) and x is not k and j not in skip:
            c.assume(c.or_(x > k + 1e-3, x < k - 1e-3))


def bounds(c, pat, kimag):
    """number, order and bounds of the waveguides"""
    n = len(pat)
    res = 180. / (n - 1)
    g = c.bt.Grid(res, rsphere=2.)
    la = lats(res)
    kk, k = wavenumber(c, kimag)
    ks, r = profile(c, pat, k)
    separate(c, r, k)
    sk = c.snapshot(ks)
    got = c.bt.diagnostics.extract_ks_waveguides(ks, kk, g)
    # list of alternating northern and southern bounds; each: (segment, kind)
    want = []
    above = [True if x is k else r_above(c, x, k) for x in r]
    if above[0]:
        want.append((None, 90.))
    for j in range(n - 1):
        if above[j] != above[j + 1]:
            want.append((j, None))
    if above[-1]:
        want.append((None, -90.))
    # (a single latitude equal to k between smaller ones or at the edge may be left out or be degenerate)
    if "k" in pat:
        return membership_at_nodes(c, got, la, r, k, above)
    c.check("number", 2 * len(got) == len(want))
    flat = [b for w in got for b in w]
    c.check("pairs", all(len(w) == 2 for w in got))
    for b, (j, x) in zip(flat, want):
        if j is None:
            c.close("pole", b, x, 1e-9)
            continue
        c.le("segment", b, la[j], 1e-7)
        c.le("segment", la[j + 1], b, 1e-7)
        if not inf(r[j]) and not inf(r[j + 1]):
            c.close("crossing", (b - la[j]) * (r[j + 1] - r[j]), (k - r[j]) * (la[j + 1] - la[j]), 1e-5)
    for x, y in zip(flat[:-1], flat[1:]):
        c.le("order", y, x, 1e-7)
    c.unchanged("profile", ks, sk)
    c.observe("bounds", [b for b in flat])


def r_above(c, x, k):
    return x > 0 if inf(x) else c.decide(x > k)


def inside(c, x, got):
    return c.or_(*[c.and_(w[0] >= x, w[1] <= x) for w in got]) if got else c.or_(False)


def outside(c, x, got):
    """(bounds may be there)"""
    return c.and_(*[c.or_(w[0] <= x + 1e-6, w[1] >= x - 1e-6) for w in got]) if got else c.and_(True)


def membership_at_nodes(c, got, la, r, k, above):
    prev = 90.
    for w in got:
        for b in w:
            c.le("order", b, prev, 1e-7)
            prev = b
    c.le("globe", -90., prev, 1e-7)
    for j, x in enumerate(la):
        if r[j] is k or inf(r[j]):
            continue
        if above[j]:
            c.check("covered", inside(c, x, got))
        else:
            c.check("not covered", outside(c, x, got))


def membership(c, pat):
    """any latitude is in a waveguide if the interpolated profile is larger than k there, and in none if it is smaller"""
    n = len(pat)
    res = 180. / (n - 1)
    g = c.bt.Grid(res, rsphere=2.)
    la = lats(res)
    kk, k = wavenumber(c, False)
    ks, r = profile(c, pat, k)
    separate(c, r, k)
    got = c.bt.diagnostics.extract_ks_waveguides(ks, kk, g)
    j = c.pick("segment", range(n - 1))
    z = c.real("z", 0, 1)
    x = la[j] + z * (la[j + 1] - la[j])
    if inf(r[j]) or inf(r[j + 1]):
        # a segment next to an infinite value
        a = [r_above(c, r[i], k) for i in (j, j + 1)]
        if a[0] == a[1]:
            c.assume(c.and_(z > 1e-3, z < 1 - 1e-3))
            c.check("segment", inside(c, x, got) if a[0] else outside(c, x, got))
        return
    d = (r[j] - k) * (1 - z) + (r[j + 1] - k) * z
    if c.decide(d > 0):
        c.assume(d > 1e-3)
        c.check("covered", inside(c, x, got))
    else:
        c.assume(d < -1e-3)
        c.check("not covered", outside(c, x, got))


def equal(c, pat):
    """values exactly equal to k"""
    n = len(pat)
    res = 180. / (n - 1)
    g = c.bt.Grid(res, rsphere=2.)
    la = lats(res)
    k = c.real("k", 0, 20)
    ks, r = profile(c, pat, k)
    separate(c, r, k)
    got = c.bt.diagnostics.extract_ks_waveguides(ks, k, g)
    above = [None if x is k else r_above(c, x, k) for x in r]
    membership_at_nodes(c, got, la, r, k, above)
    for j in range(n - 1):
        # between k and another value
        x = 0.5 * (la[j] + la[j + 1])
        if (above[j] is None) != (above[j + 1] is None):
            a = above[j + 1] if above[j] is None else above[j]
            c.check("segment", inside(c, x, got) if a else outside(c, x, got))


def states(c, res):
    """with a state, its own stationary wavenumber is used"""
    g = c.bt.Grid(res, rsphere=2., omega=3.)
    n, m = g.shape
    a = c.real("a", 0.5, 2)
    st = c.bt.State(g, 0., pv=c.np.array([[a * ((n - 1. - j) ** 1.5 + .6 * ((3 * i + 5 * j) % 7)) for i in range(m)] for j in range(n)]))
    u = [sum(r) / m for r in st.u]
    for x in u[1:-1]:
        c.assume(c.or_(x > 2e-3, x < -2e-3))
    D = c.bt.diagnostics
    for k in (1., 3.):
        x, y, z = D.extract_ks_waveguides(st, k), st.extract_ks_waveguides(k), D.extract_ks_waveguides(st.stationary_wavenumber, k, g)
        c.check("number", len(x) == len(y) == len(z))
        for i in range(len(x)):
            c.close("state", list(x[i]), list(z[i]), 1e-7)
            c.close("shortcut", list(y[i]), list(z[i]), 1e-7)
