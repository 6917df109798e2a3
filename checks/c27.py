"""C27 Plot presets draw the state's fields."""
import math
from .lib import PI, D2R, lats, lons, nl, smooth

BOUNDS = ("the values handed to matplotlib's drawing methods, read back from the calls and located by the tick labels of the same axes: summary of all perturbations (three coefficients, amplitude in [-0.1, 0.1]) of a given state, and of all multiples in [-1, 1] of given harmonics; "
          "wave activity and wave packets of all multiples in [0.5, 2] of a given PV field; waveguides of all multiples in [-0.02, 0.02] of a jet; grids of 22.5-60 degrees (thorough: 12); hemispheres both/N/S, 3-6 centre longitudes, all overrides of the colour ranges in [0.1, 1000] with several hemispheres; motionless, zonally symmetric, solid-body and constant-PV states")
OUTSIDE = "rendering by matplotlib (its drawing methods are recorded; a model refuses what they refuse), colours, layout and titles other than the time; centre longitudes other than the listed ones are C26"
OPTS = {"max_paths": 400, "max_validate": 3}
CENTRES = [180, 0, 90, 250., -100]


def tasks(tier):
    q = tier == "quick"
    out = []
    hc = [("both", 180), ("N", 0), ("S", 250.)] if q else [(h, x) for h in ("both", "N", "S") for x in (180, 0, 90, 250., -100)]
    for h, x in hc:
        out.append(("summary", dict(res=45. if h == "N" else 60., hemi=h, ctr=x)))
        out.append(("wave_activity", dict(res=60. if h == "S" else 45., hemi=h, ctr=x)))
        out.append(("rwp", dict(res=45. if h == "both" else 60., hemi=h, ctr=x)))
        out.append(("waveguides", dict(res=30. if h == "both" else 22.5, hemi=h)))
    out += [("summary_any", dict(res=60., hemi="both", ctr=90, i=i)) for i in ((0, 2) if q else range(4))]
    out += [("wave_activity", dict(res=36., hemi="N", ctr=90)), ("rwp", dict(res=30., hemi="S", ctr=-100)), ("summary", dict(res=22.5, hemi="both", ctr=0))]
    if not q:
        out += [("summary", dict(res=12., hemi="both", ctr=-100)), ("rwp", dict(res=20., hemi="both", ctr=90)), ("wave_activity", dict(res=30., hemi="N", ctr=90))]
    out += [("overrides", dict(preset=p, hemi=h)) for p in ("pv", "v", "rwp_v", "rwp") for h in (dict(pv=("both", "N"), v=("S", "both"), rwp_v=("N",), rwp=("both", "S"))[p] if q else ("both", "N", "S"))]
    out += [("special", dict(kind=k, hemi=h)) for k in SPECIAL for h in (("both",) if q else ("both", "N", "S"))]
    out += [("shortcuts", {}), ("styles", {}), ("guides_options", {})]
    return out


class Panel:
    """What one pair of axes shows, located by its tick labels"""

    def __init__(self, c, rec, g):
        self.c, self.rec, self.g = c, rec, g
        self.n, self.m = g.shape
        self.shift = None

    def calls(self, *kinds):
        return [x for x in self.rec.calls if x[0] in kinds]

    def locate(self):
        """longitude displayed at x=0, from the labels"""
        c, res = self.c, 360. / self.m
        ok = self.rec.ticks is not None and self.rec.labels is not None and len(self.rec.ticks) == len(self.rec.labels)
        c.check("map labels", ok and any(t.strip() for t in self.rec.labels))
        sh = [(float(t.rstrip("°")) - float(x)) % 360. for x, t in zip(self.rec.ticks, self.rec.labels) if t.strip()]
        c.check("map labels", all(min(abs(s - sh[0]), 360. - abs(s - sh[0])) <= 1.01 for s in sh))
        k = round(sh[0] / res)
        c.check("map labels", min(abs(sh[0] - k * res), 360. - abs(sh[0] - k * res)) <= 1.01)
        self.shift = k
        return k

    def column(self, x):
        """gridpoint whose longitude is displayed at x"""
        k = float(x) * self.m / 360.
        return (round(k) + self.shift) % self.m, abs(k - round(k)) < 1e-6

    def row(self, y):
        k = (90. - float(y)) * (self.n - 1) / 180.
        return round(k), abs(k - round(k)) < 1e-6 and 0 <= round(k) < self.n

    def field(self, call):
        """(gridded field, levels, keywords) of a contour call, None if it does not cover every gridpoint once"""
        c, a, kw = self.c, list(call[1]), call[2]
        if len(a) < 3:
            return None
        x, y, z = a[:3]
        lev = a[3] if len(a) > 3 else kw.get("levels")
        z, np = c.np.asarray(z), c.np
        x, y = c.np.asarray(x), c.np.asarray(y)
        if z.shape != (self.n, self.m):
            return None
        X = [x[i] for i in range(self.m)] if x.ndim == 1 else None
        Y = [y[j] for j in range(self.n)] if y.ndim == 1 else None
        out = [[None] * self.m for _ in range(self.n)]
        for j in range(self.n):
            for i in range(self.m):
                k, ok1 = self.column(X[i] if X else x[j, i])
                l, ok2 = self.row(Y[j] if Y else y[j, i])
                if not (ok1 and ok2):
                    return None
                out[l][k] = z[j, i]
        if any(v is None for r in out for v in r):
            return None
        return c.np.array(out), lev, kw


def near(c, a, b, tol):
    a, b = c.np.asarray(a), c.np.asarray(b)
    if a.shape != b.shape:
        return False
    return c.and_(*[close1(u, v, tol) for u, v in zip(list(a.reshape(-1)), list(b.reshape(-1)))])


def close1(u, v, tol):
    # infinite stationary wavenumbers
    if isinstance(u, float) and isinstance(v, float) and not (math.isfinite(u) and math.isfinite(v)):
        return u == v or (u != u and v != v)
    return abs(u - v) <= tol


def t4(st):
    """tolerance of PV in 1e-4/s (the transforms are in single precision)"""
    return 0.05 if st.grid.omega > 0.1 else 1e-4


def first(c, cands, want, tol):
    """index of the first candidate that shows the field"""
    for i, x in enumerate(cands):
        if x is not None and c.decide(near(c, x, want, tol)):
            return i
    return None


def shows(c, label, p, kind, want, tol=1e-6):
    """some call of the kind shows the field at its place; returns its levels and keywords"""
    fs = [p.field(x) for x in p.calls(kind)]
    c.check(label + ": on the grid", len(fs) > 0 and all(x is not None for x in fs))
    k = first(c, [x[0] for x in fs], want, tol)
    c.check(label, k is not None)
    return (None, {}) if k is None else fs[k][1:]


def draws(c, f):
    """the panels of the one figure that f() draws and returns"""
    r, figs = c.figures(f)
    c.check("one figure", len(figs) == 1)
    c.check("returned", r is figs[0][0])
    return figs[0]


def panels(c, st, recs, kinds):
    """maps have filled contours"""
    ps = [Panel(c, r, st.grid) for r in recs]
    maps = [p for p in ps if p.calls("contourf")]
    lines = [p for p in ps if not p.calls("contourf")]
    for p in maps:
        p.locate()
    c.check("panels", (len(lines), len(maps)) == kinds)
    return lines, maps


def centred(c, p, ctr):
    """the requested meridian (nearest gridpoint) is in the middle"""
    k = (p.m // 2 + p.shift) % p.m
    d = (k * 360. / p.m - ctr) % 360.
    c.check("centre", min(d, 360. - d) <= 180. / p.m + 1e-6)


def extent(c, p, hemi):
    want = dict(both=(-90, 90), N=(0, 90), S=(-90, 0))[hemi]
    c.check("hemisphere", tuple(float(x) for x in p.rec.ylim) == want)


def profile(c, p, want, label, la, tol=1e-6):
    """a line of the profile over latitude"""
    ls = [x for x in p.calls("plot") if len(x[1]) >= 2 and c.np.shape(x[1][0]) == (len(la),) and c.np.shape(x[1][1]) == (len(la),)]
    for x in ls:
        c.close(label + ": latitude", x[1][1], la, 1e-6)
    k = first(c, [x[1][0] for x in ls], want, tol)
    c.check(label, k is not None)
    return ls[k][2] if k is not None else {}


def symmetric(c, label, lev, f, ext=None, tol=1e-6):
    """levels are symmetric about zero and reach the extremes of the field"""
    lev = list(lev)
    n = len(lev)
    for i in range(n):
        c.le(label + " symmetric", abs(lev[i] + lev[n - 1 - i]), tol)
    if ext is not None:
        c.close(label + " extent", lev[-1], ext, tol)
    else:
        for x in list(c.np.asarray(f).reshape(-1)):
            c.le(label + " extent", abs(x), lev[-1] + tol)


def timed(c, recs, st, n):
    t = c.bt.formatting.format_time(st.time)
    c.check("time", sum(1 for r in recs if any(x[1] == t for x in r.titles)) >= n)


def zmean(c, f):
    return [sum(list(r)) / len(list(r)) for r in f]


def snap(c, st):
    return [(x, c.snapshot(x)) for x in (st.pv_spectral, st.pv, st.u, st.v, st.grid.lon, st.grid.lat)]


def same(c, s):
    for x, y in s:
        c.unchanged("state", x, y)


def small_grid(c, res):
    return c.bt.Grid(resolution=res, rsphere=2., omega=0.5)


def state_any(c, res, i):
    """all multiples of one spherical harmonic on top of the planetary vorticity"""
    g = small_grid(c, res)
    T = g._ntrunc
    k = [(m, n) for m in range(T + 1) for n in range(m, T + 1)]
    sp = c.np.zeros(len(k), dtype=complex)
    sp[k.index([(1, 1), (1, 2), (0, 2), (2, 2)][i])] = c.real("a", -1, 1) * (1. if i == 2 else 0.6 - 0.8j)
    return c.bt.State(g, 4000., pv_spectral=g.to_spectral(g.fcor2) + sp)


def wavy(c, g, pert=True, amp=1.):
    n, m = g.shape
    la, lo = lats(180. / (n - 1)), lons(360. / m)
    e = [c.real(f"e{i}", -0.1, 0.1) for i in range(3)] if pert else [0., 0., 0.]
    T = g._ntrunc
    sp = c.np.zeros((T + 1) * (T + 2) // 2, dtype=complex)
    i = 0
    for a in range(T + 1):
        for b in range(a, T + 1):
            if 1 <= b <= n - 2 and a <= m // 2 - 1:
                sp[i] = amp * (0.1 / b * (1 + a) * ((1.3 if (a + b) % 2 else -0.7) + (0.4j if a else 0.)))
                if (a, b) == (1, 2):
                    sp[i] = sp[i] + e[0]
                if (a, b) == (1, 1):
                    sp[i] = sp[i] + 1j * e[1]
                if (a, b) == (0, 2):
                    sp[i] = sp[i] + e[2]
            i += 1
    return sp + g.to_spectral(g.fcor2)


def state_scaled(c, res):
    """all multiples of a given PV field"""
    g = small_grid(c, res)
    return c.bt.State(g, 4000., pv_spectral=c.real("a", 0.5, 2.) * wavy(c, g, False))


def state_wave(c, res, amp=1.):
    g = small_grid(c, res)
    return c.bt.State(g, 4000., pv_spectral=wavy(c, g, amp=amp))


# presets

def check_summary(c, st, hemi, ctr, **kw):
    g = st.grid
    la = lats(180. / (g.nlat - 1))
    s = snap(c, st)
    fig, size, recs = draws(c, lambda: c.bt.plot.summary(st, hemisphere=hemi, center_lon=ctr, **kw))
    lines, maps = panels(c, st, recs, (2, 2))
    for p in maps:
        centred(c, p, ctr)
    for p in lines + maps:
        extent(c, p, hemi)
    timed(c, recs, st, 1)
    # the panels of vorticity and wind
    vort = [p for p in lines if any(x[2].get("label") for x in p.calls("plot"))]
    c.check("vorticity panel", len(vort) == 1)
    wind = [p for p in lines if p is not vort[0]]
    for name, f in (("pla", c.np.array([2. * g.omega * math.sin(x * D2R) for x in la])), ("rel", c.np.array(zmean(c, st.vorticity))), ("pot", c.np.array(zmean(c, st.pv)))):
        k = profile(c, vort[0], 1e4 * f, "mean vorticity " + name, la, t4(st))
        x = [q for q in vort[0].calls("plot") if str(q[2].get("label", "")).startswith(name)]
        c.check("legend", len(x) == 1)
        c.close("legend " + name, x[0][1][0], 1e4 * f, t4(st))
    profile(c, wind[0], c.np.array(zmean(c, st.u)), "mean wind", la)
    pvp = [p for p in maps if p.calls("quiver")]
    psp = [p for p in maps if p.calls("contour")]
    # a motionless state has neither vectors nor streamlines
    if len(pvp) == 1:
        other = [p for p in maps if p is not pvp[0]][0]
    elif len(psp) == 1:
        pvp, other = [p for p in maps if p is not psp[0]], psp[0]
    else:
        pvp, other = [maps[0]], maps[1]
    lev, k = shows(c, "PV", pvp[0], "contourf", 1e4 * st.pv, t4(st))
    symmetric(c, "PV levels", lev, 1e4 * st.pv, None if kw.get("pv_max") is None else 1e4 * kw["pv_max"], t4(st))
    if "pv_cmap" in kw:
        c.check("colours", k.get("cmap") == kw["pv_cmap"])
    lev, k = shows(c, "v", other, "contourf", st.v)
    symmetric(c, "v levels", lev, st.v, kw.get("v_max"))
    # vectors and streamfunction
    psi = st.streamfunction
    lo, hi = c.min(list(psi.reshape(-1))), c.max(list(psi.reshape(-1)))
    if other.calls("contour"):
        lev, k = shows(c, "streamfunction", other, "contour", psi)
        c.le("streamfunction levels", lo, lev[0], 1e-6)
        c.le("streamfunction levels", lev[-1], hi, 1e-6)
    else:
        c.le("streamfunction missing", hi - lo, 1e-3)
    qs = pvp[0].calls("quiver")
    if qs:
        x, y, u, v = [c.np.asarray(a) for a in qs[0][1][:4]]
        c.check("vectors", x.shape == y.shape == u.shape == v.shape and len(x.reshape(-1)) >= g.nlat)
        for a, b, p, q in zip(*[list(t.reshape(-1)) for t in (x, y, u, v)]):
            i, ok1 = pvp[0].column(a)
            j, ok2 = pvp[0].row(b)
            c.check("vectors: on the grid", ok1 and ok2)
            c.close("vectors", [p, q], [st.u[j, i], st.v[j, i]], 1e-6)
    else:
        for f in (st.u, st.v):
            c.le("vectors missing", abs(f), 1e-6)
    same(c, s)


def summary(c, res, hemi, ctr):
    check_summary(c, state_wave(c, res), hemi, ctr)


def summary_any(c, res, hemi, ctr, i):
    check_summary(c, state_any(c, res, i), hemi, ctr)


def check_activity(c, st, hemi, ctr, **kw):
    g = st.grid
    la = lats(180. / (g.nlat - 1))
    s = snap(c, st)
    fig, size, recs = draws(c, lambda: c.bt.plot.wave_activity(st, hemisphere=hemi, center_lon=ctr, **kw))
    lines, maps = panels(c, st, recs, (2, 2))
    for p in maps:
        centred(c, p, ctr)
    for p in lines + maps:
        extent(c, p, hemi)
    timed(c, recs, st, 1)
    pvp = [p for p in lines if any(x[2].get("label") for x in p.calls("plot"))]
    c.check("PV panel", len(pvp) == 1)
    fp = [p for p in lines if p is not pvp[0]]
    zl, zm = 1e4 * st.pv_zonalized, 1e4 * c.np.array(zmean(c, st.pv))
    for name, f in (("equiv", zl), ("mean", zm)):
        profile(c, pvp[0], f, "profile " + name, la, t4(st))
        x = [q for q in pvp[0].calls("plot") if str(q[2].get("label", "")).startswith(name)]
        c.check("legend", len(x) == 1)
        c.close("legend " + name, x[0][1][0], f, t4(st))
    profile(c, fp[0], st.fawa, "FAWA", la)
    dev = 1e4 * st.pv - zl[:, None]
    # the two maps, in either order
    fields = [[p.field(x)[0] for x in p.calls("contourf") if p.field(x) is not None] for p in maps]
    c.check("maps", all(len(x) == 1 for x in fields))
    i = first(c, [x[0] for x in fields], st.falwa, 1e-6)
    c.check("FALWA", i is not None)
    if i is None:
        return
    k = 1 - i if c.decide(near(c, fields[1 - i][0], dev, t4(st))) else i
    lev, kk = shows(c, "deviation from zonalized PV", maps[k], "contourf", dev, t4(st))
    if lev is not None:
        symmetric(c, "deviation levels", lev, dev, None, t4(st))
    if "falwa_cmap" in kw:
        c.check("colours", any(x[2].get("cmap") == kw["falwa_cmap"] for x in maps[i].calls("contourf")))
    pvc(c, maps, st, 1e4, t4(st))
    same(c, s)


def pvc(c, maps, st, scale, tol):
    """PV contours on the maps; they may only be missing where PV is constant"""
    pv = scale * st.pv
    lo, hi = c.min(list(pv.reshape(-1))), c.max(list(pv.reshape(-1)))
    for p in maps:
        if p.calls("contour"):
            lev, _ = shows(c, "PV", p, "contour", pv, tol)
            c.le("PV levels", lo, lev[0], tol)
            c.le("PV levels", lev[-1], hi, tol)
        else:
            c.le("PV missing", hi - lo, tol)


def wave_activity(c, res, hemi, ctr):
    check_activity(c, state_scaled(c, res), hemi, ctr)


def dwn_standin(c, g):
    """the wavelet diagnostic needs a package that is not installed: wavenumbers that differ everywhere"""
    n, m = g.shape
    f = [[1.05 + ((3 * j + 2 * i) % 7) * 0.31 + 0.001 * (j * m + i) for i in range(m)] for j in range(n)]
    seen = []

    def dominant_wavenumber_wavelet(field, grid, smooth=("hann", 40., 60.)):
        seen.append((field, grid))
        return c.np.array(f)
    c.bt.diagnostics.dominant_wavenumber_wavelet = dominant_wavenumber_wavelet
    return c.np.array(f), seen


def check_rwp(c, st, hemi, ctr, **kw):
    g = st.grid
    orig = c.bt.diagnostics.dominant_wavenumber_wavelet
    try:
        dwn, seen = dwn_standin(c, g)
        s = snap(c, st)
        fig, size, recs = draws(c, lambda: c.bt.plot.rwp_diagnostics(st, hemisphere=hemi, center_lon=ctr, **kw))
    finally:
        c.bt.diagnostics.dominant_wavenumber_wavelet = orig
    for f, gg in seen:
        c.close("dominant wavenumber of v", f, st.v, 1e-6)
        c.check("dominant wavenumber grid", gg == g)
    lines, maps = panels(c, st, recs, (0, 3))
    for p in maps:
        centred(c, p, ctr)
        extent(c, p, hemi)
    timed(c, recs, st, 1)
    env = st.v_envelope_hilbert
    ff = c.bt.diagnostics.filter_by_wavenumber(st.falwa, 2 * dwn)
    lev, _ = shows(c, "v", maps[0], "contourf", st.v)
    symmetric(c, "v levels", lev, st.v, kw.get("v_max"))
    lev, _ = shows(c, "dominant wavenumber", maps[0], "contour", dwn)
    c.check("wavenumber levels", all(abs(float(x) - round(float(x))) < 1e-9 for x in lev))
    ranges = []
    lev, k = shows(c, "envelope", maps[1], "contourf", env)
    ranges.append(lev)
    if "rwp_cmap" in kw:
        c.check("colours", k.get("cmap") == kw["rwp_cmap"])
    psi = st.streamfunction
    lo, hi = c.min(list(psi.reshape(-1))), c.max(list(psi.reshape(-1)))
    if maps[1].calls("contour"):
        lev, _ = shows(c, "streamfunction", maps[1], "contour", psi)
        c.le("streamfunction levels", lo, lev[0], 1e-6)
        c.le("streamfunction levels", lev[-1], hi, 1e-6)
    else:
        c.le("streamfunction missing", hi - lo, 1e-3)
    lev, _ = shows(c, "filtered FALWA", maps[2], "contourf", ff)
    ranges.append(lev)
    if all(x is not None for x in ranges):
        c.close("common range", ranges[0], ranges[1], 1e-9)
        c.close("range starts at 0", ranges[0][0], 0., 1e-9)
        if kw.get("rwp_max") is not None:
            c.close("range", ranges[0][-1], kw["rwp_max"], 1e-6)
        else:
            for f in (env, ff):
                for x in list(f.reshape(-1)):
                    c.le("range", x, ranges[0][-1], 1e-6)
    pvc(c, maps[2:], st, 1., 1e-7)
    same(c, s)


def rwp(c, res, hemi, ctr):
    check_rwp(c, state_scaled(c, res), hemi, ctr)


# zonal flows for the waveguide plot

def check_guides(c, st, hemi, ks=(), **kw):
    g = st.grid
    la = lats(180. / (g.nlat - 1))
    s = snap(c, st)
    if "k_waveguides" not in kw and ks:
        kw["k_waveguides"] = list(ks)
    fig, size, recs = draws(c, lambda: c.bt.plot.waveguides(st, hemisphere=hemi, **kw))
    ps = [Panel(c, r, g) for r in recs]
    c.check("panels", len(ps) == 2)
    for p in ps:
        extent(c, p, hemi)
    profile(c, ps[0], c.np.array(zmean(c, st.u)), "mean wind", la)
    k = st.stationary_wavenumber
    profile(c, ps[1], c.np.real(k) - c.np.imag(k), "stationary wavenumber", la)
    # waveguides: segments between turning latitudes at their wavenumber
    got = {}
    for x in ps[1].calls("plot"):
        xx, yy = list(x[1][0]), list(x[1][1])
        if len(yy) == g.nlat and c.decide(near(c, yy, la, 1e-6)):
            continue
        c.check("waveguides", len(xx) == len(yy))
        seg, cur = [], []
        for a, b in zip(xx, yy):
            if b != b or a != a:
                seg.append(cur)
                cur = []
            else:
                cur.append((a, b))
        seg = [t for t in seg + [cur] if t]
        for t in seg:
            c.check("waveguide segments", len(t) == 2)
            c.close("wavenumber", t[0][0], t[1][0], 1e-9)
            got.setdefault(float(t[0][0]), []).append([q[1] for q in t])
    want = {}
    for q in ks:
        for x in c.bt.diagnostics.extract_ks_waveguides(k, q, grid=g):
            want.setdefault(float(q), []).append(list(x))
    c.check("wavenumbers", sorted(got) == sorted(want))
    for q in want:
        c.check("waveguide count", len(got[q]) == len(want[q]))
        for a, b in zip(got[q], want[q]):
            c.close("waveguide", [c.min(a), c.max(a)], [c.min(b), c.max(b)], 1e-9)
    b = kw.get("klim_bounds", (-5, 15))
    c.le("limits", b[0], ps[1].rec.xlim[0], 1e-9)
    c.le("limits", ps[1].rec.xlim[1], b[1], 1e-9)
    c.check("ticks", all(abs(float(x) - round(float(x))) < 1e-9 for x in ps[1].rec.ticks))
    same(c, s)


def zonal(c, res, pert=True):
    g = c.bt.Grid(resolution=res, rsphere=2., omega=3.)
    e = c.real("e", -0.02, 0.02) if pert else 0.
    a = [0.3, 1.5, 0.2, 0.35, 0.1]
    u = c.np.array([[(sum(a[i] * math.cos(2 * i * x * D2R) for i in range(5)) + e * math.cos(2 * x * D2R)) * math.cos(x * D2R)] * g.nlon for x in lats(res)])
    return c.bt.State.from_wind(g, 12., u, c.np.zeros(g.shape))


def waveguides(c, res, hemi):
    check_guides(c, zonal(c, res), hemi, (1, 2, 4))


def guides_options(c):
    st = zonal(c, 30., False)
    o = c.pick("o", [0, 1, 2, 3])
    if o == 0:
        check_guides(c, st, "both", (2,), k_waveguides=2, legend_loc="best")
    elif o == 1:
        check_guides(c, st, "both", (), k_waveguides=[])
    elif o == 2:
        check_guides(c, st, "N", (1.5, 3), k_waveguides=(1.5, 3), klim_bounds=(0, 8))
    else:
        check_guides(c, st, "S", (), klim_bounds=(0, 6))


def overrides(c, preset, hemi):
    x = c.real("x", 0.1, 1000.)
    st = c.bt.State(small_grid(c, 60.), 0., pv_spectral=wavy(c, small_grid(c, 60.), False))
    if preset == "pv":
        check_summary(c, st, hemi, 180, pv_max=x)
    elif preset == "v":
        check_summary(c, st, hemi, 180, v_max=x)
    elif preset == "rwp_v":
        check_rwp(c, st, hemi, 0, v_max=x)
    else:
        check_rwp(c, st, hemi, 180, rwp_max=x)


SPECIAL = ["motionless", "solid", "symmetric", "constant", "zero"]


def special(c, kind, hemi):
    """states without motion or without waves, on the real planet"""
    g = c.bt.Grid(resolution=30.)
    t = c.pick("t", [0., 1e6])
    if kind == "motionless":
        st = c.bt.init.motionless(g, t)
    elif kind == "solid":
        st = c.bt.init.solid_body_rotation(g, t, amplitude=15.)
    elif kind == "symmetric":
        st = c.bt.init.gaussian_jet(g, t, amplitude=20., center_lat=45., stdev_lat=10.)
    else:
        st = c.bt.State(g, t, pv=c.np.full(g.shape, 1e-4 if kind == "constant" else 0.))
    p = c.pick("preset", [check_summary, check_activity, check_rwp, None])
    if p is None:
        check_guides(c, st, hemi, (2, 3))
    else:
        p(c, st, hemi, 180)


def same_calls(c, a, b):
    c.check("same panels", len(a) == len(b))
    for x, y in zip(a, b):
        c.check("same calls", [q[0] for q in x.calls] == [q[0] for q in y.calls])
        for u, v in zip(x.calls, y.calls):
            c.check("same arguments", len(u[1]) == len(v[1]))
            for p, q in zip(u[1], v[1]):
                p, q = c.np.asarray(p), c.np.asarray(q)
                c.check("same values", p.shape == q.shape and all((s == t) or (s != s and t != t) for s, t in zip(list(p.reshape(-1)), list(q.reshape(-1)))))
        c.check("same labels", x.labels == y.labels and x.ylim == y.ylim and x.titles == y.titles)


def shortcuts(c):
    """state.plot draws the same figures with the same options and returns nothing"""
    name = c.pick("name", ["summary", "wave_activity", "rwp_diagnostics", "waveguides"])
    opt = c.pick("opt", [0, 1])
    kw = [dict(), dict(hemisphere="S", **(dict(k_waveguides=2) if name == "waveguides" else dict(center_lon=60)))][opt]
    st = zonal(c, 30., False) if name == "waveguides" else c.bt.State(small_grid(c, 60.), 5., pv_spectral=wavy(c, small_grid(c, 60.), False))
    orig = c.bt.diagnostics.dominant_wavenumber_wavelet
    try:
        dwn_standin(c, st.grid)
        r, a = c.figures(lambda: getattr(c.bt.plot, name)(st, **kw))
        s, b = c.figures(lambda: getattr(st.plot, name)(**kw))
    finally:
        c.bt.diagnostics.dominant_wavenumber_wavelet = orig
    c.check("returned", r is a[0][0])
    c.check("nothing returned", s is None)
    c.check("one figure", len(a) == len(b) == 1)
    same_calls(c, a[0][2], b[0][2])


def styles(c):
    name = c.pick("name", ["summary", "wave_activity", "rwp_diagnostics"])
    st = c.bt.State(small_grid(c, 60.), 5., pv_spectral=wavy(c, small_grid(c, 60.), False))
    if name == "summary":
        check_summary(c, st, "both", 180, pv_cmap="magma")
    elif name == "wave_activity":
        check_activity(c, st, "both", 180, falwa_cmap="viridis")
    else:
        check_rwp(c, st, "both", 180, rwp_cmap="Blues")
    orig = c.bt.diagnostics.dominant_wavenumber_wavelet
    try:
        dwn_standin(c, st.grid)
        r, f = c.figures(lambda: getattr(c.bt.plot, name)(st, figsize=(5., 4.)))
    finally:
        c.bt.diagnostics.dominant_wavenumber_wavelet = orig
    c.check("size", tuple(float(x) for x in f[0][1]) == (5., 4.))
