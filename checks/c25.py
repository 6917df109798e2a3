"""C25 Imported states hold the dataset's fields, times and coordinates."""
import datetime
import sys
import types
from .lib import smooth

BOUNDS = ("datasets on 90 and 60 degree grids with up to 3 further dimensions (up to 6 combinations) and all values in [-10, 10] at 2 gridpoints of every combination; all longitude arrays of 4 and 6 and latitude arrays of 3 and 4 "
          "values in [-400, 800] (accepted within 1e-6, refused from 0.05 degrees off a regular grid), all numbers of gridpoints from 3x2 to 7x12; all variable names and their priorities, overrides, layouts and times; "
          "round trips of arbitrary smooth states")
OUTSIDE = "xarray itself (the symbolic run uses a model of its labelled arrays, compared with the library on every path); deviations of the coordinates between rounding and 0.05 degrees; cftime calendars"
ASSUMPTIONS = ["symx/xrmodel.py models the constructors, selection and coordinates of xarray (the library is used itself in the replay of every path)",
               "the falwa package (not installed) is replaced by a container with the attributes its BarotropicField documents"]
OPTS = {"max_paths": 3000}
KW = dict(rsphere=2., omega=0.4)


def tasks(tier):
    q = tier == "quick"
    out = []
    for lay in LAYOUTS:
        for kind in ("uv", "vo", "avo"):
            if q and kind == "vo" and lay != "time":
                continue
            out.append(("layout", dict(lay=lay, kind=kind)))
    for kind in ("uv", "vo", "avo"):
        for n in ((1, 3) if q else (1, 2, 3, 5)):
            out.append(("roundtrip", dict(kind=kind, n=n, res=60.)))
        if not q:
            out.append(("roundtrip", dict(kind=kind, n=2, res=45.)))
    out += [("equal_times", {}), ("names", {}), ("override", {}), ("priority", {}), ("priority_named", {}), ("half_wind", {}), ("times", {}), ("dates", {}), ("grid", {}), ("dataarray", {})]
    for m in (4, 6):
        out += [("longitudes", dict(m=m)), ("latitudes", dict(m=m))]
    out += [("perturbed", dict(m=m, which=w)) for m in ((6,) if q else (6, 8, 12)) for w in ("lat", "lon")]
    out.append(("scaled", {}))
    for nlat in range(3, 6 if q else 8):
        out.append(("sizes", dict(nlat=nlat, nmax=8 if q else 12)))
    out += [("positions", {}), ("refusals", {}), ("hn_roundtrip", {}), ("hn_import", {}), ("hn_grid", {})]
    return out


# further dimensions: (name, size, coordinate?) ; time coordinates
LAYOUTS = {
    "none": [],
    "time": [("time", 3, True)],
    "member_time": [("member", 2, True), ("time", 3, True)],
    "time_member": [("time", 2, True), ("member", 3, True)],
    "single": [("time", 1, True)],
    "single_first": [("member", 1, True), ("time", 2, True)],
    "level_time": [("time", 2, True), ("level", 1, True), ("member", 2, True)],
    "three": [("a", 1, True), ("b", 2, True), ("c", 3, True)],
    "no_coord": [("step", 3, False)],
    "time_no_coord": [("time", 2, False)],
    "mixed": [("x", 2, False), ("time", 2, True)],
}


def space(res=60.):
    n, m = round(180 / res) + 1, round(360 / res)
    return [90. - 180. * j / (n - 1) for j in range(n)], [360. * i / m for i in range(m)]


def given(c, k, n, m, name, seed):
    f = [[((3 * i + 5 * j + 2 * k + seed) % 7) - 2.5 + 0.5 * k for i in range(m)] for j in range(n)]
    f[1][(k + seed) % m] = c.real(f"{name}{k}a", -10, 10)
    f[n - 2][(2 * k + 1) % m] = c.real(f"{name}{k}b", -10, 10)
    return f


def nest(flat, shape):
    """row-major"""
    if not shape:
        return flat[0]
    n = len(flat) // shape[0]
    return [nest(flat[i * n:(i + 1) * n], shape[1:]) for i in range(shape[0])]


def field(c, flat, extra):
    return c.np.array(nest(flat, [x[1] for x in extra]))


def state(c, g, kind, flds, k):
    S = c.bt.State
    a = [c.np.array(f[k]) for f in flds]
    return S.from_wind(g, 0., *a) if kind == "uv" else S.from_vorticity(g, 0., a[0]) if kind == "vo" else S(g, 0., pv=a[0])


def layout(c, lay, kind):
    extra = [tuple(x) for x in LAYOUTS[lay]]
    la, lo = space()
    dims = tuple(x[0] for x in extra) + ("latitude", "longitude")
    N = 1
    for x in extra:
        N *= x[1]
    names = {"uv": ["u", "v"], "vo": ["vo"], "avo": ["avo"]}[kind]
    flds = [[given(c, k, 4, 6, nm, s) for k in range(N)] for s, nm in enumerate(names)]
    co = {"latitude": la, "longitude": lo}
    vals = {}
    for d, n, has in extra:
        if has:
            # neither sorted nor evenly spaced
            vals[d] = [c.real(f"{d}{i}", -50, 50) for i in range(n)] if d == "time" else [7. - 3. * i * i + 5. * i for i in range(n)]
            co[d] = vals[d]
    ds = c.xr.Dataset({nm: (dims, field(c, f, extra)) for nm, f in zip(names, flds)}, co)
    s = c.bt.io.from_dataset(ds, grid_kwargs=KW, time_fill=77.)
    c.check("type", isinstance(s, c.bt.StateList))
    c.check("number", len(s) == N)
    g = s[0].grid
    c.check("grid", g.shape == (4, 6) and g.rsphere == 2. and g.omega == 0.4)
    # row-major combinations
    for k in range(N):
        c.close("fields", s[k].pv, state(c, g, kind, flds, k).pv, 1e-5)
        if "time" in vals:
            r, i = k, None
            for d, n, has in extra[::-1]:
                if d == "time":
                    i = r % n
                r //= n
            c.close("time", s[k].time, vals["time"][i], 1e-12)
        else:
            c.close("fill", s[k].time, 77., 0.)
    c.observe("pv", s.pv)
    c.observe("time", s.time)


def roundtrip(c, kind, n, res):
    """export and import"""
    g = c.bt.Grid(res, **KW)
    st = []
    for k in range(n):
        sp = smooth(c, g, f"s{k}", 2, 5.)
        st.append(c.bt.State(g, c.real(f"t{k}", -100, 100), pv_spectral=sp))
    for i in range(n):
        for j in range(i):
            c.assume(c.or_(st[i].time > st[j].time, st[i].time < st[j].time))
    f = {"uv": ("u", "v"), "vo": {"vo": "vorticity"}, "avo": "avo"}[kind]
    s = c.bt.io.from_dataset(c.bt.io.as_dataset(st, f), grid_kwargs=KW)
    c.check("number", len(s) == n)
    c.check("grid", s.grid == g)
    c.close("time", s.time, [x.time for x in st], 1e-12)
    for k in range(n):
        c.close("pv", s[k].pv, st[k].pv, 1e-3)
        c.close("u", s[k].u, st[k].u, 1e-3)
    c.observe("pv", s.pv)


def equal_times(c):
    """labels need not be unique"""
    g = c.bt.Grid(60., **KW)
    t = c.real("t", -5, 5)
    st = [c.bt.State(g, t if k != 1 else 3., pv=c.np.array(given(c, k, 4, 6, "p", 0))) for k in range(3)]
    for f in ("avo", ("u", "v")):
        s = c.bt.io.from_dataset(c.bt.io.as_dataset(st, f), grid_kwargs=KW)
        c.check("number", len(s) == 3)
        c.close("time", s.time, [x.time for x in st], 1e-12)
        for k in range(3):
            c.close("u", s[k].u, st[k].u, 1e-4)


def ds1(c, vars, lat="latitude", lon="longitude", time=None, res=60., more=None):
    la, lo = space(res)
    co = {lat: la, lon: lo}
    if time is not None:
        co["time"] = time
    co.update(more or {})
    return c.xr.Dataset({k: ((lat, lon), c.np.array(v)) for k, v in vars.items()}, co)


def names(c):
    """all recognised names"""
    F = c.bt.io.from_dataset
    f, h = given(c, 0, 4, 6, "f", 0), given(c, 1, 4, 6, "h", 3)
    u = c.pick("u", ["u", "ugrd", "eastward_wind"])
    v = c.pick("v", ["v", "vgrd", "northward_wind"])
    lat, lon = c.pick("lat", ["latitude", "lat"]), c.pick("lon", ["longitude", "lon"])
    s = F(ds1(c, {v: h, u: f}, lat, lon), grid_kwargs=KW)
    c.close("wind", s[0].pv, state(c, s.grid, "uv", [[f], [h]], 0).pv, 1e-5)
    for nm in ("vo", "relv", "vorticity", "relative_vorticity"):
        s = F(ds1(c, {nm: f}, lat, lon), grid_kwargs=KW)
        c.close("vorticity", s[0].pv, state(c, s.grid, "vo", [[f]], 0).pv, 1e-5)
    for nm in ("avo", "absv", "absolute_vorticity", "pv"):
        s = F(ds1(c, {nm: f}, lat, lon), grid_kwargs=KW)
        c.close("absolute", s[0].pv, state(c, s.grid, "avo", [[f]], 0).pv, 1e-5)
    for nm in ("zeta", "U", "x"):
        c.refuses("unknown", lambda: F(ds1(c, {nm: f})))
    for la, lo in (("y", "longitude"), ("latitude", "x"), ("phi", "lambda")):
        c.refuses("unknown coordinates", lambda: F(ds1(c, {"avo": f}, la, lo)))


def override(c):
    """custom names"""
    F = c.bt.io.from_dataset
    f, h, w = [given(c, k, 4, 6, n, k) for k, n in enumerate("fhw")]
    # distractors with default names
    ds = ds1(c, {"u": w, "v": w, "U": f, "V": h, "vo": w, "zeta": f, "q": h, "avo": w}, more={"step": c.real("step", -5, 5), "time": 55.})
    s = F(ds, dict(u="U", v="V"), KW)
    c.close("wind", s[0].pv, state(c, s.grid, "uv", [[f], [h]], 0).pv, 1e-5)
    c.close("time", s[0].time, 55., 0.)
    s = F(ds, names={"v": "V", "time": "step"}, grid_kwargs=KW)
    c.close("wind", s[0].pv, state(c, s.grid, "uv", [[w], [h]], 0).pv, 1e-5)
    c.close("time", s[0].time, c.real("step", -5, 5) if False else ds.coords["step"].values, 1e-12)
    ds = ds1(c, {"vo": w, "zeta": f, "q": h, "avo": w})
    s = F(ds, dict(vo="zeta"), KW)
    c.close("vorticity", s[0].pv, state(c, s.grid, "vo", [[f]], 0).pv, 1e-5)
    ds = ds1(c, {"q": h, "avo": w}, "y", "x")
    s = F(ds, dict(avo="q", lat="y", lon="x"), KW)
    c.close("absolute", s[0].pv, state(c, s.grid, "avo", [[h]], 0).pv, 1e-5)
    s = F(ds, dict(lat="y", lon="x"), KW)
    c.close("absolute", s[0].pv, state(c, s.grid, "avo", [[w]], 0).pv, 1e-5)


def priority(c):
    """wind before relative before absolute vorticity"""
    F = c.bt.io.from_dataset
    have = {n: c.pick(n, [True, False]) for n in ("u", "v", "vo", "avo")}
    fl = {n: given(c, k, 4, 6, "f" + n, k) for k, n in enumerate(have)}
    ds = ds1(c, {n: fl[n] for n in ("avo", "vo", "v", "u") if have[n]})
    if have["u"] and have["v"]:
        kind, f = "uv", [[fl["u"]], [fl["v"]]]
    elif have["vo"]:
        kind, f = "vo", [[fl["vo"]]]
    elif have["avo"]:
        kind, f = "avo", [[fl["avo"]]]
    else:
        c.refuses("no fields", lambda: F(ds))
        return
    s = F(ds, grid_kwargs=KW)
    c.check("number", len(s) == 1)
    c.close("pv", s[0].pv, state(c, s.grid, kind, f, 0).pv, 1e-5)


def priority_named(c):
    """the same with names given for any of the fields"""
    F = c.bt.io.from_dataset
    sets = [("u", "v", "vo", "avo"), ("u", "v", "vo"), ("u", "v", "avo"), ("vo", "avo"), ("u", "vo"), ("v", "avo")]
    have = c.pick("have", sets)
    fl = {n: given(c, k, 4, 6, "f" + n, k) for k, n in enumerate(("u", "v", "vo", "avo"))}
    kind = "uv" if "u" in have and "v" in have else "vo" if "vo" in have else "avo"
    f = [[fl[n]] for n in (("u", "v") if kind == "uv" else (kind,))]
    for k in range(1, 16):
        named = {n: "my_" + n for i, n in enumerate(("u", "v", "vo", "avo")) if k >> i & 1 and n in have}
        if not named:
            continue
        s = F(ds1(c, {named.get(n, n): fl[n] for n in have[::-1]}), names=named, grid_kwargs=KW)
        c.check("number", len(s) == 1)
        c.close("pv", s[0].pv, state(c, s.grid, kind, f, 0).pv, 1e-5)


def half_wind(c):
    """order of the names within one kind"""
    F = c.bt.io.from_dataset
    a, b = given(c, 0, 4, 6, "a", 0), given(c, 1, 4, 6, "b", 1)
    for names in (["vo", "relv", "vorticity", "relative_vorticity"], ["avo", "absv", "absolute_vorticity", "pv"]):
        for i in range(4):
            for j in range(i + 1, 4):
                s = F(ds1(c, {names[j]: b, names[i]: a}), grid_kwargs=KW)
                c.close("first", s[0].pv, state(c, s.grid, names[0], [[a]], 0).pv, 1e-5)


def times(c):
    """scalar and further time coordinates, fill values"""
    F = c.bt.io.from_dataset
    f = given(c, 0, 4, 6, "f", 0)
    t = c.real("t", -100, 100)
    s = F(ds1(c, {"avo": f}, time=t), grid_kwargs=KW)
    c.close("scalar", s[0].time, t, 1e-12)
    s = F(ds1(c, {"avo": f}), None, KW, t)
    c.close("fill", s[0].time, t, 1e-12)
    s = F(ds1(c, {"avo": f}), grid_kwargs=KW)
    c.close("default", s[0].time, 0., 0.)
    la, lo = space()
    # valid time along another dimension or two
    ts = [c.real(f"t{k}", -5, 5) for k in range(4)]
    flds = [given(c, k, 4, 6, "g", 0) for k in range(4)]
    ds = c.xr.Dataset({"avo": (("step", "lat", "lon"), c.np.array(flds))}, {"lat": la, "lon": lo, "step": [3., 1., 2., 7.], "time": (("step",), ts)})
    s = F(ds, grid_kwargs=KW)
    c.close("along", s.time, ts, 1e-12)
    ds = c.xr.Dataset({"avo": (("run", "step", "lat", "lon"), field(c, flds, [("run", 2), ("step", 2)]))},
                      {"lat": la, "lon": lo, "time": (("run", "step"), [ts[:2], ts[2:]])})
    s = F(ds, grid_kwargs=KW)
    c.close("along", s.time, ts, 1e-12)
    for k in range(4):
        c.close("pv", s[k].pv, state(c, s.grid, "avo", [flds], k).pv, 1e-5)
    # time coordinate that does not belong to the fields
    ds = c.xr.Dataset({"avo": (("step", "lat", "lon"), c.np.array(flds))}, {"lat": la, "lon": lo, "time": [1., 2.]})
    s = F(ds, grid_kwargs=KW, time_fill=-3.)
    c.close("unrelated", s.time, [-3.] * 4, 0.)


def dates(c):
    """datetimes survive, to the microsecond"""
    F = c.bt.io.from_dataset
    D = datetime.datetime
    d = [D(2020, 2, 29, 12), D(1960, 1, 1, 0, 30, 15), D(2020, 2, 28, 23, 59, 59, 999999), D(1969, 12, 31, 23, 59, 59, 500000), D(2100, 7, 1, 6)]
    g = c.bt.Grid(60., **KW)
    st = [c.bt.State(g, t, pv=c.np.array(given(c, k, 4, 6, "p", 0))) for k, t in enumerate(d)]
    s = F(c.bt.io.as_dataset(st, "avo"), grid_kwargs=KW)
    c.check("times", list(s.time) == d)
    c.check("type", all(type(t) is D for t in s.time))
    for k in range(5):
        c.close("pv", s[k].pv, st[k].pv, 1e-4)
    f = given(c, 7, 4, 6, "f", 0)
    s = F(ds1(c, {"avo": f}), grid_kwargs=KW, time_fill=d[1])
    c.check("fill", s[0].time == d[1])
    s = F(ds1(c, {"avo": f}, time=d[2]), grid_kwargs=KW)
    c.check("scalar", s[0].time == d[2])


def grid(c):
    F = c.bt.io.from_dataset
    f = given(c, 0, 4, 6, "f", 0)
    B = c.bt.Grid
    for kw in (None, {}, dict(rsphere=3.), dict(omega=1e-3), dict(ntrunc=2), dict(rsphere=5., omega=2., ntrunc=1)):
        s = F(ds1(c, {"avo": f}), grid_kwargs=kw)
        c.check("grid", s.grid == B(60., **(kw or {})))
        c.check("shared", all(x.grid is s[0].grid for x in s))
        c.close("lat", s.grid.lat, space()[0], 1e-9)
        c.close("lon", s.grid.lon, space()[1], 1e-9)
    h = given(c, 1, 5, 8, "h", 0)
    s = F(ds1(c, {"avo": h}, res=45.))
    c.check("grid", s.grid == B(45.))


def dataarray(c):
    """single arrays, named after their content"""
    F = c.bt.io.from_dataset
    la, lo = space()
    flds = [given(c, k, 4, 6, "g", 0) for k in range(2)]
    co = {"time": [3., 5.], "lat": la, "lon": lo}
    for nm, kind in (("pv", "avo"), ("vo", "vo")):
        da = c.xr.DataArray(c.np.array(flds), coords=co, dims=("time", "lat", "lon"), name=nm)
        s = F(da, grid_kwargs=KW)
        c.close("time", s.time, [3., 5.], 0.)
        for k in range(2):
            c.close("pv", s[k].pv, state(c, s.grid, kind, [flds], k).pv, 1e-5)
    da = c.xr.DataArray(c.np.array(flds), coords=co, dims=("time", "lat", "lon"), name="zeta")
    c.refuses("unknown", lambda: F(da))
    s = F(da, dict(vo="zeta"), KW)
    c.close("pv", s[1].pv, state(c, s.grid, "vo", [flds], 1).pv, 1e-5)


def attempt(c, la, lo, f=None):
    """whether these coordinates are accepted"""
    f = [[((2 * i + 3 * j) % 5) + 1. for i in range(len(lo))] for j in range(len(la))] if f is None else f
    ds = c.xr.Dataset({"avo": (("lat", "lon"), c.np.array(f))}, {"lat": c.np.array(la), "lon": c.np.array(lo)})
    got = []
    e = c.raises(lambda: got.append(c.bt.io.from_dataset(ds, grid_kwargs=KW)))
    return got[0] if e is None else None


def longitudes(c, m):
    """arbitrary longitudes"""
    la, lo = space(360. / m)
    x = [c.real(f"x{i}", -400, 800) for i in range(m)]
    s = attempt(c, la, x)
    if s is not None:
        for i in range(m):
            c.le("regular", abs(x[i] - lo[i]), 0.05)
        c.check("grid", s.grid.shape == (len(la), m))
    else:
        c.check("refused", c.not_(c.and_(*[abs(x[i] - lo[i]) <= 1e-6 for i in range(m)])))


def latitudes(c, m):
    la, lo = space(360. / m)
    x = [c.real(f"x{i}", -400, 800) for i in range(len(la))]
    s = attempt(c, x, lo)
    if s is not None:
        for i in range(len(la)):
            c.le("regular", abs(x[i] - la[i]), 0.05)
        c.check("grid", s.grid.shape == (len(la), m))
    else:
        c.check("refused", c.not_(c.and_(*[abs(x[i] - la[i]) <= 1e-6 for i in range(len(la))])))


def perturbed(c, m, which):
    """one or two coordinates off a regular grid"""
    la, lo = space(360. / m)
    x = la if which == "lat" else lo
    i, j = c.pick("i", list(range(len(x)))), c.pick("j", list(range(len(x))))
    a, b = c.real("a", -360, 360), c.real("b", -360, 360)
    x[i] = x[i] + a
    if i != j:
        x[j] = x[j] + b
    else:
        b = 0.
    s = attempt(c, la, lo)
    if s is not None:
        c.le("regular", [abs(a), abs(b)], 0.05)
    else:
        c.check("refused", c.not_(c.and_(abs(a) <= 1e-6, abs(b) <= 1e-6)))


def scaled(c):
    """stretched, shifted or reversed coordinates"""
    la, lo = space()
    k, d = c.real("k", -3, 3), c.real("d", -720, 720)
    which = c.pick("which", ["lat", "lon", "both"])
    if which in ("lat", "both"):
        la = [k * x + d for x in la]
    if which in ("lon", "both"):
        lo = [k * x + d for x in lo]
    s = attempt(c, la, lo)
    if s is not None:
        c.le("regular", [abs(k - 1.), abs(d)], 0.05)
    else:
        c.check("refused", c.not_(c.and_(abs(k - 1.) <= 1e-9, abs(d) <= 1e-9)))


def sizes(c, nlat, nmax):
    """every number of latitudes and longitudes, evenly spaced in several ways"""
    m = c.pick("m", list(range(2, nmax + 1)))
    kind = c.pick("kind", ["lon spacing", "pole to pole"])
    lo = [360. * i / m for i in range(m)]
    d = 360. / m if kind == "lon spacing" else 180. / (nlat - 1)
    la = [90. - d * j for j in range(nlat)]
    f = [[((2 * i + 3 * j) % 5) + c.real("f", -1, 1) * (i == j) for i in range(m)] for j in range(nlat)]
    s = attempt(c, la, lo, f)
    ok = m == 2 * (nlat - 1)
    c.check("accepted", (s is not None) == ok)
    if ok:
        c.close("lat", s.grid.lat, la, 1e-9)
        c.close("lon", s.grid.lon, lo, 1e-9)


def positions(c):
    """every value ends up at its coordinates"""
    res = 45.
    la, lo = space(res)
    g = c.bt.Grid(res, **KW)
    sp = smooth(c, g, "s", 3, 5.)
    f = g.to_grid(sp)
    ds = c.xr.Dataset({"pv": (("lat", "lon"), f)}, {"lat": la, "lon": lo})
    s = c.bt.io.from_dataset(ds, grid_kwargs=KW)
    c.close("pv", s[0].pv, f, 1e-4)
    # the dataset is not modified
    c.close("input", ds["pv"].values, f, 0.)
    c.close("input", ds["lat"].values, la, 0.)


def refusals(c):
    F = c.bt.io.from_dataset
    X = c.xr.Dataset
    la, lo = space()
    x = c.real("x", -5, 5)
    f = c.np.array([[x * i - j for i in range(6)] for j in range(4)])
    b = c.np.array([[[x * i - j * k for i in range(6)] for j in range(4)] for k in range(2)])
    co = {"lat": la, "lon": lo, "time": [1., 2.]}
    c.refuses("transposed", lambda: F(X({"avo": (("lon", "lat"), f.T)}, co)))
    c.refuses("transposed", lambda: F(X({"avo": (("lat", "time", "lon"), b.transpose(1, 0, 2))}, co)))
    c.refuses("transposed", lambda: F(X({"avo": (("lat", "lon", "time"), b.transpose(1, 2, 0))}, co)))
    c.refuses("different dimensions", lambda: F(X({"u": (("time", "lat", "lon"), b), "v": (("lat", "lon"), f)}, co)))
    c.refuses("different dimensions", lambda: F(X({"u": (("time", "lat", "lon"), b), "v": (("member", "lat", "lon"), b)}, co)))
    c.refuses("no latitude", lambda: F(X({"avo": (("time", "lon"), b[:, 0])}, {"lon": lo, "time": [1., 2.]})))
    c.refuses("zonal mean", lambda: F(X({"avo": (("time", "lat"), b[:, :, 0])}, co)))
    c.refuses("one longitude", lambda: F(X({"avo": (("lat", "lon"), f[:, :1])}, {"lat": la, "lon": lo[:1]})))
    c.refuses("2d latitude", lambda: F(X({"avo": (("y", "x"), f)}, {"lat": (("y", "x"), f), "lon": (("x",), lo)})))
    c.refuses("name of nothing", lambda: F(X({"avo": (("lat", "lon"), f)}, co), dict(lat="nothing")))
    c.refuses("name of nothing", lambda: F(X({"avo": (("lat", "lon"), f)}, co), dict(avo="nothing")))
    c.refuses("empty", lambda: F(X()))
    c.check("accepted", len(F(X({"avo": (("time", "lat", "lon"), b)}, co))) == 2)


class Field:
    """attributes documented by falwa's BarotropicField"""
    def __init__(self, c, xlon, ylat, pv_field, **kw):
        import math
        self.xlon, self.ylat, self.pv_field, self.kw = xlon, ylat, pv_field, kw
        self.nlon, self.nlat = xlon.size, ylat.size
        self.dphi = c.np.ones(self.nlat) * (math.pi / (self.nlat - 1))


def hn_roundtrip(c):
    mod = types.ModuleType("falwa.barotropic_field")
    mod.BarotropicField = lambda xlon, ylat, pv_field, **kw: Field(c, xlon, ylat, pv_field, **kw)
    pkg = types.ModuleType("falwa")
    pkg.barotropic_field = mod
    old = {k: sys.modules.get(k) for k in ("falwa", "falwa.barotropic_field")}
    sys.modules.update({"falwa": pkg, "falwa.barotropic_field": mod})
    try:
        g = c.bt.Grid(45., **KW)
        st = c.bt.State(g, 5., pv_spectral=smooth(c, g, "s", 3, 5.))
        pv = c.snapshot(st.pv)
        f = st.as_hn2016(eq_lat="x", other=3)
        c.check("arguments", f.kw == dict(eq_lat="x", other=3))
        c.close("lon", f.xlon, g.lon, 0.)
        # from the South Pole
        c.close("lat", f.ylat, [g.lat[4 - j] for j in range(5)], 0.)
        c.close("pv", f.pv_field, [st.pv[4 - j] for j in range(5)], 1e-9)
        t = c.real("t", -5, 5)
        for s in (c.bt.State.from_hn2016(g, t, f), c.bt.State.from_hn2016(None, t, f)):
            c.close("pv", s.pv, pv, 1e-4)
            c.close("time", s.time, t, 1e-12)
        c.check("grid", c.bt.State.from_hn2016(g, t, f).grid is g)
        c.close("state", st.pv, pv, 0.)
        c.observe("pv", s.pv)
    finally:
        for k, v in old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


def hn_import(c):
    g = c.bt.Grid(60., **KW)
    p = c.np.array(given(c, 0, 4, 6, "p", 0))
    sp = c.snapshot(p)
    f = Field(c, c.np.array(g.lon), c.np.array(g.lat[::-1]), p)
    s = c.bt.State.from_hn2016(g, 9., f)
    c.close("pv", s.pv, c.bt.State(g, 0., pv=c.np.array([p[3 - j] for j in range(4)])).pv, 1e-5)
    c.unchanged("input", p, sp)


def hn_grid(c):
    """grid matching the field, or refusal"""
    for res in (60., 45., 30., 20.):
        la, lo = space(res)
        n, m = len(la), len(lo)
        f = Field(c, c.np.array(lo), c.np.array(la[::-1]), c.np.ones((n, m)) * c.real("x", -1, 1))
        s = c.bt.State.from_hn2016(None, 0., f)
        c.check("grid", s.grid == c.bt.Grid(res))
        for r2 in (60., 45., 30.):
            if r2 != res:
                c.refuses("other grid", lambda: c.bt.State.from_hn2016(c.bt.Grid(r2), 0., f))
