"""C24 Exported datasets contain the states' fields under the right labels."""
import datetime

BOUNDS = ("collections of 0..3 (thorough: 0..5) states on 60 and 90 degree grids with arbitrary times and PV (in [-10, 10] at 3 gridpoints of every state), all kinds of field specification (name, list, mapping, callables returning "
          "numbers, meridional and zonal profiles, fields), all forms of collections, concatenation along time, user attributes (numbers, strings, datetimes) and unlabelled dimensions; datetime times at given instants; numbers of states equal to the numbers of latitudes and longitudes")
OUTSIDE = "xarray itself (the symbolic run uses a model of its labelled arrays, compared with the library on every path); file formats; encoding of attributes"
ASSUMPTIONS = ["symx/xrmodel.py models the constructors, selection and coordinates of xarray (the library is used itself in the replay of every path)"]
OPTS = {"max_paths": 2000}


def tasks(tier):
    q = tier == "quick"
    out = []
    for n in ((1, 3) if q else (1, 2, 3, 5)):
        for res in ((60.,) if q else (90., 60., 45.)):
            out += [("fields", dict(n=n, res=res, spec=s)) for s in ("default", "name", "list", "tuple", "map", "generator")]
            out += [("callables", dict(n=n, res=res)), ("user", dict(n=n, res=res))]
        out += [("square", dict(n=k)) for k in ((3, 4) if q else (2, 3, 4, 5, 6))] if n == 1 else []
        out += [("dims", dict(n=n, kind=k)) for k in ("number", "string", "date", "none", "pv", "short")]
    out += [("collections", {}), ("single", {}), ("empty", {}), ("datetimes", {}), ("refusals", {}), ("order", {}), ("attrs", {}), ("shortcut", {})]
    return out


def make(c, n, res=60.):
    g = c.bt.Grid(res, rsphere=2.)
    out = []
    N, M = g.shape
    for k in range(n):
        f = [[((3 * i + 5 * j + 2 * k) % 7) - 2.5 + j for i in range(M)] for j in range(N)]
        for x in range(3):
            f[(x + 1) % N][(2 * x + k) % M] = c.real(f"p{k}{x}", -10, 10)
        out.append(c.bt.State(g, c.real(f"t{k}", -100, 100), pv=c.np.array(f)))
    return g, out


def coords(c, g, ds, st, dim="time"):
    """coordinates are those of grid and states"""
    c.check("latitude", tuple(ds["latitude"].dims) == ("latitude",))
    c.check("longitude", tuple(ds["longitude"].dims) == ("longitude",))
    c.close("latitude", ds.coords["latitude"].values, g.lat, 1e-12)
    c.close("longitude", ds.coords["longitude"].values, g.lon, 1e-12)
    if dim == "time":
        c.check("time", tuple(ds["time"].dims) == ("time",))
        c.close("time", ds.coords["time"].values, [x.time for x in st], 1e-12)


def var(c, ds, name, dims, want, tol=1e-6):
    v = ds[name]
    c.check("dimensions", tuple(v.dims) == dims)
    c.check("shape", tuple(v.shape) == c.np.shape(want))
    c.close(name, v.values, want, tol)
    c.check("data variable", name in list(ds.data_vars))


def fields(c, n, res, spec):
    g, st = make(c, n, res)
    names = {"default": ["u", "v"], "name": ["pv"], "list": ["v", "u", "vorticity"], "tuple": ["streamfunction", "avo"], "map": ["u", "v"], "generator": ["pv", "u"]}[spec]
    rename = {x: x for x in names}
    arg = {"name": "pv", "list": names, "tuple": tuple(names)}.get(spec)
    if spec == "map":
        # crossed names
        rename = {"v": "u", "x": "v", "u": "pv"}
        arg = rename
    if spec == "generator":
        arg = (x for x in names)
    ds = c.bt.io.as_dataset(st) if spec == "default" else c.bt.io.as_dataset(st, arg) if n % 2 else c.bt.io.as_dataset(st, fields=arg)
    c.check("variables", sorted(ds.data_vars) == sorted(rename))
    c.check("coordinates", sorted(ds.coords) == ["latitude", "longitude", "time"])
    coords(c, g, ds, st)
    for name, attr in rename.items():
        var(c, ds, name, ("time", "latitude", "longitude"), [getattr(x, attr) for x in st])
    for name in rename:
        c.observe(name, ds[name].values)
    c.observe("time", ds["time"].values)


def callables(c, n, res):
    """values of any documented shape"""
    g, st = make(c, n, res)
    a = c.real("a", -3, 3)
    N, M = g.shape
    spec = {
        "number": lambda s: s.time * a,
        "merid": lambda s: s.u[:, 1] + a,
        "zonal": lambda s: s.pv[1, :] * a,
        "mean": lambda s: s.pv.mean(axis=c.bt.ZONAL),
        "field": lambda s: s.pv * a + s.time,
        "u": "v",
        "int": lambda s: 4,
    }
    ds = c.bt.io.as_dataset(st, spec)
    coords(c, g, ds, st)
    c.check("variables", sorted(ds.data_vars) == sorted(spec))
    var(c, ds, "number", ("time",), [x.time * a for x in st])
    var(c, ds, "merid", ("time", "latitude"), [x.u[:, 1] + a for x in st])
    var(c, ds, "zonal", ("time", "longitude"), [x.pv[1, :] * a for x in st])
    var(c, ds, "mean", ("time", "latitude"), [[sum(x.pv[j, i] for i in range(M)) / M for j in range(N)] for x in st])
    var(c, ds, "field", ("time", "latitude", "longitude"), [x.pv * a + x.time for x in st])
    var(c, ds, "u", ("time", "latitude", "longitude"), [x.v for x in st])
    var(c, ds, "int", ("time",), [4] * n)
    for k in ("number", "merid", "zonal", "field"):
        c.observe(k, ds[k].values)


def square(c, n):
    """as many states as latitudes or longitudes"""
    g, st = make(c, n, 90.)
    a = c.real("a", -3, 3)
    spec = {"m": lambda s: s.pv[:, 1] * a, "z": lambda s: s.pv[1] * a, "n": lambda s: s.time, "f": "pv"}
    for dim in ("time", "k"):
        ds = c.bt.io.as_dataset(st, spec, concat_dim=dim)
        var(c, ds, "m", (dim, "latitude"), [x.pv[:, 1] * a for x in st])
        var(c, ds, "z", (dim, "longitude"), [x.pv[1] * a for x in st])
        var(c, ds, "n", (dim,), [x.time for x in st])
        var(c, ds, "f", (dim, "latitude", "longitude"), [x.pv for x in st])
        coords(c, g, ds, st, dim)


def user(c, n, res):
    """attributes set by the user"""
    g, st = make(c, n, res)
    for k, x in enumerate(st):
        x.val = c.real(f"val{k}", -5, 5)
        x.prof = c.np.array([x.val * j for j in range(g.nlat)])
        x.line = c.np.array([x.val - j for j in range(g.nlon)])
    ds = c.bt.io.as_dataset(st, ["val", "prof", "line"])
    var(c, ds, "val", ("time",), [x.val for x in st])
    var(c, ds, "prof", ("time", "latitude"), [x.prof for x in st])
    var(c, ds, "line", ("time", "longitude"), [x.line for x in st])
    coords(c, g, ds, st)
    ds = c.bt.io.as_dataset(st, [])
    c.check("no fields", list(ds.data_vars) == [])


def dims(c, n, kind):
    """other concatenation dimensions"""
    g, st = make(c, n)
    dim = "member"
    want = None
    for k, x in enumerate(st):
        if kind == "number":
            x.member = c.real(f"m{k}", -5, 5)
            want = [x.member for x in st[:k + 1]]
        elif kind == "string":
            x.member = "abcdef"[k]
            want = list("abcdef"[:n])
        elif kind == "date":
            x.member = datetime.datetime(2000, 1 + k, 1)
        elif kind == "short" and k:
            # not all states have it
            x.member = 3.
    if kind == "pv":
        c.refuses("not a label", lambda: c.bt.io.as_dataset(st, ["u"], concat_dim="pv"))
        return
    ds = c.bt.io.as_dataset(st, ["u", "time2"] if False else {"u": "u", "t": lambda s: s.time}, concat_dim=dim) if n % 2 else c.bt.io.as_dataset(st, {"u": "u", "t": lambda s: s.time}, dim)
    if want is None:
        want = list(range(n))
    var(c, ds, "u", (dim, "latitude", "longitude"), [x.u for x in st])
    var(c, ds, "t", (dim,), [x.time for x in st])
    coords(c, g, ds, st, dim)
    m = ds.coords[dim].values
    c.check("size", len(m) == n)
    if kind == "string":
        c.check("labels", [str(x) for x in m] == want)
    elif kind == "date":
        c.check("labels", [str(x)[:10] for x in m] == ["2000-%02d-01" % (k + 1) for k in range(n)])
    else:
        c.close("labels", m, want, 1e-12)
    # nothing else
    c.check("variables", sorted(ds.data_vars) == ["t", "u"])
    c.check("coordinates", set(ds.coords) <= {"latitude", "longitude", "time", dim})
    c.close("times", ds.coords["time"].values, [x.time for x in st], 1e-12)


def collections(c):
    """any collection of states"""
    g, st = make(c, 2)
    L = c.bt.StateList
    for s in (st, tuple(st), L(st), iter(st), (x for x in st), L(st) + []):
        ds = c.bt.io.as_dataset(s, "pv")
        var(c, ds, "pv", ("time", "latitude", "longitude"), [x.pv for x in st])
        coords(c, g, ds, st)


def single(c):
    g, st = make(c, 1)
    for s in (st[0], st):
        ds = c.bt.io.as_dataset(s, ["pv", "u"])
        var(c, ds, "pv", ("time", "latitude", "longitude"), [st[0].pv])
        var(c, ds, "u", ("time", "latitude", "longitude"), [st[0].u])
        coords(c, g, ds, st)


def empty(c):
    for s in ([], (), c.bt.StateList([]), iter([]), (x for x in [])):
        for f in ({}, {"fields": "pv"}, {"concat_dim": "member"}):
            if f and not hasattr(s, "__len__"):
                continue
            ds = c.bt.io.as_dataset(s, **f)
            c.check("empty", list(ds.data_vars) == [] and list(ds.coords) == [] and dict(ds.sizes) == {})


def datetimes(c):
    g, st = make(c, 3)
    d = [datetime.datetime(2020, 2, 29, 12), datetime.datetime(1960, 1, 1, 0, 30, 15), datetime.datetime(2020, 2, 28)]
    for x, t in zip(st, d):
        x.time = t
    ds = c.bt.io.as_dataset(st, "pv")
    var(c, ds, "pv", ("time", "latitude", "longitude"), [x.pv for x in st])
    v = ds.coords["time"].values
    c.check("kind", v.dtype.kind == "M")
    c.check("times", [str(x)[:19] for x in v] == [x.isoformat() for x in d])
    # units are those of times in seconds only
    c.check("units", "units" not in ds["time"].attrs)


def attrs(c):
    g, st = make(c, 2)
    ds = c.bt.io.as_dataset(st, "pv")
    c.check("units", ds["time"].attrs.get("units") == "s")
    c.check("units", ds["latitude"].attrs.get("units") == "degrees_north")
    c.check("units", ds["longitude"].attrs.get("units") == "degrees_east")


def order(c):
    """collections need not be chronological"""
    g, st = make(c, 3)
    p = c.pick("order", [(0, 1, 2), (2, 1, 0), (1, 2, 0), (0, 0, 1), (2, 0, 2)])
    s = [st[i] for i in p]
    ds = c.bt.io.as_dataset(s, {"pv": "pv", "t": lambda x: x.time})
    var(c, ds, "pv", ("time", "latitude", "longitude"), [x.pv for x in s])
    var(c, ds, "t", ("time",), [x.time for x in s])
    coords(c, g, ds, s)
    c.observe("pv", ds["pv"].values)


def shortcut(c):
    """methods of states and collections"""
    g, st = make(c, 2)
    s = c.bt.StateList(st)
    for f in (lambda: s.as_dataset(["pv", "u"]), lambda: s.as_dataset(fields=["pv", "u"])):
        ds = f()
        var(c, ds, "pv", ("time", "latitude", "longitude"), [x.pv for x in st])
        var(c, ds, "u", ("time", "latitude", "longitude"), [x.u for x in st])
    ds = s.as_dataset("pv", concat_dim="n")
    var(c, ds, "pv", ("n", "latitude", "longitude"), [x.pv for x in st])
    c.close("labels", ds.coords["n"].values, [0, 1], 1e-12)
    ds = s.as_dataset()
    var(c, ds, "u", ("time", "latitude", "longitude"), [x.u for x in st])


def refusals(c):
    g, st = make(c, 2)
    E = c.bt.io.as_dataset
    np = c.np
    x = c.real("x", -5, 5)
    for f in (lambda s: np.ones(5) * x, lambda s: np.ones((4, 5)) * x, lambda s: np.ones((6, 4)) * x, lambda s: np.ones((2, 4, 6)) * x, lambda s: np.ones((1, 1, 4, 6)),
              lambda s: "abc", lambda s: s, lambda s: [1, 2], lambda s: None, lambda s: np.ones(1) * x):
        c.refuses("shape", lambda: E(st, {"f": f}))
    c.refuses("spectral", lambda: E(st, "pv_spectral"))
    c.refuses("unknown", lambda: E(st, "no_such_field"))
    c.refuses("unknown", lambda: E(st, ["pv", "no_such_field"]))
    other = c.bt.State(c.bt.Grid(60., rsphere=3.), 0., pv=np.zeros((4, 6)))
    c.refuses("grids", lambda: E(st + [other]))
    c.refuses("states", lambda: E([st[0], 1.]))
    c.refuses("states", lambda: E(3))
