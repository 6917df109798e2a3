"""C23 A state collection behaves as a sequence broadcasting over its states."""
import copy
import copy
import datetime

BOUNDS = ("collections of 0..4 (thorough: 0..6) states on a 60 degree grid with arbitrary times and PV (in [-10, 10] at 2 gridpoints of every state) in every order/duplication from a pool, all indices and slices up to "
          "length 2 beyond the ends; every array/number attribute, every documented method, functions returning every mix of {array, number, state, other} with arbitrary numeric arguments; model runs of up to 4 steps")
OUTSIDE = "longer collections; functions with side effects on the states; containers of empty collections; arrays of different shapes"
OPTS = {"max_paths": 3000}


def tasks(tier):
    q = tier == "quick"
    out = []
    for n in ((0, 1, 3) if q else (0, 1, 2, 3, 4, 6)):
        out.append(("sequence", dict(n=n)))
        out.append(("concat", dict(n=n)))
    for n in ((1, 3) if q else (1, 2, 3, 5)):
        out += [("attributes", dict(n=n)), ("methods", dict(n=n)), ("mapping", dict(n=n))]
        out += [("run", dict(n=n, save=s)) for s in (0, 1)]
        out.append(("run", dict(n=n, save=1, start=0)))
    out += [("order", {}), ("refusals", {}), ("grids", {}), ("copies", {}), ("immutable", {}), ("datetimes", {}), ("subclasses", {})]
    return out


def make(c, n, g=None):
    g = g or c.bt.Grid(60., rsphere=2.)
    out = []
    for k in range(n):
        f = [[((3 * i + 5 * j + 2 * k) % 7) - 2.5 + j for i in range(g.nlon)] for j in range(g.nlat)]
        f[1][k % 6] = c.real(f"p{k}", -10, 10)
        f[2][(k + 2) % 6] = c.real(f"q{k}", -10, 10)
        out.append(c.bt.State(g, c.real(f"t{k}", -100, 100), pv=c.np.array(f)))
    return g, out


def same(c, label, got, want):
    """two sequences contain the same objects"""
    c.check(label, len(got) == len(want))
    c.check(label, all(a is b for a, b in zip(got, want)))


def sequence(c, n):
    g, st = make(c, n)
    L = c.bt.StateList
    s = L(st)
    c.check("length", len(s) == n)
    c.check("truth", bool(s) == (n > 0))
    same(c, "iteration", list(s), st)
    same(c, "again", list(s), st)
    same(c, "reversed", list(reversed(s)), st[::-1])
    for i in range(-n - 2, n + 2):
        if -n <= i < n:
            c.check("index", s[i] is st[i])
        else:
            c.refuses("index", lambda: s[i], IndexError)
    for a in [None] + list(range(-n - 1, n + 2)):
        for b in [None] + list(range(-n - 1, n + 2)):
            for k in (None, 2, -1):
                same(c, "slice", list(s[a:b:k]), st[a:b:k])
    for k in range(n):
        c.check("contains", st[k] in s)
        c.check("position", s.index(st[k]) == k)
        c.check("count", s.count(st[k]) == 1)
    other = make(c, 1)[1][0]
    c.check("contains", other not in s)
    # any iterable of states
    same(c, "tuple", list(L(tuple(st))), st)
    same(c, "generator", list(L(x for x in st)), st)
    same(c, "collection", list(L(s)), st)
    # the collection does not follow its source
    src = list(st)
    s2 = L(src)
    src.reverse()
    src.append(other)
    same(c, "independent", list(s2), st)
    c.check("grid", s.grid is (g if n else None))
    # the same state twice
    if n:
        d = L([st[0]] * 2 + st)
        same(c, "repeated", list(d), [st[0]] * 2 + st)
        c.close("repeated", d.time, [st[0].time] * 2 + [x.time for x in st], 1e-12)
    c.check("states", all(isinstance(x, c.bt.State) for x in s))


def concat(c, n):
    g, st = make(c, n + 2)
    L = c.bt.StateList
    a, b = L(st[:n]), L(st[n:])
    for x, y, want in ((a, b, st), (b, a, st[n:] + st[:n]), (a, st[n:], st), (a, tuple(st[n:]), st), (a, a, st[:n] * 2), (b, iter(st[:1]), st[n:] + st[:1])):
        r = x + y
        c.check("type", isinstance(r, L))
        same(c, "concatenation", list(r), want)
    same(c, "operands", list(a), st[:n])
    same(c, "operands", list(b), st[n:])
    s = a
    s += b
    same(c, "operands", list(a), st[:n])
    same(c, "concatenation", list(s), st)
    c.refuses("non-state", lambda: b + [1])
    c.refuses("non-state", lambda: b + [None])
    other = c.bt.State(c.bt.Grid(60., rsphere=3.), 0., pv=c.np.zeros((4, 6)))
    c.refuses("grid", lambda: b + [other])
    c.refuses("grid", lambda: b + L([other]))




def attributes(c, n):
    g, st = make(c, n)
    s = c.bt.StateList(st)
    for name in ("time", "pv", "avo", "u", "v", "vorticity", "streamfunction", "pv_spectral"):
        got = getattr(s, name)
        want = [getattr(x, name) for x in st]
        c.check("shape", got.shape == (n,) + c.np.shape(want[0]))
        for k in range(n):
            c.close("value", got[k], want[k], 1e-6)
        # and of the states themselves
        for k in range(n):
            c.close("state", getattr(s[k], name), want[k], 1e-6)
    # neither number nor array nor state
    pl = s.plot
    c.check("list", isinstance(pl, list) and len(pl) == n)
    same(c, "grid", [s.grid] * n, [x.grid for x in st])
    # attributes set by the user
    for k, x in enumerate(st):
        x.label = "abc"[k % 3] * (k + 1)
        x.value = c.real(f"value{k}", -5, 5)
        x.fld = c.np.array([x.value, k, 7.])
        x.prev = st[k - 1]
        x.many = (k, x.value)
    c.check("list", s.label == [x.label for x in st] and isinstance(s.label, list))
    c.close("numbers", s.value, [x.value for x in st], 1e-12)
    c.check("array", s.value.shape == (n,))
    c.close("arrays", s.fld, [[x.value, k, 7.] for k, x in enumerate(st)], 1e-12)
    c.check("states", isinstance(s.prev, c.bt.StateList))
    same(c, "states", list(s.prev), [x.prev for x in st])
    c.check("tuples", isinstance(s.many, list) and all(a is b for a, b in zip(s.many, [x.many for x in st])))
    c.refuses("unknown", lambda: s.no_such_attribute, AttributeError)


def methods(c, n):
    g, st = make(c, n)
    s = c.bt.StateList(st)
    S = c.bt.State
    a, b = c.real("a", -5, 5), c.real("b", -5, 5)
    du, dv, dz = [c.np.array([[x * (i + 1) - j + k for i in range(6)] for j in range(4)]) for k, x in enumerate((a, b, a - b))]

    def state(r, want):
        c.check("type", isinstance(r, c.bt.StateList) and len(r) == n)
        for x, y in zip(r, want):
            c.close("pv", x.pv, y.pv, 1e-6)
            c.close("time", x.time, y.time, 1e-12)
    state(s.add_wind((du, dv)), [x.add_wind((du, dv)) for x in st])
    state(s.add_wind(other=(du, dv)), [x.add_wind((du, dv)) for x in st])
    state(s.add_vorticity(dz), [x.add_vorticity(dz) for x in st])
    state(s.add_vorticity(st[0]), [x.add_vorticity(st[0]) for x in st])
    # a callable defined by the user on the class
    calls = []

    def sample(self, p, q=1., *rest, **kw):
        calls.append((self, p, q, rest, sorted(kw)))
        return self.pv[1, 0] * p + q + sum(rest) + sum(kw.values())
    S.sample = sample
    try:
        c.close("numbers", s.sample(a), [x.pv[1, 0] * a + 1. for x in st], 1e-6)
        c.close("numbers", s.sample(a, b), [x.pv[1, 0] * a + b for x in st], 1e-6)
        c.close("numbers", s.sample(a, b, 3., 4.), [x.pv[1, 0] * a + b + 7. for x in st], 1e-6)
        c.close("numbers", s.sample(q=a, p=b, z=9.), [x.pv[1, 0] * b + a + 9. for x in st], 1e-6)
    finally:
        del S.sample
    c.check("calls", [x[0] for x in calls] == st * 4)
    c.check("calls", [len(x[3]) for x in calls] == [0] * 2 * n + [2] * n + [0] * n and [x[4] for x in calls[3 * n:]] == [["z"]] * n)


def mapping(c, n):
    g, st = make(c, n)
    s = c.bt.StateList(st)
    a, b = c.real("a", -5, 5), c.real("b", -5, 5)
    seen = []

    def f(state, x, y=0., **kw):
        seen.append(state)
        return x * state.pv + y + kw.get("z", 0.)
    c.close("array", s.map(f, a, b), [a * x.pv + b for x in st], 1e-6)
    c.close("array", s.map(f, y=a, x=b), [b * x.pv + a for x in st], 1e-6)
    c.close("array", s.map(f, a, z=b), [a * x.pv + b for x in st], 1e-6)
    same(c, "order", seen, st * 3)
    c.close("number", s.map(lambda x: x.time * a), [x.time * a for x in st], 1e-9)
    c.check("number", s.map(lambda x: 3).shape == (n,))
    c.close("0d", s.map(lambda x: c.np.array(a)), [a] * n, 1e-12)
    # named arguments that clash with those of map
    r = c.raises(lambda: s.map(lambda x, k: [k, x], k=5))
    c.check("arguments", r is None)
    # states
    r = s.map(lambda x: c.bt.State(g, x.time + a, pv=x.pv))
    c.check("states", isinstance(r, c.bt.StateList))
    c.close("states", [x.time for x in r], [x.time + a for x in st], 1e-9)
    # others
    other = {"s": "abc", "n": None, "l": [1, 2], "t": (3,), "d": {}}
    for v in other.values():
        r = s.map(lambda x: v)
        c.check("list", isinstance(r, list) and len(r) == n and all(x is v for x in r))
    if n > 1:
        # mixtures
        kinds = dict(a=lambda x: x.pv, n=lambda x: x.time, s=lambda x: x, o=lambda x: "x")
        for k1 in kinds:
            for k2 in kinds:
                if k1 != k2:
                    it = iter([kinds[k1]] * (n - 1) + [kinds[k2]])
                    r = s.map(lambda x: next(it)(x))
                    c.check("list", isinstance(r, list) and len(r) == n)
                    want = [kinds[k1](x) for x in st[:-1]] + [kinds[k2](st[-1])]
                    for u, v in zip(r, want):
                        if isinstance(v, (str, c.bt.State)):
                            c.check("mixed", u is v or u == v)
                        else:
                            c.close("mixed", u, v, 1e-9)
    c.check("truth", s.map(lambda x: True).shape == (n,))


def run(c, n, save, start=1):
    """every state is run on its own with the same arguments"""
    g, st = make(c, n)
    s = c.bt.StateList(st)
    for k, x in enumerate(st):
        x.time = 10. * k if start else 10.
    calls = []

    class Model(c.bt.BarotropicModel):
        # (the steps are C01-C04, this is about the arguments and results)
        def euler(self, state, dt):
            calls.append((state, dt))
            return c.bt.State(g, state.time + dt, pv=state.pv * 1.5)

        def leapfrog(self, old, now):
            dt = now.time - old.time
            return now, c.bt.State(g, now.time + dt, pv=now.pv - 0.25 * old.pv)
    m = Model()
    dt, tend = c.real("dt", 5, 9), c.real("tend", 0, 25)
    ex = dict(save_every=c.real("save", 1, 20)) if save else {}
    last, hist = s.run(m, dt, tend, **ex)
    c.check("calls", len(calls) <= n)
    c.check("types", isinstance(last, c.bt.StateList) and isinstance(hist, list) and len(last) == n and len(hist) == n)
    for k in range(n):
        w, h = m.run(st[k], dt, tend, **ex)
        c.close("time", last[k].time, w.time, 1e-9)
        c.close("pv", last[k].pv, w.pv, 1e-5)
        c.check("type", isinstance(hist[k], c.bt.StateList) and len(hist[k]) == len(h))
        for x, y in zip(hist[k], h):
            c.close("history", x.time, y.time, 1e-9)
            c.close("history", x.pv, y.pv, 1e-5)
    sv = ex.get("save_every", 0)
    for args, kw in (((), dict(tend=tend, dt=dt, save_every=sv)), ((dt,), dict(tend=tend, save_every=sv)), ((dt, tend, sv), {})):
        l2, h2 = s.run(m, *args, **kw)
        c.close("arguments", l2.time, last.time, 1e-9)
        c.check("arguments", [len(h) for h in h2] == [len(h) for h in hist])
        l3, h3 = s.run(model=m, **dict(zip(("dt", "tend", "save_every"), args), **kw))
        c.check("arguments", [len(h) for h in h3] == [len(h) for h in hist])


def order(c):
    """results come in the order of the collection, not of times"""
    g, st = make(c, 3)
    p = c.pick("order", [(0, 1, 2), (2, 1, 0), (1, 2, 0), (0, 2, 1), (0, 0, 1), (2, 0, 2)])
    s = c.bt.StateList([st[i] for i in p])
    c.close("time", s.time, [st[i].time for i in p], 1e-12)
    c.close("pv", s.pv, [st[i].pv for i in p], 1e-9)
    c.close("mapped", s.map(lambda x: x.time * 2.), [2. * st[i].time for i in p], 1e-9)


def refusals(c):
    g, st = make(c, 2)
    L = c.bt.StateList
    for x in (None, 1, "abc", st[0].pv, [st[0]], c.bt.State):
        for seq in ([x], [st[0], x], [x, st[0]], [st[0], x, st[1]]):
            c.refuses("non-state", lambda: L(seq))
    c.refuses("not iterable", lambda: L(st[0]))
    c.refuses("not iterable", lambda: L(3))


def grids(c):
    """states of one collection share a grid"""
    B = c.bt
    base = dict(rsphere=2., omega=0.5)
    g = B.Grid(60., **base)
    L = B.StateList
    x = c.real("x", -5, 5)
    mk = lambda gr: B.State(gr, 0., pv=c.np.ones(gr.shape) * x)
    for other in (B.Grid(45., **base), B.Grid(60., rsphere=2.1, omega=0.5), B.Grid(60., rsphere=2., omega=0.6), B.Grid(60., ntrunc=2, **base)):
        c.refuses("grid", lambda: L([mk(g), mk(other)]))
        c.refuses("grid", lambda: L([mk(g), mk(g), mk(other)]))
        c.refuses("grid", lambda: L([mk(other), mk(g)]))
        same = L([mk(other), mk(other)])
        c.check("alone", same.grid is other)
    # equal but not identical grids
    g2 = B.Grid(60., **base)
    c.check("equal", len(L([mk(g), mk(g2)])) == 2)


def copies(c):
    g, st = make(c, 2)
    s = c.bt.StateList(st)
    k = copy.copy(s)
    same(c, "copy", list(k), st)
    c.check("type", isinstance(k, c.bt.StateList))
    d = copy.deepcopy(s)
    c.check("type", isinstance(d, c.bt.StateList) and len(d) == 2 and d[0] is not st[0])
    c.close("time", d.time, [x.time for x in st], 1e-12)
    c.close("pv", d.pv, [x.pv for x in st], 1e-6)
    same(c, "empty", list(copy.copy(c.bt.StateList([]))), [])
    c.close("time", k.time, [x.time for x in st], 1e-12)


def immutable(c):
    g, st = make(c, 2)
    s = c.bt.StateList(st)

    def item():
        s[0] = st[1]

    def remove():
        del s[0]
    c.refuses("item", item)
    c.refuses("remove", remove)
    for name in ("append", "extend", "insert", "pop", "remove", "clear", "reverse"):
        c.check("mutator", c.raises(lambda: getattr(s, name)) is not None)
    # containers returned are not those of the collection
    c.close("time", s.time, [x.time for x in st], 1e-12)
    a = s.time
    a[0] = 1234.
    c.close("time", s.time, [x.time for x in st], 1e-12)
    r = s.map(lambda x: "x")
    r.append(1)
    same(c, "iteration", list(s), st)


def datetimes(c):
    g, st = make(c, 3)
    d = [datetime.datetime(2020, 1, 1 + 2 * k) for k in range(3)]
    for x, y in zip(st, d):
        x.time = y
    s = c.bt.StateList(st)
    c.check("times", list(s.time) == d)


def subclasses(c):
    g, st = make(c, 2)

    class Sub(c.bt.State):
        pass
    a = Sub(g, 3., pv=st[0].pv)
    s = c.bt.StateList([a, st[0]])
    c.check("kept", s[0] is a)
    c.check("mapped", isinstance(s.map(lambda x: x), c.bt.StateList))
