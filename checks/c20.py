"""C20 Forcing terms combine pointwise and follow their formulas."""
import datetime
import itertools

BOUNDS = ("all PV fields in [-10, 10] at 3-4 gridpoints of a 60 degree grid (given elsewhere), all coefficients, rates, reference fields, times and switch-off times in the stated boxes; "
          "all nestings of sums and products with up to 3 (thorough: 4) operands out of 6 kinds of terms, in both argument orders with plain callables, and shared subterms; datetime times at given instants")
OUTSIDE = "expressions with more operands; sums of two plain callables (not forcing terms)"
OPTS = {"max_paths": 3000}


def tasks(tier):
    q = tier == "quick"
    out = []
    for ops in itertools.product("+*", repeat=2):
        for shape in (0, 1):
            for kinds in (["LTS", "SLP", "PLT", "TPL", "OSL", "POT", "LPS", "PPT"] if q else ["".join(k) for k in itertools.product("LTSPO", repeat=3) if k[:2] != ("P", "P") or shape == 1]):
                if kinds[:2] == "PP" and shape == 0 or kinds[1:] == "PP" and shape == 1:
                    continue
                out.append(("nested", dict(kinds=kinds, ops="".join(ops), shape=shape)))
    if not q:
        for ops in itertools.product("+*", repeat=3):
            for shape in (2, 3, 4):
                for kinds in ("LTSP", "SPLT", "TLPS", "OLTS"):
                    out.append(("nested", dict(kinds=kinds, ops="".join(ops), shape=shape)))
    out += [("plain", dict(op=o, left=l)) for o in "+*" for l in range(len(PLAIN))]
    out += [("kept", dict(op=o, shape=s)) for o in "+*" for s in range(3)]
    out += [("relaxation", {}), ("switch", {}), ("shared", {}), ("inplace", {}), ("reused", {})]
    out += [("switch_dates", dict(i=i)) for i in range(4)]
    out += [("model", dict(kinds=k)) for k in ("LT", "TP")]
    return out


def field(c, g, name, k=4):
    """arbitrary at k gridpoints"""
    n, m = g.shape
    f = [[((3 * i + 5 * j) % 7) - 2.5 for i in range(m)] for j in range(n)]
    for x in range(k):
        f[(x * 2 + 1) % n][(x * 5 + 1) % m] = c.real(f"{name}{x}", -10, 10)
    return c.np.array(f)


class Record:
    """state as a forcing term sees it (PV and time); no transforms needed"""
    def __init__(self, grid, time, pv):
        self.grid, self.time, self.pv = grid, time, pv


def make(c, kind, i, g):
    """a term and its value for a state"""
    R = c.bt.rhs
    if kind == "L":
        rate, ref = c.real(f"rate{i}", -2, 2), field(c, g, f"ref{i}_", 2)
        return R.LinearRelaxation(rate, ref), lambda s: rate * (ref - s.pv)
    if kind == "T":
        tend = c.real(f"tend{i}", -5, 5)
        return R.TimedOffSwitch(tend), lambda s: c.ite(s.time <= tend, 1., 0.)
    if kind == "S":
        # user-defined term
        a = c.real(f"a{i}", -2, 2)

        class Term(R.RHS):
            def __call__(self, state):
                return a * state.pv + state.time
        return Term(), lambda s: a * s.pv + s.time
    if kind == "P":
        b = c.real(f"b{i}", -2, 2)
        return (lambda state: b - 3. * state.pv), (lambda s: b - 3. * s.pv)
    if kind == "O":
        t, v = make(c, "L", f"{i}o", g)
        u, w = make(c, "T", f"{i}o", g)
        return t * u, lambda s: v(s) * w(s)


def combine(op, x, y):
    return x + y if op == "+" else x * y


def tree(shape, ops, xs):
    """nestings of binary operations"""
    o = lambda k, a, b: combine(ops[k], a, b)
    if shape == 0:
        return o(1, o(0, xs[0], xs[1]), xs[2])
    if shape == 1:
        return o(0, xs[0], o(1, xs[1], xs[2]))
    if shape == 2:
        return o(1, o(0, xs[0], xs[1]), o(2, xs[2], xs[3]))
    if shape == 3:
        return o(0, xs[0], o(1, xs[1], o(2, xs[2], xs[3])))
    return o(2, o(1, o(0, xs[0], xs[1]), xs[2]), xs[3])


class Value:
    """pointwise value of an expression"""
    def __init__(self, f):
        self.f = f

    def __add__(self, o):
        return Value(lambda s: self.f(s) + o.f(s))

    def __mul__(self, o):
        return Value(lambda s: self.f(s) * o.f(s))


def expand(c, g, x):
    return x * c.np.ones(g.shape)


def nested(c, kinds, ops, shape):
    g = c.bt.Grid(60., rsphere=2.)
    pairs = [make(c, k, i, g) for i, k in enumerate(kinds)]
    term = tree(shape, ops, [p[0] for p in pairs])
    want = tree(shape, ops, [Value(p[1]) for p in pairs])
    c.check("type", isinstance(term, c.bt.rhs.RHS))
    states = [Record(g, c.real("t0", -5, 5), field(c, g, "p0_")), Record(g, c.real("t1", -5, 5), field(c, g, "p1_", 2))]
    snaps = [c.snapshot(s.pv) for s in states]
    r0 = term(states[0])
    c.close("value", expand(c, g, r0), expand(c, g, want.f(states[0])), 1e-6)
    # another state, then the first again
    c.close("value", expand(c, g, term(states[1])), expand(c, g, want.f(states[1])), 1e-6)
    c.close("again", expand(c, g, term(states[0])), expand(c, g, want.f(states[0])), 1e-6)
    # the operands by themselves
    for t, w in pairs:
        c.close("operand", expand(c, g, t(states[1])), expand(c, g, w(states[1])), 1e-6)
    for s, x in zip(states, snaps):
        c.unchanged("state", s.pv, x)
    c.observe("r0", r0)


PLAIN = ["function", "lambda", "bound method", "partial", "object", "class method", "builtin", "static"]


def plain(c, op, left):
    """all kinds of callables that are not forcing terms"""
    import functools
    import operator
    g = c.bt.Grid(60., rsphere=2.)
    a = c.real("a", -5, 5)

    def function(state):
        return a * state.pv - 1.

    class Thing:
        def method(self, state):
            return a * state.pv - 1.

        def __call__(self, state):
            return a * state.pv - 1.

        @classmethod
        def cls(self, state):
            return a * state.pv - 1.

        @staticmethod
        def static(state):
            return a * state.pv - 1.
    p = {"function": function, "lambda": lambda s: a * s.pv - 1., "bound method": Thing().method, "partial": functools.partial(lambda k, s: k * s.pv - 1., a), "object": Thing(),
         "class method": Thing.cls, "builtin": operator.attrgetter("pv"), "static": Thing.static}[PLAIN[left]]
    s = Record(g, c.real("t", -5, 5), field(c, g, "p"))
    v = s.pv if PLAIN[left] == "builtin" else a * s.pv - 1.
    x, vx = make(c, "S", 0, g)
    for e, w in ((combine(op, p, x), combine(op, v, vx(s))), (combine(op, x, p), combine(op, vx(s), v)),
                 (combine("+", combine(op, p, x), p), combine(op, v, vx(s)) + v), (combine("*", p, combine(op, x, p)), v * combine(op, vx(s), v))):
        c.check("type", isinstance(e, c.bt.rhs.RHS))
        c.close("value", expand(c, g, e(s)), expand(c, g, w), 1e-5)


def kept(c, op, shape):
    """operands may return arrays they keep, or the state's own fields"""
    g = c.bt.Grid(60., rsphere=2.)
    keep = field(c, g, "k", 3)
    sk = c.snapshot(keep)

    class Term(c.bt.rhs.RHS):
        def __init__(self, f):
            self.f = f

        def __call__(self, state):
            return self.f(state)
    K, V, S = Term(lambda s: keep), Term(lambda s: s.pv), make(c, "S", 0, g)
    s = Record(g, c.real("t", -5, 5), field(c, g, "p"))
    sp = c.snapshot(s.pv)
    pairs = [[(K, keep), (S[0], S[1](s)), (V, s.pv)], [(V, s.pv), (K, keep), (S[0], S[1](s))], [(K, keep), (K, keep), (V, s.pv)]][shape]
    pairs = [(t, v * 1.) for t, v in pairs]
    for nest in (0, 1):
        e = tree(nest, op * 2, [p[0] for p in pairs])
        for _ in range(2):
            c.close("value", e(s), tree(nest, op * 2, [p[1] for p in pairs]), 1e-5)
            c.unchanged("kept array", keep, sk)
            c.unchanged("state", s.pv, sp)


def relaxation(c):
    g = c.bt.Grid(60., rsphere=2., omega=3.)
    rate, ref = c.real("rate", -2, 2), field(c, g, "ref")
    sr = c.snapshot(ref)
    L = c.bt.rhs.LinearRelaxation(rate, ref)
    st = c.bt.State(g, 0., pv=field(c, g, "pv"))
    sp = c.snapshot(st.pv)
    got = L(st)
    c.close("formula", got, rate * (ref - st.pv), 1e-6)
    # no forcing at the reference itself
    c.close("at reference", c.bt.rhs.LinearRelaxation(rate, st.pv)(st), c.np.zeros(g.shape), 1e-9)
    c.close("mask", c.bt.rhs.LinearRelaxation(rate, ref, mask=None)(st), got, 1e-9)
    c.unchanged("reference", ref, sr)
    c.unchanged("state", st.pv, sp)
    c.observe("got", got)


def switch(c):
    g = c.bt.Grid(60., rsphere=2.)
    t, tend = c.real("t", -1e6, 1e6), c.real("tend", -1e6, 1e6)
    s = c.bt.rhs.TimedOffSwitch(tend)
    c.check("off after the end", c.iff(s(Record(g, t, None)) == 1, t <= tend))
    c.check("on or off", c.or_(s(Record(g, t, None)) == 1, s(Record(g, t, None)) == 0))
    c.check("end itself", s(Record(g, tend, None)) == 1)
    # has no memory
    c.check("earlier", s(Record(g, tend + 1., None)) == 0)
    c.check("earlier", s(Record(g, tend - 1., None)) == 1)


D = datetime.datetime
ENDS = [D(2020, 2, 28, 23, 59, 59), D(1999, 12, 31), D(2021, 6, 1, 1, 0, 0, 250000), D(2000, 1, 1)]


def switch_dates(c, i):
    g = c.bt.Grid(60., rsphere=2.)
    a = c.real("a", -2, 2)
    pv = field(c, g, "p", 2)
    s = c.bt.rhs.TimedOffSwitch(ENDS[i]) * (lambda st: a * st.pv)
    off = c.pick("offset", [-86400., -1., -1e-6, 0., 1e-6, 1., 86400., 1e8])
    st = c.bt.State(g, ENDS[i] + datetime.timedelta(seconds=off), pv=pv)
    c.close("value", s(st), a * st.pv * (1. if off <= 0. else 0.), 1e-6)
    c.check("time", st.time == ENDS[i] + datetime.timedelta(seconds=off))


def shared(c):
    """one term in several places of an expression"""
    g = c.bt.Grid(60., rsphere=2.)
    (x, vx), (y, vy), (p, vp) = make(c, "L", 0, g), make(c, "T", 1, g), make(c, "P", 2, g)
    s = Record(g, c.real("t", -5, 5), field(c, g, "p"))
    e = (x + y) * (x + p) + y * x
    X, Y, P = vx(s), vy(s), vp(s)
    c.close("value", e(s), (X + Y) * (X + P) + Y * X, 1e-5)
    d = x + x
    c.close("value", d(s), 2. * X, 1e-6)
    q = x * x
    c.close("value", q(s), X * X, 1e-5)
    c.observe("e", e(s))


def inplace(c):
    """augmented assignment makes a new term and leaves the old ones alone"""
    g = c.bt.Grid(60., rsphere=2.)
    (x, vx), (y, vy) = make(c, "L", 0, g), make(c, "S", 1, g)
    s = Record(g, c.real("t", -5, 5), field(c, g, "p"))
    z = x
    z += y
    w = z
    w *= x
    c.close("sum", z(s), vx(s) + vy(s), 1e-6)
    c.close("product", w(s), (vx(s) + vy(s)) * vx(s), 1e-5)
    c.close("operand", x(s), vx(s), 1e-6)
    c.close("operand", y(s), vy(s), 1e-6)


def reused(c):
    """terms have no memory of states with other grids"""
    g, h = c.bt.Grid(60., rsphere=2.), c.bt.Grid(45., rsphere=3.)
    (x, vx), (y, vy) = make(c, "S", 0, g), make(c, "T", 1, g)
    e = x * y + x
    ss = [Record(g, c.real("t0", -5, 5), field(c, g, "p")), Record(h, c.real("t1", -5, 5), field(c, h, "q")), Record(g, c.real("t2", -5, 5), field(c, g, "r"))]
    for s in ss + ss[:1]:
        c.close("value", e(s), vx(s) * vy(s) + vx(s), 1e-6)


def model(c, kinds):
    """a model evaluates the combination at its current state"""
    g = c.bt.Grid(60., rsphere=2., omega=.1)
    pairs = [make(c, k, i, g) for i, k in enumerate(kinds)]
    seen = []

    class Spy(c.bt.rhs.RHS):
        def __call__(self, state):
            seen.append(state)
            return 0. * state.pv
    e = pairs[0][0] * pairs[1][0] + Spy()
    st = c.bt.State(g, c.real("t", -5, 5), pv=c.np.array([[1. * (3 - j)] * 6 for j in range(4)]))
    c.bt.BarotropicModel(e, diffusion_coeff=0.).run(st, 0.5, st.time + 0.5)
    c.check("evaluated", len(seen) >= 1)
    s = seen[0]
    c.close("state", s.pv, st.pv, 1e-6)
    c.check("time", s.time == st.time)
    c.close("value", e(s), pairs[0][1](s) * pairs[1][1](s), 1e-6)
