"""C03 An integration stops and saves states on the requested schedule."""
import datetime

BOUNDS = ("start time in [-50, 50], time step in [0.1, 10], end up to N steps after (N = 6 quick, 10 thorough) or any time before the start, "
          "save interval in [0.05, 100] with at most 4 intervals per step, or 0; states of uniform PV with arbitrary value, forcing linear in PV (grid of 90 degrees); "
          "datetime schedules: concrete times")
OUTSIDE = "more steps; rounding of accumulated floating-point times; save_every with datetimes (documented as unsupported)"
OPTS = dict(validate=12)


def tasks(tier):
    q = tier == "quick"
    out = []
    for ints in (False, True):
        for n in range(0, 4 if q else 6):
            out.append(("schedule", dict(nsteps=n, saving=True, ints=ints)))
        for n in range(0, 7 if q else 11):
            out.append(("schedule", dict(nsteps=n, saving=False, ints=ints)))
        for n in ((5, 6) if q else (6, 7, 8)):
            out.append(("schedule", dict(nsteps=n, saving=True, long=True, ints=ints)))
    out.append(("already_over", {}))
    out.append(("start_zero", {}))
    for i in range(len(DATES)):
        out.append(("dates", dict(i=i)))
    out.append(("flow", {}))
    return out


def ref_run(c, model, st, dt, n):
    """one Euler step, then leapfrog steps; the states at t0, t0+dt, ..., t0+n dt"""
    if n == 0:
        return [st]
    out = [st]
    old, new = st, model.euler(st, dt)
    for _ in range(n):
        old, new = model.leapfrog(old, new)
        out.append(old)
    return out


def setup(c, t0):
    g = c.bt.Grid(90., rsphere=1., omega=0.)
    q0 = c.real("q0", -1, 1)
    st = c.bt.State(g, t0, pv=c.np.ones(g.shape) * q0)
    rhs = lambda s: 0.125 * s.pv
    return g, st, c.bt.BarotropicModel(rhs, diffusion_coeff=0.)


def same_time(c, label, a, b):
    if isinstance(b, datetime.datetime):
        c.check(label, a == b)
    else:
        c.close(label, a, b, 1e-6)


def compare(c, res, st, ref, saved):
    last, states = res
    c.check("StateList", isinstance(states, c.bt.StateList))
    same_time(c, "final time", last.time, ref[-1].time)
    c.close("final state", last.pv_spectral, ref[-1].pv_spectral, 1e-4)
    c.check("number of saved states", len(states) == len(saved))
    c.check("starts with the initial state", states[0] is st)
    if len(states) == len(saved):
        for a, k in zip(states, saved):
            same_time(c, "saved time", a.time, ref[k].time)
            c.close("saved state", a.pv_spectral, ref[k].pv_spectral, 1e-4)
    c.observe("last", last.pv_spectral)


def schedule(c, nsteps, saving, long=False, ints=False):
    """end is reached in exactly nsteps steps; whole numbers (ties exact) or reals (off the ties by more than rounding)"""
    if ints:
        t0, dt, tend = c.int("t0", -50, 50), c.int("dt", 1, 10), c.int("tend", -60, 200)
        eps = 0
    else:
        t0, dt, tend = c.real("t0", -50, 50), c.real("dt", 0.1, 10), c.real("tend", -60, 200)
        eps = 1e-6
    if nsteps == 0:
        c.assume(tend <= t0)
    else:
        c.assume(t0 + (nsteps - 1) * dt + eps < tend)
        c.assume(tend <= t0 + nsteps * dt - eps)
    g, st, model = setup(c, t0)
    sn = c.snapshot(st.pv_spectral)
    if saving:
        save = c.int("save", 1, 100) if ints else c.real("save", 0.05, 100)
        c.assume(save * 4 >= dt)
        if long:                # a few steps per save interval
            c.assume(save >= 2 * dt)
            c.assume(save <= 3 * dt)
        res = model.run(st, dt, tend, save)
    else:
        res = model.run(st, dt, tend)
    ref = ref_run(c, model, st, dt, nsteps)
    for k in range(nsteps + 1):
        c.close("reference times", ref[k].time, t0 + k * dt, 1e-6)
    saved, m = [0], 0
    if saving:
        for k in range(1, nsteps + 1):
            hit = False
            while True:
                d = k * dt - (m + 1) * save
                if not ints:
                    c.assume(c.or_(d >= eps, d <= -eps))
                if not c.decide(d >= 0):
                    break
                m += 1
                hit = True
            if hit:
                saved.append(k)
    compare(c, res, st, ref, saved)
    c.unchanged("initial state", st.pv_spectral, sn)
    c.check("initial time", st.time == t0)


def already_over(c):
    """nothing to integrate"""
    t0, dt, tend, save = c.real("t0", -50, 50), c.real("dt", 0.1, 10), c.real("tend", -60, 50), c.real("save", 0, 100)
    c.assume(tend <= t0)
    g, st, model = setup(c, t0)
    last, states = model.run(st, dt, tend, save_every=save)
    c.check("initial state", last is st)
    c.check("StateList", isinstance(states, c.bt.StateList))
    c.check("only it", len(states) == 1 and states[0] is st)
    last, states = st.run(model, dt, tend)
    c.check("State.run", last is st and len(states) == 1 and isinstance(states, c.bt.StateList))
    c.observe("q", st.pv_spectral)


def start_zero(c):
    """integers, State.run, zero save interval"""
    g, st, model = setup(c, 0)
    for save, saved in ((0, [0]), (2, [0, 1, 2, 3, 4]), (6, [0, 2, 4]), (7, [0, 3]), (3, [0, 1, 2, 3, 4]), (9, [0, 3]), (12, [0, 4]), (13, [0])):
        ref = ref_run(c, model, st, 3, 4)
        compare(c, model.run(st, 3, 12, save_every=save), st, ref, saved)
        compare(c, st.run(model, 3, 11, save_every=save), st, ref, saved)


D = datetime.datetime
DATES = [  # start, step, end, number of steps
    (D(2020, 2, 28), datetime.timedelta(days=1), D(2020, 3, 2), 3),
    (D(2020, 2, 28), datetime.timedelta(days=1), D(2020, 3, 2, 0, 0, 1), 4),
    (D(2020, 2, 28), datetime.timedelta(hours=7), D(2020, 2, 28, 20), 3),
    (D(2020, 2, 28), datetime.timedelta(hours=7), D(2020, 2, 28), 0),
    (D(2020, 2, 28), datetime.timedelta(hours=7), D(2019, 2, 28), 0),
]


def dates(c, i):
    t0, dt, tend, n = DATES[i]
    g = c.bt.Grid(90., rsphere=1., omega=0.)
    q0 = c.real("q0", -1, 1)
    st = c.bt.State(g, t0, pv=c.np.ones(g.shape) * q0)
    model = c.bt.BarotropicModel(lambda s: 1e-6 * s.pv, diffusion_coeff=0.)
    ref = ref_run(c, model, st, dt, n)
    compare(c, model.run(st, dt, tend), st, ref, [0])
    c.check("time", model.run(st, dt, tend)[0].time == t0 + n * dt)


def flow(c):
    """a run with flow, forcing and diffusion: the same states as step by step"""
    from .lib import smooth
    g = c.bt.Grid(60., rsphere=1., omega=0.3)
    a = c.real("a", -1, 1)
    s = smooth(c, g, "q", 0)
    s[:] = g.fcor2_spectral
    s[1] = s[1] + a
    st = c.bt.State(g, 10., pv_spectral=s)
    h = g.to_grid(g.fcor2_spectral) * 0.5
    model = c.bt.BarotropicModel(lambda x: h - 0.5 * x.pv, diffusion_coeff=0.01, diffusion_order=1)
    ref = ref_run(c, model, st, 0.25, 3)
    compare(c, model.run(st, 0.25, 10.6, save_every=0.5), st, ref, [0, 2])
