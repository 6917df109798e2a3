"""Self-test of the executor: one harness that holds, one that does not."""
BOUNDS = "self-test"
OUTSIDE = ""


def tasks(tier):
    return [("good", {}), ("bad", {})]


def good(c):
    g = c.bt.Grid(45., rsphere=1.)
    x = c.real("x", -10, 10)
    c.close("coriolis", g.coriolis(x) * x, x * 2 * g.omega * c.np.sin(x * c.np.pi / 180.), 1e-6)
    m = c.max([x, 3.])
    c.check("max", c.and_(m >= x, m >= 3.))


def bad(c):
    x = c.real("x", -10, 10)
    y = 1. if x * x * x > 999. else 0.
    c.close("rare branch", y, 0., 1e-6)
