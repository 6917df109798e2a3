"""Concrete mode: the same harnesses on the real, unpatched package.

Also a server (`python conc.py`) that replays solver models: JSON lines in/out.
"""
import importlib
import json
import math
import os
import signal
import sys
import traceback
import numpy as np


class AssumeFail(BaseException):
    pass


class CCtx:
    symbolic = False

    def __init__(self, inputs, tolmult=1.0):
        self.inputs, self.tolmult = inputs, tolmult
        self.failures, self.observed, self.nchecks = [], {}, 0
        import barotropic
        self.bt, self.np = barotropic, np

    # inputs
    def _in(self, name, default):
        return self.inputs.get(name, default)

    def real(self, name, lo=None, hi=None):
        d = 0.0 if lo is None else float(lo)
        return float(self._in(name, d))

    def int(self, name, lo, hi):
        return int(self._in(name, lo))

    def bool(self, name):
        return bool(self._in(name, 0))

    def pick(self, name, options):
        options = list(options)
        return options[int(self._in(name, 0))]

    def array(self, name, shape, lo=None, hi=None):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        out = np.zeros(shape)
        for ix in np.ndindex(*shape):
            out[ix] = self.real(name + "_" + "_".join(map(str, ix)), lo, hi)
        return out

    def carray(self, name, shape, lo=None, hi=None):
        return self.array(name + "r", shape, lo, hi) + 1j * self.array(name + "i", shape, lo, hi)

    def const(self, x):
        return np.array(x, dtype=float) if np.ndim(x) else x

    # logic
    def assume(self, cond):
        if not np.all(cond):
            raise AssumeFail()

    @staticmethod
    def implies(a, b): return (not bool(a)) or bool(np.all(b))
    @staticmethod
    def iff(a, b): return bool(a) == bool(b)
    @staticmethod
    def and_(*xs): return all(bool(np.all(x)) for x in xs)
    @staticmethod
    def or_(*xs): return any(bool(np.all(x)) for x in xs)
    @staticmethod
    def not_(x): return not bool(x)
    @staticmethod
    def ite(c, a, b): return a if c else b
    def decide(self, cond): return bool(cond)

    @property
    def xr(self):
        import xarray
        return xarray

    def figures(self, f):
        return record_figures(f)

    def linear(self, f): return f

    def provide(self, name, module):
        sys.modules[name] = module

    def lemma_sin_monotone(self, xs): pass
    def number(self, text): return float(text)
    def max(self, xs): return max(list(xs))
    def min(self, xs): return min(list(xs))

    def check(self, label, cond):
        self.nchecks += 1
        if not bool(np.all(cond)):
            self.failures.append((label, "condition is false"))

    def close(self, label, a, b, tol=1e-6):
        self.nchecks += 1
        try:
            a, b = np.asarray(a), np.asarray(b)
            if a.dtype == object:
                a = a.astype(complex if any(isinstance(x, complex) for x in a.reshape(-1)) else float)
            if b.dtype == object:
                b = b.astype(complex if any(isinstance(x, complex) for x in b.reshape(-1)) else float)
        except (TypeError, ValueError) as e:
            self.failures.append((label, f"not comparable: {e}"))
            return
        if a.shape != b.shape:
            self.failures.append((label, f"shape {a.shape} instead of {b.shape}"))
            return
        for x, y, ix in zip(a.reshape(-1), b.reshape(-1), np.ndindex(*a.shape) if a.ndim else [()]):
            x, y = complex(x), complex(y)
            for u, v in ((x.real, y.real), (x.imag, y.imag)):
                if not (math.isfinite(u) and math.isfinite(v)):
                    ok = u == v or (math.isnan(u) and math.isnan(v))
                else:
                    ok = abs(u - v) <= tol * self.tolmult
                if not ok:
                    self.failures.append((label, f"at {ix}: {x} instead of {y} (tolerance {tol:g})"))
                    return

    def le(self, label, a, b, tol=0.0):
        self.nchecks += 1
        a, b = np.broadcast_arrays(np.asarray(a, float), np.asarray(b, float))
        bad = ~(a <= b + tol * self.tolmult)
        if bad.any():
            ix = tuple(np.argwhere(bad)[0]) if a.ndim else ()
            self.failures.append((label, f"at {ix}: {a[ix]} not <= {b[ix]} (tolerance {tol:g})"))

    def snapshot(self, x):
        return np.array(x, copy=True)

    def unchanged(self, label, x, snap):
        self.nchecks += 1
        x = np.asarray(x)
        if x.shape != snap.shape or not all(u == v or (u != u and v != v) for u, v in zip(x.reshape(-1), snap.reshape(-1))):
            self.failures.append((label, "input was modified"))

    def observe(self, label, x, tol=None):
        self.observed[label] = (flat(x), tol)

    def raises(self, f, exc=Exception):
        try:
            f()
        except exc as e:
            return e
        return None

    def refuses(self, label, f, exc=Exception):
        self.check(label, self.raises(f, exc) is not None)


DRAW = ("plot contour contourf quiver vlines hlines axvline axhline pcolormesh pcolor imshow fill_between fill_betweenx scatter bar text "
        "barbs streamplot step semilogx semilogy annotate axvspan axhspan").split()


class FigRec:
    pass


def record_figures(f):
    """(result of f(), [(figure, size, [record of each axes with something drawn])]): real matplotlib, drawing methods recorded"""
    import copy
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from matplotlib.axes import Axes
    plt.close("all")
    calls, titles, orig, depth = {}, {}, {}, [0]

    def wrap(name, fn):
        def w(self, *a, **k):
            if depth[0] == 0:
                if name == "set_title":
                    titles.setdefault(self, []).append((k.get("loc") or "center", a[0] if a else k.get("label")))
                else:
                    calls.setdefault(self, []).append((name, tuple(copy.deepcopy(x) if isinstance(x, (np.ndarray, list, tuple)) else x for x in a),
                                                       {x: copy.deepcopy(y) if isinstance(y, (np.ndarray, list, tuple)) else y for x, y in k.items()}))
            depth[0] += 1
            try:
                return fn(self, *a, **k)
            finally:
                depth[0] -= 1
        return w

    for n in DRAW + ["set_title"]:
        orig[n] = getattr(Axes, n)
        setattr(Axes, n, wrap(n, orig[n]))
    from matplotlib.figure import Figure
    colorbar = Figure.colorbar

    def nested(*a, **k):
        depth[0] += 1
        try:
            return colorbar(*a, **k)
        finally:
            depth[0] -= 1
    Figure.colorbar = nested
    try:
        r = f()
        depth[0] = 1
        out = []
        for num in plt.get_fignums():
            fig = plt.figure(num)
            fig.canvas.draw()
            recs = []
            for ax in fig.axes:
                if ax in calls:
                    q = FigRec()
                    q.calls, q.titles = calls[ax], titles.get(ax, [])
                    q.ticks, q.labels = list(ax.get_xticks()), [t.get_text() for t in ax.get_xticklabels()]
                    q.ylim, q.xlim = tuple(ax.get_ylim()), tuple(ax.get_xlim())
                    recs.append(q)
            out.append((fig, tuple(fig.get_size_inches()), recs))
        plt.close("all")
    finally:
        Figure.colorbar = colorbar
        for n, fn in orig.items():
            setattr(Axes, n, fn)
    return r, out


def flat(x):
    out = []
    for v in np.asarray(x).reshape(-1):
        v = complex(v)
        out.append([v.real, v.imag])
    return out


def run_concrete(mod, fn, params, inputs, tolmult):
    np.seterr(all="ignore")
    c = None
    try:
        c = CCtx(inputs, tolmult)
        m = importlib.import_module("checks." + mod)
        importlib.import_module("checks.lib").prehistory(c.bt, params)
        getattr(m, fn)(c, **params)
        st = "fail" if c.failures else "ok"
        return dict(status=st, failures=c.failures, observed=c.observed, nchecks=c.nchecks)
    except AssumeFail:
        return dict(status="fail" if c.failures else "assume", failures=c.failures, observed={}, nchecks=c.nchecks)
    except TimeoutError:
        return dict(status="timeout", failures=[], observed={}, nchecks=0)
    except Exception as e:
        return dict(status="fail", failures=(c.failures if c else []) + [("no-exception", f"{type(e).__name__}: {e}")],
                    observed={}, nchecks=c.nchecks if c else 0, exc=traceback.format_exc())


def setup_paths():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    src = os.environ.get("VERIF_REPO_SRC", "/repo/src")
    sys.path[:0] = [src, here]
    sys.dont_write_bytecode = True


def _alarm(*a):
    raise TimeoutError()


def serve():
    """One forked process per request, so that no request sees what another left behind."""
    setup_paths()
    import warnings
    warnings.simplefilter("ignore")
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    import barotropic
    import scipy.signal
    import xarray
    for line in sys.stdin:
        pid = os.fork()
        if pid:
            _, st = os.waitpid(pid, 0)
            if st:
                out.write(json.dumps(dict(status="died", failures=[], observed={}, nchecks=0)) + "\n")
                out.flush()
            continue
        code = 1
        try:
            q = json.loads(line)
            t = int(q.get("timeout", 60))
            signal.signal(signal.SIGALRM, _alarm)
            signal.alarm(t)
            try:
                r = run_concrete(q["mod"], q["fn"], q["params"], q["inputs"], q.get("tolmult", 1.0))
            except TimeoutError:
                r = dict(status="timeout", failures=[], observed={}, nchecks=0)
            signal.alarm(0)
            out.write(json.dumps(r) + "\n")
            out.flush()
            code = 0
        finally:
            os._exit(code)


if __name__ == "__main__":
    serve()
