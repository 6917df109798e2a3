"""Model of the part of matplotlib that figure presets use: records what is drawn, does not render.

Drawing methods record their (copied) arguments. Those that matplotlib refuses for their values - contour levels that do not
increase, coordinates that do not fit the field - are refused here too. Everything not modelled ends the path (inconclusive).
"""
import types
import numpy as np
from . import core, arr

DRAW = ("plot contour contourf quiver vlines hlines axvline axhline pcolormesh pcolor imshow fill_between fill_betweenx scatter bar text "
        "barbs streamplot step semilogx semilogy annotate axvspan axhspan").split()
FIGS = []


def copied(x):
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, (list, tuple)):
        return type(x)(copied(e) for e in x)
    return x


class Any:
    """Artist whose details do not matter"""
    def __init__(self, **k): self.__dict__.update(k)
    def __getattr__(self, n):
        if n.startswith("set_") or n in ("add_lines", "remove", "update_ticks", "grid"):
            return lambda *a, **k: None
        if n.startswith("_"):
            raise AttributeError(n)
        if n in ("xaxis", "yaxis", "ax", "outline", "major_formatter"):
            return Any()
        raise core.Unsupported("matplotlib artist attribute " + n)


def _shape(x):
    return np.shape(x)


def _contour_args(args, kw):
    a = list(args)
    if len(a) in (1, 2):
        z, lev = a[0], (a[1] if len(a) == 2 else kw.get("levels"))
    else:
        x, y, z = a[:3]
        lev = a[3] if len(a) > 3 else kw.get("levels")
        if len(_shape(z)) != 2:
            raise TypeError("Input z must be a 2D array.")
        nx, ny = _shape(z)[1], _shape(z)[0]
        if len(_shape(x)) == 1:
            if _shape(x) != (nx,) or _shape(y) != (ny,):
                raise TypeError("Length of x and y must match number of columns and rows in z")
        elif _shape(x) != _shape(z) or _shape(y) != _shape(z):
            raise TypeError("Shapes of x, y and z do not match")
    if lev is not None and np.ndim(lev) > 0:
        lev = list(lev)
        if not lev:
            raise ValueError("no levels")
        for u, v in zip(lev, lev[1:]):
            if not u < v:
                raise ValueError("Contour levels must be increasing")
    return lev


class Axes:
    def __init__(self, fig):
        self.figure, self.calls, self.titles = fig, [], []
        self._xticks, self._xticklabels, self._ylim, self._xlim = None, None, (0., 1.), (0., 1.)
        self.xaxis, self.yaxis = Any(), Any()

    def __getattr__(self, name):
        if name in DRAW:
            def draw(*a, **k):
                lev = None
                if name in ("contour", "contourf"):
                    lev = _contour_args(a, k)
                    if name == "contourf" and lev is not None and len(lev) < 2:
                        raise ValueError("Filled contours require at least 2 levels.")
                if name == "quiver" and len(a) >= 4 and not (np.size(a[0]) and np.size(a[0]) == np.size(a[1]) == np.size(a[2]) == np.size(a[3])):
                    raise ValueError("arguments of quiver do not fit")
                if name == "plot" and len(a) == 2 and np.shape(a[0])[:1] != np.shape(a[1])[:1]:
                    raise ValueError("x and y must have same first dimension")
                self.calls.append((name, copied(a), {x: copied(y) for x, y in k.items()}))
                return [Any()] if name == "plot" else Any(levels=lev, collections=[])
            return draw
        if name in ("legend", "clabel", "grid", "set_ylabel", "set_xlabel", "set_aspect", "tick_params", "margins", "set_facecolor", "set_axis_off",
                    "label_outer", "set_yticks", "set_yticklabels", "autoscale", "set_zorder", "set_autoscale_on", "locator_params", "set_autoscaley_on", "set_autoscalex_on", "set_axisbelow"):
            return lambda *a, **k: Any()
        if name.startswith("__"):
            raise AttributeError(name)
        raise core.Unsupported("matplotlib Axes." + name)

    def set_title(self, label, fontdict=None, loc=None, **k):
        self.titles.append((loc or "center", label))

    def set_xticks(self, ticks, labels=None, **k):
        self._xticks = np.array([x for x in ticks], object).view(arr.SA)
        if labels is not None:
            self._xticklabels = list(labels)

    def get_xticks(self, **k):
        if self._xticks is None:
            raise core.Unsupported("default ticks of matplotlib")
        return self._xticks

    def set_xticklabels(self, labels, **k):
        self._xticklabels = list(labels)

    def get_xlim(self): return self._xlim
    def get_ylim(self): return self._ylim
    def set_xlim(self, left=None, right=None, *, xmin=None, xmax=None, **k): self._xlim = _lim(self._xlim, left, right, xmin, xmax)
    def set_ylim(self, bottom=None, top=None, *, ymin=None, ymax=None, **k): self._ylim = _lim(self._ylim, bottom, top, ymin, ymax)

    def set(self, **k):
        for n, v in k.items():
            getattr(self, "set_" + n)(v)


def _lim(old, a, b, c, d):
    if a is not None and b is None and np.ndim(a) == 1:
        a, b = a
    a = c if a is None else a
    b = d if b is None else b
    return (old[0] if a is None else a, old[1] if b is None else b)


class Figure:
    def __init__(self, figsize=None, **k):
        self.figsize, self.axes = figsize, []
        FIGS.append(self)

    def add_subplot(self, *a, **k):
        self.axes.append(Axes(self))
        return self.axes[-1]

    def subplots(self, nrows=1, ncols=1, *, squeeze=True, **k):
        a = np.empty((nrows, ncols), object)
        for i in range(nrows):
            for j in range(ncols):
                a[i, j] = self.add_subplot()
        if not squeeze:
            return a
        a = a.squeeze()
        return a.item() if a.ndim == 0 else a

    def colorbar(self, mappable, *a, **k): return Any()
    def tight_layout(self, *a, **k): pass
    def subplots_adjust(self, *a, **k): pass
    def set_tight_layout(self, *a, **k): pass
    def suptitle(self, *a, **k): return Any()
    def set_size_inches(self, w, h=None): self.figsize = (w if h is None else (w, h))
    def get_size_inches(self): return np.array(self.figsize)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise core.Unsupported("matplotlib Figure." + n)


class _Module(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise core.Unsupported(f"{self.__name__}.{n}")


pyplot = _Module("matplotlib.pyplot")
ticker = _Module("matplotlib.ticker")
root = _Module("matplotlib")
root.pyplot, root.ticker = pyplot, ticker


def _figure(num=None, figsize=None, **k): return Figure(figsize)


def _subplots(nrows=1, ncols=1, *, sharex=False, sharey=False, squeeze=True, width_ratios=None, height_ratios=None, subplot_kw=None, gridspec_kw=None, figsize=None, **k):
    f = Figure(figsize)
    return f, f.subplots(nrows, ncols, squeeze=squeeze)


pyplot.figure, pyplot.subplots = _figure, _subplots
pyplot.close = lambda *a, **k: None
for _n in ("StrMethodFormatter", "MultipleLocator", "FixedLocator", "MaxNLocator", "ScalarFormatter"):
    setattr(ticker, _n, lambda *a, **k: Any())


def module(name, fromlist):
    if not fromlist:
        return root
    m = root
    for p in name.split(".")[1:]:
        m = getattr(m, p)
    return m


class Rec:
    """what one pair of axes shows"""
    def __init__(self, ax):
        self.calls = ax.calls
        self.ticks = None if ax._xticks is None else list(ax._xticks)
        self.labels = ax._xticklabels
        self.ylim, self.xlim = tuple(ax._ylim), tuple(ax._xlim)
        self.titles = ax.titles


def figures(f):
    """(result of f(), [(figure, size, [Rec of each axes with something drawn])])"""
    del FIGS[:]
    r = f()
    out = [(g, g.figsize, [Rec(a) for a in g.axes if a.calls]) for g in FIGS]
    del FIGS[:]
    return r, out
