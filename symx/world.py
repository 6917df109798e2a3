"""The symbolic world: barotropic imported from /repo/src with its view of numpy,
scipy, spharm, math and a few builtins replaced by models that accept symbolic data.

Nothing in numpy or scipy is modified; only what the code under test sees by
importing (and the builtins float/int/isinstance/round/... in its namespace).
"""
import builtins
import functools
import importlib
import importlib.abc
import importlib.util
import math
import os
import sys
import types
from fractions import Fraction
import numpy as np
import scipy
from . import core, arr
from .core import Sym, SymBool, SymC, Unsupported, cur, ite
from .arr import SA, sa, objarr, base, wrap, lift, unlift, force, has_sym, is_symarr, realdt, IMPL, MOVERS, LAZY

REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")

# ------------------------------------------------------- number type stand-ins


class _NumMeta(type):
    def __instancecheck__(cls, x):
        return sym_isinstance(x, cls.real_type)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls.real_type)

    def __call__(cls, *a, **k):
        if a and (isinstance(a[0], (Sym, SymBool, SymC)) or (isinstance(a[0], np.ndarray) and realdt(a[0]) == object)):
            x = a[0]
            if isinstance(x, np.ndarray):
                if x.size != 1:
                    raise TypeError("only length-1 arrays can be converted to Python scalars")
                x = base(x).reshape(-1)[0]
            return cls.conv(x)
        return cls.real_type(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is cls.real_type

    def __hash__(cls):
        return hash(cls.real_type)

    def __getattr__(cls, n):
        return getattr(cls.real_type, n)


class sfloat(metaclass=_NumMeta):
    real_type = float
    dtype = np.dtype(float)

    @staticmethod
    def conv(x):
        if isinstance(x, SymC):
            raise TypeError("float() argument must be a string or a real number, not 'complex'")
        return arr.cast(x, float)


class sint(metaclass=_NumMeta):
    real_type = int
    dtype = np.dtype(int)

    @staticmethod
    def conv(x):
        return int(x)


class scomplex(metaclass=_NumMeta):
    real_type = complex
    dtype = np.dtype(complex)

    @staticmethod
    def conv(x):
        return arr.cast(x, complex)


class sbool(metaclass=_NumMeta):
    real_type = bool
    dtype = np.dtype(bool)

    @staticmethod
    def conv(x):
        return bool(x)


STYPES = {float: sfloat, int: sint, complex: scomplex, bool: sbool}
import numbers


def _flat(cls):
    if isinstance(cls, tuple):
        for c in cls:
            yield from _flat(c)
    elif isinstance(cls, types.UnionType):
        for c in cls.__args__:
            yield from _flat(c)
    else:
        yield getattr(cls, "real_type", cls) if isinstance(cls, _NumMeta) else cls


def sym_isinstance(x, cls):
    cs = tuple(_flat(cls))
    if builtins.isinstance(x, cs):
        if isinstance(x, Sym) and all(c in (numbers.Integral,) for c in cs):
            return x._is_int()
        return True
    if isinstance(x, Sym):
        if any(c in (float, np.floating, np.float64, np.number, np.generic) for c in cs):
            return True
        return x._is_int() and any(c in (int, np.integer, np.int64, numbers.Integral, numbers.Rational) for c in cs)
    if isinstance(x, SymBool):
        return any(c in (bool, np.bool_, int, np.generic) for c in cs)
    if isinstance(x, SymC):
        return any(c in (complex, np.complexfloating, np.complex128, np.number, np.generic) for c in cs)
    return False


def sround(x, n=None):
    if isinstance(x, np.ndarray) and realdt(x) == object and x.ndim == 0:
        x = x.item()
    return builtins.round(x) if n is None else builtins.round(x, n)


def spow(a, b, m=None):
    return a ** b if m is None else builtins.pow(a, b, m)


# --------------------------------------------------------------- numpy models

def unstype(x):
    if isinstance(x, _NumMeta):
        return x.real_type
    if getattr(type(x), "_symx_values", False):
        v = x.values
        return v if v.ndim else v.item()
    if type(x) is tuple:
        return tuple(unstype(e) for e in x)
    if type(x) is list and any(isinstance(e, _NumMeta) for e in x):
        return [unstype(e) for e in x]
    return x


def newarr(a):
    """SA for a freshly created real array (all numeric kinds)"""
    if isinstance(a, np.ndarray) and realdt(a) != object and a.dtype.kind in "fciub" and a.ndim:
        return a.astype(object).view(SA)
    return lift(a)


def _dims(shape):
    if isinstance(shape, np.ndarray):
        shape = tuple(arr.norm_int(sa(shape).reshape(-1))) if shape.ndim else shape.item()
    if isinstance(shape, (tuple, list)):
        return tuple(int(s) for s in shape)
    return int(shape)


def _filled(shape, v, dtype):
    shape = _dims(shape)
    if dtype is not None:
        v = arr.cast(v, dtype)
    out = np.empty(shape, object)
    out[...] = arr._el(v)
    return out.view(SA)


def c_zeros(shape, dtype=float, order="C", **k):
    return _filled(shape, np.dtype(dtype or float).type(0).item(), dtype or float)


def c_ones(shape, dtype=None, order="C", **k):
    return _filled(shape, np.dtype(dtype or float).type(1).item(), dtype or float)


def c_full(shape, fill_value, dtype=None, order="C", **k):
    if isinstance(fill_value, np.ndarray) and fill_value.ndim or isinstance(fill_value, (list, tuple)):
        v = np.broadcast_to(objarr(fill_value), _dims(shape)).copy().view(SA)
        return v if dtype is None else arr.cast(v, dtype)
    if isinstance(fill_value, np.ndarray):
        fill_value = fill_value.item()
    return _filled(shape, fill_value.item() if isinstance(fill_value, np.generic) else fill_value, dtype)


def _like(a, dtype):
    if dtype is not None:
        return dtype
    if isinstance(a, np.ndarray) and realdt(a) != object:
        return a.dtype
    dt = arr.kind_dtype(sa(a))
    return float if dt == object else dt


def c_zeros_like(a, dtype=None, order="K", subok=True, shape=None, **k):
    return c_zeros(np.shape(a) if shape is None else shape, _like(a, dtype))


def c_ones_like(a, dtype=None, order="K", subok=True, shape=None, **k):
    return c_ones(np.shape(a) if shape is None else shape, _like(a, dtype))


def c_full_like(a, fill_value, dtype=None, order="K", subok=True, shape=None, **k):
    return c_full(np.shape(a) if shape is None else shape, fill_value, _like(a, dtype))


def c_empty(shape, dtype=float, order="C", **k):
    return c_zeros(shape, dtype)


def c_array(obj, dtype=None, *, copy=True, order="K", subok=False, ndmin=0, like=None):
    if isinstance(obj, np.ndarray) and realdt(obj) != object and obj.dtype.kind not in "fciu":
        r = np.array(obj, dtype=dtype, copy=copy)
    elif isinstance(obj, (str, bytes)) or (dtype is not None and np.dtype(dtype).kind in "USMm"):
        r = np.array(obj, dtype=dtype)
    else:
        if isinstance(obj, np.ndarray) and copy is not True and realdt(obj) == object:
            r = obj if isinstance(obj, SA) else obj.view(SA)
        else:
            o = objarr(obj)
            if not o.ndim and not isinstance(o.item(), (Sym, SymBool, SymC, int, float, complex, Fraction)):
                return np.array(obj, dtype=dtype, ndmin=ndmin)
            if o.size and not any(isinstance(e, (Sym, SymBool, SymC, int, float, complex, np.number, Fraction, np.ndarray)) for e in o.reshape(-1)):
                r = np.array(obj, dtype=dtype)      # strings, datetimes, objects
                return r
            r = (o.copy() if copy is True else o).view(SA)
        if dtype is not None and np.dtype(dtype) != object:
            if arr.kind_dtype(r) != np.dtype(dtype):
                r = arr.cast(r, dtype)
    while r.ndim < ndmin:
        r = r[None]
    return r


def c_asarray(a, dtype=None, order=None, *, copy=None, **k):
    return c_array(a, dtype, copy=True if copy else None)


def c_require(a, dtype=None, requirements=None, **k):
    return c_array(a, dtype, copy=None)


def c_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    import operator
    num = operator.index(num) if not isinstance(num, np.ndarray) else int(num)
    if not is_symarr([start, stop]):
        return lift(np.linspace(start, stop, num, endpoint, retstep, dtype, axis))
    div = num - 1 if endpoint else num
    s, e = (objarr(x) for x in (start, stop))
    if s.ndim or e.ndim:
        raise Unsupported("linspace of arrays")
    s, e = s.item(), e.item()
    step = (e - s) / div if div else math.nan
    vals = [s + step * i for i in range(num)]
    if endpoint and num > 1:
        vals[-1] = e
    r = sa(vals) if num else sa([])
    if dtype is not None:
        r = arr.cast(r, dtype)
    return (r, step) if retstep else r


def c_arange(*a, dtype=None, **k):
    if not is_symarr(list(a)):
        return newarr(np.arange(*a, dtype=dtype))
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    n = (stop - start) / step
    n = math.ceil(n) if not isinstance(n, Sym) else int(n.ceil())
    return sa([start + i * step for i in range(max(n, 0))])


class c_vectorize:
    def __init__(self, pyfunc, otypes=None, doc=None, excluded=None, cache=False, signature=None):
        if signature is not None:
            raise Unsupported("vectorize signature")
        self.pyfunc, self.excluded, self.otypes = pyfunc, set(excluded or ()), otypes
        self.__doc__ = doc or getattr(pyfunc, "__doc__", None)

    def __call__(self, *args, **kwargs):
        pos = [i for i in range(len(args)) if i not in self.excluded]
        kws = [k for k in kwargs if k not in self.excluded]
        bs = np.broadcast_arrays(*[objarr(args[i]) for i in pos], *[objarr(kwargs[k]) for k in kws])
        sh = bs[0].shape
        res = []
        for ix in np.ndindex(*sh):
            a = list(args)
            for n, i in enumerate(pos):
                a[i] = bs[n][ix]
            kw = dict(kwargs)
            for n, k in enumerate(kws):
                kw[k] = bs[len(pos) + n][ix]
            res.append(self.pyfunc(*a, **kw))
        if not res:
            raise ValueError("cannot call `vectorize` on size 0 inputs unless `otypes` is set")
        if isinstance(res[0], tuple):
            return tuple(self._pack([r[j] for r in res], sh) for j in range(len(res[0])))
        return self._pack(res, sh)

    def _pack(self, res, sh):
        out = np.empty(len(res), object)
        for i, r in enumerate(res):
            out[i] = r.item() if isinstance(r, np.ndarray) and r.ndim == 0 else arr._pyv(r)
        out = out.reshape(sh)
        r = arr.finish(out) if sh else out.item()
        return r


class c_frompyfunc:
    def __init__(self, func, nin, nout, **k):
        self.func, self.nin, self.nout = func, nin, nout

    def __call__(self, *args, **kw):
        bs = np.broadcast_arrays(*[objarr(a) for a in args])
        outs = [np.empty(bs[0].shape, object) for _ in range(self.nout)]
        for ix in np.ndindex(*bs[0].shape):
            r = self.func(*[b[ix] for b in bs])
            if self.nout == 1:
                r = (r,)
            for o, v in zip(outs, r):
                t = np.empty((), object)
                t[()] = v
                o[ix] = v if not isinstance(v, np.ndarray) else None
                if isinstance(v, np.ndarray):
                    _setobj(o, ix, v)
        outs = [o.view(SA) if o.ndim else o.item() for o in outs]
        return outs[0] if self.nout == 1 else tuple(outs)


def _setobj(o, ix, v):
    flat = o.reshape(-1)
    flat[np.ravel_multi_index(ix, o.shape) if ix else 0] = v


def c_fromfunction(f, shape, *, dtype=float, **k):
    return lift(f(*[lift(i) for i in np.indices(shape, dtype=dtype)], **k))


# linear maps encoded by probing the real routine with basis vectors

_PROBE = {}
PRUNE = 0.0


def probe(name, f, shape, iscomplex, prune=None):
    """Real matrix of the linear map f on arrays of this shape.

    Returns (rows, out_shape, out_complex): rows[j] = list of (input index, coef)
    for real output j (complex outputs as re/im pairs)."""
    key = (name, shape, iscomplex, prune)
    if key in _PROBE:
        return _PROBE[key]
    n = int(np.prod(shape))
    cols = []
    dt = complex if iscomplex else float
    z = np.zeros(shape, dt)
    zero = f(z.copy())
    multi = isinstance(zero, tuple)
    outs0 = zero if multi else (zero,)
    for part in ((1.0, 1j) if iscomplex else (1.0,)):
        for i in range(n):
            e = np.zeros(n, dt)
            e[i] = part
            r = f(e.reshape(shape))
            cols.append([np.asarray(x).reshape(-1) for x in (r if multi else (r,))])
    res = []
    for k, o in enumerate(outs0):
        o = np.asarray(o)
        if np.abs(o).max(initial=0) != 0:
            raise Unsupported(f"{name} is not linear")
        M = np.array([c[k] for c in cols])          # inputs x outputs
        oc = np.iscomplexobj(M)
        M2 = np.stack([M.real, M.imag], axis=-1).reshape(M.shape[0], -1) if oc else M
        M2 = M2.astype(float)
        if not np.isfinite(M2).all():
            raise Unsupported(f"{name} gives non-finite output")
        tol = (PRUNE if prune is None else prune) * np.abs(M2).max(initial=0)
        rows = [[(i, Fraction(float(M2[i, j]))) for i in range(M2.shape[0]) if abs(M2[i, j]) > tol] for j in range(M2.shape[1])]
        res.append((rows, o.shape, oc))
    # superposition test of the encoding on a fixed vector
    rng = np.random.default_rng(7)
    v = rng.normal(size=shape) + (1j * rng.normal(size=shape) if iscomplex else 0)
    r = f(v.copy())
    for k, o in enumerate(r if multi else (r,)):
        rows, _, oc = res[k]
        vv = np.concatenate([v.real.reshape(-1), v.imag.reshape(-1)]) if iscomplex else v.reshape(-1)
        want = np.array([sum(float(c) * vv[i] for i, c in row) for row in rows])
        got = np.asarray(o).reshape(-1)
        got = np.stack([got.real, got.imag], -1).reshape(-1) if oc else got
        if np.abs(want - got).max(initial=0) > 1e-4 * max(1e-30, np.abs(got).max(initial=0)):
            raise Unsupported(f"{name} is not linear")
    _PROBE[key] = (res, multi)
    return _PROBE[key]


def by_monomial(name, f, shape, ic, monos, prune):
    """Image of sum_m m*C_m under the linear map f: sum_m m*f(C_m), C_m the coefficient arrays of the monomials"""
    n = int(np.prod(shape))

    def run(cs):
        a = np.zeros(2 * n if ic else n)
        for i, v in cs.items():
            a[i] = float(v)
        r = f((a[:n] + 1j * a[n:] if ic else a).reshape(shape))
        return r if isinstance(r, tuple) else (r,), isinstance(r, tuple)
    outs, multi = {}, False
    total, rng = {}, np.random.default_rng(7)
    wsum, total_scale = None, []
    scales = {}
    for m, cs in monos.items():
        b = max(abs(v) for v in cs.values())
        sc = scales[m] = Fraction(2) ** (b.numerator.bit_length() - b.denominator.bit_length())     # normalised to about 1
        cs = {i: v / sc for i, v in cs.items()}
        r, multi = run(cs)
        r = [np.asarray(o) for o in r]
        outs[m] = r
        w = float(rng.normal())
        for i, v in cs.items():
            total[i] = total.get(i, 0.) + w * float(v)
        total_scale += [w * o for o in r]
        wsum = [w * o for o in r] if wsum is None else [a + w * o for a, o in zip(wsum, r)]
    if wsum is None:
        r, multi = run({})
        return tuple(lift(o) for o in r) if multi else lift(r[0])
    chk = run(total)[0]
    scale = max([1e-30] + [float(np.abs(np.asarray(b)).max(initial=0)) for b in chk] + [float(np.abs(np.asarray(x)).max(initial=0)) for x in total_scale])
    for a, b in zip(wsum, chk):         # superposition test
        if not np.isfinite(a).all():
            raise Unsupported(f"{name} gives non-finite output")
        if np.abs(a - b).max(initial=0) > 1e-4 * scale:
            raise Unsupported(f"{name} is not linear")
    ret = []
    for k in range(len(wsum)):
        oc = any(np.iscomplexobj(o[k]) for o in outs.values())
        sh = wsum[k].shape
        re = [{} for _ in range(wsum[k].size)]
        im = [{} for _ in range(wsum[k].size)]
        for m, o in outs.items():
            a = o[k].reshape(-1)
            tol = (PRUNE if prune is None else prune) * np.abs(a).max(initial=0)
            for j, v in enumerate(a):
                if abs(v.real) > tol:
                    re[j][m] = Fraction(float(v.real)) * scales[m]
                if oc and abs(v.imag) > tol:
                    im[j][m] = Fraction(float(v.imag)) * scales[m]
        vals = [SymC(Sym(clean(a)), Sym(clean(b))) for a, b in zip(re, im)] if oc else [Sym(clean(a)) for a in re]
        o = np.empty(len(vals), object)
        o[:] = vals
        ret.append(o.reshape(sh).view(SA))
    return tuple(ret) if multi else ret[0]


def apply_linear(name, f, x, prune=None):
    x = objarr(x)
    flat = list(x.reshape(-1))
    ic = any(isinstance(e, (complex, np.complexfloating, SymC)) for e in flat)
    if any(isspecial_any(e) for e in flat):
        # non-finite data: outside the linear model
        return lift(f(force(x.view(SA))))
    if ic:
        cs = [SymC.lift(e) for e in flat]
        comps = [c.re for c in cs] + [c.im for c in cs]
    else:
        comps = [e._num() if isinstance(e, SymBool) else e for e in flat]
    comps = [Sym.lift(c) for c in comps]
    monos = {}
    for i, c in enumerate(comps):
        for m, v in c.p.items():
            monos.setdefault(m, {})[i] = v
    if len(monos) < len(comps):
        return by_monomial(name, f, x.shape, ic, monos, prune)
    res, multi = probe(name, f, x.shape, ic, prune)
    outs = []
    for rows, sh, oc in res:
        vals = []
        for row in rows:
            p = {}
            for i, c in row:
                for m, v in comps[i].p.items():
                    p[m] = p.get(m, 0) + c * v
            p = {m: v for m, v in p.items() if v}
            vals.append(Sym(clean(p)))
        if oc:
            vals = [SymC(vals[2 * j], vals[2 * j + 1]) for j in range(len(vals) // 2)]
        out = np.empty(len(vals), object)
        for i, v in enumerate(vals):
            out[i] = v
        outs.append(out.reshape(sh).view(SA))
    return tuple(outs) if multi else outs[0]


def clean(p):
    """drop rounding residue of library coefficients"""
    if len(p) < 2:
        return p
    return p


def isspecial_any(e):
    if isinstance(e, SymC):
        return core.isspecial(e.re) or core.isspecial(e.im)
    if isinstance(e, (complex, np.complexfloating)):
        return not (math.isfinite(e.real) and math.isfinite(e.imag))
    return core.isspecial(e)


def _argkey(x):
    if isinstance(x, np.ndarray):
        return (x.shape, tuple(base(x).reshape(-1).tolist())) if realdt(x) == object else (x.shape, str(x.dtype), x.tobytes())
    if isinstance(x, (list, tuple)):
        return tuple(_argkey(e) for e in x)
    if isinstance(x, dict):
        return tuple(sorted((k, _argkey(v)) for k, v in x.items()))
    return repr(x)


def linear_in(pos, bilinear=None):
    """wrapper factory: the function is linear in argument number pos"""
    def make(func):
        @functools.wraps(func)
        def w(*args, **kwargs):
            args = [unstype(a) for a in args]
            kwargs = {k: unstype(v) for k, v in kwargs.items()}
            names = getattr(w, "argnames", None)
            if len(args) <= pos:
                for nm in ("a", "x", "input", "in1"):
                    if nm in kwargs:
                        args = args + [kwargs.pop(nm)] if len(args) == pos else args
                        break
            data = args[pos]
            if not has_sym(data):
                if has_sym(args) or has_sym(kwargs):
                    if bilinear is not None and len(args) > bilinear and has_sym(args[bilinear]) \
                            and not has_sym([a for i, a in enumerate(args) if i != bilinear]):
                        rest = [unlift(a) for a in args]
                        def g(x):
                            r = list(rest)
                            r[bilinear] = x
                            return func(*r, **{k: unlift(v) for k, v in kwargs.items()})
                        key = (func.__module__, func.__name__, bilinear, _argkey([a for i, a in enumerate(rest) if i != bilinear]), _argkey(kwargs))
                        return apply_linear(key, g, args[bilinear])
                    core.cur().stats.concretised.append(func.__name__)
                return lift(func(*[force(unlift(a)) for a in args], **{k: force(unlift(v)) for k, v in kwargs.items()}))
            rest = [force(unlift(a)) if i != pos else None for i, a in enumerate(args)]
            kw = {k: force(unlift(v)) for k, v in kwargs.items()}

            def f(x):
                r = list(rest)
                r[pos] = x
                return func(*r, **kw)
            key = (func.__module__, func.__name__, _argkey(rest), _argkey(kw))
            return apply_linear(key, f, data)
        return w
    return make


def default_func(func):
    """wrapper for an arbitrary function seen by the code under test"""
    @functools.wraps(func, updated=())
    def w(*args, **kwargs):
        args = tuple(unstype(a) for a in args)
        kwargs = {k: unstype(v) for k, v in kwargs.items()}
        return call(func, args, kwargs)
    return w


def call(func, args, kwargs):
    if isinstance(func, np.ufunc):
        if is_symarr(list(args)):
            return arr.array_ufunc(func, "__call__", tuple(objseq(a) for a in args[:func.nin]),
                                   {**kwargs, **({"out": args[func.nin:]} if len(args) > func.nin else {})})
        return lift(func(*args, **kwargs))
    f = LAZY.get(func)
    if f is not None:
        return f(*args, **kwargs)
    if is_symarr(list(args)) or is_symarr(kwargs):
        return arr.array_function(func, (), args, kwargs)
    return lift(func(*args, **kwargs))


def objseq(a):
    return sa(a) if isinstance(a, (list, tuple)) else a


def _meshgrid(*xi, copy=True, sparse=False, indexing="xy"):
    return [r for r in map(lift, np.meshgrid(*[objarr(x) for x in xi], copy=copy, sparse=sparse, indexing=indexing))]


def _atleast(n):
    def f(*a):
        r = []
        for x in a:
            x = c_asarray(x)
            x = x if isinstance(x, np.ndarray) else sa(x)
            while x.ndim < n:
                x = x[None]
            r.append(x)
        return r[0] if len(r) == 1 else tuple(r)
    return f


for names, impl_ in (
        (("zeros",), c_zeros), (("ones",), c_ones), (("full",), c_full), (("empty",), c_empty),
        (("zeros_like",), c_zeros_like), (("empty_like",), c_zeros_like), (("ones_like",), c_ones_like), (("full_like",), c_full_like),
        (("array",), c_array), (("asarray", "asanyarray", "ascontiguousarray", "asfortranarray", "asarray_chkfinite"), c_asarray),
        (("require",), c_require), (("linspace",), c_linspace), (("arange",), c_arange),
        (("fromfunction",), c_fromfunction), (("meshgrid",), _meshgrid),
        (("atleast_1d",), _atleast(1)), (("atleast_2d",), _atleast(2)), (("atleast_3d",), _atleast(3)),
        (("copy",), lambda a, order="K", subok=False: c_array(a, copy=True)),
        (("eye",), lambda *a, **k: newarr(np.eye(*a, **k))), (("identity",), lambda *a, **k: newarr(np.identity(*a, **k))),
        (("fromiter",), lambda it, dtype, count=-1, **k: c_array(list(it), dtype))):
    for n in names:
        if hasattr(np, n):
            LAZY[getattr(np, n)] = impl_
            MOVERS.discard(getattr(np, n))

for _n in ("fft ifft rfft irfft fft2 ifft2 fftn ifftn hfft ihfft fftshift ifftshift rfft2 irfft2").split():
    _f = getattr(np.fft, _n)
    LAZY[_f] = linear_in(0)(_f)


def _norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2, "fro"):
        raise Unsupported("norm order")
    s = arr.reduce_("add", arr.emap(lambda v: abs(v) * abs(v) if not isinstance(v, SymC) else v.re * v.re + v.im * v.im, x), axis, keepdims)
    return arr.array_ufunc(np.sqrt, "__call__", (s,), {})


LAZY[np.linalg.norm] = _norm


def _wrap1(func):
    return LAZY.get(func) or default_func(func)


# ------------------------------------------------------------------- proxies

class Proxy(types.ModuleType):
    """module stand-in"""

    def __init__(self, mod, over=None):
        super().__init__(mod.__name__)
        self.__dict__["_mod"] = mod
        self.__dict__["_over"] = over or {}
        self.__dict__["_cache"] = {}

    def __getattr__(self, name):
        c = self._cache
        if name in c:
            return c[name]
        if name in self._over:
            v = self._over[name]
        else:
            v = proxied(getattr(self._mod, name))
        c[name] = v
        return v

    def __dir__(self):
        return dir(self._mod)


class Concat:
    """np.r_ and np.c_"""

    def __init__(self, cols):
        self.cols = cols

    def __getitem__(self, key):
        if isinstance(key, str):
            raise Unsupported("np.r_ with directives")
        parts = []
        for k in key if isinstance(key, tuple) else (key,):
            if isinstance(k, str):
                raise Unsupported("np.r_ with directives")
            if isinstance(k, slice):
                k = np.linspace(k.start or 0, k.stop, int(abs(k.step))) if isinstance(k.step, complex) else np.arange(k.start or 0, k.stop, k.step or 1)
            k = objarr(k)
            k = k.reshape(-1) if k.ndim == 0 else k
            parts.append(k[:, None] if self.cols and k.ndim == 1 else k)
        return np.concatenate(parts, axis=-1 if self.cols else 0).view(SA)


_PROXIES = {}
ROOTS = ("numpy", "scipy", "math", "spharm", "cmath")


def proxied(v):
    if isinstance(v, types.ModuleType):
        if v.__name__.split(".")[0] in ROOTS:
            p = _PROXIES.get(v.__name__)
            if p is None:
                p = _PROXIES[v.__name__] = Proxy(v, OVER.get(v.__name__))
            return p
        return v
    if isinstance(v, np.ufunc):
        return UProxy(v)
    if isinstance(v, type):
        return v
    if callable(v) and not isinstance(v, (np.dtype,)):
        return default_func(v) if hasattr(v, "__name__") else v
    return v


class UProxy:
    """ufunc as seen by the code under test"""

    def __init__(self, uf):
        self.uf = uf
        self.__name__ = uf.__name__
        self.__doc__ = uf.__doc__

    def __call__(self, *args, **kw):
        args = tuple(unstype(a) for a in args)
        kw = {k: unstype(v) for k, v in kw.items()}
        return call(self.uf, args, kw)

    def _m(self, method, args, kw):
        kw = {k: unstype(v) for k, v in kw.items()}
        if is_symarr(list(args)):
            if method in ("reduce", "accumulate") and len(args) > 1:
                kw["axis"] = args[1]
                args = args[:1]
            return arr.array_ufunc(self.uf, method, tuple(objseq(a) for a in args), kw)
        return lift(getattr(self.uf, method)(*args, **kw))

    def reduce(self, *a, **k): return self._m("reduce", a, k)
    def accumulate(self, *a, **k): return self._m("accumulate", a, k)
    def outer(self, *a, **k): return self._m("outer", a, k)
    def at(self, *a, **k): return self._m("at", a, k)
    def reduceat(self, *a, **k): return self._m("reduceat", a, k)

    def __getattr__(self, n):
        return getattr(self.uf, n)


def np_scalar(t):
    """np.float64(...) etc."""
    class S(metaclass=_NumMeta):
        real_type = t
        dtype = np.dtype(t)

        @staticmethod
        def conv(x):
            return int(x) if np.dtype(t).kind in "iu" and not isinstance(x, Sym) else arr.cast(x, t)
    S.__name__ = t.__name__
    return S


def _mathfn(name, uf=None):
    real = getattr(math, name)
    uf = uf or getattr(np, {"asin": "arcsin", "acos": "arccos", "pow": "power", "radians": "deg2rad", "degrees": "rad2deg"}.get(name, name), None)

    def f(*a):
        if has_sym(list(a)):
            a = [x.item() if isinstance(x, np.ndarray) else x for x in a]
            r = arr.scalar_op(uf, *a)
            return int(r) if name in ("floor", "ceil", "trunc") else r
        return real(*[x.item() if isinstance(x, np.ndarray) and x.size == 1 else float(x) if isinstance(x, Fraction) else x for x in a])
    return f


def _misclose(a, b, *, rel_tol=1e-9, abs_tol=0.0):
    if not has_sym([a, b]):
        return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    if core.isspecial(a) or core.isspecial(b):
        return False
    return abs(a - b) <= core.vmax([rel_tol * core.vmax([abs(a), abs(b)]), abs_tol])


# scipy -----------------------------------------------------------------------

class SymInterp1d:
    """scipy.interpolate.interp1d: linear kind modelled (symbolic nodes and values);
    other kinds linear in y by probing (concrete nodes)."""

    def __init__(self, x, y, kind="linear", axis=-1, copy=True, bounds_error=None, fill_value=np.nan, assume_sorted=False):
        import scipy.interpolate
        x, y = objarr(x), objarr(y)
        if x.ndim != 1:
            raise ValueError("the x array must have exactly one dimension.")
        if y.ndim == 0:
            raise ValueError("the y array must have at least one dimension.")
        self.axis = axis % y.ndim
        if y.shape[self.axis] != len(x):
            raise ValueError("x and y arrays must be equal in length along interpolation axis.")
        if not assume_sorted:
            o = arr.argsort_list(list(x))
            x = x[o]
            y = np.take(y, o, axis=self.axis)
        self.x, self._y, self.kind = x, np.moveaxis(y, self.axis, 0), kind
        self.y = wrap(y)
        self.extrapolate = isinstance(fill_value, str) and fill_value == "extrapolate"
        self.fill = fill_value
        self.bounds_error = (not self.extrapolate and np.isscalar(fill_value) and core.isspecial(fill_value)) if bounds_error is None else bounds_error
        if kind in (1, "slinear"):
            kind = "linear"
        if kind == "linear":
            self.lin1 = y.ndim == 1 and not self.extrapolate
            return
        if has_sym(x):
            core.cur().stats.concretised.append("interp1d nodes")
            self.x = x = objarr(force(x.view(SA)))
        scipy.interpolate.interp1d(unlift(x.view(SA)), np.zeros(len(x)), kind=kind, assume_sorted=True)   # argument errors

    def __call__(self, xn):
        xn_ = objarr(xn)
        if self.kind in ("linear", "slinear", 1):
            n = len(self.x)
            xs = list(self.x)
            res = np.empty((xn_.size,) + self._y.shape[1:], object)
            for k, x in enumerate(xn_.reshape(-1)):
                below, above = bool(x < xs[0]), bool(x > xs[-1])
                if self.bounds_error and below:
                    raise ValueError("A value in x_new is below the interpolation range's minimum value.")
                if self.bounds_error and above:
                    raise ValueError("A value in x_new is above the interpolation range's maximum value.")
                if (below or above) and not self.extrapolate:
                    fv = self.fill
                    if isinstance(fv, tuple):
                        fv = fv[0] if below else fv[1]
                    res[k] = fv
                    continue
                if self.lin1:
                    res[k] = arr.interp1(x, xs, list(self._y), None, None)
                    continue
                hi = min(max(arr.searchsorted(wrap(self.x), x), 1), n - 1)
                lo = hi - 1
                ylo, yhi = self._y[lo], self._y[hi]
                d = xs[hi] - xs[lo]
                f = lambda a, b: arr.div(b - a, d) * (x - xs[lo]) + a
                if res.ndim == 1:
                    res[k] = f(ylo, yhi)
                else:
                    for ix in np.ndindex(*ylo.shape):
                        res[(k,) + ix] = f(ylo[ix], yhi[ix])
        else:
            import scipy.interpolate
            xr, xnr = unlift(self.x.view(SA)), force(unlift(sa(xn_)))
            kind = self.kind

            def g(y):
                return scipy.interpolate.interp1d(xr, y, kind=kind, axis=0, assume_sorted=True,
                                                  bounds_error=self.bounds_error, fill_value=self.fill)(np.asarray(xnr).reshape(-1))
            res = objarr(apply_linear(("interp1d", _argkey(xr), _argkey(xnr), kind), g, self._y.view(SA)))
        res = res.reshape(xn_.shape + self._y.shape[1:])
        nx = xn_.ndim
        # put the new axes where the interpolation axis was
        order = list(range(nx, nx + self.axis)) + list(range(nx)) + list(range(nx + self.axis, res.ndim))
        return wrap(res.transpose(order)) if res.ndim else res.item()


# spharm ----------------------------------------------------------------------

SPH_PRUNE = 5e-6


class SymSpharmt:
    """spharm.Spharmt: the real transforms, linear in the data (encoded by probing).
    A symbolic sphere radius enters by the documented power law of each routine."""

    def __init__(self, nlon, nlat, rsphere=6.3712e6, gridtype="regular", legfunc="stored"):
        import spharm
        self._sym_r = None
        r = rsphere.item() if isinstance(rsphere, np.ndarray) else rsphere
        if isinstance(r, Sym) and not r.isconst:
            self._sym_r = r
            r = 1.0
        self._real = spharm.Spharmt(nlon, nlat, rsphere=float(r), gridtype=gridtype, legfunc=legfunc)
        self._id = (nlon, nlat, float(r), gridtype, legfunc)

    def __getattr__(self, n):
        if n == "rsphere" and self._sym_r is not None:
            return self._sym_r
        if n.startswith("__") or n == "_real":
            raise AttributeError(n)
        return getattr(self._real, n)

    def _call(self, name, data, rest, power=0):
        real = getattr(self._real, name)
        n = len(data)
        data = [objarr(d) for d in data]
        if not any(has_sym(d) for d in data):
            out = lift(real(*[unlift(d.view(SA)) for d in data], *rest))
        elif n == 1:
            out = apply_linear((self._id, name, rest), lambda x: real(x, *rest), data[0], SPH_PRUNE)
        else:
            if data[0].shape != data[1].shape:
                real(*[np.zeros(d.shape) for d in data], *rest)       # raises like the real one
                raise Unsupported("shape mismatch accepted by spharm")
            out = apply_linear((self._id, name, rest), lambda x: real(*x, *rest), np.stack(data), SPH_PRUNE)
        if power and self._sym_r is not None:
            s = self._sym_r if power > 0 else 1 / self._sym_r
            out = tuple(o * s for o in out) if isinstance(out, tuple) else out * s
        return out

    def grdtospec(self, datagrid, ntrunc=None):
        return self._call("grdtospec", [datagrid], (ntrunc,))

    def spectogrd(self, dataspec):
        return self._call("spectogrd", [dataspec], ())

    def getuv(self, vrtspec, divspec):
        return self._call("getuv", [vrtspec, divspec], (), +1)

    def getvrtdivspec(self, ugrid, vgrid, ntrunc=None):
        return self._call("getvrtdivspec", [ugrid, vgrid], (ntrunc,), -1)

    def getgrad(self, chispec):
        return self._call("getgrad", [chispec], (), -1)

    def getpsichi(self, ugrid, vgrid, ntrunc=None):
        return self._call("getpsichi", [ugrid, vgrid], (ntrunc,), +1)

    def specsmooth(self, datagrid, smooth):
        sm = unlift(sa(smooth))
        return self._call("specsmooth", [datagrid], (sm,))

    def __repr__(self):
        return repr(self._real)


def _scipy_over():
    import scipy.interpolate, scipy.signal, scipy.ndimage, scipy.fft, scipy.special, scipy.integrate
    nd = {n: linear_in(0, 1)(getattr(scipy.ndimage, n)) for n in ("convolve", "correlate", "convolve1d", "correlate1d")}
    nd.update({n: linear_in(0)(getattr(scipy.ndimage, n)) for n in ("uniform_filter", "uniform_filter1d", "gaussian_filter", "gaussian_filter1d")})
    sg = {n: linear_in(0, 1)(getattr(scipy.signal, n)) for n in ("convolve", "convolve2d", "correlate", "correlate2d", "fftconvolve", "oaconvolve")}
    sg["hilbert"] = linear_in(0)(scipy.signal.hilbert)
    ff = {n: linear_in(0)(getattr(scipy.fft, n)) for n in ("fft", "ifft", "rfft", "irfft", "fft2", "ifft2", "fftshift", "ifftshift")}
    return {"scipy.interpolate": {"interp1d": SymInterp1d}, "scipy.ndimage": nd, "scipy.signal": sg, "scipy.fft": ff}


def _np_over():
    o = {"vectorize": c_vectorize, "frompyfunc": c_frompyfunc}
    for t in (np.float64, np.float32, np.int64, np.int32, np.complex128, np.complex64, np.bool_):
        for n in dir(np):
            if getattr(np, n) is t:
                o[n] = np_scalar(t)
    return o


OVER = {}


def setup_over():
    if OVER:
        return
    OVER["numpy"] = _np_over()
    OVER["numpy"]["r_"] = Concat(False)
    OVER["numpy"]["c_"] = Concat(True)
    OVER.update(_scipy_over())
    OVER["spharm"] = {"Spharmt": SymSpharmt}
    OVER["math"] = {n: _mathfn(n) for n in ("sin cos tan asin acos sqrt exp floor ceil trunc fabs hypot copysign fmod "
                                            "radians degrees isnan isinf isfinite pow").split()}
    OVER["math"]["isclose"] = _misclose
    OVER["math"]["fsum"] = lambda it: arr.vsum(list(it))


# ------------------------------------------------------------------ importing

_real_import = builtins.__import__
STANDIN = {}         # modules provided by the harness (see Ctx.provide)


def _norm_mod(name):
    return name.split(".")[0] in ROOTS


def sym_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0 and name == "xarray":
        from . import xrmodel
        return xrmodel
    if level == 0 and name.split(".")[0] == "matplotlib":
        from . import mplmodel
        return mplmodel.module(name, fromlist)
    if level == 0 and name in STANDIN:
        return STANDIN[name]
    m = _real_import(name, globals, locals, fromlist, level)
    if level == 0 and _norm_mod(name):
        return proxied(m)
    return m


def sym_builtins():
    d = dict(vars(builtins))
    d.update(float=sfloat, int=sint, complex=scomplex, bool=sbool, isinstance=sym_isinstance, round=sround, pow=spow,
             __import__=sym_import)
    return d


class Loader(importlib.abc.Loader):
    def __init__(self, path, ispkg):
        self.path, self.ispkg = path, ispkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, "rb") as f:
            src = f.read()
        code = compile(src, self.path, "exec", dont_inherit=True)
        module.__dict__["__builtins__"] = BUILTINS
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != "barotropic" and not name.startswith("barotropic."):
            return None
        p = os.path.join(REPO_SRC, *name.split("."))
        if os.path.isdir(p):
            f, pkg = os.path.join(p, "__init__.py"), True
        else:
            f, pkg = p + ".py", False
        if not os.path.exists(f):
            return None
        return importlib.util.spec_from_file_location(name, f, loader=Loader(f, pkg),
                                                      submodule_search_locations=[p] if pkg else None)


BUILTINS = None


def load():
    """Import barotropic into the symbolic world (once per process)."""
    global BUILTINS
    if BUILTINS is None:
        setup_over()
        BUILTINS = sym_builtins()
        sys.meta_path.insert(0, Finder())
    import barotropic
    return barotropic


def symnp():
    setup_over()
    return proxied(np)
