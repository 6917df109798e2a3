"""Symbolic arrays: an ndarray subclass of objects plus numpy models."""
import builtins
import functools
import itertools
import math
import operator
from fractions import Fraction
import numpy as np
from . import core
from .core import Sym, SymBool, SymC, Unsupported, cur, ite, mkbool, tonode, fand, f_or, fnot, isspecial

_real_asarray = np.asarray


class SA(np.ndarray):
    """Array of numbers some of which may be symbolic."""
    __array_priority__ = 2000

    def __array_finalize__(self, obj):
        pass

    # -- type information as seen by the code under test
    @property
    def dtype(self):
        return kind_dtype(self)

    @dtype.setter
    def dtype(self, v):
        pass

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return array_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return array_function(func, types, args, kwargs)

    # -- indexing
    def __getitem__(self, idx):
        r = base(self)[norm_index(idx)]
        return r.view(SA) if isinstance(r, np.ndarray) and r.dtype == object else r

    def __setitem__(self, idx, val):
        b = base(self)
        m = _sym_mask(idx, b.shape)
        if m is not None and (not isinstance(val, np.ndarray) or val.ndim == 0):
            v = val.item() if isinstance(val, np.ndarray) else val
            flat = m.reshape(-1)
            out = b[...] if m.ndim == b.ndim else None
            if out is not None:
                for k, i in enumerate(np.ndindex(*b.shape)):
                    b[i] = ite(flat[k], v, b[i])
                return
        if isinstance(val, (list, tuple)):
            val = base(sa(val))
        elif isinstance(val, np.ndarray):
            val = objarr(val)
        i = norm_index(idx)
        if isinstance(val, np.ndarray) or not _is_elem(val):
            b[i] = val
        else:
            if isinstance(b[i], np.ndarray):
                t = np.empty((), object)
                t[()] = val
                b[i] = t
            else:
                b[i] = val

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(self.shape[0]):
            yield self[i]

    def __contains__(self, x):
        return bool((self == x).any())

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")
        return bool(base(self).reshape(-1)[0])

    def __float__(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return float(base(self).reshape(-1)[0])

    def __int__(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return int(base(self).reshape(-1)[0])

    def __index__(self):
        if self.ndim != 0:
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return operator.index(self.item())

    def __repr__(self):
        return f"SA({base(self)!r})"

    __str__ = __repr__

    def __format__(self, spec):
        if self.ndim == 0:
            return format(self.item(), spec)
        return repr(self)

    def item(self, *a):
        return base(self).item(*a) if a else base(self).reshape(-1)[0] if self.size == 1 else base(self).item()

    def tolist(self):
        return base(self).tolist()

    def astype(self, dtype, order="K", casting="unsafe", subok=True, copy=True):
        return cast(self, dtype)

    def view(self, *a, **k):
        if a and a[0] in (SA, np.ndarray):
            return np.ndarray.view(self, a[0])
        return self

    def copy(self, order="C"):
        return wrap(base(self).copy())

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def __reduce__(self):
        raise Unsupported("pickling symbolic arrays")

    # -- reductions / methods
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, initial=0, where=True):
        return reduce_("add", self, axis, keepdims, initial, where)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, initial=1, where=True):
        return reduce_("multiply", self, axis, keepdims, initial, where)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, where=True):
        return mean(self, axis=axis, keepdims=keepdims, where=where)

    def max(self, axis=None, out=None, keepdims=False, initial=None, where=True):
        return extremum(self, True, axis, keepdims, initial, where)

    def min(self, axis=None, out=None, keepdims=False, initial=None, where=True):
        return extremum(self, False, axis, keepdims, initial, where)

    def ptp(self, axis=None, out=None, keepdims=False):
        return self.max(axis, keepdims=keepdims) - self.min(axis, keepdims=keepdims)

    def any(self, axis=None, out=None, keepdims=False, where=True):
        return reduce_("logical_or", self, axis, keepdims, False, where)

    def all(self, axis=None, out=None, keepdims=False, where=True):
        return reduce_("logical_and", self, axis, keepdims, True, where)

    def argmax(self, axis=None, out=None, keepdims=False):
        return argext(self, True, axis, keepdims)

    def argmin(self, axis=None, out=None, keepdims=False):
        return argext(self, False, axis, keepdims)

    def argsort(self, axis=-1, kind=None, order=None, stable=None):
        return argsort(self, axis)

    def sort(self, axis=-1, kind=None, order=None, stable=None):
        base(self)[...] = base(take_along(self, argsort(self, axis), axis))

    def searchsorted(self, v, side="left", sorter=None):
        return searchsorted(self, v, side, sorter)

    def cumsum(self, axis=None, dtype=None, out=None):
        return accumulate("add", self if axis is not None else self.ravel(), 0 if axis is None else axis)

    def cumprod(self, axis=None, dtype=None, out=None):
        return accumulate("multiply", self if axis is not None else self.ravel(), 0 if axis is None else axis)

    def clip(self, min=None, max=None, out=None, **kw):
        return clip(self, min, max)

    def round(self, decimals=0, out=None):
        return around(self, decimals)

    def nonzero(self):
        return nonzero(self)

    def dot(self, o, out=None):
        return dot(self, o)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, where=True):
        return array_ufunc(np.sqrt, "__call__", (self.var(axis, ddof=ddof, keepdims=keepdims),), {})

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, where=True):
        m = mean(self, axis=axis, keepdims=True)
        d = self - m
        n = self.size if axis is None else np.prod([self.shape[a] for a in np.atleast_1d(axis)])
        return (d * d).sum(axis=axis, keepdims=keepdims) / (n - ddof)

    def conj(self):
        return np.conjugate(self)
    conjugate = conj

    @property
    def real(self):
        return emap(lambda x: x.real if not isinstance(x, bool) else x, self)

    @property
    def imag(self):
        return emap(lambda x: x.imag if not isinstance(x, bool) else 0, self)

    @property
    def flat(self):
        return iter(list(base(self).reshape(-1)))

    def fill(self, v):
        base(self)[...] = np.array(v, dtype=object) if not _is_elem(v) else _el(v)

    def take(self, indices, axis=None, out=None, mode="raise"):
        return wrap(base(self).take(norm_int(indices), axis=axis, mode=mode))

    def repeat(self, repeats, axis=None):
        return wrap(base(self).repeat(norm_int(repeats), axis=axis))

    def __matmul__(self, o):
        return dot(self, o)

    def __rmatmul__(self, o):
        return dot(o, self)


def _el(v):
    t = np.empty((), object)
    t[()] = v
    return t


def _is_elem(v):
    return isinstance(v, (Sym, SymBool, SymC, int, float, complex, bool, np.generic, str, bytes, type(None)))


def base(x):
    return np.ndarray.view(x, np.ndarray) if isinstance(x, SA) else x


def realdt(x):
    """actual numpy dtype"""
    return base(x).dtype


def wrap(x):
    """object ndarray -> SA; scalars unchanged."""
    if isinstance(x, SA):
        return x[()] if x.ndim == 0 else x
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            return x.item() if x.dtype == object else x[()]
        return x.view(SA) if x.dtype == object else x
    return x


def objarr(x):
    """object ndarray (base class) of anything array-like, keeping scalars as Python numbers"""
    if isinstance(x, SA):
        return base(x)
    if isinstance(x, np.ndarray):
        return x if x.dtype == object else _toobj(x)
    if isinstance(x, (Sym, SymBool, SymC)) or np.isscalar(x) or x is None:
        return _el(x.item() if isinstance(x, np.generic) else x)
    if isinstance(x, (list, tuple, range)):
        parts = [objarr(e) for e in x]
        if not parts:
            return np.empty((0,), object)
        sh = parts[0].shape
        if any(p.shape != sh for p in parts):
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        out = np.empty((len(parts),) + sh, object)
        for i, p in enumerate(parts):
            out[i] = p if p.ndim else p.item()
        return out
    if hasattr(x, "__array__"):
        return objarr(np.asarray(x))
    if hasattr(x, "values") and not callable(x.values):
        return objarr(x.values)
    return _el(x)


def _toobj(x):
    if x.dtype.kind in "Mm":
        out = np.empty(x.shape, object)
        for i in np.ndindex(*x.shape):
            out[i] = x[i]
        return out
    return x.astype(object)


def sa(x):
    return objarr(x).view(SA)


SYMS = (Sym, SymBool, SymC)
PLAIN = (bool, int, float, complex, str, Fraction, np.generic)


def types(x):
    """the types of the elements"""
    return set(map(type, base(x).ravel().tolist()))


def has_sym(x, depth=0):
    if isinstance(x, (Sym, SymBool, SymC)):
        return True
    if isinstance(x, np.ndarray):
        if realdt(x) != object:
            return False
        t = types(x)
        return (not t.isdisjoint(SYMS) or not all(issubclass(k, PLAIN) for k in t)
                and any(isinstance(e, SYMS) or (isinstance(e, np.ndarray) and has_sym(e)) for e in base(x).reshape(-1)))
    if depth < 3 and isinstance(x, (list, tuple)):
        return any(has_sym(e, depth + 1) for e in x)
    if depth < 3 and isinstance(x, dict):
        return any(has_sym(e, depth + 1) for e in x.values())
    return False


def is_symarr(x, depth=0):
    """contains symbolic data or symbolic-world arrays"""
    if isinstance(x, (Sym, SymBool, SymC)):
        return True
    if isinstance(x, np.ndarray):
        return realdt(x) == object
    if depth < 3 and isinstance(x, (list, tuple)):
        return any(is_symarr(e, depth + 1) for e in x)
    if depth < 2 and isinstance(x, dict):
        return any(is_symarr(e, depth + 1) for e in x.values())
    return False


def kind_dtype(x):
    k = 0
    if x.size and types(x) == {float}:
        return np.dtype(float)
    for e in base(x).reshape(-1):
        if isinstance(e, (bool, np.bool_, SymBool)):
            continue
        if isinstance(e, (int, np.integer)) or (isinstance(e, Sym) and e._is_int() and not e.isconst):
            k = max(k, 1)
        elif isinstance(e, (Sym, float, np.floating, Fraction)):
            k = max(k, 2)
        elif isinstance(e, (SymC, complex, np.complexfloating)):
            return np.dtype(complex)
        else:
            return np.dtype(object)
    if x.size == 0:
        return np.dtype(float)
    return np.dtype([bool, int, float][k])


def concrete(x):
    """Real-dtype array/scalar if no symbolic element is left, else None."""
    if isinstance(x, np.ndarray) and realdt(x) == object:
        if has_sym(x):
            return None
        dt = kind_dtype(x)
        if dt == object:
            return None
        return base(x).astype(dt)
    return None if has_sym(x) else x


def deconst(x):
    """Constant Syms -> floats (for handing to compiled code)."""
    return x


def force(x):
    """Concretise everything symbolic in x (under-approximation) for compiled code."""
    if isinstance(x, Sym):
        if x.isconst:
            return float(x.cval)
        if x._is_int():
            return cur().choose_value(x)
        return float(x)
    if isinstance(x, SymBool):
        return bool(x)
    if isinstance(x, SymC):
        return complex(force(x.re), force(x.im))
    if isinstance(x, np.ndarray) and realdt(x) == object:
        b = base(x)
        out = np.empty(b.shape, object)
        for i in np.ndindex(*b.shape):
            out[i] = force(b[i])
        try:
            dt = kind_dtype(out)
        except Exception:
            return out
        return out if dt == object else out.astype(dt)
    if isinstance(x, list):
        return [force(e) for e in x]
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(force(e) for e in x)
    if isinstance(x, dict):
        return {k: force(v) for k, v in x.items()}
    return x


# -------------------------------------------------------------------- indexing

def norm_index(idx):
    if isinstance(idx, tuple):
        return tuple(norm_index1(i) for i in idx)
    return norm_index1(idx)


def norm_index1(i):
    if isinstance(i, np.ndarray) and realdt(i) == object:
        return norm_int(i)
    if isinstance(i, SymBool):
        return bool(i)
    if isinstance(i, Sym):
        return operator.index(i)
    if isinstance(i, slice):
        f = lambda x: operator.index(x) if isinstance(x, (Sym, np.ndarray)) else x
        return slice(f(i.start), f(i.stop), f(i.step))
    if isinstance(i, list) and is_symarr(i):
        return norm_int(sa(i))
    return i


def norm_int(i):
    """index array of ints or bools with symbolic entries decided"""
    if isinstance(i, (Sym, SymBool)):
        return norm_index1(i)
    if isinstance(i, (list, tuple)):
        i = sa(i)
    if not isinstance(i, np.ndarray) or realdt(i) != object:
        return i
    b = base(i)
    vals = list(b.reshape(-1))
    if not vals:
        return np.zeros(b.shape, int)
    if all(isinstance(v, (bool, np.bool_, SymBool)) for v in vals):
        return np.array([bool(v) for v in vals], dtype=bool).reshape(b.shape)
    out = []
    for v in vals:
        if isinstance(v, (float, np.floating)) or (isinstance(v, Sym) and not v._is_int()):
            raise IndexError("arrays used as indices must be of integer (or boolean) type")
        out.append(operator.index(v))
    return np.array(out, dtype=int).reshape(b.shape)


def _sym_mask(idx, shape):
    """boolean mask array with undecided entries, of the full shape"""
    if isinstance(idx, np.ndarray) and realdt(idx) == object and idx.shape == shape:
        b = base(idx)
        if all(isinstance(v, (bool, np.bool_, SymBool)) for v in b.reshape(-1)) and has_sym(idx):
            return b
    return None


# ---------------------------------------------------------------- element-wise

def emap(f, *xs):
    bs = np.broadcast_arrays(*[objarr(x) for x in xs]) if len(xs) > 1 else [objarr(xs[0])]
    out = np.empty(bs[0].shape, object)
    fl = [b.reshape(-1) for b in bs]
    o = out.reshape(-1)
    for i in range(o.size):
        o[i] = f(*[b[i] for b in fl])
    return finish(out)


def finish(out):
    """bool object arrays without symbols become real bool arrays"""
    if out.ndim == 0:
        return out.item()
    if out.size and all(isinstance(v, (bool, np.bool_)) for v in out.reshape(-1)):
        return out.astype(bool)
    return out.view(SA)


def plain(x):
    return not isinstance(x, (Sym, SymBool, SymC, np.ndarray))


def _pyv(x):
    return x.item() if isinstance(x, np.generic) and x.dtype.kind not in "Mm" else x


def _opf(name):
    def deco(f):
        OPS[name] = f
        return f
    return deco


OPS = {}


def _arith(op):
    def f(a, b):
        return op(_pyv(a), _pyv(b))
    return f


OPS.update({
    "add": _arith(operator.add), "subtract": _arith(operator.sub), "multiply": _arith(operator.mul),
    "divide": _arith(operator.truediv), "true_divide": _arith(operator.truediv),
    "floor_divide": _arith(operator.floordiv), "remainder": _arith(operator.mod), "mod": _arith(operator.mod),
    "power": _arith(operator.pow), "float_power": _arith(operator.pow),
    "less": _arith(operator.lt), "less_equal": _arith(operator.le),
    "greater": _arith(operator.gt), "greater_equal": _arith(operator.ge),
    "equal": _arith(operator.eq), "not_equal": _arith(operator.ne),
    "negative": operator.neg, "positive": lambda a: a, "absolute": abs, "fabs": abs, "abs": abs,
})


def lb(x):
    return mkbool(tonode(x))


OPS.update({
    "logical_and": lambda a, b: mkbool(fand(tonode(a), tonode(b))),
    "logical_or": lambda a, b: mkbool(f_or(tonode(a), tonode(b))),
    "logical_xor": lambda a, b: lb(a) ^ lb(b) if isinstance(lb(a), SymBool) else (lb(b) ^ lb(a)),
    "logical_not": lambda a: mkbool(fnot(tonode(a))),
})


def _bit(name, pyop):
    def f(a, b):
        if isinstance(a, (bool, np.bool_, SymBool)) and isinstance(b, (bool, np.bool_, SymBool)):
            return OPS["logical_" + name](a, b)
        return pyop(operator.index(a), operator.index(b))
    return f


OPS["bitwise_and"] = _bit("and", operator.and_)
OPS["bitwise_or"] = _bit("or", operator.or_)
OPS["bitwise_xor"] = _bit("xor", operator.xor)
OPS["invert"] = lambda a: OPS["logical_not"](a) if isinstance(a, (bool, np.bool_, SymBool)) else ~operator.index(a)


def _meth(name):
    def f(a):
        a = a._num() if isinstance(a, SymBool) else a
        if not hasattr(a, name):
            raise Unsupported(f"np.{name} of {type(a).__name__}")
        return getattr(a, name)()
    return f


for _n in ("sin", "cos", "tan", "arcsin", "arccos", "sqrt", "exp", "deg2rad", "radians", "rad2deg", "degrees",
           "conjugate", "square", "floor", "ceil", "rint", "sign", "isfinite", "isnan", "isinf"):
    OPS[_n] = _meth(_n)
OPS["trunc"] = lambda a: ite(a >= 0, a.floor(), a.ceil())
OPS["reciprocal"] = lambda a: 1 / a
OPS["maximum"] = lambda a, b: _max2(a, b, True)
OPS["minimum"] = lambda a, b: _max2(a, b, False)
OPS["fmax"], OPS["fmin"] = OPS["maximum"], OPS["minimum"]
OPS["hypot"] = lambda a, b: core.sqrt(Sym.lift(a * a + b * b), True)
OPS["heaviside"] = lambda a, b: ite(a > 0, 1., ite(a < 0, 0., b))
OPS["copysign"] = lambda a, b: ite(b >= 0, abs(a), -abs(a))
OPS["signbit"] = lambda a: a < 0
OPS["expm1"] = lambda a: core.exp(a) - 1
OPS["fmod"] = lambda a, b: a - b * OPS["trunc"](a / b)
OPS["clip"] = lambda a, lo, hi: _max2(_max2(a, lo, True), hi, False)
OPS["logaddexp"] = None
OPS["isnat"] = lambda a: False


def _max2(a, b, mx):
    if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)):
        return OPS["logical_or" if mx else "logical_and"](a, b)
    return (core.vmax if mx else core.vmin)([_pyv(a), _pyv(b)])


def scalar_op(ufunc, *xs):
    if all(plain(x) for x in xs):
        xs = [float(x) if isinstance(x, Fraction) else x for x in xs]
        with np.errstate(all="ignore"):
            r = ufunc(*xs)
        if isinstance(r, tuple):
            return tuple(_pyv(v) for v in r)
        return _pyv(r)
    if any(isinstance(x, np.ndarray) and x.ndim for x in xs):
        return getattr(ufunc, "__call__")(*xs)
    xs = [x.item() if isinstance(x, np.ndarray) else x for x in xs]
    f = OPS.get(ufunc.__name__)
    if f is None:
        raise Unsupported(f"np.{ufunc.__name__} of symbolic numbers")
    r = f(*xs)
    if r is NotImplemented:
        raise TypeError(f"unsupported operand for {ufunc.__name__}")
    return r


def native(ufunc, inputs):
    """large arrays of plain numbers of one type: evaluated by numpy itself (None if that does not apply)"""
    if not any(isinstance(x, np.ndarray) and x.size > 32 for x in inputs):
        return None
    xs = []
    for x in inputs:
        if isinstance(x, np.ndarray) and realdt(x) == object:
            if types(x) != {float}:
                return None
            xs.append(base(x).astype(float))
        elif type(x) in (int, float, bool) or isinstance(x, np.ndarray) and realdt(x).kind in "fb":
            xs.append(base(x) if isinstance(x, np.ndarray) else x)
        else:
            return None
    with np.errstate(all="ignore"):
        r = ufunc(*xs)
    return lift(r) if isinstance(r, np.ndarray) and r.dtype.kind in "fb" else None


def lower(x):
    """Sym constants to float where possible (keeps terms small)."""
    return x


def array_ufunc(ufunc, method, inputs, kw):
    kw = dict(kw)
    out = kw.pop("out", None)
    if ufunc.signature is not None:
        if ufunc is np.matmul:
            r = dot(*inputs)
        elif ufunc.__name__ == "vecdot":
            r = reduce_("add", emap(lambda a, b: scalar_op(np.multiply, a, b), *inputs), -1)
        else:
            raise Unsupported(f"generalized ufunc {ufunc}")
        return store(out, r)
    if method == "__call__":
        if ufunc.__name__ not in OPS and ufunc.__name__ not in KNOWN_UFUNCS:
            # frompyfunc objects etc.: evaluate on plain object arrays
            r = ufunc(*[base(x) if isinstance(x, np.ndarray) else x if _is_elem(x) and not isinstance(x, (Sym, SymBool, SymC)) else objarr(x) for x in inputs])
            return store(out, tuple(wrap(v) for v in r) if isinstance(r, tuple) else wrap(r))
        where = kw.pop("where", True)
        f = functools.partial(scalar_op, ufunc)
        if ufunc.nout > 1:
            if ufunc.__name__ == "divmod":
                return (array_ufunc(np.floor_divide, method, inputs, {}), array_ufunc(np.remainder, method, inputs, {}))
            if ufunc.__name__ == "modf":
                t = array_ufunc(np.trunc, method, inputs, {})
                return (inputs[0] - t, t)
            raise Unsupported(f"ufunc {ufunc}")
        r = native(ufunc, inputs)
        if r is None:
            r = emap(f, *inputs)
        if where is not True:
            if out is None:
                old = objarr(np.zeros(np.shape(r)))
            else:
                old = objarr(out[0])
            r = emap(lambda w, a, b: ite(lb(w), a, b), where, r, old)
        return store(out, r)
    if method == "reduce":
        a = inputs[0]
        axis = kw.get("axis", 0)
        name = ufunc.__name__
        if name in ("maximum", "minimum", "fmax", "fmin"):
            return store(out, extremum(a, name in ("maximum", "fmax"), axis, kw.get("keepdims", False), kw.get("initial"), kw.get("where", True)))
        return store(out, reduce_(name, a, axis, kw.get("keepdims", False), kw.get("initial"), kw.get("where", True)))
    if method == "accumulate":
        return store(out, accumulate(ufunc.__name__, inputs[0], kw.get("axis", 0)))
    if method == "outer":
        a, b = objarr(inputs[0]), objarr(inputs[1])
        return array_ufunc(ufunc, "__call__", (a.reshape(a.shape + (1,) * b.ndim).view(SA), b.view(SA)), {})
    if method == "at":
        a, idx = inputs[0], norm_index(inputs[1])
        ii = np.arange(a.size).reshape(a.shape)[idx].reshape(-1)
        v = [None] * ii.size if len(inputs) < 3 else np.broadcast_to(objarr(inputs[2]), np.shape(np.arange(a.size).reshape(a.shape)[idx])).reshape(-1)
        fl = base(a)
        for k, i in enumerate(ii):
            j = np.unravel_index(i, a.shape)
            fl[j] = scalar_op(ufunc, fl[j], v[k]) if v[k] is not None else scalar_op(ufunc, fl[j])
        return None
    if method == "reduceat":
        a, ind = inputs[0], [int(i) for i in inputs[1]]
        parts = []
        for k, i in enumerate(ind):
            j = ind[k + 1] if k + 1 < len(ind) else np.shape(a)[kw.get("axis", 0)]
            sl = np.take(a, range(i, max(j, i + 1)), axis=kw.get("axis", 0))
            parts.append(reduce_(ufunc.__name__, sl, kw.get("axis", 0)))
        return wrap(np.stack([objarr(p) for p in parts], axis=kw.get("axis", 0)))
    raise Unsupported(f"ufunc method {method}")


KNOWN_UFUNCS = {n for n in dir(np) if isinstance(getattr(np, n), np.ufunc)}
KNOWN_UFUNCS |= {getattr(np, n).__name__ for n in dir(np) if isinstance(getattr(np, n), np.ufunc)}


def store(out, r):
    if out is None:
        return r
    o = out[0] if isinstance(out, tuple) else out
    if o is None:
        return r
    if isinstance(o, np.ndarray):
        v = objarr(r)
        if realdt(o) != object:
            v = force(v.view(SA)) if has_sym(v) else concrete(v.view(SA)) if v.ndim else v
            o[...] = v
            return o
        base(o)[...] = v if v.ndim else v
        return o
    raise Unsupported("out=")


def _axes(axis, nd):
    if axis is None:
        return tuple(range(nd))
    if isinstance(axis, (tuple, list)):
        return tuple(operator.index(a) % nd for a in axis)
    a = operator.index(axis)
    if not -nd <= a < nd:
        raise np.exceptions.AxisError(a, nd)
    return (a % nd,)


def _lanes(a, axis):
    """move reduced axes to the end and flatten them"""
    b = objarr(a)
    ax = _axes(axis, b.ndim)
    keep = [i for i in range(b.ndim) if i not in ax]
    t = b.transpose(keep + list(ax))
    return t.reshape([b.shape[i] for i in keep] + [-1] if b.size or not ax else [b.shape[i] for i in keep] + [int(np.prod([b.shape[i] for i in ax]))]), ax, b.shape


def _restore(out, ax, shape, keepdims):
    if keepdims:
        out = out.reshape([1 if i in ax else n for i, n in enumerate(shape)])
    return finish(out)


IDENT = {"add": 0, "multiply": 1, "logical_and": True, "logical_or": False, "bitwise_and": True, "bitwise_or": False, "logical_xor": False}


def reduce_(name, a, axis=None, keepdims=False, initial=None, where=True):
    t, ax, shape = _lanes(a, axis)
    if where is not True and where is not None:
        w, _, _ = _lanes(np.broadcast_to(objarr(where), shape), axis)
    else:
        w = None
    out = np.empty(t.shape[:-1], object)
    uf = getattr(np, name)
    for i in np.ndindex(*out.shape):
        vals = list(t[i])
        if w is not None:
            ident = IDENT[name]
            vals = [ite(lb(c), v, ident) for v, c in zip(vals, w[i])]
        if name in ("logical_and", "logical_or"):
            ns = [tonode(v) for v in vals]
            out[i] = mkbool((fand if name == "logical_and" else f_or)(*ns))
            continue
        if name == "add" and len(vals) > 4 and all(isinstance(v, (Sym, float, int)) and not isspecial(v) for v in vals):
            if initial not in (None, 0, False):
                vals.append(initial)
            out[i] = fastsum(vals)
            continue
        if initial is not None and not (initial == IDENT.get(name) and vals):
            acc, rest = initial, vals
        elif not vals:
            if name not in IDENT:
                raise ValueError("zero-size array to reduction operation which has no identity")
            acc, rest = (IDENT[name] if not isinstance(IDENT[name], bool) else IDENT[name]), []
            if name == "add":
                acc = 0.0
        else:
            acc, rest = vals[0], vals[1:]
            if name == "add" and isinstance(acc, (bool, SymBool)):
                acc = acc._num() if isinstance(acc, SymBool) else int(acc)
        for v in rest:
            if name == "add" and isinstance(v, (bool, SymBool)):
                v = v._num() if isinstance(v, SymBool) else int(v)
            acc = scalar_op(uf, acc, v)
        out[i] = acc
    return _restore(out, ax, shape, keepdims)


def fastsum(vals):
    if not any(isinstance(v, Sym) for v in vals):
        r = 0
        for v in vals:
            r = r + v
        return r
    p = {}
    for v in vals:
        for m, c in Sym.lift(v).p.items():
            p[m] = p.get(m, 0) + c
    return Sym({m: c for m, c in p.items() if c})


def mean(a, axis=None, dtype=None, out=None, keepdims=False, where=True):
    keepdims = bool(keepdims) if keepdims is not np._NoValue else False
    where = True if where is np._NoValue else where
    b = objarr(a)
    if where is not True:
        n = reduce_("add", emap(lambda c: ite(lb(c), 1, 0), np.broadcast_to(objarr(where), b.shape)), axis, keepdims)
    else:
        n = 1
        for i in _axes(axis, b.ndim):
            n *= b.shape[i]
    s = reduce_("add", b, axis, keepdims, None, where)
    return store(out, div(s, n))


def div(a, b):
    if plain(a) and plain(b):
        return scalar_op(np.true_divide, a, b)
    return a / b


def extremum(a, mx, axis=None, keepdims=False, initial=None, where=True):
    keepdims = False if keepdims is np._NoValue else keepdims
    initial = None if initial is np._NoValue else initial
    where = True if where is np._NoValue else where
    t, ax, shape = _lanes(a, axis)
    w = None
    if where is not True and where is not None:
        w, _, _ = _lanes(np.broadcast_to(objarr(where), shape), axis)
    out = np.empty(t.shape[:-1], object)
    for i in np.ndindex(*out.shape):
        vals = list(t[i])
        if w is not None:
            vals = [v for v, c in zip(vals, w[i]) if bool(lb(c))]
        if initial is not None:
            vals.append(initial)
        if not vals:
            raise ValueError("zero-size array to reduction operation %s which has no identity" % ("maximum" if mx else "minimum"))
        out[i] = ext_list(vals, mx)
    return _restore(out, ax, shape, keepdims)


def ext_list(vals, mx):
    vals = [_pyv(v) for v in vals]
    if all(isinstance(v, (bool, SymBool)) for v in vals):
        return mkbool((f_or if mx else fand)(*[tonode(v) for v in vals]))
    if all(plain(v) for v in vals):
        return _pyv((np.max if mx else np.min)(np.array(vals)))
    return (core.vmax if mx else core.vmin)(vals)


def argext(a, mx, axis=None, keepdims=False):
    if axis is None:
        t = objarr(a).reshape(1, -1)
        ax, shape = None, None
        out = np.empty((1,), object)
    else:
        t, ax, shape = _lanes(a, axis)
        out = np.empty(t.shape[:-1], object)
    for i in np.ndindex(*out.shape):
        vals = list(t[i])
        if not vals:
            raise ValueError("attempt to get argmax of an empty sequence")
        best = 0
        for k in range(1, len(vals)):
            x, y = vals[k], vals[best]
            if isinstance(y, float) and math.isnan(y):
                break
            if isinstance(x, float) and math.isnan(x):
                best = k
                break
            if isinstance(x, (bool, SymBool)) and isinstance(y, (bool, SymBool)):
                better = mkbool(fand(tonode(x), fnot(tonode(y)))) if mx else mkbool(fand(tonode(y), fnot(tonode(x))))
            else:
                better = x > y if mx else x < y
            if bool(better):
                best = k
        out[i] = best
    if axis is None:
        r = int(out[0])
        return r
    if keepdims and keepdims is not np._NoValue:
        out = out.reshape([1 if j in ax else n for j, n in enumerate(shape)])
    return out.item() if out.ndim == 0 else out.astype(int)


def _less(x, y):
    """sort order with nan last"""
    if isinstance(x, float) and math.isnan(x):
        return False
    if isinstance(y, float) and math.isnan(y):
        return True
    return bool(x < y)


def argsort_list(vals):
    idx = []
    for k in range(len(vals)):           # stable insertion sort
        j = len(idx)
        while j > 0 and _less(vals[k], vals[idx[j - 1]]):
            j -= 1
        idx.insert(j, k)
    return idx


def argsort(a, axis=-1, kind=None, order=None, stable=None):
    b = objarr(a)
    if axis is None:
        return np.array(argsort_list(list(b.reshape(-1))), dtype=int)
    out = np.empty(b.shape, int)
    bm, om = np.moveaxis(b, axis, -1), np.moveaxis(out, axis, -1)
    for i in np.ndindex(*bm.shape[:-1]):
        om[i] = argsort_list(list(bm[i]))
    return out


def take_along(a, idx, axis):
    if axis is None:
        a, axis = objarr(a).reshape(-1), 0
    return wrap(np.take_along_axis(objarr(a), np.asarray(norm_int(idx)), axis))


def searchsorted(a, v, side="left", sorter=None):
    vals = list(objarr(a))
    if sorter is not None:
        vals = [vals[i] for i in norm_int(sorter)]

    def one(x):
        lo, hi = 0, len(vals)
        while lo < hi:
            mid = (lo + hi) // 2
            if side == "left":
                go = bool(vals[mid] < x)
            else:
                go = not bool(x < vals[mid])
            if go:
                lo = mid + 1
            else:
                hi = mid
        return lo
    b = objarr(v)
    if b.ndim == 0:
        return one(b.item())
    return np.array([one(x) for x in b.reshape(-1)], dtype=int).reshape(b.shape)


def accumulate(name, a, axis=0):
    b = objarr(a)
    out = np.empty(b.shape, object)
    bm, om = np.moveaxis(b, axis, -1), np.moveaxis(out, axis, -1)
    uf = getattr(np, name)
    for i in np.ndindex(*bm.shape[:-1]):
        acc = None
        for k, v in enumerate(bm[i]):
            if name == "add" and isinstance(v, (bool, SymBool)):
                v = v._num() if isinstance(v, SymBool) else int(v)
            acc = v if k == 0 else scalar_op(uf, acc, v)
            om[i + (k,)] = acc
    return wrap(out)


def clip(a, a_min=None, a_max=None, out=None, **kw):
    a_min = kw.get("min", a_min) if a_min is None or a_min is np._NoValue else a_min
    a_max = kw.get("max", a_max) if a_max is None or a_max is np._NoValue else a_max
    r = a
    if a_min is not None and a_min is not np._NoValue:
        r = emap(lambda x, y: scalar_op(np.maximum, x, y), r, a_min)
    if a_max is not None and a_max is not np._NoValue:
        r = emap(lambda x, y: scalar_op(np.minimum, x, y), r, a_max)
    return store(out, r)


def around(a, decimals=0, out=None):
    s = Fraction(10) ** int(decimals)

    def f(x):
        if plain(x):
            return _pyv(np.round(x, decimals))
        if isinstance(x, SymC):
            return SymC(f(x.re), f(x.im))
        return core.rint(x * s) / s if s != 1 else core.rint(x)
    return store(out, emap(f, a))


def nonzero(a):
    b = objarr(a)
    m = np.empty(b.shape, bool)
    for i in np.ndindex(*b.shape):
        m[i] = bool(lb(b[i]))
    return np.nonzero(m)


def dot(a, b, out=None):
    a, b = objarr(a), objarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return store(out, array_ufunc(np.multiply, "__call__", (a.view(SA), b.view(SA)), {}))
    a2 = a[None, :] if a.ndim == 1 else a
    b2 = b[:, None] if b.ndim == 1 else b
    p = a2[..., :, :, None] if False else None
    if a2.shape[-1] != b2.shape[-2]:
        raise ValueError("matmul: Input operand shape mismatch")
    sh = np.broadcast_shapes(a2.shape[:-2], b2.shape[:-2])
    A = np.broadcast_to(a2, sh + a2.shape[-2:])
    B = np.broadcast_to(b2, sh + b2.shape[-2:])
    r = np.empty(sh + (a2.shape[-2], b2.shape[-1]), object)
    for i in np.ndindex(*r.shape):
        row, col = A[i[:-1]], B[i[:-2] + (slice(None), i[-1])]
        r[i] = vsum([scalar_op(np.multiply, x, y) for x, y in zip(row, col)])
    if a.ndim == 1:
        r = r[..., 0, :]
    if b.ndim == 1:
        r = r[..., 0]
    return store(out, finish(r) if r.ndim else r.item())


def vsum(vals):
    if not vals:
        return 0.0
    if all(isinstance(v, (Sym, float, int)) and not isspecial(v) for v in vals):
        return fastsum(vals)
    acc = vals[0]
    for v in vals[1:]:
        acc = scalar_op(np.add, acc, v)
    return acc


# ------------------------------------------------------------------- functions

IMPL = {}


def impl(*funcs):
    def deco(f):
        for g in funcs:
            IMPL[g] = f
        return f
    return deco


def nov(x, d):
    return d if x is np._NoValue else x


@impl(np.sum)
def _np_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
    return store(out, reduce_("add", a, axis, nov(keepdims, False), nov(initial, None), nov(where, True)))


@impl(np.nansum)
def _np_nansum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
    a = emap(lambda x: 0.0 if isspecial(x) and math.isnan(x) else x, a)
    return _np_sum(a, axis, dtype, out, keepdims, initial, where)


@impl(np.nanmean)
def _np_nanmean(a, axis=None, dtype=None, out=None, keepdims=False, where=True):
    ok = emap(lambda x: not (isspecial(x) and math.isnan(x)), a)
    s = _np_nansum(a, axis=axis, keepdims=keepdims)
    return store(out, div(s, reduce_("add", emap(int, ok), axis, nov(keepdims, False))))


def _dropnan(a, axis, f):
    t, ax, shape = _lanes(a, axis)
    out = np.empty(t.shape[:-1], object)
    for i in np.ndindex(*out.shape):
        v = [x for x in t[i] if not (isspecial(x) and math.isnan(x))]
        out[i] = f(v) if v else math.nan
    return finish(out)


IMPL[np.nanmax] = lambda a, axis=None, **k: _dropnan(a, axis, lambda v: ext_list(v, True))
IMPL[np.nanmin] = lambda a, axis=None, **k: _dropnan(a, axis, lambda v: ext_list(v, False))


@impl(np.prod)
def _np_prod(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
    return store(out, reduce_("multiply", a, axis, nov(keepdims, False), nov(initial, None), nov(where, True)))


IMPL[np.mean] = lambda a, axis=None, dtype=None, out=None, keepdims=False, where=True: mean(a, axis, dtype, out, keepdims, where)


@impl(np.average)
def _np_average(a, axis=None, weights=None, returned=False, keepdims=False):
    if weights is None:
        return mean(a, axis, keepdims=nov(keepdims, False))
    b, w = objarr(a), objarr(weights)
    if w.shape != b.shape:
        if axis is None:
            raise TypeError("Axis must be specified when shapes of a and weights differ.")
        ax = _axes(axis, b.ndim)[0]
        w = np.broadcast_to(w.reshape([-1 if i == ax else 1 for i in range(b.ndim)]), b.shape)
    den = reduce_("add", w, axis, nov(keepdims, False))
    r = div(reduce_("add", array_ufunc(np.multiply, "__call__", (b.view(SA), w.view(SA)), {}), axis, nov(keepdims, False)), den)
    return (r, den) if returned else r


for _f in (np.max, np.amax):
    IMPL[_f] = lambda a, axis=None, out=None, keepdims=False, initial=None, where=True: store(out, extremum(a, True, axis, keepdims, initial, where))
for _f in (np.min, np.amin):
    IMPL[_f] = lambda a, axis=None, out=None, keepdims=False, initial=None, where=True: store(out, extremum(a, False, axis, keepdims, initial, where))
IMPL[np.ptp] = lambda a, axis=None, out=None, keepdims=False: sa(a).ptp(axis, keepdims=nov(keepdims, False))
IMPL[np.argmax] = lambda a, axis=None, out=None, keepdims=False: argext(a, True, axis, keepdims)
IMPL[np.argmin] = lambda a, axis=None, out=None, keepdims=False: argext(a, False, axis, keepdims)
IMPL[np.any] = lambda a, axis=None, out=None, keepdims=False, where=True: reduce_("logical_or", a, axis, nov(keepdims, False), None, nov(where, True))
IMPL[np.all] = lambda a, axis=None, out=None, keepdims=False, where=True: reduce_("logical_and", a, axis, nov(keepdims, False), None, nov(where, True))
IMPL[np.argsort] = argsort
IMPL[np.sort] = lambda a, axis=-1, kind=None, order=None, stable=None: take_along(a, argsort(a, axis), axis)
IMPL[np.searchsorted] = searchsorted
IMPL[np.clip] = clip
for _f in (np.around, np.round):
    IMPL[_f] = around
IMPL[np.nonzero] = nonzero
IMPL[np.flatnonzero] = lambda a: nonzero(objarr(a).reshape(-1))[0]
IMPL[np.argwhere] = lambda a: np.transpose(nonzero(a)) if np.ndim(a) else np.argwhere(bool(lb(a)))
IMPL[np.dot] = dot
IMPL[np.matmul] = dot
IMPL[np.inner] = lambda a, b: dot(a, np.swapaxes(objarr(b), -1, -2) if np.ndim(b) > 1 else b)
IMPL[np.cumsum] = lambda a, axis=None, dtype=None, out=None: sa(a).cumsum(axis)
IMPL[np.cumprod] = lambda a, axis=None, dtype=None, out=None: sa(a).cumprod(axis)
IMPL[np.std] = lambda a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k: sa(a).std(axis, ddof=ddof, keepdims=nov(keepdims, False))
IMPL[np.var] = lambda a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k: sa(a).var(axis, ddof=ddof, keepdims=nov(keepdims, False))


@impl(np.count_nonzero)
def _count_nonzero(a, axis=None, *, keepdims=False):
    return reduce_("add", emap(lambda x: ite(lb(x), 1, 0), a), axis, keepdims)


@impl(np.where)
def _where(c, *xy):
    if not xy:
        return nonzero(c)
    x, y = xy
    return emap(lambda c, a, b: ite(lb(c), _pyv(a), _pyv(b)), c, x, y)


@impl(np.select)
def _select(condlist, choicelist, default=0):
    r = default
    for c, v in reversed(list(zip(condlist, choicelist))):
        r = _where(c, v, r)
    return r


@impl(np.putmask)
def _putmask(a, mask, values):
    base(a)[...] = objarr(_where(mask, np.resize(values, np.shape(a)) if np.ndim(values) else values, a))


@impl(np.copyto)
def _copyto(dst, src, casting="same_kind", where=True):
    if where is True:
        store(dst, sa(src))
    else:
        store(dst, _where(where, src, dst))


def isclose1(a, b, rtol, atol, equal_nan):
    a, b = _pyv(a), _pyv(b)
    if plain(a) and plain(b):
        a = float(a) if isinstance(a, Fraction) else a
        b = float(b) if isinstance(b, Fraction) else b
        if plain(rtol) and plain(atol):
            return bool(np.isclose(a, b, rtol=float(rtol), atol=float(atol), equal_nan=equal_nan))
    if isspecial(a) or isspecial(b):
        return False
    return abs(a - b) <= atol + rtol * abs(b)


@impl(np.isclose)
def _isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return emap(lambda x, y: isclose1(x, y, rtol, atol, equal_nan), a, b)


@impl(np.allclose)
def _allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return reduce_("logical_and", _isclose(a, b, rtol, atol, equal_nan))


@impl(np.array_equal)
def _array_equal(a, b, equal_nan=False):
    a, b = objarr(a), objarr(b)
    if a.shape != b.shape:
        return False
    return reduce_("logical_and", emap(lambda x, y: scalar_op(np.equal, x, y), a, b))


@impl(np.array_equiv)
def _array_equiv(a, b):
    return reduce_("logical_and", emap(lambda x, y: scalar_op(np.equal, x, y), a, b))


def interp1(x, xp, fp, left, right, period=None):
    """np.interp for one point"""
    n = len(xp)
    if isspecial(x) and math.isnan(x):
        return x
    if bool(x > xp[n - 1]):
        return right
    if bool(x < xp[0]):
        return left
    # j = last index with xp[j] <= x
    lo, hi = 0, n
    while lo < hi:
        mid = (lo + hi) // 2
        if bool(x >= xp[mid]):
            lo = mid + 1
        else:
            hi = mid
    j = lo - 1
    if j == n - 1:
        return fp[j]
    if bool(lb(xp[j] == x)):
        return fp[j]
    slope = div(fp[j + 1] - fp[j], xp[j + 1] - xp[j])
    return slope * (x - xp[j]) + fp[j]


@impl(np.interp)
def _interp(x, xp, fp, left=None, right=None, period=None):
    xp, fp = list(objarr(xp)), list(objarr(fp))
    if len(xp) != len(fp):
        raise ValueError("fp and xp are not of the same length.")
    if not xp:
        raise ValueError("array of sample points is empty")
    if period is not None:
        xp = [scalar_op(np.remainder, v, period) for v in xp]
        x = emap(lambda v: scalar_op(np.remainder, v, period), x)
        o = argsort_list(xp)
        xp, fp = [xp[i] for i in o], [fp[i] for i in o]
        xp = [xp[-1] - period] + xp + [xp[0] + period]
        fp = [fp[-1]] + fp + [fp[0]]
        left = right = None
    left = fp[0] if left is None else left
    right = fp[-1] if right is None else right
    return emap(lambda v: interp1(v, xp, fp, left, right), x)


@impl(np.unique)
def _unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **kw):
    if axis is not None:
        raise Unsupported("np.unique with axis")
    b = list(objarr(a).reshape(-1))
    o = argsort_list(b)
    vals, first, inv, cnt = [], [], [0] * len(b), []
    for i in o:
        if not vals or not bool(lb(scalar_op(np.equal, vals[-1], b[i]))):
            vals.append(b[i])
            first.append(i)
            cnt.append(0)
        cnt[-1] += 1
        inv[i] = len(vals) - 1
    r = [wrap(objarr(vals))]
    if return_index:
        r.append(np.array(first))
    if return_inverse:
        r.append(np.array(inv).reshape(np.shape(a)))
    if return_counts:
        r.append(np.array(cnt))
    return r[0] if len(r) == 1 else tuple(r)


@impl(np.diff)
def _diff(a, n=1, axis=-1, prepend=np._NoValue, append=np._NoValue):
    b = objarr(a)
    parts = [p for p in (prepend, append) if p is not np._NoValue]
    if parts:
        def ext(p):
            p = objarr(p)
            if p.ndim == 0:
                sh = list(b.shape)
                sh[axis] = 1
                p = np.broadcast_to(p, sh)
            return p
        b = np.concatenate([ext(p) for p in ([prepend] if prepend is not np._NoValue else [])] + [b]
                           + [ext(p) for p in ([append] if append is not np._NoValue else [])], axis=axis)
    for _ in range(n):
        m = np.moveaxis(b, axis, -1)
        b = np.moveaxis(objarr(array_ufunc(np.subtract, "__call__", (m[..., 1:].view(SA), m[..., :-1].view(SA)), {})), -1, axis)
    return wrap(b)


@impl(np.gradient)
def _gradient(f, *varargs, axis=None, edge_order=1):
    raise Unsupported("np.gradient")


@impl(np.trapezoid)
def _trapz(y, x=None, dx=1.0, axis=-1):
    y = np.moveaxis(objarr(y), axis, -1).view(SA)
    d = dx if x is None else _diff(x, axis=-1 if np.ndim(x) == 1 else axis)
    return reduce_("add", d * (y[..., 1:] + y[..., :-1]) / 2.0, -1)


@impl(np.median)
def _median(a, axis=None, out=None, overwrite_input=False, keepdims=False):
    def f(v):
        s = [v[i] for i in argsort_list(v)]
        k = len(s) // 2
        return s[k] if len(s) % 2 else (s[k - 1] + s[k]) / 2
    t, ax, shape = _lanes(a, axis)
    out_ = np.empty(t.shape[:-1], object)
    for i in np.ndindex(*out_.shape):
        out_[i] = f(list(t[i]))
    return _restore(out_, ax, shape, nov(keepdims, False))


@impl(np.real)
def _real(a):
    return emap(lambda x: _pyv(x).real, a)


@impl(np.imag)
def _imag(a):
    return emap(lambda x: _pyv(x).imag, a)


@impl(np.iscomplexobj)
def _iscomplexobj(a):
    return any(isinstance(e, (complex, SymC)) for e in objarr(a).reshape(-1))


IMPL[np.isrealobj] = lambda a: not _iscomplexobj(a)
IMPL[np.iscomplex] = lambda a: emap(lambda x: lb(_pyv(x).imag != 0), a)
IMPL[np.isreal] = lambda a: emap(lambda x: lb(_pyv(x).imag == 0), a)


@impl(np.nan_to_num)
def _nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    big = np.finfo(float).max

    def f(v):
        if isspecial(v):
            return nan if math.isnan(v) else (big if posinf is None else posinf) if v > 0 else (-big if neginf is None else neginf)
        return v
    return emap(f, x)


@impl(np.result_type, np.common_type)
def _result_type(*a):
    dts = [kind_dtype(x) if isinstance(x, np.ndarray) and realdt(x) == object else np.dtype(float) if isinstance(x, Sym) else np.dtype(complex) if isinstance(x, SymC) else x for x in a]
    return np.result_type(*dts)


IMPL[np.can_cast] = lambda *a, **k: True


@impl(np.min_scalar_type)
def _mst(a):
    return kind_dtype(sa(a))


def cast(x, dtype):
    """astype"""
    dt = np.dtype(getattr(dtype, "real_type", dtype)) if dtype is not None else None
    if dt is None or dt == object:
        return sa(x).copy() if isinstance(x, np.ndarray) else x
    k = dt.kind

    def f(v):
        if isinstance(v, np.ndarray):
            return cast(v, dt)
        if plain(v):
            v = float(v) if isinstance(v, Fraction) else v
            with np.errstate(all="ignore"):
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    return _pyv(np.asarray(v).astype(dt)[()])
        if k == "f":
            if isinstance(v, SymC):
                return v.re
            return v._num() if isinstance(v, SymBool) else v
        if k == "c":
            return v if isinstance(v, SymC) else SymC(v._num() if isinstance(v, SymBool) else v, Sym.const(0))
        if k in "iu":
            if isinstance(v, SymBool):
                return v._num()
            if v._is_int():
                return v
            return OPS["trunc"](v)
        if k == "b":
            return lb(v)
        raise Unsupported(f"cast to {dt}")
    if not isinstance(x, np.ndarray):
        return f(x)
    b = objarr(x)
    if k in "fiub" and dt.itemsize in (1, 8) and types(b) == {float}:
        with np.errstate(all="ignore"):
            return b.astype(float).astype(dt).astype(object).view(SA)
    out = np.empty(b.shape, object)
    for i in np.ndindex(*b.shape):
        out[i] = f(b[i])
    return out.view(SA)


# ---- functions that only move elements: run numpy's own code on object arrays

def tobase(x, depth=0):
    if isinstance(x, SA):
        return base(x)
    if depth < 4 and isinstance(x, list):
        return [tobase(e, depth + 1) for e in x]
    if depth < 4 and type(x) is tuple:
        return tuple(tobase(e, depth + 1) for e in x)
    return x


def rewrap(x):
    if isinstance(x, np.ndarray):
        return wrap(x) if x.dtype == object else x
    if type(x) is tuple:
        return tuple(rewrap(e) for e in x)
    if type(x) is list:
        return [rewrap(e) for e in x]
    return x


MOVERS = set()
for _n in ("reshape ravel transpose swapaxes moveaxis rollaxis squeeze expand_dims broadcast_to broadcast_arrays "
           "concatenate stack hstack vstack column_stack dstack block split array_split hsplit vsplit flip fliplr flipud "
           "roll rot90 tile repeat pad atleast_1d atleast_2d atleast_3d append insert delete resize "
           "diag diagonal tril triu trace meshgrid ndim shape size copy ascontiguousarray asfortranarray "
           "take take_along_axis compress extract put put_along_axis apply_along_axis apply_over_axes ix_ trim_zeros "
           "matrix_transpose permute_dims concat unstack place einsum tensordot kron outer cross vander").split():
    if hasattr(np, _n):
        MOVERS.add(getattr(np, _n))


def fix_index_args(args, kwargs):
    return args, kwargs


def unnest(a):
    """array of arrays -> list of arrays"""
    if isinstance(a, np.ndarray) and a.dtype == object and a.ndim == 1 and a.size and isinstance(a[0], np.ndarray):
        return [tobase(x) for x in a]
    return a


def call_mover(func, args, kwargs):
    args = tuple(unnest(tobase(a)) for a in args)
    kwargs = {k: tobase(v) for k, v in kwargs.items()}
    if func in (np.take, np.repeat, np.delete, np.take_along_axis) and len(args) > 1:
        args = (args[0], norm_int(args[1])) + args[2:]
    if func is np.ix_:
        args = tuple(norm_int(a) for a in args)
    if func in (np.compress, np.extract):
        args = (norm_int(args[0]),) + args[1:]
    args = tuple(objarr(a) if i == 0 and isinstance(a, (Sym, SymBool, SymC)) else a for i, a in enumerate(args))
    if func is np.pad:
        # constant values may be symbolic numbers or nested sequences of them
        return pad(*args, **kwargs)
    return rewrap(func(*args, **kwargs))


def pad(array, pad_width, mode="constant", **kw):
    b = objarr(array)
    if mode != "constant":
        # index-moving modes: run numpy on positions
        if mode in ("edge", "wrap", "reflect", "symmetric"):
            pos = np.pad(np.arange(b.size).reshape(b.shape), norm_int(pad_width) if has_sym(pad_width) else pad_width, mode=mode, **kw)
            return wrap(b.reshape(-1)[pos])
        raise Unsupported(f"np.pad mode {mode}")
    pw = np.broadcast_to(np.asarray(pad_width), (b.ndim, 2)) if np.ndim(pad_width) else np.full((b.ndim, 2), pad_width)
    cv = kw.get("constant_values", 0)
    c = np.broadcast_to(objarr(cv), (b.ndim, 2))
    for ax in range(b.ndim):
        parts = []
        for side in (0, 1):
            sh = list(b.shape)
            sh[ax] = int(pw[ax, side])
            p = np.empty(sh, object)
            for i in np.ndindex(*sh):
                p[i] = c[ax, side]
            parts.append(p)
        b = np.concatenate([parts[0], b, parts[1]], axis=ax)
    return wrap(b)


def array_function(func, types, args, kwargs):
    f = IMPL.get(func)
    if f is not None:
        return f(*args, **kwargs)
    if func in MOVERS:
        return call_mover(func, args, kwargs)
    f = LAZY.get(func)
    if f is not None:
        return f(*args, **kwargs)
    if not has_sym(list(args)) and not has_sym(kwargs):
        return lift(func(*[unlift(a) for a in args], **{k: unlift(v) for k, v in kwargs.items()}))
    # unknown function with symbolic data: fix the data to feasible values
    core.cur().stats.concretised.append(f"np.{getattr(func, '__name__', func)}")
    return lift(func(*[force(a) for a in args], **{k: force(v) for k, v in kwargs.items()}))


LAZY = {}      # filled by world.py (creation functions, fft, ...)


def unlift(x):
    """SA without symbols -> real-dtype array"""
    if isinstance(x, np.ndarray) and realdt(x) == object:
        c = concrete(x)
        return base(x) if c is None else c
    if isinstance(x, list):
        return [unlift(e) for e in x]
    if type(x) is tuple:
        return tuple(unlift(e) for e in x)
    if isinstance(x, Fraction):
        return float(x)
    return x


def lift(x):
    """real-dtype number arrays -> SA"""
    if isinstance(x, np.ndarray):
        if isinstance(x, SA):
            return x
        if realdt(x) == object:
            return x.view(SA) if x.ndim else x
        if x.ndim and x.dtype.kind in "fciu":
            return x.astype(object).view(SA)
        return x
    if type(x) is tuple:
        return tuple(lift(e) for e in x)
    if type(x) is list:
        return [lift(e) for e in x]
    return x
