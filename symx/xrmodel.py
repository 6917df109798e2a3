"""Model of the part of xarray that labels arrays (the library itself is not importable in the symbolic interpreter).

Only what is modelled exists: anything else raises AttributeError or Unmodelled, which makes a path inconclusive, as the
real code does not raise there. The harnesses compare what they read from model and library for every path (observe)."""
import datetime
import numpy as np
from . import arr, world, core


class Unmodelled(Exception):
    pass


def tovals(v):
    if isinstance(v, DataArray):
        return v._v
    if isinstance(v, (list, tuple)) and v and all(isinstance(x, datetime.datetime) for x in v):
        return np.array(v, dtype="datetime64[us]")
    if isinstance(v, datetime.datetime):
        return np.array(v, dtype="datetime64[us]")
    if isinstance(v, np.ndarray) and arr.realdt(v) != object and v.dtype.kind in "USMmO":
        return v
    if isinstance(v, (str, np.datetime64)) or isinstance(v, (list, tuple)) and v and any(isinstance(x, (str, np.datetime64)) for x in v):
        return np.array(v)
    if isinstance(v, np.ndarray) and not isinstance(v, arr.SA) and v.dtype == object and v.size and isinstance(v.reshape(-1)[0], datetime.datetime):
        return v.astype("datetime64[us]")
    a = arr.objarr(v)
    if any(not isinstance(x, (int, float, complex, bool, np.number, np.bool_, core.Sym, core.SymBool, core.SymC, core.Fraction)) for x in a.reshape(-1)):
        return a
    return a.view(arr.SA)


def pick(a, ix):
    """basic indexing that keeps arrays (0-d) """
    r = a[ix]
    if not isinstance(r, np.ndarray):
        if isinstance(r, (np.datetime64, str)):
            return np.array(r)
        o = np.empty((), object)
        o[()] = r
        r = o.view(arr.SA)
    return r


class Coords:
    def __init__(self, owner, dataset):
        self._o, self._ds = owner, dataset

    def _d(self):
        return self._o._c

    def __contains__(self, k): return k in self._d()
    def __iter__(self): return iter(self._d())
    def __len__(self): return len(self._d())
    def keys(self): return self._d().keys()
    def values(self): return [self[k] for k in self]
    def items(self): return [(k, self[k]) for k in self]
    def get(self, k, default=None): return self[k] if k in self else default

    def __getitem__(self, k):
        d = self._d()
        if k in d:
            return self._o._coord(k)
        if self._ds and k in self._o.sizes:
            n = self._o.sizes[k]
            return DataArray(np.arange(n), dims=(k,), name=k)
        raise KeyError(k)

    def __setitem__(self, k, v):
        self._o._setcoord(k, v)


def asvar(name, v, coord=False):
    """(dims, values, attrs, coords)"""
    if isinstance(v, DataArray):
        return v._dims, v._v, dict(v.attrs), dict(v._c)
    if isinstance(v, tuple) and len(v) >= 2:
        dims = (v[0],) if isinstance(v[0], str) else tuple(v[0])
        vals = tovals(v[1])
        if len(dims) != vals.ndim:
            raise ValueError("dimensions do not match the array")
        return dims, vals, dict(v[2]) if len(v) > 2 else {}, {}
    vals = tovals(v)
    if vals.ndim == 0:
        return (), vals, {}, {}
    if vals.ndim == 1:
        return (name,), vals, {}, {}
    raise ValueError("Could not convert tuple into variable: dimensions missing")


def merge(sizes, dims, vals, name):
    if len(set(dims)) != len(dims):
        raise ValueError("duplicate dimensions")
    for d, n in zip(dims, vals.shape):
        if sizes.setdefault(d, n) != n:
            raise ValueError(f"conflicting sizes for dimension {d!r}")
    if name in dims and len(dims) > 1:
        raise ValueError(f"{name!r} has more than 1-dimension and the same name as one of its dimensions")


def same(a, b):
    if a is b:
        return True
    return a.shape == b.shape and bool(world.symnp().all(a == b))


class Labelled:
    _symx_values = True

    @property
    def coords(self):
        return Coords(self, isinstance(self, Dataset))


class DataArray(Labelled):
    def __init__(self, data, coords=None, dims=None, name=None, attrs=None):
        self._v = tovals(data)
        self.name = name
        self.attrs = dict(attrs or {})
        self._c = {}
        if dims is None:
            if isinstance(data, DataArray):
                dims = data._dims
            elif isinstance(coords, dict) and len(coords) == self._v.ndim:
                dims = tuple(coords)
            elif isinstance(coords, (list, tuple)) and coords and isinstance(coords[0], tuple):
                dims = tuple(k for k, _ in coords)
                coords = dict(coords)
            else:
                dims = tuple(f"dim_{i}" for i in range(self._v.ndim))
        self._dims = (dims,) if isinstance(dims, str) else tuple(dims)
        if len(self._dims) != self._v.ndim:
            raise ValueError("different number of dimensions on data and dims")
        if len(set(self._dims)) != len(self._dims):
            raise ValueError("duplicate dimensions")
        if isinstance(data, DataArray) and coords is None:
            self._c = dict(data._c)
        if isinstance(coords, (list, tuple)):
            coords = dict(zip(self._dims, coords))
        for k, v in (coords or {}).items():
            self._setcoord(k, v)

    def _setcoord(self, k, v):
        dims, vals, attrs, _ = asvar(k, v)
        for d, n in zip(dims, vals.shape):
            if d not in self.sizes:
                raise ValueError("coordinate has dimensions that are not of the array")
            if self.sizes[d] != n:
                raise ValueError(f"conflicting sizes for dimension {d!r}")
        self._c[k] = (dims, vals, attrs)

    def _coord(self, k):
        dims, vals, attrs = self._c[k]
        return self._make(dims, vals, {n: c for n, c in self._c.items() if set(c[0]) <= set(dims)}, k, attrs)

    @staticmethod
    def _make(dims, vals, coords, name, attrs):
        r = DataArray.__new__(DataArray)
        r._dims, r._v, r._c, r.name, r.attrs = tuple(dims), vals, dict(coords), name, dict(attrs)
        return r

    # array
    dims = property(lambda s: s._dims)
    values = property(lambda s: s._v)
    data = property(lambda s: s._v)
    shape = property(lambda s: s._v.shape)
    ndim = property(lambda s: s._v.ndim)
    size = property(lambda s: s._v.size)
    dtype = property(lambda s: s._v.dtype)
    sizes = property(lambda s: dict(zip(s._dims, s._v.shape)))
    T = property(lambda s: s.transpose())

    def to_numpy(self): return self._v
    def item(self): return self._v.item()
    def __len__(self): return len(self._v)
    def __iter__(self): return (self[i] for i in range(len(self)))
    def __float__(self): return float(self.item())
    def __bool__(self): return bool(self._v.item())
    def __repr__(self): return f"<DataArray {self.name} {self.sizes}>"

    def __getitem__(self, ix):
        if isinstance(ix, str):
            return self._coord(ix)
        if isinstance(ix, dict):
            return self.isel(ix)
        ix = ix if isinstance(ix, tuple) else (ix,)
        if Ellipsis in ix:
            i = ix.index(Ellipsis)
            ix = ix[:i] + (slice(None),) * (self.ndim - len(ix) + 1) + ix[i + 1:]
        return self.isel(dict(zip(self._dims, ix)))

    def isel(self, indexers=None, **kw):
        ind = dict(indexers or {}, **kw)
        for d in ind:
            if d not in self._dims:
                raise ValueError(f"dimension {d!r} does not exist")
        f = lambda dims, vals: _isel(dims, vals, ind)
        dims, vals = f(self._dims, self._v)
        return self._make(dims, vals, {k: (*f(c[0], c[1]), c[2]) for k, c in self._c.items()}, self.name, self.attrs)

    def sel(self, indexers=None, **kw):
        ind = dict(indexers or {}, **kw)
        return self.isel({d: _lookup(self._c, d, x) for d, x in ind.items()})

    def squeeze(self, dim=None, drop=False):
        if dim is not None or drop:
            raise Unmodelled("squeeze of given dimensions")
        return self.isel({d: 0 for d, n in self.sizes.items() if n == 1})

    def transpose(self, *dims):
        dims = dims or self._dims[::-1]
        if Ellipsis in dims:
            rest = tuple(d for d in self._dims if d not in dims)
            i = dims.index(Ellipsis)
            dims = dims[:i] + rest + dims[i + 1:]
        if sorted(dims) != sorted(self._dims):
            raise ValueError("dimensions do not match")
        return self._make(dims, np.transpose(self._v, [self._dims.index(d) for d in dims]), self._c, self.name, self.attrs)

    def assign_coords(self, coords=None, **kw):
        r = self._make(self._dims, self._v, self._c, self.name, self.attrs)
        for k, v in dict(coords or {}, **kw).items():
            r._setcoord(k, v)
        return r

    def rename(self, x=None, **kw):
        if isinstance(x, str):
            return self._make(self._dims, self._v, self._c, x, self.attrs)
        m = dict(x or {}, **kw)
        return self._make(tuple(m.get(d, d) for d in self._dims), self._v,
                          {m.get(k, k): (tuple(m.get(d, d) for d in c[0]), c[1], c[2]) for k, c in self._c.items()}, self.name, self.attrs)

    def to_dataset(self, dim=None, *, name=None, promote_attrs=False):
        if dim is not None:
            raise Unmodelled("to_dataset(dim)")
        name = name or self.name
        if name is None:
            raise ValueError("unable to convert unnamed DataArray to a Dataset without providing an explicit name")
        return Dataset({name: self})

    def reset_coords(self, *a, **k): raise Unmodelled("reset_coords")

    # operators, results keep the dimensions
    def _bin(self, o, f):
        if isinstance(o, DataArray):
            if o._dims != self._dims and o._dims and self._dims:
                raise Unmodelled("alignment")
            for k in set(o._c) & set(self._c) & set(self._dims):
                if not same(o._c[k][1], self._c[k][1]):
                    raise Unmodelled("alignment")
            big = self if self._dims or not o._dims else o
            v = f(self._v, o._v)
            # scalar coordinates that differ are dropped
            return self._make(big._dims, _ar(v), {k: c for k, c in big._c.items() if c[0]}, None, {})
        return self._make(self._dims, _ar(f(self._v, o)), self._c, self.name, {})

    def _red(self, name, **kw):
        if kw:
            raise Unmodelled(name)
        return DataArray(getattr(self._v, name)(), dims=())

    def all(self, **kw): return self._red("all", **kw)
    def any(self, **kw): return self._red("any", **kw)
    def min(self, **kw): return self._red("min", **kw)
    def max(self, **kw): return self._red("max", **kw)
    def sum(self, **kw): return self._red("sum", **kw)
    def __neg__(self): return self._make(self._dims, -self._v, self._c, self.name, {})
    def __abs__(self): return self._make(self._dims, abs(self._v), self._c, self.name, {})
    __hash__ = None


for _n in "add sub mul truediv pow mod lt le gt ge eq ne".split():
    import operator as _op
    _f = getattr(_op, _n)
    setattr(DataArray, f"__{_n}__", lambda s, o, f=_f: s._bin(o, f))
    if _n in ("add", "sub", "mul", "truediv", "pow", "mod"):
        setattr(DataArray, f"__r{_n}__", lambda s, o, f=_f: s._bin(o, lambda a, b: f(b, a)))


def _ar(v):
    if isinstance(v, np.ndarray):
        return v
    o = np.empty((), object)
    o[()] = v
    return o.view(arr.SA)


def _isel(dims, vals, ind):
    ix = tuple(ind.get(d, slice(None)) for d in dims)
    ix = tuple(int(i) if not isinstance(i, (slice, np.ndarray, list)) else i for i in ix)
    if any(isinstance(i, (np.ndarray, list)) for i in ix):
        raise Unmodelled("fancy indexing")
    return tuple(d for d, i in zip(dims, ix) if isinstance(i, slice)), pick(vals, ix)


def _lookup(coords, d, x):
    if d not in coords:
        return x
    if isinstance(x, DataArray):
        x = x.values if x.ndim else x.values[()]
    if isinstance(x, (slice, list)) or isinstance(x, np.ndarray) and x.ndim:
        raise Unmodelled("selection of several labels")
    v = coords[d][1]
    hits = [i for i in range(len(v)) if bool(v[i] == x)]
    if not hits:
        raise KeyError(x)
    if len(hits) > 1:
        if hits == list(range(hits[0], hits[-1] + 1)):
            return slice(hits[0], hits[-1] + 1)
        raise Unmodelled("selection of several labels")
    return hits[0]


class Dataset(Labelled):
    def __init__(self, data_vars=None, coords=None, attrs=None):
        self._vars, self._c, self.attrs = {}, {}, dict(attrs or {})
        for k, v in (coords or {}).items():
            self._setcoord(k, v)
        for k, v in (data_vars or {}).items():
            self[k] = v

    def _sizes(self):
        s = {}
        for k, (dims, vals, _) in list(self._c.items()) + list(self._vars.items()):
            merge(s, dims, vals, k)
        return s

    sizes = property(_sizes)
    dims = property(_sizes)
    data_vars = property(lambda s: {k: s[k] for k in s._vars})
    variables = property(lambda s: {**s._c, **s._vars})

    def _setcoord(self, k, v):
        dims, vals, attrs, cs = asvar(k, v, True)
        self._c[k] = (dims, vals, attrs)
        self._vars.pop(k, None)
        self._mergecoords(cs, skip=k)
        self._sizes()

    def _mergecoords(self, cs, skip=None):
        for n, c in cs.items():
            if n == skip:
                continue
            if n in self._c:
                if not same(self._c[n][1], c[1]):
                    raise Unmodelled("alignment of coordinates")
            else:
                self._c[n] = c

    def __setitem__(self, k, v):
        dims, vals, attrs, cs = asvar(k, v)
        if k in dims or k in self._c:
            return self._setcoord(k, v)
        old = dict(self._vars)
        self._vars[k] = (dims, vals, attrs)
        self._mergecoords(cs)
        try:
            self._sizes()
        except ValueError:
            self._vars = old
            raise

    def _coord(self, k):
        return self[k]

    def __getitem__(self, k):
        if isinstance(k, (list, tuple)):
            r = Dataset(attrs=self.attrs)
            for n in k:
                r[n] = self[n]
            return r
        if not isinstance(k, str):
            raise KeyError(k)
        if k in self._vars:
            dims, vals, attrs = self._vars[k]
        elif k in self._c:
            dims, vals, attrs = self._c[k]
        elif k in self.sizes:
            return DataArray(np.arange(self.sizes[k]), dims=(k,), name=k)
        else:
            raise KeyError(k)
        return DataArray._make(dims, vals, {n: c for n, c in self._c.items() if set(c[0]) <= set(dims)}, k, attrs)

    def __getattr__(self, k):
        if k.startswith("_"):
            raise AttributeError(k)
        try:
            return self[k]
        except KeyError:
            raise AttributeError(k)

    def __contains__(self, k): return k in self._vars or k in self._c
    def __iter__(self): return iter(self._vars)
    def __len__(self): return len(self._vars)
    def keys(self): return self._vars.keys()
    def values(self): return [self[k] for k in self._vars]
    def items(self): return [(k, self[k]) for k in self._vars]
    def __bool__(self): return bool(self._vars)
    def __repr__(self): return f"<Dataset {self.sizes} {list(self._c)} {list(self._vars)}>"

    def _map(self, f):
        r = Dataset(attrs=self.attrs)
        r._c = {k: f(*c) for k, c in self._c.items()}
        r._vars = {k: f(*c) for k, c in self._vars.items()}
        return r

    def isel(self, indexers=None, **kw):
        ind = dict(indexers or {}, **kw)
        for d in ind:
            if d not in self.sizes:
                raise ValueError(f"dimension {d!r} does not exist")
        return self._map(lambda dims, vals, at: (*_isel(dims, vals, ind), at))

    def sel(self, indexers=None, **kw):
        ind = dict(indexers or {}, **kw)
        return self.isel({d: _lookup(self._c, d, x) for d, x in ind.items()})

    def squeeze(self, dim=None, drop=False):
        if dim is not None or drop:
            raise Unmodelled("squeeze of given dimensions")
        return self.isel({d: 0 for d, n in self.sizes.items() if n == 1})

    def transpose(self, *dims):
        def f(d, v, a):
            t = tuple(x for x in dims if x in d)
            return t, np.transpose(v, [d.index(x) for x in t]), a
        if not dims or Ellipsis in dims or set(dims) != set(self.sizes):
            raise Unmodelled("transpose")
        return self._map(f)

    def assign_coords(self, coords=None, **kw):
        r = self._map(lambda *c: c)
        for k, v in dict(coords or {}, **kw).items():
            r._setcoord(k, v)
        return r

    def assign(self, variables=None, **kw):
        r = self._map(lambda *c: c)
        for k, v in dict(variables or {}, **kw).items():
            r[k] = v
        return r

    def assign_attrs(self, *a, **kw):
        r = self._map(lambda *c: c)
        r.attrs.update(*a, **kw)
        return r

    def rename(self, m=None, **kw):
        m = dict(m or {}, **kw)
        r = Dataset(attrs=self.attrs)
        g = lambda d: {m.get(k, k): (tuple(m.get(x, x) for x in c[0]), c[1], c[2]) for k, c in d.items()}
        r._c, r._vars = g(self._c), g(self._vars)
        return r

    def drop_vars(self, names):
        names = [names] if isinstance(names, str) else list(names)
        r = self._map(lambda *c: c)
        for n in names:
            r._vars.pop(n, None)
            r._c.pop(n, None)
        return r
