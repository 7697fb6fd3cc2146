"""A masked array over symbolic data (the part of numpy.ma the code under test uses)."""
from __future__ import annotations

import numpy as np

from sx import arr, core
from sx.arr import SymArray, as_sym, has_sym
from sx.core import Sym, SymBool, Unsupported


def _data(x):
    return x.data if isinstance(x, SymMasked) else (as_sym(x.data) if isinstance(x, np.ma.MaskedArray) else x)


def _maskof(x, shape):
    if isinstance(x, SymMasked):
        return np.broadcast_to(x._mask, shape)
    if isinstance(x, np.ma.MaskedArray):
        return np.broadcast_to(np.ma.getmaskarray(x), shape)
    return np.zeros(shape, dtype=bool)


class SymMasked:
    __array_priority__ = 3000

    def __init__(self, data, mask=False):
        self.data = as_sym(data)
        m = np.zeros(self.data.shape, dtype=bool)
        if has_sym(mask):
            mask = arr._fix1(as_sym(mask))
        m[...] = mask
        self._mask = m

    @property
    def mask(self):
        return self._mask

    @mask.setter
    def mask(self, v):
        if has_sym(v):
            v = arr._fix1(as_sym(v))
        self._mask[...] = v

    _data = property(lambda s: s.data)
    shape = property(lambda s: s.data.shape)
    ndim = property(lambda s: s.data.ndim)
    size = property(lambda s: s.data.size)
    dtype = property(lambda s: s.data.dtype)
    T = property(lambda s: SymMasked(s.data.T, s._mask.T))
    fill_value = 1e20

    def __len__(self):
        return self.shape[0]

    def copy(self, *a):
        return SymMasked(self.data.copy(), self._mask.copy())

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, dt, **k):
        return SymMasked(self.data.astype(dt), self._mask.copy())

    def reshape(self, *s):
        return SymMasked(self.data.reshape(*s), self._mask.reshape(*s))

    def ravel(self):
        return SymMasked(self.data.reshape(-1), self._mask.reshape(-1))

    def filled(self, fill_value=None):
        r = self.data.copy()
        b = r.base_arr()
        for i in np.ndindex(r.shape):
            if self._mask[i]:
                b[i] = arr._store(self.fill_value if fill_value is None else fill_value, r.dtype)
        return r

    def compressed(self):
        return self.data.reshape(-1)[~self._mask.reshape(-1)]

    def nonzero(self):
        return arr.f_nonzero(self.filled(False if self.dtype.kind == "b" else 0))

    def __getitem__(self, idx):
        idx = arr.fix_index(_unmask_index(idx))
        m = self._mask[idx]
        d = self.data[idx]
        if isinstance(m, np.ndarray):
            r = SymMasked.__new__(SymMasked)
            r.data, r._mask = d, m
            return r
        return np.ma.masked if m else d

    def __setitem__(self, idx, v):
        idx = arr.fix_index(_unmask_index(idx))
        if v is np.ma.masked:
            self._mask[idx] = True
            return
        sub = self._mask[idx]
        shape = sub.shape if isinstance(sub, np.ndarray) else ()
        mv = _maskof(v, np.shape(_data(v)))
        self.data[idx] = _data(v)
        self._mask[idx] = np.broadcast_to(mv, shape) if shape else bool(np.all(mv))

    def _bin(self, uf, a, b):
        da_, db = _data(a), _data(b)
        if hasattr(da_, "dask") or hasattr(db, "dask"):
            return NotImplemented
        shape = np.broadcast_shapes(np.shape(da_), np.shape(db))
        m = _maskof(a, shape) | _maskof(b, shape)
        r = as_sym(uf(as_sym(da_) if isinstance(a, SymMasked) else da_, db))
        r = r.copy()
        if uf not in COMP and isinstance(a, SymMasked) and a.shape == shape:
            rb = r.base_arr()
            for i in np.ndindex(shape):
                if m[i]:
                    rb[i] = arr.retag(a.data.base_arr()[i], r.dtype)
        if uf in (np.power, np.divide, np.true_divide):
            m = m.copy()
            rb = r.base_arr()
            for i in np.ndindex(shape):
                if isinstance(rb[i], Sym) and rb[i].k != core.FIN and not m[i]:
                    m[i] = True
        if uf is np.equal or uf is np.not_equal:
            rb = r.base_arr()
            ma_, mb = _maskof(a, shape), _maskof(b, shape)
            for i in np.ndindex(shape):
                if m[i]:
                    rb[i] = bool((ma_[i] == mb[i]) if uf is np.equal else (ma_[i] != mb[i]))
        return SymMasked(r, m)

    def __array_ufunc__(self, uf, method, *inputs, **kw):
        if method != "__call__" or kw.get("out"):
            raise Unsupported("masked ufunc %s" % uf.__name__)
        if len(inputs) == 1:
            return SymMasked(uf(self.data), self._mask.copy())
        if len(inputs) == 2:
            return self._bin(uf, *inputs)
        raise Unsupported("masked ufunc %s" % uf.__name__)

    def __array_function__(self, func, types, args, kwargs):
        n = func.__name__
        if n == "where":
            if len(args) == 1:
                return arr.f_nonzero(self.data if args[0] is self else _data(args[0]))
            return arr.f_where(*[_data(a) for a in args])
        if n == "result_type":
            return np.result_type(*[a.dtype if isinstance(a, SymMasked) else a for a in args])
        if n in ("shape", "ndim", "size"):
            return getattr(self, n)
        if n == "isnan":
            return SymMasked(func(_data(args[0])), self._mask.copy())
        if n in ("clip",):
            return SymMasked(func(*[_data(a) for a in args], **kwargs), self._mask.copy())
        if n in ("zeros_like", "ones_like", "full_like", "empty_like"):
            return SymMasked(func(*[_data(a) for a in args], **kwargs), self._mask.copy())
        raise Unsupported("numpy function %s on a masked array" % n)

    def __iter__(self):
        for i in range(self.shape[0]):
            yield self[i]

    def __invert__(self):
        return SymMasked(~self.data, self._mask.copy())

    def __neg__(self):
        return SymMasked(-self.data, self._mask.copy())

    def __abs__(self):
        return SymMasked(abs(self.data), self._mask.copy())

    def clip(self, lo=None, hi=None, **k):
        return SymMasked(self.data.clip(lo, hi), self._mask.copy())

    def any(self, *a):
        return bool(arr.FUNCS["any"](self.filled(False)))

    def all(self, *a):
        return bool(arr.FUNCS["all"](self.filled(True)))

    def sum(self, *a, **k):
        return arr.f_sum(self.filled(0), *a, **k)

    def min(self, *a, **k):
        return FUNC_COMP(self, "min")

    def max(self, *a, **k):
        return FUNC_COMP(self, "max")

    def count(self):
        return int((~self._mask).sum())

    __hash__ = None


def FUNC_COMP(s, n):
    c = s.compressed()
    return np.ma.masked if not c.size else arr.FUNCS[n](c)


COMP = {np.equal, np.not_equal, np.less, np.less_equal, np.greater, np.greater_equal}


def _unmask_index(idx):
    if isinstance(idx, SymMasked):
        return idx.data
    if isinstance(idx, tuple):
        return tuple(_unmask_index(i) for i in idx)
    return idx


def _op(uf):
    def f(self, o):
        return self._bin(uf, self, o)

    def r(self, o):
        return self._bin(uf, o, self)

    def i(self, o):
        t = self._bin(uf, self, o)
        if t is NotImplemented:
            return t
        self.data[...] = t.data
        self._mask = t._mask
        return self
    return f, r, i


for _n, _u in (("add", np.add), ("sub", np.subtract), ("mul", np.multiply), ("truediv", np.divide), ("pow", np.power),
               ("and", np.bitwise_and), ("or", np.bitwise_or), ("xor", np.bitwise_xor), ("floordiv", np.floor_divide),
               ("mod", np.remainder)):
    _f, _r, _i = _op(_u)
    setattr(SymMasked, "__%s__" % _n, _f)
    setattr(SymMasked, "__r%s__" % _n, _r)
    setattr(SymMasked, "__i%s__" % _n, _i)
for _n, _u in (("eq", np.equal), ("ne", np.not_equal), ("lt", np.less), ("le", np.less_equal), ("gt", np.greater),
               ("ge", np.greater_equal)):
    setattr(SymMasked, "__%s__" % _n, _op(_u)[0])


class MaProxy:
    """numpy.ma for the code under test."""

    MaskedArray = None
    nomask = np.ma.nomask

    def __init__(self):
        class _M(type):
            def __instancecheck__(cls, x):
                return isinstance(x, (np.ma.MaskedArray, SymMasked))
        self.MaskedArray = _M("MaskedArray", (), {"__new__": lambda cls, *a, **k: self.array(*a, **k)})
        self.masked_array = self.array
        self.isMaskedArray = self.isMA = self.isarray = lambda x: isinstance(x, (np.ma.MaskedArray, SymMasked))

    def __getattr__(self, n):
        v = getattr(np.ma, n)
        if not callable(v):
            return v

        def f(*a, **k):
            if any(isinstance(x, SymMasked) or has_sym(x) for x in a):
                raise Unsupported("numpy.ma.%s on symbolic data" % n)
            return v(*a, **k)
        return f

    def array(self, data, dtype=None, copy=False, mask=False, **k):
        if isinstance(data, SymMasked):
            return SymMasked(data.data, data._mask | mask)
        if has_sym(data) or has_sym(mask):
            return SymMasked(as_sym(data, dtype), mask)
        return np.ma.array(data, dtype=dtype, copy=copy, mask=mask, **k)

    def asarray(self, x, *a):
        return x if isinstance(x, SymMasked) else self.array(x)

    asanyarray = asarray

    def where(self, cond, *xy):
        if not xy:
            return cond.nonzero() if isinstance(cond, SymMasked) else (
                arr.f_nonzero(cond) if has_sym(cond) else np.ma.where(cond))
        if not any(isinstance(v, SymMasked) or has_sym(v) for v in (cond,) + xy):
            return np.ma.where(cond, *xy)
        x, y = xy
        shape = np.broadcast_shapes(np.shape(_data(cond)), np.shape(_data(x)), np.shape(_data(y)))
        cd = np.broadcast_to(arr.lift(_data(cond))[0], shape)
        cc = np.empty(shape, dtype=bool)
        for i in np.ndindex(shape):
            cc[i] = bool(cd[i])
        m = np.where(cc, _maskof(x, shape), _maskof(y, shape)) | _maskof(cond, shape)
        return SymMasked(arr.f_where(cc, _data(x), _data(y)), m)

    def getmaskarray(self, x):
        return x._mask if isinstance(x, SymMasked) else (
            np.zeros(np.shape(x), bool) if has_sym(x) else np.ma.getmaskarray(x))

    getmask = getmaskarray

    def getdata(self, x):
        return _data(x)

    def filled(self, x, v=None):
        return x.filled(v) if isinstance(x, SymMasked) else x

    def masked_invalid(self, a, copy=True):
        if isinstance(a, SymMasked) or has_sym(a):
            d = as_sym(_data(a))
            m = _maskof(a, d.shape).copy()
            for i in np.ndindex(d.shape):
                e = d.base_arr()[i]
                if isinstance(e, Sym) and e.k != core.FIN:
                    m[i] = True
            return SymMasked(d.copy(), m)
        return np.ma.masked_invalid(a, copy=copy)

    def masked_where(self, c, a, copy=True):
        if isinstance(a, SymMasked) or has_sym(a) or has_sym(c):
            cd = arr._fix1(as_sym(_data(c))) if has_sym(_data(c)) else np.asarray(_data(c))
            d = as_sym(_data(a))
            return SymMasked(d.copy() if copy else d, cd | _maskof(a, d.shape))
        return np.ma.masked_where(c, a, copy)
