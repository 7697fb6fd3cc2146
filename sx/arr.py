"""Arrays of symbolic numbers.

SymArray is an ndarray subclass (object dtype underneath) that shows the dtype
the real computation would have, and gives every NumPy ufunc and function used
by the code under test its elementwise meaning over symbolic numbers.
"""
from __future__ import annotations

import math
from fractions import Fraction

import numpy as np
import z3

from sx import core
from sx.core import (FIN, I64, NAN, Poly, Rat, Sym, SymBool, Unsupported, b_and, b_not, b_or, cast, concretize_int, ctx,
                     mkbool, raw_bool)

F64 = np.dtype("float64")
BOOL = np.dtype(bool)
OBJ = np.dtype(object)
GATHER_LIMIT = 12


class SymArray(np.ndarray):
    """Object array of Sym / SymBool / bool with a logical dtype."""

    __array_priority__ = 1500

    def __new__(cls, elems, sdt=None, shape=None):
        base = np.empty(np.shape(elems) if shape is None else shape, dtype=object)
        if base.ndim == 0:
            base[()] = elems[()] if isinstance(elems, np.ndarray) else elems
        else:
            src = elems if isinstance(elems, np.ndarray) else _obj(elems, base.shape)
            base[...] = src
        r = base.view(cls)
        r._sdt = np.dtype(sdt) if sdt is not None else None
        return r

    def __array_finalize__(self, obj):
        self._sdt = getattr(obj, "_sdt", None)

    def __dask_tokenize__(self):
        c = ctx()
        c.tok = getattr(c, "tok", 0) + 1
        return "symarray-%d-%d" % (id(c), c.tok)

    # -- dtype ------------------------------------------------------------------
    @property
    def dtype(self):
        if self._sdt is not None:
            return self._sdt
        return infer_dt(self)

    @dtype.setter
    def dtype(self, v):
        raise Unsupported("setting dtype in place")

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def nbytes(self):
        return self.dtype.itemsize * self.size

    @property
    def real(self):
        return self

    def __dask_tokenize__(self):
        n = ctx().fcache.setdefault("dasktok", [0])
        n[0] += 1
        return ("sx", n[0])

    def base_arr(self):
        return np.ndarray.view(self, np.ndarray)

    def view(self, *a, **k):
        if a and isinstance(a[0], type) and issubclass(a[0], np.ndarray):
            if a[0] is np.ndarray:
                return self
            return np.ndarray.view(self, *a, **k)
        if not a and not k:
            return np.ndarray.view(self)
        raise Unsupported("view as another dtype")

    def astype(self, dtype, order="K", casting="unsafe", subok=True, copy=True):
        dt = np.dtype(dtype)
        if dt == self.dtype and not copy:
            return self
        return amap1(self, lambda e: cast(e, dt), dt)

    # -- indexing -----------------------------------------------------------------
    def __getitem__(self, idx):
        g = _gather(self, idx)
        if g is not None:
            return g
        r = np.ndarray.__getitem__(self.base_arr(), fix_index(idx))
        return mk(r, self._sdt) if isinstance(r, np.ndarray) else r

    def __setitem__(self, idx, val):
        idx = fix_index(idx)
        dt = self.dtype
        v, _ = lift(val)
        if v.dtype == object:
            out = np.empty(v.shape, dtype=object)
            for i in np.ndindex(v.shape):
                out[i] = _store(v[i], dt)
            v = out
        tgt = self.base_arr()
        if v.ndim == 0:
            sub = np.ndarray.__getitem__(tgt, idx)
            if isinstance(sub, np.ndarray):
                full = np.empty(sub.shape, dtype=object)
                for i in np.ndindex(sub.shape):
                    full[i] = v[()]
                np.ndarray.__setitem__(tgt, idx, full)
            else:
                np.ndarray.__setitem__(tgt, idx, v[()])
        else:
            np.ndarray.__setitem__(tgt, idx, v)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(self.shape[0]):
            yield self[i]

    def __contains__(self, x):
        return bool((self == x).any())

    def item(self, *a):
        if not a:
            if self.size != 1:
                raise ValueError("can only convert an array of size 1 to a Python scalar")
            e = self.base_arr().reshape(-1)[0]
        else:
            e = self.base_arr()[a if len(a) > 1 else a[0]] if self.ndim == len(a) else self.base_arr().reshape(-1)[a[0]]
        return e.item() if isinstance(e, Sym) else e

    def tolist(self):
        def rec(a):
            if a.ndim == 0:
                e = a[()]
                return e.item() if isinstance(e, Sym) else e
            return [rec(a[i:i + 1].reshape(a.shape[1:])) for i in range(a.shape[0])]
        return rec(self.base_arr())

    def tobytes(self, order="C"):
        return ("bytes", str(self.dtype)) + tuple(self.base_arr().reshape(-1))

    def __float__(self):
        return float(self.item())

    def __int__(self):
        return int(self.item())

    def __index__(self):
        if self.ndim:
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return self[()].__index__()

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous. "
                             "Use a.any() or a.all()")
        return bool(self.base_arr().reshape(-1)[0])

    def __repr__(self):
        return "SymArray(%s, %s)" % (self.shape, self.dtype)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __reduce__(self):
        raise Unsupported("pickling of symbolic data")

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def copy(self, order="C"):
        return mk(self.base_arr().copy(), self._sdt)

    def fill(self, v):
        self[...] = v

    # -- reductions ---------------------------------------------------------------
    def _red(self, name, *a, **k):
        return FUNCS[name](self, *a, **k)

    def clip(self, min=None, max=None, out=None, **k):
        return f_clip(self, min, max, out=out, **k)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_entry(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return function_entry(func, types, args, kwargs)


def _method(name):
    def m(self, *a, **k):
        return FUNCS[name](self, *a, **k)
    m.__name__ = name
    return m


for _n in ("min", "max", "sum", "prod", "mean", "any", "all", "cumsum", "argsort", "sort_", "nonzero", "argmax", "argmin",
           "searchsorted", "repeat", "round", "ptp", "dot", "std", "var", "take", "compress", "cumprod", "diagonal"):
    setattr(SymArray, "sort" if _n == "sort_" else _n, _method(_n))


def _obj(x, shape):
    out = np.empty(shape, dtype=object)
    if len(shape) == 1:
        for i, e in enumerate(x):
            out[i] = e
        return out

    def rec(y, pre):
        if len(pre) == len(shape):
            out[pre] = y
            return
        for i, e in enumerate(y):
            rec(e, pre + (i,))
    rec(x, ())
    return out


def infer_dt(a):
    dts = []
    for e in np.ndarray.view(a, np.ndarray).flat:
        if isinstance(e, Sym):
            dts.append(e.dt if e.dt is not None else F64)
        elif isinstance(e, (bool, np.bool_, SymBool)):
            dts.append(BOOL)
        elif isinstance(e, np.generic):
            dts.append(e.dtype)
        elif isinstance(e, float):
            dts.append(F64)
        elif isinstance(e, int):
            dts.append(I64)
        else:
            return OBJ
    return np.result_type(*dts) if dts else F64


def has_sym(x, depth=0):
    if isinstance(x, (Sym, SymBool, SymArray)):
        return True
    if isinstance(x, (list, tuple)) and depth < 5:
        return any(has_sym(e, depth + 1) for e in x)
    if type(x) is np.ndarray and x.dtype == object:
        return any(isinstance(e, (Sym, SymBool)) for e in x.flat)
    return False


def mk(objarr, sdt=None):
    """ndarray(object) -> SymArray without copying."""
    r = np.ndarray.view(objarr, SymArray)
    r._sdt = np.dtype(sdt) if sdt is not None else None
    return r


def wrap0(s):
    b = np.empty((), dtype=object)
    b[()] = s
    return mk(b, s.dt if isinstance(s, Sym) and s.dt is not None else (BOOL if isinstance(s, SymBool) else F64))


def _store(e, dt):
    if dt.kind in "fiub":
        if isinstance(e, (Sym, SymBool, bool, np.bool_, int, float, np.number)):
            return cast(e if isinstance(e, (Sym, SymBool, bool, np.bool_)) else Sym.const(e), dt)
    return e


def tosym(e):
    if isinstance(e, Sym):
        return e
    if isinstance(e, SymBool):
        return e._num()
    if isinstance(e, (bool, np.bool_)):
        return Sym.const(int(e), I64)
    return Sym.const(e)


def lift(x):
    """(object ndarray of elements, dtype or 'weak' marker)."""
    if isinstance(x, SymArray):
        return x.base_arr(), x.dtype
    if isinstance(x, Sym):
        b = np.empty((), dtype=object)
        b[()] = x
        return b, (x.dt if x.dt is not None else float)
    if isinstance(x, (SymBool,)):
        b = np.empty((), dtype=object)
        b[()] = x
        return b, BOOL
    if isinstance(x, np.ma.MaskedArray):
        raise Unsupported("masked array mixed with symbolic data")
    if isinstance(x, (bool, int, float)):
        b = np.empty((), dtype=object)
        b[()] = x if isinstance(x, bool) else Sym.const(x)
        return b, type(x)
    if isinstance(x, (list, tuple)):
        x = as_sym(x) if has_sym(x) else np.asarray(x)
        if isinstance(x, SymArray):
            return x.base_arr(), x.dtype
    if isinstance(x, np.generic):
        x = np.asarray(x)
    if isinstance(x, np.ndarray):
        dt = x.dtype
        b = np.empty(x.shape, dtype=object)
        if dt.kind == "b":
            for i in np.ndindex(x.shape):
                b[i] = bool(x[i])
        elif dt.kind in "fiu":
            for i in np.ndindex(x.shape):
                b[i] = Sym.const(x[i], dt)
        elif dt == object:
            for i in np.ndindex(x.shape):
                b[i] = x[i]
            return b, infer_dt(b)
        else:
            for i in np.ndindex(x.shape):
                b[i] = x[i]
        return b, dt
    if x is None or isinstance(x, (str, bytes, Fraction)):
        b = np.empty((), dtype=object)
        b[()] = Sym.const(x) if isinstance(x, Fraction) else x
        return b, (float if isinstance(x, Fraction) else OBJ)
    raise Unsupported("cannot mix %r with symbolic data" % (type(x),))


def as_sym(x, dtype=None):
    """np.asarray for anything that contains symbolic values."""
    if isinstance(x, SymArray):
        r = x
    elif isinstance(x, (Sym, SymBool)):
        r = wrap0(x)
    elif isinstance(x, np.ndarray):
        b, dt = lift(x)
        r = mk(b, dt)
    elif isinstance(x, (list, tuple)):
        parts = [as_sym(e) for e in x]
        if not parts:
            r = mk(np.empty((0,), dtype=object), F64)
        else:
            shp = parts[0].shape
            if any(p.shape != shp for p in parts):
                raise ValueError("setting an array element with a sequence")
            b = np.empty((len(parts),) + shp, dtype=object)
            for i, p in enumerate(parts):
                b[i] = p.base_arr() if shp else p.base_arr()[()]
            dt = np.result_type(*[p.dtype for p in parts])
            r = mk(b, None).astype(dt)
    else:
        b, dt = lift(x)
        if dt in (float, int, bool):
            dt = np.dtype(dt)
        r = mk(b, dt)
        r = r.astype(dt) if dt.kind in "fiub" else r
    if dtype is not None and np.dtype(dtype) != r.dtype:
        r = r.astype(dtype)
    return r


def scal(r):
    """0-d arrays come out of ufuncs as scalars."""
    if isinstance(r, SymArray) and r.ndim == 0:
        return r.base_arr()[()]
    return r


def amap1(a, f, dt):
    src = a.base_arr() if isinstance(a, SymArray) else a
    out = np.empty(src.shape, dtype=object)
    for i in np.ndindex(src.shape):
        out[i] = f(src[i])
    return mk(out, dt)


def retag(e, dt):
    if isinstance(e, Sym) and e.dt != dt:
        return cast(e, dt) if dt.kind in "iub" else Sym(e.k, e.r, dt)
    if isinstance(e, (bool, np.bool_, SymBool)) and dt.kind != "b":
        return cast(e, dt)
    return e


# --------------------------------------------------------------------------------
# indexing
# --------------------------------------------------------------------------------
def fix_index(idx):
    if isinstance(idx, tuple):
        return tuple(_fix1(i) for i in idx)
    return _fix1(idx)


def _fix1(i):
    if isinstance(i, Sym):
        return i.__index__()
    if isinstance(i, SymBool):
        return bool(i)
    if isinstance(i, slice):
        f = lambda v: v.__index__() if isinstance(v, (Sym, SymArray)) else v  # noqa: E731
        return slice(f(i.start), f(i.stop), f(i.step))
    if isinstance(i, list) and has_sym(i):
        i = as_sym(i)
    if isinstance(i, SymArray):
        dt = i.dtype
        if dt.kind == "b":
            out = np.empty(i.shape, dtype=bool)
            b = i.base_arr()
            for j in np.ndindex(i.shape):
                out[j] = bool(b[j])
            return out
        if dt.kind in "iu":
            out = np.empty(i.shape, dtype=np.int64)
            b = i.base_arr()
            for j in np.ndindex(i.shape):
                out[j] = concretize_int(b[j])
            return out if out.ndim else int(out)
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    return i


def _wide(e, n):
    """True when an index has too many possible values to fork on."""
    if not isinstance(e, Sym) or e.is_const() or e.r.den:
        return False
    lo, hi = ctx().interval(e.r.num)
    if lo is not None and hi is not None and hi - lo < GATHER_LIMIT:
        return False
    return n > GATHER_LIMIT


def _gather(a, idx):
    """1-d table lookup with a symbolic index: an uninterpreted select."""
    if a.ndim != 1:
        return None
    if isinstance(idx, tuple) and len(idx) == 1:
        idx = idx[0]
    n = a.shape[0]
    if isinstance(idx, Sym):
        if idx.dt is None or idx.dt.kind not in "iu" or not _wide(idx, n):
            return None
        return select(a, idx)
    if isinstance(idx, SymArray) and idx.dtype.kind in "iu" and any(_wide(e, n) for e in idx.base_arr().flat):
        return amap1(idx, lambda e: select(a, e), a.dtype)
    return None


def select(a, idx):
    c = ctx()
    n = a.shape[0]
    base = a.base_arr()
    if idx.is_const():
        v = int(idx.pyvalue())
        if not -n <= v < n:
            raise IndexError("index %d is out of bounds for axis 0 with size %d" % (v, n))
    else:
        if bool(idx >= n) or bool(idx < -n):
            raise IndexError("index is out of bounds for axis 0 with size %d" % n)
        if bool(idx < 0):
            idx = idx + n
    tables = c.fcache.setdefault("tables", [])
    tid = None
    for k, (els, _, _) in enumerate(tables):
        if els is base or (els.shape == base.shape and _same_elems(els, base)):
            tid = k
            break
    if tid is None:
        if not all(isinstance(e, Sym) and e.k == FIN for e in base.flat):
            raise Unsupported("symbolic index into a table with non-finite values")
        los = his = None
        ivs = [core._rat_interval(e.r) for e in base.flat]
        if all(l is not None for l, _ in ivs):
            los = min(l for l, _ in ivs)
        if all(h is not None for _, h in ivs):
            his = max(h for _, h in ivs)
        tables.append((base, [], (los, his)))
        tid = len(tables) - 1
    els, hits, (los, his) = tables[tid]
    dt = a.dtype
    for (ix, v) in hits:
        if ix.r.num.key() == idx.r.num.key():
            return retag(v, dt)
    if idx.is_const():
        val = base[int(idx.pyvalue())]
        y = None
    else:
        y = c.new_atom("sel", kind="select", arg=(tid, idx), lo=los, hi=his)
        val = Sym(FIN, Rat(Poly.atom(y)), dt)
    inc = _table_prop(base) == "increasing"
    for (ix, v2) in hits:
        same = ix._cmp(idx, "==")
        if same is not False:
            c.assume(z3.Implies(core._z(same), core._z(v2._cmp(val, "=="))))
        if inc:
            c.assume(core._z(ix._cmp(idx, "<")) == core._z(v2._cmp(val, "<")))
    hits.append((idx, val))
    return retag(val, dt)


def _table_prop(base):
    props = getattr(ctx(), "table_props", None)
    if not props:
        return None
    t = base[0].r.num.t
    if base[0].r.den or len(t) != 1:
        return None
    (m, co), = t.items()
    return props.get(m[0][0]) if len(m) == 1 and m[0][1] == 1 and co > 0 else None


def _same_elems(a, b):
    for x, y in zip(a.flat, b.flat):
        if x is y:
            continue
        if not (isinstance(x, Sym) and isinstance(y, Sym) and x.k == FIN and y.k == FIN):
            return False
        if x.r is y.r:
            continue
        if x.r.den or y.r.den or x.r.num.key() != y.r.num.key():
            return False
    return True


# --------------------------------------------------------------------------------
# ufuncs
# --------------------------------------------------------------------------------
def _b(f):
    return lambda a, b: f(tosym(a), tosym(b))


def _cmpf(op):
    def f(a, b):
        if isinstance(a, str) or isinstance(b, str):
            return {"<": a < b if type(a) is type(b) else False, "==": a == b}.get(op)
        a, b = tosym(a), tosym(b)
        if op == "<":
            return a < b
        if op == "<=":
            return a <= b
        if op == ">":
            return a > b
        if op == ">=":
            return a >= b
        if op == "==":
            return a == b
        return a != b
    return f


def _bitop(bf, name):
    def f(a, b):
        if isinstance(a, (bool, np.bool_, SymBool)) and isinstance(b, (bool, np.bool_, SymBool)):
            return mkbool(bf(raw_bool(a), raw_bool(b)))
        raise Unsupported(name + " of integers")
    return f


def b_xor(a, b):
    return b_or(b_and(a, b_not(b)), b_and(b_not(a), b))


def _logic(bf):
    return lambda a, b: mkbool(bf(_truth(a), _truth(b)))


def _truth(a):
    if isinstance(a, Sym):
        return a.truth()
    return raw_bool(a)


def _invert(a):
    if isinstance(a, (bool, np.bool_)):
        return not a
    if isinstance(a, SymBool):
        return ~a
    return core.s_sub(core.s_neg(tosym(a)), Sym.const(1))


def _multiply(a, b):
    if isinstance(a, (bool, np.bool_, SymBool)) and isinstance(b, (bool, np.bool_, SymBool)):
        return mkbool(b_and(raw_bool(a), raw_bool(b)))
    return core.s_mul(tosym(a), tosym(b))


def _add(a, b):
    if isinstance(a, (bool, np.bool_, SymBool)) and isinstance(b, (bool, np.bool_, SymBool)):
        return mkbool(b_or(raw_bool(a), raw_bool(b)))
    return core.s_add(tosym(a), tosym(b))


def _clip3(x, lo, hi):
    x, lo, hi = tosym(x), tosym(lo), tosym(hi)
    return core.s_minimum(core.s_maximum(x, lo), hi)


def _npdiv(a, b):
    return core.s_div(tosym(a), tosym(b))


def _nppow(a, b):
    return core.s_pow(tosym(a), tosym(b))


def _trunc(a):
    a = tosym(a)
    return a if a.k != FIN else core._retype(core.s_trunc(a), a.dt)


UFUNCS = {
    "add": _add, "subtract": _b(core.s_sub), "multiply": _multiply, "divide": _npdiv, "true_divide": _npdiv,
    "floor_divide": _b(core.s_floordiv), "remainder": _b(core.s_mod), "mod": _b(core.s_mod), "power": _nppow,
    "float_power": _nppow, "negative": lambda a: core.s_neg(tosym(a)), "positive": lambda a: tosym(a),
    "absolute": lambda a: core.s_abs(tosym(a)), "square": lambda a: core.s_mul(tosym(a), tosym(a)),
    "reciprocal": lambda a: core.s_div(Sym.const(1), tosym(a)), "sign": lambda a: core.s_sgn(tosym(a)),
    "less": _cmpf("<"), "less_equal": _cmpf("<="), "greater": _cmpf(">"), "greater_equal": _cmpf(">="),
    "equal": _cmpf("=="), "not_equal": _cmpf("!="),
    "logical_and": _logic(b_and), "logical_or": _logic(b_or), "logical_xor": _logic(b_xor),
    "logical_not": lambda a: mkbool(b_not(_truth(a))),
    "bitwise_and": _bitop(b_and, "and"), "bitwise_or": _bitop(b_or, "or"), "bitwise_xor": _bitop(b_xor, "xor"),
    "invert": _invert, "maximum": _b(core.s_maximum), "minimum": _b(core.s_minimum), "fmax": _b(core.s_fmax),
    "fmin": _b(core.s_fmin), "clip": _clip3, "trunc": _trunc,
    "conjugate": lambda a: a, "log10": lambda a: core.s_mul(core.s_log(tosym(a)), Sym.const(1 / math.log(10))),
    "log2": lambda a: core.s_mul(core.s_log(tosym(a)), Sym.const(1 / math.log(2))),
    "exp2": lambda a: core.s_pow(Sym.const(2.0), tosym(a)),
    "hypot": lambda a, b: core.s_sqrt(core.s_add(core.s_mul(tosym(a), tosym(a)), core.s_mul(tosym(b), tosym(b)))),
    "signbit": lambda a: tosym(a) < 0,
}
for _k, _f in core._UNARY.items():
    if _k not in UFUNCS:
        UFUNCS[_k] = (lambda f: lambda a: f(tosym(a)))(_f)

_dtcache = {}


def out_dtype(ufunc, dts, dtype=None):
    if dtype is not None:
        return np.dtype(dtype)
    key = (ufunc, tuple(dts))
    if key in _dtcache:
        return _dtcache[key]
    args = []
    for d in dts:
        if d is float:
            args.append(1.0)
        elif d is int:
            args.append(1)
        elif d is bool:
            args.append(True)
        elif d == OBJ:
            _dtcache[key] = OBJ
            return OBJ
        else:
            args.append(np.ones((1,), dtype=d))
    with np.errstate(all="ignore"):
        r = ufunc(*args)
    r = r[0] if isinstance(r, tuple) else r
    dt = np.asarray(r).dtype
    _dtcache[key] = dt
    return dt


def ufunc_entry(ufunc, method, inputs, kw):
    for x in inputs:
        if type(x).__module__.startswith(("dask", "xarray")) or isinstance(x, np.ma.MaskedArray) \
                or type(x).__name__ == "SymMasked":
            return NotImplemented
    kw = dict(kw)
    outs = kw.pop("out", None)
    where = kw.pop("where", True)
    dtype = kw.pop("dtype", None)
    kw.pop("casting", None)
    kw.pop("order", None)
    kw.pop("subok", None)
    name = ufunc.__name__
    if method == "__call__":
        if kw:
            raise Unsupported("ufunc keywords %s" % list(kw))
        r = call_ufunc(ufunc, name, inputs, dtype, where, outs)
    elif method == "reduce":
        r = ufunc_reduce(ufunc, name, inputs[0], outs=outs, where=where, dtype=dtype, **kw)
        if outs:
            outs[0][...] = r
            return outs[0]
        return r
    elif method == "accumulate":
        r = accumulate(ufunc, inputs[0], dtype=dtype, **kw)
    elif method == "outer":
        a, b = as_sym(inputs[0]), as_sym(inputs[1])
        r = call_ufunc(ufunc, name, (a.reshape(a.shape + (1,) * b.ndim), b), dtype, True, None)
    else:
        raise Unsupported("ufunc method %s.%s" % (name, method))
    return r


def call_ufunc(ufunc, name, inputs, dtype, where, outs):
    if name == "matmul":
        return FUNCS["dot"](*inputs)
    f = UFUNCS.get(name)
    if f is None:
        raise Unsupported("ufunc %s" % name)
    lifted = [lift(x) for x in inputs]
    for (b, d) in lifted:
        if isinstance(d, np.dtype) and d.kind in "USOmM" and name not in ("equal", "not_equal"):
            raise TypeError("ufunc '%s' not supported for the input types" % name)
    dt = out_dtype(ufunc, [d for _, d in lifted], dtype)
    if name in ("true_divide", "divide") and dt.kind in "iu":
        dt = F64
    bs = np.broadcast_arrays(*[b for b, _ in lifted]) if len(lifted) > 1 else [lifted[0][0]]
    shape = bs[0].shape
    wm = None
    if where is not True:
        wm, _ = lift(where)
        shape = np.broadcast_shapes(shape, wm.shape)
        wm = np.broadcast_to(wm, shape)
        bs = [np.broadcast_to(b, shape) for b in bs]
    if outs is not None:
        out = outs[0]
        if not isinstance(out, SymArray):
            raise Unsupported("out= is not a symbolic array")
        if np.broadcast_shapes(shape, out.shape) != out.shape:
            raise ValueError("non-broadcastable output operand with shape %s doesn't match the broadcast shape %s"
                             % (out.shape, shape))
        if not np.can_cast(dt, out.dtype, "same_kind"):
            raise TypeError("Cannot cast ufunc '%s' output from %r to %r with casting rule 'same_kind'"
                            % (name, dt, out.dtype))
    res = np.empty(shape, dtype=object)
    old = np.broadcast_to(outs[0].base_arr(), shape) if outs is not None else None
    for i in np.ndindex(shape):
        if wm is not None and not bool(wm[i] if not isinstance(wm[i], Sym) else wm[i] != 0):
            res[i] = old[i] if old is not None else Sym(FIN, Rat.const(0), dt)
            continue
        res[i] = retag(f(*[b[i] for b in bs]), dt)
    if outs is not None:
        out[...] = mk(res, dt)
        return out
    return scal(mk(res, dt))


def _axes(axis, nd):
    if axis is None:
        return tuple(range(nd))
    if not isinstance(axis, tuple):
        axis = (axis,)
    return tuple(a % nd for a in axis)


def ufunc_reduce(ufunc, name, a, axis=0, keepdims=False, initial=np._NoValue, where=True, dtype=None, outs=None):
    f = UFUNCS[name]
    a = as_sym(a)
    ax = _axes(axis, a.ndim)
    dt = a.dtype
    if dtype is not None:
        dt = np.dtype(dtype)
    elif name in ("add", "multiply") and dt.kind in "biu":
        dt = I64
    elif name.startswith("logical"):
        dt = BOOL
    b = a.base_arr()
    wm = None
    if where is not True:
        wm = np.broadcast_to(lift(where)[0], b.shape)
    keep = [i for i in range(b.ndim) if i not in ax]
    oshape = tuple(b.shape[i] for i in keep)
    out = np.empty(oshape, dtype=object)
    groups = {i: [] for i in np.ndindex(oshape)}
    for i in np.ndindex(b.shape):
        if wm is not None and not bool(wm[i]):
            continue
        groups[tuple(i[k] for k in keep)].append(b[i])
    for o, es in groups.items():
        if initial is not np._NoValue and initial is not None:
            es = [initial] + es
        if not es:
            if ufunc.identity is None:
                raise ValueError("zero-size array to reduction operation %s which has no identity" % name)
            es = [ufunc.identity]
        acc = es[0]
        if len(es) == 1 and name.startswith("logical"):
            acc = mkbool(_truth(acc))
        if name == "add" and not isinstance(acc, Sym):
            acc = tosym(acc)
        for e in es[1:]:
            acc = f(acc, e if name != "add" else tosym(e))
        if not isinstance(acc, (Sym, SymBool, bool, np.bool_)):
            acc = tosym(acc)
        out[o] = retag(acc, dt)
    if keepdims:
        out = out.reshape(tuple(1 if i in ax else b.shape[i] for i in range(b.ndim)))
    return scal(mk(out, dt))


def accumulate(ufunc, a, axis=0, dtype=None):
    f = UFUNCS[ufunc.__name__]
    a = as_sym(a)
    dt = np.dtype(dtype) if dtype is not None else (I64 if a.dtype.kind in "biu" else a.dtype)
    b = np.moveaxis(a.base_arr(), axis, 0)
    out = np.empty(b.shape, dtype=object)
    for i in range(b.shape[0]):
        for j in np.ndindex(b.shape[1:]):
            e = tosym(b[(i,) + j])
            out[(i,) + j] = retag(e if i == 0 else f(out[(i - 1,) + j], e), dt)
    return mk(np.moveaxis(out, 0, axis), dt)


# --------------------------------------------------------------------------------
# functions
# --------------------------------------------------------------------------------
FUNCS = {}


def fn(*names):
    def d(f):
        for n in names:
            FUNCS[n] = f
        return f
    return d


def _nv(x):
    return x is np._NoValue


def _reducer(ufname, nan_skip=False):
    uf = getattr(np, ufname)

    def f(a, axis=None, out=None, keepdims=False, initial=np._NoValue, where=True, dtype=None):
        if _nv(keepdims):
            keepdims = False
        if _nv(where):
            where = True
        r = ufunc_reduce(uf, ufname, a, axis=axis, keepdims=bool(keepdims), initial=initial, where=where, dtype=dtype)
        if out is not None:
            out[...] = r
            return out
        return r
    return f


FUNCS["min"] = FUNCS["amin"] = _reducer("minimum")
FUNCS["max"] = FUNCS["amax"] = _reducer("maximum")
FUNCS["nanmin"] = _reducer("fmin")
FUNCS["nanmax"] = _reducer("fmax")
FUNCS["any"] = _reducer("logical_or")
FUNCS["all"] = _reducer("logical_and")


@fn("sum")
def f_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=np._NoValue, where=True):
    return _reducer("add")(a, axis, out, keepdims, initial, where, dtype)


@fn("prod")
def f_prod(a, axis=None, dtype=None, out=None, keepdims=False, initial=np._NoValue, where=True):
    return _reducer("multiply")(a, axis, out, keepdims, initial, where, dtype)


@fn("mean")
def f_mean(a, axis=None, dtype=None, out=None, keepdims=False, where=True):
    a = as_sym(a)
    s = f_sum(a, axis, dtype, keepdims=False if _nv(keepdims) else keepdims)
    n = a.size if axis is None else math.prod(a.shape[k] for k in _axes(axis, a.ndim))
    return s / n


@fn("nansum")
def f_nansum(a, axis=None, **k):
    a = as_sym(a)
    return f_sum(amap1(a, lambda e: Sym.const(0, e.dt) if isinstance(e, Sym) and e.k == NAN else e, a.dtype), axis)


@fn("nanmean")
def f_nanmean(a, axis=None, **k):
    a = as_sym(a)
    cnt = amap1(a, lambda e: Sym.const(0 if isinstance(e, Sym) and e.k == NAN else 1, F64), F64)
    return f_nansum(a, axis) / f_sum(cnt, axis)


@fn("average")
def f_average(a, axis=None, weights=None, returned=False, **k):
    a = as_sym(a)
    if weights is None:
        r, w = f_mean(a, axis), a.size
    else:
        w = f_sum(as_sym(weights), axis)
        r = f_sum(a * weights, axis) / w
    return (r, w) if returned else r


@fn("var")
def f_var(a, axis=None, dtype=None, out=None, ddof=0, **k):
    a = as_sym(a)
    m = f_mean(a, axis, keepdims=True)
    n = a.size if axis is None else a.shape[axis]
    return f_sum((a - m) ** 2, axis) / (n - ddof)


@fn("std")
def f_std(a, axis=None, dtype=None, out=None, ddof=0, **k):
    return np.sqrt(f_var(a, axis, ddof=ddof))


@fn("ptp")
def f_ptp(a, axis=None, **k):
    return FUNCS["max"](a, axis) - FUNCS["min"](a, axis)


@fn("clip")
def f_clip(a, a_min=np._NoValue, a_max=np._NoValue, out=None, min=np._NoValue, max=np._NoValue, **k):
    lo = a_min if not _nv(a_min) else (None if _nv(min) else min)
    hi = a_max if not _nv(a_max) else (None if _nv(max) else max)
    outs = (out,) if out is not None else None
    if type(a).__module__.startswith("dask"):
        return a.clip(lo, hi)
    a = as_sym(a)
    if lo is None and hi is None:
        return a.copy()
    if lo is None:
        return call_ufunc(np.minimum, "minimum", (a, hi), None, True, outs)
    if hi is None:
        return call_ufunc(np.maximum, "maximum", (a, lo), None, True, outs)
    return call_ufunc(np._core.umath.clip, "clip", (a, lo, hi), None, True, outs)


@fn("cumsum")
def f_cumsum(a, axis=None, dtype=None, out=None):
    a = as_sym(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    r = accumulate(np.add, a, axis, dtype)
    if out is not None:
        out[...] = r
        return out
    return r


@fn("cumulative_sum")
def f_cumulative_sum(x, axis=None, dtype=None, out=None, include_initial=False):
    if include_initial:
        raise Unsupported("include_initial")
    return f_cumsum(x, axis, dtype, out)


@fn("cumprod")
def f_cumprod(a, axis=None, dtype=None, out=None):
    a = as_sym(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    return accumulate(np.multiply, a, axis, dtype)


@fn("where")
def f_where(cond, *xy, x=None, y=None):
    if x is not None:
        xy = (x, y)
    if not xy:
        return f_nonzero(as_sym(cond))
    (cb, _), (xb, xd), (yb, yd) = lift(cond), lift(xy[0]), lift(xy[1])
    shape = np.broadcast_shapes(cb.shape, xb.shape, yb.shape)
    dt = out_dtype(np.add, [xd, yd]) if BOOL not in (xd, yd) and bool not in (xd, yd) else None
    if dt is None:
        if (xd in (BOOL, bool)) and (yd in (BOOL, bool)):
            dt = BOOL
        else:
            dt = np.result_type(*[np.ones(1, d) if isinstance(d, np.dtype) else d(1) for d in (xd, yd)])
    cb, xb, yb = (np.broadcast_to(v, shape) for v in (cb, xb, yb))
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(shape):
        if xb[i] is yb[i]:
            out[i] = retag(xb[i], dt)
            continue
        c = cb[i]
        if isinstance(c, Sym):
            c = mkbool(c.truth())
        out[i] = retag(xb[i] if bool(c) else yb[i], dt)
    return mk(out, dt)


@fn("select")
def f_selectfn(condlist, choicelist, default=0):
    r = default
    for c, ch in list(zip(condlist, choicelist))[::-1]:
        r = f_where(c, ch, r)
    return r


@fn("nonzero", "flatnonzero_")
def f_nonzero(a):
    a = as_sym(a)
    if a.ndim == 0:
        raise ValueError("Calling nonzero on 0d arrays is not allowed.")
    b = a.base_arr()
    m = np.empty(b.shape, dtype=bool)
    for i in np.ndindex(b.shape):
        m[i] = bool(b[i])
    return np.nonzero(m)


@fn("flatnonzero")
def f_flatnonzero(a):
    return f_nonzero(as_sym(a).reshape(-1))[0]


@fn("argwhere")
def f_argwhere(a):
    return np.transpose(f_nonzero(a))


@fn("count_nonzero")
def f_count_nonzero(a, axis=None, **k):
    if axis is not None:
        raise Unsupported("count_nonzero axis")
    return len(f_nonzero(as_sym(a).reshape(-1))[0])


@fn("extract")
def f_extract(condition, arr):
    return as_sym(arr).reshape(-1)[as_sym(condition).reshape(-1)]


@fn("compress")
def f_compress(condition, a=None, axis=None, out=None):
    if isinstance(condition, SymArray) and not isinstance(a, np.ndarray):
        condition, a = a, condition
    return as_sym(a)[as_sym(condition)]


def _lt(a, b):
    """Sort order: NaN last."""
    a, b = tosym(a), tosym(b)
    if a.k == NAN:
        return False
    if b.k == NAN:
        return True
    return bool(a < b)


def _argsort1(es, stable=True):
    order = []
    for i, e in enumerate(es):
        j = len(order)
        while j > 0 and _lt(e, es[order[j - 1]]):
            j -= 1
        order.insert(j, i)
    return order


@fn("argsort")
def f_argsort(a, axis=-1, kind=None, order=None, stable=None, **k):
    a = as_sym(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    b = np.moveaxis(a.base_arr(), axis, -1)
    out = np.empty(b.shape, dtype=np.int64)
    unstable = not (stable or kind in ("stable", "mergesort"))
    for i in np.ndindex(b.shape[:-1]):
        o = _argsort1(list(b[i]))
        if unstable:
            o = _unstable(o, b[i])
        out[i] = o
    return np.moveaxis(out, -1, axis)


def _unstable(order, es):
    """The default sort is not stable: ties may come in any order (fork over adjacent swaps)."""
    c = ctx()
    if not getattr(c, "unstable_sorts", False):
        return order
    o = list(order)
    for i in range(len(o) - 1):
        a, b = tosym(es[o[i]]), tosym(es[o[i + 1]])
        if a.k == FIN and b.k == FIN and bool(a == b):
            z = z3.Bool(c.fresh("tie"))
            if c.branch(z):
                o[i], o[i + 1] = o[i + 1], o[i]
    return o


@fn("sort")
def f_sort(a, axis=-1, **k):
    a = as_sym(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    b = np.moveaxis(a.base_arr(), axis, -1)
    out = np.empty(b.shape, dtype=object)
    for i in np.ndindex(b.shape[:-1]):
        row = list(b[i])
        for j, o in enumerate(_argsort1(row)):
            out[i + (j,)] = row[o]
    return mk(np.moveaxis(out, -1, axis), a.dtype)


@fn("sort_")
def f_sort_inplace(a, axis=-1, **k):
    a[...] = f_sort(a, axis)


@fn("unique")
def f_unique(ar, return_index=False, return_inverse=False, return_counts=False, axis=None, equal_nan=True, sorted=True):
    a = as_sym(ar).reshape(-1)
    es = list(a.base_arr())
    order = _argsort1(es)
    vals, first, counts = [], [], []
    inverse = np.zeros(len(es), dtype=np.int64)
    for o in order:
        e = es[o]
        if vals and not _lt(vals[-1], e):
            counts[-1] += 1
        else:
            vals.append(e)
            first.append(o)
            counts.append(1)
        inverse[o] = len(vals) - 1
    b = np.empty(len(vals), dtype=object)
    b[:] = vals
    out = [mk(b, a.dtype)]
    if return_index:
        out.append(np.array(first, dtype=np.int64))
    if return_inverse:
        out.append(inverse)
    if return_counts:
        out.append(np.array(counts, dtype=np.int64))
    return tuple(out) if len(out) > 1 else out[0]


def _argbest(a, axis, better, nanskip):
    a = as_sym(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    b = np.moveaxis(a.base_arr(), axis, -1)
    out = np.empty(b.shape[:-1], dtype=np.int64)
    for i in np.ndindex(b.shape[:-1]):
        best, bi = None, None
        for j, e in enumerate(b[i]):
            e = tosym(e)
            if e.k == NAN:
                if nanskip:
                    continue
                best, bi = e, j
                break
            if best is None or bool(better(e, best)):
                best, bi = e, j
        if bi is None:
            raise ValueError("attempt to get argmin of an empty sequence / All-NaN slice")
        out[i] = bi
    return out if out.ndim else np.int64(out[()])


@fn("argmax")
def f_argmax(a, axis=None, out=None, **k):
    return _argbest(a, axis, lambda e, b: e > b, False)


@fn("argmin")
def f_argmin(a, axis=None, out=None, **k):
    return _argbest(a, axis, lambda e, b: e < b, False)


@fn("nanargmax")
def f_nanargmax(a, axis=None, **k):
    return _argbest(a, axis, lambda e, b: e > b, True)


@fn("nanargmin")
def f_nanargmin(a, axis=None, **k):
    return _argbest(a, axis, lambda e, b: e < b, True)


@fn("searchsorted")
def f_searchsorted(a, v, side="left", sorter=None):
    a = as_sym(a)
    if sorter is not None:
        a = a[sorter]
    es = list(a.base_arr())
    vb, _ = lift(v)
    out = np.empty(vb.shape, dtype=np.int64)
    for i in np.ndindex(vb.shape):
        x = vb[i]
        lo, hi = 0, len(es)
        while lo < hi:
            mid = (lo + hi) // 2
            go_right = _lt(es[mid], x) if side == "left" else not _lt(x, es[mid])
            if go_right:
                lo = mid + 1
            else:
                hi = mid
        out[i] = lo
    return out if out.ndim else np.int64(out[()])


@fn("digitize")
def f_digitize(x, bins, right=False):
    return f_searchsorted(bins, x, side="left" if right else "right")


@fn("interp")
def f_interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported("interp period")
    xp, fp = as_sym(xp), as_sym(fp)
    xe, fe = list(xp.base_arr()), [tosym(e) for e in fp.base_arr()]
    xb, _ = lift(x)
    out = np.empty(xb.shape, dtype=object)
    for i in np.ndindex(xb.shape):
        e = tosym(xb[i])
        if e.k == NAN:
            out[i] = Sym(NAN, None, F64)
            continue
        if bool(e < xe[0]):
            out[i] = tosym(left) if left is not None else fe[0]
            continue
        if bool(e > xe[-1]):
            out[i] = tosym(right) if right is not None else fe[-1]
            continue
        j = int(f_searchsorted(xp, wrap0(e), side="right")) - 1
        if j >= len(xe) - 1:
            out[i] = fe[-1]
        else:
            out[i] = (fe[j + 1] - fe[j]) / (xe[j + 1] - xe[j]) * (e - xe[j]) + fe[j]
        out[i] = retag(out[i], F64)
    return scal(mk(out, F64))


@fn("diff")
def f_diff(a, n=1, axis=-1, prepend=np._NoValue, append=np._NoValue):
    a = as_sym(a)
    parts = []
    if not _nv(prepend):
        parts.append(np.atleast_1d(as_sym(prepend)))
    parts.append(a)
    if not _nv(append):
        parts.append(np.atleast_1d(as_sym(append)))
    if len(parts) > 1:
        a = np.concatenate(parts, axis=axis)
    for _ in range(n):
        s1 = [slice(None)] * a.ndim
        s2 = [slice(None)] * a.ndim
        s1[axis] = slice(1, None)
        s2[axis] = slice(None, -1)
        if a.dtype == BOOL:
            a = a[tuple(s1)] != a[tuple(s2)]
        else:
            a = a[tuple(s1)] - a[tuple(s2)]
    return a


@fn("ediff1d")
def f_ediff1d(ary, to_end=None, to_begin=None):
    return f_diff(as_sym(ary).reshape(-1))


@fn("trapezoid", "trapz")
def f_trapezoid(y, x=None, dx=1.0, axis=-1):
    if hasattr(y, "chunks") or hasattr(x, "chunks"):
        return np.trapezoid(y, x, dx, axis)
    y = as_sym(y)
    if x is None:
        d = dx
    else:
        x = as_sym(x)
        if x.ndim == 1:
            d = f_diff(x)
            shape = [1] * y.ndim
            shape[axis] = d.shape[0]
            d = d.reshape(shape)
        else:
            d = f_diff(x, axis=axis)
    s1 = [slice(None)] * y.ndim
    s2 = [slice(None)] * y.ndim
    s1[axis] = slice(1, None)
    s2[axis] = slice(None, -1)
    return f_sum(d * (y[tuple(s1)] + y[tuple(s2)]) / 2.0, axis)


@fn("nan_to_num")
def f_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    if hasattr(x, "chunks"):
        import dask.array as da
        return da.nan_to_num(x, copy=copy, nan=nan, posinf=posinf, neginf=neginf)
    a = as_sym(x)
    dt = a.dtype
    if dt.kind != "f":
        return a.copy() if copy else a
    info = np.finfo(dt)

    def f(e):
        if e.k == FIN:
            return e
        if e.k == NAN:
            return retag(tosym(nan), dt)
        if e.k == core.PINF:
            return retag(tosym(posinf if posinf is not None else float(info.max)), dt)
        return retag(tosym(neginf if neginf is not None else float(info.min)), dt)
    r = amap1(a, f, dt)
    if not copy and isinstance(x, SymArray):
        x[...] = r
        return x
    return scal(r) if np.ndim(x) == 0 else r


@fn("round", "around", "round_")
def f_round(a, decimals=0, out=None):
    a = as_sym(a)
    if decimals:
        sc = 10 ** decimals
        return scal(amap1(a, lambda e: retag(core.s_div(core._retype(core.s_rint(core.s_mul(tosym(e), Sym.const(sc))), None),
                                                        Sym.const(sc)), a.dtype), a.dtype))
    return scal(amap1(a, lambda e: retag(core.s_rint(tosym(e)), a.dtype), a.dtype))


@fn("dot", "inner", "vdot")
def f_dot(a, b, out=None):
    a, b = as_sym(a), as_sym(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if b.ndim == 1:
        return f_sum(a * b, -1)
    if a.ndim == 1 and b.ndim == 2:
        return f_sum(a.reshape(-1, 1) * b, 0)
    if a.ndim == 2 and b.ndim == 2:
        return f_sum(a.reshape(a.shape + (1,)) * b.reshape((1,) + b.shape), 1)
    raise Unsupported("dot of higher dimensions")


@fn("zeros_like")
def f_zeros_like(a, dtype=None, order="K", subok=True, shape=None, device=None):
    return full(a.shape if shape is None else shape, 0, dtype if dtype is not None else a.dtype)


@fn("ones_like")
def f_ones_like(a, dtype=None, order="K", subok=True, shape=None, device=None):
    return full(a.shape if shape is None else shape, 1, dtype if dtype is not None else a.dtype)


@fn("empty_like")
def f_empty_like(a, dtype=None, order="K", subok=True, shape=None, device=None):
    return full(a.shape if shape is None else shape, 0, dtype if dtype is not None else a.dtype)


@fn("full_like")
def f_full_like(a, fill_value, dtype=None, order="K", subok=True, shape=None, device=None):
    a_shape = np.shape(a)
    dt = dtype if dtype is not None else (a.dtype if hasattr(a, "dtype") else np.asarray(a).dtype)
    return full(a_shape if shape is None else shape, fill_value, dt)


def full(shape, v, dt):
    dt = np.dtype(dt) if dt is not None else F64
    if dt.kind not in "fiub":
        return np.full(shape, v, dt)
    if not isinstance(shape, (tuple, list)):
        shape = (int(shape),)
    shape = tuple(int(s) for s in shape)
    e = _store(v if isinstance(v, (Sym, SymBool, bool)) else v, dt)
    b = np.empty(shape, dtype=object)
    for i in np.ndindex(shape):
        b[i] = e
    return mk(b, dt)


@fn("linspace")
def f_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0, device=None):
    num = int(num)
    start, stop = tosym(scal(start)), tosym(scal(stop))
    div = num - 1 if endpoint else num
    step = core.s_div(core.s_sub(stop, start), Sym.const(div)) if div > 0 else Sym(NAN)
    b = np.empty(num, dtype=object)
    dt = np.dtype(dtype) if dtype is not None else F64
    for i in range(num):
        e = core.s_add(start, core.s_mul(Sym.const(i), step)) if div > 0 else start
        if endpoint and num > 1 and i == num - 1:
            e = stop
        b[i] = retag(Sym(e.k, e.r, F64), dt)
    r = mk(b, dt)
    return (r, step) if retstep else r


@fn("arange")
def f_arange(start, stop=None, step=1, dtype=None, **k):
    if stop is None:
        start, stop = 0, start
    start, stop, step = tosym(start), tosym(stop), tosym(step)
    n = concretize_int(core._retype(core.s_ceil(core.s_div(core.s_sub(stop, start), step)), I64))
    n = max(n, 0)
    b = np.empty(n, dtype=object)
    dt = np.dtype(dtype) if dtype is not None else F64
    for i in range(n):
        b[i] = retag(core.s_add(start, core.s_mul(Sym.const(i), step)), dt)
    return mk(b, dt)


@fn("repeat")
def f_repeat(a, repeats, axis=None):
    a = as_sym(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    n = a.shape[axis]
    if isinstance(repeats, (SymArray,)) or np.ndim(repeats):
        rb, _ = lift(repeats)
        rb = np.broadcast_to(rb.reshape(-1), (n,))
        reps = [int(bool(r)) if isinstance(r, (bool, np.bool_, SymBool)) else concretize_int(r) for r in rb]
    else:
        reps = int(repeats)
    return mk(np.repeat(a.base_arr(), reps, axis=axis), a._sdt)


@fn("isclose")
def f_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    a, b = as_sym(a), as_sym(b)
    r = np.abs(a - b) <= (atol + rtol * np.abs(b))
    if equal_nan:
        r = r | (np.isnan(a) & np.isnan(b))
    return r


@fn("allclose")
def f_allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return bool(FUNCS["all"](as_sym(f_isclose(a, b, rtol, atol, equal_nan))))


@fn("array_equal")
def f_array_equal(a1, a2, equal_nan=False):
    a1, a2 = as_sym(a1), as_sym(a2)
    if a1.shape != a2.shape:
        return False
    return bool(FUNCS["all"](as_sym(a1 == a2)))


@fn("take")
def f_take(a, indices, axis=None, out=None, mode="raise"):
    a = as_sym(a)
    if mode == "clip":
        n = (a.size if axis is None else a.shape[axis])
        indices = f_clip(as_sym(indices), 0, n - 1)
    if axis is None:
        return a.reshape(-1)[indices]
    idx = [slice(None)] * a.ndim
    idx[axis] = indices
    return a[tuple(idx)]


@fn("take_along_axis")
def f_taa(arr, indices, axis=-1):
    a = as_sym(arr)
    idx = fix_index(indices)
    return mk(np.take_along_axis(a.base_arr(), idx, axis), a._sdt)


@fn("putmask")
def f_putmask(a, mask, values):
    a[mask] = values[mask] if np.ndim(values) else values


@fn("copyto")
def f_copyto(dst, src, casting="same_kind", where=True):
    if where is True:
        dst[...] = src
    else:
        m = _fix1(as_sym(where)) if has_sym(where) else np.asarray(where)
        m = np.broadcast_to(m, dst.shape)
        src = as_sym(src)
        dst[m] = src if src.ndim == 0 else np.broadcast_to(src.base_arr(), dst.shape)[m]


@fn("place")
def f_place(arr, mask, vals):
    arr[mask] = vals


@fn("piecewise")
def f_piecewise(x, condlist, funclist, *a, **k):
    y = f_zeros_like(x)
    for c, f in zip(condlist, funclist):
        m = _fix1(as_sym(c))
        y[m] = f(x[m], *a, **k) if callable(f) else f
    return y


@fn("shape")
def f_shape(a):
    return a.shape


@fn("size")
def f_size(a, axis=None):
    return a.size if axis is None else a.shape[axis]


@fn("ndim")
def f_ndim(a):
    return a.ndim


@fn("copy")
def f_copy(a, order="K", subok=False):
    return a.copy()


@fn("isscalar")
def f_isscalar(a):
    return isinstance(a, (Sym, SymBool))


@fn("result_type")
def f_result_type(*a):
    return np.result_type(*[(e.dt if e.dt is not None else 1.0) if isinstance(e, Sym) else
                            (np.ones((1,) * max(1, e.ndim), e.dtype) if isinstance(e, SymArray) else e) for e in a])


@fn("can_cast")
def f_can_cast(from_, to, casting="safe"):
    return np.can_cast(from_.dtype, to, casting)


@fn("iscomplexobj", "iscomplex")
def f_iscomplex(a):
    return False


@fn("isreal", "isrealobj")
def f_isreal(a):
    return True


@fn("fabs")
def f_fabs(a):
    return np.abs(a)


@fn("array_repr", "array_str", "array2string")
def f_repr(a, *args, **k):
    return repr(a)


@fn("gradient")
def f_gradient(f, *varargs, axis=None, edge_order=1):
    f = as_sym(f)
    if f.ndim != 1 or edge_order != 1:
        raise Unsupported("gradient")
    n = f.shape[0]
    x = as_sym(varargs[0]) if varargs and np.ndim(varargs[0]) else None
    h = varargs[0] if varargs and x is None else 1.0
    out = np.empty(n, dtype=object)
    fe = f.base_arr()
    for i in range(n):
        a, b = max(i - 1, 0), min(i + 1, n - 1)
        if x is None:
            out[i] = (fe[b] - fe[a]) / (h * (b - a))
        elif i in (0, n - 1):
            out[i] = (fe[b] - fe[a]) / (x[b] - x[a])
        else:
            hs, hd = x[i] - x[i - 1], x[i + 1] - x[i]
            out[i] = (hs * hs * fe[i + 1] + (hd * hd - hs * hs) * fe[i] - hd * hd * fe[i - 1]) / (hs * hd * (hs + hd))
    return mk(out, F64)


@fn("percentile", "quantile", "median", "nanmedian", "histogram", "correlate", "convolve", "polyfit", "einsum")
def f_unsup(*a, **k):
    raise Unsupported("numpy function without symbolic meaning")


@fn("polyval")
def f_polyval(p, x):
    y = x * 0
    for c in p:
        y = y * x + c
    return y


@fn("nanprod", "nanstd")
def f_unsup2(*a, **k):
    raise Unsupported("numpy function without symbolic meaning")


# functions that only move elements around: numpy's own implementation on object arrays
SHAPE_ONLY = {"reshape", "ravel", "transpose", "squeeze", "expand_dims", "swapaxes", "moveaxis", "rollaxis", "flip", "fliplr",
              "flipud", "roll", "rot90", "broadcast_to", "broadcast_arrays", "atleast_1d", "atleast_2d", "atleast_3d",
              "tile", "split", "array_split", "hsplit", "vsplit", "dsplit", "diag", "diagonal", "tril", "triu",
              "resize", "matrix_transpose", "permute_dims", "unstack", "trim_zeros", "meshgrid", "delete", "insert",
              "concatenate", "concat", "stack", "vstack", "hstack", "dstack", "column_stack", "row_stack", "append",
              "block", "pad", "partition", "may_share_memory", "shares_memory", "ix_", "ndindex", "may_share_memory"}


def function_entry(func, types, args, kwargs):
    for t in types:
        if getattr(t, "__module__", "").startswith(("dask", "xarray")) or t.__name__ == "SymMasked":
            return NotImplemented
    name = func.__name__
    if name in SHAPE_ONLY:
        return shape_only(func, name, args, kwargs)
    h = FUNCS.get(name)
    if h is None:
        raise Unsupported("numpy function %s" % name)
    return h(*args, **kwargs)


def _strip(x, dts):
    if isinstance(x, (Sym, SymBool)):
        x = wrap0(x)
    if isinstance(x, SymArray):
        dts.append(x.dtype)
        return x.base_arr()
    if isinstance(x, list):
        return [_strip(e, dts) for e in x]
    if isinstance(x, tuple):
        return tuple(_strip(e, dts) for e in x)
    return x


JOIN = {"concatenate", "concat", "stack", "vstack", "hstack", "dstack", "column_stack", "row_stack", "append", "block",
        "insert"}


def shape_only(func, name, args, kwargs):
    dts = []
    if name in JOIN:
        first = args[0] if args else kwargs.pop("arrays", kwargs.pop("tup", None))
        if name in ("append", "insert"):
            arrs = [as_sym(args[0]), as_sym(args[-1])]
        else:
            arrs = [as_sym(e) if not isinstance(e, list) else as_sym(e) for e in first]
        dt = kwargs.pop("dtype", None)
        kwargs.pop("casting", None)
        dt = np.dtype(dt) if dt is not None else np.result_type(*[a.dtype for a in arrs])
        arrs = [a.astype(dt) if a.dtype != dt else a for a in arrs]
        raw = [a.base_arr() for a in arrs]
        if name == "append":
            r = func(raw[0], raw[1], *args[2:], **kwargs)
        elif name == "insert":
            r = func(raw[0], args[1], raw[1], **kwargs)
        else:
            r = func(raw, *args[1:], **kwargs)
        return mk(r, dt)
    a2 = tuple(_strip(a, dts) for a in args)
    k2 = {k: _strip(v, dts) for k, v in kwargs.items()}
    r = func(*a2, **k2)
    dt = dts[0] if len(set(dts)) == 1 else None

    def back(r):
        if isinstance(r, np.ndarray) and r.dtype == object:
            return mk(r, dt)
        if isinstance(r, list):
            return [back(e) for e in r]
        if isinstance(r, tuple):
            return tuple(back(e) for e in r)
        return r
    return back(r)
