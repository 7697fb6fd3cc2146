"""Import pyspectral from the working tree for symbolic execution.

The source of every module is compiled from /repo on each run.  The modules see
their own builtins (int, float, __import__ ...) and thin proxies of numpy, dask,
h5py and scipy so that symbolic values reach the real code unharmed.  A few
purely syntactic rewrites are made: `X.type` becomes a call that can build
symbolic scalars, dict and set displays become dicts and sets that accept
symbolic keys, and string formatting (f-strings, join, format, %) goes
through helpers that keep symbolic strings.
"""
from __future__ import annotations

import ast
import builtins
import functools
import importlib.abc
import importlib.machinery
import importlib.util
import logging
import math
import numbers
import os
import re
import sys
import types

import numpy as np

from sx import arr, core, strs
from sx.arr import SymArray, as_sym, has_sym
from sx.core import I64, Sym, SymBool, Unsupported, ctx

REPO = os.environ.get("SX_REPO", "/repo")
numbers.Real.register(Sym)


# -- scalar types ---------------------------------------------------------------
def _scalar(x):
    if isinstance(x, SymArray) and x.size == 1:
        return x.base_arr().reshape(-1)[0]
    return x


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, Sym):
            return x.dt is None or x.dt == core.F64
        return isinstance(x, float)

    def __subclasscheck__(cls, c):
        return issubclass(c, float)


class sx_float(float, metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        x = _scalar(x)
        if isinstance(x, SymBool):
            x = x._num()
        if isinstance(x, Sym):
            return Sym(x.k, x.r, None)
        if isinstance(x, str) and x in getattr(core._Ctx.cur, "strs", {}):
            return core._Ctx.cur.strs[x]
        return float(x)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, Sym):
            return x.dt == I64
        return isinstance(x, int)

    def __subclasscheck__(cls, c):
        return issubclass(c, int)


class sx_int(int, metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        x = _scalar(x)
        if isinstance(x, SymBool):
            return x._num()
        if isinstance(x, Sym):
            return core._retype(core.s_trunc(x), I64)
        return int(x, *a)


sx_float.__name__ = "float"
sx_int.__name__ = "int"


class _NpMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, Sym):
            return x.dt == cls._dt
        return isinstance(x, cls.__mro__[1])

    def __subclasscheck__(cls, c):
        return issubclass(c, cls.__mro__[1])

    def __eq__(cls, o):
        return cls is o or o is cls.__mro__[1]

    def __hash__(cls):
        return hash(cls.__mro__[1])


_np_types = {}


def np_type(t):
    """A numpy scalar type that also accepts symbolic numbers."""
    if t in _np_types:
        return _np_types[t]
    if not (isinstance(t, type) and issubclass(t, np.generic)) or issubclass(t, np.character) or t in (
            np.generic, np.number, np.floating, np.integer, np.inexact, np.object_, np.void, np.bool_):
        return t
    if isinstance(type(t), type) and isinstance(t, _NpMeta):
        return t
    dt = np.dtype(t)
    if dt.kind not in "fiu":
        return t

    def new(cls, x=0, *a):
        if isinstance(x, (Sym, SymBool)):
            return core.cast(x, dt)
        if isinstance(x, SymArray):
            return arr.scal(x.astype(dt))
        if isinstance(x, (list, tuple)) and has_sym(x):
            return as_sym(x, dt)
        return t(x, *a)
    cls = _NpMeta(t.__name__, (t,), {"__new__": new, "_dt": dt})
    _np_types[t] = cls
    return cls


def sx_type(x):
    """The value of `x.type`."""
    t = x.type
    return np_type(t) if isinstance(x, np.dtype) else t


# -- dicts and sets with symbolic keys ---------------------------------------------
def _symkey(k):
    if isinstance(k, tuple):
        return any(_symkey(x) for x in k)
    if isinstance(k, Sym):
        return not k.is_const()
    return getattr(k, "_sx_symbolic", False)


def _maybe(k, c):
    """Can these keys be equal?"""
    if isinstance(k, tuple):
        return isinstance(c, tuple) and len(k) == len(c) and all(_maybe(x, y) for x, y in zip(k, c))
    if isinstance(k, str) or isinstance(c, str):
        return isinstance(k, str) and isinstance(c, str)
    if isinstance(c, tuple) or k is None or c is None:
        return k is c
    return type(c) is type(k) or _symkey(k) or _symkey(c)


def _find(keys, k):
    """The key that equals k: one fork per candidate."""
    for c in keys:
        if c is k or (_maybe(k, c) and bool(k == c)):
            return c
    return _MISSING


class _Hashing:
    def __enter__(self):
        core.hashing[0] += 1

    def __exit__(self, *a):
        core.hashing[0] -= 1


_hashable = _Hashing()


class SymDict(dict):
    """A dict whose lookups accept symbolic keys (they fork on equality with each key)."""

    __slots__ = ("_sym",)

    def _slow(self, k):
        return getattr(self, "_sym", False) or _symkey(k)

    def _key(self, k):
        return _find(list(dict.keys(self)), k)

    def __getitem__(self, k):
        if self._slow(k):
            c = self._key(k)
            if c is _MISSING:
                raise KeyError(k)
            with _hashable:
                return dict.__getitem__(self, c)
        return dict.__getitem__(self, k)

    def get(self, k, d=None):
        if self._slow(k):
            c = self._key(k)
            with _hashable:
                return d if c is _MISSING else dict.__getitem__(self, c)
        return dict.get(self, k, d)

    def __contains__(self, k):
        if self._slow(k):
            return self._key(k) is not _MISSING
        return dict.__contains__(self, k)

    def __setitem__(self, k, v):
        if self._slow(k):
            c = self._key(k)
            if c is not _MISSING:
                k = c
            elif isinstance(k, str) and _symkey(k):
                k = k.concretize()
            elif _symkey(k):
                self._sym = True
            with _hashable:
                dict.__setitem__(self, k, v)
        else:
            dict.__setitem__(self, k, v)

    def __delitem__(self, k):
        if self._slow(k):
            c = self._key(k)
            if c is _MISSING:
                raise KeyError(k)
            with _hashable:
                dict.__delitem__(self, c)
        else:
            dict.__delitem__(self, k)

    def pop(self, k, *d):
        if self._slow(k):
            c = self._key(k)
            if c is _MISSING:
                if d:
                    return d[0]
                raise KeyError(k)
            with _hashable:
                return dict.pop(self, c)
        return dict.pop(self, k, *d)

    def setdefault(self, k, d=None):
        if k in self:
            return self[k]
        self[k] = d
        return d

    def copy(self):
        with _hashable:
            r = SymDict(self)
        if getattr(self, "_sym", False):
            r._sym = True
        return r


_MISSING = object()


class SymSet(set):
    def __contains__(self, k):
        keys = list(set.__iter__(self))
        if _symkey(k) or any(_symkey(c) for c in keys):
            return _find(keys, k) is not _MISSING
        return set.__contains__(self, k)

    def add(self, k):
        if _symkey(k):
            if k in self:
                return
            with _hashable:
                set.add(self, k)
        else:
            if k not in self:
                set.add(self, k)


class SymFrozenSet(frozenset):
    def __contains__(self, k):
        if _symkey(k):
            return any(bool(k == c) for c in self)
        return frozenset.__contains__(self, k)


# -- functools.lru_cache ------------------------------------------------------------
def sx_lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return _lru(maxsize, 128, typed)
    return lambda f: _lru(f, maxsize, typed)


def sx_cache(f):
    return _lru(f, None, False)


def _lru(f, maxsize, typed):
    store = SymDict()

    def key(a, k):
        out = tuple(a) + (("__kw__",) + tuple(x for n in k.items() for x in n) if k else ())
        if typed:
            out += tuple(type(x) for x in a) + tuple(type(x) for x in k.values())
        with _hashable:
            hash(out)
        return out

    @functools.wraps(f)
    def call(*a, **k):
        n = key(a, k)
        if n in store:
            v = store.pop(n)
        else:
            v = f(*a, **k)
            if maxsize == 0:
                return v
            if maxsize is not None and len(store) >= maxsize:
                with _hashable:
                    dict.pop(store, next(iter(store)))
        store[n] = v
        return v
    call.cache_clear = lambda: dict.clear(store)
    call.cache_parameters = lambda: {"maxsize": maxsize, "typed": typed}
    call.__wrapped__ = f
    return call


class _DictMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, dict) if cls is sx_dict else type.__instancecheck__(cls, x)

    def __subclasscheck__(cls, c):
        return issubclass(c, dict) if cls is sx_dict else type.__subclasscheck__(cls, c)


class sx_dict(SymDict, metaclass=_DictMeta):
    """The name `dict` inside the code under test."""


sx_dict.__name__ = "dict"


class _Rewrite(ast.NodeTransformer):
    def visit_Attribute(self, n):
        self.generic_visit(n)
        if n.attr == "type" and isinstance(n.ctx, ast.Load):
            return ast.copy_location(ast.Call(ast.copy_location(ast.Name("__sx_type__", ast.Load()), n), [n.value], []), n)
        return n

    def _wrap(self, n, name):
        self.generic_visit(n)
        return ast.copy_location(ast.Call(ast.copy_location(ast.Name(name, ast.Load()), n), [n], []), n)

    def visit_Dict(self, n):
        return self._wrap(n, "__sx_dict__")

    def visit_DictComp(self, n):
        return self._wrap(n, "__sx_dict__")

    def visit_Set(self, n):
        return self._wrap(n, "__sx_set__")

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                val = self.visit(v.value)
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant("")
                parts.append(ast.Tuple([val, ast.Constant(v.conversion), spec], ast.Load()))
            else:
                parts.append(v)
        return ast.copy_location(ast.Call(ast.Name("__sx_fstr__", ast.Load()), parts, []), n)

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("join", "format"):
            name = "__sx_%s__" % n.func.attr
            return ast.copy_location(ast.Call(ast.copy_location(ast.Name(name, ast.Load()), n), [n.func.value] + n.args,
                                              n.keywords), n)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(ast.Call(ast.copy_location(ast.Name("__sx_mod__", ast.Load()), n),
                                              [n.left, n.right], []), n)
        return n

    def visit_Subscript(self, n):
        # a concrete array indexed with symbolic masks or positions: numpy would refuse the index object
        self.generic_visit(n)
        if isinstance(n.slice, ast.Constant):
            return n
        if isinstance(n.ctx, ast.Load):
            return ast.copy_location(ast.Call(ast.copy_location(ast.Name("__sx_get__", ast.Load()), n), [n.value, _slice_expr(n.slice)], []), n)
        n.slice = ast.copy_location(ast.Call(ast.copy_location(ast.Name("__sx_sub__", ast.Load()), n), [_slice_expr(n.slice)], []), n)
        return n

    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        return n

    def visit_arguments(self, n):
        n.defaults = [self.visit(d) for d in n.defaults]
        n.kw_defaults = [self.visit(d) if d is not None else None for d in n.kw_defaults]
        return n


def _slice_expr(s):
    if isinstance(s, ast.Slice):
        none = ast.Constant(None)
        return ast.Call(ast.Name("__sx_slice__", ast.Load()), [s.lower or none, s.upper or none, s.step or none], [])
    if isinstance(s, ast.Tuple):
        return ast.Tuple([_slice_expr(e) for e in s.elts], ast.Load())
    return s


def _sym_index(i):
    if isinstance(i, tuple):
        return any(_sym_index(e) for e in i)
    return isinstance(i, SymArray) or type(i).__name__ == "SymMasked" or (isinstance(i, list) and has_sym(i))


def sx_get(a, i):
    if type(a) is np.ndarray and _sym_index(i):
        from sx import masked
        i = masked._unmask_index(i)
        if a.dtype.kind in "biuf" and not isinstance(i, tuple) and getattr(i, "dtype", None) is not None and i.dtype.kind in "iu":
            return as_sym(a)[i]
        return a[arr.fix_index(i)]
    return a[i]


def sx_sub(i):
    if _sym_index(i):
        from sx import masked
        return arr.fix_index(masked._unmask_index(i))
    return i


def _sx_mkdict(d):
    return SymDict(d)


# -- numpy proxy --------------------------------------------------------------------
class Proxy(types.ModuleType):
    def __init__(self, real, over=None):
        super().__init__(real.__name__)
        self.__dict__["_real"] = real
        self.__dict__.update(over or {})

    def __getattr__(self, n):
        v = getattr(self.__dict__["_real"], n)
        if isinstance(v, type) and issubclass(v, np.generic):
            return np_type(v)
        return v

    def __dir__(self):
        return dir(self._real)


def _mkcreate(name, val):
    real = getattr(np, name)

    def f(shape, *a, **k):
        if name == "full":
            v, rest = a[0], a[1:]
        else:
            v, rest = val, a
        dtype = k.get("dtype", rest[0] if rest else None)
        if core._Ctx.cur is None:
            return real(shape, *a, **k)
        if isinstance(shape, Sym) or (isinstance(shape, (tuple, list)) and has_sym(shape)):
            shape = tuple(int(s) for s in shape) if isinstance(shape, (tuple, list)) else int(shape)
        if dtype is None:
            if name != "full":
                dtype = np.float64
            elif isinstance(v, Sym):
                dtype = v.dtype
            elif isinstance(v, SymArray):
                dtype = v.dtype
            else:
                dtype = np.asarray(v).dtype
        dt = np.dtype(dtype)
        n = math.prod(shape) if isinstance(shape, (tuple, list)) else int(shape)
        if dt.kind not in "fiub" or n > 4096:
            return real(shape, *a, **k)
        if isinstance(v, SymArray) and v.ndim:
            r = arr.full(shape, 0, dt)
            r[...] = v
            return r
        return arr.full(shape, v[()] if isinstance(v, SymArray) else v, dt)
    f.__name__ = name
    return f


def _np_array(real):
    def f(x, dtype=None, *a, **k):
        if isinstance(x, np.ma.MaskedArray) or type(x).__name__ == "SymMasked":
            if real is np.asanyarray:
                return x
            x = x.data
        if isinstance(x, FakeDataset):
            x = x.data.copy()
        if has_sym(x):
            cp = k.get("copy", real is np.array)
            r = as_sym(x, dtype)
            nd = k.get("ndmin", 0)
            if cp and isinstance(x, SymArray) and r is x:
                r = r.copy()
            while r.ndim < nd:
                r = r[None]
            return r
        if hasattr(x, "dask") and hasattr(x, "compute"):
            return f(x.compute(), dtype, *a, **k)
        return real(x, dtype, *a, **k)
    f.__name__ = real.__name__
    return f


def _any_sym_call(real, h):
    def f(*a, **k):
        if any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
            return h(*a, **k)
        return real(*a, **k)
    f.__name__ = real.__name__
    return f


class _R:
    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        if not any(has_sym(k) for k in key):
            return np.r_[key]
        parts = []
        for k in key:
            if isinstance(k, slice):
                parts.append(as_sym(np.r_[k]))
            elif isinstance(k, str):
                raise Unsupported("np.r_ directive")
            else:
                parts.append(np.atleast_1d(as_sym(k)))
        return np.concatenate(parts)


class _C:
    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        return np.stack([as_sym(k) for k in key], axis=-1)


def np_over():
    o = {n: _mkcreate(n, v) for n, v in (("zeros", 0), ("ones", 1), ("empty", 0), ("full", None))}
    for n in ("array", "asarray", "asanyarray", "ascontiguousarray", "asfarray"):
        if hasattr(np, n):
            o[n] = _np_array(getattr(np, n))
    o["r_"] = _R()
    o["c_"] = _C()
    for n, h in arr.FUNCS.items():
        if hasattr(np, n) and callable(getattr(np, n)) and not isinstance(getattr(np, n), np.ufunc) and n not in (
                "min", "max", "shape", "size", "ndim"):
            o[n] = _any_sym_call(getattr(np, n), h)
    o["isscalar"] = lambda x: True if isinstance(x, (Sym, SymBool)) else np.isscalar(x)
    o["ndim"] = lambda a: a.ndim if hasattr(a, "ndim") else np.ndim(a)
    o["float_"] = np_type(np.float64)

    def vectorize(pyfunc=None, *a, **k):
        def call(*args):
            if not has_sym(list(args)):
                return np.vectorize(pyfunc, *a, **k)(*args)
            bs = np.broadcast_arrays(*[arr.lift(x)[0] for x in args])
            out = np.empty(bs[0].shape, dtype=object)
            for i in np.ndindex(out.shape):
                out[i] = pyfunc(*[b[i] for b in bs])
            return arr.scal(arr.mk(out))
        return call
    o["vectorize"] = vectorize
    o["savez"] = _savez(np.savez)
    o["savez_compressed"] = _savez(np.savez_compressed)
    o["load"] = _npload
    for n in ("genfromtxt", "loadtxt"):
        o[n] = _textreader(getattr(np, n))
    from sx import masked
    o["ma"] = masked.MaProxy()
    return o


class FakeNpz:
    """numpy .npz archives holding symbolic arrays; plain arrays go to the real file."""

    files = {}

    def __init__(self, d):
        self.d = d
        self.files = list(d)

    def __getitem__(self, k):
        return self.d[k].copy()

    def __contains__(self, k):
        return k in self.d

    def keys(self):
        return list(self.d)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *e):
        pass


_npz = {}


def _store(table, file, mark, value):
    """Keep value under a token that is the content of the real file, so that copies, links and renamed files stand for it."""
    tok = b"%s:%d:" % (mark, len(table))
    table[tok] = value
    if isinstance(file, (str, os.PathLike)):
        with open(file, "wb") as f:
            f.write(tok)
    else:
        file.write(tok)


def _fetch(table, file, mark):
    """What was stored in the file, or None."""
    if isinstance(file, (str, os.PathLike)):
        with open(file, "rb") as f:
            head = f.read(64)
    elif hasattr(file, "read") and hasattr(file, "seek"):
        pos = file.tell()
        head = file.read(64)
        file.seek(pos)
    else:
        return None
    return table.get(head) if isinstance(head, bytes) and head.startswith(mark) else None


def _savez(real):
    def f(file, *a, **k):
        if any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
            if isinstance(file, (str, os.PathLike)):
                file = os.fspath(file)
                if not file.endswith(".npz"):
                    file += ".npz"
            d = {"arr_%d" % i: as_sym(x).copy() for i, x in enumerate(a)}
            d.update({n: as_sym(x).copy() for n, x in k.items()})
            _store(_npz, file, b"SXNPZ", d)
            return
        return real(file, *a, **k)
    return f


def _npload(file, *a, **k):
    d = _fetch(_npz, file, b"SXNPZ")
    if d is not None:
        return FakeNpz(d)
    return np.load(file, *a, **k)


# -- text files -------------------------------------------------------------------------
MARK = 16000000


class SymRec:
    """A one-dimensional structured array with symbolic fields."""

    def __init__(self, d):
        self.d = d
        self.shape = next(iter(d.values())).shape
        self.size = len(self)
        self.ndim = 1
        self.dtype = self
        self.names = tuple(d)

    def __len__(self):
        return self.shape[0]

    def __getitem__(self, k):
        if isinstance(k, str):
            return self.d[k]
        if isinstance(k, list) and all(isinstance(x, str) for x in k):
            return SymRec({x: self.d[x] for x in k})
        if isinstance(k, (int, np.integer)):
            return SymRow({n: v[k] for n, v in self.d.items()})
        return SymRec({n: v[k] for n, v in self.d.items()})

    def __iter__(self):
        return iter([self[i] for i in range(len(self))])

    def copy(self):
        return SymRec({n: v.copy() for n, v in self.d.items()})


class SymRow(SymRec):
    def __init__(self, d):
        self.d = d
        self.shape, self.size, self.ndim, self.dtype, self.names = (), 1, 0, self, tuple(d)

    def __len__(self):
        return len(self.d)

    def __getitem__(self, k):
        return self.d[k] if isinstance(k, str) else list(self.d.values())[k]

    def __iter__(self):
        return iter(self.d.values())


def _textreader(real):
    """Numbers read from a text with symbolic ones in it: the real reader runs on the text with a marker in each place."""
    def f(fname, *a, **k):
        if isinstance(fname, (str, os.PathLike)):
            try:
                with open(fname, encoding="utf-8") as fp:
                    lines = fp.readlines()
            except (OSError, UnicodeDecodeError):
                return real(fname, *a, **k)
        elif hasattr(fname, "read") or isinstance(fname, (list, tuple)) or hasattr(fname, "__next__"):
            lines = [x.decode("utf-8") if isinstance(x, bytes) else x for x in fname]
            fname = lines
        else:
            return real(fname, *a, **k)
        if not any("\ue000" in ln for ln in lines):
            return real(fname, *a, **k)
        syms = []

        def sub(m):
            syms.append(core.ctx().strs[m.group(0)])
            return "%d.0" % (MARK + len(syms) - 1)
        lines = [re.sub("\ue000n\\d+\ue001", sub, ln) for ln in lines]
        if any("\ue000" in ln for ln in lines):
            raise Unsupported("text with symbolic strings")
        if k.get("converters"):
            raise Unsupported("converters for a text with symbolic numbers")
        unpack = k.get("unpack", False)
        res = real(lines, *a, **k)

        def back(x):
            x = np.asarray(x)
            if x.dtype.kind not in "fc":
                return x
            if not np.any((x >= MARK) & (x < MARK + len(syms))):
                return x
            dt = x.dtype
            out = np.empty(x.shape, dtype=object)
            for i in np.ndindex(x.shape):
                v = x[i]
                out[i] = core.cast(syms[int(v) - MARK], dt) if MARK <= v < MARK + len(syms) else arr.tosym(v)
            return arr.mk(out, dt)

        def whole(x):
            if isinstance(x, np.ndarray) and x.dtype.names:
                if x.ndim == 0:
                    return SymRow({n: back(x[n]) for n in x.dtype.names})
                return SymRec({n: back(x[n]) for n in x.dtype.names})
            return back(x)
        if isinstance(res, (list, tuple)):
            return [whole(x) for x in res]
        return whole(res)
    return f


# -- dask proxy -----------------------------------------------------------------------
_n_dask = [0]


def da_from(x, chunks="auto"):
    import dask.array as da
    _n_dask[0] += 1
    if isinstance(chunks, str) or chunks is None:
        chunks = x.shape
    return da.from_array(x, chunks=chunks, name="sym%d" % _n_dask[0],
                         meta=np.empty((0,) * x.ndim, dtype=x.dtype))


def da_over():
    import dask.array as da

    def conv(real):
        def f(x, *a, **k):
            if type(x).__name__ == "SymMasked":
                r = da_from(x, k.get("chunks", "auto"))
                return r
            if has_sym(x):
                return da_from(as_sym(x, k.get("dtype")), k.get("chunks", "auto"))
            return real(x, *a, **k)
        return f
    o = {n: conv(getattr(da, n)) for n in ("asarray", "asanyarray", "from_array", "array")}

    def wrap(name):
        real = getattr(da, name)

        def f(*a, **k):
            a = tuple(da_from(x) if isinstance(x, SymArray) else da_from(as_sym(x)) if isinstance(x, Sym) else x
                      for x in a)
            return real(*a, **k)
        return f
    for n in ("where", "logical_or", "logical_and", "clip", "greater", "less", "divide", "isnan", "nan_to_num", "abs",
              "exp", "multiply", "add", "subtract", "maximum", "minimum", "ravel", "reshape", "zeros_like", "isfinite"):
        o[n] = wrap(n)
    # planck() divides with the array module chosen by type(temperature): a symbolic
    # python scalar takes the dask branch as a real float does
    return o


def _setup_dask():
    import dask
    from dask.array.chunk_types import register_chunk_type
    dask.config.set(scheduler="synchronous")
    for t in (Sym, SymBool, SymArray):
        register_chunk_type(t)
    from dask.tokenize import normalize_token
    normalize_token.register(SymArray, lambda x: x.__dask_tokenize__())


# -- scipy / geotiepoints / h5py ---------------------------------------------------------
def trapezoid(y, x=None, dx=1.0, axis=-1):
    if has_sym(y) or has_sym(x):
        return arr.f_trapezoid(y, x, dx, axis)
    if hasattr(y, "dask"):
        import scipy.integrate
        if has_sym(x) or getattr(y, "_sx", True):
            return _dask_trapezoid(y, x, dx, axis)
        return scipy.integrate.trapezoid(y, x, dx, axis)
    import scipy.integrate
    return scipy.integrate.trapezoid(y, x, dx, axis)


def _dask_trapezoid(y, x, dx, axis):
    if x is None:
        d = dx
    else:
        x = as_sym(x) if not hasattr(x, "dask") else x
        d = np.diff(x)
        shape = [1] * y.ndim
        shape[axis] = d.shape[0]
        d = d.reshape(shape)
    s1 = [slice(None)] * y.ndim
    s2 = [slice(None)] * y.ndim
    s1[axis] = slice(1, None)
    s2[axis] = slice(None, -1)
    if isinstance(d, SymArray):
        d = da_from(d)
    return (d * (y[tuple(s1)] + y[tuple(s2)]) / 2.0).sum(axis)


def simpson(*a, **k):
    if any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values()):
        raise Unsupported("simpson")
    import scipy.integrate
    return scipy.integrate.simpson(*a, **k)


class Spline:
    """Contract of InterpolatedUnivariateSpline: a function of (knots, values, k, abscissa) that passes through the
    knots, is linear when k=1, and is invariant under nothing else: every other value is unconstrained."""

    def __init__(self, x, y, w=None, bbox=(None, None), k=3, ext=0, check_finite=False):
        self.x, self.y, self.k = as_sym(x), as_sym(y), k
        xe = list(self.x.base_arr())
        for a, b in zip(xe[:-1], xe[1:]):
            if not bool(a < b):
                raise ValueError("x must be strictly increasing")
        if len(xe) <= k:
            raise ValueError("x and y should have a length of at least k+1")
        if self.x.shape != self.y.shape:
            raise ValueError("x and y should have a same length")

        self.basis = None
        if all(e.is_const() for e in xe):          # concrete knots: the spline is linear in the values
            from scipy.interpolate import InterpolatedUnivariateSpline as S
            kn = np.array([e.pyvalue() for e in xe], dtype=float)
            ye = [arr.tosym(e) for e in self.y.base_arr()]
            if all(e.k == core.FIN and e.is_const() for e in ye):
                sp = S(kn, np.array([e.pyvalue() for e in ye], dtype=float), k=k, ext=ext)
                self.basis = lambda v: sp(v)
            elif len(ye) <= 40 and all(e.k == core.FIN for e in ye):
                sps = [S(kn, row, k=k, ext=ext) for row in np.eye(len(ye))]

                def basis(v):
                    ws = [sp_(v) for sp_ in sps]
                    out = np.empty(len(v), dtype=object)
                    for j in range(len(v)):
                        acc = None
                        for w, e in zip(ws, ye):
                            if abs(w[j]) < 1e-14:
                                continue
                            t = e * float(w[j])
                            acc = t if acc is None else acc + t
                        out[j] = arr.retag(acc if acc is not None else Sym.const(0.0), core.F64)
                    return arr.mk(out, core.F64)
                self.basis = basis

    def __call__(self, xs, nu=0, ext=None):
        xs = as_sym(xs)
        if self.basis is not None:
            q = [arr.tosym(e) for e in xs.base_arr().reshape(-1)]
            if all(e.k == core.FIN and e.is_const() for e in q):
                return self.basis(np.array([e.pyvalue() for e in q], dtype=float)).reshape(xs.shape)
        return arr.amap1(xs, self._one, core.F64)

    def _one(self, e):
        for a, b in zip(self.x.base_arr(), self.y.base_arr()):
            if bool(a == e):
                return arr.retag(b, core.F64)
        if self.k == 1:
            return arr.f_interp(e, self.x, self.y)
        c = ctx()
        memo = c.fcache.setdefault("spline", [])
        for (x, y, k, q, v) in memo:
            if k == self.k and arr._same_elems(x, self.x.base_arr()) and arr._same_elems(y, self.y.base_arr()) \
                    and q.r.approx_same(e.r):
                return v
        i = c.new_atom("spline", kind="spline")
        v = Sym(core.FIN, core.Rat(core.Poly.atom(i)), core.F64)
        memo.append((self.x.base_arr(), self.y.base_arr(), self.k, e, v))
        return v


class Multilinear:
    """Contract of geotiepoints.multilinear.MultilinearInterpolator: regular-grid multilinear interpolation with the
    cell index clamped to the grid (linear extrapolation outside)."""

    def __init__(self, smin, smax, orders, values=None, dtype=np.float64):
        self.smin, self.smax, self.orders, self.dtype = list(smin), list(smax), [int(o) for o in orders], np.dtype(dtype)
        self.d = len(self.orders)
        self.values = None
        if values is not None:
            self.set_values(values)

    def set_values(self, values):
        v = as_sym(values)
        if v.ndim != 2 or v.shape[1] != math.prod(self.orders):
            raise ValueError("bad shape of grid values")
        self.values = v

    def __call__(self, s):
        return self.interpolate(s)

    def interpolate(self, s):
        s = as_sym(s)
        n = s.shape[1]
        nv = self.values.shape[0]
        out = np.empty((nv, n), dtype=object)
        vb = self.values.base_arr()
        sb = s.base_arr()
        for j in range(n):
            pos = []
            nan = False
            for k in range(self.d):
                e = arr.tosym(sb[k, j])
                if e.k != core.FIN:
                    nan = True
                    break
                lo, hi = arr.tosym(self.smin[k]), arr.tosym(self.smax[k])
                u = (e - lo) / (hi - lo) * (self.orders[k] - 1)
                q = 0
                while q < self.orders[k] - 2 and bool(u >= q + 1):
                    q += 1
                pos.append((q, u - q))
            for v in range(nv):
                if nan:
                    out[v, j] = Sym(core.NAN, None, self.dtype)
                    continue
                acc = None
                for corner in range(2 ** self.d):
                    w = None
                    flat = 0
                    for k in range(self.d):
                        bit = (corner >> k) & 1
                        q, lam = pos[k]
                        f = lam if bit else 1 - lam
                        w = f if w is None else w * f
                        flat = flat * self.orders[k] + q + bit
                    t = w * arr.tosym(vb[v, flat])
                    acc = t if acc is None else acc + t
                out[v, j] = arr.retag(acc, self.dtype)
        return arr.mk(out, self.dtype)


# -- fake h5py ------------------------------------------------------------------------------
def _attr_value(v):
    """What an attribute reads back as."""
    if isinstance(v, (list, tuple)) and v and all(isinstance(e, str) for e in v):
        a = np.empty(len(v), dtype=object)
        a[:] = list(v)
        return a
    if isinstance(v, bool):
        return np.bool_(v)
    if isinstance(v, int):
        return np.int64(v)
    if isinstance(v, float):
        return np.float64(v)
    if isinstance(v, bytes):
        return np.bytes_(v)
    return v


class FakeAttrs(SymDict):
    def __setitem__(self, k, v):
        SymDict.__setitem__(self, k, _attr_value(v))

    def create(self, name, data, shape=None, dtype=None):
        self[name] = data

    modify = create

    def update(self, d=(), **k):
        for a, b in list(dict(d).items()) + list(k.items()):
            self[a] = b


class FakeDataset:
    def __init__(self, data, attrs=None):
        self.data = data
        self.attrs = FakeAttrs(attrs or {})

    shape = property(lambda s: s.data.shape)
    dtype = property(lambda s: s.data.dtype)
    size = property(lambda s: s.data.size)
    ndim = property(lambda s: s.data.ndim)

    def __getitem__(self, i):
        r = self.data[i]
        return r.copy() if isinstance(r, np.ndarray) else r

    def __setitem__(self, i, v):
        self.data[i] = v

    def __len__(self):
        return len(self.data)

    def __array__(self, *a, **k):
        if isinstance(self.data, arr.SymArray):
            raise Unsupported("array conversion of a dataset")
        return np.array(self.data, *a[:1])

    def __iter__(self):
        return iter(self.data)

    def astype(self, dt):
        return FakeDataset(self.data.astype(dt), self.attrs)


class FakeGroup:
    def __init__(self, name="/"):
        self.name = name
        self.members = {}
        self.attrs = FakeAttrs()

    def __getitem__(self, k):
        cur = self
        for p in str(k).split("/"):
            if p:
                if not isinstance(cur, FakeGroup) or p not in cur.members:
                    raise KeyError("Unable to synchronously open object (object '%s' doesn't exist)" % p)
                cur = cur.members[p]
        return cur

    def __contains__(self, k):
        try:
            self[k]
            return True
        except KeyError:
            return False

    def get(self, k, d=None):
        return self[k] if k in self else d

    def keys(self):
        return list(self.members)

    def items(self):
        return list(self.members.items())

    def values(self):
        return list(self.members.values())

    def __iter__(self):
        return iter(self.members)

    def _parent(self, n):
        parts = [p for p in str(n).split("/") if p]
        cur = self
        for p in parts[:-1]:
            if p not in cur.members:
                cur.members[p] = FakeGroup(p)
            cur = cur.members[p]
        return cur, parts[-1]

    def create_group(self, n):
        cur, last = self._parent(n)
        if last in cur.members:
            raise ValueError("Unable to create group (name already exists)")
        g = FakeGroup(last)
        cur.members[last] = g
        return g

    def require_group(self, n):
        return self[n] if n in self else self.create_group(n)

    def __delitem__(self, n):
        cur, last = self._parent(n)
        del cur.members[last]

    def create_dataset(self, n, shape=None, dtype=None, data=None, **k):
        cur, last = self._parent(n)
        if cur is not self:
            return cur.create_dataset(last, shape, dtype, data, **k)
        n = last
        if n in self.members:
            raise ValueError("Unable to create dataset (name already exists)")
        dt = np.dtype(dtype) if dtype is not None else None
        if data is not None:
            a = as_sym(data) if has_sym(data) else np.asarray(data)
            if dt is not None:
                a = a.astype(dt)
            a = a.copy()
        else:
            a = arr.full(shape, 0, dt if dt is not None else np.dtype("f4"))
        ds = FakeDataset(a)
        self.members[n] = ds
        return ds

    def __setitem__(self, n, data):
        self.create_dataset(n, data=data)


class FakeH5:
    """The files of one path: token in the file -> root group."""

    files = {}

    class File(FakeGroup):
        def __init__(self, filename, mode="r", **k):
            super().__init__()
            fn = os.fspath(filename)
            if mode in ("r", "a", "r+") and (mode != "a" or os.path.exists(fn)):
                g = _fetch(FakeH5.files, fn, b"SXH5")
                if g is None:
                    raise OSError("Unable to open file (file signature not found)")
                self.members, self.attrs = g.members, g.attrs
            elif mode in ("w", "a", "w-", "x"):
                if mode in ("w-", "x") and os.path.exists(fn):
                    raise FileExistsError(fn)
                _store(FakeH5.files, fn, b"SXH5", self)
            else:
                raise ValueError("mode")
            self.filename = fn
            self.closed = False

        def __enter__(self):
            return self

        def __exit__(self, *e):
            self.close()

        def close(self):
            self.closed = True

    Group = FakeGroup
    Dataset = FakeDataset


# -- import machinery --------------------------------------------------------------------------
_proxies = {}


def proxies():
    if _proxies:
        return _proxies
    import dask
    import dask.array
    import scipy
    import scipy.integrate
    import scipy.interpolate
    npx = Proxy(np, np_over())
    dax = Proxy(dask.array, da_over())
    dx = Proxy(dask, {"array": dax})
    si = Proxy(scipy.integrate, {"trapezoid": trapezoid, "trapz": trapezoid, "simpson": simpson})
    sp = Proxy(scipy.interpolate, {"InterpolatedUnivariateSpline": Spline})
    sc = Proxy(scipy, {"integrate": si, "interpolate": sp})
    import geotiepoints
    import geotiepoints.multilinear
    gm = Proxy(geotiepoints.multilinear, {"MultilinearInterpolator": Multilinear})
    gx = Proxy(geotiepoints, {"multilinear": gm})
    import math as _math
    mx = Proxy(_math, {n: _mathfn(n) for n in ("exp", "log", "cos", "sin", "tan", "sqrt", "acos", "radians", "degrees",
                                               "floor", "ceil", "isnan", "isfinite", "isinf", "fabs", "expm1", "log1p")})
    mx.__dict__["pow"] = lambda a, b: a ** b
    mx.__dict__["isclose"] = lambda a, b, rel_tol=1e-9, abs_tol=0.0: (
        abs(a - b) <= max(rel_tol * max(abs(a), abs(b)), abs_tol))
    import re as _re
    rx = Proxy(_re, {n: _concargs(getattr(_re, n)) for n in ("sub", "match", "search", "fullmatch", "split", "findall",
                                                             "finditer")})
    fx = Proxy(functools, {"lru_cache": sx_lru_cache, "cache": sx_cache})
    h5 = Proxy(__import__("h5py"), {"File": FakeH5.File, "Group": FakeGroup, "Dataset": FakeDataset})
    _proxies.update({"numpy": npx, "numpy.ma": npx.__dict__["ma"], "dask": dx, "dask.array": dax, "scipy": sc,
                     "scipy.integrate": si, "scipy.interpolate": sp, "geotiepoints": gx,
                     "geotiepoints.multilinear": gm, "math": mx, "h5py": h5, "re": rx, "functools": fx})
    return _proxies


def _concargs(real):
    def f(*a, **k):
        return real(*[strs.conc(x) for x in a], **{n: strs.conc(v) for n, v in k.items()})
    return f


def _mathfn(n):
    real = getattr(math, n)
    h = {"acos": core.s_arccos, "radians": core.s_deg2rad, "degrees": core.s_rad2deg}.get(n) or core._UNARY.get(n)

    def f(x):
        x = _scalar(x)
        if isinstance(x, Sym):
            r = h(x)
            if n in ("floor", "ceil"):
                return core._retype(r, I64)
            return core._retype(r, None) if isinstance(r, Sym) else r
        return real(x)
    return f


_real_import = builtins.__import__


def sx_import(name, globals=None, locals=None, fromlist=(), level=0):
    m = _real_import(name, globals, locals, fromlist, level)
    if level:
        return m
    p = proxies()
    if fromlist:
        return p.get(name, m)
    return p.get(name.split(".")[0], m)


printed = None


def _sx_print(*a, **k):
    if printed is not None and k.get("file") is None:
        printed.append(k.get("sep", " ").join(str(x) for x in a) + k.get("end", "\n"))


_bi = None


def sx_builtins():
    global _bi
    if _bi is None:
        d = dict(vars(builtins))
        d.update({"float": sx_float, "int": sx_int, "__import__": sx_import, "__sx_type__": sx_type, "__sx_get__": sx_get, "__sx_sub__": sx_sub, "__sx_slice__": slice, "dict": sx_dict,
                  "__sx_dict__": _sx_mkdict, "__sx_set__": SymSet, "__sx_fstr__": strs.fstr,
                  "__sx_join__": strs.join, "__sx_format__": strs.str_format, "__sx_mod__": strs.mod, "print": _sx_print, "set": SymSetType})
        _bi = d
    return _bi


class _SetMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, set)

    def __subclasscheck__(cls, c):
        return issubclass(c, set)


class SymSetType(SymSet, metaclass=_SetMeta):
    pass


_codes = {}
PACKAGES = ("pyspectral", "rsr_convert_scripts")


def purge():
    """Forget the modules under test, so that every path starts from a fresh import."""
    for n in [n for n in sys.modules if n.split(".")[0] in PACKAGES]:
        del sys.modules[n]
    FakeH5.files.clear()
    _npz.clear()
    _n_dask[0] = 0


class SxLoader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        if self.path not in _codes:
            _codes[self.path] = self._compile(fullname)
        return _codes[self.path]

    def _compile(self, fullname):
        src = self.get_source(fullname)
        tree = _Rewrite().visit(ast.parse(src, self.path))
        ast.fix_missing_locations(tree)
        return compile(tree, self.path, "exec", dont_inherit=True)

    def exec_module(self, module):
        module.__dict__["__builtins__"] = sx_builtins()
        exec(self.get_code(module.__name__), module.__dict__)


class SxFinder(importlib.abc.MetaPathFinder):
    loader = SxLoader

    def find_spec(self, name, path=None, target=None):
        rel = name.split(".")
        if rel[0] not in PACKAGES:
            return None
        base = os.path.join(REPO, *rel)
        if os.path.isdir(base):
            f = os.path.join(base, "__init__.py")
            if not os.path.exists(f):
                spec = importlib.machinery.ModuleSpec(name, None, is_package=True)
                spec.submodule_search_locations = [base]
                return spec
            return importlib.util.spec_from_file_location(name, f, loader=self.loader(name, f),
                                                          submodule_search_locations=[base])
        f = base + ".py"
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(name, f, loader=self.loader(name, f))
        return None


def install():
    logging.disable(logging.CRITICAL)
    _setup_dask()
    proxies()
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, SxFinder())


def run_program(path, out):
    """Execute a script of the repository as the main program; what it prints goes to out."""
    global printed
    printed = out
    try:
        mod = types.ModuleType("__main__")
        mod.__file__ = path
        SxLoader("__main__", path).exec_module(mod)
    finally:
        printed = None


def install_concrete():
    """The unpatched modules, from the same working tree."""
    logging.disable(logging.CRITICAL)
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, PlainFinder())


class PlainLoader(importlib.machinery.SourceFileLoader):
    """The ordinary loader; only the compiled code is kept between fresh imports."""

    def get_code(self, fullname):
        if self.path not in _codes:
            _codes[self.path] = self.source_to_code(self.get_data(self.path), self.path)
        return _codes[self.path]


class PlainFinder(SxFinder):
    loader = PlainLoader
