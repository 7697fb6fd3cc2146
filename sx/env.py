"""The harness interface: one harness text, run symbolically and replayed concretely."""
from __future__ import annotations

import importlib
import json
import logging
import math
import os
import shutil
import sys
import tempfile
from fractions import Fraction
from pathlib import Path

import numpy as np

F64 = np.dtype("float64")


class Ambiguous(Exception):
    """A decision of the oracle is within rounding error: this input decides nothing."""


class Discard(Exception):
    """The concrete input is outside the assumed domain."""


class CheckFailed(Exception):
    def __init__(self, label, detail=""):
        super().__init__("%s: %s" % (label, detail))
        self.label, self.detail = label, detail


class BaseEnv:
    sym = False

    def __init__(self, scratch):
        self.scratch = Path(scratch)
        self.events = []
        self.h5_real = not self.sym

    # -- sandboxed configuration ------------------------------------------------------
    def setup(self):
        root = self.scratch
        for p in list(root.iterdir()):
            if p.is_dir() and not p.is_symlink():
                shutil.rmtree(p)
            else:
                p.unlink()
        for d in ("rsr", "ray", "lut", "home", "tmp"):
            (root / d).mkdir()
        self.rsr_dir, self.ray_dir, self.lut_dir = root / "rsr", root / "ray", root / "lut"
        self.set_config({"rsr_dir": str(self.rsr_dir), "rayleigh_dir": str(self.ray_dir), "tb2rad_dir": str(self.lut_dir),
                         "download_from_internet": False})

    def set_config(self, conf, name="pyspectral.yaml"):
        import yaml
        p = self.scratch / name
        p.write_text(yaml.safe_dump(conf))
        os.environ["PSP_CONFIG_FILE"] = str(p)
        return p

    def mod(self, name):
        return importlib.import_module("pyspectral" + ("." + name if name else ""))

    def fresh(self):
        """The next use of the package imports it anew."""
        from sx import loader
        for n in [n for n in sys.modules if n.split(".")[0] in loader.PACKAGES]:
            del sys.modules[n]

    def script(self, name):
        """A module of rsr_convert_scripts."""
        m = importlib.import_module("rsr_convert_scripts." + name)
        if not hasattr(m, "LOG"):       # some set it only when run as a program
            m.LOG = logging.getLogger(name)
        return m

    def program(self, name, *argv):
        """Run a program of the repository with arguments; returns what it prints."""
        from sx import loader
        path = os.path.join(loader.REPO, *name.split("/"))
        old, root = sys.argv, logging.getLogger()
        state = list(root.handlers), root.level
        sys.argv = [path] + [str(a) for a in argv]
        out = []
        try:
            if self.sym:
                loader.run_program(path, out)
            else:
                import contextlib
                import io
                import runpy
                buf = io.StringIO()
                with contextlib.redirect_stdout(buf):
                    runpy.run_path(path, run_name="__main__")
                out.append(buf.getvalue())
        except SystemExit as e:
            if e.code not in (0, None):
                raise RuntimeError("the program ends with %s" % (e.code,))
        finally:
            sys.argv = old
            root.handlers[:], root.level = state
        return "".join(out)

    def number(self, text):
        """The number that a text stands for."""
        if self.sym and text in self.ctx.strs:
            return self.ctx.strs[text]
        return float(text)

    def text(self, *xs, sep=" "):
        """A line of a text file, with symbolic numbers in it."""
        return sep.join(x if isinstance(x, str) else repr(float(x)) if isinstance(x, np.floating) else str(x) for x in xs)

    # -- RSR and LUT files ---------------------------------------------------------------
    def write_rsr(self, platform, instrument, bands, uptodate=True, attrs=None, filename=None):
        """bands: name -> {'det-1': {wavelength, response, central_wavelength}} with wavelengths in micrometre."""
        utils = self.mod("utils")
        if uptodate:
            (self.rsr_dir / utils.RSR_DATA_VERSION_FILENAME).write_text(utils.RSR_DATA_VERSION)
        fn = self.rsr_dir / (filename or "rsr_%s_%s.h5" % (instrument, platform))
        with self.h5(fn, "w") as h:
            h.attrs["description"] = "Relative Spectral Responses"
            h.attrs["platform_name"] = platform
            h.attrs["sensor"] = instrument
            h.attrs["band_names"] = list(bands)
            for k, v in (attrs or {}).items():
                if v is None:
                    del h.attrs[k]
                else:
                    h.attrs[k] = v
            for b, dets in bands.items():
                g = h.create_group(b)
                g.attrs["number_of_detectors"] = len(dets)
                for d, r in dets.items():
                    dg = g.create_group(d)
                    dg.attrs["central_wavelength"] = r["central_wavelength"]
                    ds = dg.create_dataset("response", data=r["response"])
                    ds = dg.create_dataset("wavelength", data=r["wavelength"] * 1e-6)
                    ds.attrs["scale"] = 1.0
                    ds.attrs["unit"] = "m"
        return fn

    def write_lut(self, fn, **arrays):
        if self.sym:
            from sx import loader
            loader._savez(np.savez)(fn, **arrays)
        else:
            np.savez(fn, **arrays)
        return str(fn)

    def h5(self, fn, mode="r"):
        if self.sym:
            from sx.loader import FakeH5
            return FakeH5.File(str(fn), mode)
        import h5py
        return h5py.File(fn, mode)

    # -- decisions of the oracle --------------------------------------------------------
    def gt(self, a, b, **k):
        return self.lt(b, a, **k)

    def ge(self, a, b, **k):
        return self.le(b, a, **k)

    def all_lt(self, a, b):
        return all(self.lt(x, y) for x, y in zip(a, b))

    def elems(self, x):
        return list(self.flat(x))

    def assert_shape(self, label, got, shape):
        self.assert_true(label, tuple(np.shape(got) if not hasattr(got, "shape") else got.shape) == tuple(shape),
                         "shape %s, expected %s" % (getattr(got, "shape", None), shape))

    def assert_equal(self, label, got, want):
        """Exact equality of plain python data (strings, lists, None, numbers)."""
        self.assert_true(label, got == want, "got %r, expected %r" % (got, want))

    def raises(self, exc, f, *a, **k):
        """True when f raises exc; other exceptions escape."""
        try:
            f(*a, **k)
        except exc:
            return True
        return False

    def note(self, **kw):
        pass


# ====================================================================================
class ConcreteEnv(BaseEnv):
    """Runs the harness on one input against the unpatched code."""

    sym = False

    def __init__(self, scratch, inputs):
        super().__init__(scratch)
        self.inputs = inputs
        self.labels = {}

    def _get(self, name, default):
        return self.inputs.get(name, default)

    def real(self, name, lo=None, hi=None, dt=None, nan=False):
        if nan and self.bool(name + ".nan"):
            return float("nan") if dt is None else np.dtype(dt).type("nan")
        d = lo if lo is not None else (hi if hi is not None else 0.0)
        v = float(self._get(name, d))
        if dt is not None:
            t = np.dtype(dt).type
            w = t(v)
            if lo is not None and w < lo:
                w = np.nextafter(w, t(np.inf))
            if hi is not None and w > hi:
                w = np.nextafter(w, t(-np.inf))
            return w
        return v

    def int(self, name, lo, hi, dt=None):
        v = int(self._get(name, lo))
        return v if dt is None else np.dtype(dt).type(v)

    def bool(self, name):
        return bool(self._get(name, False))

    def choice(self, name, options):
        return options[int(self._get(name, 0))]

    def string(self, name, maxlen, alphabet, minlen=0):
        return str(self._get(name, alphabet[0] * minlen))

    def reals(self, name, shape, lo=None, hi=None, dt=F64, nan=False):
        if isinstance(shape, int):
            shape = (shape,)
        a = np.empty(shape, dtype=dt)
        for i in np.ndindex(shape):
            a[i] = self.real("%s[%s]" % (name, ",".join(map(str, i))), lo, hi, dt, nan)
        return a

    def table(self, name, n, lo, hi, dt=F64, increasing=False):
        a = np.full(n, np.nan, dtype=dt)
        known = {}
        for k, v in self.inputs.items():
            if k.startswith(name + "["):
                known[int(k[len(name) + 1:-1])] = float(v)
        if increasing:
            ks = sorted(known)
            xs, ys = [-1] + ks + [n], [lo] + [known[k] for k in ks] + [hi]
            a[:] = np.interp(np.arange(n), xs, ys)
        else:
            a[:] = lo + (hi - lo) * ((np.arange(n) * 0.6180339887498949) % 1.0)
        for k, v in known.items():
            a[k] = v
        return a

    def array(self, xs, dt=None):
        return np.array([float(x) for x in xs], dtype=dt or F64) if not isinstance(xs, np.ndarray) else xs.astype(dt or F64)

    def dask(self, a, chunks=None):
        import dask.array as da
        return da.from_array(a, chunks=chunks if chunks is not None else a.shape)

    def xarray(self, a):
        import xarray as xr
        return xr.DataArray(a)

    def masked(self, a, mask):
        return np.ma.array(a, mask=mask)

    def assume(self, cond):
        if not bool(cond):
            raise Discard("assumption")

    def assume_lt(self, a, b):
        if not a < b:
            raise Discard("assumption")

    def flat(self, x):
        if hasattr(x, "compute"):
            x = x.compute()
        if isinstance(x, np.ma.MaskedArray):
            return [np.ma.masked if m else d for d, m in zip(np.asarray(x.data).reshape(-1),
                                                             np.ma.getmaskarray(x).reshape(-1))]
        if isinstance(x, (list, tuple)) and any(e is np.ma.masked for e in x):
            return list(x)
        return [e for e in np.asarray(x).reshape(-1)]

    def fork(self, cond):
        return bool(cond)

    # -- oracle arithmetic
    exp = staticmethod(lambda x: math.exp(x) if x < 700 else float("inf"))
    log = staticmethod(math.log)
    cos = staticmethod(math.cos)
    sqrt = staticmethod(math.sqrt)

    def isnan(self, x):
        return x is not np.ma.masked and bool(np.isnan(x))

    def finite(self, x):
        return bool(np.isfinite(x))

    def floor(self, x, eps=1e-7):
        x = float(x)
        if abs(x - round(x)) < eps * max(1.0, abs(x)):
            raise Ambiguous("floor of %r" % x)
        return math.floor(x)

    def lookup(self, table, i):
        return table[int(i)]

    def _amb(self, a, b, eps=1e-9):
        if a == b:
            return
        if abs(a - b) <= eps * max(abs(a), abs(b), 1e-300):
            raise Ambiguous("%r ~ %r" % (a, b))

    def lt(self, a, b, eps=1e-9, exact=False, gap=None):
        if gap is not None and abs(a - b) <= gap:
            raise Ambiguous("%r ~ %r" % (a, b))
        if not exact and gap is None:
            self._amb(a, b, eps)
        return bool(a < b)

    def le(self, a, b, eps=1e-9, exact=False, gap=None):
        if gap is not None and abs(a - b) <= gap:
            raise Ambiguous("%r ~ %r" % (a, b))
        if not exact and gap is None:
            self._amb(a, b, eps)
        return bool(a <= b)

    def eq(self, a, b):
        return bool(a == b)

    # -- assertions
    def _ok(self, label):
        self.labels[label] = self.labels.get(label, 0) + 1

    def assert_true(self, label, cond, detail=""):
        self._ok(label)
        if not bool(cond):
            raise CheckFailed(label, detail)

    def assert_close(self, label, got, want, rtol=1e-9, atol=0.0):
        self._ok(label)
        g, w = self.flat(got), self.flat(want)
        if len(g) != len(w):
            raise CheckFailed(label, "%d elements, expected %d" % (len(g), len(w)))
        for i, (a, b) in enumerate(zip(g, w)):
            if a is np.ma.masked or b is np.ma.masked:
                if a is not b:
                    raise CheckFailed(label, "element %d: got %r, expected %r" % (i, a, b))
                continue
            a, b = float(a), float(b)
            if math.isnan(a) and math.isnan(b):
                continue
            if a == b:
                continue
            if not abs(a - b) <= rtol * abs(b) + atol:
                raise CheckFailed(label, "element %d: got %r, expected %r" % (i, a, b))

    def assert_le(self, label, a, b, tol=1e-9):
        self._ok(label)
        a, b = float(a), float(b)
        if not a <= b + tol * max(abs(a), abs(b)):
            raise CheckFailed(label, "%r <= %r does not hold" % (a, b))

    def assert_lt(self, label, a, b, margin=0.0):
        self._ok(label)
        a, b = float(a), float(b)
        if not a < b + margin * max(abs(a), abs(b)):
            raise CheckFailed(label, "%r < %r does not hold" % (a, b))

    def assert_dtype(self, label, got, dt):
        self._ok(label)
        if np.dtype(got.dtype) != np.dtype(dt):
            raise CheckFailed(label, "dtype %s, expected %s" % (got.dtype, np.dtype(dt)))

    def snapshot(self, *arrays):
        return [np.array(a, copy=True) if not isinstance(a, np.ma.MaskedArray) else a.copy() for a in arrays]

    def assert_unchanged(self, label, snap, arrays):
        self._ok(label)
        for s, a in zip(snap, arrays):
            sd, ad = np.asarray(s), np.asarray(a)
            if s.shape != a.shape or not np.array_equal(sd, ad, equal_nan=sd.dtype.kind == "f"):
                raise CheckFailed(label, "an input was modified: %r -> %r" % (s, a))
            if isinstance(s, np.ma.MaskedArray) and not np.array_equal(np.ma.getmaskarray(s), np.ma.getmaskarray(a)):
                raise CheckFailed(label, "the mask of an input was modified")


# ====================================================================================
class SymEnv(BaseEnv):
    """Runs the harness on symbolic inputs."""

    sym = True

    def __init__(self, scratch, ctx, runner):
        super().__init__(scratch)
        self.ctx = ctx
        self.runner = runner
        self.labels = {}

    def _core(self):
        from sx import core
        return core

    # -- inputs
    def real(self, name, lo=None, hi=None, dt=None, nan=False):
        core = self._core()
        dt = np.dtype(dt) if dt is not None else None
        if nan and self.bool(name + ".nan"):
            return core.Sym(core.NAN, None, dt)
        i = self.ctx.new_atom(name, lo=None if lo is None else core.to_frac(lo), hi=None if hi is None else core.to_frac(hi))
        self.ctx.inputs[name] = ("real", i)
        return core.Sym(core.FIN, core.Rat(core.Poly.atom(i)), dt)

    def int(self, name, lo, hi, dt=None):
        core = self._core()
        i = self.ctx.new_atom(name, lo=Fraction(lo), hi=Fraction(hi), isint=True)
        self.ctx.inputs[name] = ("int", i)
        return core.Sym(core.FIN, core.Rat(core.Poly.atom(i)), np.dtype(dt) if dt is not None else core.I64)

    def bool(self, name):
        import z3
        b = z3.Bool(self.ctx.fresh(name))
        self.ctx.inputs[name] = ("bool", b)
        return self.ctx.branch(b)

    def choice(self, name, options):
        import z3
        v = z3.Int(self.ctx.fresh(name))
        self.ctx.inputs[name] = ("zint", v)
        self.ctx.assume(z3.And(v >= 0, v < len(options)))
        lo = 0
        hi = len(options)
        while hi - lo > 1:
            mid = (lo + hi) // 2
            if self.ctx.branch(v < mid):
                hi = mid
            else:
                lo = mid
        return options[lo]

    def string(self, name, maxlen, alphabet, minlen=0):
        from sx import strs
        s = strs.SymStr.fresh(name, maxlen, alphabet, minlen)
        self.ctx.inputs[name] = ("str", s)
        return s

    def reals(self, name, shape, lo=None, hi=None, dt=F64, nan=False):
        from sx import arr
        if isinstance(shape, int):
            shape = (shape,)
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(shape):
            a[i] = self.real("%s[%s]" % (name, ",".join(map(str, i))), lo, hi, dt, nan)
        return arr.mk(a, dt)

    def table(self, name, n, lo, hi, dt=F64, increasing=False):
        """A 1-d table; order facts are added only for the entries that are looked up."""
        from sx import arr
        a = np.empty(n, dtype=object)
        core = self._core()
        atoms = []
        for k in range(n):
            i = self.ctx.new_atom("%s[%d]" % (name, k), lo=core.to_frac(lo), hi=core.to_frac(hi), lazy=True)
            a[k] = core.Sym(core.FIN, core.Rat(core.Poly.atom(i)), np.dtype(dt))
            atoms.append(i)
        self.ctx.tables_in = getattr(self.ctx, "tables_in", [])
        self.ctx.tables_in.append((name, atoms, a))
        if increasing:
            self.ctx.table_props = getattr(self.ctx, "table_props", {})
            self.ctx.table_props[atoms[0]] = "increasing"
        return arr.mk(a, dt)

    def array(self, xs, dt=None):
        from sx import arr
        if not arr.has_sym(xs):
            return np.array(xs, dtype=dt or F64)
        return arr.as_sym(xs if isinstance(xs, np.ndarray) else list(xs), dt or F64)

    def dask(self, a, chunks=None):
        from sx import loader
        return loader.da_from(a, chunks if chunks is not None else a.shape)

    def xarray(self, a):
        import xarray as xr
        return xr.DataArray(a)

    def masked(self, a, mask):
        from sx import masked
        return masked.SymMasked(a, mask)

    def assume(self, cond):
        core = self._core()
        z = core.raw_bool(cond)
        if isinstance(z, bool):
            if not z:
                raise core.PathAbort("assumption")
            return
        self.ctx.assume(z)
        import z3
        if self.ctx.check() == z3.unsat:
            raise core.PathAbort("assumption")

    def assume_lt(self, a, b):
        self.assume(a < b)

    def flat(self, x):
        from sx import arr, masked
        if hasattr(x, "compute"):
            x = x.compute()
        if hasattr(x, "values") and type(x).__module__.startswith("xarray"):
            x = x.data
        if isinstance(x, masked.SymMasked):
            return [np.ma.masked if m else d for d, m in zip(x.data.base_arr().reshape(-1), x._mask.reshape(-1))]
        if isinstance(x, arr.SymArray):
            return list(x.base_arr().reshape(-1))
        if isinstance(x, (list, tuple)):
            return [e for y in x for e in self.flat(y)]
        if isinstance(x, np.ndarray):
            return list(x.reshape(-1))
        return [x]

    def fork(self, cond):
        core = self._core()
        return self.ctx.branch(core.raw_bool(cond))

    # -- oracle arithmetic
    def _u(self, f, x):
        core = self._core()
        return getattr(core, f)(x if isinstance(x, core.Sym) else core.Sym.const(x))

    def exp(self, x):
        return self._u("s_exp", x)

    def log(self, x):
        return self._u("s_log", x)

    def cos(self, x):
        return self._u("s_cos", x)

    def sqrt(self, x):
        return self._u("s_sqrt", x)

    def isnan(self, x):
        core = self._core()
        if x is np.ma.masked:
            return False
        return x.k == core.NAN if isinstance(x, core.Sym) else bool(np.isnan(x))

    def finite(self, x):
        core = self._core()
        return x.k == core.FIN if isinstance(x, core.Sym) else bool(np.isfinite(x))

    def floor(self, x, eps=None):
        core = self._core()
        x = core.Sym.const(x)
        r = core._retype(core.s_floor(x), core.I64)
        if x.k == core.FIN and not x.is_const():
            d = x - r
            self._prefer(core.raw_bool(d > 0.02), core.raw_bool(d < 0.98))
        return r

    def _prefer(self, *zs):
        """Where a choice is left, models satisfy these (they keep clear of rounding error)."""
        self.ctx.prefer.extend(z for z in zs if not isinstance(z, bool))

    def _apart(self, a, b):
        core = self._core()
        a, b = core.Sym.const(a), core.Sym.const(b)
        if a.k == core.FIN and b.k == core.FIN and not (a.is_const() and b.is_const()):
            d = a.r.add(b.r, sub=True)
            if not d.den and len(d.num.t) <= 4 and all(sum(e for _, e in m) <= 1 for m in d.num.t):
                d = core.Sym(core.FIN, d)
                self._prefer(core.b_or(core.Sym.const(1e-4)._cmp(d, "<"), d._cmp(core.Sym.const(-1e-4), "<")))

    def lookup(self, table, i):
        from sx import arr
        core = self._core()
        return arr.select(table, i if isinstance(i, core.Sym) else core.Sym.const(i, core.I64))

    def _gap(self, a, b, gap):
        core = self._core()
        d = core.Sym.const(a) - core.Sym.const(b)
        if d.k == core.FIN and not d.is_const():
            g = core.Sym.const(gap)
            self.assume(core.mkbool(core.b_or(g._cmp(d, "<"), d._cmp(core.s_neg(g), "<"))))

    def lt(self, a, b, eps=None, exact=False, gap=None):
        if gap:
            self._gap(a, b, gap)
        r = bool(a < b)
        if not exact and not gap:
            self._apart(a, b)
        return r

    def le(self, a, b, eps=None, exact=False, gap=None):
        if gap:
            self._gap(a, b, gap)
        r = bool(a <= b)
        if not exact and not gap:
            self._apart(a, b)
        return r

    def eq(self, a, b):
        return bool(a == b)

    # -- assertions
    def _assert(self, label, z, detail=""):
        self.labels[label] = self.labels.get(label, 0) + 1
        self.runner.decide(self, label, z, detail)

    def assert_true(self, label, cond, detail=""):
        core = self._core()
        if isinstance(cond, (bool, np.bool_)):
            self._assert(label, bool(cond), detail)
        else:
            self._assert(label, core.raw_bool(cond), detail)

    def assert_close(self, label, got, want, rtol=1e-9, atol=0.0):
        core = self._core()
        g, w = self.flat(got), self.flat(want)
        if len(g) != len(w):
            self._assert(label, False, "%d elements, expected %d" % (len(g), len(w)))
            return
        for i, (a, b) in enumerate(zip(g, w)):
            if a is np.ma.masked or b is np.ma.masked:
                self._assert(label, a is b, "element %d: masked or not" % i)
                continue
            a, b = core.Sym.const(a), core.Sym.const(b)
            if a.k != core.FIN or b.k != core.FIN:
                self._assert(label, a.k == b.k, "element %d: kinds %s / %s" % (i, a.k, b.k))
                continue
            self._assert(label, close_z(a, b, rtol, atol), "element %d" % i)

    def assert_le(self, label, a, b, tol=1e-9):
        core = self._core()
        a, b = core.Sym.const(a), core.Sym.const(b)
        if a.k != core.FIN or b.k != core.FIN:
            self._assert(label, bool(a <= b), "kinds %s / %s" % (a.k, b.k))
            return
        z = a._cmp(b, "<=")
        if tol and not isinstance(z, bool):
            z = core.b_or(z, close_z(a, b, tol, 0.0))
        self._assert(label, z)

    def assert_lt(self, label, a, b, margin=0.0):
        core = self._core()
        a, b = core.Sym.const(a), core.Sym.const(b)
        if a.k != core.FIN or b.k != core.FIN:
            self._assert(label, bool(a < b), "kinds %s / %s" % (a.k, b.k))
            return
        self._assert(label, a._cmp(b, "<"))

    def assert_dtype(self, label, got, dt):
        self._assert(label, np.dtype(got.dtype) == np.dtype(dt), "dtype %s, expected %s" % (got.dtype, np.dtype(dt)))

    def snapshot(self, *arrays):
        return [a.copy() for a in arrays]

    def assert_unchanged(self, label, snap, arrays):
        from sx import masked
        for s, a in zip(snap, arrays):
            ok = s.shape == a.shape
            sm, am = (x._mask if isinstance(x, masked.SymMasked) else None for x in (s, a))
            sd, ad = (x.data if isinstance(x, masked.SymMasked) else x for x in (s, a))
            if ok and sm is not None:
                ok = bool((sm == am).all())
            if ok:
                for x, y in zip(self.flat(sd), self.flat(ad)):
                    if x is y:
                        continue
                    core = self._core()
                    if isinstance(x, core.Sym) and isinstance(y, core.Sym) and x.k == y.k and (
                            x.k != core.FIN or x.r.approx_same(y.r, 0)):
                        continue
                    if isinstance(x, core.Sym) and isinstance(y, core.Sym) and x.k == y.k == core.FIN:
                        self._assert(label, x._cmp(y, "=="), "an input was modified")
                        continue
                    if not isinstance(x, core.Sym) and not isinstance(y, core.Sym) and (x == y or (x != x and y != y)):
                        continue
                    ok = False
            self._assert(label, ok, "an input was modified")


def close_z(a, b, rtol, atol):
    """|a - b| <= rtol |b| + atol as a z3 term or bool."""
    from sx import core
    from sx.core import Rat, b_and, b_not, b_or
    d = a.r.add(b.r, sub=True)
    if not d.num.t:
        return True
    rt, at = core.to_frac(rtol), core.to_frac(atol)
    dlo, dhi = core._rat_interval(d)
    if dlo is not None and dhi is not None:
        blo, bhi = core._rat_interval(b.r) if rt else (None, None)
        m = min(abs(blo), abs(bhi)) if blo is not None and bhi is not None and (blo > 0 or bhi < 0) else 0
        if max(abs(dlo), abs(dhi)) <= at + rt * m:
            return True
    t = b.r.scale(rt)
    ac = Rat.const(at)

    def neg_or_zero(r):         # r <= 0
        p, s = r.cleared()
        return core.ctx().cmp_poly(p if s > 0 else p.neg(), "<=")
    if a.r.is_const() and b.r.is_const():
        return abs(d.const_value()) <= abs(t.const_value()) + at
    pos = b_and(neg_or_zero(d.add(t, sub=True).add(ac, sub=True)), neg_or_zero(d.neg().add(t, sub=True).add(ac, sub=True)))
    neg = b_and(neg_or_zero(d.add(t).add(ac, sub=True)), neg_or_zero(d.neg().add(t).add(ac, sub=True)))
    bpos = b_not(core.b_and(neg_or_zero(b.r), b_not(neg_or_zero(b.r.neg()))))     # not (b < 0)
    if bpos is True:
        return pos
    if bpos is False:
        return neg
    return b_or(b_and(bpos, pos), b_and(b_not(bpos), neg))


def make_scratch(base=None):
    base = base or os.environ.get("TMPDIR") or "/tmp"
    return tempfile.mkdtemp(prefix="sxverif_", dir=base)


def dump_inputs(d):
    return json.dumps(d)
