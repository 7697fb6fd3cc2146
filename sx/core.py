"""Terms, path exploration and solver access.

Numbers are real numbers extended with NaN and +-inf.  A finite value is a
rational function N / prod(f_i ** e_i) over *atoms* (input variables, integer
atoms and applications of exp, log, cos ...).  The kind of a value (finite, NaN,
+inf, -inf) and the sign of every denominator are concrete on a path: they are
decided by forking, so that a comparison is always a polynomial (in)equality.
"""
from __future__ import annotations

import math
import re
import time
from fractions import Fraction
from numbers import Number

import numpy as np
import z3

NOISE = Fraction(1, 10 ** 13)      # coefficients this close (relative) are identified: float rounding noise
MERGE = Fraction(1, 10 ** 11)      # arguments of exp/log/cos.. this close are identified


class Unsupported(Exception):
    """The code did something the executor has no semantics for: inconclusive."""


hashing = [0]           # positive while a container that compares its keys stores one


class Unhashable(Unsupported, TypeError):
    """A symbolic value used as a dict key."""


class PathAbort(BaseException):
    """Stop the current path (assumption violated / infeasible)."""


class BudgetExceeded(BaseException):
    """Path or time budget of the harness is used up: inconclusive."""


class _Ctx:
    cur = None


def ctx() -> "Ctx":
    c = _Ctx.cur
    if c is None:
        raise Unsupported("no symbolic context is active")
    return c


# --------------------------------------------------------------------------
# Polynomials: dict monomial -> Fraction, monomial = tuple((atom, exp), ...)
# --------------------------------------------------------------------------
ONE = ()


def to_frac(x) -> Fraction:
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    x = float(x)
    return Fraction(repr(x))


class Poly:
    __slots__ = ("t", "_h")

    def __init__(self, t):
        self.t = t
        self._h = None

    @staticmethod
    def const(c):
        c = to_frac(c)
        return Poly({ONE: c}) if c else Poly({})

    @staticmethod
    def atom(i, e=1):
        return Poly({((i, e),): Fraction(1)})

    def is_const(self):
        return not self.t or (len(self.t) == 1 and ONE in self.t)

    def const_value(self):
        return self.t.get(ONE, Fraction(0))

    def is_zero(self):
        return not self.t

    def add(self, o, sub=False):
        r = dict(self.t)
        for m, c in o.t.items():
            if sub:
                c = -c
            if m in r:
                a = r[m]
                s = a + c
                if s == 0 or abs(s) <= NOISE * max(abs(a), abs(c)):
                    del r[m]
                else:
                    r[m] = s
            else:
                r[m] = c
        return Poly(r)

    def scale(self, k):
        if k == 0:
            return Poly({})
        if k == 1:
            return self
        return Poly({m: c * k for m, c in self.t.items()})

    def mul(self, o):
        if len(self.t) == 1 and ONE in self.t:
            return o.scale(self.t[ONE])
        if len(o.t) == 1 and ONE in o.t:
            return self.scale(o.t[ONE])
        r = {}
        mag = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mono_mul(m1, m2)
                c = c1 * c2
                if m in r:
                    r[m] += c
                    mag[m] = max(mag[m], abs(c))
                else:
                    r[m] = c
                    mag[m] = abs(c)
        return Poly({m: c for m, c in r.items() if c != 0 and abs(c) > NOISE * mag[m]})

    def pow(self, n):
        r = Poly.const(1)
        b = self
        while n:
            if n & 1:
                r = r.mul(b)
            n >>= 1
            if n:
                b = b.mul(b)
        return r

    def neg(self):
        return self.scale(Fraction(-1))

    def content(self):
        """Greatest common monomial."""
        it = iter(self.t)
        first = dict(next(it))
        for m in it:
            if not first:
                return ONE
            d = dict(m)
            first = {a: min(e, d[a]) for a, e in first.items() if a in d}
        return tuple(sorted(first.items()))

    def div_mono(self, mono):
        if not mono:
            return self
        d = dict(mono)
        r = {}
        for m, c in self.t.items():
            mm = dict(m)
            for a, e in d.items():
                mm[a] = mm[a] - e
                if mm[a] == 0:
                    del mm[a]
            r[tuple(sorted(mm.items()))] = c
        return Poly(r)

    def lead(self):
        m = max(self.t, key=mono_key)
        return m, self.t[m]

    def atoms(self):
        return {a for m in self.t for a, _ in m}

    def key(self):
        if self._h is None:
            self._h = frozenset(self.t.items())
        return self._h

    def approx_eq(self, o, tol=NOISE):
        """Equality of coefficients up to a relative tolerance."""
        if self.t.keys() != o.t.keys():
            ks = set(self.t) | set(o.t)
            if any(k not in self.t or k not in o.t for k in ks):
                return False
        return all(abs(c - o.t[m]) <= tol * max(abs(c), abs(o.t[m])) for m, c in self.t.items())

    def divide_exact(self, d):
        """Polynomial division, None when the remainder is not negligible."""
        lm, lc = d.lead()
        ld = dict(lm)
        rem = self
        quo = Poly({})
        steps = 0
        while rem.t:
            steps += 1
            if steps > 60:
                return None
            m, c = rem.lead()
            mm = dict(m)
            for a, e in ld.items():
                if mm.get(a, 0) < e:
                    return None
                mm[a] -= e
                if mm[a] == 0:
                    del mm[a]
            q = Poly({tuple(sorted(mm.items())): c / lc})
            quo = quo.add(q)
            nrem = rem.add(q.mul(d), sub=True)
            if m in nrem.t:
                t = dict(nrem.t)
                del t[m]
                nrem = Poly(t)
            rem = nrem
        return quo

    def __repr__(self):
        names = _Ctx.cur.atoms if _Ctx.cur else None
        out = []
        for m, c in self.t.items():
            s = "*".join("%s%s" % (names[a].name if names else "a%d" % a, "" if e == 1 else "^%d" % e) for a, e in m)
            out.append("%s%s" % ("%.6g" % float(c), "*" + s if s else ""))
        return " + ".join(out) or "0"


def mono_key(m):
    return (sum(e for _, e in m), m)


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


class Rat:
    """num / prod(factor_i ** e_i); factors live in the context and have a known sign."""

    __slots__ = ("num", "den")

    def __init__(self, num, den=None):
        self.num = num
        self.den = den or {}

    @staticmethod
    def const(c):
        return Rat(Poly.const(c))

    def is_const(self):
        return not self.den and self.num.is_const()

    def const_value(self):
        return self.num.const_value()

    def _norm(self):
        if not self.den or not self.num.t:
            return Rat(self.num) if not self.num.t else self
        c = ctx()
        num = self.num
        den = dict(self.den)
        for f in list(den):
            fp = c.factors[f][0]
            if len(fp.t) == 1:
                (m, _), = fp.t.items()
                a = m[0][0]
                e = min((dict(mm).get(a, 0) for mm in num.t), default=0)
                e = min(e, den[f])
                if e:
                    num = num.div_mono(((a, e),))
                    den[f] -= e
            else:
                while den[f]:
                    q = num.divide_exact(fp) if len(num.t) >= len(fp.t) else None
                    if q is None:
                        break
                    num = q
                    den[f] -= 1
            if not den[f]:
                del den[f]
        return Rat(num, den)

    def add(self, o, sub=False):
        if self.den == o.den:
            return Rat(self.num.add(o.num, sub), self.den)._norm()
        c = ctx()
        den = dict(self.den)
        for f, e in o.den.items():
            den[f] = max(den.get(f, 0), e)
        a, b = self.num, o.num
        for f, e in den.items():
            fp = c.factors[f][0]
            d1 = e - self.den.get(f, 0)
            d2 = e - o.den.get(f, 0)
            if d1:
                a = a.mul(fp.pow(d1))
            if d2:
                b = b.mul(fp.pow(d2))
        return Rat(a.add(b, sub), den)._norm()

    def mul(self, o):
        den = dict(self.den)
        for f, e in o.den.items():
            den[f] = den.get(f, 0) + e
        return Rat(self.num.mul(o.num), den)._norm()

    def neg(self):
        return Rat(self.num.neg(), self.den)

    def scale(self, k):
        return Rat(self.num.scale(k), self.den) if k else Rat(Poly({}))

    def pow(self, n):
        if n < 0:
            return self.inv().pow(-n)
        return Rat(self.num.pow(n), {f: e * n for f, e in self.den.items()} if n else {})._norm()

    def inv(self):
        """1/self; the caller has made sure self is not zero and its sign is known."""
        c = ctx()
        num = Poly.const(1)
        for f, e in self.den.items():
            num = num.mul(c.factors[f][0].pow(e))
        p = self.num
        if p.is_const():
            return Rat(num.scale(1 / p.const_value()))
        mono = p.content()
        rest = p.div_mono(mono)
        den = {}
        for a, e in mono:
            den[c.factor(Poly.atom(a))] = e
        _, lc = rest.lead()
        num = num.scale(1 / lc)
        rest = rest.scale(1 / lc)
        if not rest.is_const():
            f = c.factor(rest)
            den[f] = den.get(f, 0) + 1
        return Rat(num, den)._norm()

    def cleared(self):
        """(poly, sign): the value has the sign of poly * sign."""
        c = ctx()
        s = 1
        for f, e in self.den.items():
            if e % 2 and c.factors[f][1] < 0:
                s = -s
        return self.num, s

    def approx_same(self, o, tol=MERGE):
        if self.den == o.den:
            return self.num.approx_eq(o.num, tol)
        return False

    def __repr__(self):
        if not self.den:
            return repr(self.num)
        c = ctx()
        return "(%r)/(%s)" % (self.num, " * ".join("(%r)^%d" % (c.factors[f][0], e) for f, e in self.den.items()))


# --------------------------------------------------------------------------
# Context: one path
# --------------------------------------------------------------------------
class Atom:
    __slots__ = ("name", "z", "kind", "arg", "lo", "hi", "isint", "lazy")

    def __init__(self, name, z, kind, arg=None, lo=None, hi=None, isint=False):
        self.name, self.z, self.kind, self.arg, self.lo, self.hi, self.isint = name, z, kind, arg, lo, hi, isint
        self.lazy = False


class Stats:
    def __init__(self):
        self.queries = 0
        self.branch_queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.unknown_branches = 0
        self.asserts = 0
        self.trivial_asserts = 0
        self.validated = 0
        self.skipped_validation = 0
        self.aborted = 0
        self.reach = {}
        self.labels = {}


def zfrac(c: Fraction):
    return z3.RealVal("%d/%d" % (c.numerator, c.denominator)) if c.denominator != 1 else z3.RealVal(c.numerator)


class Trace(list):
    """The branch decisions of a path: [choice, has an untried alternative, value tried]."""

    def __init__(self, *a):
        super().__init__(*a)
        self.h = {}


class Ctx:
    def __init__(self, trace, stats, deadline, branch_ms=4000):
        self.trace = trace            # list of [choice, has_alternative]
        self.pos = 0
        self.stats = stats
        self.deadline = deadline
        self.atoms = []
        self.factors = []
        self.cons = []
        self.solver = z3.Solver()
        self.solver.set("timeout", branch_ms)
        self.known = {}
        self.lin = {}
        self.compared = {}
        self.inputs = {}              # name -> description for model extraction
        self.names = {}
        self.strs = {}
        self.fcache = {}
        self.prefer = []

    # -- atoms --------------------------------------------------------------
    def fresh(self, base):
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        return base if n == 0 else "%s!%d" % (base, n)

    def new_atom(self, name, kind="var", arg=None, lo=None, hi=None, isint=False, lazy=False):
        name = self.fresh(name)
        if lazy:
            a = Atom(name, None, kind, arg, lo, hi, isint)
            a.lazy = True
            self.atoms.append(a)
            return len(self.atoms) - 1
        if isint:
            z = z3.ToReal(z3.Int(name))
        else:
            z = z3.Real(name)
        a = Atom(name, z, kind, arg, lo, hi, isint)
        self.atoms.append(a)
        i = len(self.atoms) - 1
        if lo is not None:
            self.assume(z >= zfrac(lo))
        if hi is not None:
            self.assume(z <= zfrac(hi))
        return i

    def touch(self, at):
        """Introduce a lazily created table entry to the solver."""
        at.lazy = False
        at.z = z3.Real(at.name)
        if at.lo is not None:
            self.assume(at.z >= zfrac(at.lo))
        if at.hi is not None:
            self.assume(at.z <= zfrac(at.hi))

    def factor(self, p: Poly):
        """Register a denominator factor whose sign has been decided already."""
        for i, (q, s) in enumerate(self.factors):
            if q.approx_eq(p, Fraction(1, 10 ** 12)):
                return i
        s = self.sign_fork(p)
        if s == 0:
            raise PathAbort("division by a factor that is zero")
        self.factors.append((p, s))
        return len(self.factors) - 1

    # -- solver -------------------------------------------------------------
    def assume(self, zexpr):
        if zexpr is True:
            return
        if zexpr is False:
            raise PathAbort("assumption is false")
        self.cons.append(zexpr)
        self.solver.add(zexpr)

    def check(self, extra=None):
        if time.time() > self.deadline:
            raise BudgetExceeded("time budget")
        t = time.time()
        if extra is None:
            r = self.solver.check()
        else:
            self.solver.push()
            self.solver.add(extra)
            r = self.solver.check()
            self.solver.pop()
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        self.stats.branch_queries += 1
        return r

    def branch(self, zexpr):
        """Decide a symbolic condition, forking when both outcomes are possible."""
        if isinstance(zexpr, (bool, np.bool_)):
            return bool(zexpr)
        if z3.is_true(zexpr):
            return True
        if z3.is_false(zexpr):
            return False
        k = zexpr.get_id()
        if k in self.known and self.known[k][0].eq(zexpr):
            return self.known[k][1]
        if self.pos < len(self.trace):
            ch = self.trace[self.pos][0]
            h = self.trace.h.get(self.pos)
            if h is not None and h != zexpr.hash():
                raise Unsupported("the code is not deterministic under re-execution")
            self.pos += 1
        else:
            self.trace.h[self.pos] = zexpr.hash()
            rt = self.check(zexpr)
            if rt == z3.unsat:
                ch, alt = False, False
            else:
                rf = self.check(z3.Not(zexpr))
                if rf == z3.unsat:
                    ch, alt = True, False
                else:
                    if rt == z3.unknown or rf == z3.unknown:
                        self.stats.unknown_branches += 1
                    ch, alt = True, True
            self.trace.append([ch, alt])
            self.pos += 1
        self.known[k] = (zexpr, ch)
        self.assume(zexpr if ch else z3.Not(zexpr))
        self.narrow(zexpr, ch)
        return ch

    # -- polynomials to z3 ----------------------------------------------------
    def poly_z(self, p: Poly):
        terms = []
        for m, c in p.t.items():
            fs = []
            for a, e in m:
                at = self.atoms[a]
                if at.lazy:
                    self.touch(at)
                fs.extend([at.z] * e)
            if not fs:
                terms.append(zfrac(c))
                continue
            pr = fs[0]
            for f in fs[1:]:
                pr = pr * f
            terms.append(pr if c == 1 else zfrac(c) * pr)
        if not terms:
            return z3.RealVal(0)
        return terms[0] if len(terms) == 1 else z3.Sum(terms)

    def interval(self, p: Poly):
        lo = hi = Fraction(0)
        for m, c in p.t.items():
            l, h = c, c
            for a, e in m:
                at = self.atoms[a]
                al, ah = at.lo, at.hi
                if e % 2 == 0:
                    if al is not None and al >= 0:
                        pl, ph = al ** e, (ah ** e if ah is not None else None)
                    elif ah is not None and ah <= 0:
                        pl, ph = ah ** e, (al ** e if al is not None else None)
                    else:
                        pl = Fraction(0)
                        ph = max(al ** e, ah ** e) if (al is not None and ah is not None) else None
                else:
                    pl = al ** e if al is not None else None
                    ph = ah ** e if ah is not None else None
                l, h = _imul(l, h, pl, ph)
                if l is None and h is None:
                    break
            lo = None if (lo is None or l is None) else lo + l
            hi = None if (hi is None or h is None) else hi + h
            if lo is None and hi is None:
                break
        return lo, hi

    def cmp_poly(self, p: Poly, op):
        """The truth value (bool or z3) of p op 0, op in '<', '<=', '=='."""
        if p.is_const():
            v = p.const_value()
            return v < 0 if op == "<" else v <= 0 if op == "<=" else v == 0
        lo, hi = self.interval(p)
        if op == "<":
            if hi is not None and hi < 0:
                return True
            if lo is not None and lo >= 0:
                return False
        elif op == "<=":
            if hi is not None and hi <= 0:
                return True
            if lo is not None and lo > 0:
                return False
        else:
            if (hi is not None and hi < 0) or (lo is not None and lo > 0):
                return False
        # normalise so that p < 0 and -p <= 0 share one atom
        if len(p.t) > 3:
            p = self.prune(p)
        _, lc = p.lead()
        n = p.scale(1 / lc)
        if len(n.t) > 3:                   # comparisons that differ by rounding error are one comparison
            ks = frozenset(n.t)
            for q in self.compared.setdefault(ks, []):
                if q.approx_eq(n, MERGE):
                    n = q
                    break
            else:
                self.compared[ks].append(n)
        z = self.poly_z(n)
        zero = z3.RealVal(0)
        if op == "==":
            return z == zero
        strict = (op == "<") == (lc > 0)
        r = z < zero if strict else z <= zero
        if len(n.t) <= 2:
            ms = [m for m in n.t if m]
            if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1:
                self.lin[r.get_id()] = (r, ms[0][0][0], n.t[ms[0]], n.t.get((), Fraction(0)))
        return r if lc > 0 else z3.Not(r)

    def prune(self, p):
        """Drop terms that are rounding error of the largest one."""
        mag = {}
        for m, c in p.t.items():
            v = abs(float(c))
            for a, e in m:
                at = self.atoms[a]
                if at.lo is None or at.hi is None:
                    return p
                v *= max(abs(float(at.lo)), abs(float(at.hi))) ** e
            mag[m] = v
        top = max(mag.values()) * 1e-14
        if all(v > top for v in mag.values()):
            return p
        return Poly({m: c for m, c in p.t.items() if mag[m] > top})

    def narrow(self, zexpr, val):
        """Carry a decided bound of a single atom over to its interval."""
        if z3.is_not(zexpr):
            return self.narrow(zexpr.arg(0), not val)
        if (val and z3.is_and(zexpr)) or (not val and z3.is_or(zexpr)):
            for x in zexpr.children():
                self.narrow(x, val)
            return
        e = self.lin.get(zexpr.get_id())
        if e is None or not e[0].eq(zexpr):
            return
        _, a, k, c = e                     # k * atom + c < (<=) 0, or not
        at = self.atoms[a]
        b = -c / k
        if (k > 0) == val:
            if at.hi is None or b < at.hi:
                at.hi = b
        elif at.lo is None or b > at.lo:
            at.lo = b

    def sign_fork(self, p: Poly):
        c = self.cmp_poly(p.neg(), "<")
        if self.branch(c):
            return 1
        if self.branch(self.cmp_poly(p, "<")):
            return -1
        return 0


def _imul(a, b, c, d):
    """Interval product with None = unbounded."""
    if None not in (a, b, c, d):
        v = (a * c, a * d, b * c, b * d)
        return min(v), max(v)
    # handle the sign-definite unbounded cases
    if a is not None and a >= 0 and c is not None and c >= 0:
        return a * c, (b * d if (b is not None and d is not None) else (Fraction(0) if (b == 0 or d == 0) else None))
    if b is not None and b <= 0 and c is not None and c >= 0:
        return (a * d if (a is not None and d is not None) else None), b * c
    if a is not None and a >= 0 and d is not None and d <= 0:
        return (b * c if (b is not None and c is not None) else None), a * d
    if b is not None and b <= 0 and d is not None and d <= 0:
        return b * d, (a * c if (a is not None and c is not None) else None)
    return None, None


# --------------------------------------------------------------------------
# Symbolic booleans
# --------------------------------------------------------------------------
def b_and(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return z3.And(a, b)


def b_or(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return z3.Or(a, b)


def b_not(a):
    if isinstance(a, bool):
        return not a
    return z3.Not(a)


def raw_bool(x):
    """bool / SymBool / Sym -> python bool or z3 Bool."""
    if isinstance(x, SymBool):
        return x.z
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, Sym):
        return x.truth()
    if isinstance(x, (int, float, np.number)):
        return bool(x)
    if isinstance(x, z3.BoolRef):
        return x
    raise Unsupported("not a boolean: %r" % (type(x),))


def mkbool(z):
    if isinstance(z, bool):
        return z
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SymBool(z)


class SymBool:
    """A boolean that is not decided yet; truth testing forks."""

    __slots__ = ("z",)
    __array_priority__ = 2000
    dtype = np.dtype(bool)
    shape = ()
    ndim = 0
    size = 1

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return ctx().branch(self.z)

    def __and__(self, o):
        if _is_arr(o):
            return NotImplemented
        return mkbool(b_and(self.z, raw_bool(o)))

    __rand__ = __and__

    def __or__(self, o):
        if _is_arr(o):
            return NotImplemented
        return mkbool(b_or(self.z, raw_bool(o)))

    __ror__ = __or__

    def __xor__(self, o):
        if _is_arr(o):
            return NotImplemented
        return bool(self) != bool(mkbool(raw_bool(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(b_not(self.z))

    def __eq__(self, o):
        if _is_arr(o):
            return NotImplemented
        return bool(self) == o

    def __ne__(self, o):
        if _is_arr(o):
            return NotImplemented
        return bool(self) != o

    def __hash__(self):
        raise Unhashable("hash of a symbolic bool")

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    def _num(self):
        return Sym.const(int(bool(self)), np.dtype("int64"))

    def __add__(self, o):
        return self._num() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._num() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()

    def all(self, *a, **k):
        return self

    any = all

    def item(self):
        return self

    def astype(self, dt, **k):
        if np.dtype(dt).kind == "b":
            return self
        return self._num().astype(dt)

    def logical_not(self):
        return ~self

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from sx import arr
        return arr.ufunc_entry(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from sx import arr
        return arr.function_entry(func, types, args, kwargs)

    def __repr__(self):
        return "SymBool(%s)" % (self.z,)


def _is_arr(o):
    return isinstance(o, np.ndarray) or hasattr(o, "chunks")


# --------------------------------------------------------------------------
# Symbolic numbers
# --------------------------------------------------------------------------
FIN, NAN, PINF, NINF = "f", "n", "p", "m"
F64 = np.dtype("float64")
I64 = np.dtype("int64")


def result_dt(a, b):
    """NEP 50 promotion; None stands for a weak python scalar."""
    if a is None:
        return b
    if b is None:
        return a
    return np.result_type(a, b)


class Sym(Number):
    """A symbolic scalar number: dt None = python float, 'pyint' handled by dtype int64."""

    __slots__ = ("k", "r", "dt")
    __array_priority__ = 2000
    shape = ()
    ndim = 0
    size = 1

    def __init__(self, k, r=None, dt=None):
        self.k = k
        self.r = r
        self.dt = dt

    # -- construction -----------------------------------------------------------
    @staticmethod
    def const(x, dt=None):
        if isinstance(x, Sym):
            return x
        if isinstance(x, SymBool):
            return Sym(FIN, Rat.const(int(bool(x))), dt or I64)
        if isinstance(x, Fraction):
            return Sym(FIN, Rat.const(x), dt)
        if isinstance(x, np.generic) and dt is None:
            dt = x.dtype
        if isinstance(x, (bool, np.bool_, int, np.integer)):
            return Sym(FIN, Rat.const(int(x)), dt)
        if isinstance(x, (float, np.floating)):
            if math.isnan(x):
                return Sym(NAN, None, dt)
            if math.isinf(x):
                return Sym(PINF if x > 0 else NINF, None, dt)
            return Sym(FIN, Rat.const(x), dt)
        raise Unsupported("cannot make a number of %r" % (type(x),))

    @property
    def dtype(self):
        return self.dt if self.dt is not None else F64

    @property
    def real(self):
        return self

    T = real

    def is_const(self):
        return self.k != FIN or self.r.is_const()

    def pyvalue(self):
        if self.k == NAN:
            return float("nan")
        if self.k == PINF:
            return float("inf")
        if self.k == NINF:
            return float("-inf")
        v = self.r.const_value()
        if self.dt is not None and self.dt.kind in "iu":
            return int(v)
        return float(v)

    def sign(self):
        """Sign of a finite value, forking."""
        p, s = self.r.cleared()
        return ctx().sign_fork(p) * s

    def truth(self):
        if self.k != FIN:
            return True
        p, _ = self.r.cleared()
        return b_not(ctx().cmp_poly(p, "=="))

    # -- comparisons --------------------------------------------------------------
    def _cmp(self, o, op):
        """op in < <= == ; returns python bool or z3."""
        a, b = self, o
        if a.k == NAN or b.k == NAN:
            return False
        if a.k != FIN or b.k != FIN:
            rank = {NINF: -1, FIN: 0, PINF: 1}
            x, y = rank[a.k], rank[b.k]
            return x < y if op == "<" else x <= y if op == "<=" else x == y
        d = a.r.add(b.r, sub=True)
        p, s = d.cleared()
        if s < 0:
            p = p.neg()
        return ctx().cmp_poly(p, op)

    def _rel(self, o, op):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        return mkbool(self._cmp(o, op))

    def __lt__(self, o):
        return self._rel(o, "<")

    def __le__(self, o):
        return self._rel(o, "<=")

    def __gt__(self, o):
        o = _coerce(o)
        return o if o is NotImplemented else mkbool(o._cmp(self, "<"))

    def __ge__(self, o):
        o = _coerce(o)
        return o if o is NotImplemented else mkbool(o._cmp(self, "<="))

    def __eq__(self, o):
        return self._rel(o, "==")

    def __ne__(self, o):
        o = _coerce(o)
        return o if o is NotImplemented else mkbool(b_not(self._cmp(o, "==")))

    def __hash__(self):
        if self.is_const():
            return hash(self.pyvalue())
        if hashing[0]:
            return 0x5eed
        raise Unhashable("hash of a symbolic number")

    def __bool__(self):
        return ctx().branch(self.truth())

    # -- arithmetic ---------------------------------------------------------------
    def _bin(self, o, f, swap=False):
        o = _coerce(o)
        if o is NotImplemented:
            return o
        return f(o, self) if swap else f(self, o)

    def __add__(self, o):
        return self._bin(o, s_add)

    def __radd__(self, o):
        return self._bin(o, s_add, True)

    def __sub__(self, o):
        return self._bin(o, s_sub)

    def __rsub__(self, o):
        return self._bin(o, s_sub, True)

    def __mul__(self, o):
        return self._bin(o, s_mul)

    def __rmul__(self, o):
        return self._bin(o, s_mul, True)

    def __truediv__(self, o):
        return self._bin(o, s_pydiv)

    def __rtruediv__(self, o):
        return self._bin(o, s_pydiv, True)

    def __floordiv__(self, o):
        return self._bin(o, s_floordiv)

    def __rfloordiv__(self, o):
        return self._bin(o, s_floordiv, True)

    def __mod__(self, o):
        return self._bin(o, s_mod)

    def __rmod__(self, o):
        return self._bin(o, s_mod, True)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o, mod=None):
        return self._bin(o, s_pow)

    def __rpow__(self, o):
        return self._bin(o, s_pow, True)

    def __neg__(self):
        return s_neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return s_abs(self)

    # -- conversions --------------------------------------------------------------
    def __float__(self):
        if self.is_const():
            return float(self.pyvalue())
        raise Unsupported("float() of a symbolic number at a C boundary")

    def __int__(self):
        return concretize_int(s_trunc(self))

    def __index__(self):
        if self.dt is None or self.dt.kind not in "iu":
            if not self.is_const():
                raise TypeError("only integer scalars can be converted to an index")
        return concretize_int(self)

    def __trunc__(self):
        return s_trunc(self)

    def __floor__(self):
        return s_floor(self)

    def __ceil__(self):
        return s_ceil(self)

    def __round__(self, n=None):
        if n:
            raise Unsupported("round to digits")
        return s_rint(self)

    def __complex__(self):
        return complex(float(self))

    def __format__(self, spec):
        c = ctx()
        if self.is_const():
            v = self.pyvalue()
            return format(v, spec)
        tok = "\ue000n%d\ue001" % len(c.strs)
        m = re.fullmatch(r"[ +-]?0?\d*\.(\d+)f", spec)
        if m and self.k == FIN:      # rounded to some digits: any number that near
            half = Fraction(1, 2 * 10 ** int(m.group(1)))
            i = c.new_atom("rounded", kind="havoc", lo=-half, hi=half)
            c.strs[tok] = Sym(FIN, self.r, None) + Sym(FIN, Rat(Poly.atom(i)), None)
            return tok
        c.strs[tok] = self
        return tok

    def __str__(self):
        return self.__format__("")

    def __repr__(self):
        if self.k != FIN:
            return {"n": "nan", "p": "inf", "m": "-inf"}[self.k]
        if _Ctx.cur is None:
            return "<sym>"
        return "Sym(%r)" % (self.r,)

    # -- numpy scalar interface ----------------------------------------------------
    def astype(self, dt, **kw):
        return cast(self, np.dtype(dt))

    def item(self, *a):
        return Sym(self.k, self.r, None if (self.dt is None or self.dt.kind == "f") else self.dt)

    def copy(self, *a, **k):
        return self

    def squeeze(self, *a, **k):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def conjugate(self):
        return self

    def is_integer(self):
        return bool(s_floor(self) == self)

    def __dask_tokenize__(self):
        n = ctx().fcache.setdefault("dasktok", [0])
        n[0] += 1
        return ("sx", n[0])

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n in _UNARY:
            return lambda: _UNARY[n](self)
        if n in ("ravel", "reshape", "flatten", "clip", "min", "max", "sum", "mean", "any", "all", "tolist", "nonzero",
                 "round", "prod", "cumsum", "argmax", "argmin", "transpose", "view", "fill", "flat", "repeat", "take"):
            from sx.arr import wrap0
            return getattr(wrap0(self), n)
        raise AttributeError(n)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from sx import arr
        return arr.ufunc_entry(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from sx import arr
        return arr.function_entry(func, types, args, kwargs)

    def __getitem__(self, i):
        if i == () or i is Ellipsis:
            return self
        from sx.arr import wrap0
        if i is None:
            return wrap0(self)[None]
        raise TypeError("'float' object is not subscriptable")


def _coerce(o):
    if isinstance(o, Sym):
        return o
    if isinstance(o, (int, float, np.number, np.bool_, SymBool, Fraction)):
        return Sym.const(o)
    return NotImplemented


# -- elementwise semantics --------------------------------------------------------
def s_neg(a):
    if a.k == FIN:
        return Sym(FIN, a.r.neg(), a.dt)
    return Sym({NAN: NAN, PINF: NINF, NINF: PINF}[a.k], None, a.dt)


def s_add(a, b):
    dt = result_dt(a.dt, b.dt)
    if a.k == FIN and b.k == FIN:
        return Sym(FIN, a.r.add(b.r), dt)
    if a.k == NAN or b.k == NAN:
        return Sym(NAN, None, dt)
    if a.k == FIN:
        return Sym(b.k, None, dt)
    if b.k == FIN or a.k == b.k:
        return Sym(a.k, None, dt)
    return Sym(NAN, None, dt)


def s_sub(a, b):
    if a.k == FIN and b.k == FIN:
        return Sym(FIN, a.r.add(b.r, sub=True), result_dt(a.dt, b.dt))
    return s_add(a, s_neg(b))


def s_mul(a, b):
    dt = result_dt(a.dt, b.dt)
    if a.k == FIN and b.k == FIN:
        return Sym(FIN, a.r.mul(b.r), dt)
    if a.k == NAN or b.k == NAN:
        return Sym(NAN, None, dt)
    sa = a.sign() if a.k == FIN else (1 if a.k == PINF else -1)
    sb = b.sign() if b.k == FIN else (1 if b.k == PINF else -1)
    if sa * sb == 0:
        return Sym(NAN, None, dt)
    return Sym(PINF if sa * sb > 0 else NINF, None, dt)


def _fdt(dt):
    if dt is not None and dt.kind in "iub":
        return F64
    return dt


def s_div(a, b):
    """numpy division (errors ignored)."""
    dt = _fdt(result_dt(a.dt, b.dt))
    if a.k == NAN or b.k == NAN:
        return Sym(NAN, None, dt)
    if b.k != FIN:
        return Sym(NAN if a.k != FIN else FIN, Rat.const(0) if a.k == FIN else None, dt)
    if a.k == FIN and b.r.is_const() and b.r.const_value() != 0:
        return Sym(FIN, a.r.scale(1 / b.r.const_value()), dt)
    sb = b.sign()
    if sb == 0:
        if a.k != FIN:
            return Sym(a.k, None, dt)
        sa = a.sign()
        return Sym(NAN if sa == 0 else (PINF if sa > 0 else NINF), None, dt)
    if a.k != FIN:
        up = (a.k == PINF) == (sb > 0)
        return Sym(PINF if up else NINF, None, dt)
    return Sym(FIN, a.r.mul(b.r.inv()), dt)


def s_pydiv(a, b):
    if a.dt is None and b.dt is None and b.k == FIN:
        if not bool(mkbool(b.truth())):
            raise ZeroDivisionError("float division by zero")
    return s_div(a, b)


def s_abs(a):
    if a.k == FIN:
        if a.r.is_const():
            return Sym(FIN, Rat.const(abs(a.r.const_value())), a.dt)
        return a if a.sign() >= 0 else s_neg(a)
    return Sym(NAN if a.k == NAN else PINF, None, a.dt)


def s_pow(a, b):
    dt = result_dt(a.dt, b.dt)
    if b.k == FIN and b.r.is_const():
        n = b.r.const_value()
        if n == 0:
            return Sym(FIN, Rat.const(1), dt)
        if a.k == NAN:
            return Sym(NAN, None, dt)
        if n.denominator == 1:
            n = int(n)
            if n < 0:
                return s_div(Sym.const(1, dt), s_pow(a, Sym.const(-n, b.dt)))
            if a.k == FIN:
                return Sym(FIN, a.r.pow(n), dt)
            return Sym(PINF if (a.k == PINF or n % 2 == 0) else NINF, None, dt)
        if n == Fraction(1, 2):
            return s_sqrt(a)
        if n == Fraction(-1, 2):
            return s_div(Sym.const(1, dt), s_sqrt(a))
    if a.k == NAN or b.k == NAN:
        return Sym(NAN, None, dt)
    if a.k == FIN and a.r.is_const() and a.r.const_value() > 0 and b.k == FIN:
        v = a.r.const_value()
        if v == 1:
            return Sym(FIN, Rat.const(1), dt)
        return _retype(s_exp(Sym(FIN, b.r.scale(to_frac(math.log(v))), dt)), dt)
    if a.k == FIN and b.k == FIN:
        sa = a.sign()
        if sa > 0:
            return _retype(s_exp(s_mul(b, s_log(a))), dt)
        if sa == 0:
            sb = b.sign()
            if sb > 0:
                return Sym(FIN, Rat.const(0), dt)
            if sb == 0:
                return Sym(FIN, Rat.const(1), dt)
            return Sym(PINF, None, dt)
        # negative base: NaN unless the exponent is an integer
        if b.dt is not None and b.dt.kind in "iu":
            return s_pow(a, Sym.const(concretize_int(b), b.dt))
        if bool(s_floor(b) == b):
            raise Unsupported("negative base, symbolic integer exponent")
        return Sym(NAN, None, dt)
    raise Unsupported("power of infinities")


def _retype(s, dt):
    return Sym(s.k, s.r, dt)


def s_floordiv(a, b):
    q = s_div(a, b)
    r = s_floor(q)
    dt = result_dt(a.dt, b.dt)
    return Sym(r.k, r.r, dt)


def s_mod(a, b):
    if a.k != FIN or b.k == NAN:
        return Sym(NAN, None, result_dt(a.dt, b.dt))
    if b.k != FIN:
        raise Unsupported("mod inf")
    if b.sign() == 0:
        return Sym(NAN, None, result_dt(a.dt, b.dt))
    return s_sub(a, s_mul(b, s_floordiv(a, b)))


def int_atom(base, lo_rat, kind):
    """A fresh integer n constrained by the caller."""
    c = ctx()
    i = c.new_atom(base, kind=kind, arg=lo_rat, isint=True)
    return i


def _apply_int(a, name):
    """floor of a finite value as an integer atom (memoised)."""
    c = ctx()
    for (nm, arg, res) in c.fcache.get("int", []):
        if nm == name and arg.approx_same(a.r):
            return res
    i = c.new_atom(name, kind=name, arg=a.r, isint=True)
    lo, hi = c.interval(a.r.num) if not a.r.den else (None, None)
    at = c.atoms[i]
    if lo is not None:
        at.lo = Fraction(math.floor(lo))
    if hi is not None:
        at.hi = Fraction(math.floor(hi) if name == "floor" else math.floor(hi) + 1)
    n = Rat(Poly.atom(i))
    d = a.r.add(n, sub=True)           # a - n
    p, s = d.cleared()
    p = p if s > 0 else p.neg()
    if name == "floor":                # 0 <= a-n < 1
        c.assume(_z(c.cmp_poly(p.neg(), "<=")))
        d1 = d.add(Rat.const(1), sub=True)
        p1, s1 = d1.cleared()
        c.assume(_z(c.cmp_poly(p1 if s1 > 0 else p1.neg(), "<")))
    else:                              # rint: -1/2 <= a-n <= 1/2, ties to even
        half = Rat.const(Fraction(1, 2))
        dl = d.add(half)
        pl, sl = dl.cleared()
        c.assume(_z(c.cmp_poly((pl if sl > 0 else pl.neg()).neg(), "<=")))
        dh = d.add(half, sub=True)
        ph, sh = dh.cleared()
        ph = ph if sh > 0 else ph.neg()
        c.assume(_z(c.cmp_poly(ph, "<=")))
        iv = z3.Int(at.name)
        tie = z3.Or(_z(c.cmp_poly(pl, "==")), _z(c.cmp_poly(ph, "==")))
        c.assume(z3.Implies(tie, iv % 2 == 0))
    c.fcache.setdefault("int", []).append((name, a.r, i))
    return i


def _z(b):
    return z3.BoolVal(b) if isinstance(b, bool) else b


def s_floor(a):
    if a.k != FIN:
        return a
    if a.dt is not None and a.dt.kind in "iu":
        return a
    if a.r.is_const():
        return Sym(FIN, Rat.const(math.floor(a.r.const_value())), a.dt)
    if is_intvalued(a.r):
        return a
    return Sym(FIN, Rat(Poly.atom(_apply_int(a, "floor"))), a.dt)


def is_intvalued(r):
    if r.den:
        return False
    c = ctx()
    return all(co.denominator == 1 and all(c.atoms[at].isint for at, _ in m) for m, co in r.num.t.items())


def s_ceil(a):
    return s_neg(s_floor(s_neg(a)))


def s_trunc(a):
    """python int(): truncation, result is an integer."""
    if a.k != FIN:
        raise (ValueError if a.k == NAN else OverflowError)("cannot convert float to integer")
    if a.dt is not None and a.dt.kind in "iu":
        return a
    if a.r.is_const():
        return Sym(FIN, Rat.const(math.trunc(a.r.const_value())), I64)
    if a.sign() >= 0:
        return _retype(s_floor(a), I64)
    return _retype(s_ceil(a), I64)


def s_rint(a):
    if a.k != FIN:
        return a
    if a.r.is_const():
        return Sym(FIN, Rat.const(round(a.r.const_value())), I64 if a.dt is None else a.dt)
    if is_intvalued(a.r):
        return _retype(a, I64 if a.dt is None else a.dt)
    return Sym(FIN, Rat(Poly.atom(_apply_int(a, "rint"))), I64 if a.dt is None else a.dt)


def cast(a, dt):
    if isinstance(a, SymBool):
        if dt.kind == "b":
            return a
        a = a._num()
    if isinstance(a, (bool, np.bool_)):
        if dt.kind == "b":
            return bool(a)
        a = Sym.const(int(a))
    if not isinstance(a, Sym):
        a = Sym.const(a)
    if dt.kind == "f" or dt.kind == "O":
        return Sym(a.k, a.r, dt)
    if dt.kind == "b":
        return mkbool(a.truth())
    if dt.kind in "iu":
        info = np.iinfo(dt)
        if a.k != FIN:       # one open value per kind and type
            memo = ctx().fcache.setdefault("nancast", {})
            if (a.k, dt) not in memo:
                memo[a.k, dt] = havoc_int("cast", dt)
            return memo[a.k, dt]
        t = s_trunc(a)
        lo, hi = Sym.const(info.min), Sym.const(info.max)
        if t.is_const():
            v = int(t.r.const_value())
            if a.dt is not None and a.dt.kind in "iu" and not info.min <= v <= info.max:
                v = (v - info.min) % (2 ** info.bits) + info.min
            elif not info.min <= v <= info.max:
                return havoc_int("cast", dt)
            return Sym.const(v, dt)
        if bool(t >= lo) and bool(t <= hi):
            return Sym(FIN, t.r, dt)
        if a.dt is not None and a.dt.kind in "iu":
            m = s_mod(s_sub(_retype(t, None), Sym.const(info.min)), Sym.const(2 ** info.bits))
            return Sym(FIN, s_add(m, Sym.const(info.min)).r, dt)
        return havoc_int("cast", dt)
    raise Unsupported("cast to %s" % dt)


def havoc_int(base, dt):
    """Out of range or NaN cast: the C standard leaves the value open."""
    info = np.iinfo(dt)
    i = ctx().new_atom("havoc_" + base, kind="havoc", lo=Fraction(int(info.min)), hi=Fraction(int(info.max)), isint=True)
    return Sym(FIN, Rat(Poly.atom(i)), dt)


def concretize_int(a, limit=64):
    """Fork over the feasible values of an integer."""
    if not isinstance(a, Sym):
        return int(a)
    if a.is_const():
        return int(a.pyvalue())
    c = ctx()
    tries = 0
    if not a.r.den:
        lo, hi = c.interval(a.r.num)
        if lo is not None and hi is not None and math.ceil(lo) == math.floor(hi):
            return math.ceil(lo)
        if lo is not None and hi is not None and hi - lo < 16:      # few values: try them in turn
            for v in range(math.ceil(lo), math.floor(hi)):
                if c.branch(c.cmp_poly(a.r.num.add(Poly.const(v), sub=True), "==")):
                    return v
            return math.floor(hi)
    while True:
        tries += 1
        if tries > limit:
            raise Unsupported("too many values for a symbolic integer")
        if c.pos < len(c.trace):
            v = c.trace[c.pos][2] if len(c.trace[c.pos]) > 2 else None
        else:
            v = None
        if v is None:
            r = c.check()
            if r != z3.sat:
                if r == z3.unsat:
                    raise PathAbort("infeasible")
                raise Unsupported("solver unknown while choosing an integer")
            m = c.solver.model()
            e = m.eval(c.poly_z(a.r.num), model_completion=True)
            v = int(e.as_fraction()) if z3.is_rational_value(e) else None
            if v is None or a.r.den:
                raise Unsupported("integer of a fraction")
        eq = c.cmp_poly(a.r.num.add(Poly.const(v), sub=True), "==")
        p0 = c.pos
        ok = c.branch(eq)
        if c.pos > p0 and len(c.trace[p0]) == 2:
            c.trace[p0].append(v)
        if ok:
            return v


# -- transcendental functions -----------------------------------------------------
def _fn_atom(name, r, lo=None, hi=None):
    """(atom index, is new) for name(r); arguments equal up to MERGE share an atom."""
    c = ctx()
    lst = c.fcache.setdefault(name, [])
    for (arg, i) in lst:
        if arg.approx_same(r):
            return i, False
    i = c.new_atom(name, kind=name, arg=r, lo=lo, hi=hi)
    lst.append((r, i))
    return i, True


def _rz(a: Rat, op):
    p, s = a.cleared()
    return _z(ctx().cmp_poly(p if s > 0 else p.neg(), op))


def _monotone(name, i, increasing=True, guard=None):
    """Pairwise monotonicity lemmas between applications of one function."""
    c = ctx()
    r = c.atoms[i].arg
    y = Rat(Poly.atom(i))
    for (r2, j) in c.fcache[name]:
        if j == i:
            continue
        y2 = Rat(Poly.atom(j))
        d = r.add(r2, sub=True)
        e = y.add(y2, sub=True)
        if not increasing:
            e = e.neg()
        g = z3.And(guard(r), guard(r2)) if guard else None
        lem = z3.And(_rz(d, "<") == _rz(e, "<"), _rz(d, "==") == _rz(e, "=="))
        c.assume(z3.Implies(g, lem) if g is not None else lem)


def s_exp(a):
    dt = _fdt(a.dt)
    if a.k == NAN:
        return Sym(NAN, None, dt)
    if a.k == PINF:
        return Sym(PINF, None, dt)
    if a.k == NINF:
        return Sym(FIN, Rat.const(0), dt)
    if a.r.is_const():
        v = a.r.const_value()
        if v > 700:
            return Sym(PINF, None, dt)
        return Sym(FIN, Rat.const(math.exp(float(v))), dt)
    c = ctx()
    # exp(c0 + log atom * n) = e^c0 * arg^n
    if not a.r.den and len(a.r.num.t) == 1:
        (m, co), = a.r.num.t.items()
        if len(m) == 1 and m[0][1] == 1 and c.atoms[m[0][0]].kind == "log" and abs(co - round(co)) < NOISE:
            return Sym(FIN, c.atoms[m[0][0]].arg.pow(int(round(co))), dt)
    i, new = _fn_atom("exp", a.r, lo=Fraction(0))
    if new:
        E = Rat(Poly.atom(i))
        zE = c.atoms[i].z
        c.assume(zE > 0)
        one = Rat.const(1)
        em1 = E.add(one, sub=True)
        c.assume(_rz(a.r, "<") == _rz(em1, "<"))
        c.assume(_rz(a.r, "==") == _rz(em1, "=="))
        c.assume(_rz(one.add(a.r).add(E, sub=True), "<="))          # 1 + x <= e^x
        lo, hi = _rat_interval(a.r)
        at = c.atoms[i]
        if lo is not None and -700 < lo < 700:
            at.lo = to_frac(math.exp(float(lo))) * Fraction(999999, 1000000)
            c.assume(zE >= zfrac(at.lo))
        if hi is not None and -700 < hi < 700:
            at.hi = to_frac(math.exp(float(hi))) * Fraction(1000001, 1000000)
            c.assume(zE <= zfrac(at.hi))
        _monotone("exp", i)
    return Sym(FIN, Rat(Poly.atom(i)), dt)


def _rat_interval(r: Rat):
    c = ctx()
    lo, hi = c.interval(r.num)
    for f, e in r.den.items():
        fl, fh = c.interval(c.factors[f][0])
        for _ in range(e):
            if fl is not None and fl > 0:
                il, ih = (1 / fh if fh else Fraction(0)), 1 / fl
            elif fh is not None and fh < 0:
                il, ih = 1 / fh, (1 / fl if fl else Fraction(0))
            else:
                return None, None
            lo, hi = _imul(lo, hi, il, ih)
    return lo, hi


def s_log(a):
    dt = _fdt(a.dt)
    if a.k == NAN or a.k == NINF:
        return Sym(NAN, None, dt)
    if a.k == PINF:
        return Sym(PINF, None, dt)
    if a.r.is_const():
        v = a.r.const_value()
        if v == 0:
            return Sym(NINF, None, dt)
        return Sym(FIN, Rat.const(math.log(float(v))), dt) if v > 0 else Sym(NAN, None, dt)
    sg = a.sign()
    if sg < 0:
        return Sym(NAN, None, dt)
    if sg == 0:
        return Sym(NINF, None, dt)
    c = ctx()
    # log(c * exp(x)) = log c + x
    if not a.r.den and len(a.r.num.t) == 1:
        (m, co), = a.r.num.t.items()
        if len(m) == 1 and m[0][1] == 1 and c.atoms[m[0][0]].kind == "exp" and co > 0:
            r = c.atoms[m[0][0]].arg
            if abs(co - 1) > NOISE:
                r = r.add(Rat.const(math.log(float(co))))
            return Sym(FIN, r, dt)
    i, new = _fn_atom("log", a.r)
    if new:
        L = Rat(Poly.atom(i))
        am1 = a.r.add(Rat.const(1), sub=True)
        c.assume(_rz(am1, "<") == _rz(L, "<"))
        c.assume(_rz(am1, "==") == _rz(L, "=="))
        c.assume(_rz(L.add(am1, sub=True), "<="))                   # log x <= x - 1
        # 1 - 1/x <= log x  <=>  x - 1 <= x log x
        c.assume(_rz(am1.add(a.r.mul(L), sub=True), "<="))
        _monotone("log", i)
    return Sym(FIN, Rat(Poly.atom(i)), dt)


PI = to_frac(math.pi)


def s_cos(a):
    dt = _fdt(a.dt)
    if a.k != FIN:
        return Sym(NAN, None, dt)
    if a.r.is_const():
        return Sym(FIN, Rat.const(math.cos(float(a.r.const_value()))), dt)
    c = ctx()
    if not a.r.den and len(a.r.num.t) == 1:
        (m, co), = a.r.num.t.items()
        if len(m) == 1 and m[0][1] == 1 and c.atoms[m[0][0]].kind == "arccos" and abs(abs(co) - 1) < NOISE:
            return Sym(FIN, c.atoms[m[0][0]].arg, dt)
    lo, hi = _rat_interval(a.r)
    clo, chi = Fraction(-1), Fraction(1)
    slack = Fraction(1, 10 ** 9)
    if lo is not None and hi is not None and lo >= -slack and hi <= PI + slack:
        clo = max(clo, to_frac(math.cos(float(min(hi, PI)))) - slack)
        chi = min(chi, to_frac(math.cos(float(max(lo, Fraction(0))))) + slack)
    i, new = _fn_atom("cos", a.r, lo=clo, hi=chi)
    if new:
        C = Rat(Poly.atom(i))
        half = PI / 2
        x2 = a.r.mul(a.r)
        # cos x >= 1 - x^2/2
        c.assume(_rz(Rat.const(1).add(x2.scale(Fraction(1, 2)), sub=True).add(C, sub=True), "<="))
        inq = z3.And(_rz(a.r.neg(), "<="), _rz(a.r.add(Rat.const(half - slack), sub=True), "<="))
        c.assume(z3.Implies(inq, _rz(C.neg(), "<")))
        c.assume(z3.Implies(_rz(a.r, "=="), _rz(C.add(Rat.const(1), sub=True), "==")))

        def inside(r):
            return z3.And(_rz(r.neg(), "<="), _rz(r.add(Rat.const(PI), sub=True), "<="))

        _monotone("cos", i, increasing=False, guard=inside)
        # special points
        for deg in (30, 45, 60, 75, 80, 85, 88):
            x0 = to_frac(math.radians(deg))
            c0 = to_frac(math.cos(math.radians(deg)))
            dx = a.r.add(Rat.const(x0), sub=True)
            dc = C.add(Rat.const(c0), sub=True)
            c.assume(z3.Implies(z3.And(inside(a.r), _rz(dx, "<")), _rz(dc.neg().add(Rat.const(-slack)), "<=")))
            c.assume(z3.Implies(z3.And(inside(a.r), _rz(dx.neg(), "<")), _rz(dc.add(Rat.const(-slack)), "<=")))
    return Sym(FIN, Rat(Poly.atom(i)), dt)


def s_sin(a):
    if a.k != FIN:
        return Sym(NAN, None, _fdt(a.dt))
    return s_cos(Sym(FIN, Rat.const(PI / 2).add(a.r, sub=True), a.dt))


def s_tan(a):
    return s_div(s_sin(a), s_cos(a))


def s_arccos(a):
    dt = _fdt(a.dt)
    if a.k != FIN:
        return Sym(NAN, None, dt)
    if a.r.is_const():
        v = float(a.r.const_value())
        return Sym(FIN, Rat.const(math.acos(v)), dt) if -1 <= v <= 1 else Sym(NAN, None, dt)
    c = ctx()
    if not bool(a <= 1) or not bool(a >= -1):
        return Sym(NAN, None, dt)
    i, new = _fn_atom("arccos", a.r, lo=Fraction(0), hi=PI)
    if new:
        y = Rat(Poly.atom(i))
        c.assume(_rz(a.r.add(Rat.const(1), sub=True), "==") == _rz(y, "=="))
        c.assume(_rz(a.r, "<") == _rz(Rat.const(PI / 2).add(y, sub=True), "<"))
        _monotone("arccos", i, increasing=False)
    return Sym(FIN, Rat(Poly.atom(i)), dt)


def s_sqrt(a):
    dt = _fdt(a.dt)
    if a.k == NAN or a.k == NINF:
        return Sym(NAN, None, dt)
    if a.k == PINF:
        return Sym(PINF, None, dt)
    if a.r.is_const():
        v = a.r.const_value()
        if v < 0:
            return Sym(NAN, None, dt)
        return Sym(FIN, Rat.const(math.sqrt(float(v))), dt)
    if a.sign() < 0:
        return Sym(NAN, None, dt)
    c = ctx()
    i, new = _fn_atom("sqrt", a.r, lo=Fraction(0))
    if new:
        y = Rat(Poly.atom(i))
        c.assume(_rz(y.mul(y).add(a.r, sub=True), "=="))
    return Sym(FIN, Rat(Poly.atom(i)), dt)


def s_expm1(a):
    return s_sub(s_exp(a), Sym.const(1))


def s_log1p(a):
    return s_log(s_add(a, Sym.const(1)))


def s_deg2rad(a):
    return _retype(s_mul(a, Sym.const(math.pi / 180)), _fdt(a.dt))


def s_rad2deg(a):
    return _retype(s_mul(a, Sym.const(180 / math.pi)), _fdt(a.dt))


def s_sgn(a):
    if a.k != FIN:
        return a if a.k == NAN else Sym.const(1 if a.k == PINF else -1, a.dt)
    return Sym.const(a.sign(), a.dt)


def s_maximum(a, b):
    dt = result_dt(a.dt, b.dt)
    if a.k == NAN or b.k == NAN:
        return Sym(NAN, None, dt)
    return _retype(a if bool(a >= b) else b, dt)


def s_minimum(a, b):
    dt = result_dt(a.dt, b.dt)
    if a.k == NAN or b.k == NAN:
        return Sym(NAN, None, dt)
    return _retype(a if bool(a <= b) else b, dt)


def s_fmax(a, b):
    if a.k == NAN:
        return b
    if b.k == NAN:
        return a
    return s_maximum(a, b)


def s_fmin(a, b):
    if a.k == NAN:
        return b
    if b.k == NAN:
        return a
    return s_minimum(a, b)


def s_isnan(a):
    return a.k == NAN


def s_isfinite(a):
    return a.k == FIN


def s_isinf(a):
    return a.k in (PINF, NINF)


_UNARY = {"exp": s_exp, "log": s_log, "cos": s_cos, "sin": s_sin, "tan": s_tan, "arccos": s_arccos, "sqrt": s_sqrt,
          "expm1": s_expm1, "log1p": s_log1p, "deg2rad": s_deg2rad, "radians": s_deg2rad, "rad2deg": s_rad2deg,
          "degrees": s_rad2deg, "floor": s_floor, "ceil": s_ceil, "rint": s_rint, "trunc": s_trunc,
          "isnan": s_isnan, "isfinite": s_isfinite, "isinf": s_isinf, "fabs": s_abs}
