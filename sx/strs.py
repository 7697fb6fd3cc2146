"""Bounded symbolic strings: concrete length (by fork), symbolic characters over a finite alphabet.

Equality, concatenation, slicing, replace, case mapping, prefix/suffix and
containment are symbolic; every other operation concretises the string, which
forks over its feasible values.
"""
from __future__ import annotations

import re

import z3

from sx import core
from sx.core import SymBool, Unhashable, ctx, mkbool


def _cz(c):
    return c if isinstance(c, int) else c


def _ceq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return (z3.IntVal(a) if isinstance(a, int) else a) == (z3.IntVal(b) if isinstance(b, int) else b)


def chars_of(s):
    if isinstance(s, SymStr):
        return s._ch
    return [ord(c) for c in s]


def mkstr(chars, alphabet):
    if all(isinstance(c, int) for c in chars):
        return "".join(map(chr, chars))
    return SymStr._make(chars, alphabet)


_OWN = set()


class SymStr(str):
    _sx_symbolic = True

    @staticmethod
    def _make(chars, alphabet):
        c = ctx()
        n = c.fcache.setdefault("nstr", [0])
        n[0] += 1
        s = str.__new__(SymStr, "\0sx%d\0" % n[0])
        s._ch = list(chars)
        s._al = frozenset(alphabet)
        return s

    @staticmethod
    def fresh(name, maxlen, alphabet, minlen=0):
        c = ctx()
        al = sorted({ord(a) for a in alphabet})
        n = z3.Int(c.fresh(name + ".len"))
        c.assume(z3.And(n >= minlen, n <= maxlen))
        L = minlen
        while L < maxlen and not c.branch(n == L):
            L += 1
        chars = []
        for i in range(L):
            v = z3.Int(c.fresh("%s.%d" % (name, i)))
            c.assume(z3.Or([v == a for a in al]))
            chars.append(v)
        s = SymStr._make(chars, al)
        return s

    def model(self, m):
        return "".join(chr(x if isinstance(x, int) else m.eval(x, model_completion=True).as_long()) for x in self._ch)

    def concretize(self):
        c = ctx()
        out = []
        for x in self._ch:
            if isinstance(x, int):
                out.append(x)
                continue
            al = sorted(self._al)
            for a in al[:-1]:
                if c.branch(x == a):
                    out.append(a)
                    break
            else:
                out.append(al[-1])
        return "".join(map(chr, out))

    # -- symbolic operations
    def _eqz(self, o):
        a, b = self._ch, chars_of(o)
        if len(a) != len(b):
            return False
        zs = []
        for x, y in zip(a, b):
            e = _ceq(x, y)
            if e is False:
                return False
            if e is not True:
                zs.append(e)
        return z3.And(zs) if zs else True

    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        return mkbool(self._eqz(o))

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SymBool) else not r

    def __hash__(self):
        if core.hashing[0]:
            return 0x5eee
        raise Unhashable("hash of a symbolic string")

    def __len__(self):
        return len(self._ch)

    def __bool__(self):
        return bool(self._ch)

    def _new(self, chars, al=()):
        return mkstr(chars, self._al | set(al))

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return self._new(self._ch + chars_of(o), chars_alpha(o))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return self._new(chars_of(o) + self._ch, chars_alpha(o))

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self._new(self._ch[i])
        return self._new([self._ch[i]])

    def __iter__(self):
        return iter([self._new([x]) for x in self._ch])

    def _map(self, f):
        if all(isinstance(x, int) or True for x in self._ch):
            out = []
            for x in self._ch:
                if isinstance(x, int):
                    out.append(ord(f(chr(x))))
                else:
                    e = x
                    for a in sorted(self._al):
                        b = ord(f(chr(a)))
                        if b != a:
                            e = z3.If(x == a, z3.IntVal(b), e)
                    out.append(e)
            al = {ord(f(chr(a))) for a in self._al}
            return mkstr(out, al)

    def lower(self):
        return self._map(str.lower)

    def upper(self):
        return self._map(str.upper)

    casefold = lower

    def startswith(self, p, *a):
        if a:
            return self.concretize().startswith(p, *a)
        if isinstance(p, tuple):
            return any(bool(self.startswith(q)) for q in p)
        n = len(p)
        if n > len(self._ch):
            return False
        s = self[:n]
        return bool(s == p)

    def endswith(self, p, *a):
        if a:
            return self.concretize().endswith(p, *a)
        if isinstance(p, tuple):
            return any(bool(self.endswith(q)) for q in p)
        n = len(p)
        if n > len(self._ch):
            return False
        if n == 0:
            return True
        return bool(self[-n:] == p)

    def __contains__(self, p):
        n = len(p)
        if n == 0:
            return True
        pc = chars_of(p)
        zs = []
        for i in range(len(self._ch) - n + 1):
            es = [_ceq(x, y) for x, y in zip(self._ch[i:i + n], pc)]
            if any(e is False for e in es):
                continue
            es = [e for e in es if e is not True]
            if not es:
                return True
            zs.append(z3.And(es))
        return ctx().branch(z3.Or(zs)) if zs else False

    def replace(self, old, new, count=-1):
        if count != -1 or isinstance(new, SymStr) or isinstance(old, SymStr):
            return self.concretize().replace(str(old), str(new), count)
        if len(old) == len(new) == 1:
            return self._map(lambda ch: ch.replace(old, new))
        # left-to-right scan, forking on each possible match
        oc, nc = chars_of(old), chars_of(new)
        n = len(oc)
        if n == 0:
            return self.concretize().replace(old, new)
        out, i = [], 0
        c = ctx()
        while i < len(self._ch):
            hit = False
            if i + n <= len(self._ch):
                es = [_ceq(x, y) for x, y in zip(self._ch[i:i + n], oc)]
                if not any(e is False for e in es):
                    es = [e for e in es if e is not True]
                    hit = c.branch(z3.And(es)) if es else True
            if hit:
                out += nc
                i += n
            else:
                out.append(self._ch[i])
                i += 1
        return self._new(out, nc)

    def __str__(self):
        return self

    def __repr__(self):
        return "SymStr(%r)" % (self._ch,)

    def __getattribute__(self, n):
        if n.startswith("_") or n in _OWN or not hasattr(str, n):
            return object.__getattribute__(self, n)
        return getattr(object.__getattribute__(self, "concretize")(), n)

    def __lt__(self, o):
        return str.__lt__(self.concretize(), conc(o))

    def __le__(self, o):
        return str.__le__(self.concretize(), conc(o))

    def __gt__(self, o):
        return str.__gt__(self.concretize(), conc(o))

    def __ge__(self, o):
        return str.__ge__(self.concretize(), conc(o))

    def __mod__(self, o):
        return self.concretize() % o

    def __rmod__(self, o):
        return o % self.concretize()

    def __mul__(self, n):
        return self._new(self._ch * n)


_OWN.update({"concretize", "model", "fresh", "lower", "upper", "casefold", "startswith", "endswith", "replace"})


def conc(x):
    if isinstance(x, SymStr):
        return x.concretize()
    if isinstance(x, tuple):
        return tuple(conc(y) for y in x)
    if isinstance(x, list):
        return [conc(y) for y in x]
    return x


def chars_alpha(s):
    return s._al if isinstance(s, SymStr) else {ord(c) for c in s}


# -- helpers used by the source rewrites of the loader
def fstr(*parts):
    """An f-string: the parts are strings or (value, conversion, spec)."""
    if not any(isinstance(p, tuple) and isinstance(p[0], SymStr) for p in parts):
        out = []
        for p in parts:
            if isinstance(p, tuple):
                v, conv, spec = p
                if conv == 114:
                    v = repr(v)
                elif conv == 115:
                    v = str(v)
                elif conv == 97:
                    v = ascii(v)
                out.append(format(v, spec))
            else:
                out.append(p)
        return "".join(out)
    acc = ""
    for p in parts:
        if isinstance(p, tuple):
            v, conv, spec = p
            if isinstance(v, SymStr) and conv in (-1, 115) and not spec:
                acc = acc + v if isinstance(acc, SymStr) else v.__radd__(acc)
                continue
            q = fstr((conc(v), conv, spec))
        else:
            q = p
        acc = acc + q
    return acc


def join(sep, *a, **k):
    """X.join(...): also os.path.join and friends, which are called unchanged."""
    if isinstance(sep, str) and len(a) == 1 and not k:
        items = list(a[0])
        if isinstance(sep, SymStr) or any(isinstance(i, SymStr) for i in items):
            acc = ""
            for n, i in enumerate(items):
                if not isinstance(i, str):
                    raise TypeError("sequence item %d: expected str instance" % n)
                for q in ((sep, i) if n else (i,)):
                    acc = q.__radd__(acc) if isinstance(q, SymStr) and not isinstance(acc, SymStr) else acc + q
            return acc
        return sep.join(items)
    return sep.join(*[conc(x) for x in a], **k)


def str_format(s, *a, **k):
    if isinstance(s, str):
        return conc(s).format(*[conc(x) for x in a], **{n: conc(v) for n, v in k.items()})
    return s.format(*a, **k)


def mod(a, b):
    """a % b; a string template gets its symbolic string arguments concretised."""
    if isinstance(a, str):
        a, b = conc(a), conc(b)
        args = b if isinstance(b, tuple) else (b,)
        if any(isinstance(x, core.Sym) for x in args):
            return _printf(a, args)
        return a % b
    return a % b


_SPEC = re.compile(r"%([-+ 0]*)(\d*)(\.\d+)?([diouxXeEfFgGcrsa%])")


def _printf(t, args):
    """A template with symbolic numbers: each becomes the text `format` gives it."""
    args = list(args)

    def one(m):
        if m.group(4) == "%":
            return m.group(0) % ()
        if not args:
            raise TypeError("not enough arguments for format string")
        v = args.pop(0)
        if not isinstance(v, core.Sym):
            return m.group(0) % (v,)
        if m.group(4) in "sra":
            return str(v)
        if m.group(4) not in "eEfFgG":
            raise core.Unsupported("a symbolic number formatted with %" + m.group(4))
        return format(v, m.group(1).replace("-", "") + m.group(2) + (m.group(3) or "") + m.group(4))
    out = _SPEC.sub(one, t)
    if args:
        raise TypeError("not all arguments converted during string formatting")
    return out
