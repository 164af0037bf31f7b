"""Symbolic text: a sequence of pieces.

  str            literal characters
  Digit(e)       one decimal digit, value e (0..9)
  Nat(e)         decimal rendering of the integer e >= 0 without leading zeros
  Neg0(e)        sign character '-' iff e (a bool term), else empty   [expanded by forking]
  RealF(e, n)    f"{e:.nf}"  [expanded on inspection into sign, Nat, '.', n Digits]
  SReal(e)       repr of a float;  PReal(e): plain decimal text of the value
  Atom(name)     opaque text, not empty, otherwise nothing is known about it
"""
from __future__ import annotations

import z3

from .sym import (CTX, I, R, Sym, SymBool, SymInt, SymLen, SymReal, Unsupported, ctx, mkbool,
                  mkint, mkreal)


class Digit:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e


class Nat:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e


class RealF:
    __slots__ = ("e", "n", "plus")

    def __init__(self, e, n, plus=False):
        self.e, self.n, self.plus = e, n, plus


class SInt:
    """str(int) of a symbolic integer of either sign."""

    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e


class SReal:
    """repr() of a float: text denoting exactly the value (shape unknown)."""

    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e


class PReal:
    """Decimal text without exponent denoting exactly the value (shape otherwise unknown)."""

    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e


class Atom:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


def has_exponent(p):
    """Whether repr of the float uses scientific notation: unknown, decided once per value."""
    c = ctx()
    key = ("exponent", z3.simplify(p.e).sexpr())
    if key not in c.cache:
        c.cache[key] = c.fresh("exponent", "b")
    return bool(mkbool(c.cache[key]))


def digit_exprs(n, k):
    """k fresh digits d with sum = n (requires 0 <= n < 10^k on this path)."""
    c = ctx()
    key = ("digits", z3.simplify(n).sexpr(), k)
    if key not in c.cache:
        ds = [c.fresh("dig", "i") for _ in range(k)]
        for d in ds:
            c.add(d >= 0, d <= 9)
        tot = z3.IntVal(0)
        for d in ds:
            tot = tot * 10 + d
        c.add(z3.simplify(tot) == n)
        c.cache[key] = ds
    return c.cache[key]


def expand_real(p):
    """RealF -> pieces [sign, Nat, '.', Digits]."""
    c = ctx()
    key = ("realf", z3.simplify(p.e).sexpr(), p.n)
    if key not in c.cache:
        a = z3.If(p.e >= 0, p.e, -p.e)
        scale = 10**p.n
        N = c.fresh("fmtN", "i")  # round(|x| * 10^n), half-even on the exact value
        c.add(z3.ToReal(N) - a * scale <= z3.Q(1, 2), a * scale - z3.ToReal(N) <= z3.Q(1, 2), N >= 0)
        ip = c.fresh("fmtI", "i")
        fp = c.fresh("fmtF", "i")
        c.add(N == ip * scale + fp, fp >= 0, fp < scale, ip >= 0)
        ds = [c.fresh("dig", "i") for _ in range(p.n)]
        tot = z3.IntVal(0)
        for d in ds:
            c.add(d >= 0, d <= 9)
            tot = tot * 10 + d
        c.add(z3.simplify(tot) == fp)
        c.cache[key] = (N, ip, ds)
    N, ip, ds = c.cache[key]
    # sign: '-' for negative values; a negative value rounding to zero still prints '-0.00'
    out = []
    if bool(mkbool(p.e < 0)):
        out.append("-")
    elif p.plus:
        out.append("+")
    out.append(Nat(ip))
    if p.n > 0:
        out.append(".")
        out += [Digit(d) for d in ds]
    return out


def chars_of(p):
    """Expand piece into single-character units (str of length 1 or Digit)."""
    if isinstance(p, str):
        return list(p)
    if isinstance(p, Digit):
        return [p]
    if isinstance(p, Nat):
        v = z3.simplify(p.e)
        if z3.is_int_value(v):
            return list(str(v.as_long()))
        n = SymLen(0, p.e)._conc()
        return [Digit(d) for d in digit_exprs(p.e, n)]
    if isinstance(p, RealF):
        return [q for x in expand_real(p) for q in chars_of(x)]
    if isinstance(p, SInt):
        if bool(mkbool(p.e < 0)):
            return ["-"] + chars_of(Nat(z3.simplify(-p.e)))
        return chars_of(Nat(p.e))
    raise Unsupported(f"inspection of opaque text {type(p).__name__}")


def norm(pieces):
    out = []
    for p in pieces:
        if isinstance(p, str):
            if p == "":
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
                continue
            p = str(p)
        elif isinstance(p, Digit):
            v = z3.simplify(p.e)
            if z3.is_int_value(v):
                s = str(v.as_long())
                if out and isinstance(out[-1], str):
                    out[-1] += s
                    continue
                p = s
        out.append(p)
    return out


class SymStr(Sym):
    __slots__ = ("p",)

    def __init__(self, pieces):
        self.p = norm(pieces)

    # -- construction
    def __add__(self, o):
        if isinstance(o, SymStr):
            return mk(self.p + o.p)
        if isinstance(o, str):
            return mk(self.p + [o])
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str):
            return mk([o] + self.p)
        return NotImplemented

    def __mod__(self, o):
        raise Unsupported("% formatting")

    def __mul__(self, n):
        if isinstance(n, int):
            return mk(self.p * n)
        raise Unsupported("text repetition")

    def __str__(self):
        raise Unsupported("native str() of symbolic text")

    def __repr__(self):
        return "SymStr(" + "+".join(repr(x) if isinstance(x, str) else type(x).__name__ for x in self.p) + ")"

    def __format__(self, spec):
        raise Unsupported("native format() of symbolic text")

    def __hash__(self):
        raise Unsupported("hash of symbolic text")

    # -- inspection
    def units(self):
        return [u for p in self.p for u in chars_of(p)]

    def length(self):
        base = 0
        nat = None
        for p in self._expand_reals():
            if isinstance(p, str):
                base += len(p)
            elif isinstance(p, Digit):
                base += 1
            elif isinstance(p, Nat):
                if nat is not None:
                    return len(self.units())
                nat = p
            else:
                raise Unsupported("length of opaque text")
        if nat is None:
            return base
        return SymLen(base, nat.e)

    def _expand_reals(self):
        out = []
        for p in self.p:
            if isinstance(p, RealF):
                out += expand_real(p)
            elif isinstance(p, SInt):
                if bool(mkbool(p.e < 0)):
                    out += ["-", Nat(z3.simplify(-p.e))]
                else:
                    out.append(Nat(p.e))
            else:
                out.append(p)
        return out

    def __len__(self):
        n = self.length()
        if isinstance(n, SymLen):
            n = n._conc()
        return n

    def __bool__(self):
        for p in self.p:
            if isinstance(p, (Digit, Nat, RealF, SInt, SReal, PReal, Atom)) or (isinstance(p, str) and p):
                return True
        return False

    def __getitem__(self, i):
        if isinstance(i, int) and i == 0:
            # leading character without fixing the length
            p = self._expand_reals()
            if not p:
                raise IndexError("string index out of range")
            f = p[0]
            if isinstance(f, str):
                return f[0]
            if isinstance(f, Digit):
                return mk([f])
            if isinstance(f, Nat):
                return LeadDigit([f])
        if isinstance(i, slice) and i.step is None and i.stop is None and isinstance(i.start, int) and i.start > 0:
            p = self._expand_reals()
            if p and isinstance(p[0], str) and len(p[0]) >= i.start:
                return mk([p[0][i.start:]] + p[1:])
        u = self.units()
        r = u[i]
        return mk(r if isinstance(i, slice) else [r])

    def __iter__(self):
        for u in self.units():
            yield mk([u])

    def __contains__(self, s):
        if isinstance(s, str) and len(s) == 1:
            for p in self._expand_reals():
                if isinstance(p, str):
                    if s in p:
                        return True
                elif isinstance(p, (Digit, Nat)):
                    if s.isdigit():
                        for u in chars_of(p):
                            if unit_eq(u, s):
                                return True
                elif isinstance(p, SReal) and s in "eE":
                    if s == "e" and has_exponent(p):
                        return True
                elif isinstance(p, PReal) and s in "eE":
                    continue
                else:
                    raise Unsupported("search in opaque text")
            return False
        raise Unsupported("substring search in symbolic text")

    def strip_side(self, chars, left):
        chars = " \t\n\r\x0b\x0c" if chars is None else chars
        p = self._expand_reals()
        if not left:
            p = p[::-1]
        while p:
            h = p[0]
            if isinstance(h, str):
                t = h.lstrip(chars) if left else h.rstrip(chars)
                if t:
                    p[0] = t
                    break
                p = p[1:]
                continue
            if isinstance(h, Nat):
                if not any(ch.isdigit() for ch in chars):
                    break
                if left and chars == "0":
                    if bool(mkbool(h.e == 0)):
                        p = p[1:]
                        continue
                    break
                us = chars_of(h)
                if not left:
                    us = us[::-1]
                p = us + p[1:]
                continue
            if isinstance(h, Digit):
                hit = False
                for ch in chars:
                    if ch.isdigit() and unit_eq(h, ch):
                        hit = True
                        break
                if hit:
                    p = p[1:]
                    continue
                break
            raise Unsupported("strip of opaque text")
        if not left:
            p = p[::-1]
        return mk(p)

    def lstrip(self, chars=None):
        return self.strip_side(chars, True)

    def rstrip(self, chars=None):
        return self.strip_side(chars, False)

    def strip(self, chars=None):
        r = self.strip_side(chars, True)
        return r.rstrip(chars)

    def split(self, sep=None, maxsplit=-1):
        if not isinstance(sep, str) or len(sep) != 1 or sep.isdigit():
            raise Unsupported("split")
        parts = [[]]
        n = 0
        for p in self._expand_reals():
            if isinstance(p, str):
                seg = p.split(sep, maxsplit - n if maxsplit >= 0 else -1)
                parts[-1].append(seg[0])
                for x in seg[1:]:
                    parts.append([x])
                    n += 1
            elif isinstance(p, (Digit, Nat)):
                parts[-1].append(p)
            else:
                raise Unsupported("split of opaque text")
        return [mk(x) for x in parts]

    def partition(self, sep):
        r = self.split(sep, 1)
        return (r[0], sep, r[1]) if len(r) == 2 else (r[0], "", "")

    def replace(self, a, b, count=-1):
        if isinstance(a, str) and len(a) == 1 and not a.isdigit():
            out = []
            for p in self._expand_reals():
                if isinstance(p, str):
                    out.append(p.replace(a, b))
                elif isinstance(p, (Digit, Nat)):
                    out.append(p)
                else:
                    raise Unsupported("replace in opaque text")
            return mk(out)
        raise Unsupported("replace")

    def _just(self, width, fill, right):
        n = self.length()
        if isinstance(width, Sym):
            width = width.__index__()
        if isinstance(n, SymLen):
            n = n._conc()
        k = max(0, width - n)
        return mk([fill * k] + self.p) if right else mk(self.p + [fill * k])

    def rjust(self, width, fill=" "):
        return self._just(width, fill, True)

    def ljust(self, width, fill=" "):
        return self._just(width, fill, False)

    def zfill(self, width):
        u = self._expand_reals()
        if u and isinstance(u[0], str) and u[0][0] in "+-":
            return mk([u[0][0]]) + mk([u[0][1:]] + u[1:]).zfill(width - 1)
        return self._just(width, "0", True)

    def startswith(self, s, *a):
        if a:
            raise Unsupported("startswith with bounds")
        if isinstance(s, tuple):
            return any(self.startswith(x) for x in s)
        if s == "":
            return True
        p = self._expand_reals()
        if not p:
            return False
        f = p[0]
        if isinstance(f, str):
            if len(f) >= len(s):
                return f.startswith(s)
            if not s.startswith(f):
                return False
            return mk(p[1:]).startswith(s[len(f):]) if len(p) > 1 else False
        if isinstance(f, (Digit, Nat)):
            if not s[0].isdigit():
                return False
            if len(s) == 1:
                return bool(unit_eq(chars_of(f)[0], s))
        raise Unsupported("startswith")

    def endswith(self, s, *a):
        p = self._expand_reals()
        if s == "":
            return True
        if not p:
            return False
        f = p[-1]
        if isinstance(f, str) and len(f) >= len(s):
            return f.endswith(s)
        if isinstance(f, (Digit, Nat)) and len(s) == 1:
            if not s.isdigit():
                return False
            return bool(unit_eq(chars_of(f)[-1], s))
        raise Unsupported("endswith")

    def removeprefix(self, s):
        if self.startswith(s):
            return self[len(s):]
        return self

    def isdigit(self):
        for p in self._expand_reals():
            if isinstance(p, str):
                if not p.isdigit():
                    return False
            elif not isinstance(p, (Digit, Nat)):
                raise Unsupported("isdigit")
        return bool(self.p)

    def count(self, s):
        if isinstance(s, str) and len(s) == 1 and not s.isdigit():
            return sum(p.count(s) for p in self._expand_reals() if isinstance(p, str))
        raise Unsupported("count")

    def __eq__(self, o):
        if isinstance(o, str):
            o = SymStr([o])
        if not isinstance(o, SymStr):
            return NotImplemented
        return text_eq(self.p, o.p)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        from .sym import B

        return mkbool(z3.Not(B(r)))

    def __getattr__(self, name):
        raise Unsupported(f"str.{name} of symbolic text")


class LeadDigit(SymStr):
    """First character of a Nat: some digit."""

    def __eq__(self, o):
        if isinstance(o, str):
            if len(o) != 1 or not o.isdigit():
                return False
            if o == "0":
                return mkbool(self.p[0].e == 0)
        raise Unsupported("leading digit comparison")

    __hash__ = Sym.__hash__


def unit_eq(u, ch):
    if isinstance(u, str):
        return u == ch
    if not ch.isdigit():
        return False
    return bool(mkbool(u.e == int(ch)))


def mk(pieces):
    pieces = norm(pieces)
    if not pieces:
        return ""
    if len(pieces) == 1 and isinstance(pieces[0], str):
        return pieces[0]
    return SymStr(pieces)


def _same(a, b):
    """Equality condition of two aligned symbolic pieces, or None if not comparable."""
    if type(a) is not type(b):
        return None
    if isinstance(a, Atom):
        return True if a.name == b.name else None
    if isinstance(a, RealF):
        if a.n != b.n:
            return None
        return a.e == b.e
    return a.e == b.e


def text_eq(p, q):
    """Condition under which two piece sequences are equal (sound: exact or Unsupported)."""
    import itertools

    p, q = list(p), list(q)
    conds = []
    while p and q:
        a, b = p[0], q[0]
        if isinstance(a, str) and isinstance(b, str):
            k = min(len(a), len(b))
            if a[:k] != b[:k]:
                return False
            p = ([a[k:]] if a[k:] else []) + p[1:]
            q = ([b[k:]] if b[k:] else []) + q[1:]
            continue
        if not isinstance(a, str) and not isinstance(b, str):
            c = _same(a, b)
            if c is not None:
                if c is not True:
                    conds.append(c)
                p, q = p[1:], q[1:]
                continue
        if isinstance(a, (Atom, SReal, PReal)) or isinstance(b, (Atom, SReal, PReal)):
            raise Unsupported("comparison of opaque text")
        # align at character level
        ua = chars_of(a)
        ub = chars_of(b)
        k = min(len(ua), len(ub))
        for x, y in zip(ua[:k], ub[:k]):
            if isinstance(x, str) and isinstance(y, str):
                if x != y:
                    return False
            elif isinstance(x, str) or isinstance(y, str):
                s, d = (x, y) if isinstance(x, str) else (y, x)
                if not s.isdigit():
                    return False
                conds.append(d.e == int(s))
            else:
                conds.append(x.e == y.e)
        p = ua[k:] + p[1:]
        q = ub[k:] + q[1:]
    rest = p or q
    for r in rest:
        if isinstance(r, Atom):
            raise Unsupported("comparison of opaque text")
        return False
    return mkbool(z3.And(*conds)) if conds else True


# ------------------------------------------------------------------ conversions

def to_str(x):
    if isinstance(x, SymStr):
        return x
    if isinstance(x, SymInt):
        return mk([SInt(x.e)])
    if isinstance(x, SymReal):
        return mk([SReal(x.e)])
    if isinstance(x, SymBool):
        return "True" if x else "False"
    raise Unsupported(f"str of {type(x)}")


def format_(x, spec):
    if not isinstance(spec, str):
        raise Unsupported("symbolic format spec")
    if isinstance(x, SymStr):
        if spec == "":
            return x
        raise Unsupported(f"format spec {spec!r} on symbolic text")
    if spec == "":
        return to_str(x)
    import re

    m = re.fullmatch(r"(\+?)\.(\d+)f", spec)
    if m and isinstance(x, (SymReal, SymInt)):
        return mk([RealF(R(x), int(m.group(2)), bool(m.group(1)))])
    m = re.fullmatch(r"0?(\d+)?d?", spec)
    if m and isinstance(x, SymInt):
        w = int(m.group(1) or 0)
        s = to_str(x)
        return s.zfill(w) if w else s
    raise Unsupported(f"format spec {spec!r}")


def value_of(x):
    """Number denoted by decimal text: returns (sign, int term scaled, decimals)."""
    p = x._expand_reals()
    sign = 1
    if p and isinstance(p[0], str) and p[0][:1] in ("+", "-"):
        if p[0][0] == "-":
            sign = -1
        p = ([p[0][1:]] if p[0][1:] else []) + p[1:]
    tot = z3.IntVal(0)
    dec = None
    seen = False
    for q in p:
        if isinstance(q, (SReal, PReal)):
            if len(p) == 1:
                return ("real", sign, q.e)
            raise Unsupported("number text")
        if isinstance(q, Nat) and (not seen) and dec is None:
            tot = q.e
            seen = True
            continue
        for u in chars_of(q):
            if isinstance(u, str):
                if u == "." and dec is None:
                    dec = 0
                    continue
                if not u.isdigit():
                    raise ValueError(f"could not convert string to float: {u}")
                tot = tot * 10 + int(u)
            else:
                tot = tot * 10 + u.e
            seen = True
            if dec is not None:
                dec += 1
    if not seen:
        raise ValueError("could not convert string to number")
    return ("dec", sign, z3.simplify(tot), dec)


def to_float(x):
    if isinstance(x, SymStr):
        v = value_of(x)
        if v[0] == "real":
            return mkreal(v[1] * v[2])
        _, s, t, d = v
        return mkreal(s * z3.ToReal(t) / (10 ** (d or 0)))
    if isinstance(x, SymReal):
        return x
    return mkreal(R(x))


def to_int(x):
    if isinstance(x, SymStr):
        v = value_of(x)
        if v[0] == "real" or v[3] is not None:
            raise Unsupported("int of real text")
        return mkint(v[1] * v[2])
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return mkint(I(x))
    return x.__trunc__()
