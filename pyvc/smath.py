"""Stand-in for the `math` module seen by the code under verification.

Concrete arguments go to the real `math`.  Symbolic arguments get the following
*assumed contracts* (trusted, listed in the evidence):
  sqrt(x): raises ValueError if x < 0, else r >= 0 and r*r = x
  sin/cos: sin^2+cos^2 = 1; exact at multiples of 90 degrees; odd/even not assumed
  atan2(y, x) = t: 0 at the origin, else the direction of (x, y) in (-pi, pi] (pyvc/spec.py
      theta: quadrants, and the angle between any two directions against the signs of their
      cross and dot product); r*cos t = x, r*sin t = y with r = sqrt(x^2+y^2)
  radians/degrees: linear with the constant pi;  pi itself: interval of width 1e-13
  floor/ceil/trunc/hypot/fabs/isclose: their definitions
"""
from __future__ import annotations

import math as _m

import z3

from . import sym
from .sym import (PI, R, SymBool, SymInt, SymReal, Sym, Unsupported, const_of, ctx, mkbool,
                  mkint, mkreal)

inf = _m.inf
nan = _m.nan
e = _m.e
pi = SymReal(PI)
tau = SymReal(2 * PI)


def _issym(*a):
    return any(isinstance(x, Sym) for x in a)


def _key(x):
    return z3.simplify(R(x), som=True).sexpr()


def sqrt(x):
    if not _issym(x):
        if isinstance(x, (int, float)) and x >= 0:
            r = _m.sqrt(x)
            if r * r == x:
                return r
            if sym.CTX is None:
                # import-time constant: global exact axiom
                t = z3.Real(f"sqrt_{x!r}")
                sym.GLOBAL_AXIOMS += [t >= 0, t * t == sym.realval(x)]
                return SymReal(t)
            x = SymReal(sym.realval(x))
        else:
            return _m.sqrt(x)
    c = ctx()
    if x < 0:
        raise ValueError("math domain error")
    e_ = z3.simplify(R(x), som=True)
    k = ("sqrt", e_.sexpr())
    if k not in c.cache:
        r = c.fresh("sqrt", "r")
        c.add(r >= 0, r * r == e_)
        c.cache[k] = r
    return SymReal(c.cache[k])


def hypot(*a):
    if not _issym(*a):
        return _m.hypot(*a)
    s = a[0] * a[0]
    for v in a[1:]:
        s = s + v * v
    return sqrt(s)


def dist(p, q):
    return hypot(*[a - b for a, b in zip(p, q)])


def _quarter(x):
    """k if x == k*pi/2 for a constant integer k (syntactically), else None."""
    e_ = z3.simplify(R(x) / PI * 2, som=True)
    # z3 does not cancel PI/PI; detect linear c*PI by evaluating at PI := 1 and PI := 2
    a = z3.simplify(z3.substitute(R(x), (PI, z3.RealVal(1))))
    b = z3.simplify(z3.substitute(R(x), (PI, z3.RealVal(2))))
    if z3.is_rational_value(a) and z3.is_rational_value(b):
        from fractions import Fraction

        fa = Fraction(a.numerator_as_long(), a.denominator_as_long())
        fb = Fraction(b.numerator_as_long(), b.denominator_as_long())
        if fb == 2 * fa and (2 * fa).denominator == 1:
            return int(2 * fa) % 4
    return None


def _sc(x):
    c = ctx()
    q = _quarter(x)
    if q is not None:
        return [(0, 1), (1, 0), (0, -1), (-1, 0)][q]
    k = ("sincos", _key(x))
    if k not in c.cache:
        c.axioms_used = True
        s, co = c.fresh("sin", "r"), c.fresh("cos", "r")
        c.add(s * s + co * co == 1, s <= 1, s >= -1, co <= 1, co >= -1)
        src = c.cache.get(("atan2src", _key(x)))
        if src is not None:
            Y, X = src
            r = sqrt(mkreal(X * X + Y * Y)).e
            c.add(r * s == Y, r * co == X)
        c.cache[k] = (s, co)
        c.trig = getattr(c, "trig", [])
    s, co = c.cache[k]
    return SymReal(s), SymReal(co)


def sin(x):
    if not _issym(x):
        return _m.sin(x)
    r = _sc(x)[0]
    return r if isinstance(r, SymReal) else float(r)


def cos(x):
    if not _issym(x):
        return _m.cos(x)
    r = _sc(x)[1]
    return r if isinstance(r, SymReal) else float(r)


def tan(x):
    if not _issym(x):
        return _m.tan(x)
    return sin(x) / cos(x)


def radians(x):
    if not _issym(x):
        if sym.CTX is None:
            return _m.radians(x)
        x = SymReal(sym.realval(x))
    return mkreal(R(x) * PI / 180)


def degrees(x):
    if not _issym(x):
        return _m.degrees(x)
    # degrees(radians(d)) == d: simplify (c*PI)*180/PI syntactically when x is linear in PI
    a = R(x)
    k = ("deg", z3.simplify(a, som=True).sexpr())
    c = ctx()
    if k not in c.cache:
        base = z3.simplify(z3.substitute(a, (PI, z3.RealVal(1))), som=True)
        if not _mentions(base, PI) and z3.is_true(z3.simplify(z3.simplify(base * PI, som=True) == z3.simplify(a, som=True))):
            d = z3.simplify(base * 180)
        else:
            d = c.fresh("deg", "r")
            c.add(d * PI == a * 180)
        c.cache[k] = d
    return SymReal(c.cache[k])


def _mentions(e_, v):
    todo = [e_]
    while todo:
        t = todo.pop()
        if t.eq(v):
            return True
        todo.extend(t.children())
    return False


def atan2(y, x):
    if not _issym(y, x):
        return _m.atan2(y, x)
    c = ctx()
    k = ("atan2", _key(y), _key(x))
    if k not in c.cache:
        c.axioms_used = True
        from . import spec
        from .ctx import SymC

        if (x == 0) and (y == 0):
            c.cache[k] = z3.RealVal(0)
            return SymReal(c.cache[k])
        th = R(spec.theta(SymC(c), x, y))
        # in (-180, 180]; kept in degrees so that PI stays out of the arithmetic
        d = z3.If(th > 180, th - 360, th)
        c.cache[k] = z3.simplify(d * PI / 180)
        c.cache[("atan2src", _key(SymReal(c.cache[k])))] = (R(y), R(x))
        c.cache[("deg", z3.simplify(c.cache[k], som=True).sexpr())] = d
    return SymReal(c.cache[k])


def acos(x):
    if not _issym(x):
        return _m.acos(x)
    if x < -1:
        raise ValueError("math domain error")
    if x > 1:
        raise ValueError("math domain error")
    return atan2(sqrt(1 - x * x), x)


def asin(x):
    if not _issym(x):
        return _m.asin(x)
    if x < -1:
        raise ValueError("math domain error")
    if x > 1:
        raise ValueError("math domain error")
    return atan2(x, sqrt(1 - x * x))


def atan(x):
    if not _issym(x):
        return _m.atan(x)
    return atan2(x, 1)


def floor(x):
    return x.__floor__() if _issym(x) else _m.floor(x)


def ceil(x):
    return x.__ceil__() if _issym(x) else _m.ceil(x)


def trunc(x):
    return x.__trunc__() if _issym(x) else _m.trunc(x)


def fabs(x):
    return mkreal(R(abs(x))) if _issym(x) else _m.fabs(x)


def pow(x, y):  # noqa: A001
    return x**y if _issym(x, y) else _m.pow(x, y)


def fmod(x, y):
    if not _issym(x, y):
        return _m.fmod(x, y)
    raise Unsupported("fmod")


def copysign(x, y):
    if not _issym(x, y):
        return _m.copysign(x, y)
    a = R(abs(x))
    return mkreal(z3.If(R(y) >= 0, a, -a))


def isclose(a, b, *, rel_tol=1e-9, abs_tol=0.0):
    if not _issym(a, b):
        return _m.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    A, Bv = R(a), R(b)
    ab = lambda t: z3.If(t >= 0, t, -t)  # noqa: E731
    mx = z3.If(ab(A) >= ab(Bv), ab(A), ab(Bv))
    tol = z3.If(mx * R(rel_tol) >= R(abs_tol), mx * R(rel_tol), R(abs_tol))
    return mkbool(ab(A - Bv) <= tol)


def isnan(x):
    return False if _issym(x) else _m.isnan(x)


def isinf(x):
    return False if _issym(x) else _m.isinf(x)


def isfinite(x):
    return True if _issym(x) else _m.isfinite(x)


def log10(x):
    if not _issym(x):
        return _m.log10(x)
    raise Unsupported("log10")


def fsum(xs):
    t = 0.0
    for v in xs:
        t = t + v
    return t


def prod(xs, start=1):
    t = start
    for v in xs:
        t = t * v
    return t


def __getattr__(name):
    f = getattr(_m, name)
    if not callable(f):
        return f

    def g(*a, **k):
        if _issym(*a):
            raise Unsupported(f"math.{name} of symbolic value")
        return f(*a, **k)

    return g
