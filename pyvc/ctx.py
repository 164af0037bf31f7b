"""Contract contexts: the same contract text is *proved* over symbolic values (SymC) and
*executed* on concrete values (ConC: replay of counterexamples, run-time checking)."""
from __future__ import annotations

import math
import random
from fractions import Fraction

TOL = 1e-6


class Skip(Exception):
    """Concrete sample does not satisfy the precondition."""


class ContractFailed(Exception):
    def __init__(self, label, detail=""):
        self.label, self.detail = label, detail
        super().__init__(f"{label}: {detail}")


def artifact(e):
    """An error caused by symbolic values reaching code that cannot take them: out of reach, not a fault of the code."""
    import re

    return standin(e) or isinstance(e, (TypeError, AttributeError, ValueError, ArithmeticError)) and re.search(r"\bSym(Real|Int|Bool|Str|Len|Range)\b|\bLeadDigit\b|pyvc", str(e)) is not None


_NAMES = None


def _names():
    """Qualified names of all functions of the contracts."""
    global _NAMES
    if _NAMES is None:
        import glob
        import os

        _NAMES = set()
        todo = []
        for f in glob.glob(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts", "*.py")):
            with open(f, encoding="utf-8") as h:
                todo.append(compile(h.read(), f, "exec"))
        while todo:
            k = todo.pop()
            _NAMES.add(k.co_qualname)
            todo += [x for x in k.co_consts if hasattr(x, "co_qualname")]
    return _NAMES


def standin(e):
    """An error caused by a stand-in of the contracts that does not offer what the code asks for."""
    import re

    if isinstance(e, AttributeError):
        k = getattr(e, "obj", None)
        k = k if isinstance(k, type) else type(k)
        return k.__module__.startswith("contracts") and not any(b.__module__.startswith("pygerber") for b in k.__mro__)
    if isinstance(e, TypeError):
        m = re.match(r"([\w.<>]+)\(\) (got|missing|takes)", str(e))
        if m is None:
            m2 = re.match(r"'(\w+)' object ", str(e))
            return m2 is not None and m2[1] in ("Picture", "Strict", "Geo", "Arr", "FakeImage", "StandFile", "Lib")
        return m[1] in _names()
    return False


class Base:
    sym = False

    def _guard(self, e):
        if self.sym and artifact(e):
            raise self.S.Unsupported(f"{type(e).__name__}: {e}") from None

    def check(self, cond, label, detail=""):
        raise NotImplementedError

    def fail(self, label, detail=""):
        self.check(False, label, detail)

    def vec(self, name, lo=None, hi=None):
        from pygerber.vm.types.vector import Vector

        return Vector(x=self.real(name + ".x", lo, hi), y=self.real(name + ".y", lo, hi))

    def calls(self, fn, exc=Exception):
        """Run fn(); return (result, None) or (None, exception)."""
        try:
            return fn(), None
        except exc as e:  # noqa: BLE001
            self._guard(e)
            return None, e

    def stub(self, owner, name, fn):
        """Use the contract `fn` instead of the body of owner.name (symbolic runs only).
        fn is proved against the body by its own contract."""

    def noraise(self, fn, label):
        try:
            return fn()
        except Exception as e:  # noqa: BLE001
            if type(e).__name__ in ("Skip", "ContractFailed"):
                raise
            self._guard(e)
            self.fail(f"{label}: no exception", f"{type(e).__name__}: {e}")
            raise self._end() from None


class SymC(Base):
    sym = True

    def __init__(self, ex):
        from . import sym as S, symstr as T

        self.ex, self.S, self.T = ex, S, T
        self._i = 0

    def _end(self):
        return self.S.PathEnd()

    def stub(self, owner, name, fn):
        import types

        self.ex.stubs.append((owner, name, owner.__dict__[name]))
        if isinstance(fn, types.FunctionType):
            inner, bad = fn, self.S.Unsupported

            def fn(*a, **k):
                try:
                    return inner(*a, **k)
                except TypeError as e:
                    if e.__traceback__ is not None and e.__traceback__.tb_next is None:
                        # called with other arguments than the contract knows
                        raise bad(f"{name}: {e}") from None
                    raise

        setattr(owner, name, fn)

    # -- inputs
    def real(self, name, lo=None, hi=None):
        import z3

        t = z3.Real(name)
        self.ex.inputs[name] = t
        if lo is not None:
            self.ex.add(t >= self.S.realval(lo))
        if hi is not None:
            self.ex.add(t <= self.S.realval(hi))
        return self.S.SymReal(t)

    def int(self, name, lo=None, hi=None):
        import z3

        t = z3.Int(name)
        self.ex.inputs[name] = t
        if lo is not None:
            self.ex.add(t >= lo)
        if hi is not None:
            self.ex.add(t <= hi)
        return self.S.SymInt(t)

    def bool(self, name):
        return self.choice(name, [False, True])

    def choice(self, name, seq):
        seq = list(seq)
        i = self.ex.choose(len(seq))
        self.ex.inputs[name] = i
        return seq[i]

    def digits(self, name, n):
        import z3

        out = []
        for i in range(n):
            t = z3.Int(f"{name}.{i}")
            self.ex.inputs[f"{name}.{i}"] = t
            self.ex.add(t >= 0, t <= 9)
            out.append(self.T.Digit(t))
        return self.T.mk(out)

    def text(self, name):
        self.ex.inputs[name] = "text:" + name
        return self.T.mk([self.T.Atom(name)])

    def const(self, v):
        return self.S.SymReal(self.S.realval(v))

    # -- logic
    def assume(self, cond):
        self.ex.assume(self.S.B(cond))

    def check(self, cond, label, detail=""):
        self.ex.prove(self.S.B(cond), label)

    def eq(self, a, b, label, tol=None):
        self.ex.prove(self.S.R(a) == self.S.R(b), label)

    def And(self, *xs):
        import z3

        return self.S.mkbool(z3.And(*[self.S.B(x) for x in xs]))

    def Or(self, *xs):
        import z3

        return self.S.mkbool(z3.Or(*[self.S.B(x) for x in xs]))

    def Not(self, x):
        import z3

        return self.S.mkbool(z3.Not(self.S.B(x)))

    def Implies(self, a, b):
        import z3

        return self.S.mkbool(z3.Implies(self.S.B(a), self.S.B(b)))

    def If(self, c, a, b):
        import z3

        return self.S.mkreal(z3.If(self.S.B(c), self.S.R(a), self.S.R(b)))

    def near(self, a, b, tol=None):
        """a == b (exact over reals; tolerant on floats)."""
        return self.S.mkbool(self.S.R(a) == self.S.R(b))

    def le(self, a, b, tol=None):
        return self.S.mkbool(self.S.R(a) <= self.S.R(b))

    def lt(self, a, b, tol=None):
        return self.S.mkbool(self.S.R(a) < self.S.R(b))

    def abs(self, a):
        return self.If(a >= 0, a, -a) if isinstance(a, self.S.Sym) else abs(a)

    def min(self, *xs):
        from .hook import c_minmax

        return c_minmax(True)(*xs)

    def max(self, *xs):
        from .hook import c_minmax

        return c_minmax(False)(*xs)

    @property
    def math(self):
        from . import smath

        return smath

    def reach(self, label):
        self.ex.reached[label] = self.ex.reached.get(label, 0) + 1

    def generic_loops(self, on=True):
        self.ex.generic_loops = on
        self.ex.loop_indices = []

    def loop_indices(self):
        return [self.S.SymInt(k) for k in self.ex.loop_indices]

    def to_int(self, t):
        return self.T.to_int(t) if isinstance(t, self.S.Sym) else int(t)

    def text_eq(self, a, b, label):
        r = (a == b)
        if r is NotImplemented:
            r = False
        self.ex.prove(self.S.B(r), label)


class ConC(Base):
    sym = False

    def __init__(self, values=None, rng=None, strict=False):
        self.values = values or {}
        self.rng = rng or random.Random(0)
        self.used = {}
        self.checked = 0
        self.labels = {}

    def _end(self):
        return Skip()

    def _get(self, name, gen):
        if name in self.values:
            v = self.values[name]
        else:
            v = gen()
        self.used[name] = v
        return v

    def real(self, name, lo=None, hi=None):
        def gen():
            r = self.rng
            l, h = (-20.0 if lo is None else float(lo)), (20.0 if hi is None else float(hi))
            if h - l > 1e4:
                l, h = max(l, -5000.0), min(h, 5000.0)
            k = r.random()
            if k < 0.15:
                c = [x for x in (0.0, 1.0, -1.0, 0.5, 2.0, l, h, 90.0, 180.0, 45.0) if l <= x <= h]
                return r.choice(c)
            if k < 0.5:
                return max(l, min(h, round(r.uniform(l, h) * 4) / 4))
            if k < 0.75 and lo is None and hi is None:
                return float(r.randint(-3, 3))
            return r.uniform(l, h)

        v = self._get(name, gen)
        if isinstance(v, list):
            v = float(Fraction(v[0], v[1]))
        self.used[name] = v
        v = float(v)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Skip
        return v

    def int(self, name, lo=None, hi=None):
        def gen():
            l = -50 if lo is None else lo
            h = (max(l, 0) + 50) if hi is None else hi
            if self.rng.random() < 0.5:
                h = min(h, l + 4)
            return self.rng.randint(l, h)

        v = self._get(name, gen)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Skip
        return int(v)

    def bool(self, name):
        return self.choice(name, [False, True])

    def choice(self, name, seq):
        seq = list(seq)
        i = self._get(name, lambda: self.rng.randrange(len(seq)))
        return seq[i]

    def digits(self, name, n):
        out = []
        for i in range(n):
            d = self._get(f"{name}.{i}", lambda: 0 if self.rng.random() < 0.3 else self.rng.randint(0, 9))
            out.append(str(d))
        return "".join(out)

    def text(self, name):
        v = self._get(name, lambda: "text:" + name)
        h = "".join(ch if ch.isalnum() else "_" for ch in name)
        return f"Zq{h}"

    def const(self, v):
        return float(v)

    def assume(self, cond):
        if not cond:
            raise Skip

    def check(self, cond, label, detail=""):
        self.checked += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        if not cond:
            raise ContractFailed(label, detail)

    def near(self, a, b, tol=None):
        if a == b:
            return True
        if math.isinf(a) or math.isinf(b):
            return False
        t = TOL if tol is None else tol
        return abs(a - b) <= t * max(1.0, abs(a), abs(b))

    def eq(self, a, b, label, tol=None):
        self.check(self.near(a, b, tol), label, f"got {a!r}, expected {b!r}")

    def le(self, a, b, tol=None):
        if math.isinf(a) or math.isinf(b):
            return a <= b
        t = TOL if tol is None else tol
        return a <= b + t * max(1.0, abs(a), abs(b))

    def lt(self, a, b, tol=None):
        return self.le(a, b, tol)

    def And(self, *xs):
        return all(xs)

    def Or(self, *xs):
        return any(xs)

    def Not(self, x):
        return not x

    def Implies(self, a, b):
        return (not a) or bool(b)

    def If(self, c, a, b):
        return a if c else b

    def abs(self, a):
        return abs(a)

    def min(self, *xs):
        return min(*xs)

    def max(self, *xs):
        return max(*xs)

    @property
    def math(self):
        return math

    def reach(self, label):
        pass

    def generic_loops(self, on=True):
        pass

    def to_int(self, t):
        return int(t)

    def text_eq(self, a, b, label):
        self.check(a == b, label, f"got {a!r}, expected {b!r}")
