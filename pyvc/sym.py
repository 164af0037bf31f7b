"""Symbolic values and the path explorer (the VC generator core).

Every value class here overloads Python's operators so that *the real code*, executed
by CPython, builds z3 terms.  A truth test of a symbolic condition is a fork point: the
explorer re-executes the function once per feasible outcome, so all paths are covered.
Any operation without a faithful symbolic meaning raises `Unsupported`, which makes the
contract undecided (never proved).

Numbers: Python floats are treated as mathematical reals, ints as mathematical integers.
"""
from __future__ import annotations

import time
from fractions import Fraction

import z3

z3.set_param("smt.random_seed", 7)


#: numbers written by native code with repr() while a contract collects them (see Ctx.written)
TOKENS = None


class Unsupported(BaseException):
    """Construct outside the verifier's reach (BaseException: user code must not eat it)."""


class PathEnd(BaseException):
    """Current path is abandoned (infeasible assumption or closed by an induction cut)."""


class Budget(BaseException):
    """Path / time budget exhausted: undecided."""


CTX = None  # current Explorer

PI = z3.Real("PI")
GLOBAL_AXIOMS = [PI > z3.RealVal("3.14159265358979"), PI < z3.RealVal("3.1415926535898")]


def ctx():
    if CTX is None:
        raise Unsupported("symbolic operation outside a contract")
    return CTX


# --------------------------------------------------------------------------- helpers

def realval(x):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        return z3.RealVal(x)
    if isinstance(x, Fraction):
        return z3.Q(x.numerator, x.denominator)
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported("non-finite float constant meets symbolic value")
        return z3.RealVal(repr(x))
    raise Unsupported(f"cannot turn {type(x)} into a real")


def is_num(x):
    return isinstance(x, (int, float, Fraction, SymReal, SymInt, SymBool, SymLen))


def R(x):
    """z3 real term of a number."""
    if isinstance(x, SymReal):
        return x.e
    if isinstance(x, SymInt):
        return z3.ToReal(x.e)
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, SymLen):
        raise Unsupported("arithmetic on symbolic length")
    if hasattr(x, "dtype") and hasattr(x, "item"):
        x = x.item()
    return realval(x)


def I(x):
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    raise Unsupported(f"cannot turn {type(x)} into an int term")


def B(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, (bool, int)) or x is None:
        return z3.BoolVal(bool(x))
    if z3.is_expr(x):
        return x
    return z3.BoolVal(bool(x))


def mkreal(e):
    e = z3.simplify(e)
    return SymReal(e)


def mkint(e):
    return SymInt(z3.simplify(e))


def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def const_of(x):
    """Fraction if the symbolic number is a constant, else None."""
    e = x.e if isinstance(x, (SymReal, SymInt)) else None
    if e is None:
        return None
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    if z3.is_int_value(e):
        return Fraction(e.as_long())
    return None


class Sym:
    __slots__ = ()

    def __hash__(self):
        raise Unsupported("hash of a symbolic value")

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def _cmp(op):
    def f(self, o):
        if not is_num(o):
            return NotImplemented
        if isinstance(o, SymLen):
            return NotImplemented
        if isinstance(self, SymInt) and isinstance(o, (int, SymInt, SymBool)):
            return mkbool(op(I(self), I(o)))
        if isinstance(o, float) and o in (float("inf"), float("-inf")):
            # symbolic reals are finite
            return bool(op(0.0, o))
        return mkbool(op(R(self), R(o)))

    return f


import operator as _o


class _Num(Sym):
    __slots__ = ()

    def __eq__(self, o):
        if o is None or not is_num(o):
            return NotImplemented
        return _cmp(_o.eq)(self, o)

    def __ne__(self, o):
        if o is None or not is_num(o):
            return NotImplemented
        return _cmp(_o.ne)(self, o)

    __hash__ = Sym.__hash__
    __lt__ = _cmp(_o.lt)
    __le__ = _cmp(_o.le)
    __gt__ = _cmp(_o.gt)
    __ge__ = _cmp(_o.ge)

    def _ar(self, o, op, swap=False):
        if not is_num(o):
            return NotImplemented
        if isinstance(self, SymInt) and isinstance(o, (int, SymInt, SymBool)):
            a, b = I(self), I(o)
            mk = mkint
        else:
            a, b = R(self), R(o)
            mk = mkreal
        if swap:
            a, b = b, a
        return mk(op(a, b))

    def __add__(self, o):
        return self._ar(o, _o.add)

    def __radd__(self, o):
        return self._ar(o, _o.add, True)

    def __sub__(self, o):
        return self._ar(o, _o.sub)

    def __rsub__(self, o):
        return self._ar(o, _o.sub, True)

    def __mul__(self, o):
        return self._ar(o, _o.mul)

    def __rmul__(self, o):
        return self._ar(o, _o.mul, True)

    def __truediv__(self, o):
        if not is_num(o):
            return NotImplemented
        if o == 0:
            raise ZeroDivisionError("float division by zero")
        return mkreal(R(self) / R(o))

    def __rtruediv__(self, o):
        if not is_num(o):
            return NotImplemented
        if self == 0:
            raise ZeroDivisionError("float division by zero")
        return mkreal(R(o) / R(self))

    def __pos__(self):
        return self

    def __floordiv__(self, o):
        if not is_num(o):
            return NotImplemented
        if o == 0:
            raise ZeroDivisionError
        if isinstance(self, SymInt) and isinstance(o, (int, SymInt)):
            if isinstance(o, int) and o > 0:
                return mkint(I(self) / I(o))
            raise Unsupported("integer floor division by non-constant")
        k = ctx().floor_of(R(self) / R(o))
        return SymReal(z3.ToReal(k))

    def __rfloordiv__(self, o):
        raise Unsupported("floordiv by symbolic")

    def __mod__(self, o):
        if not is_num(o):
            return NotImplemented
        if o == 0:
            raise ZeroDivisionError
        if isinstance(self, SymInt) and isinstance(o, (int, SymInt)):
            if isinstance(o, int) and o > 0:
                return mkint(I(self) % I(o))
            raise Unsupported("integer modulo by non-constant")
        if not isinstance(o, (int, float)) or o <= 0:
            raise Unsupported("modulo by symbolic")
        k = ctx().floor_of(R(self) / R(o))
        v = ctx().fixed_int(k)
        if v is not None:
            return self if v == 0 else mkreal(R(self) - R(o) * v)
        return mkreal(R(self) - R(o) * z3.ToReal(k))

    def __rmod__(self, o):
        if isinstance(o, str):
            raise Unsupported("% formatting of symbolic value")
        raise Unsupported("modulo by symbolic")

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o, m=None):
        c = const_of(o) if isinstance(o, (SymReal, SymInt)) else o
        if isinstance(c, (int, float, Fraction)) and c == int(c) and 0 <= c <= 8:
            c = int(c)
            if c == 0:
                return 1 if isinstance(self, SymInt) else 1.0
            r = self
            for _ in range(c - 1):
                r = r * self
            return r
        if c == 0.5:
            from . import smath

            return smath.sqrt(self)
        if c in (-1, -1.0):
            return 1 / self
        if c in (-2, -2.0):
            return 1 / (self * self)
        raise Unsupported(f"power {o!r}")

    def __rpow__(self, o):
        raise Unsupported("symbolic exponent")

    def __abs__(self):
        if isinstance(self, SymInt):
            return mkint(z3.If(self.e >= 0, self.e, -self.e))
        return mkreal(z3.If(self.e >= 0, self.e, -self.e))

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        raise Unsupported("float() of a symbolic value in native code")

    def __round__(self, n=None):
        if isinstance(self, SymInt):
            return self
        if n is None or n == 0:
            k = ctx().round_of(self.e)
            return SymInt(k) if n is None else SymReal(z3.ToReal(k))
        if isinstance(n, int) and n > 0:
            k = ctx().round_of(self.e * (10**n))
            return mkreal(z3.ToReal(k) / (10**n))
        raise Unsupported("round")

    def __str__(self):
        raise Unsupported("str() of a symbolic value in native code")

    def __repr__(self):
        if TOKENS is not None:
            TOKENS.append(self)
            return f"\u27e6{len(TOKENS) - 1}\u27e7"
        return f"<{type(self).__name__} {self.e}>"


class SymReal(_Num):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __neg__(self):
        return mkreal(-self.e)

    def __trunc__(self):
        if self >= 0:
            return SymInt(ctx().floor_of(self.e))
        return mkint(-ctx().floor_of(-self.e))

    __int__ = None

    def __floor__(self):
        return SymInt(ctx().floor_of(self.e))

    def __ceil__(self):
        return mkint(-ctx().floor_of(-self.e))

    def is_integer(self):
        return mkbool(self.e == z3.ToReal(ctx().floor_of(self.e)))

    @property
    def real(self):
        return self

    def __format__(self, spec):
        raise Unsupported("format() of a symbolic value in native code")


class SymInt(_Num):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __neg__(self):
        return mkint(-self.e)

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __trunc__

    def __index__(self):
        # concretise if the path condition fixes the value, else unsupported
        v = ctx().fixed_int(self.e)
        if v is None:
            raise Unsupported("symbolic integer used as a native index")
        return v

    __int__ = __index__

    def __format__(self, spec):
        raise Unsupported("format() of a symbolic value in native code")

    def __and__(self, o):
        raise Unsupported("bitwise")

    __or__ = __xor__ = __lshift__ = __rshift__ = __and__


class SymBool(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ctx().decide(self.e)

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(self.e == B(o))
        if is_num(o):
            return mkint(I(self)) == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return mkbool(z3.Not(B(r)))

    __hash__ = Sym.__hash__

    def _i(self):
        return SymInt(I(self))

    def __mul__(self, o):
        return self._i() * o

    def __rmul__(self, o):
        return o * self._i()

    def __add__(self, o):
        return self._i() + o

    def __radd__(self, o):
        return o + self._i()

    def __sub__(self, o):
        return self._i() - o

    def __rsub__(self, o):
        return o - self._i()

    def __and__(self, o):
        return mkbool(z3.And(self.e, B(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.e, B(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.e, B(o)))

    __rxor__ = __xor__

    def __invert__(self):
        raise Unsupported("~bool")

    def __repr__(self):
        return f"<SymBool {self.e}>"


class SymLen(Sym):
    """Length of a text whose only symbolic-length piece is a decimal integer atom.

    len = base + ndigits(n);  compared with concrete ints only.
    """

    __slots__ = ("base", "n")

    def __init__(self, base, n):
        self.base, self.n = base, n

    def _ge(self, k):
        d = k - self.base  # ndigits(n) >= d
        if d <= 1:
            return True
        return mkbool(self.n >= 10 ** (d - 1))

    def __ge__(self, k):
        return self._ge(k) if isinstance(k, int) else NotImplemented

    def __gt__(self, k):
        return self._ge(k + 1) if isinstance(k, int) else NotImplemented

    def __lt__(self, k):
        r = self._ge(k)
        return mkbool(z3.Not(B(r)))

    def __le__(self, k):
        r = self._ge(k + 1)
        return mkbool(z3.Not(B(r)))

    def __eq__(self, k):
        if not isinstance(k, int):
            return NotImplemented
        return mkbool(z3.And(B(self._ge(k)), z3.Not(B(self._ge(k + 1)))))

    def __ne__(self, k):
        return mkbool(z3.Not(B(self == k)))

    def __bool__(self):
        return bool(self > 0)

    def _conc(self):
        d = 1
        while True:
            if self.n_lt(10**d):
                return self.base + d
            d += 1
            if d > 40:
                raise Unsupported("unbounded text length")

    def n_lt(self, k):
        return bool(mkbool(self.n < k))

    def __add__(self, o):
        return SymLen(self.base + o, self.n)

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, int):
            return SymLen(self.base - o, self.n)
        raise Unsupported("len arithmetic")

    def __rsub__(self, o):
        return o - self._conc()

    def __index__(self):
        return self._conc()

    __int__ = __index__
    __hash__ = Sym.__hash__


# --------------------------------------------------------------------------- explorer

class Explorer:
    """Explores all paths of `fn(c)`; collects obligations."""

    def __init__(self, name, max_paths=20000, time_budget=300.0, prove_timeout=20.0):
        self.name = name
        self.max_paths = max_paths
        self.deadline = time.time() + time_budget
        self.prove_timeout = prove_timeout
        self.stats = {"paths": 0, "obligations": 0, "discharged": 0, "solver_s": 0.0,
                      "by": {}, "forks": 0}
        self.failures = []  # dict(label, model, kind)
        self.undecided = []
        self.reached = {}
        self.labels = {}
        self._memo = {}

    # ---- per path state
    def _reset(self, prefix):
        self.prefix = prefix
        self.trace = []  # list of (choice, n_alternatives_left)
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set("timeout", 2000)
        self.solver.add(*GLOBAL_AXIOMS)
        self.inputs = {}  # name -> z3 term or concrete choice
        self.cache = {}
        self.n = 0
        self.axioms_used = False
        self.stubs = []

    def fresh(self, stem, sort):
        self.n += 1
        nm = f"{stem}!{self.n}"
        return z3.Real(nm) if sort == "r" else z3.Bool(nm) if sort == "b" else z3.Int(nm)

    def add(self, *fs):
        for f in fs:
            self.pc.append(f)
            self.solver.add(f)

    def _check(self, *assumptions):
        t = time.time()
        if t > self.deadline:
            raise Budget(f"time budget in {self.name}")
        r = self.solver.check(*assumptions)
        self.stats["solver_s"] += time.time() - t
        return r

    def feasible(self, e):
        key = None
        self.solver.push()
        self.solver.add(e)
        r = self._check()
        self.solver.pop()
        return r != z3.unsat

    def decide(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.trace.append((v, []))
            self.add(e if v else z3.Not(e))
            return v
        t = self.feasible(e)
        f = self.feasible(z3.Not(e)) if t else True
        self.stats["forks"] += 1
        if t and f:
            self.trace.append((True, [False]))
            self.add(e)
            return True
        self.trace.append((t, []))
        self.add(e if t else z3.Not(e))
        return t

    def choose(self, n):
        """n-ary fork, all alternatives explored."""
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.trace.append((v, []))
            return v
        self.trace.append((0, list(range(1, n))))
        return 0

    def assume(self, e):
        e = z3.simplify(B(e))
        if z3.is_true(e):
            return
        if z3.is_false(e):
            raise PathEnd
        self.add(e)
        if self._check() == z3.unsat:
            raise PathEnd

    # ---- uninterpreted pieces
    def floor_of(self, e):
        e = z3.simplify(e)
        if z3.is_rational_value(e):
            fr = Fraction(e.numerator_as_long(), e.denominator_as_long())
            import math

            return z3.IntVal(math.floor(fr))
        key = ("floor", e.sexpr())
        if key not in self.cache:
            k = self.fresh("fl", "i")
            self.add(z3.ToReal(k) <= e, e < z3.ToReal(k) + 1)
            self.cache[key] = k
        return self.cache[key]

    def round_of(self, e):
        """Round half to even is over-approximated: any nearest integer."""
        e = z3.simplify(e)
        key = ("round", e.sexpr())
        if key not in self.cache:
            k = self.fresh("rnd", "i")
            self.add(z3.ToReal(k) - e <= z3.Q(1, 2), e - z3.ToReal(k) <= z3.Q(1, 2))
            self.cache[key] = k
        return self.cache[key]

    def fixed_int(self, e):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        if self._check() != z3.sat:
            return None
        v = self.solver.model().eval(e, model_completion=True)
        if not self.feasible(e != v):
            return v.as_long()
        return None

    # ---- obligations
    def model_inputs(self, m):
        out = {}
        for k, t in self.inputs.items():
            if z3.is_expr(t):
                v = m.eval(t, model_completion=True)
                if z3.is_int_value(v):
                    out[k] = v.as_long()
                elif z3.is_rational_value(v):
                    out[k] = [v.numerator_as_long(), v.denominator_as_long()]
                elif z3.is_algebraic_value(v):
                    a = v.approx(20)
                    out[k] = [a.numerator_as_long(), a.denominator_as_long()]
                elif z3.is_true(v) or z3.is_false(v):
                    out[k] = z3.is_true(v)
                else:
                    out[k] = str(v)
            else:
                out[k] = t
        return out

    def _nice_models(self, neg):
        """Models of pc & neg, preferring small dyadic inputs (they replay exactly)."""
        res = []
        base = GLOBAL_AXIOMS + self.pc + [neg]
        reals = [t for t in self.inputs.values() if z3.is_expr(t) and t.sort() == z3.RealSort()]
        for lim, den in ((8, 4), (64, 8), (1000, None), (None, None)):
            s = z3.Solver()
            s.set("timeout", 3000)
            s.add(*base)
            for j, t in enumerate(reals):
                if den is not None:
                    k = z3.Int(f"nice!{j}")
                    s.add(t * den == z3.ToReal(k))
                if lim is not None:
                    s.add(t <= lim, t >= -lim)
            if s.check() == z3.sat:
                res.append(self.model_inputs(s.model()))
                if len(res) >= 2:
                    break
        return res

    def prove(self, cond, label):
        st = self.stats
        st["obligations"] += 1
        self.labels[label] = self.labels.get(label, 0) + 1
        e = z3.simplify(B(cond))
        if z3.is_true(e):
            st["discharged"] += 1
            st["by"]["simplifier"] = st["by"].get("simplifier", 0) + 1
            return True
        neg = z3.Not(e)
        t0 = time.time()
        if t0 > self.deadline:
            raise Budget(f"time budget in {self.name}")
        r, who, m = self._solve(neg)
        st["solver_s"] += time.time() - t0
        if r == z3.unsat:
            st["discharged"] += 1
            st["by"][who] = st["by"].get(who, 0) + 1
            return True
        if r == z3.sat:
            models = []
            try:
                models = self._nice_models(neg)
            except z3.Z3Exception:
                pass
            if m is not None and not models:
                models = [self.model_inputs(m)]
            if not models:
                models = [self.model_inputs_concrete_only()]
            self.failures.append({"label": label, "models": models, "axioms": self.axioms_used,
                                  "goal": str(e)[:2000], "solver": who})
            # continue under the goal so later obligations are still meaningful
            if self.feasible(e):
                self.add(e)
            else:
                raise PathEnd
            return False
        self.undecided.append({"label": label, "why": f"solver unknown ({who})", "goal": str(e)[:1000],
                               "inputs": self.model_inputs_concrete_only()})
        self.add(e)
        return False

    def model_inputs_concrete_only(self):
        return {k: t for k, t in self.inputs.items() if not z3.is_expr(t)}

    def _solve(self, neg):
        # 1. incremental z3
        self.solver.push()
        self.solver.add(neg)
        self.solver.set("timeout", 1500)
        try:
            r = self.solver.check()
            m = self.solver.model() if r == z3.sat else None
        finally:
            self.solver.pop()
            self.solver.set("timeout", 2000)
        if r != z3.unknown:
            return r, "z3", m
        fs = GLOBAL_AXIOMS + self.pc + [neg]
        has_int = any("Int" in f.sexpr() or "to_real" in f.sexpr() for f in fs)
        # 2. polynomial decision procedure
        tac = ["qfnra-nlsat"] if not has_int else ["smt"]
        for t in tac:
            s = z3.Then("simplify", "purify-arith", "propagate-values", "solve-eqs", t).solver() if t == "qfnra-nlsat" else z3.SolverFor("QF_NIRA")
            s.set("timeout", int(self.prove_timeout * 500))
            s.add(*fs)
            try:
                r = s.check()
            except z3.Z3Exception:
                continue
            if r == z3.unsat:
                return r, "z3-nlsat", None
            if r == z3.sat:
                try:
                    return r, "z3-nlsat", s.model()
                except z3.Z3Exception:
                    return r, "z3-nlsat", None
        # 3. cvc5
        r = cvc5_check(fs, self.prove_timeout)
        if r == "unsat":
            return z3.unsat, "cvc5", None
        if r == "sat":
            return z3.sat, "cvc5", None
        return z3.unknown, "z3+cvc5", None

    # ---- driver
    def run(self, fn):
        global CTX
        stack = [[]]
        while stack:
            prefix = stack.pop()
            self.stats["paths"] += 1
            if self.stats["paths"] > self.max_paths:
                self.undecided.append({"label": "*", "why": "path budget exceeded"})
                break
            if time.time() > self.deadline:
                self.undecided.append({"label": "*", "why": f"time budget in {self.name}"})
                break
            self._reset(prefix)
            CTX = self
            try:
                fn(self)
                self.reached["end"] = self.reached.get("end", 0) + 1
            except PathEnd:
                pass
            except Unsupported as ex:
                self.undecided.append({"label": "*", "why": f"unsupported: {ex}",
                                       "inputs": self.model_inputs_concrete_only()})
                if len(self.undecided) > 200:
                    break
            except Budget as ex:
                self.undecided.append({"label": "*", "why": str(ex)})
                break
            finally:
                CTX = None
                for owner, name, orig in reversed(self.stubs):
                    setattr(owner, name, orig)
                self.stubs = []
            for i in range(len(self.trace) - 1, len(prefix) - 1, -1):
                v, alts = self.trace[i]
                base = [t[0] for t in self.trace[:i]]
                for a in reversed(alts):
                    stack.append(base + [a])
            # note: pushing deepest-last gives DFS order; order is irrelevant to coverage
        return self


def cvc5_check(fs, timeout):
    """Ask cvc5 (through SMT-LIB) as a second back end."""
    try:
        import cvc5
    except ImportError:
        return "unknown"
    s = z3.Solver()
    s.add(*fs)
    text = s.to_smt2()
    try:
        tm = cvc5.TermManager() if hasattr(cvc5, "TermManager") else None
        slv = cvc5.Solver(tm) if tm is not None else cvc5.Solver()
        slv.setOption("tlimit-per", str(int(timeout * 1000)))
        slv.setOption("nl-cov", "true")
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, "(set-logic ALL)\n" + text, "vc")
        sm = p.getSymbolManager()
        res = "unknown"
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            out = str(c.invoke(slv, sm)).strip()
            if out in ("sat", "unsat", "unknown"):
                res = out
        return res
    except Exception:  # noqa: BLE001
        return "unknown"
