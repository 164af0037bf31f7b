"""Import hook: loads every pygerber module from /repo's *current source*, with a purely
mechanical rewriting that lets symbolic values through CPython built-ins:

  f(args)            -> __pyvc_call__(f, args)     (inside function bodies; not super()/locals())
  f"..{x:spec}.."    -> __pyvc_fstr__(...)
  import math        -> the smath stand-in (assumed contracts for sin/cos/sqrt/atan2/...)
  x in y / not in    -> __pyvc_in__(x, y)

Nothing is dropped or reordered; with concrete operands each rewritten form calls the
original built-in.  pydantic's BaseModel.__init__ is bypassed *only* for field values that
contain symbolic values (identity contract, see `_init`).
"""
from __future__ import annotations

import ast
import importlib.abc
import importlib.util
import io
import os
import sys

import z3

from . import sym, symstr
from .sym import (B, R, Sym, SymBool, SymInt, SymLen, SymReal, Unsupported, mkbool, mkint,
                  mkreal)
from .symstr import SymStr

SRC = os.environ.get("PYVC_SRC", "/repo/src")


# --------------------------------------------------------------------------- rewriting

class Rewriter(ast.NodeTransformer):
    def __init__(self):
        self.depth = 0
        self.count = 0

    def _stmts(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            out.extend(r if isinstance(r, list) else [r])
        return out

    def _fn(self, node):
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [d and self.visit(d) for d in node.args.kw_defaults]
        self.depth += 1
        node.body = self._stmts(node.body)
        self.depth -= 1
        return node

    visit_FunctionDef = _fn
    visit_AsyncFunctionDef = _fn

    def visit_Lambda(self, node):
        self.depth += 1
        node.body = self.visit(node.body)
        self.depth -= 1
        return node

    def visit_ClassDef(self, node):
        d, self.depth = self.depth, 0
        node.body = self._stmts(node.body)
        self.depth = d
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if not self.depth:
            return node
        if isinstance(node.func, ast.Name) and node.func.id in ("super", "locals", "globals", "__pyvc_fstr__", "__pyvc_in__", "__pyvc_call__"):
            return node
        self.count += 1
        return ast.copy_location(
            ast.Call(ast.Name("__pyvc_call__", ast.Load()), [node.func, *node.args], node.keywords), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if self.depth and len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            r = ast.Call(ast.Name("__pyvc_in__", ast.Load()), [node.left, node.comparators[0]], [])
            if isinstance(node.ops[0], ast.NotIn):
                r = ast.UnaryOp(ast.Not(), r)
            return ast.copy_location(r, node)
        if self.depth and len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)) \
                and not any(isinstance(x, ast.Constant) and x.value is None for x in (node.left, node.comparators[0])):
            r = ast.Call(ast.Name("__pyvc_is__", ast.Load()), [node.left, node.comparators[0]], [])
            if isinstance(node.ops[0], ast.IsNot):
                r = ast.UnaryOp(ast.Not(), r)
            return ast.copy_location(r, node)
        return node

    def visit_JoinedStr(self, node):
        if not self.depth:
            return node
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant("")
                parts.append(ast.Tuple([val, ast.Constant(v.conversion), spec], ast.Load()))
        return ast.copy_location(
            ast.Call(ast.Name("__pyvc_fstr__", ast.Load()), parts, []), node)

    def visit_Import(self, node):
        out = []
        for a in node.names:
            if a.name == "math":
                out.append(ast.ImportFrom("pyvc", [ast.alias("smath", a.asname or "math")], 0))
            else:
                out.append(ast.Import([a]))
        return [ast.copy_location(o, node) for o in out]

    def visit_ImportFrom(self, node):
        if node.module == "math" and node.level == 0:
            node.module = "pyvc.smath"
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if self.depth and isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
            return ast.copy_location(ast.Call(ast.Name("__pyvc_pct__", ast.Load()), [node.left, node.right], []), node)
        return node


class Loader(importlib.abc.Loader):
    def __init__(self, path, is_pkg):
        self.path, self.is_pkg = path, is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="utf-8") as f:
            text = f.read()
        tree = ast.parse(text, self.path)
        tree = Rewriter().visit(tree)
        ast.fix_missing_locations(tree)
        g = module.__dict__
        g["__pyvc_call__"] = call
        g["__pyvc_fstr__"] = fstr
        g["__pyvc_in__"] = contains
        g["__pyvc_pct__"] = pct
        g["__pyvc_is__"] = is_
        exec(compile(tree, self.path, "exec", dont_inherit=True), g)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != "pygerber" and not name.startswith("pygerber."):
            return None
        base = os.path.join(SRC, *name.split("."))
        init = os.path.join(base, "__init__.py")
        if os.path.exists(init):
            return importlib.util.spec_from_file_location(
                name, init, loader=Loader(init, True), submodule_search_locations=[base])
        if os.path.exists(base + ".py"):
            return importlib.util.spec_from_file_location(name, base + ".py", loader=Loader(base + ".py", False))
        return None


def install():
    sys.meta_path.insert(0, Finder())
    patch_pydantic()


# --------------------------------------------------------------------------- call shim

def _isym(x):
    return isinstance(x, Sym)


def has_sym(x, depth=3):
    if isinstance(x, Sym):
        return True
    if depth and isinstance(x, (list, tuple, set)):
        return any(has_sym(v, depth - 1) for v in x)
    if depth and isinstance(x, dict):
        return any(has_sym(v, depth - 1) for v in x.values())
    if getattr(x, "__pyvc_proxy__", False):
        return True
    return False


def c_float(x=0.0):
    if isinstance(x, (SymStr, SymReal, SymInt, SymBool)):
        return symstr.to_float(x)
    return float(x)


def c_int(x=0, *a, **k):
    if isinstance(x, (SymStr, SymReal, SymInt, SymBool)):
        if a or k:
            raise Unsupported("int with base")
        return symstr.to_int(x)
    return int(x, *a, **k)


def c_bool(x=False):
    return bool(x)


def c_str(*a, **k):
    if a and isinstance(a[0], Sym):
        return symstr.to_str(a[0])
    if len(a) == 1 and not k:
        return str_of(a[0])
    return str(*a, **k)


def str_of(x):
    if isinstance(x, Sym):
        return symstr.to_str(x)
    m = type(x).__str__
    if m is object.__str__ or m is str.__str__:
        return str(x)
    try:
        return str(x)
    except TypeError:
        r = m(x)
        if isinstance(r, SymStr):
            return r
        raise


def c_len(x):
    if isinstance(x, SymStr):
        return x.length()
    f = getattr(type(x), "__pyvc_len__", None)
    if f is not None:
        return f(x)
    return len(x)


def c_isinstance(x, t):
    if isinstance(x, Sym):
        ts = t if isinstance(t, tuple) else (t,)
        if not isinstance(t, (tuple, type)):
            ts = getattr(t, "__args__", (t,))
        for u in ts:
            if isinstance(u, tuple):
                if c_isinstance(x, u):
                    return True
            elif isinstance(x, SymReal) and u in (float, object):
                return True
            elif isinstance(x, (SymInt, SymLen)) and u in (int, object):
                return True
            elif isinstance(x, SymBool) and u in (bool, int, object):
                return True
            elif isinstance(x, SymStr) and (u is str or u is object or (isinstance(u, type) and issubclass(u, str) and getattr(x, "cls", None) is u)):
                return True
            elif u.__module__ in ("numbers",) and not isinstance(x, (SymStr, SymBool)):
                return True
        return False
    return isinstance(x, t)


def _scalar(x):
    return isinstance(x, (int, float)) or isinstance(x, (SymReal, SymInt))


def c_minmax(is_min):
    orig = min if is_min else max

    def f(*a, **k):
        if k:
            xs = list(a[0]) if len(a) == 1 else list(a)
            if len(a) == 1:
                if not xs:
                    if "default" in k:
                        return k["default"]
                    raise ValueError("empty sequence")
                k = {kk: v for kk, v in k.items() if kk != "default"}
            key = k.get("key")
            if key is None:
                return f(*xs) if len(xs) > 1 else xs[0]
            # forks through comparisons
            best = xs[0]
            kb = key(best)
            for x in xs[1:]:
                kx = key(x)
                if (kx < kb) if is_min else (kx > kb):
                    best, kb = x, kx
            return best
        xs = list(a[0]) if len(a) == 1 else list(a)
        if not xs:
            raise ValueError(("min" if is_min else "max") + "() arg is an empty sequence")
        if not any(isinstance(x, Sym) for x in xs) or not all(_scalar(x) for x in xs):
            return orig(xs)
        r = xs[0]
        for x in xs[1:]:
            if isinstance(r, (int, SymInt)) and isinstance(x, (int, SymInt)) and not isinstance(r, float):
                A, C = sym.I(r), sym.I(x)
                r = mkint(z3.If(A <= C, A, C) if is_min else z3.If(A >= C, A, C))
            else:
                if (isinstance(r, float) and r in (float("inf"), float("-inf"))) or (isinstance(x, float) and x in (float("inf"), float("-inf"))):
                    if isinstance(r, float) and r in (float("inf"), float("-inf")):
                        inf, o = r, x
                    else:
                        inf, o = x, r
                    take_inf = (inf < 0) == is_min
                    r = inf if take_inf else o
                    continue
                A, C = R(r), R(x)
                r = mkreal(z3.If(A <= C, A, C) if is_min else z3.If(A >= C, A, C))
        return r

    return f


def c_sum(xs, start=0):
    t = start
    for x in xs:
        t = t + x
    return t


def c_round(number, ndigits=None):
    if isinstance(number, Sym):
        return number.__round__(ndigits)
    return round(number, ndigits) if ndigits is not None else round(number)


def c_abs(x):
    return abs(x)


class SymRange:
    __pyvc_proxy__ = True

    def __init__(self, a, b):
        self.a, self.b = a, b

    def __iter__(self):
        c = sym.ctx()
        if not getattr(c, "generic_loops", False):
            i = self.a
            n = 0
            while i < self.b:
                yield i
                i = i + 1
                n += 1
                if n > 64:
                    raise Unsupported("symbolic range without a loop contract")
            return
        # generic iteration: one arbitrary index (the contract states the per-iteration
        # effect and checks that the iteration leaves the loop frame unchanged)
        if self.a < self.b:
            k = c.fresh("iter", "i")
            c.add(k >= sym.I(self.a), k < sym.I(self.b))
            c.loop_indices = [*getattr(c, "loop_indices", []), k]
            yield SymInt(k)

    def __pyvc_len__(self):
        return mkint(z3.If(sym.I(self.b) > sym.I(self.a), sym.I(self.b) - sym.I(self.a), z3.IntVal(0)))


def c_range(*a):
    if any(isinstance(x, (SymInt, SymLen)) for x in a):
        if len(a) == 1:
            return SymRange(0, a[0])
        if len(a) == 2:
            return SymRange(a[0], a[1])
        raise Unsupported("symbolic range with step")
    return range(*a)


def c_sorted(xs, *, key=None, reverse=False):
    xs = list(xs)
    if has_sym(xs) or (key is not None and xs and has_sym([key(x) for x in xs])):
        # insertion sort through symbolic comparisons (stable)
        ks = [(key(x) if key else x, x) for x in xs]
        out = []
        for k, x in ks:
            i = len(out)
            while i > 0 and ((k < out[i - 1][0]) if not reverse else (out[i - 1][0] < k)):
                i -= 1
            out.insert(i, (k, x))
        return [x for _, x in out]
    return sorted(xs, key=key, reverse=reverse)


def c_any(xs):
    for x in xs:
        if x:
            return True
    return False


def c_all(xs):
    for x in xs:
        if not x:
            return False
    return True


def c_hash(x):
    return hash(x)


def c_format(x, spec=""):
    if isinstance(x, Sym):
        return symstr.format_(x, spec)
    if hasattr(x, "__symformat__"):
        return x.__symformat__(spec)
    return format(x, spec)


def c_print(*a, **k):
    return None


class SymIO(io.StringIO):
    """io.StringIO that also takes symbolic text (write and getvalue only)."""

    parts = None

    def write(self, s):
        if self.parts is None and not isinstance(s, SymStr):
            return super().write(s)
        if self.parts is None:
            self.parts = [super().getvalue()]
        self.parts += s.p if isinstance(s, SymStr) else [s]
        return 0

    def getvalue(self):
        return super().getvalue() if self.parts is None else symstr.mk(self.parts)

    def _no(self, *a, **k):
        if self.parts is not None:
            raise Unsupported("StringIO holding symbolic text")
        return None

    def read(self, *a):
        self._no()
        return super().read(*a)

    def seek(self, *a):
        self._no()
        return super().seek(*a)

    def truncate(self, *a):
        self._no()
        return super().truncate(*a)


TABLE = {}
for _f, _g in (
    (float, c_float), (int, c_int), (str, c_str), (len, c_len), (isinstance, c_isinstance),
    (min, c_minmax(True)), (max, c_minmax(False)), (sum, c_sum), (round, c_round),
    (io.StringIO, SymIO), (range, c_range), (sorted, c_sorted), (format, c_format), (any, c_any), (all, c_all),
):
    TABLE[id(_f)] = _g


def call(__pyvc_f, /, *a, **k):
    f = __pyvc_f
    g = TABLE.get(id(f))
    if g is not None:
        return g(*a, **k)
    s = getattr(f, "__self__", None)
    if type(s) is str:
        if f.__name__ == "join" and len(a) == 1 and not isinstance(a[0], (str, list, tuple, dict)):
            a = (list(a[0]),)
        if any(has_sym(x) for x in a) or (k and has_sym(k)):
            return str_method(s, f.__name__, a, k)
    if isinstance(f, type) and issubclass(f, str) and a and isinstance(a[0], SymStr):
        r = a[0]
        return r
    return f(*a, **k)


def str_method(s, name, a, k):
    if name == "join":
        out = []
        for i, x in enumerate(a[0]):
            if i:
                out.append(s)
            if isinstance(x, SymStr):
                out += x.p
            elif isinstance(x, str):
                out.append(x)
            else:
                raise TypeError("sequence item: expected str instance")
        return symstr.mk(out)
    if name == "format":
        import string

        out = []
        auto = 0
        for lit, fld, spec, conv in string.Formatter().parse(s):
            out.append(lit)
            if fld is None:
                continue
            if fld == "":
                v = a[auto]
                auto += 1
            elif fld.isdigit():
                v = a[int(fld)]
            elif fld in k:
                v = k[fld]
            else:
                raise Unsupported("str.format field")
            if conv:
                raise Unsupported("str.format conversion")
            r = c_format(v, spec or "")
            out += r.p if isinstance(r, SymStr) else [r]
        return symstr.mk(out)
    if name in ("__eq__",):
        return symstr.SymStr([s]) == a[0]
    if name in ("startswith", "endswith", "removeprefix", "removesuffix", "replace", "count"):
        raise Unsupported(f"str.{name} with symbolic argument")
    raise Unsupported(f"str.{name} with symbolic argument")


def fstr(*parts):
    out = []
    for p in parts:
        if type(p) is tuple:
            v, conv, spec = p
            if conv == 114:  # !r
                v = repr(v)
            elif conv == 115:
                v = c_str(v)
            if isinstance(v, Sym):
                r = symstr.format_(v, spec)
                out += r.p if isinstance(r, SymStr) else [r]
            elif hasattr(v, "__symformat__"):
                out += v.__symformat__(spec).p
            else:
                try:
                    out.append(format(v, spec))
                except TypeError:
                    r = str_of(v)
                    out += r.p if isinstance(r, SymStr) else [r]
        else:
            out.append(p)
    return symstr.mk(out)


def contains(x, y):
    if isinstance(y, SymStr):
        return y.__contains__(x)
    if isinstance(x, Sym) and isinstance(y, (dict, set, frozenset)):
        for k in y:
            if x == k:
                return True
        return False
    return x in y


def is_(x, y):
    """Truth values are singletons: identity of symbolic ones is equality."""
    if isinstance(x, SymBool) or isinstance(y, SymBool):
        if isinstance(x, (bool, SymBool)) and isinstance(y, (bool, SymBool)):
            return mkbool(B(x) == B(y))
        return False
    return x is y


def pct(fmt, args):
    if has_sym(args):
        raise Unsupported("% formatting of symbolic value")
    return fmt % args


# --------------------------------------------------------------------------- pydantic

def _field_float(ann):
    s = str(ann)
    return ann is float or s in ("typing.Optional[float]", "float", "Optional[float]")


def patch_pydantic():
    import pydantic
    from pydantic_core import PydanticUndefined

    orig = pydantic.BaseModel.__init__

    def _init(self, /, **data):
        if not has_sym(data):
            orig(self, **data)
            return
        cls = type(self)
        dec = cls.__pydantic_decorators__
        values, fields_set, extra = {}, set(), {}
        names = {}
        for n, fi in cls.model_fields.items():
            names[n] = n
            if fi.alias:
                names[fi.alias] = n
        for k in data:
            if k not in names:
                ex = cls.model_config.get("extra")
                if ex == "allow":
                    extra[k] = data[k]
                elif ex == "forbid":
                    raise Unsupported(f"extra field {k} on {cls.__name__}")
        if dec.model_validators or dec.root_validators or dec.validators:
            raise Unsupported(f"validators on {cls.__name__}")
        validated = {}
        for vname, v in dec.field_validators.items():
            for fld in v.info.fields:
                validated[fld] = v
        for n, fi in cls.model_fields.items():
            if n in data or (fi.alias and fi.alias in data):
                v = data[n] if n in data else data[fi.alias]
                fields_set.add(n)
                if has_sym(v):
                    if n in validated or "*" in validated:
                        raise Unsupported(f"validator on symbolic field {cls.__name__}.{n}")
                    v = _adapt(v, fi, cls, n)
                elif _field_float(fi.annotation) and isinstance(v, int) and not isinstance(v, bool):
                    v = float(v)
                elif _field_float(fi.annotation) and not isinstance(v, (float, type(None))):
                    raise Unsupported(f"field {cls.__name__}.{n}={v!r}")
                elif isinstance(v, list):
                    v = list(v)
                values[n] = v
            else:
                d = fi.get_default(call_default_factory=True)
                if d is PydanticUndefined:
                    raise ValueError(f"missing field {cls.__name__}.{n}")
                values[n] = d
        object.__setattr__(self, "__dict__", values)
        object.__setattr__(self, "__pydantic_fields_set__", fields_set)
        object.__setattr__(self, "__pydantic_extra__", extra if cls.model_config.get("extra") == "allow" else None)
        object.__setattr__(self, "__pydantic_private__", None)
        if cls.__pydantic_post_init__:
            self.model_post_init(None)

    pydantic.BaseModel.__init__ = _init
    for f in ("__init__",):
        _init.__pydantic_base_init__ = True

    def _adapt(v, fi, cls, n):
        ann = fi.annotation
        if isinstance(v, SymBool) and (ann is float or ann is int):
            v = SymInt(sym.I(v))
        if isinstance(v, SymInt) and _field_float(ann):
            v = mkreal(R(v))
        if isinstance(v, SymReal) and ann is int:
            raise Unsupported(f"real into int field {cls.__name__}.{n}")
        if isinstance(v, (SymReal, SymInt)):
            for m in fi.metadata:
                for attr, op in (("ge", lambda a, b: a >= b), ("gt", lambda a, b: a > b),
                                 ("le", lambda a, b: a <= b), ("lt", lambda a, b: a < b)):
                    if hasattr(m, attr):
                        if not op(v, getattr(m, attr)):
                            raise ValueError(f"{cls.__name__}.{n} constraint {m}")
        if isinstance(v, list):
            v = list(v)
        return v
