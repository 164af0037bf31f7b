"""Vectors, matrices and boxes obey plane geometry."""
import math

from pyvc.registry import contract
from pyvc.spec import cross, dot, mod360, same_angle, theta

from pygerber.vm.types.box import Box
from pygerber.vm.types.matrix import Matrix3x3
from pygerber.vm.types.vector import Vector

V = "pygerber.vm.types.vector.Vector."
M = "pygerber.vm.types.matrix.Matrix3x3."
B = "pygerber.vm.types.box.Box."


@contract("C10", "vector arithmetic", fns=[V + n for n in ("__add__", "__sub__", "__mul__", "__truediv__", "__neg__", "from_tuple", "xy")])
def _(c):
    a, b = c.vec("a"), c.vec("b")
    op = c.choice("op", ["+", "-", "*", "/", "neg", "tuple"])
    kind = c.choice("operand", ["vector", "float", "int"])
    if kind == "vector":
        o, ox, oy = b, b.x, b.y
    elif kind == "float":
        o = c.real("f")
        ox = oy = o
    else:
        o = c.int("n", -1000, 1000)
        ox = oy = o
    if op == "+":
        r, ex, ey = a + o, a.x + ox, a.y + oy
    elif op == "-":
        r, ex, ey = a - o, a.x - ox, a.y - oy
    elif op == "*":
        r, ex, ey = a * o, a.x * ox, a.y * oy
    elif op == "/":
        c.assume(c.And(ox != 0, oy != 0))
        r, ex, ey = a / o, a.x / ox, a.y / oy
    elif op == "neg":
        r, ex, ey = -a, -a.x, -a.y
    else:
        r, ex, ey = Vector.from_tuple(a.xy), a.x, a.y
    c.eq(r.x, ex, f"x of result of {op}")
    c.eq(r.y, ey, f"y of result of {op}")


@contract("C10", "vector comparison", fns=[V + n for n in ("__eq__", "__lt__", "__gt__", "__le__", "__ge__")])
def _(c):
    a, b = c.vec("a"), c.vec("b")
    if not c.sym and c.bool("eqx"):
        b = Vector(x=a.x, y=b.y)
    if not c.sym and c.bool("eqy"):
        b = Vector(x=b.x, y=a.y)
    c.check(bool(a == b) == bool(c.And(a.x == b.x, a.y == b.y)), "== compares both coordinates")
    c.check(bool(a != b) == bool(c.Not(c.And(a.x == b.x, a.y == b.y))), "!= is the negation of ==")
    c.check(bool(a < b) == bool(c.And(a.x < b.x, a.y < b.y)), "< holds in both coordinates")
    c.check(bool(a > b) == bool(c.And(a.x > b.x, a.y > b.y)), "> holds in both coordinates")
    c.check(bool(a <= b) == bool(c.And(a.x <= b.x, a.y <= b.y)), "<= holds in both coordinates")
    c.check(bool(a >= b) == bool(c.And(a.x >= b.x, a.y >= b.y)), ">= holds in both coordinates")


@contract("C10", "vector length and direction", fns=[V + "length", V + "normalized"])
def _(c):
    a = c.vec("a")
    n = a.length()
    c.check(n >= 0, "length is not negative")
    c.eq(n * n, a.x * a.x + a.y * a.y, "length squared")
    u = a.normalized()
    c.eq(u.x * u.x + u.y * u.y, 1, "normalized vector has unit length")
    if c.And(a.x == 0, a.y == 0):
        c.eq(u.x, 1, "null vector normalizes to +x")
        c.eq(u.y, 0, "null vector normalizes to +x (y)")
    else:
        c.eq(u.x * n, a.x, "normalized vector keeps direction (x)")
        c.eq(u.y * n, a.y, "normalized vector keeps direction (y)")


def _angle_contract(c, kind):
    if not c.sym:  # exactly parallel vectors: never a full turn
        u = c.vec("u", -100, 100)
        c.assume(u.length() > 1e-3)
        r = u.angle_between_cc(u) if kind == "ccw" else u.angle_between(u)
        c.check(0 <= r < 1e-3, "no angle between a vector and itself", f"{r}")
    a, b = c.vec("a"), c.vec("b")
    c.assume(c.Or(a.x != 0, a.y != 0))
    c.assume(c.Or(b.x != 0, b.y != 0))
    if not c.sym:
        c.assume(a.length() > 1e-3 and b.length() > 1e-3)
    w = theta(c, dot(a.xy, b.xy), cross(a.xy, b.xy))  # counterclockwise angle from a to b
    r = a.angle_between_cc(b) if kind == "ccw" else a.angle_between(b)
    c.check(c.And(r >= 0, r < 360 if c.sym else r <= 360), "angle is in [0, 360)")
    c.check(same_angle(c, r, w if kind == "ccw" else mod360(c, 360 - w)), f"{kind} angle")


@contract("C10", "counterclockwise angle", fns=[V + "angle_between_cc"],
          assumes=["theta(dot(u,v), cross(u,v)) is the counterclockwise angle from u to v"])
def _(c):
    _angle_contract(c, "ccw")


@contract("C10", "clockwise angle", fns=[V + "angle_between"])
def _(c):
    _angle_contract(c, "cw")


def mat(c, name):
    r = lambda i, j: c.real(f"{name}{i}{j}")  # noqa: E731
    return Matrix3x3(((r(0, 0), r(0, 1), r(0, 2)), (r(1, 0), r(1, 1), r(1, 2)), (0.0, 0.0, 1.0)))


@contract("C10", "matrix product", fns=[M + "__matmul__", M + "__getitem__", M + "__init__"])
def _(c):
    r = lambda n, i, j: c.real(f"{n}{i}{j}", -50, 50)  # noqa: E731
    a = Matrix3x3(tuple(tuple(r("a", i, j) for j in range(3)) for i in range(3)))
    b = Matrix3x3(tuple(tuple(r("b", i, j) for j in range(3)) for i in range(3)))
    p = a @ b
    for i in range(3):
        for j in range(3):
            c.eq(p[i][j], sum((a[i][k] * b[k][j] for k in range(3)), 0.0), f"entry {i}{j} of product")


@contract("C10", "matrix product is composition", fns=[M + "__matmul__", V + "transform"])
def _(c):
    a, b, v = mat(c, "a"), mat(c, "b"), c.vec("v")
    x, y = (a @ b) @ v, a @ (b @ v)
    c.eq(x.x, y.x, "applying a product applies the right factor first (x)")
    c.eq(x.y, y.y, "applying a product applies the right factor first (y)")
    t = v.transform(a)
    c.eq(t.x, a[0][0] * v.x + a[0][1] * v.y + a[0][2], "transformed x")
    c.eq(t.y, a[1][0] * v.x + a[1][1] * v.y + a[1][2], "transformed y")


@contract("C10", "elementary transforms", fns=[M + n for n in ("new_translate", "new_rotate", "new_reflect", "new_scale")])
def _(c):
    v = c.vec("v")
    k = c.choice("kind", ["translate", "rotate", "reflect", "scale"])
    if k == "translate":
        x, y = c.real("x"), c.real("y")
        m, e = Matrix3x3.new_translate(x, y), (v.x + x, v.y + y)
    elif k == "rotate":
        a = c.real("a", -720, 720)
        s, co = c.math.sin(c.math.radians(a)), c.math.cos(c.math.radians(a))
        m, e = Matrix3x3.new_rotate(a), (v.x * co - v.y * s, v.x * s + v.y * co)
    elif k == "reflect":
        x, y = c.bool("mx"), c.bool("my")
        m, e = Matrix3x3.new_reflect(x=x, y=y), (-v.x if x else v.x, -v.y if y else v.y)
    else:
        x, y = c.real("x"), c.real("y")
        m, e = Matrix3x3.new_scale(x, y), (v.x * x, v.y * y)
    r = v.transform(m)
    c.eq(r.x, e[0], f"{k} x")
    c.eq(r.y, e[1], f"{k} y")
    t = mat(c, "t")
    q, e = (t @ m) @ v, t @ r
    c.eq(q.x, e.x, f"{k} followed by any transform (x)")
    c.eq(q.y, e.y, f"{k} followed by any transform (y)")
    c.check(all(x == y for x, y in zip(m.mtx[2], (0, 0, 1))) and len(m.mtx) == 3, f"{k} is affine")


def written(c, f):
    """Text made by `f` with the numbers in it replaced by marks, and the numbers."""
    import re

    from pyvc import sym

    old, sym.TOKENS = sym.TOKENS, []
    try:
        t = f()
        nums = sym.TOKENS
    finally:
        sym.TOKENS = old
    if isinstance(t, str) and re.fullmatch("([0-9a-f]{2})+", t):
        t = bytes.fromhex(t).decode("utf-8", "replace")
    if not isinstance(t, str) or "\u27e6" not in t:
        raise sym.Unsupported("numbers are not visible in the text")
    order = [int(k) for k in re.findall("\u27e6([0-9]+)\u27e7", t)]
    return re.sub("\u27e6[0-9]+\u27e7", "\u27e6\u27e7", t), [nums[k] for k in order]


@contract("C10", "transform tags tell transforms apart", fns=[M + "tag"], assumes=["the text of a float is different for different floats (repr)"],
          note="any two matrices: equal numbers in equal tags imply equal matrices, equal matrices have equal tags")
def _(c):
    if c.sym:
        a, b = mat(c, "a"), mat(c, "b")
        (ta, na), (tb, nb) = written(c, lambda: a.tag), written(c, lambda: b.tag)
        c.check(ta == tb and len(na) == len(nb), "tags are made alike")
        if ta != tb or len(na) != len(nb):
            raise c._end()
        es = lambda m: [m.mtx[i][j] for i in range(3) for j in range(3)]  # noqa: E731
        tags = c.And(*[x == y for x, y in zip(na, nb)])
        mats = c.And(*[x == y for x, y in zip(es(a), es(b))])
        c.check(c.Or(c.Not(tags), mats), "distinct matrices have distinct tags")
        c.check(c.Or(c.Not(mats), tags), "equal matrices have equal tags")
        return
    a = mat(c, "a")
    same = Matrix3x3(tuple(tuple(row) for row in a.mtx))
    c.check(a.tag == same.tag, "equal matrices have equal tags")
    i, j = c.choice("i", range(2)), c.choice("j", range(3))
    how = c.choice("how", ["ulp", "sign", "sample", "tiny"])
    m = [list(r) for r in a.mtx]
    v = m[i][j]
    m[i][j] = {"ulp": math.nextafter(v, math.inf), "sign": -v if v else 1.0, "sample": c.real("o"), "tiny": v + 1e-9}[how]
    c.assume(m[i][j] != v)
    c.check(a.tag != Matrix3x3(tuple(tuple(r) for r in m)).tag, "distinct matrices have distinct tags")


def box(c, n):
    b = Box(min_x=c.real(n + ".min_x"), min_y=c.real(n + ".min_y"), max_x=c.real(n + ".max_x"), max_y=c.real(n + ".max_y"))
    return b


def same_box(c, b, x0, y0, x1, y1, label):
    c.eq(b.min_x, x0, f"{label}: min x")
    c.eq(b.min_y, y0, f"{label}: min y")
    c.eq(b.max_x, x1, f"{label}: max x")
    c.eq(b.max_y, y1, f"{label}: max y")


@contract("C10", "box of points", fns=[B + "from_vectors"])
def _(c):
    n = c.choice("n", range(1, 6))
    vs = [c.vec(f"v{i}") for i in range(n)]
    b = Box.from_vectors(*vs)
    for v in vs:
        c.check(c.And(b.min_x <= v.x, v.x <= b.max_x, b.min_y <= v.y, v.y <= b.max_y), "every point is inside")
    for k, a in (("min_x", "x"), ("max_x", "x"), ("min_y", "y"), ("max_y", "y")):
        c.check(c.Or(*[getattr(b, k) == getattr(v, a) for v in vs]), f"{k} is attained")


@contract("C10", "box operations", fns=[B + n for n in ("__add__", "__iadd__", "__sub__", "__isub__", "width", "height", "center", "from_center_width_height")])
def _(c):
    a, b, v = box(c, "a"), box(c, "b"), c.vec("v")
    old = a.min_x, a.min_y, a.max_x, a.max_y
    c.assume(c.And(a.min_x <= a.max_x, a.min_y <= a.max_y, b.min_x <= b.max_x, b.min_y <= b.max_y))
    u = a + b
    same_box(c, u, c.min(a.min_x, b.min_x), c.min(a.min_y, b.min_y), c.max(a.max_x, b.max_x), c.max(a.max_y, b.max_y), "union")
    s = a + v
    same_box(c, s, a.min_x + v.x, a.min_y + v.y, a.max_x + v.x, a.max_y + v.y, "shift")
    d = a - v
    same_box(c, d, a.min_x - v.x, a.min_y - v.y, a.max_x - v.x, a.max_y - v.y, "shift back")
    k = a
    k += b
    same_box(c, k, u.min_x, u.min_y, u.max_x, u.max_y, "in-place union")
    k = a
    k -= v
    same_box(c, k, d.min_x, d.min_y, d.max_x, d.max_y, "in-place shift back")
    same_box(c, a, *old, "operand unchanged")
    c.eq(a.width, a.max_x - a.min_x, "width")
    c.eq(a.height, a.max_y - a.min_y, "height")
    c.eq(a.center.x * 2, a.min_x + a.max_x, "center x")
    c.eq(a.center.y * 2, a.min_y + a.max_y, "center y")
    w, h = c.real("w", 0), c.real("h", 0)
    f = Box.from_center_width_height((v.x, v.y), w, h)
    c.eq(f.max_x - f.min_x, w, "width of box around center")
    c.eq(f.max_y - f.min_y, h, "height of box around center")
    c.eq(f.min_x + f.max_x, 2 * v.x, "center x of box around center")
    c.eq(f.min_y + f.max_y, 2 * v.y, "center y of box around center")
