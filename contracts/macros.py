"""Aperture macros: expressions, variables, primitives, instances."""
import math

from pyvc.registry import contract
from pyvc.spec import check_outline, edges_of, same_pt

import pygerber.gerber.ast.nodes as N
from pygerber.gerber.ast.expression_eval_visitor import ExpressionEvalVisitor
from pygerber.gerber.ast.nodes.primitives.code_4 import Point
from pygerber.vm.commands.shape_segments import Arc, Line

from contracts.paint import Machine, check_items, disc, outline, simple
from contracts.shapes import check_regular_polygon, check_ring, lines, rect_edges, thick_line_edges

C = "pygerber.gerber.compiler.compiler."
E = "pygerber.gerber.ast.expression_eval_visitor.ExpressionEvalVisitor."
BIN = {"+": N.Add, "-": N.Sub, "*": N.Mul, "/": N.Div}


def num(c, v):
    return N.Constant(constant=v)


def var(i):
    return N.Variable(variable=f"${i}")


# ------------------------------------------------------------------ expressions
def apply_op(c, op, vals):
    r = vals[0]
    for v in vals[1:]:
        if op == "+":
            r = r + v
        elif op == "-":
            r = r - v
        elif op == "*":
            r = r * v
        else:
            c.assume(v != 0 if c.sym else abs(v) > 1e-3)
            r = r / v
    return r


def leaf(c, name, scope):
    k = c.choice(name + " leaf", ["variable", "constant", "unset"])
    if k == "unset":
        return var(99), c.const(0.0)
    v = c.real(name, -50, 50)
    if k == "constant":
        return N.Constant(constant=v), v
    i = len(scope) + 1
    scope[f"${i}"] = v
    return var(i), v


def inner(c, name, scope):
    """Operand: a number or an operator over numbers."""
    k = c.choice(name + " op", ["leaf", "-x", "+x", "+", "-", "*", "/"])
    if k == "leaf":
        return leaf(c, name, scope)
    v = c.real(name, -50, 50)
    i = len(scope) + 1
    scope[f"${i}"] = v
    a = var(i)
    if k == "-x":
        return N.Neg(operand=a), -v
    if k == "+x":
        return N.Pos(operand=a), v
    w = c.real(name + "'", -50, 50)
    return BIN[k](head=a, tail=[N.Constant(constant=w)]), apply_op(c, k, [v, w])


@contract("C04", "arithmetic operators", fns=[E + n for n in ("evaluate", "on_add", "on_sub", "on_mul", "on_div", "on_neg", "on_pos", "on_variable", "on_constant")],
          note="every operator over operands that are numbers, variables or any one-operator expression, 2 to 4 operands; deeper trees by structural induction")
def _(c):
    scope = {}
    k = c.choice("operator", ["+", "-", "*", "/", "-x", "+x", "leaf"])
    if k == "leaf":
        e, v = leaf(c, "a", scope)
    elif k in ("-x", "+x"):
        e, v = inner(c, "a", scope)
        e, v = (N.Neg(operand=e), -v) if k == "-x" else (N.Pos(operand=e), v)
    else:
        n = c.choice("operands", [2, 3, 4])
        pos = c.choice("nested operand", range(n))
        ops = []
        for i in range(n):
            if i == pos:
                ops.append(inner(c, f"x{i}", scope))
            else:
                j, w = len(scope) + 1, c.real(f"x{i}", -50, 50)
                scope[f"${j}"] = w
                ops.append((var(j), w))
        e, v = BIN[k](head=ops[0][0], tail=[o[0] for o in ops[1:]]), apply_op(c, k, [o[1] for o in ops])
    before = dict(scope)
    ev = ExpressionEvalVisitor(scope)
    if c.bool("evaluator used before"):
        ev.evaluate(N.Constant(constant=77.0))
    got = ev.evaluate(e)
    c.eq(got, v, f"value of expression ({k})")
    c.check(set(scope) == set(before), "evaluation leaves the variables alone")
    for n in before:
        c.eq(scope[n], before[n], "evaluation leaves the values of variables alone")


# ------------------------------------------------------------------ primitives
def rotated(c, rot):
    if rot is None:
        return lambda p: p
    m = c.math
    co, si = m.cos(m.radians(rot)), m.sin(m.radians(rot))
    return lambda p: (p[0] * co - p[1] * si, p[0] * si + p[1] * co)


def rot_edges(f, edges):
    return [("L", f(e[1]), f(e[2])) if e[0] == "L" else ("A", f(e[1]), f(e[2]), f(e[3]), e[4]) for e in edges]


class Unrot:
    """Outline turned back by the rotation."""

    def __init__(self, c, o, rot):
        from pygerber.vm.types.vector import Vector

        f = back(c, rot)
        v = lambda p: Vector(x=f(p.xy)[0], y=f(p.xy)[1])  # noqa: E731
        self.commands = [Line(start=v(s.start), end=v(s.end)) if isinstance(s, Line) else Arc(start=v(s.start), end=v(s.end), center=v(s.center), clockwise=s.clockwise) for s in o.commands]


def back(c, rot):
    m = c.math
    co, si = m.cos(m.radians(rot)), m.sin(m.radians(rot))
    return lambda p: (p[0] * co + p[1] * si, -p[0] * si + p[1] * co)


class Operands:
    """Operands of a primitive given as numbers, as parameters of the aperture or as expressions."""

    def __init__(self, c):
        self.c, self.params = c, []

    def expr(self, v, how):
        if how == "constant":
            return N.Constant(constant=v)
        self.params.append(v)
        return var(len(self.params))


def rotation(c):
    return c.real("rotation", -400, 400)


def run_macro(c, prims, params, m=None, aid="D10", flash=(0.0, 0.0)):
    m = m or Machine(c)
    m.run(N.AM(open=N.AMopen(name="MAC"), primitives=prims, close=N.AMclose()))
    m.run(N.ADmacro(aperture_id=aid, name="MAC", params=params or None), N.Dnn(aperture_id=aid), N.D03())
    return m


def whole(want):
    return want if len(want) == 1 and want[0][0] == "S" and not want[0][2] else [("G", want, False)]


def primitive(kinds, name, fns, weight=2, note=""):
    @contract("C04", name, fns=[C + "MacroEvalVisitor." + f for f in fns] + [C + "Compiler.on_ad_macro"], weight=weight, note=note)
    def _(c):
        kind = c.choice("kind", kinds) if len(kinds) > 1 else kinds[0]
        how = c.choice("operands are", ["constant", "parameter"])
        o = Operands(c)
        x = lambda v: o.expr(v, how)  # noqa: E731
        node, want = MAKE[kind](c, x)
        m = run_macro(c, [node], o.params)
        check_items(c, m.items(), whole(want) if want else [("G", [], False)], name)

    return _


def exposure(c, x):
    e = c.choice("exposure", [0.0, 1.0])
    return x(e), e == 0


def mk_circle(c, x):
    en, neg = exposure(c, x)
    d, cx, cy = c.real("d", 0), c.real("cx"), c.real("cy")
    c.assume(d > 0)
    rot = rotation(c) if c.bool("rotated") else None
    f = rotated(c, rot)
    return N.Code1(exposure=en, diameter=x(d), center_x=x(cx), center_y=x(cy), rotation=None if rot is None else x(rot)), [("S", disc(f((cx, cy)), d / 2), neg)]


def mk_vector(cls):
    def mk(c, x):
        en, neg = exposure(c, x)
        w, s, e, rot = c.real("w", 0), c.vec("s").xy, c.vec("e").xy, rotation(c)
        if not c.sym:
            c.assume(math.dist(s, e) > 1e-2)
        c.assume(c.And(w > 0, c.Or(s[0] != e[0], s[1] != e[1])))
        ed = rot_edges(rotated(c, rot), thick_line_edges(c, s, e, w))
        return cls(exposure=en, width=x(w), start_x=x(s[0]), start_y=x(s[1]), end_x=x(e[0]), end_y=x(e[1]), rotation=x(rot)), [("S", outline(ed), neg)]

    return mk


def mk_rect(corner):
    def mk(c, x):
        en, neg = exposure(c, x)
        w, h, px, py, rot = c.real("w", 0), c.real("h", 0), c.real("px"), c.real("py"), rotation(c)
        c.assume(c.And(w > 0, h > 0))
        cx, cy = (px + w / 2, py + h / 2) if corner else (px, py)
        ed = rot_edges(rotated(c, rot), rect_edges(cx, cy, w, h))
        kw = dict(exposure=en, width=x(w), height=x(h))
        kw.update({"x_lower_left": x(px), "y_lower_left": x(py)} if corner else {"center_x": x(px), "center_y": x(py)})
        return (N.Code22 if corner else N.Code21)(**kw, rotation=x(rot)), [("S", outline(ed), neg)]

    return mk


def mk_outline(c, x):
    en, neg = exposure(c, x)
    n = c.choice("points", [2, 3, 4] if c.sym else [2, 3, 4, 5, 9])
    ps = [c.vec(f"p{i}").xy for i in range(n + 1)]
    closed = c.bool("last point repeats the first")
    if closed:
        ps.append(ps[0])
    rot = rotation(c)
    f = rotated(c, rot)
    nop, s = x(float(len(ps) - 1)), ps[0]
    node = N.Code4(exposure=en, number_of_points=nop, start_x=x(s[0]), start_y=x(s[1]), points=[Point(x=x(p[0]), y=x(p[1])) for p in ps[1:]], rotation=x(rot))
    want = [f(p) for p in ps]

    def chk(c, o, label):
        got = [("L", s.start.xy, s.end.xy) for s in o.commands]
        exp = [("L", want[i], want[i + 1]) for i in range(len(want) - 1)] + ([] if closed else [("L", want[-1], want[0])])
        while len(got) > len(exp) and bool(c.near(got[-1][1][0], got[-1][2][0])) and bool(c.near(got[-1][1][1], got[-1][2][1])):
            got.pop()
        c.check(len(got) == len(exp), f"{label}: number of sides", f"{len(got)} instead of {len(exp)}")
        if len(got) != len(exp):
            raise c._end()
        for a, b in zip(got, exp):
            c.check(c.And(same_pt(c, a[1], b[1]), same_pt(c, a[2], b[2])), f"{label}: corners in order")

    return node, [("S", chk, neg)]


def mk_polygon(c, x):
    en, neg = exposure(c, x)
    n = c.choice("vertices", [3, 4, 6, 7] if c.sym else range(3, 13))
    cx, cy, d, rot = c.real("cx"), c.real("cy"), c.real("d", 0), rotation(c)
    c.assume(d > 0)
    node = N.Code5(exposure=en, number_of_vertices=x(float(n)), center_x=x(cx), center_y=x(cy), diameter=x(d), rotation=x(rot))
    return node, [("S", lambda c, o, label: check_regular_polygon(c, o, cx, cy, d, n, 0.0, label, rotated(c, rot)), neg)]


def bar(c, along_x, center, length, t):
    a = (length / 2, 0) if along_x else (0, length / 2)
    return thick_line_edges(c, (center[0] - a[0], center[1] - a[1]), (center[0] + a[0], center[1] + a[1]), t)


def mk_moire(c, x):
    cx, cy, D, t, g = c.real("cx"), c.real("cy"), c.real("outer", 0), c.real("thickness", 0), c.real("gap", 0)
    n = c.choice("rings", [0, 1, 2, 3] if c.sym else range(6))
    ct, cl, rot = c.real("cross thickness", 0), c.real("cross length", 0), rotation(c)
    f = rotated(c, rot)
    if not c.sym:
        for k in range(6):
            c.assume(abs(D - 2 * k * (t + g)) > 1e-3 and abs(D - 2 * t - 2 * k * (t + g)) > 1e-3)
    node = N.Code6(center_x=x(cx), center_y=x(cy), outer_diameter=x(D), ring_thickness=x(t), gap_between_rings=x(g), max_ring_count=x(float(n)),
                   crosshair_thickness=x(ct), crosshair_length=x(cl), rotation=x(rot))
    want = []
    if c.And(ct > 0, cl > 0):
        want += [("S", outline(rot_edges(f, bar(c, ax, (cx, cy), cl, ct))), False) for ax in (False, True)]
    do = D
    if t > 0:
        for _ in range(n):
            if do <= 0:
                break
            di = do - 2 * t
            if di <= 0:
                want.append(("S", disc(f((cx, cy)), do / 2), False))
                break
            want.append(("ring", do, di))
            do = di - 2 * g
    return node, want, (cx, cy, rot)


@contract("C04", "moire", fns=[C + "MacroEvalVisitor.on_code_6"], weight=3, note="0..3 rings symbolically, up to 5 at run time")
def _(c):
    how = c.choice("operands are", ["constant", "parameter"])
    o = Operands(c)
    node, want, (cx, cy, rot) = mk_moire(c, lambda v: o.expr(v, how))
    got = run_macro(c, [node], o.params).items()
    c.check(len(got) == 1, "one flash")
    got = got[0]
    got = [got] if got[0] == "S" else list(got[1])
    for g in got:
        c.check(not g[2], "moire is dark")
    # rings, in any decomposition used, are compared with the cross and the rings turned back
    bars = [w for w in want if w[0] == "S" and w in want[:2]] if want and want[0][0] == "S" and len(want) >= 2 and want[1][0] == "S" else []
    n = sum(2 if w[0] == "ring" else 1 for w in want)
    c.check(len(got) == n, "number of parts of moire", f"{len(got)} instead of {n}")
    if len(got) != n:
        raise c._end()
    i = 0
    for w in want:
        if w[0] == "ring":
            check_ring(c, [g[1] for g in got[i:i + 2]], cx, cy, w[1], w[2], "moire ring", rotated(c, rot))
            i += 2
        else:
            w[1](c, got[i][1], "moire part")
            i += 1


@contract("C04", "thermal", fns=[C + "MacroEvalVisitor.on_code_7"], weight=3)
def _(c):
    how = c.choice("operands are", ["constant", "parameter"])
    o = Operands(c)
    x = lambda v: o.expr(v, how)  # noqa: E731
    cx, cy, do, di, gap, rot = c.real("cx"), c.real("cy"), c.real("outer", 0), c.real("inner", 0), c.real("gap", 0), rotation(c)
    c.assume(c.And(do > di, gap > 0, 2 * gap * gap < do * do))
    if not c.sym:
        c.assume((abs(di) > 1e-2 or di == 0) and do - di > 1e-2 and gap > 1e-2)
    node = N.Code7(center_x=x(cx), center_y=x(cy), outer_diameter=x(do), inner_diameter=x(di), gap_thickness=x(gap), rotation=x(rot))
    got = run_macro(c, [node], o.params).items()
    c.check(len(got) == 1 and got[0][0] == "G" and not got[0][2], "thermal is one dark object")
    if not (len(got) == 1 and got[0][0] == "G"):
        raise c._end()
    g = got[0][1]
    while len(g) == 1 and g[0][0] == "G":
        c.check(not g[0][2], "thermal is dark")
        g = g[0][1]
    dark, clear = [i for i in g if not i[2]], [i for i in g if i[2]]
    c.check([bool(i[2]) for i in g] == [False] * len(dark) + [True] * len(clear) and all(i[0] == "S" for i in g), "gaps are cut out of the ring")
    if di > 0:
        check_ring(c, [s[1] for s in dark], cx, cy, do, di, "thermal ring", rotated(c, rot))
    else:
        c.check(len(dark) == 1, "thermal without inner circle is a disc")
        check_items(c, dark, [("S", disc(rotated(c, rot)((cx, cy)), do / 2), False)], "thermal disc")
    c.check(len(clear) == 2, "two gaps across the ring")
    if len(clear) != 2:
        raise c._end()
    axes = []
    for s in clear:
        vs = [e[1] for e in edges_of(c, Unrot(c, s[1], rot))]
        c.check(len(vs) == 4, "gap is a bar")
        if len(vs) != 4:
            raise c._end()
        rel = [(v[0] - cx, v[1] - cy) for v in vs]
        R = do / 2
        ok = []
        for k in (0, 1):
            far = c.And(*[c.Or(c.le(R, r[k]), c.le(R, -r[k])) for r in rel])
            ok.append(c.And(far, *[c.near(c.abs(r[1 - k]), gap / 2, 1e-5) for r in rel]))
        ends = [c.near(rel[0][q] + rel[1][q] + rel[2][q] + rel[3][q], 0, 1e-5) for q in (0, 1)]
        c.check(c.And(*ends), "gap is centred")
        axes.append(ok)
    c.check(c.Or(c.And(axes[0][0], axes[1][1]), c.And(axes[0][1], axes[1][0])), "gaps of the given width cut the ring along both axes")


@contract("C04", "thermal without area", fns=[C + "MacroEvalVisitor.on_code_7"])
def _(c):
    cx, cy, do, di, gap = c.real("cx"), c.real("cy"), c.real("outer", 0), c.real("inner", 0), c.real("gap", 0)
    c.assume(c.Or(di >= do, gap * gap * 2 > do * do))
    k = lambda v: N.Constant(constant=v)  # noqa: E731
    node = N.Code7(center_x=k(cx), center_y=k(cy), outer_diameter=k(do), inner_diameter=k(di), gap_thickness=k(gap), rotation=k(0.0))
    m = c.noraise(lambda: run_macro(c, [node], []), "thermal without area")
    got = m.items()
    while got and got[0][0] == "G":
        got = got[0][1]
    c.check(not got, "thermal whose gaps or inner circle leave nothing paints nothing")


MAKE = {"circle": mk_circle, "vector line": mk_vector(N.Code20), "vector line (2)": mk_vector(N.Code2), "center line": mk_rect(False),
        "lower left line": mk_rect(True), "outline": mk_outline, "polygon": mk_polygon}
primitive(["circle"], "circle primitive", ["on_code_1"])
primitive(["vector line", "vector line (2)"], "vector line primitive", ["on_code_2", "on_code_20", "_on_vector_line"])
primitive(["center line", "lower left line"], "rectangle primitives", ["on_code_21", "on_code_22"])
primitive(["outline"], "outline primitive", ["on_code_4"], note="3..5 points symbolically, up to 10 at run time, closed or not")
primitive(["polygon"], "polygon primitive", ["on_code_5"], note="3, 4, 6, 7 vertices symbolically, 3..12 at run time")


# ------------------------------------------------------------------ variables
def circ(d, x):
    return N.Code1(exposure=N.Constant(constant=1.0), diameter=d, center_x=x, center_y=N.Constant(constant=0.0))


@contract("C04", "variables and assignments", fns=[C + "MacroEvalVisitor.on_assignment", C + "MacroEvalVisitor._eval", C + "Compiler.on_ad_macro", E + "on_variable"], weight=2,
          note="two instances of a macro of four statements, each a primitive or an assignment to a parameter, to a fresh variable or to itself")
def _(c):
    stmts, plan = [], []
    for i in range(4):
        k = c.choice(f"statement {i}", ["prim $1", "prim $2", "$1=", "$2=", "comment"] if i < 3 else ["prim $1", "prim $2"])
        if k == "comment":
            stmts.append(N.Code0(string="x"))
        elif k.startswith("prim"):
            stmts.append(circ(var(3), var(int(k[-1]))))
        else:
            a = c.real(f"a{i}")
            stmts.append(N.Assignment(variable=var(int(k[1])), expression=N.Add(head=var(1), tail=[N.Constant(constant=a)])))
            plan.append((i, int(k[1]), a))
            continue
        plan.append((i, k))
    n1 = c.choice("parameters", [1, 3])
    m = Machine(c)
    m.run(N.AM(open=N.AMopen(name="M"), primitives=stmts, close=N.AMclose()))
    d = c.real("d", 0)
    c.assume(d > 0)
    insts = []
    for q in range(2):
        v1, v2 = c.real(f"v{q}"), c.real(f"w{q}")
        params = [v1, v2, d] if n1 == 3 or q == 0 else [v1]
        insts.append(params)
        m.run(N.ADmacro(aperture_id=f"D1{q}", name="M", params=list(params)))
    got = []
    for q in range(2):
        m.run(N.Dnn(aperture_id=f"D1{q}"), N.D03())
    its = m.items()
    c.check(len(its) == 2, "two flashes")
    for q, params in enumerate(insts):
        scope = {1: c.const(0.0), 2: c.const(0.0), 3: c.const(0.0)}
        scope.update({i + 1: v for i, v in enumerate(params)})
        want = []
        for p in plan:
            if len(p) == 3:
                scope[p[1]] = scope[1] + p[2]
            elif p[1].startswith("prim"):
                want.append(("S", disc((scope[int(p[1][-1])], c.const(0.0)), scope[3] / 2), False))
        check_items(c, [its[q]], whole(want), f"instance {q}")


@contract("C04", "undefined macro", fns=[C + "Compiler.on_ad_macro"])
def _(c):
    m = Machine(c)
    m.run(N.AM(open=N.AMopen(name="A"), primitives=[], close=N.AMclose()))
    r, e = c.calls(lambda: m.run(N.ADmacro(aperture_id="D10", name="B", params=None)))
    c.check(e is not None, "an aperture using a macro that is not defined is an error")


@contract("C04", "redefined macro and several primitives", fns=[C + "Compiler.on_ad_macro"])
def _(c):
    """Apertures keep the macro as it was when they were defined; primitives stay in order."""
    m = Machine(c)
    d1, d2, d3, p = c.real("d1", 0.1), c.real("d2", 0.1), c.real("d3", 0.1), c.vec("p")
    k = lambda v: N.Constant(constant=v)  # noqa: E731
    off = N.Code1(exposure=k(0.0), diameter=k(d2), center_x=k(p.x), center_y=k(p.y))
    m.run(N.AM(open=N.AMopen(name="A"), primitives=[circ(k(d1), k(0.0)), off, circ(k(d3), k(0.0))], close=N.AMclose()))
    m.run(N.ADmacro(aperture_id="D10", name="A"))
    m.run(N.AM(open=N.AMopen(name="A"), primitives=[circ(k(d3), k(0.0))], close=N.AMclose()))
    m.run(N.ADmacro(aperture_id="D11", name="A"))
    m.run(N.Dnn(aperture_id="D10"), N.D03(), N.Dnn(aperture_id="D11"), N.D03())
    o = (0.0, 0.0)
    check_items(c, m.items(), [("G", [("S", disc(o, d1 / 2), False), ("S", disc(p.xy, d2 / 2), True), ("S", disc(o, d3 / 2), False)], False), ("S", disc(o, d3 / 2), False)], "macro")


def mk_thermal(c, x):
    cx, cy = (c.real("cx"), c.real("cy")) if c.bool("away from the origin") else (c.const(0.0), c.const(0.0))
    do, di, gap = c.real("outer", 0), c.real("inner", 0), c.real("gap", 0)
    c.assume(c.And(do > di + 0.01, di > 0.01, gap > 0.01, 2 * gap * gap < do * do))
    return N.Code7(center_x=x(cx), center_y=x(cy), outer_diameter=x(do), inner_diameter=x(di), gap_thickness=x(gap), rotation=x(c.const(0.0)))


def same_items(c, got, want, label):
    c.check(len(got) == len(want), f"{label}: number of parts", f"{len(got)} instead of {len(want)}")
    if len(got) != len(want):
        raise c._end()
    for g, w in zip(got, want):
        c.check(g[0] == w[0] and bool(g[2]) == bool(w[2]), f"{label}: kind and polarity of parts")
        if g[0] != w[0]:
            raise c._end()
        if g[0] == "G":
            same_items(c, g[1], w[1], label)
            continue
        a, b = g[1].commands, w[1].commands
        c.check(len(a) == len(b) and all(type(p) is type(q) for p, q in zip(a, b)), f"{label}: segments of parts")
        for p, q in zip(a, b):
            c.check(c.And(same_pt(c, p.start.xy, q.start.xy), same_pt(c, p.end.xy, q.end.xy)), f"{label}: geometry of parts")


class Named:
    """The same values under names of their own for each primitive."""

    def __init__(self, c, prefix):
        self._c, self._p = c, prefix

    def __getattr__(self, n):
        f = getattr(self._c, n)
        return (lambda name, *a, **k: f(f"{self._p} {name}", *a, **k)) if n in ("real", "vec", "bool", "int", "choice") else f


@contract("C04", "primitives of one macro do not affect each other", fns=[C + "MacroEvalVisitor.on_code_*", C + "Compiler.on_ad_macro"], samples=400,
          note="two primitives of any kinds (three at run time) against the same primitives in macros of their own; also the same macro with other parameters")
def _(c):
    k = lambda v: N.Constant(constant=v)  # noqa: E731
    kinds = ["circle", "thermal", "center line", *([] if c.sym else ["thermal", "thermal", "thermal", "outline", "polygon", "lower left line", "vector line"])]
    n = 2 if c.sym else c.choice("primitives", [2, 3])
    prims = []
    for i in range(n):
        kind = c.choice(f"kind {i}", kinds)
        cc = Named(c, f"p{i}")
        prims.append(mk_thermal(cc, k) if kind == "thermal" else MAKE[kind](cc, k)[0])
    alone = []
    for p in prims:
        its = run_macro(c, [p], []).items()
        c.check(len(its) == 1 and its[0][0] == "G", "one flash")
        alone += list(its[0][1])
    its = run_macro(c, prims, []).items()
    c.check(len(its) == 1 and its[0][0] == "G", "one flash")
    same_items(c, its[0][1], alone, "macro")
