"""Geometry of shapes, segments and their boxes."""
import math

from pyvc.registry import contract
from pyvc.spec import check_edges, check_outline, cross, dot, edges_of, holds, is_disc, mod360, same_angle, same_pt, theta

from pygerber.vm.commands.shape import Shape
from pygerber.vm.commands.shape_segments import Arc, Line
from pygerber.vm.types.box import Box
from pygerber.vm.types.matrix import Matrix3x3
from pygerber.vm.types.vector import Vector

S = "pygerber.vm.commands.shape.Shape."
A = "pygerber.vm.commands.shape_segments.arc.Arc."
L = "pygerber.vm.commands.shape_segments.line.Line."
META = {"k": "v"}


def flags(c):
    return c.bool("negative"), c.choice("meta", [None, META])


def kept(c, sh, neg, meta):
    c.check(sh.is_negative is neg, "polarity kept")
    c.check(sh.metadata == meta, "metadata kept")


def lines(*pts):
    n = len(pts)
    return [("L", pts[i], pts[(i + 1) % n]) for i in range(n)]


def rect_edges(cx, cy, w, h):
    x0, x1, y0, y1 = cx - w / 2, cx + w / 2, cy - h / 2, cy + h / 2
    return lines((x0, y0), (x1, y0), (x1, y1), (x0, y1))


def obround_edges(c, cx, cy, w, h):
    """Rectangle whose shorter sides are replaced by half circles."""
    if w <= h:
        r, x0, x1, yb, yt = w / 2, cx - w / 2, cx + w / 2, cy - h / 2 + w / 2, cy + h / 2 - w / 2
        return [("A", (x0, yb), (x1, yb), (cx, yb), False), ("L", (x1, yb), (x1, yt)),
                ("A", (x1, yt), (x0, yt), (cx, yt), False), ("L", (x0, yt), (x0, yb))]
    y0, y1, xl, xr = cy - h / 2, cy + h / 2, cx - w / 2 + h / 2, cx + w / 2 - h / 2
    return [("L", (xl, y0), (xr, y0)), ("A", (xr, y0), (xr, y1), (xr, cy), False),
            ("L", (xr, y1), (xl, y1)), ("A", (xl, y1), (xl, y0), (xl, cy), False)]


@contract("C03", "rectangle", fns=[S + "new_rectangle", L + "from_tuples"])
def _(c):
    neg, meta = flags(c)
    cx, cy, w, h = c.real("cx"), c.real("cy"), c.real("w", 0), c.real("h", 0)
    c.assume(c.And(w > 0, h > 0))
    sh = Shape.new_rectangle((cx, cy), w, h, is_negative=neg, metadata=meta)
    check_outline(c, sh, rect_edges(cx, cy, w, h), "rectangle outline")
    kept(c, sh, neg, meta)


@contract("C03", "obround", fns=[S + "new_obround", A + "from_tuples"])
def _(c):
    neg, meta = flags(c)
    cx, cy, w, h = c.real("cx"), c.real("cy"), c.real("w", 0), c.real("h", 0)
    if not c.sym and c.bool("square"):
        h = w
    c.assume(c.And(w > 0, h > 0))
    sh = Shape.new_obround((cx, cy), w, h, is_negative=neg, metadata=meta)
    kept(c, sh, neg, meta)
    if w == h:
        return is_disc(c, sh, (cx, cy), w / 2, "obround of equal sides is a disc")
    check_outline(c, sh, obround_edges(c, cx, cy, w, h), "obround outline")


@contract("C03", "circle", fns=[S + "new_circle"])
def _(c):
    neg, meta = flags(c)
    cx, cy, d = c.real("cx"), c.real("cy"), c.real("d", 0)
    sh = Shape.new_circle((cx, cy), d, is_negative=neg, metadata=meta)
    is_disc(c, sh, (cx, cy), d / 2, "circle outline")
    kept(c, sh, neg, meta)


def check_regular_polygon(c, sh, cx, cy, d, n, rot, label, f=lambda p: p):
    """f applied to n vertices on the circle of diameter d, the first at angle rot, 360/n degrees apart."""
    vs = []
    for s in sh.commands:
        c.check(isinstance(s, Line), f"{label}: sides are straight")
        vs.append(s.start.xy)
    c.check(len(vs) == n, f"{label}: number of vertices", str(len(vs)))
    if len(vs) != n:
        raise c._end()
    for i, s in enumerate(sh.commands[:-1]):
        c.check(same_pt(c, s.end.xy, vs[i + 1]), f"{label}: sides are connected")
    m = c.math
    r = d / 2
    if not c.sym:
        want = [(cx + r * math.cos(math.radians(rot + k * 360 / n)), cy + r * math.sin(math.radians(rot + k * 360 / n))) for k in range(n)]
        check_edges(c, lines(*vs), lines(*map(f, want)), label)
        return
    st = 360 / n
    co, si = m.cos(m.radians(st)), m.sin(m.radians(st))
    e = (r * m.cos(m.radians(rot)), r * m.sin(m.radians(rot)))
    for k in range(n):
        c.check(same_pt(c, vs[k], f((cx + e[0], cy + e[1]))), label)
        e = (e[0] * co - e[1] * si, e[0] * si + e[1] * co)


@contract("C03", "regular polygon", fns=[S + "new_polygon"], note="3..12 vertices, each count unrolled; rotation within one turn either way")
def _(c):
    neg, meta = flags(c)
    n = c.choice("n", range(3, 13))
    turns = c.choice("turns", [0, -1, 1])
    cx, cy, d, rot = c.real("cx"), c.real("cy"), c.real("d", 0), c.real("rot", 0, 360)
    c.assume(c.And(d > 0, rot < 360))
    sh = Shape.new_polygon((cx, cy), d, n, rot + 360 * turns, is_negative=neg, metadata=meta)
    check_regular_polygon(c, sh, cx, cy, d, n, rot, "polygon vertices")
    kept(c, sh, neg, meta)


def thick_line_edges(c, s, e, t):
    dx, dy = e[0] - s[0], e[1] - s[1]
    n = c.math.sqrt(dx * dx + dy * dy)
    px, py = -dy * (t / 2) / n, dx * (t / 2) / n
    return lines((s[0] + px, s[1] + py), (e[0] + px, e[1] + py), (e[0] - px, e[1] - py), (s[0] - px, s[1] - py))


@contract("C03", "thick line", fns=[S + "new_line"])
def _(c):
    neg, meta = flags(c)
    s, e, t = c.vec("s"), c.vec("e"), c.real("t", 0)
    c.assume(t > 0)
    if not c.sym and c.bool("far"):
        c.assume(abs(s.x - e.x) + abs(s.y - e.y) > 1e-2)
    sh = c.noraise(lambda: Shape.new_line(s.xy, e.xy, t, is_negative=neg, metadata=meta), "thick line")
    kept(c, sh, neg, meta)
    if c.And(s.x == e.x, s.y == e.y):
        return
    check_outline(c, sh, thick_line_edges(c, s.xy, e.xy, t), "thick line outline")


def thick_arc_edges(c, s, e, o, t, cw):
    """Band of width t around the arc from s to e."""
    def ext(p):
        x, y = p[0] - o[0], p[1] - o[1]
        n = c.math.sqrt(x * x + y * y)
        return x / n * (t / 2), y / n * (t / 2)

    a, b = ext(s), ext(e)
    so, si = (s[0] + a[0], s[1] + a[1]), (s[0] - a[0], s[1] - a[1])
    eo, ei = (e[0] + b[0], e[1] + b[1]), (e[0] - b[0], e[1] - b[1])
    return [("A", so, eo, o, cw), ("L", eo, ei), ("A", ei, si, o, not cw), ("L", si, so)]


def _thick_arc(cw):
    @contract("C03", f"thick {'clockwise' if cw else 'counterclockwise'} arc", fns=[S + ("new_cw_arc" if cw else "new_ccw_arc")])
    def _(c):
        neg, meta = flags(c)
        s, e, o, t = c.vec("s"), c.vec("e"), c.vec("o"), c.real("t", 0)
        c.assume(c.And(t > 0, c.Or(s.x != o.x, s.y != o.y), c.Or(e.x != o.x, e.y != o.y)))
        if not c.sym:
            c.assume(math.dist(s.xy, e.xy) > 1e-2)
        c.assume(c.Or(s.x != e.x, s.y != e.y))
        f = Shape.new_cw_arc if cw else Shape.new_ccw_arc
        sh = f(s.xy, e.xy, o.xy, t, is_negative=neg, metadata=meta)
        kept(c, sh, neg, meta)
        check_outline(c, sh, thick_arc_edges(c, s.xy, e.xy, o.xy, t, cw), "thick arc outline")


_thick_arc(True)
_thick_arc(False)


def check_ring(c, pair, cx, cy, do, di, label, f=lambda p: p):
    """The two halves of the ring between the circles of diameter di and do."""
    pair = list(pair)
    c.check(len(pair) == 2, f"{label}: two halves")
    if len(pair) != 2:
        raise c._end()
    R, r = do / 2, di / 2
    for k, sh in enumerate(pair):
        es = edges_of(c, sh)
        arcs = [e for e in es if e[0] == "A"]
        c.check(len(arcs) == 2 and len(es) == 4, f"{label}: half is bounded by two arcs", repr(es))
        if not (len(arcs) == 2 and len(es) == 4):
            raise c._end()
    # halves: band from +x to -x and band from -x to +x, both on the same rotational direction
    h = [_half(cx, cy, R, r, 1, cw=True), _half(cx, cy, R, r, -1, cw=True)]
    h = [[(e[0], *[f(p) for p in e[1:4]], *e[4:]) for e in x] for x in h]
    for order in (h, h[::-1]):
        if _try(c, pair[0], order[0]):
            check_edges(c, edges_of(c, pair[0]), order[0], f"{label}: first half")
            check_edges(c, edges_of(c, pair[1]), order[1], f"{label}: second half")
            return
    check_edges(c, edges_of(c, pair[0]), h[0], f"{label}: first half")
    check_edges(c, edges_of(c, pair[1]), h[1], f"{label}: second half")


def _half(cx, cy, R, r, s, cw):
    a, b = (cx + s * R, cy), (cx - s * R, cy)
    d, e = (cx - s * r, cy), (cx + s * r, cy)
    return [("A", a, b, (cx, cy), cw), ("L", b, d), ("A", d, e, (cx, cy), not cw), ("L", e, a)]


def _try(c, sh, exp):
    class Quiet(Exception):
        pass

    class Q:
        def __getattr__(self, n):
            return getattr(c, n)

        def check(self, cond, label, detail=""):
            if not holds(c, cond):
                raise Quiet

        def _end(self):
            return Quiet()

    try:
        check_edges(Q(), edges_of(c, sh), exp, "")
    except Quiet:
        return False
    return True


@contract("C03", "ring", fns=[S + "new_ring"])
def _(c):
    neg, meta = flags(c)
    cx, cy, do, di = c.real("cx"), c.real("cy"), c.real("outer", 0), c.real("inner", 0)
    c.assume(c.And(di > 0, do > di))
    pair = Shape.new_ring((cx, cy), do, di, is_negative=neg, metadata=meta)
    check_ring(c, pair, cx, cy, do, di, "ring")
    for sh in pair:
        kept(c, sh, neg, meta)


@contract("C03", "closed polyline", fns=[S + "new_connected_points"], note="2..7 points, each count unrolled")
def _(c):
    neg, meta = flags(c)
    n = c.choice("n", range(2, 8))
    ps = [c.vec(f"p{i}").xy for i in range(n)]
    sh = Shape.new_connected_points(*ps, is_negative=neg, metadata=meta)
    kept(c, sh, neg, meta)
    if n == 2:
        return
    got = [e for e in edges_of(c, sh)]
    if c.sym:
        check_edges(c, got, lines(*ps), "polyline visits the points in order and closes")
    else:
        check_outline(c, sh, lines(*ps), "polyline visits the points in order and closes")


# ------------------------------------------------------------------ transforms
def affine(c):
    r = lambda i, j: c.real(f"m{i}{j}", -20, 20)  # noqa: E731
    m = Matrix3x3(((r(0, 0), r(0, 1), r(0, 2)), (r(1, 0), r(1, 1), r(1, 2)), (0.0, 0.0, 1.0)))
    det = m[0][0] * m[1][1] - m[0][1] * m[1][0]
    c.assume(det != 0 if c.sym else abs(det) > 1e-6)
    return m, det


def apply(m, p):
    return (m[0][0] * p[0] + m[0][1] * p[1] + m[0][2], m[1][0] * p[0] + m[1][1] * p[1] + m[1][2])


@contract(["C06", "C11"], "segment transform", fns=[A + "transform", L + "transform", S + "transform"])
def _(c):
    m, det = affine(c)
    s, e, o, cw = c.vec("s"), c.vec("e"), c.vec("o"), c.bool("cw")
    neg, meta = flags(c)
    sh = Shape(commands=[Line(start=o, end=s), Arc(start=s, end=e, center=o, clockwise=cw)], is_negative=neg, metadata=meta)
    t = sh.transform(m)
    c.check(len(t.commands) == 2, "number of segments kept")
    l, a = t.commands
    c.check(same_pt(c, l.start.xy, apply(m, o.xy)), "line start")
    c.check(same_pt(c, l.end.xy, apply(m, s.xy)), "line end")
    c.check(same_pt(c, a.start.xy, apply(m, s.xy)), "arc start")
    c.check(same_pt(c, a.end.xy, apply(m, e.xy)), "arc end")
    c.check(same_pt(c, a.center.xy, apply(m, o.xy)), "arc center")
    flip = bool(det < 0)
    c.check(bool(a.clockwise) == (cw != flip), "arc direction is reversed exactly by mirroring transforms")
    kept(c, t, neg, meta)
    c.check(same_pt(c, sh.commands[1].start.xy, s.xy), "original shape unchanged")
    c.check(sh.commands[1].clockwise is cw, "original shape unchanged (direction)")


# ------------------------------------------------------------------ boxes
@contract("C09", "box of a line", fns=[L + "outer_box", S + "outer_box"])
def _(c):
    s, e, f = c.vec("s"), c.vec("e"), c.vec("f")
    b = Line(start=s, end=e).outer_box
    c.eq(b.min_x, c.min(s.x, e.x), "min x")
    c.eq(b.max_x, c.max(s.x, e.x), "max x")
    c.eq(b.min_y, c.min(s.y, e.y), "min y")
    c.eq(b.max_y, c.max(s.y, e.y), "max y")
    b = Shape(commands=[Line(start=s, end=e), Line(start=e, end=f)]).outer_box
    c.eq(b.min_x, c.min(s.x, e.x, f.x), "shape min x")
    c.eq(b.max_x, c.max(s.x, e.x, f.x), "shape max x")
    c.eq(b.min_y, c.min(s.y, e.y, f.y), "shape min y")
    c.eq(b.max_y, c.max(s.y, e.y, f.y), "shape max y")


@contract("C09", "box of a shape is the union of the boxes of its segments", fns=[S + "outer_box"], assumes=["Arc.outer_box by its contract (box of an arc)"],
          note="one to three segments, each a line, an arc or a full circle, anywhere")
def _(c):
    n = c.choice("n", [1, 2, 3] if c.sym else [1, 2, 3, 6])
    segs, want = [], []
    boxes = {}
    for i in range(n):
        k = c.choice(f"kind {i}", ["line", "arc", "circle", "point"])
        s, e = c.vec(f"s{i}"), c.vec(f"e{i}")
        if k in ("circle", "point"):
            e = s
        if k in ("line", "point"):
            segs.append(Line(start=s, end=e))
            want.append((c.min(s.x, e.x), c.min(s.y, e.y), c.max(s.x, e.x), c.max(s.y, e.y)))
            continue
        arc = Arc(start=s, end=e, center=c.vec(f"o{i}"), clockwise=c.bool(f"cw {i}") if not c.sym else True)
        segs.append(arc)
        if c.sym:
            v = [c.real(f"box{i}.{j}") for j in range(4)]
            c.assume(c.And(v[0] <= v[2], v[1] <= v[3]))
            boxes[id(arc)] = (arc, Box(min_x=v[0], min_y=v[1], max_x=v[2], max_y=v[3]))
        else:
            b = arc.outer_box
            v = [b.min_x, b.min_y, b.max_x, b.max_y]
        want.append(v)
    if c.sym:
        def outer_box(self):
            for a, b in boxes.values():
                if a is self or (a.start is self.start and a.end is self.end and a.center is self.center):
                    return b
            raise c.S.Unsupported("box of another arc")

        c.stub(Arc, "outer_box", property(outer_box))
    b = Shape(commands=segs).outer_box
    c.eq(b.min_x, c.min(*[w[0] for w in want], want[0][0]), "min x")
    c.eq(b.min_y, c.min(*[w[1] for w in want], want[0][1]), "min y")
    c.eq(b.max_x, c.max(*[w[2] for w in want], want[0][2]), "max x")
    c.eq(b.max_y, c.max(*[w[3] for w in want], want[0][3]), "max y")


@contract("C09", "box of a transformed shape", fns=[S + "transform", S + "outer_box", L + "transform"])
def _(c):
    s, e, f = c.vec("s"), c.vec("e"), c.vec("f")
    sh = Shape(commands=[Line(start=s, end=e), Line(start=e, end=f)])
    c.eq(sh.outer_box.min_x, c.min(s.x, e.x, f.x), "box before transform")
    d = c.vec("d")
    t = sh.transform(Matrix3x3.new_translate(d.x, d.y))
    b = t.outer_box
    c.eq(b.min_x, c.min(s.x, e.x, f.x) + d.x, "box follows the transformed shape (min x)")
    c.eq(b.max_x, c.max(s.x, e.x, f.x) + d.x, "box follows the transformed shape (max x)")
    c.eq(b.min_y, c.min(s.y, e.y, f.y) + d.y, "box follows the transformed shape (min y)")
    c.eq(b.max_y, c.max(s.y, e.y, f.y) + d.y, "box follows the transformed shape (max y)")
    c.eq(sh.outer_box.max_y, c.max(s.y, e.y, f.y), "box of the original stays")


def on_ccw_arc(c, s, p, e):
    """Direction p is met when turning counterclockwise from s to e (full turn when s ~ e)."""
    se, sp, pe, ep, ps = cross(s, e), cross(s, p), cross(p, e), cross(e, p), cross(p, s)
    same = c.And(se == 0, dot(s, e) > 0)
    small = c.And(sp >= 0, pe >= 0)
    big = c.Not(c.And(ep > 0, ps > 0))
    return c.Or(same, c.And(se >= 0, c.Not(same), small), c.And(se < 0, big))


def angle_contract(c):
    """angle_between by contract (proved in C10): the clockwise angle between the directions."""
    def angle_between(self, other):
        if c.And(self.x == 0, self.y == 0) or c.And(other.x == 0, other.y == 0):
            raise c.S.Unsupported("angle of a null vector")
        d = theta(c, self.x, self.y) - theta(c, other.x, other.y)
        return mod360(c, d)

    def angle_between_cc(self, other):
        return mod360(c, 360 - angle_between(self, other))

    c.stub(Vector, "angle_between", angle_between)
    c.stub(Vector, "angle_between_cc", angle_between_cc)


@contract("C09", "box of an arc", fns=[A + "outer_box", A + "get_radius", A + "get_relative_start_point", A + "get_relative_end_point"],
          assumes=["theta(v)-theta(u) mod 360 is the counterclockwise angle from u to v"], weight=3)
def _(c):
    cw = c.bool("cw")
    o = c.vec("o") if not c.sym else Vector(x=c.real("o.x"), y=c.real("o.y"))
    if c.sym:
        s, e = (c.real("s.x"), c.real("s.y")), (c.real("e.x"), c.real("e.y"))
        c.assume(c.Or(s[0] != 0, s[1] != 0))
        c.assume(s[0] * s[0] + s[1] * s[1] == e[0] * e[0] + e[1] * e[1])
        angle_contract(c)
    else:
        r = c.choice("rr", [0.25, 1.0, 2.0, 3.5])
        kind = c.choice("kind", ["any", "axis"])
        a0 = c.real("a0", 0, 360) if kind == "any" else 90.0 * c.choice("q0", range(4))
        a1 = c.real("a1", 0, 360) if kind == "any" else 90.0 * c.choice("q1", range(4))
        ex = {0.0: (1, 0), 90.0: (0, 1), 180.0: (-1, 0), 270.0: (0, -1)}
        uv = lambda a: ex.get(a, (math.cos(math.radians(a)), math.sin(math.radians(a))))  # noqa: E731
        s, e = tuple(r * k for k in uv(a0)), tuple(r * k for k in uv(a1))
        if kind == "any":
            c.assume(all(abs((a0 - a1 + 180) % 360 - 180) > 1e-3 and abs((a - q + 45) % 90 - 45) > 1e-3 for q in (0,) for a in (a0, a1)))
    arc = Arc(start=Vector(x=o.x + s[0], y=o.y + s[1]), end=Vector(x=o.x + e[0], y=o.y + e[1]), center=o, clockwise=cw)
    b = arc.outer_box
    r = c.math.sqrt(s[0] * s[0] + s[1] * s[1])
    fr, to = (e, s) if cw else (s, e)
    zero = c.const(0.0)
    lo = [c.min(zero, s[0], e[0]), c.min(zero, s[1], e[1])]
    hi = [c.max(zero, s[0], e[0]), c.max(zero, s[1], e[1])]
    for d, arr, k, v in (((1, 0), hi, 0, r), ((0, 1), hi, 1, r), ((-1, 0), lo, 0, -r), ((0, -1), lo, 1, -r)):
        on = on_ccw_arc(c, fr, d, to)
        arr[k] = c.If(on, v, arr[k])
    c.eq(b.min_x, o.x + lo[0], "min x of the arc with its center")
    c.eq(b.min_y, o.y + lo[1], "min y of the arc with its center")
    c.eq(b.max_x, o.x + hi[0], "max x of the arc with its center")
    c.eq(b.max_y, o.y + hi[1], "max y of the arc with its center")
