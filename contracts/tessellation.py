"""Arcs as point sequences in both renderers."""
import math

from pyvc.registry import contract
from pyvc.spec import mod360, same_pt, theta

import pygerber.vm.shapely.vm as sv
from pygerber.vm.commands import Shape, StartLayer
from pygerber.vm.commands.shape_segments import Arc
from pygerber.vm.pillow.vm import PillowVirtualMachine
from pygerber.vm.shapely.vm import ShapelyVirtualMachine
from pygerber.vm.types import Box, LayerID, Vector

from contracts.shapes import angle_contract

P = "pygerber.vm.pillow.vm.PillowVirtualMachine."
S = "pygerber.vm.shapely.vm.ShapelyVirtualMachine."


def vm_of(c, kind, dpmm=20):
    return PillowVirtualMachine(dpmm) if kind == "pillow" else ShapelyVirtualMachine()


@contract("C11", "angle sequence", fns=[P + "_generate_arc_angles", S + "_generate_arc_angles"],
          note="first two angles from an arbitrary start; the rest by induction, the current angle being the only state of the loop")
def _(c):
    import operator

    if not c.sym:
        return along(c)
    vm = vm_of(c, c.choice("renderer", ["pillow", "shapely"]))
    down = c.bool("clockwise")
    a, b, d = c.real("start", -720, 720), c.real("end", -720, 720), c.real("delta", 0, 360)
    c.assume(d > 0 if c.sym else d > 0.5)
    sign = -1 if down else 1
    g = vm._generate_arc_angles(a, b, d, *((operator.sub, operator.gt) if down else (operator.add, operator.lt)))
    want, cur = [], a
    for _ in range(2 if c.sym else 3000):
        if not (cur > b if down else cur < b):
            break
        want.append(cur)
        cur = cur + sign * d
    else:
        want.append(None)
    if not want or want[-1] is not None:
        want.append(b)
    for i, w in enumerate(want):
        if w is None:
            return
        x = next(g, None)
        c.check(x is not None, "next angle exists")
        if x is None:
            raise c._end()
        c.eq(x, w, "angles advance by the step in the direction of the arc and finish at the end")
    c.check(next(g, None) is None, "nothing follows the end angle")


def span_of(c, ts, te, cw):
    d = mod360(c, ts - te) if cw else mod360(c, te - ts)
    return c.If(d == 0, 360, d)


@contract("C11", "points of an arc", fns=[P + "on_shape_eager", S + "on_shape_eager", P + "_calculate_arc_points", S + "_calculate_arc_points", P + "_get_arc_segment_count"], weight=2,
          assumes=["theta(v)-theta(u) mod 360 is the counterclockwise angle from u to v"],
          note="angles used through the contract of the angle sequence; density of points checked at run time")
def _(c):
    if not c.sym:
        return along(c)
    kind, cw = c.choice("renderer", ["pillow", "shapely"]), c.bool("clockwise")
    if c.sym:
        vm = vm_of(c, kind)
        count = c.choice("segments", [1, 7, 13, 40])
        vm.angle_length_to_segment_count = lambda length: count if length > 0 else min(count, 12)
        c.stub(PillowVirtualMachine, "to_pixel", lambda self, v: 10 if v > 0 else 0)
        o, s, e = c.vec("o"), c.vec("s"), c.vec("e")
        c.assume(c.Or(s.x != 0, s.y != 0))
        c.assume(s.x * s.x + s.y * s.y == e.x * e.x + e.y * e.y)
        angle_contract(c)
        mid = c.real("angle", -720, 720)
        calls = []

        def angles(self, start, end, delta, apply_delta, compare_angles):
            calls.append((start, end, delta, apply_delta(10, 1) < 10, compare_angles(2, 1)))
            yield start
            yield mid
            yield end

        c.stub(PillowVirtualMachine if kind == "pillow" else ShapelyVirtualMachine, "_generate_arc_angles", angles)
        arc = Arc(start=Vector(x=o.x + s.x, y=o.y + s.y), end=Vector(x=o.x + e.x, y=o.y + e.y), center=o, clockwise=cw)
        pts = list(vm._calculate_arc_points(arc))
        c.check(len(calls) == 1, "one walk along the arc")
        if len(calls) != 1:
            raise c._end()
        a, b, d, dec, gt = calls[0]
        ts, te = theta(c, s.x, s.y), theta(c, e.x, e.y)
        c.eq(a, ts, "walk starts at the angle of the start point")
        sp = span_of(c, ts, te, cw)
        c.eq(b - a, -sp if cw else sp, "walk covers the angular span of the arc in its direction")
        c.check(c.And(d > 0, d <= 360 / min(count, 12) + 0.001), "step of the walk is positive and bounded")
        c.check(dec == cw and gt == cw, "angles change in the direction of the arc")
        r = c.math.sqrt(s.x * s.x + s.y * s.y)
        m = c.math
        want = [(o.x + r * m.cos(m.radians(t)), o.y + r * m.sin(m.radians(t))) for t in (a, mid, b)]
        if len(pts) == 5:
            c.check(c.And(same_pt(c, pts[0], arc.start.xy), same_pt(c, pts[4], arc.end.xy)), "first and last point are the ends of the arc")
            pts = pts[1:4]
        c.check(len(pts) == 3, "one point per angle")
        if len(pts) != 3:
            raise c._end()
        for p, w in zip(pts, want):
            c.check(same_pt(c, p, w), "point lies on the circle at its angle")


@contract("C11", "chords stay close to the arc for every radius", fns=[P + "_calculate_arc_points", S + "_calculate_arc_points", P + "_get_arc_segment_count", S + "__init__", P + "__init__"], weight=2,
          assumes=["theta(v)-theta(u) mod 360 is the counterclockwise angle from u to v", "1 - cos(x) <= x*x/2"],
          note="step of the walk for arcs of any radius and span, with the default number of segments")
def _(c):
    if not c.sym:
        return along(c)
    kind, cw = c.choice("renderer", ["pillow", "shapely"]), c.bool("clockwise")
    dp = 20
    vm = vm_of(c, kind, dp)
    o = c.vec("o")
    ts, te, r = c.real("start angle", 0, 360), c.real("end angle", 0, 360), c.real("radius", 0, 10000)
    c.assume(c.And(r > 0, ts < 360, te < 360))
    s, e = Vector(x=c.const(1.0), y=c.const(0.0)), Vector(x=c.const(0.0), y=c.const(1.0))
    c.stub(Arc, "get_relative_start_point", lambda self: s)
    c.stub(Arc, "get_relative_end_point", lambda self: e)
    c.stub(Arc, "get_radius", lambda self: r)
    c.stub(Vector, "angle_between", lambda self, other: ts if self is s else te)
    steps = []

    def angles(self, start, end, delta, apply_delta, compare_angles):
        steps.append(delta)
        yield start

    c.stub(PillowVirtualMachine if kind == "pillow" else ShapelyVirtualMachine, "_generate_arc_angles", angles)
    arc = Arc(start=o, end=o, center=o, clockwise=cw)
    list(vm._calculate_arc_points(arc))
    c.check(len(steps) == 1, "one walk along the arc")
    d = steps[0] * c.math.pi / 180
    if kind == "pillow":
        c.check(r * d * d / 8 <= 0.6 / dp, "chords stay within half a pixel of the arc")
    else:
        c.check(r * d * d / 8 <= 0.03, "chords stay within 0.03 mm of the arc")
    c.check(d < 0.6, "an arc has at least a dozen points per turn")


class Recorder:
    def __init__(self):
        self.polygons = []

    def polygon(self, xy, fill=None, outline=None, width=1):
        self.polygons.append([tuple(p) for p in xy])


class Proxy:
    def __init__(self, real):
        self.real, self.polygons = real, []

    def __getattr__(self, n):
        return getattr(self.real, n)

    def Polygon(self, shell=None, *a, **k):  # noqa: N802
        self.polygons.append([tuple(p) for p in shell])
        return self.real.Polygon(shell, *a, **k)


def points_drawn(c, kind, dp, arc, box):
    """The polygon handed to the drawing library for a shape made of one arc, and its precision."""
    start = StartLayer(id=LayerID(id="%main%"), box=box)
    if kind == "pillow":
        vm = PillowVirtualMachine(dp)
        start.visit(vm)
        vm.layer.draw = rec = Recorder()
        Shape(commands=[arc], is_negative=False).visit(vm)
        pts = [(x / dp + box.min_x, y / dp + box.min_y) for x, y in rec.polygons[0]]
        return pts, 1.5 / dp
    vm = ShapelyVirtualMachine()
    start.visit(vm)
    real, sv.sh = sv.sh, Proxy(sv.sh)
    try:
        Shape(commands=[arc], is_negative=False).visit(vm)
        pts = sv.sh.polygons[0]
    finally:
        sv.sh = real
    return pts, 1e-7


def along(c):
    """Run-time side: the outline handed to the drawing library follows the arc."""
    kind, cw = c.choice("renderer", ["pillow", "shapely"]), c.bool("clockwise")
    dp = c.choice("dpmm", [1, 5, 20, 100])
    o, r, a0 = c.vec("o"), c.choice("r", [0.05, 0.3, 1.0, 2.5, 12.0, 60.0]), c.real("a0", 0, 360)
    if kind == "pillow":
        c.assume(8 <= r * dp <= 700)
    how = c.choice("how", ["any", "full", "short", "axis", "nearly full", "half"])
    a1 = {"any": lambda: c.real("a1", 0, 360), "full": lambda: a0, "short": lambda: a0 + c.real("d", -8, 8), "axis": lambda: 90.0 * c.choice("q", range(4)),
          "nearly full": lambda: a0 + c.choice("nf", [0.7, -0.7]), "half": lambda: a0 + 180}[how]()
    if how == "axis":
        a0 = 90.0 * c.choice("q0", range(4))
    ex = {0.0: (1, 0), 90.0: (0, 1), 180.0: (-1, 0), 270.0: (0, -1)}
    pt = lambda a: Vector(x=o.x + r * ex.get(a, (math.cos(math.radians(a)), 0))[0], y=o.y + r * ex.get(a, (0, math.sin(math.radians(a))))[1])  # noqa: E731
    s = pt(a0)
    e = s if how == "full" else pt(a1)
    diff = (a1 - a0) % 360
    if how != "full":
        c.assume(0.5 < diff < 359.5 or (how == "axis" and diff == 0))
    sp = (360 - diff if cw else diff) or 360.0
    if how == "full":
        sp = 360.0
    pts, eps = points_drawn(c, kind, dp, Arc(start=s, end=e, center=o, clockwise=cw),
                            Box(min_x=o.x - r - 1, min_y=o.y - r - 1, max_x=o.x + r + 1, max_y=o.y + r + 1))
    near = lambda p, q: math.dist(p, q) <= eps + 1e-9  # noqa: E731
    c.check(len(pts) > 1 and near(pts[0], s.xy), "the outline begins at the start of the arc", str(pts[:2]))
    while len(pts) > 2 and pts[-1] == pts[0] and not near(pts[-1], e.xy):
        pts.pop()  # closing point
    c.check(near(pts[-1], e.xy), "the outline of the arc ends at its end", str(pts[-2:]))
    na = math.degrees(eps / r)
    tot, far = 0.0, 0.0
    prev = math.degrees(math.atan2(pts[0][1] - o.y, pts[0][0] - o.x))
    for p in pts:
        c.check(abs(math.dist(p, o.xy) - r) < eps + 1e-6 * max(1, r), "every point lies on the circle", str(p))
        a = math.degrees(math.atan2(p[1] - o.y, p[0] - o.x))
        st = (prev - a) % 360 if cw else (a - prev) % 360
        if st > 359.999 - 2 * na:
            st -= 360
        tot += st
        far = max(far, st - 2 * na)
        prev = a
    c.check(abs(tot - sp) < 1e-3 + 2 * na, "points cover the angular span of the arc once", f"{tot} instead of {sp}")
    sag = r * (1 - math.cos(math.radians(max(far, 0) / 2)))
    # half a pixel in an image; 1 % of the radius and 0.03 mm in a drawing
    c.check(sag <= (0.6 / dp if kind == "pillow" else min(0.01 * r, 0.03)), "chords stay close to the arc", f"{sag} for radius {r}")
