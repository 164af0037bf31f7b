"""Apertures, draws, flashes, regions and blocks as compiled."""
import math

from pyvc.registry import contract
from pyvc.spec import check_outline, edges_of, holds, is_disc, same_pt

import pygerber.gerber.ast.nodes as N
from pygerber.gerber.ast.nodes.enums import Mirroring, Polarity
from pygerber.vm.commands.shape_segments import Arc, Line

from contracts.paint import Machine, check_items, disc, items, layers, outline, rounds_first
from contracts.shapes import check_regular_polygon, check_ring, lines, obround_edges, rect_edges, thick_arc_edges, thick_line_edges

C = "pygerber.gerber.compiler.compiler.Compiler."


def hole_of(c, name="hole"):
    k = c.choice(name + " kind", ["none", "zero", "hole"])
    return None if k == "none" else 0.0 if k == "zero" else c.real(name, 0)


def aperture(c, kind, aid="D10", hole="ask", name="ap"):
    """(definition, expected items around the origin, parameters); holes not larger than the aperture."""
    h = hole_of(c, name + ".hole") if hole == "ask" else hole
    pos = lambda n: c.real(f"{name}.{n}", 0)  # noqa: E731
    if kind == "C":
        d = pos("d")
        c.assume(d > 0)
        node, base, lim = N.ADC(aperture_id=aid, diameter=d, hole_diameter=h), ("S", disc((0.0, 0.0), d / 2), False), d
    elif kind in "RO":
        w, hh = pos("w"), pos("h")
        c.assume(c.And(w > 0, hh > 0))
        t = N.ADR if kind == "R" else N.ADO
        if kind == "O":
            if not c.sym:
                c.assume(abs(w - hh) > 1e-3)
            c.assume(w != hh)
        ed = rect_edges(0.0, 0.0, w, hh) if kind == "R" else obround_edges(c, 0.0, 0.0, w, hh)
        node, base = t(aperture_id=aid, width=w, height=hh, hole_diameter=h), ("S", outline(ed), False)
        lim = c.min(w, hh)
    else:
        d, n, rot = pos("d"), c.choice(name + ".n", [3, 4, 5, 6, 8, 12] if not c.sym else [3, 5, 6]), c.choice(name + ".rot?", [None, 0.0, "real"])
        c.assume(d > 0)
        rot = c.real(name + ".rot", 0, 359) if rot == "real" else rot
        node = N.ADP(aperture_id=aid, outer_diameter=d, vertices=n, rotation=rot, hole_diameter=h)
        base = ("S", lambda c, o, label: check_regular_polygon(c, o, 0.0, 0.0, d, n, rot or 0.0, label), False)
        lim = d
    want = [base]
    if h is not None and not isinstance(h, float) or (isinstance(h, float) and h > 0):
        c.assume(c.And(h > 0, h <= lim))
        want.append(("S", disc((0.0, 0.0), h / 2), True))
    return node, want, (h,)


@contract("C03", "apertures defined in a file", fns=[C + "on_adc", C + "on_adr", C + "on_ado", C + "on_adp"], weight=2, max_paths=4000,
          note="polygon apertures with 3, 5, 6 vertices symbolically, up to 12 at run time")
def _(c):
    kind = c.choice("kind", "CROP")
    node, want, _p = aperture(c, kind)
    m = Machine(c)
    m.run(node, N.Dnn(aperture_id="D10"), N.D03())
    got = m.items()
    check_items(c, got, want if len(want) == 1 else [("G", want, False)], f"aperture {kind}")


def polarity(c, m):
    neg = c.bool("clear")
    m.run(N.LP(polarity=Polarity.Clear if neg else Polarity.Dark))
    return neg


@contract("C05", "line drawn with a round aperture", fns=[C + "on_draw_line", C + "_get_line_thickness"])
def _(c):
    m = Machine(c)
    d = c.real("d", 0)
    c.assume(d > 0)
    sc = c.choice("scaling?", [1.0, "real"])
    hole = c.choice("hole", [None, 0.1])
    kind = c.choice("kind", ["C", "C", "P"])  # a polygon counts as its circumscribed circle
    m.run(N.ADC(aperture_id="D10", diameter=d, hole_diameter=hole) if kind == "C" else N.ADP(aperture_id="D10", outer_diameter=d, vertices=c.choice("vertices", [3, 8]), rotation=None, hole_diameter=hole), N.Dnn(aperture_id="D10"), N.G01())
    if sc == "real":
        sc = c.real("scaling", 0)
        c.assume(sc > 0)
        m.run(N.LS(scale=sc))
    neg = polarity(c, m)
    s, e = c.vec("s"), c.vec("e")
    if not c.sym:
        c.assume(math.dist(s.xy, e.xy) > 1e-2)
    c.assume(c.Or(s.x != e.x, s.y != e.y))
    draw(c, m, s, e)
    t = d * sc
    check_items(c, m.items(), [("S", disc(s.xy, t / 2), neg), ("S", outline(thick_line_edges(c, s.xy, e.xy, t)), neg), ("S", disc(e.xy, t / 2), neg)], "drawn line")


def draw(c, m, s, e, i=None, j=None):
    """D01 from s to e: coordinates are put into the state the way decoded operands are."""
    m.at(s.x, s.y)
    st = m.comp.state
    coords(c, m, {"x": e.x, "y": e.y, **({"i": i} if i is not None else {}), **({"j": j} if j is not None else {})})


class Fmt:
    """Coordinate decoding by contract (C01): a text denotes one number per axis."""

    coordinate_mode = None

    def __init__(self, table):
        self.table = table

    def unpack_x(self, t):
        return self.table["X" + t]

    def unpack_y(self, t):
        return self.table["Y" + t]


def coords(c, m, vals, op=None):
    """Runs an operation whose coordinate operands denote vals."""
    op = op or N.D01
    kw, table = {}, {}
    for k, (a, v) in enumerate(vals.items()):
        t = str(k + 1)
        kw[a] = getattr(N, "Coordinate" + a.upper())(value=t)
        table[("X" if a in "xi" else "Y") + t] = v
    m.comp.state.coordinate_format = Fmt(table)
    m.run(op(**kw))


@contract("C05", "point drawn with a round aperture", fns=[C + "on_draw_line"])
def _(c):
    m = Machine(c)
    d = c.real("d", 0)
    c.assume(d > 0)
    m.run(N.ADC(aperture_id="D10", diameter=d), N.Dnn(aperture_id="D10"), N.G01())
    neg = polarity(c, m)
    s = c.vec("s")
    c.noraise(lambda: draw(c, m, s, s), "zero length line")
    got = m.items()
    c.check(len(got) >= 1, "a line of no length paints the aperture")
    discs, rest = rounds_first(c, got)
    c.check(len(discs) >= 1, "a line of no length paints the aperture")
    if not discs:
        raise c._end()
    for g in discs:
        is_disc(c, g[1], s.xy, d / 2, "aperture at the point")
    for g in got:
        c.check(bool(g[2]) is neg, "polarity of the point")
        for seg in g[1].commands:
            if isinstance(seg, Line):
                for p in (seg.start.xy, seg.end.xy):
                    q = (p[0] - s.x) * (p[0] - s.x) + (p[1] - s.y) * (p[1] - s.y)
                    c.check(c.le(q * 4, d * d), "nothing outside of the aperture is painted")


def axis_angles(c, dx, dy):
    """angle_between by contract (C10) for a direction along an axis: clockwise angle to +x."""
    from pygerber.vm.types.vector import Vector

    def angle_between(self, other):
        if not (holds(c, c.And(other.x == 1, other.y == 0))):
            raise c.S.Unsupported("angle to another direction")
        for a, cond in ((0, c.And(self.y == 0, self.x > 0)), (180, c.And(self.y == 0, self.x < 0)), (90, c.And(self.x == 0, self.y > 0)), (270, c.And(self.x == 0, self.y < 0))):
            if cond:
                return float(a)
        raise c.S.Unsupported("oblique direction")

    c.stub(Vector, "angle_between", angle_between)


def rectangular_line(c, kind, turned):
    from pygerber.vm.types.vector import Vector

    m = Machine(c)
    w, h = c.real("w", 0), c.real("h", 0)
    c.assume(c.And(w > 0, h > 0))
    t = N.ADR if kind == "rectangular" else N.ADO
    m.run(t(aperture_id="D10", width=w, height=h), N.Dnn(aperture_id="D10"), N.G01())
    neg = polarity(c, m)
    rot = c.choice("rotation", [90, 270] if turned else [0, 180])
    axis = c.choice("direction", ["x", "y"] if c.sym else ["x", "y", "any", "side"])
    if axis == "side":
        rot = c.real("turned", -360, 360)
    if rot:
        m.run(N.LR(rotation=float(rot)))
    sc = c.choice("scaling?", [1.0, "real"]) if axis != "any" else 1.0
    if sc == "real":
        sc = c.real("scaling", 0.1)
        c.assume(sc > 0)
        m.run(N.LS(scale=sc))
    if c.bool("mirrored") and axis != "side":
        m.run(N.LM(mirroring=c.choice("mirroring", [Mirroring.X, Mirroring.Y, Mirroring.XY])))
    s = c.vec("s")
    L = c.real("len")
    c.assume(L != 0 if c.sym else abs(L) > 1e-2)
    if axis == "any":
        a = c.real("angle", 0, 360)
        e = Vector(x=s.x + L * math.cos(math.radians(a)), y=s.y + L * math.sin(math.radians(a)))
    elif axis == "side":
        up = c.bool("upright")
        a = math.radians(rot + 90 * up)
        e = Vector(x=s.x + L * math.cos(a), y=s.y + L * math.sin(a))
    else:
        e = Vector(x=s.x + L, y=s.y) if axis == "x" else Vector(x=s.x, y=s.y + L)
        if c.sym:
            axis_angles(c, 0, 0)
    draw(c, m, s, e)
    got = m.items()
    if axis == "any":
        ds = [s.xy, e.xy]
        c.check(len(got) == 3, "line and two caps")
        discs, _rest = rounds_first(c, got)
        c.check(len(discs) == 2, "line and two caps")
        xs = [x for seg in discs[0][1].commands for x in (seg.start.x, seg.end.x)]
        d = max(xs) - min(xs)
        c.check(min(w, h) - 1e-6 <= d <= math.hypot(w, h) + 1e-6, "thickness is an extent of the aperture", str(d))
        th = d
    elif axis == "side":
        th = (w if up else h) * sc
    else:
        th = sc * h if (axis == "x") == (rot in (0, 180)) else sc * w
    check_items(c, got, [("S", disc(s.xy, th / 2), neg), ("S", outline(thick_line_edges(c, s.xy, e.xy, th)), neg), ("S", disc(e.xy, th / 2), neg)], "line drawn with rectangle")


for _kind in ("rectangular", "obround"):
    for _turned in (False, True):
        contract("C05", f"line drawn with {'a' if _kind[0] == 'r' else 'an'} {_kind} aperture" + ", turned" * _turned,
                 fns=[C + "on_draw_line", C + "_get_line_thickness"],
                 note="lines parallel to the sides of the aperture; thickness of oblique lines only bounded")(
            lambda c, k=_kind, t=_turned: rectangular_line(c, k, t))


def valid_arc(c):
    """Start, end and centre of an arc with a definite radius."""
    if c.sym:
        s, e, o = c.vec("s"), c.vec("e"), c.vec("o")
        c.assume(c.And(c.Or(s.x != o.x, s.y != o.y), c.Or(e.x != o.x, e.y != o.y)))
        return s, e, o
    from pygerber.vm.types.vector import Vector

    o, r, a, b = c.vec("o"), c.real("r", 0.1, 20), c.real("a", 0, 360), c.real("b", 0, 360)
    c.assume(5 < abs(a - b) < 355)
    p = lambda t: Vector(x=o.x + r * math.cos(math.radians(t)), y=o.y + r * math.sin(math.radians(t)))  # noqa: E731
    return p(a), p(b), o


@contract("C05", "arc drawn with a round aperture", fns=[C + "on_draw_cw_arc_mq", C + "on_draw_ccw_arc_mq", C + "_on_draw_arc_mq"], weight=2)
def _(c):
    m = Machine(c)
    d = c.real("d", 0)
    c.assume(d > 0)
    cw = c.bool("clockwise")
    m.run(N.ADC(aperture_id="D10", diameter=d), N.Dnn(aperture_id="D10"), N.G75(), N.G02() if cw else N.G03())
    neg = polarity(c, m)
    s, e, o = valid_arc(c)
    full = c.bool("full circle")
    if full:
        e = s
    else:
        c.assume(c.Or(s.x != e.x, s.y != e.y))
    ops = {"i": o.x - s.x, "j": o.y - s.y}
    miss = c.choice("operands", ["all", "no x y", "no i", "no j"])
    if miss == "no i":
        c.assume(o.x == s.x)
        ops.pop("i")
    if miss == "no j":
        c.assume(o.y == s.y)
        ops.pop("j")
    if miss == "no x y":
        c.assume(c.And(e.x == s.x, e.y == s.y))
    m.at(s.x, s.y)
    coords(c, m, {**({} if miss == "no x y" else {"x": e.x, "y": e.y}), **ops})
    got = m.items()
    cap = lambda p: ("S", disc(p.xy, d / 2), neg)  # noqa: E731
    if not full:
        return check_items(c, got, [cap(s), ("S", outline(thick_arc_edges(c, s.xy, e.xy, o.xy, d, cw)), neg), cap(e)], "drawn arc")
    # the whole ring of width d around the centre: two half bands, whatever diameter they are split at
    caps, bands = rounds_first(c, got)
    c.check(len(caps) >= 1 and len(bands) == 2, "full circle: caps and two half bands", str(len(got)))
    if not (len(caps) >= 1 and len(bands) == 2):
        raise c._end()
    n = c.math.sqrt((s.x - o.x) * (s.x - o.x) + (s.y - o.y) * (s.y - o.y))
    at_start = False
    for g in caps:
        p = g[1].commands[0].center.xy
        at_start = at_start or holds(c, same_pt(c, p, s.xy))
        is_disc(c, g[1], p, d / 2, "full circle: cap")
        c.eq((p[0] - o.x) * (p[0] - o.x) + (p[1] - o.y) * (p[1] - o.y), n * n, "full circle: caps lie on the circle")
        c.check(bool(g[2]) == neg, "full circle: polarity")
    c.check(at_start, "full circle: cap at the start")
    ends = []
    for g in bands:
        c.check(bool(g[2]) == neg, "full circle: polarity")
        es = edges_of(c, g[1])
        arcs = [x for x in es if x[0] == "A"]
        c.check(len(arcs) == 2, "full circle: bands bounded by two arcs")
        if len(arcs) != 2:
            raise c._end()
        p, q = arcs[0][1], arcs[0][2]
        mid = lambda u, v: ((u[0] + v[0]) / 2, (u[1] + v[1]) / 2)  # noqa: E731
        a, b = mid(arcs[0][1], arcs[1][2]), mid(arcs[0][2], arcs[1][1])
        c.check(same_pt(c, mid(a, b), o.xy), "full circle: bands are halves")
        c.eq((a[0] - o.x) * (a[0] - o.x) + (a[1] - o.y) * (a[1] - o.y), n * n, "full circle: radius of the bands")
        check_outline(c, g[1], thick_arc_edges(c, a, b, o.xy, d, bool(arcs[0][4])), "full circle: band")
        ends.append((a, b, bool(arcs[0][4])))
    (a1, b1, c1), (a2, b2, c2) = ends
    if c1 == c2:
        c.check(c.And(same_pt(c, a1, b2), same_pt(c, b1, a2)), "full circle: the two bands complete each other")
    else:
        c.check(c.And(same_pt(c, a1, a2), same_pt(c, b1, b2)), "full circle: the two bands complete each other")


@contract("C05", "regions are filled contours", fns=[C + n for n in ("on_start_region", "on_in_region_draw_line", "on_in_region_draw_cw_arc_mq", "on_in_region_draw_ccw_arc_mq", "_on_in_region_draw_arc_mq", "on_flush_region", "on_end_region")],
          max_paths=20000, weight=2, note="contours of up to 3 segments, one or two contours per region, two regions; each segment any of line, arc, full circle")
def _(c):
    m = Machine(c)
    m.run(N.G75())
    if c.bool("aperture selected"):
        m.run(N.ADC(aperture_id="D10", diameter=1.0), N.Dnn(aperture_id="D10"))
    neg = polarity(c, m)
    n_cont = c.choice("contours", [1, 2])
    want = []
    m.run(N.G36())
    k = 0
    for j in range(n_cont):
        p = c.vec(f"p{j}")
        coords(c, m, {"x": p.x, "y": p.y}, N.D02)
        edges = []
        for i in range(c.choice(f"n{j}", [0, 1, 2, 3] if j == 0 and n_cont == 1 else [1, 2] if j == 0 else [0, 1])):
            t = c.choice(f"t{j}{i}", ["line", "cw", "ccw", "circle"] if j == 0 and i < 2 else ["line", "cw"])
            q = c.vec(f"q{j}{i}")
            if t == "line":
                m.run(N.G01())
                coords(c, m, {"x": q.x, "y": q.y})
                edges.append(("L", p.xy, q.xy))
            else:
                o = c.vec(f"o{j}{i}")
                cw = t != "ccw"
                if t == "circle":
                    q = p
                else:
                    c.assume(c.Or(p.x != q.x, p.y != q.y))
                m.run(N.G02() if cw else N.G03())
                coords(c, m, {"x": q.x, "y": q.y, "i": o.x - p.x, "j": o.y - p.y})
                if t == "circle":
                    a = (2 * o.x - p.x, 2 * o.y - p.y)
                    edges += [("A", p.xy, a, o.xy, cw), ("A", a, p.xy, o.xy, cw)]
                else:
                    edges.append(("A", p.xy, q.xy, o.xy, cw))
            p = q
        if edges:
            want.append(edges)
    m.run(N.G37())
    second = c.bool("second region")
    if second:
        a, b, d = c.vec("ra"), c.vec("rb"), c.vec("rc")
        m.run(N.G36(), N.G01())
        coords(c, m, {"x": a.x, "y": a.y}, N.D02)
        for v in (b, d, a):
            coords(c, m, {"x": v.x, "y": v.y})
        m.run(N.G37())
        want.append([("L", a.xy, b.xy), ("L", b.xy, d.xy), ("L", d.xy, a.xy)])
    if not want:
        r, e = c.calls(m.finish)
        c.check(e is None, "region without contour paints nothing", repr(e))
        return
    got = m.items()
    c.check(len(got) == len(want), "one filled shape per contour", f"{len(got)} instead of {len(want)}")
    if len(got) != len(want):
        raise c._end()
    for g, w in zip(got, want):
        c.check(g[0] == "S" and bool(g[2]) == neg, "contour is a shape of the polarity in force")
        raw = [("L", s.start.xy, s.end.xy) if isinstance(s, Line) else ("A", s.start.xy, s.end.xy, s.center.xy, s.clockwise) for s in g[1].commands]
        seq_equal(c, raw, w, "contour consists of the drawn segments in order")


def seq_equal(c, got, want, label):
    if len(got) != len(want):
        from pyvc.spec import split_arcs

        got, want = split_arcs(c, got), split_arcs(c, want)
    c.check(len(got) == len(want), label, f"{got} instead of {want}")
    if len(got) != len(want):
        raise c._end()
    for g, w in zip(got, want):
        c.check(g[0] == w[0] and (g[0] == "L" or bool(g[4]) == bool(w[4])), label, f"{g} instead of {w}")
        c.check(c.And(same_pt(c, g[1], w[1]), same_pt(c, g[2], w[2])), label + " (ends)", f"{g} instead of {w}")
        if g[0] == "A":
            c.check(same_pt(c, g[3], w[3]), label + " (centre)", f"{g} instead of {w}")


@contract("C05", "objects carry their attributes", fns=[C + n for n in ("_get_object_metadata", "_get_region_metadata", "_get_aperture_metadata", "_get_file_metadata", "on_draw_line", "_on_draw_arc_mq", "on_flush_region", "_on_flash_aperture")],
          note="every kind of operation; attributes set, replaced and deleted between operations")
def _(c):
    inc = c.bool("include metadata")
    m = Machine(c, include_metadata=inc)
    ta, tf = N.TA_UserName(user_name="ap", fields=["1"]), N.TF_UserName(user_name="file", fields=["2"])
    to1, to2, to3 = N.TO_UserName(user_name="o1", fields=["3"]), N.TO_UserName(user_name="o2", fields=["4"]), N.TO_UserName(user_name="o1", fields=["5"])
    m.run(tf, ta, N.ADC(aperture_id="D10", diameter=1.0), N.TD(name="ap"), N.Dnn(aperture_id="D10"), N.G75())
    ta2 = N.TA_UserName(user_name="ap2", fields=["6"])
    region_attr = c.bool("aperture attribute in force")
    if region_attr:
        m.run(ta2)
    how = c.choice("attributes", ["none", "one", "two", "replaced", "deleted", "all deleted"])
    seq = {"none": [], "one": [to1], "two": [to1, to2], "replaced": [to1, to2, to3], "deleted": [to1, to2, N.TD(name="o1")], "all deleted": [to1, to2, N.TD()]}[how]
    cur = {"none": {}, "one": {"o1": to1}, "two": {"o1": to1, "o2": to2}, "replaced": {"o1": to3, "o2": to2}, "deleted": {"o2": to2}, "all deleted": {}}[how]
    m.run(*seq)
    op = c.choice("operation", ["line", "arc", "region", "flash"])
    if region_attr and how != "all deleted" and op == "region":
        cur = {"ap2": ta2, **cur}  # aperture attributes are attached to regions, too
    m.at(0.0, 0.0)
    if op == "line":
        m.run(N.G01())
        coords(c, m, {"x": 2.0, "y": 0.0})
    elif op == "arc":
        m.run(N.G02())
        coords(c, m, {"x": 2.0, "y": 0.0, "i": 1.0, "j": 0.0})
    elif op == "region":
        m.run(N.G36(), N.G01())
        coords(c, m, {"x": 2.0, "y": 0.0})
        coords(c, m, {"x": 2.0, "y": 3.0})
        m.run(N.G37())
    else:
        m.run(N.D03())
    m.run(N.TO_UserName(user_name="later", fields=[]))
    rv = m.finish()
    dump = lambda d: {k: v.model_dump_json(serialize_as_any=True) for k, v in d.items()} if inc else None  # noqa: E731
    ls, order = layers(c, rv)
    cmds = ls[order[-1]][1]
    c.check(len(cmds) >= 1, "operation painted")
    for cmd in cmds:
        c.check(cmd.metadata == dump(cur), "object carries the object attributes in force", f"{cmd.metadata} instead of {dump(cur)}")
    if op == "flash":
        for cmd in ls[cmds[0].source_layer_id.id][1]:
            c.check(cmd.metadata == dump({"ap": ta}), "aperture carries the aperture attributes of its definition", str(cmd.metadata))
    c.check(rv.metadata == dump({"file": tf}), "program carries the file attributes", str(rv.metadata))
