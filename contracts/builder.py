"""Builders: the generated code, executed from the initial graphics state, performs the requested operations."""
import re

from pyvc.registry import contract

import pygerber.gerber.ast.nodes as N
from pygerber.builder.gerber import GerberX3Builder, InvalidRegionOutlineError, NotAPadError
from pygerber.gerber.ast.errors import PackedCoordinateTooLongError
from pygerber.gerber.ast.nodes.enums import AperFunction, CoordinateNotation, Mirroring, Polarity, UnitMode, Zeros
from pygerber.gerber.ast.state_tracking_visitor import CoordinateFormat

B = "pygerber.builder.gerber."


# ------------------------------------------------------------------ reference interpreter of Gerber commands
class Machine:
    """Graphics state of the Gerber specification and the operations performed so far."""

    def __init__(self, c, texts):
        self.c, self.texts = c, texts
        self.fmt = self.unit = None
        self.aps, self.macros, self.attrs = {}, {}, {}
        self.sel = self.mode = self.point = None
        self.pol, self.rot, self.mir, self.scale = "D", 0.0, (False, False), 1.0
        self.region = None
        self.out = []
        self.ended = False

    def number(self, node, axis):
        c, t = self.c, node.value
        if c.sym:
            c.check(t in self.texts, "coordinates are written by the coordinate format of the file", repr(t))
            v, fmt, ax = self.texts[t]
            want = (self.fmt.x_integral, self.fmt.x_decimal) if axis in "xi" else (self.fmt.y_integral, self.fmt.y_decimal)
            have = (fmt.x_integral, fmt.x_decimal) if ax == "x" else (fmt.y_integral, fmt.y_decimal)
            c.check(want == have and fmt.zeros == self.fmt.zeros, "coordinates are written in the declared format")
            return v
        return int(t) / 10 ** (self.fmt.x_decimal if axis in "xi" else self.fmt.y_decimal)

    def state(self):
        return {"ap": self.aps.get(self.sel), "pol": self.pol, "rot": self.rot, "mir": self.mir, "scale": self.scale, "objattrs": dict(self.attrs)}

    def run(self, nodes):
        for n in nodes:
            self.c.check(not self.ended, "nothing follows the end of the file")
            self.step(n)
        self.c.check(self.ended, "file ends with M02")
        self.c.check(self.region is None, "regions are closed")
        return self.out

    def step(self, n):
        c, k = self.c, type(n).__name__
        if k == "FS":
            c.check(self.fmt is None and n.zeros is Zeros.SKIP_LEADING and n.coordinate_mode is CoordinateNotation.ABSOLUTE, "coordinate format declared once, absolute, leading zeros omitted")
            self.fmt = n
        elif k == "MO":
            c.check(self.unit is None and n.mode is UnitMode.METRIC, "unit declared once")
            self.unit = n.mode
        elif k == "AM":
            c.check(n.open.name not in self.macros, "macro defined once")
            self.macros[n.open.name] = list(n.primitives)
        elif k.startswith("AD"):
            c.check(n.aperture_id not in self.aps and re.fullmatch(r"D[1-9]\d+", n.aperture_id) is not None, "aperture defined once under a valid number", n.aperture_id)
            c.check(k != "ADmacro" or n.name in self.macros, "macro defined before use")
            self.aps[n.aperture_id] = (n, dict(self.attrs), self.macros.get(n.name) if k == "ADmacro" else None)
        elif k in ("TA_UserName", "TA_AperFunction", "TA_DrillTolerance"):
            self.attrs[n.attribute_name] = n
        elif k == "TD":
            c.check(n.name is None, "attributes deleted")
            self.attrs = {}
        elif k == "Dnn":
            c.check(n.aperture_id in self.aps, "aperture defined before use", n.aperture_id)
            self.sel = n.aperture_id
        elif k == "LP":
            self.pol = "D" if n.polarity is Polarity.Dark else "C"
        elif k == "LR":
            self.rot = n.rotation
        elif k == "LS":
            self.scale = n.scale
        elif k == "LM":
            self.mir = {Mirroring.NONE: (False, False), Mirroring.X: (True, False), Mirroring.Y: (False, True), Mirroring.XY: (True, True)}[n.mirroring]
        elif k in ("G01", "G02", "G03"):
            self.mode = k
        elif k == "G75":
            self.multi = True
        elif k == "G36":
            c.check(self.region is None, "regions are not nested")
            self.region = {"kind": "region", "contours": [], **self.state()}
        elif k == "G37":
            c.check(self.region is not None, "region is open")
            self.out.append(self.region)
            self.region = None
        elif k == "D02":
            self.point = self.at(n)
            if self.region is not None:
                self.region["contours"].append([])
        elif k == "D01":
            c.check(self.point is not None, "drawing starts at a known point")
            c.check(self.mode is not None, "interpolation mode is set")
            e = self.at(n)
            seg = {"kind": "line" if self.mode == "G01" else "arc", "from": self.point, "to": e, "dir": self.mode}
            if self.mode != "G01":
                c.check(n.i is not None and n.j is not None and getattr(self, "multi", False), "arc has its offsets in multi quadrant mode")
                seg["center"] = (self.point[0] + self.number(n.i, "i"), self.point[1] + self.number(n.j, "j"))
            if self.region is not None:
                c.check(bool(self.region["contours"]), "contour starts with a move")
                self.region["contours"][-1].append(seg)
            else:
                c.check(self.sel is not None, "aperture is selected")
                self.out.append({**self.state(), **seg})
            self.point = e
        elif k == "D03":
            c.check(self.sel is not None and self.region is None, "aperture is selected")
            self.point = self.at(n)
            self.out.append({"kind": "flash", "at": self.point, **self.state()})
        elif k == "M02":
            self.ended = True
        else:
            c.fail("only known commands are generated", k)

    def at(self, n):
        c = self.c
        c.check(self.fmt is not None and self.unit is not None, "format and unit are declared before coordinates")
        x = self.number(n.x, "x") if n.x is not None else self.point[0]
        y = self.number(n.y, "y") if n.y is not None else self.point[1]
        return (x, y)


TOL = 1.1e-6  # rounding to the resolution of the format, twice for arc centres


def codec(c):
    """Coordinate codec by its contract in symbolic runs."""
    texts = {}
    if c.sym:
        init = CoordinateFormat.__init__

        def new(self, **kw):
            init(self, **kw)
            for axis in "xy":
                def pack(v, axis=axis):
                    if isinstance(v, (int, float)) and abs(v) >= 10 ** (self.x_integral if axis == "x" else self.y_integral):
                        raise PackedCoordinateTooLongError(str(v), self.x_integral, self.x_decimal)
                    t = f"{axis}#{len(texts)}"
                    texts[t] = (v, self, axis)
                    return t

                object.__setattr__(self, "pack_" + axis, pack)

        c.stub(CoordinateFormat, "__init__", new)
    return texts


def pt_eq(c, a, b):
    return c.And(*[(x == y) if c.sym else abs(x - y) <= TOL for x, y in zip(a, b)])


def num_eq(c, a, b):
    if a is None or b is None:
        return a is b
    return a == b if c.sym else abs(a - b) <= 1e-9


def consts(e, *names):
    return [getattr(e, n).constant for n in names]


PRIM = {
    "circle": (N.Code1, ["diameter", "center_x", "center_y", "rotation"]),
    "vector_line": (N.Code20, ["width", "start_x", "start_y", "end_x", "end_y", "rotation"]),
    "center_line": (N.Code21, ["width", "height", "center_x", "center_y", "rotation"]),
    "polygon": (N.Code5, ["number_of_vertices", "center_x", "center_y", "diameter", "rotation"]),
    "thermal": (N.Code7, ["center_x", "center_y", "outer_diameter", "inner_diameter", "gap_thickness", "rotation"]),
    "outline": (N.Code4, ["start_x", "start_y", "rotation"]),
}


def same_def(c, have, want, label):
    """Aperture definition is the requested pad."""
    node, attrs, prims = have
    kind, args = want["def"]
    k = type(node).__name__
    c.check(k == {"circle": "ADC", "rectangle": "ADR", "rounded_rectangle": "ADO", "regular_polygon": "ADP", "custom": "ADmacro"}[kind], f"{label}: kind of aperture", k)
    if kind == "circle":
        got = [node.diameter, node.hole_diameter]
    elif kind in ("rectangle", "rounded_rectangle"):
        got = [node.width, node.height, node.hole_diameter]
    elif kind == "regular_polygon":
        got = [node.outer_diameter, node.vertices, node.rotation, node.hole_diameter]
    else:
        c.check(not node.params, f"{label}: macro without parameters")
        c.check(len(prims) == len(args), f"{label}: all primitives of the custom pad", f"{len(prims)} instead of {len(args)}")
        for g, (name, exposure, vals, pts) in zip(prims, args):
            cls, fields = PRIM[name]
            c.check(type(g) is cls, f"{label}: kind of primitive", type(g).__name__)
            if name != "thermal":
                c.check(g.exposure.constant == exposure, f"{label}: exposure of the primitive")
            have = consts(g, *fields)
            if name == "outline":
                c.check(g.number_of_points.constant == len(pts) and len(g.points) == len(pts), f"{label}: number of points of the outline")
                start = tuple(have[:2])
                end = tuple(consts(g.points[-1], "x", "y"))
                c.check(c.And(num_eq(c, start[0], end[0]), num_eq(c, start[1], end[1])), f"{label}: outline is closed")
                ring = [tuple(consts(p, "x", "y")) for p in g.points]
                # the ring may start at any of the points
                if not any(all(_same(c, ring[(i + r) % len(pts)], pts[i]) for i in range(len(pts))) for r in range(len(pts))):
                    c.fail(f"{label}: points of the outline", f"{ring} instead of {pts}")
                have, vals = have[2:], vals
            c.check(c.And(*[num_eq(c, a, b) for a, b in zip(have, vals)]) if len(have) == len(vals) else False, f"{label}: parameters of the primitive", f"{have} instead of {vals}")
        got = args = []
    c.check(len(got) == len(args) and c.And(True, *[num_eq(c, a, b) for a, b in zip(got, args)]), f"{label}: parameters of the aperture", f"{got} instead of {args}")
    w = want["attrs"]
    c.check(set(attrs) == set(w), f"{label}: attributes of the aperture", f"{sorted(attrs)} instead of {sorted(w)}")
    for name, v in w.items():
        n = attrs[name]
        if name == ".AperFunction":
            c.check(n.function == v and not n.fields, f"{label}: aperture function")
        elif name == ".DrillTolerance":
            c.check(c.And(num_eq(c, n.plus_tolerance, v[0]), num_eq(c, n.minus_tolerance, v[1])), f"{label}: drill tolerance")
        else:
            c.check(list(n.fields) == list(v), f"{label}: custom attribute", f"{n.fields}")


def _same(c, a, b):
    r = c.And(*[num_eq(c, x, y) for x, y in zip(a, b)])
    return r if isinstance(r, bool) else bool(r)


def same_ops(c, out, want):
    c.check(len(out) == len(want), "every requested operation and nothing else", f"{[o['kind'] for o in out]} instead of {[w['kind'] for w in want]}")
    for g, w in zip(out, want):
        lab = w["kind"]
        c.check(g["kind"] == w["kind"], "operations in the requested order", f"{g['kind']} instead of {w['kind']}")
        c.check(g["pol"] == w.get("pol", "D"), f"{lab}: polarity")
        c.check(not g["objattrs"], f"{lab}: no attributes left over", str(g["objattrs"]))
        if lab != "region":
            c.check(num_eq(c, g["rot"], w.get("rot", 0.0)), f"{lab}: rotation")
            c.check(g["mir"] == w.get("mir", (False, False)), f"{lab}: mirroring", f"{g['mir']} instead of {w.get('mir')}")
            c.check(num_eq(c, g["scale"], w.get("scale", 1.0)), f"{lab}: scale")
            same_def(c, g["ap"], w["pad"], lab)
        if lab == "flash":
            c.check(pt_eq(c, g["at"], w["at"]), f"{lab}: place")
        elif lab in ("line", "arc"):
            same_seg(c, g, w, lab)
        else:
            c.check(len(g["contours"]) == 1, "region has one contour", str(len(g["contours"])))
            segs = g["contours"][0]
            c.check(len(segs) == len(w["segs"]), "region has the requested outline", f"{len(segs)} segments instead of {len(w['segs'])}")
            for a, b in zip(segs, w["segs"]):
                c.check(a["kind"] == b["kind"], "kind of outline segment")
                same_seg(c, a, b, "outline")


def same_seg(c, g, w, lab):
    c.check(c.And(pt_eq(c, g["from"], w["from"]), pt_eq(c, g["to"], w["to"])), f"{lab}: end points")
    c.check(g["dir"] == w["dir"], f"{lab}: interpolation mode", f"{g['dir']} instead of {w['dir']}")
    if lab == "arc" or w["kind"] == "arc":
        c.check(pt_eq(c, g["center"], w["center"]), f"{lab}: centre")


# ------------------------------------------------------------------ requests
class Session:
    """A builder together with the list of what was requested."""

    def __init__(self, c):
        self.c, self.want, self.draws = c, [], []
        self.texts = codec(c)
        self.b = GerberX3Builder()
        self.pads = []
        p = self.b.new_pad()
        a = p.rectangle(2.0, 1.0)
        self.pads.append((a, {"def": ("rectangle", [2.0, 1.0, None]), "attrs": {}}))
        a = p.circle(0.5)
        a.set_custom_attribute("Zq", "1", "two")
        self.pads.append((a, {"def": ("circle", [0.5, None]), "attrs": {"Zq": ["1", "two"]}}))

    def loc(self, name):
        c = self.c
        return (c.real(name + ".x", -900, 900), c.real(name + ".y", -900, 900)) if c.sym else (round(c.real(name + ".x", -900, 900), c.choice(name + " digits", [0, 3, 6, 9])), round(c.real(name + ".y", -900, 900), 4))

    def trace(self, w):
        return {"def": ("circle", [w, None]), "attrs": {}}

    def pad(self, name, kinds=("pad", "cutout"), tf=None, first=False):
        """A pad; as the first call of a symbolic history in few representative forms."""
        c = self.c
        first = first and c.sym
        cut = c.choice(name + " kind", list(kinds)) == "cutout"
        pad, spec = self.pads[0 if first else c.choice(name + " pad", range(len(self.pads)))]
        at, src = self.loc(name), None
        last = self.draws[-1] if self.draws else None
        if last is not None and last[0] == "trace" and c.bool(name + " at trace"):
            at, src = last[3], last[1]
        tf = tf or c.choice(name + " transform", ["default", "given"])
        kw, w = {}, {}
        if tf == "given":
            kw = {"rotation": c.real(name + ".rot", -360, 360) if c.sym else c.choice(name + ".rot", [0.0, 90.0, 45.5]), "scale": c.real(name + ".scale", 0.1, 9) if c.sym else c.choice(name + ".scale", [1.0, 2.0, 0.5]),
                  **dict(zip(("mirror_x", "mirror_y"), c.choice(name + ".mirror", [(True, False), (False, True), (True, True), (False, False)][:3 if first else 4])))}
            if first:
                c.assume(c.And(c.Not(kw["rotation"] == 0), c.Not(kw["scale"] == 1)))
            w = {"rot": kw["rotation"], "scale": kw["scale"], "mir": (kw["mirror_x"], kw["mirror_y"])}
        f = self.b.add_cutout_pad if cut else self.b.add_pad
        d = f(pad, src if src is not None else at, **kw)
        self.want.append({"kind": "flash", "at": at, "pad": spec, "pol": "C" if cut else "D", **w})
        self.draws.append(("pad", d, at, at))

    def line(self, name, kinds=("line", "cw", "ccw"), simple=False):
        """A trace; simple ones have one width and new end points in symbolic runs."""
        c = self.c
        simple = simple and c.sym
        k = c.choice(name + " kind", list(kinds))
        width = 0.5 if simple else c.choice(name + " width", [1, 0.5, 1.0, 0.5001, 0.50001, 0.5000001, 0.5000002, 3e-7] if not c.sym else [1, 0.5])
        ends, args = [], []
        for e in ("begin", "end"):
            last = self.draws[-1] if self.draws else None
            if last is not None and not simple and last[0] in ("pad", "trace") and c.bool(f"{name} {e} of last"):
                args.append(last[1])
                ends.append(last[3] if e == "begin" else last[2])
            else:
                p = self.loc(f"{name}.{e}")
                args.append(p)
                ends.append(p)
        w = {"kind": "line", "dir": "G01", "pad": self.trace(width), "from": ends[0], "to": ends[1]}
        if k == "line":
            d = self.b.add_line_trace(width, *args)
        else:
            ctr = self.loc(f"{name}.center")
            f = self.b.add_clockwise_arc_trace if k == "cw" else self.b.add_counter_clockwise_arc_trace
            d = f(width, *args, ctr)
            w.update(kind="arc", dir="G02" if k == "cw" else "G03", center=ctr)
        self.want.append(w)
        self.draws.append(("trace", d, ends[0], ends[1]))

    def region(self, name, n=None):
        c = self.c
        begin = self.loc(name + ".begin")
        r = self.b.new_region(begin)
        cur, segs = begin, []
        for i in range(n or c.choice(name + " n", [3] if c.sym else [3, 4, 5])):
            k = c.choice(f"{name} {i}", ["line", "cw", "ccw"])
            to = begin if i == 2 and c.bool(f"{name} closes") else self.loc(f"{name}.{i}")
            s = {"kind": "line", "dir": "G01", "from": cur, "to": to}
            if k == "line":
                q = r.add_line(to)
            else:
                ctr = self.loc(f"{name}.{i}.center")
                q = (r.add_clockwise_arc if k == "cw" else r.add_counterclockwise_arc)(to, ctr)
                s.update(kind="arc", dir="G02" if k == "cw" else "G03", center=ctr)
            c.check(q is r, "region creator can be chained")
            segs.append(s)
            cur = to
        same = cur == begin if not c.sym else bool(c.And(cur[0] == begin[0], cur[1] == begin[1]))
        if not same:
            segs.append({"kind": "line", "dir": "G01", "from": cur, "to": begin})
        d = r.create()
        self.want.append({"kind": "region", "segs": segs})
        self.draws.append(("region", d, begin, begin))

    def rejected(self, name):
        """A call whose coordinates do not fit the format adds nothing."""
        c = self.c
        far = (1.0e9, 0.0)
        p, q = (1.0, 2.0), (3.0, 4.0)
        k = c.choice(name + " rejected", ["pad", "cutout", "line", "cw", "ccw", "region"])
        b = self.b
        f = {"pad": lambda: b.add_pad(self.pads[1][0], far, rotation=30.0, scale=2.0, mirror_x=True), "cutout": lambda: b.add_cutout_pad(self.pads[1][0], far, rotation=30.0),
             "line": lambda: b.add_line_trace(0.7, p, far), "cw": lambda: b.add_clockwise_arc_trace(0.7, p, far, q), "ccw": lambda: b.add_counter_clockwise_arc_trace(0.7, p, far, q),
             "region": lambda: b.new_region(p).add_clockwise_arc(q, p).add_line(far).add_line(p).create()}[k]
        before = None if c.sym else b.get_code().dumps()
        _r, e = c.calls(f, PackedCoordinateTooLongError)
        c.check(e is not None, "coordinates that do not fit are rejected")
        if before is not None:
            after = b.get_code().dumps()
            c.check(after == before, "a rejected call adds nothing", f"{after!r} instead of {before!r}")

    def verify(self):
        c = self.c
        code = self.b.get_code()
        out = Machine(c, self.texts).run(code.raw.nodes)
        same_ops(c, out, self.want)
        if not c.sym:
            from pygerber.gerber.parser import parse

            back = parse(code.dumps())
            have, want = [strip(n) for n in back.nodes], [strip(n) for n in code.raw.nodes]
            c.check(have == want, "written code is the built code", f"{[(h, w) for h, w in zip(have, want) if h != w][:2]}")


def strip(n):
    d = n.model_dump(exclude={"source_info"})
    d["type"] = type(n).__name__

    def go(x):
        if isinstance(x, dict):
            r = {k: go(v) for k, v in x.items() if k != "source_info"}
            if r.keys() == {"operand"} and isinstance(r["operand"], dict) and "constant" in r["operand"]:
                return {"constant": -r["operand"]["constant"]}
            return r
        if isinstance(x, list):
            return [go(v) for v in x]
        return x

    if type(n).__name__ == "AM":
        return ("AM", n.open.name, [[type(p).__name__, expr_dump(p)] for p in n.primitives])
    return go(d)


def expr_dump(e):
    if isinstance(e, N.Constant):
        return float(e.constant)
    if isinstance(e, N.Neg):
        return -expr_dump(e.operand)
    if isinstance(e, N.Pos):
        return expr_dump(e.operand)
    if isinstance(e, list):
        return [expr_dump(x) for x in e]
    if isinstance(e, N.Node):
        return {k: expr_dump(getattr(e, k)) for k in type(e).model_fields if k != "source_info"}
    return e


STEP = [B + "GerberX3Builder." + n for n in ("add_pad", "add_cutout_pad", "add_line_trace", "add_clockwise_arc_trace", "add_counter_clockwise_arc_trace", "_create_state_updates", "_get_trace_aperture", "get_code", "_add_draw", "_dispatch_begin_location", "_dispatch_end_location")]
NOTE = ("the state of the builder after any history depends on the last call and, for the plot mode, on the last trace or region; "
        "so histories (trace or region, pad, any call) and (any call, any call) reach every state before the last call")


@contract("C15", "each call adds exactly the requested operation after any call", fns=STEP + [B + "Pad._get_nodes", B + "SimpleDraw._get_nodes"], weight=3, max_paths=20000, samples=250, note=NOTE, assumes=["CoordinateFormat.pack by its contract (C01)"])
def _(c):
    s = Session(c)
    if not c.sym:
        for i in range(c.choice("calls", range(0, 7))):
            k = c.choice(f"call{i}", ["pad", "line", "region", "rejected"])
            getattr(s, k)(f"c{i}")
        return s.verify()
    k = c.choice("first", ["nothing", "pad", "line", "region", "rejected"])
    if k == "region":
        small_region(s)
    elif k == "pad":
        s.pad("a", first=True)
    elif k != "nothing":
        getattr(s, k)("a")
    k = c.choice("second", ["pad", "line"])
    getattr(s, k)("b")
    s.verify()


@contract("C15", "interpolation mode after pads", fns=STEP + [B + "Region._get_nodes"], max_paths=20000, samples=30, note=NOTE, assumes=["CoordinateFormat.pack by its contract (C01)"])
def _(c):
    s = Session(c)
    k = c.choice("first", ["line", "cw", "ccw", "region"])
    if k == "region":
        last_segment(s, c.choice("last", ["line", "cw", "ccw"]))
    else:
        s.line("a", [k], simple=True)
    if c.bool("pad between"):
        s.pad("p", tf="default", first=True)
    if c.bool("rejected between"):
        s.rejected("r")
    s.line("b", simple=True)
    s.verify()


@contract("C15", "regions after any call", fns=[B + "RegionCreator." + n for n in ("__init__", "add_line", "add_clockwise_arc", "add_counterclockwise_arc", "create")] + [B + "GerberX3Builder.new_region"], max_paths=20000, samples=100, note="outlines of three segments (up to five at run time); " + NOTE,
          assumes=["CoordinateFormat.pack by its contract (C01)"])
def _(c):
    s = Session(c)
    k = c.choice("first", ["nothing", "pad", "line", "region", "rejected"])
    if k == "pad":
        s.pad("a", tf="given", first=True)
    elif k == "line":
        s.line("a", simple=True)
    elif k == "region":
        s.region("a", 3) if not c.sym else small_region(s)
    elif k == "rejected":
        s.rejected("a")
    s.region("b")
    if not c.sym:
        s.pad("z")
    s.verify()
    r = s.b.new_region((0.0, 0.0))
    for i in range(c.choice("short", [0, 1, 2])):
        r.add_line((1.0, float(i)))
    _r, e = c.calls(r.create)
    c.check(isinstance(e, InvalidRegionOutlineError), "outline of fewer than three segments is refused", repr(e))


def last_segment(s, kind):
    b, ctr = (0.0, 0.0), (0.5, 0.5)
    r = s.b.new_region(b)
    r.add_line((1.0, 0.0)).add_line((1.0, 1.0))
    w = [{"kind": "line", "dir": "G01", "from": b, "to": (1.0, 0.0)}, {"kind": "line", "dir": "G01", "from": (1.0, 0.0), "to": (1.0, 1.0)}]
    if kind == "line":
        r.add_line(b)
        w.append({"kind": "line", "dir": "G01", "from": (1.0, 1.0), "to": b})
    else:
        (r.add_clockwise_arc if kind == "cw" else r.add_counterclockwise_arc)(b, ctr)
        w.append({"kind": "arc", "dir": "G02" if kind == "cw" else "G03", "from": (1.0, 1.0), "to": b, "center": ctr})
    d = r.create()
    s.want.append({"kind": "region", "segs": w})
    s.draws.append(("region", d, b, b))


def small_region(s):
    b = (0.0, 0.0)
    r = s.b.new_region(b)
    pts = [(1.0, 0.0), (1.0, 1.0), b]
    for p in pts:
        r.add_line(p)
    r.create()
    s.want.append({"kind": "region", "segs": [{"kind": "line", "dir": "G01", "from": a, "to": q} for a, q in zip([b, *pts], pts)]})
    s.draws.append(("region", None, b, b))


@contract("C15", "pads are defined as requested", fns=[B + "PadCreator." + n for n in ("circle", "rectangle", "rounded_rectangle", "regular_polygon", "custom", "_new_id", "_get_nodes")] +
          [B + "Pad." + n for n in ("set_aperture_function", "set_drill_tolerance", "set_custom_attribute", "_get_nodes")], max_paths=20000, samples=150, note="two pads of any kind with any attributes, used in either order")
def _(c):
    s = Session(c)
    s.pads.clear()
    use = []
    for i in range(2):
        use.append(new_pad(c, s, f"p{i}", c.choice(f"kind{i}", ["circle", "rectangle", "rounded_rectangle", "regular_polygon"][:2 if c.sym and i else 4])))
        s.pads.append(use[-1])
    if c.bool("reversed"):
        use.reverse()
    for i, (pad, spec) in enumerate(use):
        at = (float(i), 0.5)
        s.b.add_pad(pad, at)
        s.want.append({"kind": "flash", "at": at, "pad": spec})
    pad, spec = use[0]
    k = c.choice("attributes", ["none", "all", "function", "tolerance", "custom"])
    if k in ("all", "function"):
        f = c.choice("function", [AperFunction.ViaDrill, AperFunction.ViaDrill.value] if c.sym else [x for y in AperFunction for x in (y, y.value)])
        pad.set_aperture_function(f)
        spec["attrs"][".AperFunction"] = AperFunction(f)
    if k in ("all", "tolerance"):
        v = (c.real("plus", 0, 9), c.real("minus", 0, 9)) if c.sym else (0.25, 0.125)
        pad.set_drill_tolerance(*v)
        spec["attrs"][".DrillTolerance"] = v
    if k in ("all", "custom"):
        for i in range(2):
            vals = [c.text(f"v{j}") for j in range(c.choice(f"n{i}", [0, 1, 2]))] if c.sym else ["a", "b"][:c.choice(f"n{i}", [0, 1, 2])]
            pad.set_custom_attribute(f"Zq{i}", *vals)
            spec["attrs"][f"Zq{i}"] = vals
    s.verify()


def new_pad(c, s, name, kind):
    v = lambda k: c.real(f"{name}.{k}", 0.01, 50) if c.sym else round(c.real(f"{name}.{k}", 0.01, 50), 3)  # noqa: E731
    hole = v("hole") if c.bool(name + " hole") else None
    n = c.int(name + ".n", 3, 12)
    args = {"circle": [v("d")], "rectangle": [v("w"), v("h")], "rounded_rectangle": [v("w"), v("h")], "regular_polygon": [v("d"), n, v("r")]}[kind]
    f = getattr(s.b.new_pad(), kind)
    if hole is None and c.bool(name + " omitted"):
        pad = f(*args)
    else:
        pad = f(*args, hole)
    return pad, {"def": (kind, [*args, hole]), "attrs": {}}


@contract("C15", "custom pads consist of the requested primitives", fns=[B + "CustomPadCreator." + n for n in ("__init__", "create", "add_circle", "cut_circle", "add_vector_line", "cut_vector_line", "add_center_line", "cut_center_line", "add_outline", "cut_outline", "add_polygon", "cut_polygon", "add_thermal")] +
          [B + "PadCreator._new_macro_id"], max_paths=20000, samples=150, note="two custom pads made at the same time, three primitives; outlines of 3..4 points")
def _(c):
    s = Session(c)
    s.pads.clear()
    mk = [s.b.new_pad().custom(), s.b.new_pad().custom()]
    reqs = [[], []]
    names = [x + y for x in ("add_", "cut_") for y in PRIM if x + y != "cut_thermal"]
    for i in range(2 if c.sym else 4):
        t = i % 2 if c.sym else c.choice(f"target{i}", [0, 1])
        prim(c, mk[t], reqs[t], f"q{i}", c.choice(f"prim{i}", names if i == 0 or not c.sym else ["add_circle", "cut_polygon"]))
    order = c.choice("order", [(0, 1), (1, 0)])
    for t in order:
        pad = mk[t].create()
        at = (1.0 + t, 2.0)
        s.b.add_pad(pad, at)
        s.want.append({"kind": "flash", "at": at, "pad": {"def": ("custom", reqs[t]), "attrs": {}}})
        _r, e = c.calls(mk[t].create)
        c.check(e is not None, "a custom pad is created only once")
        _r, e = c.calls(lambda: mk[t].add_circle(1.0, (0.0, 0.0)))
        c.check(e is not None, "primitives can not be added to a finished pad")
    s.verify()
    _r, e = c.calls(lambda: s.b.add_pad(s.b.new_pad().custom(), (0.0, 0.0)))
    c.check(isinstance(e, NotAPadError), "an unfinished pad is refused", repr(e))


def prim(c, target, reqs, name, what):
    v = lambda k: c.real(f"{name}.{k}", -50, 50) if c.sym else round(c.real(f"{name}.{k}", -50, 50), 3)  # noqa: E731
    p = lambda k: (v(k + "x"), v(k + "y"))  # noqa: E731
    exp, kind = (1 if what[:3] == "add" else 0), what[4:]
    pts = []
    if kind == "circle":
        d, ctr = v("d"), p("c")
        args, vals = [d, ctr], [d, *ctr]
    elif kind == "vector_line":
        w, a, b = v("w"), p("a"), p("b")
        args, vals = [w, a, b], [w, *a, *b]
    elif kind == "center_line":
        w, h, ctr = v("w"), v("h"), p("c")
        args, vals = [w, h, ctr], [w, h, *ctr]
    elif kind == "polygon":
        n, ctr, d = c.int(name + ".n", 3, 12), p("c"), v("d")
        args, vals = [n, ctr, d], [n, *ctr, d]
    elif kind == "thermal":
        ctr, o, i, g = p("c"), v("o"), v("i"), v("g")
        args, vals = [ctr, o, i, g], [*ctr, o, i, g]
    else:
        pts = [p(f"{k}") for k in range(c.choice(name + " points", [3, 4]))]
        args, vals = [pts], []
    rot = v("rot") if c.bool(name + " rotated") else None
    r = getattr(target, what)(*args, *([] if rot is None else [rot]))
    c.check(r is target, "custom pad creator can be chained")
    reqs.append((kind, exp, [*vals, 0.0 if rot is None else rot], pts))
