"""Graphics state tracking: one-step contracts against the Gerber specification."""
from pyvc.registry import contract

import pygerber.gerber.ast.nodes as N
from pygerber.gerber.ast import errors as E
from pygerber.gerber.ast.nodes.enums import AxisCorrespondence, CoordinateNotation, ImagePolarity, Mirroring, Polarity, UnitMode, Zeros
from pygerber.gerber.ast.state_tracking_visitor import ArcInterpolation, PlotMode, StateTrackingVisitor

V = "pygerber.gerber.ast.state_tracking_visitor.StateTrackingVisitor."

OPS = ["on_draw_line", "on_draw_cw_arc_sq", "on_draw_cw_arc_mq", "on_draw_ccw_arc_sq", "on_draw_ccw_arc_mq",
       "on_in_region_draw_line", "on_in_region_draw_cw_arc_sq", "on_in_region_draw_cw_arc_mq", "on_in_region_draw_ccw_arc_sq",
       "on_in_region_draw_ccw_arc_mq", "on_flash_circle", "on_flash_rectangle", "on_flash_obround", "on_flash_polygon",
       "on_flash_macro", "on_flash_block", "on_start_region", "on_flush_region", "on_end_region"]


class Tracker(StateTrackingVisitor):
    """Notes the operations that are dispatched and the operands they see."""

    def __init__(self, **k):
        self.ops = []
        super().__init__(**k)


def _rec(name):
    def f(self, *args):
        s = self.state
        self.ops.append((name, (s.current_x, s.current_y), (self.coordinate_x, self.coordinate_y), (self.coordinate_i, self.coordinate_j), args, s.is_region))
        return getattr(super(Tracker, self), name)(*args)

    return f


for _n in OPS:
    setattr(Tracker, _n, _rec(_n))

IMAGE = ["polarity", "rotation", "a_axis_mirroring", "b_axis_mirroring", "a_axis_offset", "b_axis_offset", "a_axis_scale", "b_axis_scale",
         "image_name", "file_name", "axis_correspondence"]
PLOT = {"G01": PlotMode.LINEAR, "G02": PlotMode.ARC, "G03": PlotMode.CCW_ARC}
ARC = {"G74": ArcInterpolation.SINGLE_QUADRANT, "G75": ArcInterpolation.MULTI_QUADRANT}


def snapshot(v):
    """The whole observable graphics state as a flat dictionary."""
    s = v.state
    f = s.coordinate_format
    out = {
        "unit": s.unit_mode, "plot mode": s.plot_mode, "arc mode": s.arc_interpolation, "region mode": s.is_region,
        "aperture": s.current_aperture_id, "x": s.current_x, "y": s.current_y,
        "polarity": s.transform.polarity, "mirroring": s.transform.mirroring, "rotation": s.transform.rotation, "scaling": s.transform.scaling,
        "aperture attributes": dict(s.attributes.aperture_attributes), "file attributes": dict(s.attributes.file_attributes),
        "object attributes": dict(s.attributes.object_attributes),
        "apertures": dict(s.apertures.apertures), "blocks": dict(s.apertures.blocks), "macros": dict(s.apertures.macros),
        "attributes of apertures": {k: dict(x) for k, x in s.apertures.per_aperture_attributes.items()},
        "format": None if f is None else (f.zeros, f.x_integral, f.x_decimal, f.y_integral, f.y_decimal),
        "notation": None if f is None else f.coordinate_mode,
    }
    for k in IMAGE:
        out["image " + k] = getattr(s.image_attributes, k)
    return out


SYM = ("x", "y", "rotation", "scaling", "image a_axis_offset", "image b_axis_offset", "image a_axis_scale", "image b_axis_scale")


def same(c, got, want, label):
    for k, w in want.items():
        g = got[k]
        if k in SYM and g is not None and w is not None:
            c.eq(g, w, f"{label}: {k}")
        elif isinstance(w, dict):
            c.check(list(g) == list(w) and all(g[i] is w[i] or g[i] == w[i] for i in w), f"{label}: {k}", f"{g} instead of {w}")
        else:
            c.check(g == w, f"{label}: {k}", f"{g!r} instead of {w!r}")


def coord(c, name, neg=None):
    """Coordinate text (leading zeros omitted) and the integer it denotes (decoding itself is C01)."""
    neg = c.bool(name + ".neg") if neg is None else neg
    t = c.digits(name, 3)
    n = c.to_int(t)
    return ("-" + t if neg else t), (-n if neg else n)


def attrs(*names):
    return {n: N.TA_UserName(user_name=n, fields=["old"]) for n in names}


APERTURES = {
    "D10": lambda: N.ADC(aperture_id="D10", diameter=1.0), "D11": lambda: N.ADR(aperture_id="D11", width=1.0, height=2.0),
    "D12": lambda: N.ADO(aperture_id="D12", width=1.0, height=2.0), "D13": lambda: N.ADP(aperture_id="D13", outer_diameter=1.0, vertices=5),
    "D14": lambda: N.ADmacro(aperture_id="D14", name="mac", params=[1.0]),
}
FLASH = {"D10": "on_flash_circle", "D11": "on_flash_rectangle", "D12": "on_flash_obround", "D13": "on_flash_polygon", "D14": "on_flash_macro", "D15": "on_flash_block"}


def reach_state(c, v, *, region=None, plot=None, arc=None, select="D10"):
    """Brings the visitor to an arbitrary state through commands; returns modes chosen."""
    b = {}
    seq = [N.FS(zeros=Zeros.SKIP_LEADING, coordinate_mode=CoordinateNotation.ABSOLUTE, x_integral=3, x_decimal=2, y_integral=4, y_decimal=1),
           N.MO(mode=c.choice("unit", [UnitMode.METRIC, UnitMode.IMPERIAL]) if c.sym is False else UnitMode.METRIC),
           N.TA_UserName(user_name="a"), N.TO_UserName(user_name="a"), N.TF_UserName(user_name="a"), N.TO_N(net_names=["n"]),
           N.AM(open=N.AMopen(name="mac"), primitives=[], close=N.AMclose())]
    seq += [f() for f in APERTURES.values()]
    seq += [N.AB(open=N.ABopen(aperture_id="D15"), nodes=[N.G04(string="c")], close=N.ABclose())]
    b["plot"] = plot or c.choice("plot mode", ["G01", "G02", "G03"])
    b["arc"] = arc or c.choice("arc mode", ["G74", "G75"])
    b["region"] = c.bool("region") if region is None else region
    b["rotation"], b["scaling"] = c.real("rotation"), c.real("scaling")
    b["polarity"] = c.choice("polarity", [Polarity.Dark, Polarity.Clear]) if not c.sym else Polarity.Clear
    b["mirroring"] = c.choice("mirroring", list(Mirroring)) if not c.sym else Mirroring.X
    seq += [N.LR(rotation=b["rotation"]), N.LS(scale=b["scaling"]), N.LP(polarity=b["polarity"]), N.LM(mirroring=b["mirroring"])]
    if select:
        seq.append(N.Dnn(aperture_id=select))
    order = c.choice("order", [0, 1, 2])
    modes = [getattr(N, b["plot"])(), getattr(N, b["arc"])()] + ([N.G36()] if b["region"] else [])
    modes = modes if order == 0 else modes[::-1] if order == 1 else modes[1:] + modes[:1]
    seq += modes
    xt, x = coord(c, "x0", True if c.sym else None)
    yt, y = coord(c, "y0", False if c.sym else None)
    seq.append(N.D02(x=N.CoordinateX(value=xt), y=N.CoordinateY(value=yt)))
    for n in seq:
        n.visit(v)
    b["x"], b["y"] = x / c.const(100), y / c.const(10)
    return b


def check_reached(c, v, b):
    s = snapshot(v)
    same(c, s, {"plot mode": PLOT[b["plot"]], "arc mode": ARC[b["arc"]], "region mode": b["region"], "x": b["x"], "y": b["y"], "polarity": b["polarity"],
                "mirroring": b["mirroring"], "rotation": b["rotation"], "scaling": b["scaling"]}, "state set up by commands")
    return s


def draw_op(b):
    n = {"G01": "line", "G02": "cw_arc", "G03": "ccw_arc"}[b["plot"]]
    if n != "line":
        n += {"G74": "_sq", "G75": "_mq"}[b["arc"]]
    return ("on_in_region_draw_" if b["region"] else "on_draw_") + n


def probe(c, v, b, label):
    """A draw without operands dispatches by the modes b."""
    v.ops.clear()
    v.on_d01(N.D01())
    c.check([o[0] for o in v.ops] == [draw_op(b)], f"{label}: following draw is dispatched by the modes in force", f"{[o[0] for o in v.ops]} instead of {draw_op(b)}")


Z = [Zeros.SKIP_LEADING, Zeros.SKIP_TRAILING, Zeros.SKIP_LEADING_IMPLIED]


def commands(c):
    """name -> (node, changes to the snapshot, changes to the modes)."""
    A, T = "aperture attributes", "object attributes"
    r, r2 = c.real("operand"), c.real("operand2")
    d = {}
    for g, p in PLOT.items():
        d[g] = lambda g=g, p=p: (getattr(N, g)(), {"plot mode": p}, {"plot": g})
    for g, p in ARC.items():
        d[g] = lambda g=g, p=p: (getattr(N, g)(), {"arc mode": p}, {"arc": g})
    d["G36"] = lambda: (N.G36(), {"region mode": True}, {"region": True})
    d["G37"] = lambda: (N.G37(), {"region mode": False}, {"region": False})
    d["G04"] = lambda: (N.G04(string="D01*"), {}, {})
    d["G54"] = lambda: (N.G54(), {}, {})
    d["G55"] = lambda: (N.G55(), {}, {})
    d["G70"] = lambda: (N.G70(), {"unit": UnitMode.IMPERIAL}, {})
    d["G71"] = lambda: (N.G71(), {"unit": UnitMode.METRIC}, {})
    d["G90"] = lambda: (N.G90(), {"notation": CoordinateNotation.ABSOLUTE}, {})
    d["G91"] = lambda: (N.G91(), {"notation": CoordinateNotation.INCREMENTAL}, {})
    d["M01"] = lambda: (N.M01(), {}, {})
    for m in Mirroring:
        d[f"LM{m.value}"] = lambda m=m: (N.LM(mirroring=m), {"mirroring": m}, {})
    for m in Polarity:
        d[f"LP{m.value}"] = lambda m=m: (N.LP(polarity=m), {"polarity": m}, {})
    d["LR"] = lambda: (N.LR(rotation=r), {"rotation": r}, {})
    d["LS"] = lambda: (N.LS(scale=r), {"scaling": r}, {})
    d["LN"] = lambda: (N.LN(name="nm"), {"image file_name": "nm"}, {})
    for m in UnitMode:
        d[f"MO{m.value}"] = lambda m=m: (N.MO(mode=m), {"unit": m}, {})
    for z in Z:
        for k in CoordinateNotation:
            d[f"FS{z.value}{k.value}"] = lambda z=z, k=k: (
                N.FS(zeros=z, coordinate_mode=k, x_integral=2, x_decimal=5, y_integral=3, y_decimal=4), {"format": (z, 2, 5, 3, 4), "notation": k}, {})
    for m in AxisCorrespondence:
        d[f"AS{m.value}"] = lambda m=m: (N.AS(correspondence=m), {"image axis_correspondence": m}, {})
    d["IN"] = lambda: (N.IN(name="in"), {"image image_name": "in"}, {})
    for m in ImagePolarity:
        d[f"IP{m.value}"] = lambda m=m: (N.IP(polarity=m), {"image polarity": m}, {})
    d["IR"] = lambda: (N.IR(rotation_degrees=90), {"image rotation": 90}, {})
    d["MI"] = lambda: (N.MI(a_mirroring=1, b_mirroring=0), {"image a_axis_mirroring": 1, "image b_axis_mirroring": 0}, {})
    d["OF"] = lambda: (N.OF(a_offset=r, b_offset=r2), {"image a_axis_offset": r, "image b_axis_offset": r2}, {})
    d["OF2"] = lambda: (N.OF(a_offset=None, b_offset=r2), {"image a_axis_offset": None, "image b_axis_offset": r2}, {})
    d["SF"] = lambda: (N.SF(a_scale=r, b_scale=r2), {"image a_axis_scale": r, "image b_axis_scale": r2}, {})
    for i in list(APERTURES) + ["D15"]:
        d["select " + i] = lambda i=i: (N.Dnn(aperture_id=i), {"aperture": i}, {})
    for n in ("a", "b"):
        ta, to, tf = N.TA_UserName(user_name=n, fields=["new"]), N.TO_UserName(user_name=n, fields=["new"]), N.TF_UserName(user_name=n, fields=["new"])
        d["TA " + n] = lambda n=n, ta=ta: (ta, {A: ("put", n, ta)}, {})
        d["TO " + n] = lambda n=n, to=to: (to, {T: ("put", n, to)}, {})
        d["TF " + n] = lambda n=n, tf=tf: (tf, {"file attributes": ("put", n, tf)}, {})
    d["TD a"] = lambda: (N.TD(name="a"), {A: ("del", "a"), T: ("del", "a")}, {})
    d["TD .N"] = lambda: (N.TD(name=".N"), {T: ("del", ".N")}, {})
    d["TD absent"] = lambda: (N.TD(name="zzz"), {}, {})
    d["TD all"] = lambda: (N.TD(), {A: {}, T: {}}, {})
    ad = N.ADR(aperture_id="D77", width=1.0, height=1.0)
    d["AD"] = lambda: (ad, {"apertures": ("put", "D77", ad), "attributes of apertures": ("put", "D77", A)}, {})
    am = N.AM(open=N.AMopen(name="other"), primitives=[], close=N.AMclose())
    d["AM"] = lambda: (am, {"macros": ("put", "other", am)}, {})
    # state set inside of a block or a repeat stays set after it
    to = N.TO_UserName(user_name="b", fields=["inside"])
    body = [N.LP(polarity=Polarity.Dark), N.LM(mirroring=Mirroring.XY), N.LR(rotation=r), N.LS(scale=r2), N.Dnn(aperture_id="D12"), N.G75(), to]
    left = {"polarity": Polarity.Dark, "mirroring": Mirroring.XY, "rotation": r, "scaling": r2, "aperture": "D12", "arc mode": ARC["G75"], T: ("put", "b", to)}
    ab = N.AB(open=N.ABopen(aperture_id="D78"), nodes=[*body, N.G02()], close=N.ABclose())
    d["AB"] = lambda: (ab, {"blocks": ("put", "D78", ab), "attributes of apertures": ("put", "D78", A), **left, "plot mode": PlotMode.ARC}, {"plot": "G02", "arc": "G75"})
    sr = N.SR(open=N.SRopen(x="2", y="1", i="1", j="0"), nodes=[*body, N.G03()], close=N.SRclose())
    d["SR"] = lambda: (sr, {**left, "plot mode": PlotMode.CCW_ARC}, {"plot": "G03", "arc": "G75"})
    return d


def expected(pre, change):
    out = dict(pre)
    for k, w in change.items():
        if isinstance(w, tuple) and w and w[0] == "put":
            out[k] = {**pre[k], w[1]: dict(pre[w[2]]) if isinstance(w[2], str) else w[2]}
        elif isinstance(w, tuple) and w and w[0] == "del":
            out[k] = {i: x for i, x in pre[k].items() if i != w[1]}
        else:
            out[k] = w
    return out


@contract("C02", "each command changes only the state it is specified to change",
          fns=[V + "on_" + n for n in ("g01", "g02", "g03", "g04", "g36", "g37", "g70", "g71", "g74", "g75", "g90", "g91", "lm", "lp", "lr", "ls", "ln", "mo", "fs", "as", "in", "ip", "ir", "mi", "of", "sf", "dnn", "ta", "to", "tf", "td", "ad", "am", "ab")]
          + ["pygerber.gerber.ast.state_tracking_visitor.State", "pygerber.gerber.ast.state_tracking_visitor.Attributes", V + "_dispatch_d01_handler"],
          note="every command from an arbitrary state (3 plot modes x 2 arc modes x region, symbolic numbers), whole state compared", max_paths=20000)
def _(c):
    v = Tracker()
    b = reach_state(c, v)
    pre = check_reached(c, v, b)
    cmds = commands(c)
    node, change, modes = cmds[c.choice("command", list(cmds))]()
    region_cmd = type(node).__name__
    v.ops.clear()
    c.noraise(lambda: node.visit(v), "command accepted")
    ops = [o[0] for o in v.ops]
    want = {"G36": ["on_start_region"], "G37": ["on_flush_region", "on_end_region"]}.get(region_cmd, [])
    c.check(ops == want, "command triggers exactly its own operations", f"{ops} instead of {want}")
    same(c, snapshot(v), expected(pre, change), "state after command")
    probe(c, v, {**b, **modes}, "after command")


def operand(c, name, present, cls, div):
    if not present:
        return None, None
    t, n = coord(c, name)
    return cls(value=t), n / c.const(div)


@contract("C02", "operations use and update the current point",
          fns=[V + n for n in ("on_d01", "on_d02", "on_d03", "coordinate_x", "coordinate_y", "coordinate_i", "coordinate_j", "on_coordinate_x", "on_coordinate_y", "on_coordinate_i", "on_coordinate_j", "_update_coordinates")],
          note="D01, D02, D03 with every combination of operands, from an arbitrary current point, followed by a second operation without operands", max_paths=20000)
def _(c):
    v = Tracker()
    op = c.choice("op", ["D01", "D02", "D03"])
    region = c.bool("region") if op != "D03" else False
    b = reach_state(c, v, region=region, plot=None if op == "D01" else "G01", arc=None if op == "D01" else "G75")
    incr = c.bool("incremental")
    if incr:
        N.G91().visit(v)
    pre = {**check_reached(c, v, b), **({"notation": CoordinateNotation.INCREMENTAL} if incr else {})}
    hx, hy = c.bool("has x"), c.bool("has y")
    hi, hj = (c.bool("has i"), c.bool("has j")) if op == "D01" else (False, False)
    xn, x = operand(c, "x", hx, N.CoordinateX, 100)
    yn, y = operand(c, "y", hy, N.CoordinateY, 10)
    i_n, i = operand(c, "i", hi, N.CoordinateI, 100)
    j_n, j = operand(c, "j", hj, N.CoordinateJ, 10)
    kw = {"x": xn, "y": yn}
    if op == "D01":
        kw.update(i=i_n, j=j_n)
    node = getattr(N, op)(**{k: a for k, a in kw.items() if a is not None})
    v.ops.clear()
    c.noraise(lambda: node.visit(v), "operation accepted")
    if incr:
        x, y = (b["x"] + x if hx else None), (b["y"] + y if hy else None)
    nx, ny = (x if hx else b["x"]), (y if hy else b["y"])
    want = [draw_op(b)] if op == "D01" else ["on_flash_circle"] if op == "D03" else ["on_flush_region"] if region else []
    c.check([o[0] for o in v.ops] == want, "operation dispatched by the state before it", f"{[o[0] for o in v.ops]} instead of {want}")
    for name, cur, tgt, off, args, _r in v.ops:
        if op == "D02":
            continue
        c.eq(cur[0], b["x"], "operation starts at the current point (x)")
        c.eq(cur[1], b["y"], "operation starts at the current point (y)")
        c.eq(tgt[0], nx, "missing x keeps its value, present x is used")
        c.eq(tgt[1], ny, "missing y keeps its value, present y is used")
        c.eq(off[0], i if hi else 0, "i offset of this operation only")
        c.eq(off[1], j if hj else 0, "j offset of this operation only")
        c.check(args[0] is node, "operation receives its node")
        if op == "D03":
            c.check(args[1] is v.state.apertures.apertures["D10"], "flash receives the selected aperture")
    same(c, snapshot(v), {**pre, "x": nx, "y": ny}, "state after operation")
    # second operation without operands: nothing but the current point is remembered
    if op != "D03":
        if b["plot"] == "G01":
            N.G75().visit(v)
            N.G02().visit(v)
        v.ops.clear()
        N.D01().visit(v)
        (_, cur, tgt, off, _a, _r), = v.ops[:1] or [(0, (None, None), (None, None), (None, None), 0, 0)]
        c.check(cur[0] is not None, "second draw dispatched")
        c.eq(cur[0], nx, "second operation starts where the first ended (x)")
        c.eq(cur[1], ny, "second operation starts where the first ended (y)")
        c.eq(tgt[0], nx, "operation without x stays (x)")
        c.eq(tgt[1], ny, "operation without y stays (y)")
        c.eq(off[0], 0, "i never carries over")
        c.eq(off[1], 0, "j never carries over")


@contract("C02", "flashes are dispatched by the selected aperture", fns=[V + "on_dnn", V + "on_d03", "pygerber.gerber.ast.state_tracking_visitor.State.current_aperture"],
          note="every ordered pair of apertures selected one after another")
def _(c):
    v = Tracker()
    reach_state(c, v, region=False, plot="G01", arc="G75", select=None)
    _, e = c.calls(lambda: N.D03().visit(v), E.ApertureNotSelectedError)
    c.check(e is not None, "flash without selected aperture is an error")
    ids = list(FLASH)
    first, last = c.choice("first", [None, *ids]), c.choice("last", ids)
    if first:
        N.Dnn(aperture_id=first).visit(v)
    N.Dnn(aperture_id=last).visit(v)
    v.ops.clear()
    n = N.D03()
    n.visit(v)
    c.check([o[0] for o in v.ops] == [FLASH[last]], "flash operation of the aperture type", str([o[0] for o in v.ops]))
    st = v.state.apertures
    want = st.apertures[last] if last in st.apertures else st.blocks[last]
    c.check(v.ops[0][4][0] is n and v.ops[0][4][1] is want, "flash receives node and aperture")
    _, e = c.calls(lambda: N.Dnn(aperture_id="D99").visit(v), E.ApertureNotFoundError)
    c.check(e is not None, "selecting an undefined aperture is an error")


@contract("C02", "apertures keep the attributes they were defined with", fns=[V + "on_ad", V + "on_ab", V + "on_ta", V + "on_td"],
          note="definition of each aperture kind between attribute changes")
def _(c):
    v = Tracker()
    k = c.choice("kind", [*APERTURES, "D15"])
    a1, a2, a3 = N.TA_UserName(user_name="p"), N.TA_UserName(user_name="q"), N.TA_UserName(user_name="p", fields=["2"])
    t = N.TO_UserName(user_name="p")
    for n in (a1, t, a2):
        n.visit(v)
    node = APERTURES[k]() if k in APERTURES else N.AB(open=N.ABopen(aperture_id="D15"), nodes=[], close=N.ABclose())
    node.visit(v)
    later = c.choice("later", ["none", "delete all", "delete p", "replace"])
    for n in {"none": [], "delete all": [N.TD()], "delete p": [N.TD(name="p")], "replace": [a3]}[later]:
        n.visit(v)
    got = v.state.apertures.per_aperture_attributes.get(k)
    c.check(got == {"p": a1, "q": a2}, "attributes attached at definition stay", str(got))
    cur = {"none": {"p": a1, "q": a2}, "delete all": {}, "delete p": {"q": a2}, "replace": {"p": a3, "q": a2}}[later]
    c.check(v.state.attributes.aperture_attributes == cur, "current aperture attributes")
    c.check(v.state.attributes.object_attributes == ({} if later in ("delete all", "delete p") else {"p": t}), "current object attributes")


ATTRS = {
    "TA_UserName": "u", "TA_AperFunction": ".AperFunction", "TA_DrillTolerance": ".DrillTolerance", "TA_FlashText": ".FlashText",
    "TF_UserName": "u", "TF_Part": ".Part", "TF_FileFunction": ".FileFunction", "TF_FilePolarity": ".FilePolarity", "TF_SameCoordinates": ".SameCoordinates",
    "TF_CreationDate": ".CreationDate", "TF_GenerationSoftware": ".GenerationSoftware", "TF_ProjectId": ".ProjectId", "TF_MD5": ".MD5",
    "TO_UserName": "u", "TO_N": ".N", "TO_P": ".P", "TO_C": ".C", "TO_CRot": ".CRot", "TO_CMfr": ".CMfr", "TO_CMNP": ".CMPN", "TO_CVal": ".CVal",
    "TO_CMnt": ".CMnt", "TO_CFtp": ".CFtp", "TO_CPgN": ".CPgN", "TO_CPgD": ".CPgD", "TO_CHgt": ".CHgt", "TO_CLbN": ".CLbN", "TO_CLbD": ".CLbD", "TO_CSup": ".CSup",
}


@contract("C02", "every attribute command is stored under its own name", fns=[V + "on_ta", V + "on_tf", V + "on_to", "pygerber.gerber.ast.nodes.attribute.*.attribute_name"])
def _(c):
    from contracts.nodelib import Builder

    k = c.choice("attribute", list(ATTRS))
    b = Builder()
    node = b.build(getattr(N, k), **({"user_name": "u"} if "UserName" in k else {}))
    v = Tracker()
    others = [N.TA_UserName(user_name="z"), N.TF_UserName(user_name="z"), N.TO_UserName(user_name="z")]
    for n in others:
        n.visit(v)
    node.visit(v)
    a = v.state.attributes
    dicts = {"TA": a.aperture_attributes, "TF": a.file_attributes, "TO": a.object_attributes}
    name = node.attribute_name
    c.check(name == ATTRS[k], "attribute name", name)
    for (p, d), z in zip(dicts.items(), others):
        want = {"z": z, **({name: node} if p == k[:2] else {})}
        c.check(d == want, f"{p} attributes", str(d))
    N.TD(name=name).visit(v)
    for (p, d), z in zip(dicts.items(), others):
        want = {"z": z, **({name: node} if p == "TF" == k[:2] else {})}
        c.check(d == want, f"{p} attributes after deletion by name", str(d))


@contract("C02", "nothing is processed after end of file", fns=[V + "on_file", V + "on_m00", V + "on_m02", V + "on_exception"],
          note="files of up to 5 commands with the end command at any position; nested blocks")
def _(c):
    n = c.choice("length", [1, 2, 3, 4, 5])
    at = c.choice("end position", [None, *range(n)])
    kind = c.choice("end", ["M00", "M02"])
    ignore = c.bool("ignore program stop")
    nodes = [N.TO_UserName(user_name=f"t{i}") for i in range(n)]
    if at is not None:
        nodes[at] = getattr(N, kind)()
    ends = []

    class T(Tracker):
        def on_end_of_file(self, node):
            ends.append(node)
            return super().on_end_of_file(node)

    v = T(ignore_program_stop=ignore)
    f = N.File(nodes=nodes)
    r = c.noraise(lambda: f.visit(v), "file")
    c.check(r is f, "file returned")
    want = [f"t{i}" for i in range(n) if i != at and (at is None or i < at or ignore)]
    c.check(list(v.state.attributes.object_attributes) == want, "commands processed", f"{list(v.state.attributes.object_attributes)} instead of {want}")
    c.check(ends == [f] and len(ends) == 1, "end of file signalled once")


@contract("C02", "coordinates need a format", fns=[V + "on_coordinate_" + a for a in "xyij"])
def _(c):
    v = Tracker()
    a = c.choice("axis", "xyij")
    node = N.D01(**{a: getattr(N, "Coordinate" + a.upper())(value="100")})
    _, e = c.calls(lambda: node.visit(v), E.CoordinateFormatNotSetError)
    c.check(e is not None, "coordinate without format is an error")


@contract("C02", "command histories", fns=[V + "on_*"], bounded=True, samples=120,
          note="bounded: random sequences of up to 40 commands and operations against the specified state machine")
def _(c):
    v = Tracker()
    b = reach_state(c, v)
    state = snapshot(v)
    cmds = commands(c)
    names = list(cmds)
    for s in range(c.int("steps", 1, 40)):
        k = c.choice(f"kind{s}", ["mode", "op", "any"])
        if k == "op":
            op = c.choice(f"op{s}", ["D01", "D02"] + ([] if b["region"] or state["aperture"] is None else ["D03"]))
            kw, tgt = {}, {}
            for ax, d in (("x", 2), ("y", 1)):
                if c.bool(f"{ax}?{s}"):
                    n = c.int(f"{ax}{s}", -9999, 9999)
                    fm = state["format"]
                    if fm is None or fm[1:] != (3, 2, 4, 1) or fm[0] == Zeros.SKIP_TRAILING:
                        continue
                    kw[ax] = getattr(N, "Coordinate" + ax.upper())(value=str(n))
                    tgt[ax] = n / 10**d + (state[ax] if state["notation"] is CoordinateNotation.INCREMENTAL else 0)
            v.ops.clear()
            cur = (state["x"], state["y"])
            getattr(N, op)(**kw).visit(v)
            state = {**state, **tgt}
            want = draw_op(b) if op == "D01" else FLASH[state["aperture"]] if op == "D03" else "on_flush_region" if b["region"] else None
            c.check([o[0] for o in v.ops] == ([want] if want else []), "operation of history", f"{v.ops} {want}")
            if want and op != "D02":
                c.eq(v.ops[0][1][0], cur[0], "start x")
                c.eq(v.ops[0][1][1], cur[1], "start y")
                c.eq(v.ops[0][2][0], state["x"], "target x")
                c.eq(v.ops[0][2][1], state["y"], "target y")
        else:
            pool = [x for x in names if x in ("G01", "G02", "G03", "G74", "G75", "G36", "G37")] if k == "mode" else names
            node, change, modes = cmds[c.choice(f"c{s}", pool)]()
            state = expected(state, change)
            b = {**b, **modes}
            node.visit(v)
        same(c, snapshot(v), state, "state after history")
