"""Large inputs: the proofs cover lists by short representatives where the code treats every element alike; these bounded
run-time checks confirm that long lists, deep nesting and many definitions are treated like short ones."""
from pyvc.registry import contract

import pygerber.gerber.ast.nodes as N
from pygerber.gerber.compiler import compile as compile_ast
from pygerber.gerber.formatter import Formatter, Options
from pygerber.gerber.parser import parse
from pygerber.gerber.ast.state_tracking_visitor import StateTrackingVisitor
from pygerber.vm.commands import EndLayer, PasteLayer, Shape, StartLayer
from pygerber.vm.commands.shape_segments import Line
from pygerber.vm.rvmc import RVMC
from pygerber.vm.types import Box, LayerID, Vector

from contracts.nodelib import Builder, concrete_classes
from contracts.paint import items

HEAD = "%FSLAX46Y46*%\n%MOMM*%\n"


def mm(v):
    return str(round(v * 10**6))


def big(name, note, props, **kw):
    return contract(props, name, bounded=True, samples=kw.pop("samples", 2), note="bounded: " + note, **kw)


def size(c, name, sizes):
    """The largest size mostly."""
    return c.choice(name, [*sizes, *[max(sizes)] * (2 * len(sizes))])


def painted(c, text):
    return items(c, compile_ast(parse(text)))


def flat(its, neg=False):
    out = []
    for it in its:
        n = neg != bool(it[2])
        out += flat(it[1], n) if it[0] == "G" else [(it[1], n)]
    return out


def extent(o):
    """Bounding box of the outline by its end points and the circles of its arcs."""
    xs, ys = [], []
    for s in o.commands:
        for p in (s.start, s.end):
            xs.append(p.x)
            ys.append(p.y)
        if hasattr(s, "center") and s.start == s.end:
            r = ((s.start.x - s.center.x) ** 2 + (s.start.y - s.center.y) ** 2) ** 0.5
            xs += [s.center.x - r, s.center.x + r]
            ys += [s.center.y - r, s.center.y + r]
    return min(xs), min(ys), max(xs), max(ys)


def middle(o):
    x0, y0, x1, y1 = extent(o)
    return (x0 + x1) / 2, (y0 + y1) / 2


def near(a, b, eps=1e-6):
    return len(a) == len(b) and all(abs(x - y) < eps for x, y in zip(a, b))


# ------------------------------------------------------------------ graphics state
@big("long files", "files of several hundred commands with over a hundred apertures and attributes", "C02")
def _(c):
    n = size(c, "apertures", [90, 130, 400])
    k = size(c, "attributes", [12, 70])
    t = HEAD + "".join(f"%TO.Ua{i},{i}*%\n%TA.Ta{i},{i}*%\n%TF.Fa{i},{i}*%\n" for i in range(k)).replace(".U", "U").replace(".T", "T").replace(".F", "F")
    t += "".join(f"%ADD{10 + i}C,{i + 1}*%\n" for i in range(n))
    gone = c.choice("deleted", range(k))
    t += f"%TDUa{gone}*%\n"
    ops = [(i, i * 0.5, -i * 0.25) for i in range(n)]
    t += "".join(f"D{10 + i}*\nX{mm(x)}Y{mm(y)}D03*\n" for i, x, y in ops) + "M02*"
    log = []

    class V(StateTrackingVisitor):
        def on_d03(self, node):
            r = super().on_d03(node)
            log.append((self.state.current_aperture_id, self.state.current_x, self.state.current_y, self.state.current_aperture.diameter if self.state.current_aperture is not None else None))
            return r

    v = V()
    parse(t).visit(v)
    c.check(len(log) == n, "every flash is performed", f"{len(log)} of {n}")
    for (i, x, y), g in zip(ops, log):
        c.check(g[0] == f"D{10 + i}" and near(g[1:3], (x, y)) and g[3] == i + 1, "aperture and point of every flash", f"{g} instead of {(i, x, y)}")
    a = v.state.attributes
    c.check(sorted(a.object_attributes) == sorted(f"Ua{i}" for i in range(k) if i != gone), "object attributes", f"{len(a.object_attributes)}")
    c.check(len(a.aperture_attributes) == k and len(a.file_attributes) == k, "aperture and file attributes")
    c.check(len(v.state.apertures.apertures) == n, "apertures defined")


# ------------------------------------------------------------------ macros
@big("large macros", "outlines of up to 400 points, up to 60 primitives, parameters and variables in one macro", "C04", fns=["pygerber.gerber.compiler.compiler.Compiler.on_code_4", "pygerber.gerber.compiler.compiler.Compiler.on_admacro"])
def _(c):
    n = size(c, "points", [12, 150, 400])
    k = size(c, "primitives", [12, 60])
    pts = [(i * 0.5, (i * i % 17) + 1.0) for i in range(n)] + [(n * 0.5, -3.0)]
    body = f"4,1,{n + 1},0,-3,\n" + "".join(f"{x},{y},\n" for x, y in pts) + "0,-3,0*\n"
    body += "".join(f"${k + 1 + i}=${i + 1}x2*\n1,{i % 2},1,${k + 1 + i},{-i}*\n" for i in range(k))
    t = HEAD + f"%AMbig*\n{body}%\n%ADD10big,{'X'.join(str(i + 0.5) for i in range(k))}*%\nD10*X0Y0D03*M02*"
    got = flat(painted(c, t))
    c.check(len(got) == k + 1, "every primitive is painted", f"{len(got)} instead of {k + 1}")
    o = [s for s in got[0][0].commands if s.start != s.end]
    want = [(0.0, -3.0), *pts]
    c.check(len(o) == len(want), "outline has all its sides", f"{len(o)} instead of {len(want)}")
    for s, w in zip(o, want):
        c.check(near(s.start.xy, w), "outline: corners in order", f"{s.start.xy} instead of {w}")
    for i, (g, neg) in enumerate(got[1:]):
        c.check(near(middle(g), (2 * (i + 0.5), -i)) and neg == (i % 2 == 0), "primitive uses its own variable and exposure", f"{i}: {middle(g)} {neg}")


# ------------------------------------------------------------------ drawing
@big("long contours and traces", "regions of up to 500 segments and as many draws", "C05", fns=["pygerber.gerber.compiler.compiler.Compiler.on_g37"])
def _(c):
    n = size(c, "segments", [40, 130, 500])
    m = size(c, "contours", [1, 12])
    t = HEAD + "%ADD10C,0.5*%\nD10*\nG01*\nG36*\n"
    want = []
    for j in range(m):
        pts = [(i * 0.25, 100.0 * j + (i * i % 13)) for i in range(n)]
        t += f"X0Y{mm(100.0 * j - 5)}D02*\n" + "".join(f"X{mm(x)}Y{mm(y)}D01*\n" for x, y in pts) + f"X0Y{mm(100.0 * j - 5)}D01*\n"
        want.append([(0.0, 100.0 * j - 5), *pts])
    t += "G37*\nX0Y0D02*\n" + "".join(f"X{mm(i * 1.0)}Y{mm(i % 3)}D01*\n" for i in range(1, n)) + "M02*"
    got = painted(c, t)
    c.check(len(got) >= m, "one shape per contour", f"{len(got)}")
    for g, w in zip(got, want):
        o = [s for s in g[1].commands if s.start != s.end]
        c.check(len(o) == len(w) and all(near(s.start.xy, p) for s, p in zip(o, w)), "contour consists of the drawn segments in order", f"{len(o)} segments instead of {len(w)}")
    lines = [(i - 0.5, (i % 3 + (i - 1) % 3) / 2) for i in range(1, n)]
    mids = [middle(o) for o, _n in flat(got[m:])]
    for w in lines:
        c.check(any(near(q, w, 1e-3) for q in mids), "every line is drawn", f"{w}")


# ------------------------------------------------------------------ blocks
@big("many repetitions and deep blocks", "step and repeat of up to 60 x 3, blocks nested up to depth 9", ["C06", "C07"], fns=["pygerber.gerber.compiler.compiler.Compiler.on_sr", "pygerber.gerber.compiler.compiler.Compiler.on_ab"])
def _(c):
    nx, ny = c.choice("repeats", [(1, 40), (25, 3), (60, 1), (11, 12)])
    d = size(c, "depth", [3, 6, 9])
    t = HEAD + "%ADD10R,1X1*%\n%ADD11C,2*%\n"
    for i in range(d):
        t += f"%ABD{20 + i}*%\n"
        t += f"D{19 + i if i else 10}*\nX{mm(1.0)}Y{mm(i)}D03*\nD11*\nX{mm(-i)}Y0D03*\n%AB*%\n"
    t += f"D{19 + d}*\nX{mm(7.0)}Y0D03*\n%SRX{nx}Y{ny}I3J5*%\nD10*\nX0Y0D03*\n%SR*%\nM02*"
    got = flat(painted(c, t))

    def block(i, x, y):
        sub = [(x + 1.0, y + i, 1.0)] if i == 0 else block(i - 1, x + 1.0, y + i)
        return [*sub, (x - i, y, 2.0)]

    want = block(d - 1, 7.0, 0.0)
    mk = lambda o: (*middle(o), extent(o)[2] - extent(o)[0])  # noqa: E731
    c.check(len(got) == len(want) + nx * ny, "number of objects", f"{len(got)} instead of {len(want) + nx * ny}")
    for (o, _n), w in zip(got, want):
        c.check(near(mk(o), w), "contents of nested blocks in place", f"{mk(o)} instead of {w}")
    have = sorted((round(p[0], 4), round(p[1], 4)) for p in (middle(o) for o, _n in got[len(want):]))
    c.check(have == sorted((3.0 * i, 5.0 * j) for i in range(nx) for j in range(ny)), "every repetition in its place", f"{have[:4]}")


@big("many layers", "programs with up to 300 different apertures, flashed and transformed, and 40 blocks sharing apertures", ["C07", "C06"], fns=["pygerber.gerber.compiler.compiler.Compiler._convert_buffers_to_rvmc"])
def _(c):
    n = size(c, "apertures", [60, 130, 300])
    t = HEAD + "".join(f"%ADD{10 + i}R,{i + 1}X1*%\n" for i in range(n))
    m = size(c, "blocks", [12, 40])
    t += "%ADD999C,1X0.5*%\n" + "".join(f"%ABD{1000 + i}*%\nD999*\nX{mm(i)}Y0D03*\nD10*\nX{mm(i)}Y{mm(5.0)}D03*\n%AB*%\n" for i in range(m))
    t += "".join(f"D{1000 + i}*\nX0Y{mm(50.0)}D03*\n" for i in range(m))
    ops = [(c.int(f"a{i}", 0, n - 1), i * 1.0, c.choice(f"s{i}", [1.0, 2.0, 0.5, 3.0])) for i in range(n)]
    t += "".join(f"D{10 + a}*\n%LS{s}*%\nX{mm(x)}Y0D03*\n" for a, x, s in ops) + "M02*"
    got = flat(painted(c, t))
    c.check(len(got) == n + 3 * m, "every flash is painted", f"{len(got)} of {n + 3 * m}")
    for i in range(m):
        for (o, _n), w in zip(got[3 * i:3 * i + 3], [(i, 50.0), (i, 50.0), (i, 55.0)]):
            c.check(near(middle(o), w), "contents of every block in place", f"{middle(o)} instead of {w}")
    got = got[3 * m:]
    for (o, _n), (a, x, s) in zip(got, ops):
        w = extent(o)[2] - extent(o)[0]
        c.check(near(middle(o), (x, 0.0)) and abs(w - (a + 1) * s) < 1e-6, "aperture, scale and place of every flash", f"{middle(o)} width {w} instead of {x} {(a + 1) * s}")


# ------------------------------------------------------------------ rendering
def rect(x, y, w, h, neg=False):
    p = [(x, y), (x + w, y), (x + w, y + h), (x, y + h)]
    return Shape(commands=[Line(start=Vector(x=a[0], y=a[1]), end=Vector(x=b[0], y=b[1])) for a, b in zip(p, [*p[1:], p[0]])], is_negative=neg)


def layer(name, cmds, box=None, origin=(0.0, 0.0)):
    return [StartLayer(id=LayerID(id=name), box=box, origin=Vector(x=origin[0], y=origin[1])), *cmds, EndLayer()]


def grid(c):
    """A program painting many squares, a clear bar over some of them and a pasted layer of clear squares."""
    n = size(c, "columns", [9, 21, 40])
    dark = [rect(3.0 * i, 3.0 * j, 2.0, 2.0) for i in range(n) for j in range(2)]
    holes = layer("holes", [rect(3.0 * i + 0.5, 0.5, 1.0, 1.0) for i in range(n)])
    bar = c.bool("bar")
    main = [*dark, *([rect(0.0, 3.5, 3.0 * n, 1.0, True)] if bar else []), PasteLayer(source_layer_id=LayerID(id="holes"), center=Vector(x=0.0, y=0.0), is_negative=True)]
    late = c.bool("late")
    if late:
        main.append(rect(3.0 * (n - 1) + 0.75, 0.75, 0.5, 0.5))
    cmds = [*holes, *layer("%main%", main)]

    def at(i, j, x, y):
        """Content at a place of a square."""
        if j == 0 and 0.5 < x < 1.5 and 0.5 < y < 1.5:
            return late and i == n - 1 and 0.75 < x < 1.25 and 0.75 < y < 1.25
        if j == 1 and bar and 0.5 < y < 1.5:
            return False
        return 0 < x < 2 and 0 < y < 2

    pts = [(3.0 * i + x, 3.0 * j + y, at(i, j, x, y)) for i in range(n) for j in range(2) for x, y in ((1.0, 1.0), (0.25, 0.25), (1.75, 1.75), (2.5, 1.0))]
    return 3 * n if bar else 3 * n - 1, cmds, pts


@big("many objects", "programs of up to 80 dark squares with a clear bar and a clear layer over all of them", "C13", fns=["pygerber.vm.shapely.vm.ShapelyVirtualMachine.on_paste_layer_eager"], samples=3)
def _(c):
    import shapely

    from pygerber.vm.shapely import ShapelyVirtualMachine

    width, cmds, pts = grid(c)
    r = ShapelyVirtualMachine().run(RVMC(commands=cmds))
    for x, y, w in pts:
        if x < width:
            c.check(bool(r.shape.covers(shapely.Point(x, y))) == w, "result is the ordered combination of dark and clear objects", f"at {(x, y)}")


@big("many objects on the raster", "programs of up to 80 dark squares with a clear bar and a clear layer over all of them", "C12", fns=["pygerber.vm.pillow.vm.PillowVirtualMachine.on_paste_layer_eager"], samples=3)
def _(c):
    from pygerber.vm.pillow import PillowVirtualMachine

    width, cmds, pts = grid(c)
    im = PillowVirtualMachine(8).run(RVMC(commands=cmds)).get_image_no_style()
    fits = near(im.size, (8 * width, 40), 1.5)
    c.check(fits, "size of the image", f"{im.size}")
    if not fits:
        return
    for x, y, w in pts:
        if x < width and y < 5:
            g = im.getpixel((int(x * 8), im.size[1] - 1 - int(y * 8)))
            c.check(bool(g) == w, "dark objects set and clear ones erase pixels in order", f"at {(x, y)}")


@big("deeply nested layers", "layers opened inside of each other up to depth 30, each pasted to the one around it", ["C08", "C09"], fns=["pygerber.vm.vm.VirtualMachine.on_end_layer"])
def _(c):
    from pygerber.vm.pillow import PillowVirtualMachine

    d = size(c, "depth", [4, 12, 30])
    auto = [c.bool(f"auto{i}") for i in range(d)]
    wide = Box(min_x=-1.0, min_y=-1.0, max_x=float(d + 2), max_y=2.0)

    def nest(i):
        name = "%main%" if i == 0 else f"l{i}"
        body = [rect(0.0, 0.0, 1.0, 1.0)]
        if i + 1 < d:
            body += [*nest(i + 1), PasteLayer(source_layer_id=LayerID(id=f"l{i + 1}"), center=Vector(x=1.0, y=0.0), is_negative=False)]
        return layer(name, body, None if auto[i] else wide)

    vm = PillowVirtualMachine(4)
    r = vm.run(RVMC(commands=nest(0)))
    have = r.main_box if hasattr(r, "main_box") else None

    def ext(i):
        if not auto[i]:
            return (-1.0, -1.0, d + 2.0, 2.0)
        b = (0.0, 0.0, 1.0, 1.0)
        if i + 1 < d:
            s = ext(i + 1)
            s = (s[0] + 1, s[1], s[2] + 1, s[3])
            b = (min(b[0], s[0]), min(b[1], s[1]), max(b[2], s[2]), max(b[3], s[3]))
        return b

    for i in range(d):
        b = vm.get_layer(LayerID(id="%main%" if i == 0 else f"l{i}")).box
        c.check(near((b.min_x, b.min_y, b.max_x, b.max_y), ext(i)), "layer is as large as the union of its contents", f"layer {i}: {b} instead of {ext(i)}")
    if have is not None:
        c.check(near((have.min_x, have.min_y, have.max_x, have.max_y), ext(0)), "box of the result")


# ------------------------------------------------------------------ text
def dump(n):
    if isinstance(n, list):
        return [dump(x) for x in n]
    if isinstance(n, N.Node):
        return (type(n).__name__, {k: dump(getattr(n, k)) for k in type(n).model_fields if k != "source_info"})
    return n


def long_text(c):
    n = size(c, "commands", [60, 300])
    d = size(c, "depth", [3, 8])
    f = ",".join(f"f{i}" for i in range(size(c, "fields", [9, 40])))
    ps = "X".join(str(i + 0.5) for i in range(size(c, "parameters", [12, 60])))
    vs = "".join(f"{i}.5,{i % 7}.25,\n" for i in range(size(c, "points", [12, 120])))
    cnt = vs.count("\n") + 2
    parts = ["G04 first*\n", "%FSLAX36Y36*%\n", "%MOMM*%\n", f"%TFabc,{f}*%\n", f"%TO.N,{f}*%\n",
             f"%AMm*\n4,1,{cnt},0,0,\n{vs}3,3,0,0,0*\n$1=" + "+".join(f"${i + 2}x{i}.5" for i in range(20)) + "*\n1,1,$1,0,0*\n%\n", f"%ADD10m,{ps}*%\n", "%ADD11C,1.5*%\n", "D11*\n"]
    parts += [f"X{i}Y{-i}D0{1 + i % 3}*\n" if i % 5 else f"G04 comment {i}*\n" for i in range(n)]
    parts += [f"%ABD{100 + i}*%\n" for i in range(d)] + ["X1Y2D03*\n", "G04 inside*\n"] + ["%AB*%\n"] * d + ["M02*"]
    return parts, n, d


@big("long texts", "texts of up to 300 commands, blocks nested up to depth 8, lists of up to 120 points and 40 fields", ["C20", "C14"], fns=["pygerber.gerber.parser.pyparsing.grammar.Grammar.build"])
def _(c):
    parts, n, d = long_text(c)
    ast = parse("".join(parts))
    kinds = [type(x).__name__ for x in ast.nodes]
    want = ["G04", "FS", "MO", "TF_UserName", "TO_N", "AM", "ADmacro", "ADC", "Dnn"] + [f"D0{1 + i % 3}" if i % 5 else "G04" for i in range(n)] + ["AB", "M02"]
    c.check(kinds == want, "every command is parsed, in order", f"{len(kinds)} instead of {len(want)} commands: {kinds[:12]}")
    for i, x in enumerate(ast.nodes[9:9 + n]):
        if i % 5:
            c.check(x.x is not None and x.x.value == str(i) and x.y.value == str(-i), "operands of every command", f"{i}: {x.x}")
        else:
            c.check(x.string.strip() == f"comment {i}", "comments are kept", x.string)
    for i, name in ((3, "fields"), (4, "net_names")):
        have = list(getattr(ast.nodes[i], name))
        c.check(have == parts[i].strip()[:-2].split(",")[1:], f"all {name} are read", f"{len(have)}")
    c.check(ast.nodes[6].params is not None and [float(p) for p in ast.nodes[6].params] == [i + 0.5 for i in range(parts[6].count("X") + 1)], "all parameters are read")
    b, k = ast.nodes[-2], 1
    while isinstance(b.nodes[0], N.AB):
        c.check(b.open.aperture_id == f"D{99 + k}", "nested block", b.open.aperture_id)
        b, k = b.nodes[0], k + 1
    c.check(k == d and [type(x).__name__ for x in b.nodes] == ["D03", "G04"], "blocks are nested as written", f"{k}")
    am = ast.nodes[5].primitives
    c.check(len(am) == 3 and len(am[0].points) == parts[5].count(",\n") + 1 and len(am[1].expression.tail) == 19, "all points and terms are read", f"{len(am)} {len(am[0].points)}")
    import io

    o = Options(**c.choice("options", [{}, {"macro_split_mode": "SplitOnParameters"}, {"d01_indent": 1}, {"block_aperture_body_indent": 3}]))
    out = io.StringIO()
    Formatter(o).format(ast, out)
    text = out.getvalue()
    back = parse(text)
    c.check(norm(dump(back.nodes)) == norm(dump(ast.nodes)), "formatted text is read back as the same commands")
    if o.block_aperture_body_indent:
        lines = [ln for ln in text.splitlines() if ln.strip()]
        level, got = 0, None
        for ln in lines:
            s = ln.strip()
            if s.startswith("%AB*"):
                level -= 1
            c.check(len(ln) - len(ln.lstrip()) >= 0 and (level == 0 or len(ln) - len(ln.lstrip()) == 3 * level), "commands of a block are indented by its nesting", f"{ln!r} at level {level}")
            if s.startswith("%ABD"):
                level += 1


def norm(x):
    if isinstance(x, dict):
        return {k: norm(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    if isinstance(x, str):
        return x.strip()
    return round(float(x), 6) if isinstance(x, (int, float)) and not isinstance(x, bool) else x


# ------------------------------------------------------------------ builder
@big("many pads", "builders with up to 130 pads, 30 custom pads and 40 trace widths", "C15", fns=["pygerber.builder.gerber.PadCreator._new_id", "pygerber.builder.gerber.PadCreator._new_macro_id"])
def _(c):
    from pygerber.builder.gerber import GerberX3Builder

    b = GerberX3Builder()
    n, m, w = size(c, "pads", [20, 95, 130]), size(c, "custom", [12, 30]), size(c, "widths", [12, 40])
    pads = [(b.new_pad().circle(i * 0.25 + 0.5), i * 0.25 + 0.5) for i in range(n)]
    for i in range(m):
        k = b.new_pad().custom()
        k.add_circle(100.0 + i, (0.0, 0.0))
        pads.append((k.create(), 100.0 + i))
    want = []
    for i, (p, d) in enumerate(reversed(pads)):
        b.add_pad(p, (float(i), 1.0))
        want.append((float(i), 1.0, d))
    for i in range(w):
        b.add_line_trace(200.0 + i, (float(i), 5.0), (float(i), 9.0))
        want.append((float(i), 7.0, 200.0 + i))
    code = b.get_code()
    nodes = code.raw.nodes
    ids = [x.aperture_id for x in nodes if isinstance(x, N.AD)]
    c.check(len(set(ids)) == len(ids), "every aperture is defined once under its own number", f"{len(ids)} definitions, {len(set(ids))} numbers")
    names = [x.open.name for x in nodes if isinstance(x, N.AM)]
    c.check(len(set(names)) == m, "every macro is defined once under its own name", f"{len(set(names))} of {m}")
    got = flat(painted(c, code.dumps()))
    discs = [(*middle(o), extent(o)[2] - extent(o)[0]) for o, _n in got if any(hasattr(s, "center") for s in o.commands)]
    for x, y, d in want[:n + m]:
        c.check(any(near(g, (x, y, d), 1e-4) for g in discs), "every pad is drawn as requested", f"{(x, y, d)}")
    boxes = [(*middle(o), extent(o)[2] - extent(o)[0]) for o, _n in got]
    for x, y, d in want[n + m:]:
        c.check(any(near(g, (x, y, d), 1e-4) for g in boxes), "every trace is drawn as requested", f"{(x, y, d)}")


# ------------------------------------------------------------------ traversal and diagnostics
@big("long lists", "every node type with lists of up to 70 elements", "C16", fns=["pygerber.gerber.ast.ast_visitor.AstVisitor.on_*"])
def _(c):
    from contracts.traversal import check_traversal

    n = size(c, "length", [9, 24, 70])
    for _name, cls in sorted(concrete_classes().items()):
        node = Builder(lambda k, seq: n if k.endswith("#") else seq[-1]).build(cls)
        check_traversal(c, node, "traversal")


@big("long files are linted", "files of up to 400 commands", "C17", fns=["pygerber.gerber.linter.linter.Linter.lint"])
def _(c):
    from pygerber.gerber.linter import lint

    n = size(c, "commands", [60, 400])
    t, want, line = "", [], 1
    mode = None
    for i in range(n):
        k = c.choice(f"k{i}", ["G01", "G02", "G54D10", "X1Y1D02", "G55X0Y0D03"])
        t += k + "*\n"
        if k in ("G01", "G02"):
            if mode == k:
                want.append((line, "GRB001"))
            mode = k
        line += 1
    got = [(v.line, v.rule_id) for v in lint(parse(t + "M02*"), rules=["GRB001"])]
    c.check(got == want, "every redundant command is reported once at its place", f"{len(got)} instead of {len(want)}")
    both = [v.line for v in lint(parse(t + "M02*"))]
    for i, k in enumerate(t.splitlines()):
        if k[:3] in ("G54", "G55"):
            c.check(i + 1 in both, "every deprecated command is reported", f"line {i + 1}")


@big("positions in long files", "files of up to 300 commands on one or many lines", "C17", fns=["pygerber.gerber.ast.node_finder.NodeFinder.find_node"])
def _(c):
    from pygerber.gerber.ast.node_finder import NodeFinder, ZeroBasedPosition

    n = size(c, "commands", [60, 300])
    per = c.choice("per line", [1, 7, 300])
    cmds = [f"G04 c{i}*" for i in range(n)]
    lines = ["".join(cmds[i:i + per]) for i in range(0, n, per)]
    ast = parse("\n".join(lines))
    for _k in range(60):
        i = c.rng.randrange(n)
        row, start = i // per, sum(len(x) for x in cmds[i // per * per:i])
        col = start + c.rng.randrange(1, len(cmds[i]) - 1)
        g = NodeFinder(ast).find_node(ZeroBasedPosition(line=row, column=col).to_one_based())
        c.check(g is not None and getattr(g, "string", "").strip() == f"c{i}", "the command at the position is found", f"{g} instead of c{i}")


# ------------------------------------------------------------------ API, command line and editor
@big("many files", "composite views of up to 20 files and job files of up to 30 inner layers", "C18", fns=["pygerber.gerber.api._composite_view.CompositeView.render_with_pillow", "pygerber.gerber.api._gerber_job_file.GerberJobFile.to_project"])
def _(c):
    import pathlib
    import shutil
    import tempfile

    from contracts.api import job
    from pygerber.gerber.api import CompositeView, GerberFile
    from pygerber.gerber.api._gerber_job_file import GerberJobFile

    n = size(c, "files", [9, 20])
    fs = [GerberFile.from_str(HEAD + f"%ADD10R,2X2*%D10*X{mm(3.0 * i)}Y{mm(i % 2)}D03*M02*") for i in range(n)]
    im = CompositeView(fs).render_with_pillow(dpmm=4).get_image()
    fits = near(im.size, ((3 * n - 1) * 4, 12), 3)
    c.check(fits, "canvas covers all images", f"{im.size}")
    for i in range(n if fits else 0):
        g = im.getpixel((int((3.0 * i + 1) * 4), int((1 - i % 2 + 1) * 4)))
        c.check(g[3] > 0, "every file is part of the image", f"file {i}: {g}")
    k = size(c, "layers", [12, 30])
    order = list(range(2, k + 2))
    c.rng.shuffle(order)
    d = pathlib.Path(tempfile.mkdtemp(prefix="pyvc"))
    try:
        for i in order:
            (d / f"f{i}").write_text(f"G04 {i}*M02*")
        v = GerberJobFile.model_validate(job([(f"f{i}", f"Copper,L{i},Inr") for i in order])).to_project(path=d / "j.gbrjob").inner
    finally:
        shutil.rmtree(d)
    got = [[f.source_code.split()[1].split("*")[0] for f in x.files] for x in v]
    c.check(got == [[str(i)] for i in sorted(order)], "inner views in the order of layer numbers", f"{got[:4]}")


@big("many files on the command line", "up to 20 files in one command", "C19", fns=["pygerber.console.gerber.lint"], samples=1)
def _(c):
    from click.testing import CliRunner

    from contracts.cli import main, scratch
    from pygerber.gerber.linter import lint

    n = size(c, "files", [12, 20])
    with scratch() as d:
        fs = []
        for i in range(n):
            fs.append(d.resolve() / f"f{n - i}.gbr")
            fs[-1].write_text(HEAD + f"%ADD10R,{i + 1}X1*%\n" + "G54D10*\nG01*\n" * (i + 1) + "X0Y0D03*M02*")
        r = CliRunner().invoke(main, ["gerber", "lint", *map(str, fs)])
        want = [f"{p.as_posix()}:{v.line}:{v.column} {v.rule_id}: {v.title}" for p in fs for v in lint(parse(p.read_text()))]
        c.check(r.exit_code == 0 and r.output.splitlines() == want, "violations of all files in order", f"{len(r.output.splitlines())} instead of {len(want)}")
        from contracts.cli import recorded, run

        with recorded() as (calls, _log):
            run(c, ["gerber", "merge-convert", "png"], ["-o", "o.png", *map(str, fs)])
            c.check([f.source_code for f in calls[0][0].files] == [p.read_text() for p in fs], "all files in the given order")


@big("long documents", "documents with up to 150 apertures, blocks and several hundred lines", "C21", fns=["pygerber.gerber.language_server._server.documents.gerber.GerberDocument.get_completion_apertures"])
def _(c):
    from contracts.editor import AVAILABLE, L, ask, document

    if not AVAILABLE:
        return
    n, m = size(c, "apertures", [60, 150]), size(c, "blocks", [1, 12])
    ops = size(c, "operations", [60, 300])
    t = HEAD + "".join(f"%ADD{10 + i}C,{i + 1}*%\n" for i in range(n)) + "".join(f"%ABD{500 + i}*%\nD10*\n%AB*%\n" for i in range(m))
    t += "D10*\n" + "".join(f"X{mm(i)}Y{mm(-i)}D03*\n" for i in range(ops))
    d = document(t + "D")
    last = t.count("\n")
    r = ask(d.on_completion(L.CompletionParams(text_document=L.TextDocumentIdentifier(uri="x"), position=L.Position(line=last, character=0))))
    want = {f"D{10 + i}" for i in range(n)} | {f"D{500 + i}" for i in range(m)}
    have = [x.label for x in r.items] if r is not None else []
    c.check(len(have) == len(want) and set(have) == want, "exactly the apertures and blocks of the document are offered", f"{len(have)} instead of {len(want)}")
    i = c.choice("line", [1, ops // 2, ops - 1])
    h = ask(d.on_hover(L.HoverParams(text_document=L.TextDocumentIdentifier(uri="x"), position=L.Position(line=last - ops + i, character=1))))
    c.check(h is not None and mm(i) in h.contents.value and h.range.start.line == last - ops + i, "hover shows the command at the position", f"line {i}")
    d = document(t + "%")
    r = ask(d.on_completion(L.CompletionParams(text_document=L.TextDocumentIdentifier(uri="x"), position=L.Position(line=last, character=0))))
    import re

    codes = {re.match(r"ADD(\d+)", x.label).group(1) for x in r.items if x.label.startswith("ADD")} if r is not None else set()
    c.check(len(codes) == 1 and f"D{min(codes)}" not in want, "new definitions under a code that is not in use", f"{codes}")
