"""RVMC builder: the commands are the layers and shapes that were requested."""
from pyvc.registry import contract
from pyvc.spec import check_outline, is_disc

from contracts.shapes import check_regular_polygon, obround_edges, rect_edges, thick_line_edges

from pygerber.builder.rvmc import LayerBuilder, LockedBuilderError, RvmcBuilder
from pygerber.vm.commands import EndLayer, PasteLayer, Shape, StartLayer
from pygerber.vm.types.box import Box
from pygerber.vm.types.vector import Vector

R = "pygerber.builder.rvmc."
KINDS = ["circle", "rectangle", "obround", "polygon", "line", "cross", "x"]


def request(c, layer, kind, name, neg=None):
    """Call the builder; returns the list of checks for the shapes it has to add, in any order."""
    neg = c.bool(name + ".negative") if neg is None else neg
    r = lambda k: c.real(f"{name}.{k}", 0.01, 90)  # noqa: E731
    x, y = c.real(name + ".x", -90, 90), c.real(name + ".y", -90, 90)
    at = (x, y)
    lab = f"{kind} drawn as requested"
    if kind == "circle":
        d = r("d")
        layer.circle(at, d, is_negative=neg)
        want = [lambda s: is_disc(c, s, at, d / 2, lab)]
    elif kind == "rectangle":
        w, h = r("w"), r("h")
        layer.rectangle(at, w, h, is_negative=neg)
        want = [lambda s: check_outline(c, s, rect_edges(x, y, w, h), lab)]
    elif kind == "obround":
        w, h = r("w"), r("h")
        c.assume(w != h)
        layer.obround(at, w, h, is_negative=neg)
        want = [lambda s: check_outline(c, s, obround_edges(c, x, y, w, h), lab)]
    elif kind == "polygon":
        d, rot, n = r("d"), c.real(name + ".rot", 0, 359), c.choice(name + ".n", [3, 5] if c.sym else range(3, 13))
        layer.polygon(at, d, n, rot, is_negative=neg)
        want = [lambda s: check_regular_polygon(c, s, x, y, d, n, rot, lab)]
    elif kind == "line":
        e, t = (c.real(name + ".ex", -90, 90), c.real(name + ".ey", -90, 90)), r("t")
        c.assume(c.Or(e[0] != x, e[1] != y))
        layer.line(at, e, t, is_negative=neg)
        want = [lambda s: check_outline(c, s, thick_line_edges(c, at, e, t), lab)]
    elif kind == "cross":
        w, h, t = r("w"), r("h"), r("t")
        layer.cross(at, w, h, t, is_negative=neg)
        want = [lambda s: check_outline(c, s, rect_edges(x, y, w, t), lab + ": bar along x"), lambda s: check_outline(c, s, rect_edges(x, y, t, h), lab + ": bar along y")]
    else:
        n, t = r("length"), r("t")
        layer.x(at, n, t, is_negative=neg)
        k = n / 2
        want = [lambda s: check_outline(c, s, thick_line_edges(c, (x - k, y - k), (x + k, y + k), t), lab + ": rising bar"),
                lambda s: check_outline(c, s, thick_line_edges(c, (x - k, y + k), (x + k, y - k), t), lab + ": falling bar")]
    return [("shape", neg, f) for f in want]


@contract("C15", "layer builder adds the requested shapes", fns=[R + "LayerBuilder." + k for k in KINDS] + [R + "LayerBuilder.__init__", R + "LayerBuilder.finalize"], samples=80)
def _(c):
    b = RvmcBuilder()
    kind = c.choice("kind", KINDS)
    with b.layer() as layer:
        want = request(c, layer, kind, "s")
    late = c.choice("late", KINDS if not c.sym or kind == KINDS[0] else [kind])
    _r, e = c.calls(lambda: request(c, layer, late, "late"))
    c.check(e is not None, f"a finished layer takes no more shapes: {late}")
    verify(c, b.get_rvmc().commands, [("main", None, (0.0, 0.0), want)])


def verify(c, cmds, want):
    """want: layers in the order of completion: (id, box, origin, commands)."""
    stack, done = [], []
    for m in cmds:
        if isinstance(m, StartLayer):
            stack.append((m.id.id, m.box, m.origin, []))
        elif isinstance(m, EndLayer):
            c.check(bool(stack), "layers are bracketed")
            done.append(stack.pop())
        else:
            c.check(bool(stack), "commands belong to a layer")
            if isinstance(m, PasteLayer):
                c.check(m.source_layer_id.id in [d[0] for d in done], "pasted layers are complete", m.source_layer_id.id)
            stack[-1][3].append(m)
    c.check(not stack, "layers are closed")
    from pygerber.vm.vm import VirtualMachine

    main = VirtualMachine.MAIN_LAYER_ID.id
    names = [main if w[0] == "main" else w[0] for w in want]
    c.check([d[0] for d in done] == names, "the requested layers", f"{[d[0] for d in done]} instead of {names}")
    for (_i, box, origin, have), (_n, wbox, worigin, ops) in zip(done, want):
        c.check((box is None) == (wbox is None), "layer has the requested size")
        if box is not None and wbox is not None:
            c.check(c.And(*[g == w for g, w in zip((box.min_x, box.min_y, box.max_x, box.max_y), wbox)]), "layer has the requested size")
        c.check(c.And(origin.x == worigin[0], origin.y == worigin[1]), "layer has the requested origin")
        c.check(len(have) == len(ops), "every requested operation and nothing else", f"{len(have)} instead of {len(ops)}")
        i = 0
        while i < len(ops):
            g, w = have[i], ops[i]
            if w[0] == "paste":
                c.check(isinstance(g, PasteLayer), "operations in the requested order")
                c.check(g.source_layer_id.id == w[1], "requested layer is pasted")
                c.check(c.And(g.center.x == w[2][0], g.center.y == w[2][1]), "layer is pasted at the requested place")
                c.check(g.is_negative is w[3], "layer is pasted with the requested polarity")
            else:
                c.check(isinstance(g, Shape), "operations in the requested order")
                c.check(g.is_negative is w[1], "shape has the requested polarity")
                w[2](g)
            i += 1


@contract("C15", "layers are recorded as nested", fns=[R + "RvmcBuilder.layer", R + "RvmcBuilder.get_rvmc", R + "LayerBuilder.layer", R + "LayerBuilder.paste", R + "LayerBuilder._check_not_finalized_in_add"], samples=120, note="up to two levels, two layers a level")
def _(c):
    b = RvmcBuilder()
    done, ids = [], iter(range(9))
    finished = []

    def spec(name):
        box = worigin = origin = wbox = None
        given = c.bool(name + " given") if c.sym else None
        if given or not c.sym and c.bool(name + " box"):
            wbox = (c.real(name + ".x0", -9, 0), c.real(name + ".y0", -9, 0), c.real(name + ".x1", 1, 9), c.real(name + ".y1", 1, 9))
            box = Box(min_x=wbox[0], min_y=wbox[1], max_x=wbox[2], max_y=wbox[3])
        if given or not c.sym and c.bool(name + " origin"):
            origin = worigin = (c.real(name + ".ox", -9, 9), c.real(name + ".oy", -9, 9))
        return box, origin, wbox, worigin or (0.0, 0.0)

    def use(layer, ops, name):
        k = c.choice(name + " op", ["none", "circle", "paste"] if finished else ["none", "circle"])
        if k == "circle":
            ops += request(c, layer, "circle", name, name.endswith("before") if c.sym else None)
        elif k == "paste":
            i, src = c.choice(name + " source", finished)
            at, neg = (c.real(name + ".px", -9, 9), c.real(name + ".py", -9, 9)), (c.bool(name + ".pneg") if not c.sym or name == "main.after0" else True)
            layer.paste(src, at, is_negative=neg)
            ops.append(("paste", i, at, neg))

    def body(layer, ops, name, depth):
        if not (c.sym and depth == 2):
            use(layer, ops, name + ".before")
        if depth < 2 and c.bool(name + " nested"):
            for k in range(c.choice(name + " count", [1, 2] if depth == 0 and not c.sym else [1])):
                i = f"D1{next(ids)}"
                box, origin, wbox, worigin = spec(i) if depth == 0 else (None, None, None, (0.0, 0.0))
                sub = []
                with layer.layer(i, box, origin) as inner:
                    body(inner, sub, i, depth + 1)
                    if c.sym and depth == 0 or c.bool(i + " second child at once"):
                        def clash():
                            with layer.layer("other"):
                                pass
                        c.check(c.calls(clash)[1] is not None, "one nested layer at a time")
                done.append((i, wbox, worigin, sub))
                finished.append((i, inner))
                for what, f in {"shape": lambda: inner.circle((0.0, 0.0), 1.0, is_negative=False), "layer": lambda: inner.layer("late").__enter__(), "paste": lambda: inner.paste(inner, (0.0, 0.0), is_negative=False)}.items():
                    c.check(c.calls(f)[1] is not None, f"finished layers are not changed: {what}")
                use(layer, ops, f"{name}.after{k}")

    box, origin, wbox, worigin = spec("main")
    ops = []
    with b.layer(box, origin) as layer:
        body(layer, ops, "main", 0)
    done.append(("main", wbox, worigin, ops))
    verify(c, b.get_rvmc().commands, done)
    n = len(b.get_rvmc().commands)

    def late():
        with b.layer() as again:
            again.circle((0.0, 0.0), 1.0, is_negative=False)

    e = c.calls(late)[1]
    c.check(isinstance(e, LockedBuilderError), "a builder that produced its code takes no more layers", repr(e))
    c.check(len(b.get_rvmc().commands) == n, "rejected layers add nothing")

    b2 = RvmcBuilder()

    def early():
        with b2.layer():
            b2.get_rvmc()

    e = c.calls(early)[1]
    c.check(isinstance(e, LockedBuilderError), "the code can not be taken while a layer is open", repr(e))
