"""Raster renderer: coordinates to pixels, layers, polarity, colours."""
import io

from pyvc.registry import contract

import pygerber.vm.pillow.vm as pv
from pygerber.vm.commands import EndLayer, PasteLayer, Shape, StartLayer
from pygerber.vm.commands.shape_segments import Line
from pygerber.vm.rvmc import RVMC
from pygerber.vm.types import Box, LayerID, Style, Vector
from pygerber.vm.types.color import Color

P = "pygerber.vm.pillow.vm."
VMC = P + "PillowVirtualMachine."


# ------------------------------------------------------------------ recorder (symbolic runs)
class Strict:
    """Stand-in for a library object: what it does not know is out of reach, not an error."""

    def __init__(self, c):
        self._c = c

    def __getattr__(self, n):
        raise self._c.S.Unsupported(f"drawing library: {n}")


class FakeImage(Strict):
    def __init__(self, c, mode, size, color, base=None, ops=()):
        super().__init__(c)
        self.mode, self.size, self.color, self.base, self.ops, self.log = mode, size, color, base, ops, []
        self.width, self.height = size

    def _op(self, *op):
        return FakeImage(self._c, self.mode, self.size, self.color, self.base or self, (*self.ops, op))

    def convert(self, mode):
        return self._op("convert", mode)

    def transpose(self, how):
        return self._op("transpose", str(how))

    def copy(self):
        return self

    def paste(self, im, box=None, mask=None):
        self.log.append(("paste", im, box, mask))

    def effect(self):
        """Operations other than conversions."""
        return [o for o in self.ops if o[0] != "convert"]


def library(c):
    from PIL import Image as RealImage

    img = Strict(c)
    img.new = lambda mode, size, color=0: FakeImage(c, mode, size, color)
    img.Transpose = RealImage.Transpose
    img.Image = FakeImage
    draw = Strict(c)

    def Draw(im, *a, **k):
        d = Strict(c)
        d.polygon = lambda pts, fill=None, outline=None, width=1: im.log.append(("polygon", list(pts), fill))
        return d

    draw.Draw = Draw
    ops = Strict(c)
    ops.invert = lambda im: im._op("invert")
    ops.flip = lambda im: im._op("transpose", str(RealImage.Transpose.FLIP_TOP_BOTTOM))
    for n, v in (("Image", img), ("ImageDraw", draw), ("ImageOps", ops)):
        if n in vars(pv):
            c.stub(pv, n, v)


def trunc(c, v):
    if not c.sym:
        return int(v)
    from pyvc.hook import c_int

    return c_int(v)


def box_of(c, name, lo=None):
    b = tuple(c.real(f"{name}.{k}", -9, 9) for k in ("x0", "y0", "x1", "y1"))
    c.assume(c.And(b[0] < b[2], b[1] < b[3]))
    return b


def mk(b):
    return Box(min_x=b[0], min_y=b[1], max_x=b[2], max_y=b[3])


def tri(c, name, neg, k=3):
    ps = [c.vec(f"{name}{i}", -9, 9) for i in range(k)]
    return ps, Shape(commands=[Line(start=ps[i], end=ps[(i + 1) % k]) for i in range(k)], is_negative=neg)


def pixel_pts(c, ps, b, dp):
    return [(trunc(c, (p.x - b[0]) * dp), trunc(c, (p.y - b[1]) * dp)) for p in ps]


def same_pixels(c, got, want, label):
    """Cyclic polygon, repeated points dropped."""
    out = []
    for p in got:
        if not out or not (holds_eq(c, p, out[-1])):
            out.append(p)
    while len(out) > 1 and holds_eq(c, out[0], out[-1]):
        out.pop()
    c.check(len(out) == len(want), f"{label}: number of corners", f"{out} instead of {want}")
    if len(out) != len(want):
        raise c._end()
    for g, w in zip(out, want):
        c.check(c.And(c.near(g[0], w[0]), c.near(g[1], w[1])), label)


def holds_eq(c, a, b):
    from pyvc.spec import holds

    return holds(c, c.And(c.near(a[0], b[0]), c.near(a[1], b[1])))


def drawn(im):
    return [o for o in im.log]


@contract("C12", "shapes are drawn at their pixels", fns=[VMC + n for n in ("on_shape_eager", "_polygon", "to_pixel", "get_color", "create_eager_layer", "run")] + [P + "PillowEagerLayer.__init__", P + "PillowEagerLayer.to_pixel"], weight=2)
def _(c):
    if not c.sym:
        return concrete(c)
    library(c)
    dp = c.int("dpmm", 1, 200)
    b = box_of(c, "b")
    vm = pv.PillowVirtualMachine(dp)
    main = LayerID(id="%main%")
    StartLayer(id=main, box=mk(b)).visit(vm)
    shapes = []
    for i in range(c.choice("shapes", [1, 2])):
        neg = c.bool(f"clear {i}")
        ps, sh = tri(c, f"p{i}", neg) if i == 0 else (shapes[0][0], Shape(commands=shapes0[0], is_negative=neg))
        shapes0 = [sh.commands]
        for p in ps if i == 0 else ():
            c.assume(c.And(b[0] <= p.x, b[1] <= p.y))
        shapes.append((ps, neg))
        sh.visit(vm)
    EndLayer().visit(vm)
    im = vm.get_layer(main).image
    c.check(im.mode == "1" and im.color == 0, "layer starts blank")
    c.eq(im.size[0], trunc(c, (b[2] - b[0]) * dp), "width in pixels")
    c.eq(im.size[1], trunc(c, (b[3] - b[1]) * dp), "height in pixels")
    ops = drawn(im)
    c.check([o[0] for o in ops] == ["polygon"] * len(shapes), "every shape is drawn once", str([o[0] for o in ops]))
    for o, (ps, neg) in zip(ops, shapes):
        c.check(o[2] == (0 if neg else 1), "dark shapes set pixels, clear ones erase them", str(o[2]))
        pix = pixel_pts(c, ps, b, dp)
        raw = o[1]
        idx = [0, 1, 2]
        if len(raw) == 4:
            c.check(c.And(c.near(raw[0][0], raw[3][0]), c.near(raw[0][1], raw[3][1])), "outline is closed")
            raw = raw[:3]
        c.check(len(raw) == 3, "corners of the shape", str(len(raw)))
        if len(raw) != 3:
            raise c._end()
        for g, w in zip(raw, pix):
            c.eq(g[0], w[0], "x in pixels relative to the left side of the layer")
            c.eq(g[1], w[1], "y in pixels relative to the lower side of the layer")
    r = vm.run(RVMC(commands=[]))
    if r.image is not None and r.image.base is not None:
        c.check(r.image.base is im and [o[0] for o in r.image.effect()] == ["transpose"] and "FLIP_TOP_BOTTOM" in r.image.effect()[0][1] or str(r.image.effect()) == "[('transpose', '1')]",
                "result is the main layer with the y axis pointing up", str(r.image.ops))
    else:
        c.check(c.Or(c.near(im.size[0], 0), c.near(im.size[1], 0)), "only an image without pixels is replaced by a blank one")
    for k, g, w in zip("0123", (r.main_box.min_x, r.main_box.min_y, r.main_box.max_x, r.main_box.max_y), b):
        c.eq(g, w, "box of the result")


@contract("C12", "layers are pasted at their pixels", fns=[VMC + n for n in ("on_paste_layer_eager", "to_pixel")], weight=2)
def _(c):
    if not c.sym:
        return concrete(c)
    library(c)
    dp = c.int("dpmm", 1, 200)
    b, s = box_of(c, "b"), box_of(c, "s")
    o, p, neg = c.vec("o"), c.vec("p"), c.bool("clear")
    c.assume(c.And(p.x - o.x + s[0] >= b[0], p.y - o.y + s[1] >= b[1]))
    vm = pv.PillowVirtualMachine(dp)
    main, src, empty = (LayerID(id=x) for x in ("%main%", "src", "empty"))
    StartLayer(id=src, box=mk(s), origin=o).visit(vm)
    EndLayer().visit(vm)
    StartLayer(id=empty).visit(vm)
    EndLayer().visit(vm)
    StartLayer(id=main, box=mk(b)).visit(vm)
    PasteLayer(source_layer_id=empty, center=p, is_negative=neg).visit(vm)
    PasteLayer(source_layer_id=src, center=p, is_negative=neg).visit(vm)
    EndLayer().visit(vm)
    im, sim = vm.get_layer(main).image, vm.get_layer(src).image
    c.check(len(im.log) == 1 and im.log[0][0] == "paste", "layer is pasted once, empty layers not at all", str(im.log))
    if len(im.log) != 1:
        raise c._end()
    _, what, at, mask = im.log[0]
    c.check(mask is sim, "only pixels of the pasted layer are affected")
    c.check((what.base or what) is sim and [x[0] for x in what.effect()] == (["invert"] if neg else []), "dark pastes set pixels, clear ones erase them", str(what.ops))
    c.eq(at[0], trunc(c, (p.x - o.x + s[0] - b[0]) * dp), "x of the pasted layer in pixels")
    c.eq(at[1], trunc(c, (p.y - o.y + s[1] - b[1]) * dp), "y of the pasted layer in pixels")
    c.check(len(sim.log) == 0, "pasted layer stays as it is")


# ------------------------------------------------------------------ real images (run-time check)
def q(c, name, lo=-6, hi=6):
    return c.int(name, lo * 4, hi * 4) / 4


def qvec(c, name):
    return Vector(x=q(c, name + ".x"), y=q(c, name + ".y"))


def concrete(c):
    """A program of two layers drawn with the real library, compared with an independent composition."""
    import numpy as np
    from PIL import Image, ImageDraw

    dp = c.choice("dpmm", [4, 8, 20])
    cmds, ref = [], {}
    for name in ("src", "mid", "%main%"):
        auto = c.bool(f"{name} auto")
        o = qvec(c, name + ".o") if name != "%main%" else Vector(x=0, y=0)
        ops = []
        for i in range(c.choice(f"{name} n", [0, 1, 2, 3])):
            neg = c.bool(f"{name} {i} clear")
            if name != "src" and c.bool(f"{name} {i} paste"):
                srcs = [k for k in ref]
                ops.append(("paste", c.choice(f"{name} {i} from", srcs), qvec(c, f"{name}{i}.p"), neg))
            else:
                ops.append(("shape", [qvec(c, f"{name}{i}.{k}") for k in range(c.choice(f"{name} {i} k", [3, 4]))], neg))
        boxes = []
        for x in ops:
            if x[0] == "shape":
                boxes.append((min(p.x for p in x[1]), min(p.y for p in x[1]), max(p.x for p in x[1]), max(p.y for p in x[1])))
            elif ref[x[1]][0] is not None:
                bb, oo = ref[x[1]][0], ref[x[1]][1]
                d = (x[2].x - oo.x, x[2].y - oo.y)
                boxes.append((bb[0] + d[0], bb[1] + d[1], bb[2] + d[0], bb[3] + d[1]))
        if auto:
            box = (min(v[0] for v in boxes), min(v[1] for v in boxes), max(v[2] for v in boxes), max(v[3] for v in boxes)) if boxes else None
        else:
            # fixed boxes contain everything drawn to them: what lies outside is not specified
            vals = boxes + [(-1.0, -2.0, 3.0, 1.0)]
            g = c.int(f"{name} grow", 0, 8) / 4
            box = (min(v[0] for v in vals) - g, min(v[1] for v in vals), max(v[2] for v in vals) + g, max(v[3] for v in vals))
        cmds.append(StartLayer(id=LayerID(id=name), box=None if auto else mk(box), origin=o))
        arr = None
        if box is not None:
            size = (int((box[2] - box[0]) * dp), int((box[3] - box[1]) * dp))
            im = Image.new("1", size, 0)
            for x in ops:
                if x[0] == "shape":
                    if 0 not in size:
                        ImageDraw.Draw(im).polygon([(int((p.x - box[0]) * dp), int((p.y - box[1]) * dp)) for p in [*x[1], x[1][0]]], fill=0 if x[2] else 1, width=0)
                elif ref[x[1]][0] is not None and 0 not in size:
                    sb, so, simg = ref[x[1]]
                    at = (int((x[2].x - so.x + sb[0] - box[0]) * dp), int((x[2].y - so.y + sb[1] - box[1]) * dp))
                    a, s = np.array(im), np.array(simg)
                    for yy in range(s.shape[0] if s.ndim == 2 else 0):
                        for xx in np.nonzero(s[yy])[0] if s.shape[1] else ():
                            if 0 <= at[1] + yy < a.shape[0] and 0 <= at[0] + xx < a.shape[1]:
                                a[at[1] + yy, at[0] + xx] = not x[3]
                    im = Image.fromarray(a)
            arr = im
        ref[name] = (box, o, arr)
        for x in ops:
            if x[0] == "shape":
                n = len(x[1])
                cmds.append(Shape(commands=[Line(start=x[1][i], end=x[1][(i + 1) % n]) for i in range(n)], is_negative=x[2]))
            else:
                cmds.append(PasteLayer(source_layer_id=LayerID(id=x[1]), center=x[2], is_negative=x[3]))
        cmds.append(EndLayer())
    r = pv.PillowVirtualMachine(dp).run(RVMC(commands=cmds))
    box, _o, im = ref["%main%"]
    if im is None or 0 in im.size:
        c.check(r.image.size == (1, 1) and not np.array(r.image).any(), "image without contents is blank")
        return
    want = np.array(im)[::-1]
    got = np.array(r.image)
    c.check(got.shape == want.shape, "size of the image", f"{got.shape} instead of {want.shape}")
    c.check(bool((got == want).all()), "pixels of the image", f"{int((got != want).sum())} of {want.size} pixels differ")
    b = r.main_box
    c.check((b.min_x, b.min_y, b.max_x, b.max_y) == box, "box of the result")
    colours(c, r, got)


def colours(c, r, mask):
    import numpy as np
    from PIL import Image

    col = lambda n: Color.from_rgba(*[c.int(f"{n}{k}", 0, 255) for k in range(4)])  # noqa: E731
    st = Style(foreground=col("fg"), background=col("bg"))
    if c.bool("shown before"):
        r.get_image()
        r.get_image(Style(foreground=col("fg2"), background=col("bg2")))
    img = np.array(r.get_image(st))
    fg, bg = st.foreground.as_rgba_int(), st.background.as_rgba_int()
    want = np.where(np.asarray(mask)[..., None], np.array(fg, dtype=np.uint8), np.array(bg, dtype=np.uint8))
    c.check(img.shape == want.shape and bool((img == want).all()), "foreground where something is drawn, background elsewhere")
    fmt = c.choice("format", ["png", "PNG", "bmp", "tiff"])
    buf = io.BytesIO()
    r.save(buf, fmt, st)
    back = Image.open(io.BytesIO(buf.getvalue()))
    c.check(back.format == fmt.upper(), "file has the requested format", str(back.format))
    back = np.array(back.convert("RGBA"))
    k = 3 if fmt == "bmp" else 4
    c.check(back.shape[:2] == want.shape[:2] and bool((back[..., :k] == want[..., :k]).all()), "file contains the image in the colours of the style")


@contract("C12", "colours", fns=["pygerber.vm.types.color.Color." + n for n in ("from_rgba", "from_hex", "as_rgba_int", "to_hex", "as_rgb_int")] + [P + "PillowResult.get_image", P + "PillowResult.save"], bounded=True)
def _(c):
    v = [c.int(k, 0, 255) for k in "rgba"]
    col = Color.from_rgba(*v)
    c.check(tuple(col.as_rgba_int()) == tuple(v), "colour channels", str(col.as_rgba_int()))
    c.check(tuple(col.as_rgb_int()) == tuple(v[:3]), "colour channels without alpha")
    h = "#" + "".join(f"{x:02x}" for x in v)
    c.check(col.to_hex().lower() == h, "colour as hexadecimal text", col.to_hex())
    c.check(tuple(Color.from_hex(h).as_rgba_int()) == tuple(v), "colour from hexadecimal text")
    c.check(tuple(Color.from_hex(h[:7]).as_rgba_int()) == (*v[:3], 255), "colour without alpha is opaque")


@contract("C12", "colours given by hue, saturation and value", fns=["pygerber.vm.types.color.Color.from_hsv"],
          note="channels against v - v*s*max(0, min(k, 4-k, 1)) with k = (n + h/60) mod 6, rounded")
def _(c):
    h, s, v = c.real("h", 0, 360), c.real("s", 0, 100), c.real("v", 0, 100)
    a = c.choice("alpha", [None, 0, 7, 255])
    col = Color.from_hsv(h, s, v) if a is None else Color.from_hsv(h, s, v, a)
    c.check(col.alpha == (255 if a is None else a), "alpha is kept")
    for got, n in ((col.red, 5), (col.green, 3), (col.blue, 1)):
        k = n + h / 60
        k = c.If(k >= 6, k - 6, k)
        f = c.max(c.const(0.0), c.min(k, 4 - k, c.const(1.0)))
        d = got - 255 * (v / 100 - v / 100 * s / 100 * f)
        c.check(c.And(d <= 0.5 + (0 if c.sym else 1e-9), d >= -0.5 - (0 if c.sym else 1e-9)), "channel of the colour", repr(d))


@contract("C12", "missing and empty main layer", fns=[VMC + "run"], bounded=True, samples=20, note="bounded: listed empty programs")
def _(c):
    from PIL import Image

    strict = c.bool("fail on empty layer")
    how = c.choice("program", ["nothing", "empty layer", "layer without width", "layer without height"])
    vm = pv.PillowVirtualMachine(c.choice("dpmm", [1, 20, 77]), fail_on_empty_auto_sized_layer=strict)
    box = {"layer without width": Box(min_x=2, min_y=0, max_x=2, max_y=3), "layer without height": Box(min_x=2, min_y=1, max_x=5, max_y=1)}.get(how)
    cmds = [] if how == "nothing" else [StartLayer(id=LayerID(id="%main%"), box=box), EndLayer()]
    r, e = c.calls(lambda: vm.run(RVMC(commands=cmds)))
    if strict and box is None:
        c.check(e is not None, "empty program is an error on request", repr(r))
        return
    c.check(e is None, "empty programs are rendered", repr(e))
    if e is not None:
        raise c._end()
    bg = (1, 2, 3, 4)
    img = r.get_image(Style(foreground=Color.from_rgba(200, 201, 202, 203), background=Color.from_rgba(*bg)))
    c.check(img.convert("RGBA").getextrema() == Image.new("RGBA", (1, 1), bg).getextrema(), "empty program gives an empty image", str(img.getextrema()))
