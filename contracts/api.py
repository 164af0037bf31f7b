"""High level API: image space, file types, colours, composite views, job files."""
import io
import itertools
import pathlib
import shutil
import tempfile

from pyvc.registry import contract

from pygerber.gerber.api import (
    DEFAULT_ALPHA_COLOR_MAP,
    DEFAULT_COLOR_MAP,
    Color,
    CompositeView,
    FileTypeEnum,
    GerberFile,
    GerberJobFile,
    ImageSpace,
    PathToGerberJobProjectNotDefinedError,
    PillowImage,
    Style,
    Units,
)
from pygerber.gerber.ast.nodes.enums import FileFunction, UnitMode
from pygerber.vm.types.box import Box

A = "pygerber.gerber.api."
T = FileTypeEnum


def trunc(c, v):
    return c.to_int(v) if c.sym else int(v)


def box(c, name):
    x0, y0 = c.real(name + ".x0", -400, 400), c.real(name + ".y0", -400, 400)
    w, h = c.real(name + ".w", 0, 400), c.real(name + ".h", 0, 400)
    return x0, y0, x0 + w, y0 + h


@contract("C18", "image space is the exact conversion of the box", fns=[A + "_gerber_file.ImageSpace." + n for n in ("__init__", "units", "dpmm", "min_x", "min_x_mm", "min_x_pixels", "width_mm", "height_mm", "center_x_mm", "center_y_mm")])
def _(c):
    unit = c.choice("unit", [UnitMode.METRIC, UnitMode.IMPERIAL])
    k = 1 if unit is UnitMode.METRIC else 25.4
    x0, y0, x1, y1 = box(c, "b")
    d = c.int("dpmm", 1, 2000)
    s = ImageSpace(units=unit, box=Box(min_x=x0, min_y=y0, max_x=x1, max_y=y1), dpmm=d)
    c.check(s.units is (Units.Millimeters if unit is UnitMode.METRIC else Units.Inches), "units of the file")
    c.check(s.dpmm == d, "resolution kept")
    for n, v in (("min_x", x0), ("min_y", y0), ("max_x", x1), ("max_y", y1)):
        c.check(c.near(getattr(s, n), v), f"{n} of the box in file units")
        c.check(c.near(getattr(s, n + "_mm"), v * k), f"{n} in millimetres")
        p = getattr(s, n + "_pixels")
        c.check(c.And(p <= v * k * d + 1.0001, v * k * d - 1.0001 <= p), f"{n} in pixels", "" if c.sym else f"{p} instead of {v * k * d}")
    for n, v in (("width_mm", (x1 - x0) * k), ("height_mm", (y1 - y0) * k), ("center_x_mm", (x0 + x1) * k / 2), ("center_y_mm", (y0 + y1) * k / 2)):
        c.check(c.near(getattr(s, n), v), f"{n} of the box")


# ------------------------------------------------------------------ composite views
class Picture:
    """Stands for an image of the imaging library: what is created and pasted is recorded."""

    def __init__(self, name):
        self.name, self.pasted = name, []

    def getchannel(self, ch):
        p = Picture(self.name)
        p.channel = (self, ch)
        return p

    def paste(self, im, at=None, mask=None):
        self.pasted.append((im, at, mask))


class Space(ImageSpace):
    """Image space by its contract."""

    def __init__(self, c, i, unit, b, dpmm):
        k = 1 if unit is UnitMode.METRIC else 25.4
        self._units, self._dpmm = Units(unit.value), dpmm
        for n, v in zip(("min_x", "min_y", "max_x", "max_y"), b):
            p = c.int(f"{n}.{i}.px", -10**6, 10**6)
            c.assume(c.And(p - 1 < v * k * dpmm, v * k * dpmm < p + 1))
            setattr(self, "_" + n, v)
            self.__dict__[n + "_mm"] = v * k
            self.__dict__[n + "_pixels"] = p


class StandFile:
    """Stands for a Gerber file with the given image space."""

    def __init__(self, space, image):
        self.space, self.image = space, image

    def render_with_pillow(self, style=None, dpmm=20):
        self.dpmm = dpmm
        return PillowImage(self.space(dpmm), self.image)


@contract("C18", "composite view places every image by its own origin", fns=[A + "_composite_view.CompositeView." + n for n in ("__init__", "render_with_pillow", "files")] + [A + "_composite_view.CompositePillowImage.get_image"], samples=80, max_paths=20000,
          note="up to three files of either unit, 20 dots per millimetre (other numbers of files and resolutions at run time)", assumes=["ImageSpace by its contract", "PIL Image.new and paste: canvas of the size, image placed with its upper left corner at the place"])
def _(c):
    from PIL import Image

    import pygerber.gerber.api._composite_view as cv

    n = c.choice("files", [1, 2, 3] if c.sym else [1, 2, 3, 5])
    d = 20 if c.sym else c.choice("dpmm", [1, 3])
    spaces, files = [], []
    alpha = [255 if c.sym else c.choice(f"alpha{i}", [255, 255, 128, 0]) for i in range(n)]
    for i in range(n):
        unit = UnitMode.METRIC if i == 2 or c.sym and i and n == 3 else c.choice(f"unit{i}", [UnitMode.METRIC, UnitMode.IMPERIAL])
        b = box(c, f"b{i}") if c.sym else tuple(v / 4 for v in box(c, f"b{i}"))
        k = 1 if unit is UnitMode.METRIC else 25.4
        spaces.append(tuple(v * k for v in b))
        im = Picture(i) if c.sym else Image.new("RGBA", (max(1, int((b[2] - b[0]) * k * d)), max(1, int((b[3] - b[1]) * k * d))), (40 * (i + 1), 0, 0, alpha[i]))
        if c.sym:
            files.append(StandFile(lambda dp, u=unit, q=b, i=i: Space(c, i, u, q, dp), im))
            continue
        files.append(StandFile(lambda dp, u=unit, q=b: ImageSpace(units=u, box=Box(min_x=q[0], min_y=q[1], max_x=q[2], max_y=q[3]), dpmm=dp), im))
    made = []
    if c.sym:
        class Lib:
            Image = Picture

            @staticmethod
            def new(mode, size, *a):
                p = Picture("canvas")
                made.append((p, mode, size))
                return p

        c.stub(cv, "Image", Lib)
    view = CompositeView(files)
    c.check(len(view) == n and list(view.files) == files, "files of the view")
    r = view.render_with_pillow(dpmm=d)
    px = [tuple(v * d for v in s) for s in spaces]
    x0, y1 = c.min([p[0] for p in px]), c.max([p[3] for p in px])
    x1, y0 = c.max([p[2] for p in px]), c.min([p[1] for p in px])
    near = lambda a, b: c.And(a <= b + 2.001, b - 2.001 <= a)  # noqa: E731
    c.check(all(f.dpmm is d for f in files), "all files rendered at the requested resolution")
    c.check([s.get_image() for s in r.get_sub_images()] == [f.image for f in files], "sub-images of the files in order")
    if c.sym:
        c.check(len(made) == 1 and made[0][1] == "RGBA", "one canvas with transparency")
        canvas, _m, size = made[0]
        c.check(r.get_image() is canvas, "the canvas is the image")
        c.check(c.And(near(size[0], x1 - x0), near(size[1], y1 - y0)), "canvas covers all images")
        c.check(len(canvas.pasted) == n, "every image pasted once")
        for i, (im, at, mask) in enumerate(canvas.pasted):
            c.check(im is files[i].image, "later files on top")
            c.check(mask is im or getattr(mask, "channel", None) == (im, "A"), "transparent parts show what is below")
            c.check(c.And(near(at[0], px[i][0] - x0), near(at[1], y1 - px[i][3])), "image placed by its own origin")
        return
    im = r.get_image()
    c.check(near(im.size[0], x1 - x0) and near(im.size[1], y1 - y0), "canvas covers all images", f"{im.size} instead of {(x1 - x0, y1 - y0)}")
    for i, p in enumerate(px):
        X, Y = (p[0] + p[2]) / 2, (p[1] + p[3]) / 2
        if p[2] - p[0] < 6 or p[3] - p[1] < 6:
            continue
        red = 0
        for j, q in enumerate(px):
            if q[0] <= X <= q[2] and q[1] <= Y <= q[3]:
                red = red + (40 * (j + 1) - red) * alpha[j] / 255
        # far enough from the edges of the others
        if any(min(abs(X - q[0]), abs(X - q[2]), abs(Y - q[1]), abs(Y - q[3])) < 3 for j, q in enumerate(px)):
            continue
        got = im.getpixel((int(X - x0), int(y1 - Y)))
        c.check(abs(got[0] - red) <= 3, "image placed by its own origin, later files on top", f"colour {got[0]} instead of {red}")


@contract("C18", "composite view sets the colours of all files", fns=[A + "_composite_view.CompositeView.set_color_map"], samples=5)
def _(c):
    fs = [GerberFile.from_str("M02*", T.SILK) for _ in range(c.choice("n", [0, 1, 3]))]
    m = dict(DEFAULT_COLOR_MAP)
    v = CompositeView(fs)
    c.check(v.set_color_map(m) is v, "calls can be chained")
    c.check(all(f._dispatch_style(None) is m[T.SILK] for f in fs), "colour map of every file")


# ------------------------------------------------------------------ rendered files
SRC = "%FSLAX26Y26*%%MO{unit}*%%TF.FileFunction,{ff}*%%ADD10R,{w}X{h}*%D10*X{x}Y{y}D03*M02*X0Y0D03*M02*"


@contract("C18", "rendered image has the size and place of its image space", fns=[A + "_gerber_file.GerberFile." + n for n in ("from_str", "render_with_pillow", "render_with_shapely", "_get_rvmc", "_get_ast", "_get_final_state")], bounded=True, samples=60,
          note="bounded: one rectangle of random size and place, both units")
def _(c):
    unit = c.choice("unit", ["MM", "IN"])
    k = 1 if unit == "MM" else 25.4
    w, h = [round(c.real(n, 1, 30) / k, 3) for n in ("w", "h")]
    x, y = [round(c.real(n, -40, 40) / k, 3) for n in ("x", "y")]
    d = c.choice("dpmm", [1, 5, 20])
    c.assume(min(w, h) * k * d >= 1.1)  # less than one pixel is rendered as an empty image
    f = GerberFile.from_str(SRC.format(unit=unit, ff="Copper,L1,Top", w=w, h=h, x=round(x * 10**6), y=round(y * 10**6)))
    want = ((x - w / 2) * k, (y - h / 2) * k, (x + w / 2) * k, (y + h / 2) * k)
    im = f.render_with_pillow(dpmm=d)
    for s, name in ((im.get_image_space(), "raster"), (f.render_with_shapely().get_image_space(), "vector")):
        got = (s.min_x_mm, s.min_y_mm, s.max_x_mm, s.max_y_mm)
        c.check(all(abs(a - b) < 1e-6 for a, b in zip(got, want)), f"{name}: image space of the file in millimetres", f"{got} instead of {want}")
    c.check(im.get_image_space().dpmm == d, "resolution of the image space")
    size = im.get_image().size
    c.check(abs(size[0] - w * k * d) <= 1.001 and abs(size[1] - h * k * d) <= 1.001, "image has the requested dots per millimetre", f"{size} instead of {(w * k * d, h * k * d)}")


@contract("C18", "options changed after a render take effect", fns=[A + "_gerber_file.GerberFile." + n for n in ("set_parser_options", "set_compiler_options", "set_color_map", "_flush_cached", "_dispatch_style", "_get_ast", "_get_rvmc", "_get_final_state")], max_paths=20000, samples=20,
          note="every sequence of up to three calls over option changes and renders; bounded by the sample file")
def _(c):
    from pygerber.gerber.ast.nodes import G04

    f = GerberFile.from_str("%FSLAX26Y26*%%MOMM*%%ADD10R,2X1*%D10*X0Y0D03*M00*X5000000Y0D03*M02*", T.COPPER)
    stop, cmap, over = False, DEFAULT_ALPHA_COLOR_MAP, False

    class Mine(G04):
        pass

    other = {**DEFAULT_COLOR_MAP, T.COPPER: Style(foreground=Color.from_hex("#010203"), background=Color.from_hex("#040506"))}
    before = dict(DEFAULT_ALPHA_COLOR_MAP)
    for i in range(3):
        k = c.choice(f"call{i}", ["render", "stop", "go", "colours", "parser"])
        if k == "stop":
            f.set_compiler_options(ignore_program_stop=False)
            stop = False
        elif k == "go":
            f.set_compiler_options(ignore_program_stop=True)
            stop = True
        elif k == "colours":
            f.set_color_map(other)
            cmap = other
        elif k == "parser":
            f.set_parser_options(resilient=True)
        else:
            look(c, f, stop, cmap)
    look(c, f, stop, cmap)
    try:
        look(c, GerberFile.from_str(f.source_code, T.COPPER), False, before)
        c.check(DEFAULT_ALPHA_COLOR_MAP == before, "options of one file leave other files alone")
    finally:
        for k in before:
            if DEFAULT_ALPHA_COLOR_MAP[k] is not before[k]:
                DEFAULT_ALPHA_COLOR_MAP[k] = before[k]


def look(c, f, go, cmap):
    im = f.render_with_pillow(dpmm=2)
    s = im.get_image_space()
    c.check(abs(s.max_x - (6 if go else 1)) < 1e-9, "compiler options in effect", f"{s.max_x}")
    st = cmap[T.COPPER]
    want = {st.foreground.as_rgba_int()} | ({st.background.as_rgba_int()} if go else set())
    got = {p for _n, p in im.get_image().getcolors(256)}
    c.check(got == want, "colours in effect", f"{got} instead of {want}")
    own = Style(foreground=Color.from_hex("#0A0B0C0D"), background=Color.from_hex("#0E0F1011"))
    got = {p for _n, p in f.render_with_pillow(own, dpmm=2).get_image().getcolors(256)}
    c.check(own.foreground.as_rgba_int() in got and not (got & want), "style given for one image takes precedence", f"{got}")


# ------------------------------------------------------------------ file types
EXT = {".gto": T.SILK, ".gbo": T.SILK, ".gpt": T.PADS, ".gpb": T.PADS, ".gts": T.SOLDERMASK, ".gbs": T.SOLDERMASK, ".gtl": T.COPPER, ".gbl": T.COPPER, ".gtp": T.PASTE, ".gbp": T.PASTE, ".grb": T.INFER_FROM_ATTRIBUTES, ".gbr": T.INFER_FROM_ATTRIBUTES}


def cases(c, s, name):
    i = c.choice(name, range(2 ** len(s)))
    return "".join(ch.upper() if i >> j & 1 else ch.lower() for j, ch in enumerate(s))


@contract("C18", "file type by extension", fns=[A + "_enums.FileTypeEnum.infer_from_extension"], max_paths=20000, note="every documented extension in every combination of cases; numbers below 120; unknown extensions sampled")
def _(c):
    kind = c.choice("kind", ["known", "numbered", "unknown"])
    if kind == "known":
        e = c.choice("ext", sorted(EXT))
        want = EXT[e]
        e = "." + cases(c, e[1:], "case")
    elif kind == "numbered":
        e = "." + cases(c, c.choice("ext", ["g", "gp", "gm"]), "case") + str(c.choice("n", range(0, 120)))
        want = T.COPPER
    else:
        e = c.choice("ext", ["", ".", ".txt", ".g", ".gb", ".gp", ".gm", ".gtx", ".drl", ".zip", ".gbrjob", ".xgtl", "gtl", ".gtl2", ".gk1"])
        want = T.UNDEFINED
    got = T.infer_from_extension(e)
    c.check(got is want, "file type of the extension", f"{e}: {got} instead of {want}")


def by_function(ff):
    return {"NonPlated": T.NON_PLATED}.get(ff.value, getattr(T, ff.value.upper(), None))


@contract("C18", "file type by file function", fns=[A + "_enums.FileTypeEnum.infer_from_attributes", A + "_enums.FileTypeEnum._missing_"], max_paths=20000, note="every file function, with and without further fields")
def _(c):
    ff = c.choice("function", list(FileFunction))
    tail = c.choice("fields", ["", ",L1,Top", ",Bot", ",Other,x"])
    text = {"as is": ff.value, "upper": ff.value.upper(), "lower": ff.value.lower()}[c.choice("case", ["as is", "upper", "lower"])]
    want = by_function(ff)
    got = T.infer_from_attributes(text + tail)
    c.check(got is want, "file type of the file function", f"{text}{tail}: {got} instead of {want}")
    c.check(T.infer_from_attributes(c.choice("other", ["Nonsense", "", "Nonsense,Copper"])) is T.UNDEFINED, "unknown file function")
    c.check(T.infer_from_attributes(None) is T.UNDEFINED and T.infer_from_attributes() is T.UNDEFINED, "no file function")
    c.check(T.infer_from_attributes("Solderpaste,Top") is T.PASTE, "solder paste is paste")


@contract("C18", "file type of a file", fns=[A + "_gerber_file.GerberFile." + n for n in ("from_file", "from_str", "from_buffer", "_dispatch_style", "_get_file_type_from_extension", "_get_file_type_from_attributes")], samples=400, weight=4, bounded=True,
          note="bounded: sampled extensions, file functions and requested types; files in a scratch directory")
def _(c):
    ff = c.choice("function", [None, *FileFunction])
    ext = c.choice("ext", [*EXT, ".txt", "", ".g3"])
    req = c.choice("requested", [T.INFER, T.INFER_FROM_ATTRIBUTES, T.INFER_FROM_EXTENSION, T.SILK, T.OTHER, None])
    how = c.choice("how", ["file", "str", "buffer"])
    code = (f"%TF.FileFunction,{ff.value}*%" if ff else "") + "M02*"
    kw = {} if req is None else {"file_type": req}
    if how == "file":
        d = pathlib.Path(tempfile.mkdtemp(prefix="pyvc"))
        try:
            (d / f"f{ext}").write_text(code)
            f = GerberFile.from_file(str(d / f"f{ext}") if c.bool("text path") else d / f"f{ext}", **kw)
        finally:
            shutil.rmtree(d)
    else:
        f = GerberFile.from_str(code, **kw) if how == "str" else GerberFile.from_buffer(io.StringIO(code), **kw)
    by_attr = by_function(ff) if ff else T.UNDEFINED
    by_ext = (T.COPPER if ext == ".g3" else EXT.get(ext, T.UNDEFINED)) if how == "file" else T.UNDEFINED
    if req in (T.SILK, T.OTHER):
        want = req
    elif req is T.INFER_FROM_ATTRIBUTES:
        want = by_attr
    elif req is T.INFER_FROM_EXTENSION:
        want = by_attr if by_ext is T.INFER_FROM_ATTRIBUTES else by_ext
    else:
        want = by_attr if by_ext in (T.UNDEFINED, T.INFER_FROM_ATTRIBUTES) else by_ext
    marks = {t: Style(foreground=Color.from_rgba(i, 0, 0), background=Color.from_rgba(0, i, 0)) for i, t in enumerate(T)}
    f.set_color_map(marks)
    c.check(f.source_code == code, "source code of the file")
    got = list(T)[f.render_with_pillow(dpmm=1).get_image().convert("RGB").getpixel((0, 0))[1]]
    c.check(got is want, "file is classified", f"{got} instead of {want}")
    c.check(f.file_type is want, "file type is the classification")


SAVERS = {"png": "PNG", "jpeg": "JPEG", "tiff": "TIFF", "bmp": "BMP", "webp": "WEBP"}


@contract("C18", "images are written alike to every kind of destination", fns=[A + "_gerber_file._PillowSaveMixin.save_" + k for k in SAVERS] + [A + "_gerber_file.ShapelyImage.save", "pygerber.vm.shapely.vm.ShapelyResult.save", "pygerber.vm.shapely.vm.ShapelyResult.save_svg"], samples=15,
          note="every format and every kind of destination (path as text or object, open file, buffer, temporary file) of one image")
def _(c):
    from PIL import Image

    f = GerberFile.from_str("%FSLAX26Y26*%%MOMM*%%ADD10R,1X2*%D10*X0Y0D03*X2000000Y1000000D03*M02*")
    kind = c.choice("image", ["raster", "vector", "composite"])
    form = c.choice("format", list(SAVERS)) if kind != "vector" else "svg"
    how = c.choice("destination", ["text", "path", "file", "buffer", "temporary"])
    image = {"raster": lambda: f.render_with_pillow(dpmm=5), "vector": f.render_with_shapely, "composite": lambda: CompositeView([f, f]).render_with_pillow(dpmm=5)}[kind]()
    named = c.choice("named", [None, form.upper(), form]) if form != "svg" else None
    save = image.save if form == "svg" else getattr(image, "save_" + form) if named is None else lambda x: image.save(x, file_format=named)
    d = tempfile.mkdtemp(prefix="pyvc")
    try:
        p = pathlib.Path(d) / "image.bin"
        if how == "text":
            e = c.calls(lambda: save(str(p)))[1]
        elif how == "path":
            e = c.calls(lambda: save(p))[1]
        elif how == "file":
            with p.open("wb") as h:
                e = c.calls(lambda: save(h))[1]
        elif how == "buffer":
            b = io.BytesIO()
            e = c.calls(lambda: save(b))[1]
            p.write_bytes(b.getvalue())
        else:
            with tempfile.NamedTemporaryFile(dir=d) as h:
                e = c.calls(lambda: save(h))[1]
                h.flush()
                p.write_bytes(pathlib.Path(h.name).read_bytes())
        c.check(e is None, "the image is written", f"{e!r}")
        data = p.read_bytes()
        if form == "svg":
            c.check(data.startswith(b"<svg") and data.rstrip().endswith(b"</svg>"), "the drawing is complete", f"{data[:80]!r}")
        else:
            with Image.open(io.BytesIO(data)) as im:
                c.check(im.format == SAVERS[form] and im.size == image.get_image().size, "the image has the format asked for and is complete", f"{im.format} {im.size}")
                im.load()
    finally:
        shutil.rmtree(d)


@contract("C18", "every file type has a colour", fns=[A + "_enums.DEFAULT_COLOR_MAP", A + "_enums.DEFAULT_ALPHA_COLOR_MAP"], note="all file types")
def _(c):
    t = c.choice("type", [x for x in T if not x.name.startswith("INFER")])
    for m in (DEFAULT_COLOR_MAP, DEFAULT_ALPHA_COLOR_MAP):
        c.check(t in m, "file type has a colour", t.name)
        c.check(m[t].foreground.alpha == 255, "foreground is visible")
    c.check(DEFAULT_ALPHA_COLOR_MAP[t].background.alpha == 0, "images of the map with alpha can be stacked", t.name)


@contract("C18", "colours keep their channels", fns=["pygerber.vm.types.color.Color." + n for n in ("from_rgba", "from_hex", "to_hex", "as_rgba_int", "as_rgb_int", "as_rgba_float")], samples=80)
def _(c):
    r, g, b, a = [c.int(n, 0, 255) for n in "rgba"]
    k = Color.from_rgba(r, g, b, a)
    c.check(c.And(*[x == y for x, y in zip(k.as_rgba_int(), (r, g, b, a))]) and len(k.as_rgba_int()) == 4, "RGBA channels")
    c.check(c.And(*[x == y for x, y in zip(k.as_rgb_int(), (r, g, b))]) and len(k.as_rgb_int()) == 3, "RGB channels")
    o = Color.from_rgba(r, g, b)
    c.check(c.And(*[x == y for x, y in zip(o.as_rgba_int(), (r, g, b, 255))]), "opaque by default")
    if c.sym:
        return
    c.check(all(abs(x - y / 255) < 1e-12 for x, y in zip(k.as_rgba_float(), (r, g, b, a))), "channels as fractions")
    h = f"{r:02x}{g:02x}{b:02x}{a:02x}"
    c.check(k.to_hex().lower() == "#" + h, "hexadecimal text", k.to_hex())
    for s in (h, "#" + h, h.upper(), "#" + h.upper()):
        c.check(Color.from_hex(s) == k, "colour of the hexadecimal text", s)
        c.check(Color.from_hex(s[:-2]) == o, "colour without alpha is opaque", s)
    c.check(c.calls(lambda: Color.from_hex(c.choice("bad", ["", "#", "12345", "#1234567", "GG0000", "#123456789", "x"])))[1] is not None, "other texts are rejected")


# ------------------------------------------------------------------ job files
ORDER = [T.COPPER, T.MASK, T.SOLDERMASK, T.PASTE, T.SILK, T.LEGEND, T.PROFILE]
MENU = ["Copper,L1,Top", "Copper,L2,Inr", "Copper,L3,Inr", "Legend,L3,Inr", "Mask,L3", "Copper,L10,Inr", "Copper,L11,Bot", "SolderMask,Top", "Soldermask,Bot", "Legend,Top", "Legend,Bot", "SolderPaste,Top", "Paste,Bot", "Profile,NP", "Profile", "Plated,1,4,PTH"]


def job(files):
    return {"Header": {"CreationDate": "x", "GenerationSoftware": {"Vendor": "v", "Application": "a", "Version": "1"}},
            "GeneralSpecs": {"ProjectId": {"Name": "n", "GUID": "g", "Revision": "r"}, "Size": {"X": 1, "Y": 2}, "LayerNumber": 2, "BoardThickness": 1.6},
            "FilesAttributes": [{"Path": p, "FileFunction": f, "FilePolarity": "Positive"} for p, f in files], "MaterialStackup": []}


def kind(ff):
    k = ff.split(",")[0].upper()
    return {"SOLDERPASTE": T.PASTE, "NONPLATED": T.NON_PLATED}.get(k) or getattr(T, k, T.UNDEFINED)


@contract("C18", "views of a job file", fns=[A + "_gerber_job_file.GerberJobFile." + n for n in ("from_file", "to_project", "model_post_init")] + [A + "_project.Project." + n for n in ("top", "inner", "bottom")], max_paths=20000, samples=60,
          note="every list of up to two of the 14 listed file functions, with and without a profile; longer lists at run time; files in a scratch directory")
def _(c):
    if c.sym:
        fs = [c.choice(f"f{i}", MENU) for i in range(c.choice("n", [1, 2]))] + (["Profile,NP"] if c.bool("profile") else [])
    else:
        fs = []
        for i in range(c.choice("n", range(12))):
            fs.append(c.choice(f"f{i}", MENU))
    fs = [f for i, f in enumerate(fs) if not any((kind(g), where(g)) == (kind(f), where(f)) for g in fs[:i])]
    files = [(f"sub/f{i}.x{i}", f) for i, f in enumerate(fs)]
    import json

    d = pathlib.Path(tempfile.mkdtemp(prefix="pyvc"))
    try:
        (d / "sub").mkdir()
        for p, f in files:
            (d / p).write_text(f"G04 {f}*M02*")
        if c.bool("loaded from disk"):
            (d / "j.gbrjob").write_text(json.dumps(job(files)))
            pr = GerberJobFile.from_file(d / "j.gbrjob" if c.bool("path") else str(d / "j.gbrjob")).to_project()
        else:
            j = GerberJobFile.model_validate(job(files))
            c.check(isinstance(c.calls(j.to_project)[1], PathToGerberJobProjectNotDefinedError), "place of the files has to be known")
            pr = j.to_project(path=d / "j.gbrjob")
    finally:
        shutil.rmtree(d)
    profile = [f for f in fs if kind(f) is T.PROFILE]

    def view(w):
        mine = [f for f in fs if where(f) == w and kind(f) in ORDER] + profile
        return sorted(mine, key=lambda f: ORDER.index(kind(f)))

    def read(v):
        return [f.source_code[4:].split("*")[0] for f in v.files]

    numbers = sorted({where(f) for f in fs if isinstance(where(f), int)})
    for label, got, want in [("top", pr.top, view("top")), ("bottom", pr.bottom, view("bottom"))]:
        c.check(read(got) == want, f"{label} view: files from the bottom up", f"{read(got)} instead of {want}")
    c.check(len(pr.inner) == len(numbers), "one view for each inner layer", f"{len(pr.inner)} instead of {len(numbers)}")
    for v, n in zip(pr.inner, numbers):
        c.check(read(v) == view(n), "inner views in the order of layer numbers", f"{read(v)} instead of {view(n)}")
    for v in (pr.top, pr.bottom, *pr.inner):
        c.check(all(f.file_type is kind(t) for f, t in zip(v.files, read(v))), "files have the type of their function")


def where(ff):
    p = ff.upper().split(",")
    if kind(ff) is T.PROFILE:
        return "all"
    if "TOP" in p:
        return "top"
    if "BOT" in p:
        return "bottom"
    n = [int(x[1:]) for x in p if x[:1] == "L" and x[1:].isdigit()]
    return n[0] if n else "none"
