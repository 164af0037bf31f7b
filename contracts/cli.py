"""Command line: every option reaches the renderer, formatter and linter unchanged."""
import io
import json
import os
import pathlib
import shutil
import tempfile
from contextlib import contextmanager

import click
from click.testing import CliRunner
from pyvc.registry import contract

from pygerber.console.commands import main
from pygerber.gerber.api import Color, CompositeView, FileTypeEnum, GerberFile, ImageSpace, PillowImage, ShapelyImage, Style
from pygerber.gerber.api._composite_view import CompositePillowImage
from pygerber.gerber.ast.nodes.enums import UnitMode
from pygerber.vm.types.box import Box

G = "pygerber.console.gerber."
T = FileTypeEnum
CODE = "%FSLAX26Y26*%%MOMM*%%TF.FileFunction,{ff}*%%ADD10R,{w}X1*%D10*X0Y0D03*M02*"
RASTER = {"png": "PNG", "jpeg": "JPEG", "tiff": "TIFF", "bmp": "BMP", "webp": "WEBP"}
TIFF = ["group3", "group4", "jpeg", "lzma", "packbits", "tiff_adobe_deflate", "tiff_ccitt", "tiff_lzw", "tiff_raw_16", "tiff_sgilog", "tiff_sgilog24", "tiff_thunderscan", "webp", "zstd"]


@contextmanager
def scratch():
    d, old = pathlib.Path(tempfile.mkdtemp(prefix="pyvc")), os.getcwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d)


def command(path):
    cmd = main
    for p in path:
        cmd = cmd.commands[p]
    return cmd


def run(c, path, args, numbers=None):
    """Parse the arguments, put the numbers in their place, run the command."""
    cmd = command(path)
    ctx = cmd.make_context(path[-1], list(args))
    for option, v in (numbers or {}).items():
        (p,) = [p for p in cmd.params if option in p.opts]
        ctx.params[p.name] = v
    with ctx:
        return cmd.invoke(ctx)


class Picture:
    """Stands for an image of the imaging library: conversions and writes are recorded."""

    def __init__(self, log, mode="RGBA"):
        self.log, self.mode = log, mode

    def convert(self, mode):
        return Picture(self.log, mode)

    def save(self, fp, format=None, **kw):  # noqa: A002
        self.log.append((fp, format, kw, self.mode))


class Vector:
    """Stands for the result of the vector renderer."""

    def __init__(self, log):
        self.log = log

    def save_svg(self, destination, style=None, *a, **kw):
        self.log.append((destination, "SVG", {"style": style}, None))


SPACE = dict(units=UnitMode.METRIC, box=Box(min_x=0, min_y=0, max_x=1, max_y=1), dpmm=1)


@contextmanager
def recorded():
    """Rendering is replaced by a record of what it was asked to do."""
    calls, log = [], []
    old = GerberFile.render_with_pillow, GerberFile.render_with_shapely, CompositeView.render_with_pillow

    def pillow(self, style=None, dpmm=20):
        calls.append((self, style, dpmm))
        return PillowImage(ImageSpace(**SPACE), Picture(log))

    def shapely(self, style=None):
        calls.append((self, style, None))
        return ShapelyImage(ImageSpace(**SPACE), Vector(log), style)

    def composite(self, dpmm=20):
        calls.append((self, None, dpmm))
        return CompositePillowImage([], Picture(log))

    GerberFile.render_with_pillow, GerberFile.render_with_shapely, CompositeView.render_with_pillow = pillow, shapely, composite
    try:
        yield calls, log
    finally:
        GerberFile.render_with_pillow, GerberFile.render_with_shapely, CompositeView.render_with_pillow = old


def path_of(fp):
    return pathlib.Path(fp if isinstance(fp, (str, os.PathLike)) else fp.name).resolve()


def mixed(s, k):
    return {"upper": s.upper(), "lower": s.lower(), "mixed": s[:1].upper() + s[1:].lower()}[k]


def style_args(c, foreground="#0A0B0C0D", background="0E0F10"):
    """Arguments that choose a style, and the style chosen."""
    presets = Style.presets.get_styles()
    k = c.choice("style", [None, "CUSTOM", *presets])
    if k is None:
        return [], None
    flag = c.choice("style option", ["-s", "--style"])
    args = [flag, mixed(k, c.choice("style case", ["upper", "lower"]))]
    if k != "CUSTOM":
        return args, presets[k]
    args += [c.choice("f", ["-f", "--foreground"]), foreground, c.choice("b", ["-b", "--background"]), background]
    return args, Style(foreground=Color.from_rgba(10, 11, 12, 13), background=Color.from_rgba(14, 15, 16))


def same_style(a, b):
    return a is b or (a is not None and b is not None and a.foreground.as_rgba_int() == b.foreground.as_rgba_int() and a.background.as_rgba_int() == b.background.as_rgba_int())


NAMES = ["a.gbr", "b.gtl", "c.txt", "d e.gts"]
CONVERT = [G + n for n in ("png", "jpeg", "tiff", "bmp", "webp", "svg", "_sanitize_style")] + ["pygerber.gerber.api._gerber_file._PillowSaveMixin." + n for n in ("save_png", "save_jpeg", "save_tiff", "save_bmp", "save_webp")] + ["pygerber.gerber.api._gerber_file.ShapelyImage.save"]
LIBS = ["click parses the declared options", "GerberFile.render_with_pillow, render_with_shapely by their contracts (C18)", "PIL Image.save and Image.convert"]


def outcome(c, calls, log, src, want_type, style, dpmm, out, fmt, kw):
    c.check(len(calls) == 1, "one rendering")
    f, got, d = calls[0]
    c.check(f.source_code == src.read_text(), "the named file is rendered")
    want = GerberFile.from_file(src, want_type).file_type
    c.check(f.file_type is want, "file type of the option", f"{f.file_type} instead of {want}")
    c.check(same_style(got, style), "style of the options", f"{got} instead of {style}")
    if dpmm is not None:
        c.check(d == dpmm, "resolution of the option", "" if c.sym else f"{d} instead of {dpmm}")
    c.check(len(log) == 1, "one image is written")
    fp, form, opts, mode = log[0]
    c.check(path_of(fp) == pathlib.Path(out).resolve(), "output file of the option", f"{fp} instead of {out}")
    c.check(form == fmt, "image format of the command", f"{form}")
    if fmt == "SVG":
        c.check(same_style(opts["style"], style), "style of the options")
        return
    c.check(set(opts) == set(kw), "settings of the writer", f"{opts} instead of {kw}")
    for k, v in kw.items():
        c.check(opts[k] == v, f"{k} of the option", "" if c.sym else f"{opts[k]} instead of {v}")
    c.check(mode in (("RGBA", "RGB") if fmt == "WEBP" else ("RGB",) if fmt == "JPEG" else ("RGBA",)), "transparency is kept where the format has it", mode)


def settings(c, kind, given):
    """Arguments and numbers for the writer, and the settings expected."""
    args, numbers, kw = [], {}, {}
    if kind == "tiff":
        k = c.choice("compression", TIFF) if given else "lzma"
        kw["compression"] = k
        if given:
            args += ["-c", k]
    if kind in ("jpeg", "tiff", "webp"):
        q = c.int("quality", 0, 100) if given else 80 if kind == "webp" else 95
        if given:
            numbers["--quality"] = q
        if kind != "tiff" or kw["compression"] == "jpeg":
            kw["quality"] = q
    if kind == "webp":
        kw["lossless"] = given and c.bool("lossless")
        if kw["lossless"]:
            args.append(c.choice("l", ["-l", "--lossless"]))
    return args, numbers, kw


@contract("C19", "converted image follows the options", fns=CONVERT, samples=40, max_paths=60000, assumes=LIBS,
          note="every format, file type and style name, resolution and quality symbolic; writer settings and style varied together, file type on its own")
def _(c):
    kind = c.choice("format", [*RASTER, "svg"])
    dpmm = None if kind == "svg" else c.int("dpmm", 1, 5000)
    vary = c.choice("vary", ["type", "style", "settings"])
    with scratch() as d, recorded() as (calls, log):
        src = d / c.choice("source", NAMES if vary == "type" else NAMES[:1])
        src.write_text(CODE.format(ff="Legend,Top", w=2))
        args, t, style = [], T.INFER, None
        if vary == "type":
            k = c.choice("type", [None, *T.__members__])
            if k is not None:
                t = T[k]
                args += [c.choice("t", ["-t", "--file-type"]) if not c.sym else "-t", mixed(k, c.choice("case", ["upper", "lower"]))]
        if vary == "style":
            a, style = style_args(c)
            args += a
        a, numbers, kw = settings(c, kind, vary == "settings")
        out = c.choice("output", ["x/y z.bin", "out"]) if vary == "settings" else "o"
        (d / "x").mkdir()
        run(c, ["gerber", "convert", kind], [str(src), "-o" if vary != "settings" else c.choice("o", ["-o", "--output"]), out, *args, *a], {**numbers, **({"--dpmm": dpmm} if dpmm is not None else {})})
        outcome(c, calls, log, src, t, style, dpmm, out, RASTER.get(kind, "SVG"), kw)


@contract("C19", "numbers and defaults of the options", fns=CONVERT, samples=40, assumes=LIBS, note="every command; numbers in the text of the command line are sampled")
def _(c):
    kind = c.choice("format", [*RASTER, "svg"])
    given = c.bool("given")
    with scratch() as d, recorded() as (calls, log):
        src = d / "a.gbr"
        src.write_text(CODE.format(ff="Legend,Top", w=2))
        args, kw = [], {}
        dpmm = 100
        out = {"jpeg": "output.jpg"}.get(kind, f"output.{kind}")
        if given:
            dpmm = c.choice("dpmm", [1, 7, 20, 1000])
            out = "o.x"
            args += [c.choice("o", ["-o", "--output"]), out] + ([c.choice("d", ["-d", "--dpmm"]), str(dpmm)] if kind != "svg" else [])
            q = c.choice("quality", [0, 1, 50, 100])
            if kind in ("jpeg", "webp", "tiff"):
                args += [c.choice("q", ["-q", "--quality"]), str(q)]
            kw = {"jpeg": {"quality": q}, "webp": {"quality": q, "lossless": False}, "tiff": {"compression": "jpeg", "quality": q}}.get(kind, {})
            if kind == "tiff":
                args += [c.choice("c", ["-c", "--compression"]), "jpeg"]
            if c.bool("implementation"):
                args += [c.choice("i", ["-i", "--implementation"]), "SHAPELY" if kind == "svg" else "Pillow"]
        else:
            kw = {"jpeg": {"quality": 95}, "webp": {"quality": 80, "lossless": False}, "tiff": {"compression": "lzma"}}.get(kind, {})
        run(c, ["gerber", "convert", kind], [*args, str(src)])
        outcome(c, calls, log, src, T.INFER, None, None if kind == "svg" else dpmm, out, RASTER.get(kind, "SVG"), kw)


@contract("C19", "wrong options are reported and nothing is written", fns=CONVERT, samples=20, note="listed mistakes for every command; the colour texts are sampled", assumes=["click parses the declared options"])
def _(c):
    kind = c.choice("format", [*RASTER, "svg"])
    with scratch() as d, recorded() as (calls, log):
        src = d / "a.gbr"
        src.write_text("M02*")
        bad = c.choice("bad text", ["", "12345", "#12", "red", "#GGGGGG", "#123456789"])
        k = c.choice("mistake", ["type", "style", "no foreground", "no background", "foreground", "background", "implementation", "source", "directory", "dpmm"])
        if kind == "svg" and k == "dpmm":
            return
        args, name = {
            "type": (["-t", "NONSENSE"], "file-type"),
            "style": (["-s", "NONSENSE"], "style"),
            "no foreground": (["-s", "custom", "-b", "000000"], "foreground"),
            "no background": (["-s", "CUSTOM", "-f", "000000"], "background"),
            "foreground": (["-s", "CUSTOM", "-f", bad, "-b", "000000"], "foreground"),
            "background": (["-s", "CUSTOM", "-f", "000000", "-b", bad], "background"),
            "implementation": (["-i", "nonsense"], "implementation"),
            "source": ([], "source"),
            "directory": ([], "source"),
            "dpmm": (["-d", "many"], "dpmm"),
        }[k]
        _r, e = c.calls(lambda: run(c, ["gerber", "convert", kind], [*args, str({"source": d / "missing.gbr", "directory": d}.get(k, src))]))
        c.check(isinstance(e, click.UsageError), "the mistake is reported", f"{e!r}")
        got = getattr(e, "option_name", None) or getattr(getattr(e, "param", None), "name", "")
        c.check(got.replace("_", "-") == name, "the option at fault is named", f"{got} instead of {name}")
        c.check(not calls and not log and sorted(p.name for p in d.iterdir()) == ["a.gbr"], "nothing is written")


@contract("C19", "merged image follows the options", fns=[G + "merge_convert_png", G + "merge_convert_jpeg"], samples=40, max_paths=20000, assumes=["click parses the declared options", "CompositeView.render_with_pillow by its contract (C18)"],
          note="up to three files (five at run time), every file type name, resolution symbolic")
def _(c):
    kind = c.choice("format", ["png", "jpeg"])
    n = c.choice("files", [1, 3] if c.sym else [1, 2, 5])
    k = c.choice("type", [None, *T.__members__])
    given = c.bool("given")
    dpmm = c.int("dpmm", 1, 5000) if given else 100
    with scratch() as d, recorded() as (calls, log):
        srcs = []
        for i in range(n):
            srcs.append(d / f"f{n - i}{('.gtl', '.gbr', '.gto')[i % 3]}")
            srcs[-1].write_text(CODE.format(ff="Legend,Top", w=i + 1))
        args = [] if k is None else ["-t", mixed(k, c.choice("case", ["upper", "lower"]))]
        out = "o.x" if given else {"jpeg": "output.jpg"}.get(kind, "output.png")
        run(c, ["gerber", "merge-convert", kind], [*(["-o", out] if given else []), *args, *map(str, srcs)], {"--dpmm": dpmm} if given else {})
        c.check(len(calls) == 1 and isinstance(calls[0][0], CompositeView), "one composite image")
        files = list(calls[0][0].files)
        c.check([f.source_code for f in files] == [s.read_text() for s in srcs], "all files in the given order")
        t = T.INFER if k is None else T[k]
        c.check(all(f.file_type is GerberFile.from_file(s, t).file_type for f, s in zip(files, srcs)), "file type of the option", f"{[f.file_type for f in files]}")
        c.check(calls[0][2] == dpmm, "resolution of the option")
        c.check(len(log) == 1 and path_of(log[0][0]) == pathlib.Path(out).resolve() and log[0][1] == kind.upper(), "image written to the output file", f"{log}")


@contract("C19", "image file holds the rendered image", fns=CONVERT, bounded=True, samples=12, note="bounded: sampled files rendered end to end, lossless formats compared with the image of the API")
def _(c):
    from PIL import Image

    kind = c.choice("format", ["png", "bmp", "tiff", "webp", "jpeg", "svg"])
    with scratch() as d:
        src = d / c.choice("source", NAMES)
        w = c.choice("w", [2, 3, 5])
        src.write_text(CODE.format(ff=c.choice("ff", ["Copper,L1,Top", "Legend,Top", "Soldermask,Top"]), w=w))
        args, style = style_args(c)
        dp = c.choice("dpmm", [1, 4, 10])
        extra = {"webp": ["-l"], "tiff": ["-c", c.choice("lossless", ["lzma", "packbits", "tiff_lzw", "tiff_adobe_deflate"])]}.get(kind, [])
        r = CliRunner().invoke(main, ["gerber", "convert", kind, str(src), "-o", "out", *([] if kind == "svg" else ["-d", str(dp)]), *args, *extra], catch_exceptions=True)
        c.check(r.exit_code == 0, "the command succeeds", f"{r.exception!r} {r.output}")
        f = GerberFile.from_file(src)
        if kind == "svg":
            b = io.BytesIO()
            f.render_with_shapely(style).save(b)
            c.check((d / "out").read_bytes() == b.getvalue(), "the file holds the drawing of the API")
            return
        want = f.render_with_pillow(style, dp).get_image()
        with Image.open(d / "out") as im:
            c.check(im.format == RASTER[kind] and im.size == want.size, "format and size of the image", f"{im.format} {im.size}")
            if kind != "jpeg":
                c.check(im.convert("RGB").tobytes() == want.convert("RGB").tobytes(), "the file holds the image of the API")


# ------------------------------------------------------------------ formatter
BAD = {"not json": "{", "not an object": "[1]", "wrong value": '{"macro_split_mode": "nonsense"}', "missing file": None}


@contract("C19", "formatted file follows the configuration", fns=[G + "format_cmd"], samples=20, max_paths=20000, assumes=["click parses the declared options", "GerberFile.format by its contract (C14)"], note="listed configurations, given inline or in a file, and the mistakes")
def _(c):
    from pygerber.gerber.formatter import Options

    conf = c.choice("config", [None, {}, {"empty_line_before_polarity_switch": "Yes"}, {"indent_character": "\t", "d01_indent": 1, "macro_split_mode": "NoSplit"}, {"line_end": "\r\n", "float_decimal_places": 3}, {"strip_whitespace": "StripAll", "d02_indent": "  "}])
    how = c.choice("how", ["inline", "file", "both", "other file", *BAD]) if conf is not None else "none"
    given = c.bool("output given")
    with scratch() as d:
        src = d / "a.gbr"
        src.write_text(CODE.format(ff="Legend,Top", w=2) + "%LPC*%G36*X0Y0D02*X100Y0D01*X100Y100D01*G37*M02*")
        out = d / ("o.txt" if given else "output.gbr")
        args = [str(src)] + (["-o", str(out)] if given else [])
        text = json.dumps(conf)
        (d / "c.json").write_text(text)
        (d / "c.toml").write_text(text)
        (d / "bad.json").write_text(BAD.get(how) or "")
        bad = how in BAD
        inline = bad and how != "missing file" and c.bool("inline")
        args += ["-i", BAD[how]] if inline else ["-c", str(d / ("none.json" if how == "missing file" else "bad.json"))] if bad else {"none": [], "inline": ["-i", text], "file": ["-c", str(d / "c.json")], "both": ["-c", str(d / "c.json"), "-i", text], "other file": ["-c", str(d / "c.toml")]}[how]
        _r, e = c.calls(lambda: run(c, ["gerber", "format"], args))
        if bad or how in ("both", "other file"):
            c.check(isinstance(e, click.UsageError), "the mistake is reported", f"{e!r}")
            got = (getattr(e, "option_name", None) or getattr(getattr(e, "param", None), "name", "")).replace("_", "-")
            c.check(got == "inline-config" if inline else got in ("config", "inline-config") if how == "both" else got == "config", "the option at fault is named", got)
            c.check(not out.exists(), "nothing is written")
            return
        c.check(e is None, "the command succeeds", f"{e!r}")
        b = io.StringIO()
        GerberFile.from_file(src).format(b, options=None if conf is None else Options(**conf))
        c.check(out.read_bytes() == b.getvalue().encode(), "the output is the formatted file", f"{out.read_text()!r} instead of {b.getvalue()!r}")


# ------------------------------------------------------------------ linter
@contract("C19", "lint prints every violation of the rules", fns=[G + "lint", G + "list_lint_rules"], samples=20, max_paths=20000, assumes=["click parses the declared options", "lint by its contract (C17)"], note="every subset of up to two rules and all rules, in one or several options; one or two files, sampled texts")
def _(c):
    from pygerber.gerber.linter import lint
    from pygerber.gerber.linter.rules import RULE_REGISTRY
    from pygerber.gerber.parser import parse

    ids = list(RULE_REGISTRY)
    rules = [c.choice(f"r{i}", ids) for i in range(c.choice("rules", [0, 1, 2]))]
    rules = list(dict.fromkeys(rules))
    texts = [c.choice(f"t{i}", ["G54D10*X0Y0D03*\nG70*\nG90*M02*", "%FSLAX26Y26*%\n%MOMM*%\nD10*X0Y0D03*\nG74*G55X0Y0D03*\n%ADD10C,1*%M01*M00*\n", "M02*"]) for i in range(c.choice("files", [1, 2]))]
    with scratch() as d:
        fs = []
        for i, t in enumerate(texts):
            fs.append(d.resolve() / f"f{i}.gbr")
            fs[-1].write_text(t)
        args = ["-r", ",".join(rules)] if rules and c.bool("one option") else [a for r in rules for a in ("--rules", r)]
        r = CliRunner().invoke(main, ["gerber", "lint", *args, *map(str, fs)])
        want = [f"{p.as_posix()}:{v.line}:{v.column} {v.rule_id}: {v.title}" for p, t in zip(fs, texts) for v in lint(parse(t), rules=rules or ids)]
        c.check(r.exit_code == 0, "the command succeeds", f"{r.exception!r}")
        c.check(r.output.splitlines() == want, "violations of all files in order", f"{r.output} instead of {want}")
        c.check(CliRunner().invoke(main, ["gerber", "lint", *args]).exit_code == 2, "at least one file")
    for quiet in (False, True):
        r = CliRunner().invoke(main, ["gerber", "list-lint-rules", *(["-q"] if quiet else [])])
        want = [i if quiet else f"{i}: {RULE_REGISTRY[i]().get_violation_title()}" for i in ids]
        c.check(r.output.splitlines() == want, "all rules are listed")


@contract("C19", "unknown lint rules are reported", fns=[G + "lint"], samples=20, assumes=["click parses the declared options"], note="unknown names alone, before and after known ones")
def _(c):
    from pygerber.gerber.linter.rules import RULE_REGISTRY

    bad = c.choice("unknown rule", ["NONSENSE", "", "DEP", "GRB001 DEP001"])
    good = c.choice("known rule", list(RULE_REGISTRY))
    args = c.choice("how", [["-r", bad], ["-r", f"{good},{bad}"], ["--rules", f"{bad},{good}"], ["-r", good, "-r", bad]])
    with scratch() as d:
        (d / "f.gbr").write_text("G54D10*M02*")
        _r, e = c.calls(lambda: run(c, ["gerber", "lint"], [*args, str(d / "f.gbr")]))
        c.check(isinstance(e, click.UsageError) and getattr(e, "option_name", "") == "rules", "the option at fault is named", f"{e!r}")
