"""Language server: hover and completion describe the current text of the document."""
import asyncio
import base64
import enum
import io
import itertools
import re
import warnings
from contextlib import contextmanager
from unittest.mock import MagicMock

from pyvc.registry import contract

from pygerber.gerber.ast import nodes as N
from pygerber.gerber.ast.nodes.enums import CoordinateNotation, Mirroring, Polarity, UnitMode, Zeros
from pygerber.gerber.ast.state_tracking_visitor import ApertureStorage, ArcInterpolation, PlotMode, StateTrackingVisitor, Transform
from pygerber.gerber.compiler import compile as compile_
from pygerber.gerber.formatter import Formatter
from pygerber.gerber.language_server.status import is_language_server_available
from pygerber.gerber.parser import parse
from pygerber.vm import render
from pygerber.vm.pillow import PillowResult
from pygerber.vm.types.box import Box
from pygerber.vm.types.style import Style

from contracts.formatting import numbers
from contracts.texts import Fields

S = "pygerber.gerber.language_server._server."
HOVER = [S + "hover.gerber.GerberHoverCreator.create_hover_markdown", S + "hover.gerber.LimitedStateTrackingVisitor.on_file"]
AVAILABLE = is_language_server_available()
if AVAILABLE:
    import lsprotocol.types as L

    from pygerber.gerber.language_server._server.documents.gerber import GerberDocument
    from pygerber.gerber.language_server._server.hover.gerber import GerberHoverCreator
    from pygerber.gerber.language_server._server.server import get_server


class Place:
    """Place of a command in the text."""

    def __init__(self, location, end):
        self.location, self.end_location, self.length = location, end, end - location


def put(node, place):
    object.__setattr__(node, "source_info", place)
    return node


def summary(s):
    t, f = s.transform, s.coordinate_format
    return dict(x=s.current_x, y=s.current_y, aperture=s.current_aperture_id, plot=s.plot_mode, arc=s.arc_interpolation, region=s.is_region, unit=s.unit_mode,
                polarity=t.polarity, mirroring=t.mirroring, rotation=t.rotation, scaling=t.scaling, format=None if f is None else (f.zeros, f.coordinate_mode, f.x_integral, f.x_decimal, f.y_integral, f.y_decimal),
                apertures=sorted(s.apertures.apertures), blocks=sorted(s.apertures.blocks), macros=sorted(s.apertures.macros),
                object=sorted(s.attributes.object_attributes), file=sorted(s.attributes.file_attributes), on_aperture=sorted(s.attributes.aperture_attributes))


class Walk(StateTrackingVisitor):
    """State after a list of commands."""

    def after(self, commands):
        for x in commands:
            x.visit(self)
        return self.state


PARSED = {}


def command(text):
    """Fresh copy of a command."""
    if text not in PARSED:
        PARSED[text] = parse(text).nodes[0]
    return PARSED[text].model_copy()


MENU = ["G02*", "G74*", "G36*", "D11*", "%LPC*%", "%LMX*%", "%LR30*%", "%LS2*%", "X1000000D02*", "Y2000000D02*", "%TO.N,a*%", "%TA.AperFunction,Conductor*%", "%ADD10C,1*%"]


@contract("C21", "state shown is the state before the command", fns=HOVER, max_paths=60000, samples=60,
          note="every list of one of the 13 listed commands and one of four before the command, in the file or in a block (longer lists at run time); places in the text symbolic")
def _(c):
    if not AVAILABLE:
        return
    n = c.choice("before", [0, 1, 2] if c.sym else range(7))
    texts = [c.choice(f"c{i}", MENU if not c.sym or i == 0 else ["X1000000D02*", "D11*", "%LPC*%", "%TO.N,b*%"]) for i in range(n)]
    block = c.choice("block", ["none", "AB", "SR"])
    k = c.choice("split", range(n + 1)) if block != "none" else n  # commands before the block
    where = c.choice("hover", ["inner", "close", "after"]) if block != "none" else "inner"
    before = [command(t) for t in texts]
    this, later = N.G04(string="here"), command("X5000000Y6000000D02*")
    lc = [0]

    def at(node, first=None):
        a = lc[0] + (c.int(f"gap{len(order)}", 0, 50) if first is None else 0)
        b = a + c.int(f"length{len(order)}", 1, 50)
        put(node, Place(a, b))
        lc[0] = b
        order.append(node)
        return node

    order = []
    format_ = [at(command("%FSLAX26Y26*%")), at(command("%ADD11C,2*%"))]
    if block == "none":
        for x in before:
            at(x)
        at(this), at(later)
        file, want = [*format_, *before, this, later], [*format_, *before]
    else:
        outer, inner = before[:k], before[k:]
        for x in outer:
            at(x)
        o, cs = (N.ABopen(aperture_id="D20"), N.ABclose()) if block == "AB" else (N.SRopen(x="2", y="2", i="1", j="1"), N.SRclose())
        at(o)
        for x in inner:
            at(x)
        if where == "inner":
            at(this), at(later)
            body = [*inner, this, later]
            want = [*format_, *outer, o, *inner]
        else:
            body = inner
            want = [*format_, *outer, o, *inner]
        at(cs)
        whole = N.AB(open=o, nodes=body, close=cs) if block == "AB" else N.SR(open=o, nodes=body, close=cs)
        put(whole, Place(o.source_info.location, cs.source_info.end_location))
        tail = at(N.G04(string="tail"))
        at(later) if where != "inner" else None
        file = [*format_, *outer, whole, tail, *([later] if where != "inner" else [])]
        if where == "after":
            this, want = tail, [*format_, *outer, whole]
        elif where == "close":
            this = cs
    creator = GerberHoverCreator(N.File(nodes=file))
    c.noraise(lambda: creator.create_hover_markdown(this), "hover")
    got, ref = summary(creator.state), summary(Walk().after(want))
    for f in ref:
        c.check(got[f] == ref[f], f"{f} in force before the command", f"{got[f]} instead of {ref[f]} before {texts} {block} {where}")


# ------------------------------------------------------------------ documents
def text_for(i, n):
    """Documents that differ in their apertures and positions."""
    return "%FSLAX26Y26*%\n%MOMM*%\n" + "".join(f"%ADD{10 + i + j}C,{1 + j}*%\n" for j in range(n)) + f"G04 one\ntwo{i}*\nD{10 + i}*\nX{i + 1}000000Y0D03*\n" + ("M02*\n" if i % 2 else "") + "D"


def labels(r):
    return None if r is None else sorted(x.label for x in r.items)


@contract("C21", "answers are about the latest text", fns=[S + "documents.gerber.GerberDocument." + n for n in ("on_open", "on_change", "on_hover", "on_completion", "load_ast_from_code", "load_ast_from_uri", "flush_cached_values", "get_completion_apertures", "get_gerber_state")] + [S + "server.get_server", S + "document_cache.DocumentCache.get", S + "document_cache.DocumentCache.set", S + "document_cache.DocumentCache.delete"],
          samples=25, max_paths=20000, note="every sequence of two requests over two documents (longer ones at run time), then hover and completion in both", assumes=["pygls calls the registered features"])
def _(c):
    if not AVAILABLE:
        return
    with previewing():
        requests(c)


def requests(c):
    gls = get_server()
    gls.show_message_log = lambda *a, **k: None
    now, opened = {}, {}
    work = MagicMock()
    work.get_document.side_effect = lambda uri: MagicMock(source=now[uri])
    work.get_text_document.side_effect = lambda uri: MagicMock(source=now[uri])
    gls.lsp._workspace = work
    call = lambda name, p: asyncio.run(gls.lsp.fm.features[name](p))  # noqa: E731
    uris = {"a": "file:///a.gbr", "b": c.choice("other document", ["file:///b.grb", "file:///A.gbr", "file:///d/a.gbr", "file:///a.gbr2"])}
    n = c.choice("requests", [2] if c.sym else [3, 5, 8])
    for i in range(n):
        d = c.choice(f"document {i}", ["a", "b"])
        u = uris[d]
        k = c.choice(f"request {i}", ["edit", "query", "close"])
        text = text_for(i, 1 + i % 3)
        if k == "edit" and d not in opened:
            now[u] = opened[d] = text
            call(L.TEXT_DOCUMENT_DID_OPEN, L.DidOpenTextDocumentParams(text_document=L.TextDocumentItem(uri=u, language_id="gerber", version=i, text=text)))
        elif k == "edit":
            now[u] = opened[d] = text
            call(L.TEXT_DOCUMENT_DID_CHANGE, L.DidChangeTextDocumentParams(text_document=L.VersionedTextDocumentIdentifier(uri=u, version=i), content_changes=[]))
        elif k == "close" and d in opened:
            del opened[d]
            call(L.TEXT_DOCUMENT_DID_CLOSE, L.DidCloseTextDocumentParams(text_document=L.TextDocumentIdentifier(uri=u)))
        elif k == "query":
            query(c, call, opened, uris, d)
    for d in opened:
        query(c, call, opened, uris, d)


def query(c, call, opened, uris, d):
    doc = L.TextDocumentIdentifier(uri=uris[d])
    if d not in opened:
        return
    text = opened[d]
    lines = text.splitlines()
    at = L.Position(line=len(lines) - 1, character=0)
    r = call(L.TEXT_DOCUMENT_COMPLETION, L.CompletionParams(text_document=doc, position=at))
    want = sorted(m[1] for m in re.finditer(r"%AD(D\d+)", text))
    c.check(labels(r) == want, "apertures of the latest text are offered", f"{labels(r)} instead of {want}")
    ln = len(lines) - 2 - lines.count("M02*")
    h = call(L.TEXT_DOCUMENT_HOVER, L.HoverParams(text_document=doc, position=L.Position(line=ln, character=2)))
    c.check(h is not None and lines[ln] in h.contents.value, "command of the latest text is shown", f"{lines[ln]}")
    c.check((h.range.start.line, h.range.start.character, h.range.end.line, h.range.end.character) == (ln, 0, ln, len(lines[ln])), "range of the command", f"{h.range}")
    shown = h.contents.value
    ln = lines.index("G04 one")
    h = call(L.TEXT_DOCUMENT_HOVER, L.HoverParams(text_document=doc, position=L.Position(line=ln + 1, character=1)))
    if h is not None and h.range is not None:
        c.check((h.range.start.line, h.range.start.character, h.range.end.line, h.range.end.character) == (ln, 0, ln + 1, len(lines[ln + 1])), "range of a command of several lines", f"{h.range}")
    ap = re.search(r"^(D\d+)\*$", text, re.M)[1]
    c.check(ap in shown, "aperture of the latest text is shown", ap)


@contract("C21", "unused aperture codes are suggested", fns=["pygerber.gerber.ast.state_tracking_visitor.ApertureStorage.get_next_free_aperture_code", S + "documents.gerber.GerberDocument.get_completion_extended_command"], max_paths=20000, samples=60,
          note="every set of up to three of the listed codes for apertures and blocks")
def _(c):
    codes = [c.choice(f"code{i}", [10, 11, 12, 15, 99, 100, 2147]) for i in range(c.choice("n", [0, 1, 2, 3]))]
    kinds = [c.bool(f"block{i}") for i in range(len(codes))]
    st = ApertureStorage(apertures={f"D{k}": N.ADC(aperture_id=f"D{k}", diameter=1) for k, b in zip(codes, kinds) if not b},
                         blocks={f"D{k}": N.AB(open=N.ABopen(aperture_id=f"D{k}"), nodes=[], close=N.ABclose()) for k, b in zip(codes, kinds) if b})
    r = c.noraise(st.get_next_free_aperture_code, "next code")
    c.check(r >= 10 and r not in codes, "the code is valid and unused", f"{r} with {codes}")
    if not AVAILABLE or c.sym and len(codes) > 1:
        return
    text = "".join(f"%ABD{k}*%%AB*%\n" if b else f"%ADD{k}C,1*%\n" for k, b in zip(codes, kinds) if codes.count(k) == 1 or not b) + "%"
    d = document(text)
    res = ask(d.on_completion(L.CompletionParams(text_document=L.TextDocumentIdentifier(uri="x"), position=L.Position(line=text.count("\n"), character=0))))
    offered = {int(m[1]) for x in res.items for m in [re.match(r"ADD(\d+)", x.label)] if m}
    c.check(len(offered) == 1 and not offered & set(codes) and min(offered) >= 10, "definitions with an unused code are offered", f"{offered} with {codes}")
    c.check(all(x.insert_text is None or x.insert_text.split("$")[0] == x.label.split("$")[0][:len(x.insert_text.split("$")[0])] for x in res.items), "inserted text is the text offered")


def ask(coro):
    return asyncio.run(coro)


def document(text):
    d = GerberDocument(MagicMock())
    ask(d.on_open(L.DidOpenTextDocumentParams(text_document=L.TextDocumentItem(uri="file:///a.gbr", language_id="gerber", version=1, text=text))))
    return d


@contract("C21", "suggested texts are commands", fns=[S + "documents.gerber.GerberDocument." + n for n in ("on_completion", "get_completion_g_codes", "get_completion_extended_command", "get_completion_apertures")], samples=10,
          note="every suggestion after G, D and %, in a document with apertures, a block and a macro; parameters of the suggestion filled in with the listed number")
def _(c):
    if not AVAILABLE:
        return
    head = "%FSLAX26Y26*%\n%MOMM*%\n%AMm*\n1,1,$1,0,0*\n%\n%ADD10C,1*%\n%ADD12m,1*%\n%ABD20*%\nD10*\n%AB*%\n"
    typed = c.choice("typed", ["G", "D", "%", "G0", "D1"])
    d = document(head + typed)
    r = ask(d.on_completion(L.CompletionParams(text_document=L.TextDocumentIdentifier(uri="x"), position=L.Position(line=head.count("\n"), character=c.choice("character", range(len(typed)))))))
    c.check(r is not None and len(r.items) > 0, "there are suggestions", typed)
    names = [x.label for x in r.items]
    c.check(len(set(names)) == len(names), "no suggestion is offered twice", f"{names}")
    v = c.choice("number", ["1", "3", "7"])
    if typed[0] == "D":
        c.check(sorted(names) == ["D10", "D12", "D20"], "exactly the apertures and blocks of the document are offered", f"{names}")
        for x in r.items:
            c.check(x.label in x.detail and ("AB" in x.detail) == (x.label == "D20"), "the definition is shown", f"{x.detail}")
        return
    for x in r.items:
        t = x.insert_text or x.label
        for t in (x.label, t):
            t = re.sub(r"\$\{\d+:([A-Z\d]+)\}", r"\1", t)
            t = re.sub(r"\$\{\d+:[^}]*\}", v, t)
            if typed[0] == "G":
                t = {"G54": "G54D10*", "G55": "G55X0Y0D03*"}.get(t, t if t.endswith("*") else t + "*")
            elif t.startswith("AD") and not re.search(r"[CROP],|[CROP]\*", t):
                t = re.sub(r"(ADD\d+)[^,*]+", r"\1m", t)
            nodes, e = c.calls(lambda: parse("%" + t + "%" if typed[0] == "%" else t).nodes)
            c.check(e is None and len(nodes) == (2 if t[:3] in ("G54", "G55") else 1), "the suggestion is a command", f"{t}: {e!r}")
            k = type(nodes[0]).__name__
            c.check(k == t[:3] if typed[0] == "G" else t.startswith(k[:2]), "the suggestion is the command of its name", f"{t}: {k}")
    if typed[0] == "G":
        c.check({"G01", "G02", "G03", "G04", "G36", "G37", "G75"} <= {t[:3] for t in names}, "the codes in use are offered", f"{names}")
    else:
        c.check({"ADD21C", "ADD21R", "ADD21O", "ADD21P"} <= {t[:6] for t in names} and {"FS", "MO", "LP"} <= {t[:2] for t in names}, "the commands in use are offered", f"{names}")


# ------------------------------------------------------------------ contents of the hover
HEAD = "%FSLAX26Y26*%\n%MO{unit}*%\n%AMm*\n1,1,$1,0,0*\n21,1,2,1,0,0,0*\n%\n%TA.AperFunction,Conductor*%\n%ADD10C,0.5*%\n%TD*%\n%ADD11R,1X2*%\n%ADD12O,1X2*%\n%ADD13P,2X5X10*%\n%ADD14m,1*%\n%ABD15*%\nD11*\nX1000000Y0D03*\n%AB*%\n"


def image_in(text):
    from PIL import Image

    m = re.search(r"base64,([A-Za-z0-9+/=]+)", text)
    return None if m is None else Image.open(io.BytesIO(base64.b64decode(m[1])))


def mm(v):
    return str(round(v * 10**6))


# ------------------------------------------------------------------ texts of the hover, from an arbitrary state
class Digits:
    """Coordinate format by contract (C01): a text denotes one number per axis, and packing a number gives a text that denotes it."""

    zeros, coordinate_mode = Zeros.SKIP_LEADING, CoordinateNotation.ABSOLUTE
    x_integral, x_decimal, y_integral, y_decimal = 3, 5, 4, 6

    def __init__(self, table):
        self.table = dict(table)

    def unpack_x(self, t):
        return self.table["X" + t]

    def unpack_y(self, t):
        return self.table["Y" + t]

    def _pack(self, a, v):
        t = str(100 + len(self.table))
        self.table[a + t] = v
        return t

    def pack_x(self, v):
        return self._pack("X", v)

    def pack_y(self, v):
        return self._pack("Y", v)


class Given(N.Node):
    """Stands for all commands before the hovered one: leaves an arbitrary state."""

    give: object = None

    def visit(self, visitor):
        self.give(visitor.state)
        return self

    def get_visitor_callback_function(self, visitor):
        return lambda n: n.visit(visitor)


def is_text(c, w):
    return isinstance(w, str) or (c.sym and isinstance(w, c.T.SymStr))


POINT = re.compile(r"(\w[\w ]*):[^\n]*?_x =_ `([^`]*)` _y =_ `([^`]*)`")
BASE = {"source_info", "attribute_name", "user_name"}
TO_NAMES = ["to_markdown", "on_to_user_name", "on_to_n", "on_to_p", "on_to_c", "on_to_crot", "on_to_cmfr", "on_to_cmnp", "on_to_cval", "on_to_cmnt", "on_to_cftp", "on_to_cpgn", "on_to_cpgd", "on_to_chgt", "on_to_clbn", "on_to_clbd", "on_to_csup"]
DEFINED = ["ADC", "ADR", "ADO", "ADP", "ADmacro"]


class Shown:
    """Text shown, symbolic pieces replaced by marks that can be searched for."""

    def __init__(self, c, text):
        self.c, self.marks, out = c, [], []
        for p in [text] if isinstance(text, str) else text.p:
            if isinstance(p, str):
                out.append(p)
            else:
                out.append(f"\x00{len(self.marks)}\x00")
                self.marks.append(p)
        self.text = "".join(out)

    def number(self, t):
        """Value denoted by a part of the text."""
        m = re.fullmatch("\x00(\\d+)\x00", t)
        if m is None:
            return float(t)
        p = self.marks[int(m[1])]
        T = self.c.T
        self.c.check(isinstance(p, (T.SReal, T.PReal, T.SInt)), "a number is shown", f"{type(p).__name__}")
        return self.c.S.mkint(p.e) if isinstance(p, T.SInt) else self.c.S.mkreal(p.e)

    def equal(self, t, v):
        """A part of the text is the given text."""
        if isinstance(v, str):
            return t == v
        m = re.fullmatch("\x00(\\d+)\x00", t)
        return m is not None and [self.marks[int(m[1])]] == list(v.p)


class Reading(StateTrackingVisitor):
    """State before the last command of the file given for the preview."""

    def __init__(self, fmt):
        super().__init__()
        self.fmt, self.fs = fmt, []

    def on_fs(self, node):
        self.fs.append((node.zeros, node.coordinate_mode, node.x_integral, node.x_decimal, node.y_integral, node.y_decimal))
        self.state.coordinate_format = self.fmt
        return node


class Picture:
    """Stands for the preview image."""

    def save(self, fp, *a, **k):
        fp.write(b"x")


class Rendered(PillowResult):
    def __init__(self, log):
        self.log = log

    @property
    def main_box(self):
        return Box(min_x=0, min_y=0, max_x=4, max_y=2)

    def get_image(self, style=None, *a, **k):
        return Picture()


@contextmanager
def previewing():
    """Compiling and rendering by their contracts (C05..C12): only what they are asked for is recorded."""
    import pygerber.gerber.language_server._server.hover.gerber as H

    log, res = [], []
    old = {k: vars(H).get(k) for k in ("compile", "render")}

    def compile_stub(ast, *a, **k):
        log.append(ast)
        return ("program", len(log))

    def render_stub(program, *a, **k):
        res.append((program, k.get("dpmm")))
        return Rendered(log)

    if all(old.values()):
        H.compile, H.render = compile_stub, render_stub
    try:
        yield log, res
    finally:
        for k, v in old.items():
            if v is not None:
                setattr(H, k, v)


def hovered(c, node, fmt, give):
    first = put(Given(give=give), Place(0, 1))
    put(node, Place(5, 9))
    creator = GerberHoverCreator(N.File(nodes=[first, node, put(command("X7Y7D02*"), Place(10, 12))]))
    return Shown(c, c.noraise(lambda: creator.create_hover_markdown(node), "hover"))


PLOT = {PlotMode.LINEAR: "`Linear`", PlotMode.ARC: "`Clockwise Arc`", PlotMode.CCW_ARC: "`Counter-clockwise Arc`"}
MIRROR = {Mirroring.NONE: "`No Mirroring`", Mirroring.X: "`Mirroring X`", Mirroring.Y: "`Mirroring Y`", Mirroring.XY: "`Mirroring X and Y`"}
POLAR = {Polarity.Dark: "`Dark polarity`", Polarity.Clear: "`Clear polarity`"}
ARC = {ArcInterpolation.MULTI_QUADRANT: "`Multi-quadrant`", ArcInterpolation.SINGLE_QUADRANT: "`Single-quadrant`"}


@contract("C21", "points and state shown from any state", fns=[S + "hover.gerber.GerberHoverCreator." + n for n in ("on_d01", "on_d02", "on_d03", "on_dnn")], samples=60, max_paths=60000,
          assumes=["CoordinateFormat by its contract (C01)", "compile and render by their contracts (C05..C12)"],
          note="every operation with every combination of operands from an arbitrary state; current point, coordinates, rotation and scaling symbolic")
def _(c):
    if not AVAILABLE:
        return
    numbers(c)
    kind = c.choice("kind", ["D01", "D02", "D03", "Dnn"])
    plot, arc = c.choice("plot", list(PLOT)), c.choice("arc", list(ARC))
    pol = c.choice("polarity", list(Polarity)) if plot is PlotMode.ARC else Polarity.Clear
    mir = c.choice("mirror", list(Mirroring)) if plot is PlotMode.LINEAR and arc is ArcInterpolation.MULTI_QUADRANT else Mirroring.Y
    region = kind == "D01" and c.bool("region")
    ap = c.choice("aperture", ["D10", "D11", None] if kind != "D01" or region else ["D10", "D11"])
    x0, y0, rot, sc = c.real("x0"), c.real("y0"), c.real("rotation"), c.real("scaling")
    net = c.bool("net")
    has = {"x": c.bool("x"), "y": c.bool("y"), "i": False, "j": False}
    if kind == "D01" and plot is not PlotMode.LINEAR:
        has.update(i=c.bool("i"), j=c.bool("j"))
    v = {a: c.real("c" + a) for a in has}
    table, kw = {}, {}
    for k, a in enumerate(has):
        if has[a]:
            kw[a] = put(getattr(N, "Coordinate" + a.upper())(value=str(k + 1)), Place(5, 7))
            table[("X" if a in "xi" else "Y") + str(k + 1)] = v[a]
    fmt = Digits(table)
    node = N.Dnn(aperture_id="D11") if kind == "Dnn" else getattr(N, kind)(**kw)
    defs = {"D10": N.ADC(aperture_id="D10", diameter=1), "D11": N.ADR(aperture_id="D11", width=1, height=2)}
    name, owner = c.text("net name"), c.text("field")

    def give(st):
        st.coordinate_format, st.unit_mode = fmt, UnitMode.IMPERIAL
        st.plot_mode, st.arc_interpolation, st.is_region = plot, arc, region
        st.current_x, st.current_y, st.current_aperture_id = x0, y0, ap
        st.transform = Transform.model_construct(polarity=pol, mirroring=mir, rotation=rot, scaling=sc)
        st.apertures.apertures = dict(defs)
        st.apertures.blocks = {"D12": N.AB(open=N.ABopen(aperture_id="D12"), nodes=[], close=N.ABclose())}
        st.apertures.macros = {"m": N.AM(open=N.AMopen(name="m"), primitives=[], close=N.AMclose())}
        st.apertures.per_aperture_attributes = {"D11": {"Own": N.TA_UserName(user_name="Own", fields=[owner])}}
        st.attributes.object_attributes = {".N": N.TO_N(net_names=[name])} if net else {}

    with previewing() as (log, res):
        t = hovered(c, node, fmt, give)
    ex, ey = v["x"] if has["x"] else x0, v["y"] if has["y"] else y0
    want = {"D01": {"Starts at": (x0, y0), "Ends at": (ex, ey)}, "D02": {"Relocate to": (ex, ey)}, "D03": {"Flash at": (ex, ey)}, "Dnn": {}}[kind]
    if kind == "D01" and plot is not PlotMode.LINEAR:
        want["Arc center at"] = (x0 + (v["i"] if has["i"] else 0), y0 + (v["j"] if has["j"] else 0))
    shown = {m[1]: (m[2], m[3]) for m in POINT.finditer(t.text)}
    c.check(set(shown) == set(want), "points shown", f"{set(shown)} instead of {set(want)}")
    for k, (px, py) in want.items():
        c.check(c.And(t.number(shown[k][0]) == px, t.number(shown[k][1]) == py), f"{k}: point of the operation", t.text)
    if kind in ("D01", "D03"):
        for w in (f"`Aperture: {ap}`", PLOT[plot], POLAR[pol], MIRROR[mir]):
            c.check(w in t.text, "state of the operation is shown", w)
        for other in {*PLOT.values(), *MIRROR.values(), *POLAR.values()} - {PLOT[plot], MIRROR[mir], POLAR[pol]}:
            c.check(other not in t.text, "no other state is shown", other)
        for k, w in ARC.items():
            c.check((w in t.text) == (k is arc and plot is not PlotMode.LINEAR), "arc interpolation is shown", w)
        m = re.search(r"Rotation: ([^`]+)`.*Scale: ([^`]+)`", t.text, re.S)
        c.check(m is not None, "rotation and scaling are shown", t.text)
        c.check(c.And(t.number(m[1]) == rot, t.number(m[2]) == sc), "rotation and scaling are those in force")
    if kind != "D02":
        own = ap == "D11" or kind == "Dnn"
        m = re.search(r"Own[^\n]*`([^`\n]*)`", t.text)
        c.check((m is not None) == own, "attributes of the aperture are shown", t.text)
        c.check(m is None or t.equal(m[1], owner), "value of the attribute")
        m = re.search(r"`\.N`[^\n]*`([^`\n]*)`", t.text)
        c.check((m is not None) == net, "attributes of the object are shown", t.text)
        c.check(m is None or t.equal(m[1], name), "value of the attribute")
    c.check(len(log) == (1 if kind != "D02" and not region else 0), "one preview of each visible operation", f"{len(log)}")
    if log:
        nodes = list(log[0].nodes)
        c.check([p for p, _ in res] == [("program", 1)] * len(res) and len(res) > 0, "the preview is the rendered program")
        c.check(res[-1][1] == 50, "the preview is 200 pixels wide", f"{res}")
        last = nodes.pop()
        w = Reading(fmt)
        s = w.after = Walk.after(w, nodes)
        c.check(w.fs == [(fmt.zeros, fmt.coordinate_mode, 3, 5, 4, 6)], "the preview has the format of the file", f"{w.fs}")
        c.check(s.unit_mode is UnitMode.IMPERIAL, "the preview has the unit of the file")
        c.check(s.plot_mode is plot and s.arc_interpolation is arc and s.transform.mirroring is mir, "the preview has the modes of the file")
        c.check(c.And(s.transform.rotation == rot, s.transform.scaling == sc), "the preview has the transform of the file")
        c.check(s.current_aperture_id == ("D11" if kind == "Dnn" else ap), "the preview has the aperture", f"{s.current_aperture_id}")
        c.check(set(s.apertures.apertures) == {"D10", "D11"} and set(s.apertures.blocks) == {"D12"} and set(s.apertures.macros) == {"m"}, "the preview knows all apertures")
        if kind == "Dnn":
            c.check(isinstance(last, N.D03), "the aperture is flashed")
        else:
            c.check(last is node, "the operation is previewed")
            c.check(c.And(s.current_x == x0, s.current_y == y0), "the preview starts at the current point")


@contract("C21", "parameters shown of any definition or attribute", fns=[S + "hover.gerber.GerberHoverCreator." + n for n in ("on_adc", "on_adr", "on_ado", "on_adp", "on_ad_macro", "on_code_1", "on_code_2")] + [S + "hover.gerber.ToMarkdown." + n for n in TO_NAMES], samples=60, max_paths=60000,
          assumes=["compile and render by their contracts (C05..C12)"], note="every kind of definition, attribute and primitive with hover text, every combination of optional operands, numbers and texts symbolic; lists of up to 2 elements")
def _(c):
    if not AVAILABLE:
        return
    numbers(c)
    f = Fields(c)
    name = c.choice("kind", [*DEFINED, *(n for n in dir(N) if n.startswith(("TO_", "TA_"))), "Code1", "Code2"])
    cls = getattr(N, name)
    node = f.build(cls, **({"aperture_id": "D30"} if name in DEFINED else {"string": c.choice("string", ["abc", "x y"])} if name == "TA_FlashText" else {}))
    fmt = Digits({})
    fresh = c.bool("format")
    if name.startswith(("TO_", "TA_")):
        to = name.startswith("TO_")
        on = "D01" if to and c.bool("draw") else "D03" if to or c.bool("flash") else "Dnn"

        def give(st):
            st.coordinate_format = fmt
            st.current_aperture_id = "D30"
            if to:
                st.attributes.object_attributes = {"k": node}
            else:
                st.apertures.per_aperture_attributes = {"D31": {"k": N.TA_UserName(user_name="Other", fields=["z"])}, "D30": {"k": node}}

        with previewing():
            t = hovered(c, N.Dnn(aperture_id="D30") if on == "Dnn" else getattr(N, on)(), fmt, give)
        c.check(t.text.count("Object attributes" if to else "Aperture attributes") == 1, "attributes are shown once", on)
        part = t.text[t.text.find("Object attributes" if to else "Aperture attributes"):].split("Visualization")[0]
        part = part.split("\n- ")[-1]
        want = [getattr(node, k) for k in (cls.model_fields if name != "TA_FlashText" else ["string"]) if k not in BASE]
        if name == "TA_AperFunction":
            want = [node.function.value if node.function else "<missing>", *want[1:]]
        if name == "TA_DrillTolerance":
            part = part.replace("`+", "`")
        flat = []
        for w in want:
            flat += [x for x in (w if isinstance(w, list) else [w])]
        spans = re.findall(r"`([^`]*)`", part.split(": ", 1)[1])
        if len(spans) != len(flat):
            flat = [w for w in flat if w is not None]
        c.check(len(spans) == len(flat), "every field of the attribute is shown once", f"{part} for {[k for k in cls.model_fields if k not in BASE]}")
        for m, w in zip(spans, flat):
            if w is None:
                c.check(m == "None", "a missing field is not shown as a text", part)
            elif isinstance(w, enum.Enum):
                c.check(m == w.name, "fields of the attribute are shown in order", part)
            elif is_text(c, w):
                c.check(t.equal(m, w), "fields of the attribute are shown in order", part)
            else:
                c.check(t.number(m.removesuffix("°")) == w, "fields of the attribute are shown in order", part)
        return

    def give(st):
        st.coordinate_format = fmt if fresh else None
        if name.startswith("AD"):
            st.apertures.per_aperture_attributes = {node.aperture_id: {"Own": N.TA_UserName(user_name="Own", fields=["q"])}, "D99": {"Other": N.TA_UserName(user_name="Other", fields=["z"])}}

    with previewing() as (log, res):
        t = hovered(c, node, fmt, give)
    part = re.sub(r"```.*?```", "", t.text, flags=re.S).split("Specification")[0]
    if name.startswith("AD"):
        c.check("`Own`" in part and "Other" not in part, "attributes of the aperture are shown", part)
        part = part.split("Aperture attributes")[0]
        c.check(len(log) == (1 if fresh else 0), "preview when the format is known", f"{len(log)}")
        if log:
            n = log[0].nodes
            c.check(any(x is node for x in n) and isinstance(n[-2], N.Dnn) and n[-2].aperture_id == node.aperture_id and isinstance(n[-1], N.D03), "the aperture is previewed")
    shown = {}
    for m in re.finditer(r" - ([^\n:]+): ?`([^`]*)`", part):
        c.check(m[1] not in shown, "every parameter is shown once", part)
        shown[m[1].strip().replace("_", " ").strip("`")] = m[2].strip().removesuffix("°").strip()
    want = {k: getattr(node, k) for k in cls.model_fields if k not in {*BASE, "aperture_id"}}
    if name == "ADmacro":
        want = {"macro name": node.name, **{f"parameter `${i}": p for i, p in enumerate(node.params or [], 1)}}
    for k, w in want.items():
        k = {"vertices": "vertex count"}.get(k, k.replace("_", " "))
        if name in ("Code1", "Code2") and w is not None:
            w = w.text
        c.check(k in shown, "every parameter is shown", f"{k} in {shown}")
        if w is None:
            c.check(shown[k] in (["0.0", "0"] if k == "rotation" and name == "ADP" else ["None"]), "a missing parameter is not shown as a number", f"{k}: {shown[k]}")
        elif is_text(c, w):
            c.check(t.equal(shown[k], w), "parameter is shown under its name", f"{k}: {shown[k]}")
        else:
            c.check(t.number(shown[k]) == w, "parameter is shown under its name", f"{k}: {shown[k]}")


@contract("C21", "hover shows the operation and its state", fns=[S + "hover.gerber.GerberHoverCreator." + n for n in ("on_d01", "on_d02", "on_d03", "on_dnn", "_append_xy", "_append_current_xy", "_plot_mode", "_polarity", "_transform", "_arc_interpolation_mode", "_current_aperture", "_aperture_attributes", "_object_attributes", "_visualize_draw_op")],
          bounded=True, samples=120, note="bounded: sampled modes, apertures, transforms, positions and attributes")
def _(c):
    if not AVAILABLE:
        return
    plot = c.choice("plot", list(PLOT))
    ap = c.choice("aperture", ["D10", "D11", "D12", "D13", "D14", "D15"])
    kind = c.choice("kind", ["D01", "D02", "D03", "Dnn"])
    if kind == "D01":
        ap = "D10"
    region = kind == "D01" and c.bool("region")
    mir, pol = c.choice("mirror", list(Mirroring)), c.choice("polarity", list(Polarity))
    rot, sc = c.choice("rotation", [0, 30, 90]), c.choice("scale", [1, 2, 0.5])
    unit = c.choice("unit", ["MM", "IN"])
    x0, y0 = round(c.real("x0", -5, 5), 3), round(c.real("y0", -5, 5), 3)
    R = 3
    import math

    a = c.choice("angle", [40, 100, 200, 300])
    a0 = c.choice("angle0", [0, 70, 210])
    cx, cy = x0 - R * math.cos(math.radians(a0)), y0 - R * math.sin(math.radians(a0))
    x1, y1 = cx + R * math.cos(math.radians(a0 + a)), cy + R * math.sin(math.radians(a0 + a))
    both = c.choice("coordinates", ["xy", "x", "y"]) if kind != "D01" or plot is PlotMode.LINEAR else "xy"
    xy = ("X" + mm(x1) if "x" in both else "") + ("Y" + mm(y1) if "y" in both else "")
    ij = f"I{mm(cx - x0)}J{mm(cy - y0)}" if kind == "D01" and plot is not PlotMode.LINEAR else ""
    state = [{PlotMode.LINEAR: "G01*", PlotMode.ARC: "G02*", PlotMode.CCW_ARC: "G03*"}[plot], "G75*", f"%LP{pol.value}*%", f"%LM{mir.value}*%", f"%LR{rot}*%", f"%LS{sc}*%"]
    net = c.bool("net")
    body = state + ([f"{ap}*"] if kind != "Dnn" else []) + (["%TO.N,NET7*%"] if net else []) + (["G36*"] if region else []) + [f"X{mm(x0)}Y{mm(y0)}D02*"]
    cmd = f"{ap}*" if kind == "Dnn" else f"{xy}{ij}{kind}*"
    head = HEAD.format(unit=unit)
    text = head + "\n".join(body) + "\n" + cmd + "\n" + ("G37*\n" if region else "") + "%LPD*%\nD10*\nX0Y0D02*\nM02*\n"
    ln = text[:text.index("\n" + cmd + "\n", len(head) + len("\n".join(body)) - 1) + 1].count("\n")
    d = document(text)
    h = ask(d.on_hover(L.HoverParams(text_document=L.TextDocumentIdentifier(uri="x"), position=L.Position(line=ln, character=c.choice("character", range(len(cmd)))))))
    c.check(h is not None, "the command is found")
    c.check((h.range.start.line, h.range.start.character, h.range.end.line, h.range.end.character) == (ln, 0, ln, len(cmd)), "range of the command", f"{h.range} instead of line {ln}")
    t = h.contents.value
    node = parse(cmd).nodes[0]
    b = io.StringIO()
    Formatter().format(N.File(nodes=[node]), b)
    c.check("```gerber\n" + b.getvalue() in t, "the command is shown", t[:80])
    ex, ey = x1 if "x" in both else x0, y1 if "y" in both else y0
    shown = {m[1]: (float(m[2]), float(m[3])) for m in re.finditer(r"(\w[\w ]*):[^\n]*?_x =_ `([^`]*)` _y =_ `([^`]*)`", t)}
    want = {"D01": {"Starts at": (x0, y0), "Ends at": (ex, ey), **({"Arc center at": (cx, cy)} if ij else {})}, "D02": {"Relocate to": (ex, ey)}, "D03": {"Flash at": (ex, ey)}, "Dnn": {}}[kind]
    c.check(set(shown) == set(want), "points shown", f"{shown} instead of {want}")
    for k, v in want.items():
        c.check(all(abs(p - q) < 2e-6 for p, q in zip(shown[k], v)), f"{k}: point of the operation", f"{shown[k]} instead of {v}")
    if kind in ("D01", "D03"):
        for w in (f"`Aperture: {ap}`", PLOT[plot], POLAR[pol], MIRROR[mir]):
            c.check(w in t, "state of the operation is shown", w)
        for other in set(PLOT.values()) | set(MIRROR.values()) | set(POLAR.values()):
            c.check(other in (PLOT[plot], MIRROR[mir], POLAR[pol]) or other not in t, "no other state is shown", other)
        m = re.search(r"Rotation: ([-\d.]+)`.*Scale: ([-\d.]+)`", t, re.S)
        c.check(m is not None and float(m[1]) == rot and float(m[2]) == sc, "rotation and scaling are shown", t)
        c.check(("`Multi-quadrant`" in t) == (plot is not PlotMode.LINEAR), "arc interpolation is shown")
    if kind != "D02":
        c.check((".AperFunction" in t) == (ap == "D10"), "attributes of the aperture are shown")
        c.check(("NET7" in t) == net, "attributes of the object are shown")
        im = image_in(t)
        if region:
            return
        c.check(im is not None, "preview is shown")
        if ap == "D15":  # preview of a block: only its presence
            return
        mine = head + "G75*\n" + "\n".join(x for x in state if x[:3] != "%LP") + f"\n{ap}*\nX{mm(x0)}Y{mm(y0)}D02*\n" + (cmd if kind != "Dnn" else f"X0Y0D03*") + "\nM02*"
        prog = compile_(parse(mine))
        ref = render(prog, dpmm=200 / render(prog, dpmm=1).main_box.width).get_image(Style.presets.COPPER_ALPHA)
        c.check(abs(im.size[0] - ref.size[0]) <= 1 and abs(im.size[1] - ref.size[1]) <= 1, "size of the preview", f"{im.size} instead of {ref.size}")
        a, r = im.convert("RGBA").getchannel("A").resize(ref.size), ref.convert("RGBA").getchannel("A")
        pa, pr = [v > 127 for v in a.getdata()], [v > 127 for v in r.getdata()]
        diff = sum(x != y for x, y in zip(pa, pr))
        c.check(diff <= 0.03 * max(1, sum(pr)) + 50, "preview shows the operation", f"{diff} pixels of {sum(pr)} differ")


@contract("C21", "hover answers for every command of a valid file", fns=[S + "hover.gerber.GerberHoverCreator.create_hover_markdown", S + "documents.gerber.GerberDocument.on_hover"], bounded=True, samples=100, note="bounded: positions in one file with every kind of command")
def _(c):
    if not AVAILABLE:
        return
    text = HEAD.format(unit="MM") + "G75*\nD10*\nX0Y0D02*\nX1000000Y0D01*\nG02*\nX0Y1000000I0J1000000D01*\nG03*\nX1000000Y0I1000000J0D01*\nD15*\nX0Y0D03*\nG36*\nG01*\nX0Y0D02*\nX1000000Y0D01*\nX0Y1000000D01*\nX0Y0D01*\nG37*\n%LPC*%\n%LMX*%\n%LR30*%\n%LS2*%\n%TO.N,n*%\n%TO.C,R1*%\n%TF.Part,Single*%\n%TA.DrillTolerance,0.1,0.2*%\n%TA.FlashText,abc,C,R*%\n%TAx,1*%\n%TF.FileFunction,Copper,L1,Top*%\n%TFu,5*%\nX0Y0D03*\n%SRX2Y2I1J1*%\nX0Y0D03*\n%SR*%\n%TD*%\nG04 c*\nM02*\n"
    lines = text.splitlines()
    ln = c.choice("line", range(len(lines)))
    ch = c.choice("character", range(len(lines[ln])))
    d = document(text)
    h = c.noraise(lambda: ask(d.on_hover(L.HoverParams(text_document=L.TextDocumentIdentifier(uri="x"), position=L.Position(line=ln, character=ch)))), "hover")
    c.check(h is not None and h.range.start.line == ln and h.range.start.character == 0 and h.range.end.line == ln and h.range.end.character == len(lines[ln]), "range of the command", f"line {ln}: {h and h.range}")
    if re.match(r"%T|D\d|X", lines[ln]):
        c.check(f"\n{lines[ln]}\n" in h.contents.value, "the command is shown", f"{lines[ln]} in {h.contents.value[:200]}")


DEFS = [
    ("%ADD30C,{a}*%", ["Circle", "{a}"]), ("%ADD30C,{a}X{h}*%", ["Circle", "{a}", "{h}"]),
    ("%ADD30R,{a}X{b}*%", ["Rectangle", "{a}", "{b}"]), ("%ADD30R,{a}X{b}X{h}*%", ["Rectangle", "{a}", "{b}", "{h}"]),
    ("%ADD30O,{a}X{b}*%", ["Obround", "{a}", "{b}"]), ("%ADD30O,{a}X{b}X{h}*%", ["Obround", "{a}", "{b}", "{h}"]),
    ("%ADD30P,{a}X7*%", ["Polygon", "{a}", "7", "0.0°"]), ("%ADD30P,{a}X7X15.5*%", ["Polygon", "{a}", "7", "15.5°"]), ("%ADD30P,{a}X7X15.5X{h}*%", ["Polygon", "{a}", "7", "15.5°", "{h}"]),
    ("%ADD30m,{a}*%", ["m", "$1", "{a}"]), ("%ADD30m,{a}X{b}*%", ["m", "$1", "{a}", "$2", "{b}"]),
]
ATTRS = [
    ("%TO.N,n1,n2*%", [".N", "n1", "n2"]), ("%TO.P,U1,4,sig*%", [".P", "U1", "4", "sig"]), ("%TO.C,R7*%", [".C", "R7"]), ("%TO.CRot,45.5*%", [".CRot", "45.5°"]),
    ("%TO.CMfr,maker*%", [".CMfr", "maker"]), ("%TO.CMPN,pn5*%", [".CMPN", "pn5"]), ("%TO.CVal,10k*%", [".CVal", "10k"]), ("%TO.CMnt,SMD*%", [".CMnt", "SMD"]), ("%TO.CFtp,SO8*%", [".CFtp", "SO8"]),
    ("%TO.CPgN,pack*%", [".CPgN", "pack"]), ("%TO.CPgD,descr*%", [".CPgD", "descr"]), ("%TO.CHgt,2.5*%", [".CHgt", "2.5"]), ("%TO.CLbN,lib*%", [".CLbN", "lib"]), ("%TO.CLbD,libd*%", [".CLbD", "libd"]),
    ("%TO.CSup,s1,p1,s2,p2*%", [".CSup", "s1", "p1", "s2", "p2"]), ("%TOMine,f1,f2*%", ["Mine", "f1", "f2"]),
]


@contract("C21", "hover shows the parameters of definitions and attributes", fns=[S + "hover.gerber.GerberHoverCreator." + n for n in ("on_adc", "on_adr", "on_ado", "on_adp", "on_ad_macro", "on_code_1", "on_code_2", "_visualize_aperture_definition")] + [S + "hover.gerber.ToMarkdown." + n for n in ("to_markdown", "on_to_n", "on_to_p", "on_to_c")],
          bounded=True, samples=100, note="bounded: sampled sizes; every kind of definition and object attribute")
def _(c):
    if not AVAILABLE:
        return
    kind = c.choice("kind", ["definition", "attribute", "primitive"])
    head = HEAD.format(unit="MM")
    v = dict(a=round(c.real("a", 1, 9), 2), b=round(c.real("b", 1, 9), 2), h=round(c.real("h", 0.1, 0.8), 2))
    if kind == "definition":
        cmd, want = c.choice("definition", DEFS)
        own = c.bool("attributed")
        text = head + ("%TAOwn,q*%\n" if own else "") + cmd.format(**v) + "\n%TAOther,z*%\nM02*"
        want = [w.format(**v) for w in want]
        ln = text.count("\n") - 2
    elif kind == "attribute":
        cmd, want = c.choice("attribute", ATTRS)
        other, _w = c.choice("second", ATTRS)
        text = head + cmd + "\n" + (other if c.bool("two") and other != cmd else "G04 x*") + "\nD11*\nX0Y0D03*\n%TO.N,late*%\nM02*"
        ln = text.count("\n") - 2
    else:
        two = c.bool("line")
        cmd = "2,1,{h},{a},{b},{b},0.25,15*" if two else "1,1,{h},{a},{b}*"
        text = "%FSLAX26Y26*%\n%MOMM*%\n%AMq*\n" + cmd.format(**v) + "\n%\nM02*"
        want = [f"{n}: ` {x}" for n, x in (("exposure", "1.0"), ("width", v["h"]), ("start_x", v["a"]), ("start_y", v["b"]), ("end_x", v["b"]), ("end_y", "0.25"), ("rotation", "15.0"))] if two else [f"{n}: ` {x}" for n, x in (("exposure", "1.0"), ("diameter", v["h"]), ("center_x", v["a"]), ("center_y", v["b"]))]
        ln = 3
    h = c.noraise(lambda: ask(document(text).on_hover(L.HoverParams(text_document=L.TextDocumentIdentifier(uri="x"), position=L.Position(line=ln, character=1)))), "hover")
    c.check(h is not None and h.range.start.line == ln, "the command is found", f"{h and h.range}")
    t = h.contents.value
    if kind == "primitive":
        flat = re.sub(r"\s+", "", t)
        for w in want:
            c.check(re.sub(r"\s+", "", w) in flat, "parameter is shown under its name", f"{w} in {t[:200]}")
        return
    pos = 0
    shown = re.sub(r"```.*?```", "", t.split("Specification")[0].split("base64")[0], flags=re.S)
    if kind == "attribute":
        shown = shown[shown.find("Object attributes"):]
        c.check("late" not in t, "attributes set later are not shown")
    for w in want:
        i = shown.find(w, pos)
        c.check(i >= 0, "parameters are shown in order", f"{w} of {want} in {shown[:300]}")
        pos = i + len(w)
    if kind == "definition":
        c.check(image_in(t) is not None, "preview is shown")
