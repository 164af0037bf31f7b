"""Parsing (bounded: the grammar is interpreted by pyparsing on texts generated per command; see DESIGN.md)."""
import datetime
import enum
import hashlib
import inspect
import re

import pygerber.gerber.ast.nodes as N
from pygerber.gerber.ast.nodes import Expression
from pygerber.gerber.ast.nodes.base import Node
from pygerber.gerber.parser import parse

from contracts.nodelib import Builder, concrete_classes, hints
from contracts.texts import Num, text
from pyvc.registry import contract

GRAM = "pygerber.gerber.parser.pyparsing.grammar.Grammar."
FNS = ["pygerber.gerber.parser.parse", "pygerber.gerber.parser.pyparsing.parser.Parser.parse", GRAM + "build", GRAM + "make_unpack_callback"]

INNER = {"AMopen", "AMclose", "ABopen", "ABclose", "SRopen", "SRclose", "Point", "File", "Invalid"}
EXPR = {k for k, v in concrete_classes().items() if issubclass(v, Expression)}
PRIM = {k for k in concrete_classes() if k.startswith("Code") and k[4:].isdigit()} | {"Assignment"}
COORD = {f"Coordinate{a}" for a in "XYIJ"}
COMMANDS = sorted(set(concrete_classes()) - INNER - EXPR - PRIM - COORD - {"AM", "AB", "SR"})
WORDS = ["R1", "a b", "C12.3", "x;y", "net_1", "+5V", "N/C", "über", "$1", "D01", "(ab)", "G04", "1-2", "0", "\\u00B5F", "a\\b", '"q"', "<x>", "#1?", "a=b&c", "x:[y]", "{z}~|^", "'!@`"]
OPERATORS = [("Add", "+"), ("Sub", "-"), ("Mul", "x"), ("Div", "/")]


class Texts(Builder):
    """Nodes with operands that have a text in the Gerber language."""

    def __init__(self, c):
        super().__init__(pick=lambda name, seq: c.choice(self.pre + name, seq))
        self.c, self.pre = c, ""

    def number(self, name):
        c = self.c
        k = c.choice(self.pre + name + ".k", range(4))
        if k == 0:
            return float(c.int(self.pre + name, 0, 20))
        if k == 1:
            return -c.int(self.pre + name, 0, 4000) / 16
        return c.int(self.pre + name, 0, 99999) / 1000

    def word(self, name):
        return self.c.choice(self.pre + name, WORDS)

    def expression(self, name, depth=2):
        c, n = self.c, self.pre + name
        k = c.choice(n + ".e", range(7)) if depth else c.choice(n + ".e", [0, 1])
        if k in (0, 6):
            return N.Constant(constant=abs(self.number(name)))
        if k == 1:
            return N.Variable(variable=f"${c.choice(n + ".big", [1, 1, 100]) * c.int(n, 1, 40)}")
        # precedence: unary, then / , x, -, + ; operands are built from tighter levels
        return self.level(name, c.choice(n + ".lv", range(5)), depth)

    def level(self, name, lv, depth):
        """Expression whose text the grammar reads back as the same tree (operands bind tighter than the operator)."""
        c, n = self.c, self.pre + name
        order = ["Add", "Sub", "Mul", "Div"]
        if lv < 4:
            cls = getattr(N, order[lv])
            ops = []
            for i in range(c.choice(n + ".n", [2, 2, 3])):
                sub = c.choice(f"{n}.{i}.lv", range(lv + 1, 7))
                ops.append(self.level(f"{name}.{i}", sub, depth - 1) if depth > 1 else self.expression(f"{name}.{i}", 0))
            return cls(head=ops[0], tail=ops[1:])
        if lv == 4:
            cls = N.Neg if c.choice(n + ".u", [0, 1]) else N.Pos
            return cls(operand=self.expression(name + ".op", 0))
        if lv == 5 and depth == 2:
            return N.Parenthesis(inner=self.level(name + ".in", c.choice(n + ".ilv", range(4)), 1))
        return self.expression(name + ".a", 0)

    def value(self, t, name):
        c = self.c
        if t is float:
            v = self.number(name)
            return v
        if t is int:
            return c.int(self.pre + name, 0, 1 if self.cls == "MI" else 9)
        if inspect.isclass(t) and issubclass(t, Expression) and t.__name__ == "Expression":
            return self.expression(name)
        if t is datetime.datetime:
            d = c.int(self.pre + name, 0, 4000)
            return datetime.datetime(2015, 1, 1, 3, 4, 5, tzinfo=datetime.timezone(datetime.timedelta(hours=c.int(self.pre + name + ".tz", -11, 12)))) + datetime.timedelta(days=d)
        leaf = name.rsplit(".", 1)[-1]
        if leaf.startswith("md5"):
            return f"{c.int(self.pre + name, 1, 10**9):032x}"
        if inspect.isclass(t) and issubclass(t, str) and not issubclass(t, enum.Enum):
            if leaf == "aperture_id":
                return t(f"D{c.int(self.pre + name, 10, 2000) if c.choice(self.pre + name + ".big", range(6)) else c.int(self.pre + name, 9999, 2147483647)}")
            if leaf == "user_name":
                return c.choice(self.pre + name, ["abc", "_x", "A1.b", "Part", "N", "$p", "Zz_9.z"])
            if leaf == "variable":
                return t(f"${c.int(self.pre + name, 1, 40)}")
            if leaf == "value" and self.cls.startswith("Coordinate"):
                return t(c.choice(self.pre + name + ".s", ["", "-", "+"]) + c.choice(self.pre + name + ".z", ["", "00"]) + str(c.int(self.pre + name, 0, c.choice(self.pre + name + ".d", [9999999, 9999999, 999999999999]))))
            if leaf in ("i", "j") and self.cls == "SRopen" and c.choice(self.pre + name + ".d", range(2)):
                return c.choice(self.pre + name, ["3.5", "0.125", ".75", "12.", "0.0"])
            if leaf in ("x", "y", "i", "j"):
                return str(abs(c.int(self.pre + name, 0, 50)))
            if leaf == "name" and self.cls in ("AMopen", "ADmacro"):
                return c.choice(self.pre + name, ["MAC", "a.b", "_m", "$x1", "C1", "RR", "Pad9", "OX", "P_"])
            if leaf == "name" and self.cls == "TD":
                return c.choice(self.pre + name, [".AperFunction", "abc", ".N", "x1"])
            if leaf == "string" and self.cls == "G04":
                return c.choice(self.pre + name, [" comment", "x", " a,b $ 1", "#@! TA.X", "\nmulti\nline", "D01", " ", "G01X1"])
            if leaf == "string" and self.cls == "Code0":
                return c.choice(self.pre + name, [" comment", " a,b", ",1,2"])
            return t(self.word(name))
        return super().value(t, name)

    def build(self, cls, prefix="", **over):
        old, self.cls = getattr(self, "cls", ""), cls.__name__
        kw = {}
        for k, t in hints(cls).items():
            self.cls = cls.__name__
            if k in over:
                kw[k] = over[k]
            elif k == "is_standalone":
                kw[k] = True
            else:
                kw[k] = self.value(t, prefix + k)
        self.cls = old
        return cls(**kw)

    def macro(self, name):
        c, n = self.c, self.pre + name
        prims = []
        for i in range(c.choice(n + ".prims", range(4))):
            k = c.choice(f"{n}.{i}.t", sorted(PRIM))
            p = f"{name}.{i}."
            if k == "Code4":
                pts = [N.Point(x=self.expression(f"{p}{j}x", 1), y=self.expression(f"{p}{j}y", 1)) for j in range(c.choice(f"{n}.{i}.pts", [1, 2, 4]))]
                prims.append(self.build(N.Code4, p, points=pts))
            else:
                prims.append(self.build(getattr(N, k), p))
        return N.AM(open=self.build(N.AMopen, name + ".open."), primitives=prims, close=N.AMclose())

    def commands(self, name, count, depth=1, top=True):
        c, out = self.c, []
        for i in range(count):
            p = f"{name}{i}."
            kind = c.choice(self.pre + p + "kind", ["command"] * 8 + ["macro"] + (["AB"] + ["SR"] * top if depth else []))
            if kind == "command":
                out.append(self.fix(self.build(getattr(N, c.choice(self.pre + p + "type", COMMANDS)), p)))
            elif kind == "macro":
                out.append(self.macro(p + "am"))
            else:
                inner = self.commands(p + "in", c.choice(self.pre + p + "len", range(4)), depth - 1, False)
                o, cl = getattr(N, kind + "open"), getattr(N, kind + "close")
                out.append(getattr(N, kind)(open=self.build(o, p + "open."), nodes=inner, close=cl()))
        return out

    def fix(self, n):
        """Operands that have a default are written by every text of the command."""
        k = type(n).__name__
        up = {}
        if k == "ADP" and n.rotation is None and n.hole_diameter is not None:
            up["rotation"] = 0.0
        if k == "ADmacro" and not n.params:
            up["params"] = None
        if k == "TA_FlashText":
            up = {"font": n.font or "", "size": n.size or ""}
            if n.comments == []:
                up = {"font": n.font if n.size is None else n.font or "", "size": n.size}
        if k == "TF_GenerationSoftware":
            up = {a: getattr(n, a) or "" for a in ("vendor", "application", "version")}
        if k == "TF_ProjectId":
            up = {a: getattr(n, a) or "" for a in ("name", "guid", "revision")}
        if k == "TA_DrillTolerance" and n.plus_tolerance is None:
            up = {"minus_tolerance": None}
        if k in ("TF_CreationDate",) and n.creation_date is None:
            up = {}
        return n.model_copy(update=up) if up else n


def number_text(c, name, v):
    s = f"{abs(v):.6f}".rstrip("0").rstrip(".")
    k = c.choice(name, range(4))
    if k == 1 and "." not in s:
        s += ".0"
    elif k == 2 and s.startswith("0."):
        s = s[1:]
    elif k == 3 and "." not in s:
        s += "."
    return ("-" if v < 0 else "") + s


class Writer:
    """Writes nodes as text and records where each top level command is."""

    def __init__(self, c):
        self.c, self.n, self.out = c, 0, ""

    def leaf(self, n):
        c = self.c
        s = ""
        for it in text(n):
            self.n += 1
            s += str(it) if not isinstance(it, Num) else str(it.v) if isinstance(it.v, int) else number_text(c, f"num{self.n}", it.v)
        k = type(n).__name__
        m = {"D01": ["D01", "D1", "D001", ""], "D02": ["D02", "D2", "D0002"], "D03": ["D03", "D3", "D0003"], "M02": ["M02", "M2", "M002", "M0002"], "M00": ["M00", "M0", "M000"], "M01": ["M01", "M1", "M001"]}
        if k in m and (k != "D01" or n.x is not None or n.y is not None):
            s = s[: -len(k) - 1] + c.choice(f"form{self.n}", m[k]) + "*"
        if k[0] == "G" and k[1:].isdigit():
            code = c.choice(f"form{self.n}", [k, "G" + str(int(k[1:])), "G0" + k[1:], "G000" + k[1:]])
            s = code + s[3:]
        way = c.choice(f"way{self.n}", range(5))  # spellings that do not change the meaning
        if way == 0 and (k in ("Dnn", "ABopen") or k[:2] == "AD"):
            s = re.sub(r"^(%AD|%AB|)D(?=\d)", lambda m: m[1] + c.choice(f"zeros{self.n}", ["D0", "D000"]), s)
        elif way == 1 and k[0] == "D" and k != "Dnn":
            s = re.sub(r"(?<=.)(?=[XYIJD*])", lambda _m: c.choice(f"space{self.n}", [" ", "\n"]), s)
        elif way == 2 and s.endswith("*%"):
            s = s[:-1] + c.choice(f"break{self.n}", ["\n", "\r\n", " "]) + "%"
        elif way == 3 and k in PRIM and k != "Code0":
            s = s.replace("x", "X")
        elif way == 4 and k == "TA_FlashText" and n.mirroring == "R":
            s = s.replace(f",{n.mode},R", f",{n.mode},", 1)
        return s

    def gap(self):
        self.n += 1
        self.out += self.c.choice(f"gap{self.n}", ["", "\n", "\r\n", "\n\n", "\n  ", " "])

    def put(self, n, spans):
        k = type(n).__name__
        a = len(self.out)
        if k in ("AB", "SR", "AM"):
            sub = []
            self.put(n.open, sub)
            for x in n.primitives if k == "AM" else n.nodes:
                self.gap()
                self.put(x, sub)
            self.gap()
            self.put(n.close, sub)
            spans.append((a, len(self.out), sub))
        else:
            self.out += self.leaf(n)
            spans.append((a, len(self.out), None))


def same(a, b):
    """Equality of trees, ignoring the source positions; None if equal, else a description."""
    if type(a) is not type(b):
        return f"{type(a).__name__} {a!r} instead of {type(b).__name__} {b!r}"
    for k in hints(type(b)):
        x, y = getattr(a, k), getattr(b, k)
        xs, ys = (x, y) if isinstance(y, list) else ([x], [y])
        if not isinstance(xs, list) or len(xs) != len(ys):
            return f"{type(b).__name__}.{k}: {x!r} instead of {y!r}"
        for p, q in zip(xs, ys):
            if isinstance(q, Node):
                r = same(p, q)
                if r:
                    return f"{type(b).__name__}.{k}: {r}"
            elif p != q:
                return f"{type(b).__name__}.{k}: {p!r} instead of {q!r}"
    return None


def sub_nodes(n):
    k = type(n).__name__
    return [n.open, *(n.primitives if k == "AM" else n.nodes), n.close]


def check_spans(c, nodes, spans, src):
    for n, (a, b, sub) in zip(nodes, spans):
        i = n.source_info
        c.check(i is not None and i.source == src, "every command knows its source")
        c.check((i.location, i.end_location) == (a, b), "every command has the position of its text", f"{type(n).__name__} {src[a:b]!r}: {(i.location, i.end_location)} {(a, b)}")
        if sub:
            check_spans(c, sub_nodes(n), sub, src)


def attempt(fn):
    try:
        return fn(), None
    except Exception as e:  # noqa: BLE001
        return None, e


@contract("C20", "texts of commands are read as these commands", fns=FNS, bounded=True, samples=6000, weight=8,
          note="bounded: generated files of up to 4 commands of every type, blocks nested up to 2 deep, every spelling of codes and numbers, several kinds of line breaks")
def _(c):
    t = Texts(c)
    nodes = t.commands("n", c.choice("count", range(1, 5)), 2)
    w, spans = Writer(c), []
    w.out = c.choice("lead", ["", "\n", "  "])
    for n in nodes:
        w.put(n, spans)
        w.gap()
    src = w.out
    tree, err = attempt(lambda: parse(src))
    c.check(err is None, "valid text is accepted", f"{src!r}: {str(err)[:300]}")
    r = "" if len(tree.nodes) == len(nodes) else f"{len(tree.nodes)} nodes"
    for a, b in zip(tree.nodes, nodes):
        r = r or same(a, b)
    c.check(not r, "each command is read as written, in order", f"{src!r}: {r}")
    check_spans(c, tree.nodes, spans, src)


@contract("C20", "every command with every operand", fns=FNS, bounded=True, samples=5000, weight=6,
          note="bounded: one command, macro or primitive per file, the type enumerated in turn")
def _(c):
    t = Texts(c)
    k = c.choice("type", [*COMMANDS, *sorted(PRIM)])
    if k in PRIM:
        over = {}
        if k == "Code4":
            over["points"] = [N.Point(x=t.expression(f"{j}x"), y=t.expression(f"{j}y", 1)) for j in range(c.choice("pts", [1, 2, 3]))]
        node = N.AM(open=t.build(N.AMopen, "open."), primitives=[t.build(getattr(N, k), "p.", **over)], close=N.AMclose())
    else:
        node = t.fix(t.build(getattr(N, k), "n."))
    w = Writer(c)
    w.put(node, [])
    tree, err = attempt(lambda: parse(w.out))
    c.check(err is None, "valid text is accepted", f"{w.out!r}: {str(err)[:300]}")
    r = "several commands" if len(tree.nodes) != 1 else same(tree.nodes[0], node)
    c.check(not r, "the command is read with exactly its operands", f"{w.out!r}: {r}")


@contract("C20", "operation codes joined to graphics codes", fns=FNS + [GRAM + "g_codes"], bounded=True, samples=400,
          note="bounded: every G code joined with every D code and one command before and after")
def _(c):
    t = Texts(c)
    g = c.choice("g", ["G01", "G02", "G03", "G36", "G37", "G54", "G55", "G70", "G71", "G74", "G75", "G90", "G91"])
    d = t.build(getattr(N, c.choice("d", ["D01", "D02", "D03", "Dnn"])), "d.")
    gn = getattr(N, g)(is_standalone=False)
    w = Writer(c)
    if isinstance(d, N.Dnn):
        dt = w.leaf(d)
    else:
        dt = w.leaf(d)
        if dt == "*":
            dt = "D01*"
    if dt[0] not in "DXYIJ":
        dt = "X0" + dt
    pre = c.choice("pre", ["", "G04 a*", "D10*\n"])
    src = pre + c.choice("form", [g, "G" + str(int(g[1:]))]) + dt + c.choice("post", ["", "M02*", "\nG01*"])
    tree, err = attempt(lambda: parse(src))
    c.check(err is None, "valid text is accepted", f"{src!r}: {str(err)[:300]}")
    i = 1 if pre else 0
    a, b = tree.nodes[i], tree.nodes[i + 1]
    d2 = d.model_copy(update={"is_standalone": False})
    r = same(a, gn) or (same(b, d2) if dt[0] != "X" or getattr(d, "x", None) is not None else None)
    c.check(not r, "both commands are read", f"{src!r}: {r}")
    c.check((a.source_info.location, b.source_info.location) == (len(pre), src.index(dt, len(pre))), "positions of joined commands")


BAD = ["ZZ9*", "%XXFOO*%", "G99*", "hello", "%LPX*%", "%MOKM*%", "X1Y2D04*", "D9*", "%ADD10C,*%", "%ADD5C,1*%", "M03*", "%FSLAX26*%", "X1Y", "%SRX*%", "%AB10*%", "%TX.A*%", "%ADD10R,1X*%", "%LR*%", "G04 x", "1.5*", "%LMZ*%", "%TF*%"]


@contract("C20", "invalid text is reported", fns=FNS + [GRAM + "build_resilient", GRAM + "_invalid_token"], bounded=True, samples=1500, weight=3,
          note="bounded: one malformed command of a list of kinds on a line of its own in a generated file")
def _(c):
    t = Texts(c)
    before = t.commands("a", c.choice("n", range(3)), 1)
    after = [x for x in t.commands("b", c.choice("m", range(3)), 0)]
    bad = c.choice("bad", BAD)
    w = Writer(c)
    for n in before:
        w.put(n, [])
        w.out += "\n"
    head = w.out
    w.out += bad + "\n"
    for n in after:
        w.put(n, [])
        w.out += "\n"
    src = w.out
    if bad == "G04 x":
        src, after = head + bad, []  # anything up to the next asterisk would belong to the comment
    tree, err = attempt(lambda: parse(src))
    c.check(err is not None, "invalid text is rejected", f"{src!r}")
    tree, err = attempt(lambda: parse(src, resilient=True))
    c.check(err is None, "resilient parsing accepts any text", f"{src!r}: {str(err)[:200]}")
    if any(isinstance(x, N.G04) and "\n" in (x.string or "") for x in after):
        pass
    r = "" if len(tree.nodes) == len(before) + 1 + len(after) else f"{len(tree.nodes)} nodes"
    for a, b in zip(tree.nodes, [*before, N.Invalid(string=bad), *after]):
        r = r or same(a, b)
    c.check(not r, "resilient parsing keeps all commands and wraps the invalid text", f"{src!r}: {r}")
    if before:
        tree, err = attempt(lambda: parse(src, strict=False))
        ok = err is None and len(tree.nodes) == len(before) and not any(same(a, b) for a, b in zip(tree.nodes, before))
        c.check(ok, "non-strict parsing keeps the commands before the invalid text", f"{src!r}: {err}")


@contract("C20", "unterminated commands are rejected", fns=FNS, bounded=True, samples=900, weight=3, note="bounded: the last terminator of a generated file removed")
def _(c):
    t = Texts(c)
    nodes = t.commands("n", c.choice("count", [1, 2]), 1)
    w = Writer(c)
    for n in nodes:
        w.put(n, [])
        w.out += "\n"
    src = w.out.rstrip()[:-1]
    tree, err = attempt(lambda: parse(src))
    c.check(err is not None, "unterminated command is rejected", f"{src!r}")


@contract("C20", "signature of the preceding text", fns=["pygerber.gerber.ast.nodes.attribute.TF.TF_MD5.check_source_hash"], bounded=True, samples=60,
          note="bounded: generated files")
def _(c):
    t = Texts(c)
    w = Writer(c)
    for n in t.commands("n", c.choice("count", [1, 2, 3]), 0):
        w.put(n, [])
        w.gap()
    c.assume("\t" not in w.out)
    h = hashlib.md5(w.out.replace("\n", "").replace("\r", "").encode()).hexdigest()
    ok = c.choice("right", [True, False])
    if not ok:
        h = h[1:] + ("0" if h[0] != "0" else "1")
        c.assume(h != hashlib.md5(w.out.replace("\n", "").replace("\r", "").encode()).hexdigest())
    tree, err = attempt(lambda: parse(w.out + f"%TF.MD5,{h}*%\nM02*"))
    c.check(err is None, "valid text is accepted", str(err)[:200])
    c.check(tree.nodes[-2].check_source_hash() is ok, "the signature is the one of the text before it", repr(w.out[-20:]))


@contract("C20", "formatted text is read back", fns=FNS + ["pygerber.gerber.formatter.formatter.Formatter.format"], bounded=True, samples=900, weight=3,
          note="bounded: generated files of up to 3 commands, numbers of at most 3 decimals, random options")
def _(c):
    import io

    from pygerber.gerber.formatter.formatter import Formatter
    from pygerber.gerber.formatter.options import Options
    from pygerber.gerber.formatter.enums import MacroEndInNewLine, MacroSplitMode

    t = Texts(c)
    nodes = t.commands("n", c.choice("count", range(1, 4)), 1)
    o = Options(
        keep_non_standalone_codes=c.choice("keep", ["Keep", "SeparateCodes"]), macro_split_mode=c.choice("split", list(MacroSplitMode)), macro_end_in_new_line=c.choice("end", list(MacroEndInNewLine)),
        **{k: c.choice(k, [0, 2]) for k in ("macro_body_indent", "macro_param_indent", "block_aperture_body_indent", "step_and_repeat_body_indent", "d01_indent")},
    )
    out = io.StringIO()
    Formatter(o).format(N.File(nodes=nodes), out)
    tree, err = attempt(lambda: parse(out.getvalue()))
    c.check(err is None, "formatted text is accepted", f"{out.getvalue()!r}: {str(err)[:300]}")
    r = "" if len(tree.nodes) == len(nodes) else f"{len(tree.nodes)} nodes"
    for a, b in zip(tree.nodes, nodes):
        r = r or same(a, b)
    c.check(not r, "formatted text is read as the same commands", f"{out.getvalue()!r}: {r}")


class _Sub:
    made = {}


@contract("C20", "node classes can be replaced", fns=[GRAM + "get_cls"], bounded=True, samples=150, note="bounded: one command per file")
def _(c):
    t = Texts(c)
    k = c.choice("type", COMMANDS)
    base = getattr(N, k)
    sub = _Sub.made.setdefault(k, type(k, (base,), {"__module__": __name__}))
    node = t.fix(t.build(base, "n."))
    w = Writer(c)
    w.put(node, [])
    tree, err = attempt(lambda: parse(w.out, ast_node_class_overrides={k: sub}))
    c.check(err is None and type(tree.nodes[0]) is sub, "the given class is used for the command", f"{w.out!r} {err}")
