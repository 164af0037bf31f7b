"""Formatter: the text written for a node denotes that node, whatever the options."""
import io
import re

try:
    import z3
except ImportError:
    z3 = None
from fractions import Fraction

from pyvc.registry import contract

import pygerber.gerber.ast.nodes as N
import pygerber.gerber.formatter.formatter as fm
from pygerber.gerber.formatter import enums as E
from pygerber.gerber.formatter.formatter import Formatter
from pygerber.gerber.formatter.options import Options
from pygerber.gerber.parser import parse as parse_

from contracts.nodelib import callback, concrete_classes
from contracts.texts import Fields, Num, text

F = "pygerber.gerber.formatter.formatter.Formatter."
WS = " \t\r\n"
SWITCH = {"explicit_parenthesis": E.ExplicitParenthesis, "keep_non_standalone_codes": E.KeepNonStandaloneCodes, "remove_g54": E.RemoveG54,
          "remove_g55": E.RemoveG55, "macro_end_in_new_line": E.MacroEndInNewLine, "macro_split_mode": E.MacroSplitMode,
          "float_trim_trailing_zeros": E.FloatTrimTrailingZeros}


class Out:
    """Output stream collecting what is written."""

    def __init__(self):
        self.parts = []

    def write(self, x):
        self.parts.append(x)
        return 0


class Lazy:
    """An arbitrary member of an enumeration; the choice is made when it matters."""

    def __init__(self, c, name, enum):
        self.c, self.name, self.enum, self.v = c, name, enum, None

    def pick(self):
        if self.v is None:
            self.v = self.c.choice(self.name, list(self.enum))
        return self.v

    def __eq__(self, o):
        c = self.c
        if not c.sym:
            return self.pick() == o
        return Test(self, o)

    def __ne__(self, o):
        return not (self == o)

    def __hash__(self):
        return hash(self.pick())

    def __getattr__(self, n):
        return getattr(self.pick(), n)


class Test:
    """Outcome of a comparison with an option, decided when it is used."""

    def __init__(self, lazy, o):
        self.lazy, self.o = lazy, o

    def __bool__(self):
        return self.lazy.pick() == self.o


INDENT = ["macro_body_indent", "macro_param_indent", "block_aperture_body_indent", "step_and_repeat_body_indent", "d01_indent", "d02_indent", "d03_indent"]


def options(c, places=None):
    k = c.choice("layout", [0, 1])
    kw = {"indent_character": " " if k else "\t", "line_end": "\n" if k else "\r\n", "empty_line_before_polarity_switch": list(E.EmptyLineBeforePolaritySwitch)[k],
          "strip_whitespace": c.choice("strip", list(E.StripWhitespace)), "float_decimal_places": places if places is not None else (3 if k else -1)}
    if c.sym:
        for i, n in enumerate(INDENT):
            kw[n] = (i % 3) + 1 if k else "\t" * (i % 2) + " " * (i % 3)
        kw["float_trim_trailing_zeros"] = E.FloatTrimTrailingZeros.No
    else:
        for i, n in enumerate(INDENT):
            kw[n] = c.int(n, 0, 5) if c.bool(n + " int") else c.choice(n, ["", " ", "\t", "   "])
        if places is None:
            kw["float_decimal_places"] = c.choice("places", [-1, 0, 1, 3, 6])
    for n, e in SWITCH.items():
        if n not in kw:
            kw[n] = Lazy(c, n, e) if c.sym else c.choice(n, list(e))
    return Options.model_construct(**kw)


def numbers(c):
    if c.sym and "Decimal" in vars(fm):
        from pyvc.spec import plain_decimal

        c.stub(fm, "Decimal", plain_decimal)


def pieces(x):
    return [x] if isinstance(x, str) else list(x.p)


def squeeze(c, parts):
    """Written text without white space between tokens, as literals and symbolic pieces."""
    out = []
    for x in parts:
        for p in pieces(x):
            if isinstance(p, str):
                p = "".join(ch for ch in p if ch not in WS)
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
    return [p for p in out if not (isinstance(p, str) and p == "")]


def flat(c, items):
    out = []
    for x in items:
        if isinstance(x, Num):
            out.append(x)
            continue
        if not isinstance(x, str) and not hasattr(x, "p"):
            x = c.T.to_str(x) if c.sym and isinstance(x, c.S.Sym) else str(x)
        for p in pieces(x):
            if isinstance(p, str):
                p = "".join(ch for ch in p if ch not in WS)
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
    return [p for p in out if not (isinstance(p, str) and p == "")]


NUMBER = re.compile(r"[+-]?(\d+(\.\d+)?|\.\d+)")


def same_text(c, got, want, places, label):
    """The written tokens are the wanted ones, numbers to the configured number of decimals."""
    got, want = squeeze(c, got), flat(c, want)
    if not c.sym:
        g, i = "".join(got), 0
        for w in want:
            if isinstance(w, str):
                c.check(g.startswith(w, i), f"{label}: tokens of the command", f"{g!r} at {i}: expected {w!r}")
                i += len(w)
            else:
                m = NUMBER.match(g, i)
                c.check(m is not None, f"{label}: number without exponent", f"{g!r} at {i}")
                number_ok(c, m.group(0), w.v, places, label)
                i = m.end()
        c.check(i == len(g), f"{label}: nothing else is written", f"{g!r} after {i}")
        return
    T = c.T
    show = f"{[p if isinstance(p, str) else type(p).__name__ for p in got]} instead of {[p if isinstance(p, str) else type(p).__name__ for p in want]}"
    i = 0
    for w in want:
        if i >= len(got):
            c.fail(f"{label}: nothing is missing", show)
        g = got[i]
        if isinstance(w, str):
            c.check(isinstance(g, str) and g.startswith(w), f"{label}: tokens of the command", show)
            if len(g) > len(w):
                got[i] = g[len(w):]
                continue
        elif isinstance(w, Num):
            if isinstance(w.v, (int, float)):
                m = NUMBER.match(g) if isinstance(g, str) else None
                c.check(m is not None, f"{label}: number without exponent", show)
                number_ok(c, m.group(0), w.v, places, label)
                if m.end() < len(g):
                    got[i] = g[m.end():]
                    continue
            elif isinstance(g, T.SInt):
                c.check(c.S.mkint(g.e) == w.v, f"{label}: value of the number")
            elif isinstance(g, (T.SReal, T.PReal, T.RealF)):
                if isinstance(g, T.SReal):
                    c.check(not T.has_exponent(g), f"{label}: number without exponent")
                if isinstance(g, T.RealF):
                    c.check(g.n == places, f"{label}: number of decimals")
                c.check(c.S.mkreal(g.e) == w.v, f"{label}: value of the number")
            else:
                c.fail(f"{label}: value of the number", show)
        else:
            c.check(type(g) is type(w), f"{label}: tokens of the command", show)
            if isinstance(w, T.Atom):
                c.check(g.name == w.name, f"{label}: operand at its place", f"{g.name} instead of {w.name}")
            elif not isinstance(w, str):
                c.check(c.S.mkbool(g.e == w.e), f"{label}: operand at its place")
        i += 1
    c.check(i == len(got), f"{label}: nothing else is written", show)


def number_ok(c, t, v, places, label):
    d = abs(Fraction(t) - Fraction(str(v) if places < 0 else v))
    c.check(d == 0 if places < 0 else d <= Fraction(1, 2 * 10 ** places), f"{label}: value of the number", f"{t} for {v}")
    if places >= 0:
        c.check(len(t.partition(".")[2]) <= places, f"{label}: number of decimals", t)


def write(c, node, o):
    numbers(c)
    out = Out()
    f = Formatter(o)
    c.noraise(lambda: f.format_node(node, out), f"{type(node).__name__}: can be written")
    return out.parts


def opt_values(o):
    return {"explicit": bool(o.explicit_parenthesis == E.ExplicitParenthesis.AddExplicit), "keep": bool(o.keep_non_standalone_codes == E.KeepNonStandaloneCodes.Keep),
            "r54": bool(o.remove_g54 == E.RemoveG54.Remove), "r55": bool(o.remove_g55 == E.RemoveG55.Remove)}


def spec_options(node, o):
    """Only the options that matter for this node are looked at."""
    k = type(node).__name__
    kw = {}
    if k in ("Add", "Sub", "Mul", "Div", "Parenthesis"):
        kw["explicit"] = bool(o.explicit_parenthesis == E.ExplicitParenthesis.AddExplicit)
    if k[0] == "G" and k[1:].isdigit() and k != "G04":
        if k == "G54":
            kw["r54"] = bool(o.remove_g54 == E.RemoveG54.Remove)
        if k == "G55":
            kw["r55"] = bool(o.remove_g55 == E.RemoveG55.Remove)
        if not node.is_standalone:
            kw["keep"] = bool(o.keep_non_standalone_codes == E.KeepNonStandaloneCodes.Keep)
    return kw


SKIP = {"File", "AB", "SR", "AM", "Invalid"}
CLASSES = {n: k for n, k in concrete_classes().items() if n not in SKIP}
GROUPS = {}
for _n, _k in CLASSES.items():
    _g = "attributes" if _n[:3] in ("TA_", "TF_", "TO_") or _n == "TD" else "codes" if re.fullmatch(r"[GDM]\d\d|Dnn|Coordinate.", _n) else \
        "macro parts" if _n.startswith("Code") or _n in ("Add", "Sub", "Mul", "Div", "Neg", "Pos", "Constant", "Variable", "Parenthesis", "Point", "Assignment", "AMopen", "AMclose") else "other commands"
    GROUPS.setdefault(_g, []).append(_n)


def valid(c, n):
    k = type(n).__name__
    if k == "TA_DrillTolerance":
        c.assume(n.minus_tolerance is None or n.plus_tolerance is not None)


for _g, _names in GROUPS.items():
    @contract("C14", f"text of {_g}", fns=[F + callback(CLASSES[n]) for n in _names] + [F + "__init__", F + "format_node", F + "_fmt_double"], max_paths=20000, weight=2,
              note="all operands symbolic, all options symbolic or enumerated; lists of operands up to 2 elements (3 for operator tails); Decimal by its contract (plain text of the same value)",
              assumes=["decimal.Decimal formatted with 'f' writes the same value without exponent"])
    def _(c, names=_names):
        n = c.choice("node", names)
        node = Fields(c).build(CLASSES[n])
        valid(c, node)
        o = options(c)
        got = write(c, node, o)
        kw = spec_options(node, o)
        same_text(c, got, text(node, **kw), o.float_decimal_places, n)
        if bool(o.strip_whitespace == E.StripWhitespace.StripAll):
            ws = [p for x in got for p in pieces(x) if isinstance(p, str) and any(ch in WS for ch in p)]
            c.check(not ws, f"{n}: no white space when it is stripped", repr(ws))


@contract("C14", "numbers keep their value to the configured decimals", fns=[F + "_fmt_double"], max_paths=20000, samples=4000,
          note="0..9 decimals and as many as needed, trailing zeros trimmed or not, values up to a million", assumes=["repr of a float denotes its value"])
def _(c):
    places = c.choice("places", range(-1, 10) if c.sym else [*range(-1, 10), -1, -1, -1])
    trim = c.choice("trim", list(E.FloatTrimTrailingZeros))
    if c.sym:
        v = c.real("value", -999999, 999999)
    else:
        m = c.choice("magnitude", [1e-12, 1e-7, 1e-4, 1e-2, 1, 10, 1e3, 1e6, 1e9, 1e17, 1e22, 1e40])
        v = c.real("value", -1, 1) * m if not c.bool("integer") else float(c.int("n", -10 ** 7, 10 ** 7))
    numbers(c)
    out = Out()
    Formatter(Options(float_decimal_places=places, float_trim_trailing_zeros=trim)).format_node(N.ADC(aperture_id="D10", diameter=v), out)
    if not c.sym:
        t = "".join(out.parts)
        m = re.fullmatch(r"%ADD10C,([+-]?\d+(\.\d+)?)\*%\n", t)
        c.check(m is not None, "plain decimal number", t)
        number_ok(c, m.group(1), v, places, "number")
        frac = m.group(1).partition(".")[2]
        if places >= 0:
            if trim == E.FloatTrimTrailingZeros.Yes:
                c.check(not frac.endswith("0"), "trailing zeros are trimmed", t)
            else:
                c.check(len(frac) == places, "all decimals are written", t)
        return
    T = c.T
    g = squeeze(c, out.parts)
    pre, post = "%ADD10C,", "*%"
    c.check(isinstance(g[0], str) and g[0].startswith(pre) and isinstance(g[-1], str) and g[-1].endswith(post), "number stands between separators", str(g))
    g[0] = g[0][len(pre):]
    g[-1] = g[-1][:-len(post)]
    s = T.SymStr([p for p in g if p != ""])
    for p in s.p:
        if isinstance(p, T.SReal):
            c.check(not T.has_exponent(p), "no exponent")
    r = T.value_of(s)
    if r[0] == "real":
        c.check(places < 0, "number of decimals")
        c.check(c.S.mkreal(r[1] * r[2]) == v, "value of the number")
        return
    _, sign, tot, dec = r
    dec = dec or 0
    got = c.S.mkreal(sign * z3.ToReal(tot)) / 10 ** dec if dec else c.S.mkreal(sign * z3.ToReal(tot))
    if places < 0:
        c.check(got == v, "value of the number")
        return
    d = (got - v) * (2 * 10 ** places)
    c.check(c.And(d <= 1, d >= -1), "value of the number")
    if trim == E.FloatTrimTrailingZeros.Yes:
        if dec:
            last = s.units()[-1]
            c.check(c.Not(c.S.mkbool(last.e == 0)) if not isinstance(last, str) else last not in "0.", "trailing zeros are trimmed")
    else:
        c.check(dec == places, "all decimals are written")


# ------------------------------------------------------------------ layout
def lines_of(c, parts, lf):
    """Lines as (leading white space, rest)."""
    rows, cur = [], []
    for x in parts:
        for p in pieces(x):
            if isinstance(p, str) and lf:
                seg = p.split(lf)
                for s in seg[:-1]:
                    rows.append([*cur, s])
                    cur = []
                cur.append(seg[-1])
            else:
                cur.append(p)
    rows.append(cur)
    out = []
    for r in rows:
        r = [p for p in r if p != ""]
        lead = ""
        while r and isinstance(r[0], str):
            s = r[0].lstrip(" \t")
            lead += r[0][:len(r[0]) - len(s)]
            if s:
                r[0] = s
                break
            r.pop(0)
        if lead or r:
            out.append((lead, r))
    return out


LINES = [n for n in CLASSES if n not in GROUPS["macro parts"] and not n.startswith("Coordinate") and n not in ("ABopen", "ABclose", "SRopen", "SRclose")]


@contract("C14", "commands are indented by the nesting of blocks", fns=[F + n for n in ("on_ab_open", "on_ab_close", "on_sr_open", "on_sr_close", "format", "_insert_base_indent", "_insert_extra_indent")],
          max_paths=20000, samples=300, note="every command type at depth 0..2 of aperture and step-repeat blocks, several indentations per option")
def _(c):
    depth = c.choice("depth", [0, 1, 2]) if c.sym else c.choice("depth", [0, 1, 2, 3, 4])
    kinds = [c.choice(f"block{i}", ["AB", "SR"]) for i in range(depth)]
    if c.sym:
        a, b = c.choice("indents", [("  ", 1), (1, ""), ("", 3), ("\t", " ")])
        ind = {"AB": a, "SR": b}
    else:
        ind = {"AB": c.choice("ab", ["  ", 1, "", "\t"]), "SR": c.choice("sr", [" ", 2, 0])}
    merged = c.bool("merged")
    n = None if merged else c.choice("node", LINES)
    few = c.sym and n is not None and n not in ("G54", "G55")
    dd = {k: c.choice(k, ["", " ", 3]) if not c.sym else i for i, k in enumerate(("d01_indent", "d02_indent", "d03_indent"))}
    lf = c.choice("lf", ["\n", "\r\n"]) if not c.sym else "\n"
    keep = c.choice("keep", list(E.KeepNonStandaloneCodes)[:1 if few else 2])
    k54, k55 = (c.choice("r54", list(E.RemoveG54)), c.choice("r55", list(E.RemoveG55))) if not c.sym else c.choice("removed", [(E.RemoveG54.Keep, E.RemoveG55.Keep), (E.RemoveG54.Remove, E.RemoveG55.Remove)][:1 if few else 2])
    o = Options(block_aperture_body_indent=ind["AB"], step_and_repeat_body_indent=ind["SR"], line_end=lf, keep_non_standalone_codes=keep, remove_g54=k54, remove_g55=k55,
                empty_line_before_polarity_switch=c.choice("empty line", list(E.EmptyLineBeforePolaritySwitch)) if not c.sym else E.EmptyLineBeforePolaritySwitch.Yes, **dd)
    ws = lambda x: " " * x if isinstance(x, int) else x  # noqa: E731
    fields = Fields(c)
    fields.pick = lambda name, seq: seq[-1] if c.sym else c.choice(name, seq)
    nodes, want = [], []
    if merged:
        g, d = c.choice("g", ["G01", "G54", "G55", "G70"]), c.choice("d", ["D01", "D02", "D03", "Dnn"])
        a, b = fields.build(CLASSES[g], g, is_standalone=False), fields.build(CLASSES[d], d, is_standalone=False)
        nodes = [a, b]
        gone = (g == "G54" and k54 == E.RemoveG54.Remove) or (g == "G55" and k55 == E.RemoveG55.Remove)
        extra = ws(dd.get(d.lower() + "_indent", ""))
        if keep == E.KeepNonStandaloneCodes.Keep:
            want = [""]
        else:
            want = ([] if gone else [""]) + [extra]
    else:
        for i in range(2):
            x = fields.build(CLASSES[n], f"{i}", **({"is_standalone": True} if "is_standalone" in CLASSES[n].model_fields else {}))
            valid(c, x)
            nodes.append(x)
            if not ((n == "G54" and k54 == E.RemoveG54.Remove) or (n == "G55" and k55 == E.RemoveG55.Remove)):
                want.append(ws(dd.get(n.lower() + "_indent", "")))
    body, lead = list(nodes), ""
    rows = []
    for k in kinds:
        lead += ws(ind[k])
    rows = [lead + w for w in want]
    for k in reversed(kinds):
        lead = lead[:len(lead) - len(ws(ind[k]))]
        if k == "AB":
            body = [N.AB(open=N.ABopen(aperture_id="D10"), nodes=body, close=N.ABclose())]
        else:
            body = [N.SR(open=N.SRopen(x="1", y="2"), nodes=body, close=N.SRclose())]
        rows = [lead, *rows, lead]
    body.append(N.M02())
    rows.append("")
    numbers(c)
    out = Out()
    Formatter(o).format(N.File(nodes=body), out)
    got = lines_of(c, out.parts, lf)
    c.check(len(got) == len(rows), "one line per command", f"{got} instead of {len(rows)} lines")
    for (g, rest), w in zip(got, rows):
        c.check(g == w, "line is indented by its block", f"{g!r} instead of {w!r} before {rest}")
        c.check(bool(rest), "no line of white space only")


@contract("C14", "comments and files", fns=[F + "format", F + "formats", F + "on_g04"], samples=200, note="files of up to four commands, reused formatter, empty comments")
def _(c):
    f = Formatter(options(c) if not c.sym else Options())
    for rep in range(2):
        n = c.choice(f"n{rep}", [0, 1, 3])
        nodes, want = [], []
        for i in range(n):
            k = c.choice(f"{rep}{i}", ["none", "comment", "fs", "error"] if i == n - 1 else ["none", "comment", "fs"])
            if k == "fs":
                x = N.G36()
            elif k == "error":
                x = None
            else:
                x = N.G04(string=None if k == "none" else c.text(f"t{rep}{i}"))
            if x is None:
                class Boom(N.G36):
                    def visit(self, visitor):
                        raise KeyError("boom")

                x = N.AB(open=N.ABopen(aperture_id="D99"), nodes=[Boom()], close=N.ABclose())
                nodes.append(x)
                want = None
            else:
                nodes.append(x)
                want += text(x)
        out = Out()
        _r, e = c.calls(lambda: f.format(N.File(nodes=nodes), out))
        if want is None:
            c.check(isinstance(e, KeyError), "errors are passed on", repr(e))
            continue
        c.check(e is None, "file is formatted", repr(e))
        same_text(c, out.parts, want, -1, "file")
        lead = lines_of(c, out.parts, f.options.line_end)
        c.check(all(g == "" for g, _ in lead), "earlier files leave no trace")


# ------------------------------------------------------------------ bounded: whole files read back
def expr(c, name, depth, level=0):
    """Expression as the parser makes them: operands of an operator bind at least as tight."""
    k = c.choice(name + " kind", ["num", "var"] if depth == 0 else ["num", "var", "paren", "neg", "pos", "add", "sub", "mul", "div"])
    kw = lambda i, lv: expr(c, f"{name}{i}", depth - 1, lv)  # noqa: E731
    if k == "num":
        return N.Constant(constant=round(abs(c.real(name + "v", 0.25, 9)), 2))
    if k == "var":
        return N.Variable(variable=f"${c.int(name + 'n', 1, 3)}")
    if k == "paren":
        return N.Parenthesis(inner=kw(0, 0))
    if k in ("neg", "pos"):
        return (N.Neg if k == "neg" else N.Pos)(operand=kw(0, 9))
    own = {"add": 1, "sub": 2, "mul": 3, "div": 4}[k]
    if own < level or (own == level and level):
        return N.Parenthesis(inner=expr(c, name, depth, 0)) if False else N.Parenthesis(inner=kw(0, 0))
    cls = {"add": N.Add, "sub": N.Sub, "mul": N.Mul, "div": N.Div}[k]
    return cls(head=kw(0, own + 1), tail=[kw(i + 1, own + 1) for i in range(c.choice(name + " tail", [1, 2]))])


def value(e, env):
    k = type(e).__name__
    if k == "Constant":
        return Fraction(str(e.constant))
    if k == "Variable":
        return env[e.variable]
    if k == "Parenthesis":
        return value(e.inner, env)
    if k in ("Neg", "Pos"):
        v = value(e.operand, env)
        return -v if k == "Neg" else v
    r = value(e.head, env)
    for t in e.tail:
        v = value(t, env)
        r = r + v if k == "Add" else r - v if k == "Sub" else r * v if k == "Mul" else r / v
    return r


def evaluate(t, env):
    """Value of expression text: sums of products of signed factors, left to right."""
    tok = re.findall(r"\d+\.\d+|\d+|\.\d+|\$\d+|[-+x/()]", t)
    if "".join(tok) != t:
        raise ValueError(t)
    pos = 0

    def peek():
        return tok[pos] if pos < len(tok) else None

    def take():
        nonlocal pos
        pos += 1
        return tok[pos - 1]

    def factor():
        x = take()
        if x == "-":
            return -factor()
        if x == "+":
            return factor()
        if x == "(":
            v = add()
            if take() != ")":
                raise ValueError(t)
            return v
        return env[x] if x[0] == "$" else Fraction(x)

    def mul():
        v = factor()
        while peek() in ("x", "/"):
            if take() == "x":
                v *= factor()
            else:
                v /= factor()
        return v

    def add():
        v = mul()
        while peek() in ("+", "-"):
            if take() == "+":
                v += mul()
            else:
                v -= mul()
        return v

    v = add()
    if pos != len(tok):
        raise ValueError(t)
    return v


@contract("C14", "expressions keep their value", fns=[F + n for n in ("on_add", "on_sub", "on_mul", "on_div", "on_neg", "on_pos", "on_parenthesis", "on_constant", "on_variable", "on_assignment")],
          bounded=True, samples=400, note="random expression trees up to depth 3, all options")
def _(c):
    e = expr(c, "e", 3)
    o = options(c, places=c.choice("decimals", [-1, 2, 5]))
    out = Out()
    Formatter(o).format_node(N.Assignment(variable=N.Variable(variable="$9"), expression=e), out)
    t = "".join(ch for ch in "".join(out.parts) if ch not in WS)
    c.check(t.startswith("$9=") and t.endswith("*"), "assignment", t)
    env = {f"${i}": Fraction(c.int(f"var{i}", 1, 50), 7) for i in range(1, 4)}
    try:
        want = value(e, env)
    except ZeroDivisionError:
        return
    try:
        got = evaluate(t[3:-1], env)
    except ZeroDivisionError:
        got = None
    c.check(got == want, "value of the expression", f"{t}: {got} instead of {want}")


@contract("C14", "every entry point writes the same text", fns=[F + "format", F + "formats", F + "format_node", F + "formats_node", "pygerber.gerber.formatter.format", "pygerber.gerber.formatter.formats", "pygerber.gerber.api._gerber_file.GerberFile.format", "pygerber.gerber.api._gerber_file.GerberFile.formats"], samples=60,
          note="one file, sampled options")
def _(c):
    import pygerber.gerber.formatter as M
    from pygerber.gerber.api import GerberFile

    o = Options(block_aperture_body_indent=c.choice("indent", [0, 2]), line_end=c.choice("line end", ["\n", "\r\n"]), float_decimal_places=c.choice("places", [2, 6]), explicit_parenthesis=c.choice("explicit", list(E.ExplicitParenthesis)))
    o = None if c.bool("default") else o
    src = "%FSLAX26Y26*%%MOMM*%%ABD20*%%ADD10C,1.23456*%D10*X0Y0D03*%AB*%%LPC*%G01*M02*"
    f = GerberFile.from_str(src)
    ast = parse_(src)
    texts = {}
    for how in ("format", "formats", "module format", "module formats", "file format", "file formats"):
        out = io.StringIO()
        texts[how] = {"format": lambda: Formatter(o).format(ast, out), "formats": lambda: Formatter(o).formats(ast), "module format": lambda: M.format(ast, out, o), "module formats": lambda: M.formats(ast, o),
                      "file format": lambda: f.format(out, o), "file formats": lambda: f.formats(o)}[how]() or out.getvalue()
    c.check(len(set(texts.values())) == 1, "every way of formatting a file gives the same text", f"{texts}")
    c.check("D20" in texts["format"] and "M02*" in texts["format"], "the text is complete")
    n = ast.nodes[c.choice("node", range(len(ast.nodes)))]
    out = io.StringIO()
    g = Formatter(o)
    g.format_node(n, out)
    c.check(g.formats_node(n) == out.getvalue() and out.getvalue().strip() in texts["format"].replace("\r\n", "\n").replace("\n", "\r\n" if "\r\n" in out.getvalue() else "\n"), "a command is written as within the file", f"{out.getvalue()!r}")
