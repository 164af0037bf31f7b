"""Linter, positions, and finding the command at a position."""
import collections

from pyvc.registry import contract

import pygerber.gerber.ast.nodes as N
from pygerber.common.position import Position
from pygerber.gerber.ast.node_finder import NodeFinder, OneBasedPosition, ZeroBasedPosition
from pygerber.gerber.ast.nodes.base import SourceInfo
from pygerber.gerber.linter import RULE_REGISTRY, EventAstVisitor, Linter, Rule, lint

from contracts.nodelib import Builder, concrete_classes
from contracts.traversal import preorder

L = "pygerber.gerber.linter."
E = L + "event_ast_visitor.EventAstVisitor."
GRB, D1, D2 = "GRB001", "DEP001", "DEP002"


@contract("C17", "listeners are called once for each node", fns=[E + "register_listener", E + "_trigger_listeners", E + "on_*"], max_paths=20000,
          note="all 106 node types; every combination of optional operands; lists of 0, 1 and 2 elements")
def _(c):
    classes = concrete_classes()
    cls = classes[c.choice("type", sorted(classes))]
    node = Builder(lambda n, seq: seq[-1] if n.endswith("=") else c.choice(n, seq)).build(cls)
    v = EventAstVisitor()
    log, second = [], []
    for k in classes.values():
        v.register_listener(k, log.append)
    more = [[] for _ in range(5)]
    for x in (second, *more):
        v.register_listener(cls, x.append)
    r = c.noraise(lambda: node.visit(v), "visit")
    c.check(r is node, "visit returns the node")
    want = list(preorder(node))
    c.check(len(log) == len(want) and all(a is b for a, b in zip(log, want)), "subscribed listener called once for each node, in source order", f"{[type(x).__name__ for x in log]} instead of {[type(x).__name__ for x in want]}")
    w2 = [x for x in want if type(x) is cls]
    c.check(len(second) == len(w2) and all(a is b for a, b in zip(second, w2)), "listener called only for the type it subscribed to", f"{[type(x).__name__ for x in second]}")
    c.check(all(len(x) == len(w2) and all(a is b for a, b in zip(x, w2)) for x in more), "every listener of a type is called", f"{[len(x) for x in more]}")


class Place(SourceInfo):
    """Source information with given positions."""

    line = property(lambda s: s.__dict__["_at"][0])
    column = property(lambda s: s.__dict__["_at"][1])
    end_line = property(lambda s: s.__dict__["_at"][2])
    end_column = property(lambda s: s.__dict__["_at"][3])


def place(c, at, location=0, length=1):
    s = Place.model_construct(source="", location=location, length=length)
    s.__dict__["_at"] = at
    return s


def put(node, info):
    node.__dict__["source_info"] = info


# ------------------------------------------------------------------ rules
def info(c, name):
    """Source information with any location and length; line and column are those of the location."""
    src = "G54D10*\n\nG01*G01*\n  G55*\nG54*" + "\n"
    if c.sym:
        loc, n = c.int(name + ".loc", 0, 10**6), c.int(name + ".len", 0, 1000)

        line, col = c.int(name + ".line", 1, 10**5), c.int(name + ".col", 1, 10**4)
        return place(c, (line, col, None, None), loc, n), (loc, loc + n, line, col)
    loc = c.choice(name + ".loc", range(len(src)))
    n = c.choice(name + ".len", [0, 1, 5])
    return SourceInfo(source=src, location=loc, length=n), (loc, loc + n, src[:loc].count("\n") + 1, loc - (src[:loc].rfind("\n") + 1) + 1)


def expected(flat):
    """(rule, node) for every finding: repeated interpolation command; closing an aperture block makes the mode unknown."""
    out, mode = [], None
    for n in flat:
        k = type(n).__name__
        if k in ("G01", "G02", "G03"):
            if mode == k:
                out.append((GRB, n))
            mode = k
        elif k == "ABclose":
            mode = None
        elif k == "G54":
            out.append((D1, n))
        elif k == "G55":
            out.append((D2, n))
    return out


def same(c, got, want, pos, label):
    got = list(got)
    c.check(len(got) == len(want), f"{label}: each finding reported exactly once", f"{[g.rule_id for g in got]} instead of {[w[0] for w in want]}")
    for g, (rule, n) in zip(got, want):
        c.check(g.rule_id == rule, f"{label}: findings in source order", f"{g.rule_id} instead of {rule}")
        p = pos.get(id(n), (0, 0, 0, 0))
        c.check(c.And(g.start_offset == p[0], g.end_offset == p[1], g.line == p[2], g.column == p[3]), f"{label}: position of the offending command", f"{(g.start_offset, g.end_offset, g.line, g.column)} instead of {p}")
        text = g.title + g.description
        c.check(bool(g.title and g.description) and {GRB: type(n).__name__, D1: "G54", D2: "G55"}[rule] in text, f"{label}: message names the command", g.title)


RULES = [L + "rules.rule.Rule." + n for n in ("bind_rule_to_ast_visitor", "bind_rule_to_violation_collector", "report_violation")] + [L + "rules.GRB001.GRB001." + n for n in ("node_callback", "reset", "get_violation_title", "get_trigger_nodes")] + \
    [L + "rules.static_rule.StaticRule.node_callback", L + "linter.Linter.lint", L + "lint"]


@contract("C17", "findings of the rules", fns=RULES, max_paths=20000, samples=150, assumes=["pyparsing.lineno and col: line and column of an offset (checked at run time on a sample text)"],
          note="sequences of up to three commands, one of any node type: the state of a rule depends on the last command it listens to only; longer sequences at run time")
def _(c):
    classes = concrete_classes()
    pos = {}
    kinds = ["G01", "G02", "G03", "ABclose", "G54", "G55"]

    def mk(k, name, located=True):
        n = Builder().build(classes[k])
        if located:
            i, pos[id(n)] = info(c, name)
            put(n, i)
        return n

    if c.sym:
        shape = c.choice("shape", ["any between", "three"])
        if shape == "three":
            ks = [c.choice(f"k{i}", kinds) for i in range(3)]
        else:
            g = c.choice("g", ["G01", "G02"])
            ks = [g, c.choice("any", sorted(set(classes) - {"AB", "SR", "File"})), g]
        nodes = [mk(k, f"n{i}", c.bool("located") if i == 2 else True) for i, k in enumerate(ks)]
        if shape == "three" and c.bool("in block"):
            nodes = [nodes[0], N.AB(open=N.ABopen(aperture_id="D11"), nodes=[nodes[1]], close=N.ABclose()), nodes[2]]
    else:
        nodes = []
        for i in range(c.choice("n", range(9))):
            k = c.choice(f"k{i}", [*kinds, "AB", "SR", "other"])
            if k in ("AB", "SR"):
                sub = [mk(c.choice(f"k{i}.{j}", kinds[:3]), f"n{i}.{j}") for j in range(c.choice(f"n{i}", range(4)))]
                nodes.append(N.AB(open=N.ABopen(aperture_id="D11"), nodes=sub, close=N.ABclose()) if k == "AB" else N.SR(open=N.SRopen(), nodes=sub, close=N.SRclose()))
            else:
                nodes.append(mk(c.choice(f"o{i}", sorted(classes)) if k == "other" else k, f"n{i}", c.bool(f"located{i}")))
    f = N.File(nodes=nodes)
    want = expected(list(preorder(f)))
    same(c, lint(f), want, pos, "all rules")
    if not c.sym or c.bool("subset"):
        only = c.choice("rules", [[GRB], [D1, GRB], [D2]])
        same(c, lint(f, only), [w for w in want if w[0] in only], pos, "selected rules")


@contract("C17", "a linter used again", fns=RULES, note="every rule state before the second file; two files of up to two commands", samples=60)
def _(c):
    classes = concrete_classes()

    def file(name):
        ks = [c.choice(f"{name}{i}", ["G01", "G02", "G03", "ABclose", "G54"]) for i in range(c.choice(name, [1, 2]))]
        return N.File(nodes=[Builder().build(classes[k]) for k in ks])

    a, b = file("a"), file("b")
    lt = Linter([r() for r in RULE_REGISTRY.values()])
    first = lt.lint(a)
    n = len(list(first))
    second = lt.lint(b)
    same(c, second, expected(list(preorder(b))), {}, "second file")
    c.check(len(list(first)) == n, "earlier findings are left alone")
    same(c, first, expected(list(preorder(a))), {}, "first file")
    same(c, lint(b), expected(list(preorder(b))), {}, "new linter")
    c.check(c.calls(lambda: lint(a, ["ABC"]))[1] is not None, "unknown rules are rejected")


@contract("C17", "rules of the user", fns=[L + "rules.rule.Rule.bind_rule_to_ast_visitor", L + "linter.Linter.lint"], samples=30, note="two rules with any subset of subscriptions over four node types")
def _(c):
    types = [N.G01, N.D01, N.CoordinateX, N.ABopen]
    seen = {}

    def rule(name):
        subs = [t for t in types if c.bool(f"{name} {t.__name__}")]

        class R(Rule):
            rule_id = name

            def get_violation_title(self):
                return name

            def get_violation_description(self):
                return name

            def get_trigger_nodes(self):
                return subs

            def reset(self):
                seen[name] = []

            def node_callback(self, node):
                seen[name].append(node)
                self.report_violation(node.source_info)

        return R(), subs

    (r1, s1), (r2, s2) = rule("U1"), rule("U2")
    d01 = N.D01(x=N.CoordinateX(value="1"))
    f = N.File(nodes=[N.G01(), d01, N.AB(open=N.ABopen(aperture_id="D11"), nodes=[N.G01()], close=N.ABclose())])
    out = list(Linter([r1, r2]).lint(f))
    for name, subs in (("U1", s1), ("U2", s2)):
        want = [n for n in preorder(f) if type(n) in subs]
        c.check(len(seen[name]) == len(want) and all(a is b for a, b in zip(seen[name], want)), "rule called once for each node it subscribed to", f"{seen[name]} instead of {want}")
        c.check(sum(1 for v in out if v.rule_id == name) == len(want), "each finding of the rule is reported")


# ------------------------------------------------------------------ positions
EditorPosition = collections.namedtuple("EditorPosition", "line character")  # stands for lsprotocol's record in symbolic runs
P = "pygerber.common.position.Position."


@contract("C17", "positions are totally ordered", fns=[P + n for n in ("__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__", "from_vscode_position", "offset", "to_lspt")])
def _(c):
    ln, cl, l2, c2 = [c.int(n, 0 if c.sym else 1, 10**6 if c.sym else 4) for n in ("line", "column", "line2", "column2")]
    a, b = Position(ln, cl), Position(l2, c2)
    less = c.Or(ln < l2, c.And(ln == l2, cl < c2))
    eq = c.And(ln == l2, cl == c2)
    more = c.Or(l2 < ln, c.And(ln == l2, c2 < cl))
    for label, got, want in (("<", a < b, less), ("<=", a <= b, c.Or(less, eq)), (">", a > b, more), (">=", a >= b, c.Or(more, eq)), ("==", a == b, eq), ("!=", a != b, c.Not(eq))):
        c.check(c.And(c.Implies(got, want), c.Implies(want, got)), f"position {label} is lexicographic")
    v = Position.from_vscode_position(ln, cl)
    c.check(c.And(v.line == ln + 1, v.column == cl + 1), "positions of the editor count from 0")
    o = a.offset(l2, c2)
    c.check(c.And(o.line == ln + l2, o.column == cl + c2), "offset moves line and column")
    z = ZeroBasedPosition(line=ln, column=cl).to_one_based()
    c.check(c.And(z.line == ln + 1, z.column == cl + 1), "zero based positions are converted")
    from pygerber.gerber.language_server.status import is_language_server_available

    if is_language_server_available():
        import lsprotocol.types as lspt

        c.stub(lspt, "Position", EditorPosition)
        p = v.to_lspt()
        c.check(c.And(p.line == ln, p.character == cl), "conversion to the editor is the inverse")


@contract("C17", "source positions", fns=["pygerber.gerber.ast.nodes.base.SourceInfo." + n for n in ("line", "column", "end_line", "end_column", "end_location")], bounded=True, samples=200, note="bounded: texts of up to 12 characters over {a, newline}; the computation is pyparsing's")
def _(c):
    src = "".join(c.choice(f"ch{i}", "aa\n") for i in range(c.choice("n", range(1, 13))))
    a = c.choice("loc", range(len(src)))
    n = c.choice("len", range(len(src) - a))
    s = SourceInfo(source=src, location=a, length=n)

    def lc(i):
        return src[:i].count("\n") + 1, i - (src[:i].rfind("\n") + 1) + 1

    c.check((s.line, s.column) == lc(a), "line and column of the start", f"{(s.line, s.column)} {lc(a)}")
    c.check((s.end_line, s.end_column) == lc(a + n) and s.end_location == a + n, "line and column of the end", f"{(s.end_line, s.end_column)} {lc(a + n)}")


# ------------------------------------------------------------------ command at a position
@contract("C17", "the command at a position is found", fns=["pygerber.gerber.ast.node_finder.NodeFinder." + n for n in ("find_node", "on_file", "on_am", "on_ab", "on_sr", "_bin_search")], max_paths=20000, samples=150,
          note="files and blocks of up to 5 commands, each recursion step halves the list; commands spanning one or two lines")
def _(c):
    n = c.choice("commands", range(1, 6 if c.sym else 9))
    k = c.choice("at", range(n))
    block = c.choice("block", ["none", "AB", "SR", "AM"]) if n > 1 else "none"
    pos, prev = [], None
    for i in range(n):
        ln, cl = c.int(f"line{i}", 1, 100), c.int(f"col{i}", 1, 80)
        end, ecl = c.int(f"end{i}", 1, 101), c.int(f"ecol{i}", 1, 80)
        if not c.sym:
            ln, cl = (c.choice("first line", [1, 2, 3]), c.choice(f"col{i}", [1, 5])) if prev is None else (prev[0] + c.choice(f"dl{i}", [0, 1, 2]), 0)
            cl = cl or (prev[1] + c.choice(f"dc{i}", [0, 1, 3]) if prev[0] == ln else c.choice(f"cc{i}", [1, 4]))
            end = ln + c.choice(f"el{i}", [0, 0, 1])
            ecl = cl + 6 if end == ln else c.choice(f"ec{i}", [1, 9])
        else:
            c.assume(c.Or(ln < end, c.And(ln == end, cl < ecl)))
            if prev is not None:
                c.assume(c.Or(prev[0] < ln, c.And(prev[0] == ln, prev[1] <= cl)))
        pos.append((ln, cl, end, ecl))
        prev = (end, ecl)
    nodes = []
    for i, p in enumerate(pos):
        x = N.Code0(string=f"c{i}") if block == "AM" else N.G04(string=f"c{i}")
        put(x, place(c, p))
        nodes.append(x)
    ln, cl = c.int("line", 1, 101), c.int("column", 1, 80)
    a, b, e, f = pos[k]
    if not c.sym:
        ln = c.choice("l", range(a, e + 1))
        cl = c.choice("c", range(b if ln == a else 1, f if ln == e else 20)) if (b if ln == a else 1) < (f if ln == e else 20) else b
        if ln == e != a and f == 1:
            ln, cl = a, b
    c.assume(c.And(c.Or(a < ln, c.And(a == ln, b <= cl)), c.Or(ln < e, c.And(ln == e, cl < f))))
    if block == "none":
        file = N.File(nodes=nodes)
        want = nodes[k]
    else:
        if block == "AB":
            o, cs = N.ABopen(aperture_id="D11"), N.ABclose()
            mk = lambda: N.AB(open=o, nodes=nodes[1:-1], close=cs)  # noqa: E731
        elif block == "SR":
            o, cs = N.SRopen(), N.SRclose()
            mk = lambda: N.SR(open=o, nodes=nodes[1:-1], close=cs)  # noqa: E731
        else:
            o, cs = N.AMopen(name="m"), N.AMclose()
            mk = lambda: N.AM(open=o, primitives=nodes[1:-1], close=cs)  # noqa: E731
        put(o, nodes[0].source_info), put(cs, nodes[-1].source_info)
        whole = mk()
        put(whole, place(c, (*pos[0][:2], *pos[-1][2:])))
        tail = N.M02()
        put(tail, place(c, (pos[-1][2] + 1, 1, pos[-1][2] + 1, 5)))
        head = N.M01()
        put(head, place(c, (1, 1, 1, 5)))
        at = c.choice("block at", ["alone", "first", "last"])
        if at == "last":
            c.assume(c.And(pos[0][0] >= 2))
        file = N.File(nodes={"alone": [whole], "first": [whole, tail], "last": [head, whole]}[at])
        want = o if k == 0 else cs if k == n - 1 else nodes[k]
    got = c.noraise(lambda: NodeFinder(file).find_node(OneBasedPosition(line=ln, column=cl)), "node finder")
    c.check(got is want, "the innermost command at the position is found", f"{got!r} instead of {want!r} at {(ln, cl)} in {pos}")
