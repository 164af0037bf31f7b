"""Traversal of syntax trees."""
from pyvc.registry import contract

import pygerber.gerber.ast.nodes as N
from pygerber.gerber.ast.ast_visitor import AstVisitor

from contracts.nodelib import ABSTRACT, Builder, callback, children, common, concrete_classes

V = "pygerber.gerber.ast.ast_visitor.AstVisitor."


def recorder(base=AstVisitor):
    """Subclass of the visitor that notes every callback and then does what the visitor does."""

    class Recorder(base):
        def __init__(self, *a, **k):
            self.log = []
            super().__init__(*a, **k)

    def rec(name):
        def f(self, node, *a, **k):
            self.log.append((name, node))
            return getattr(super(Recorder, self), name)(node, *a, **k)

        return f

    for n in dir(base):
        if n.startswith("on_") and n != "on_exception":
            setattr(Recorder, n, rec(n))
    return Recorder


def preorder(node):
    yield node
    for ch in children(node):
        yield from preorder(ch)


SHARED = {"on_ad", "on_ta", "on_tf", "on_to", "on_expression", "on_coordinate", "on_end_of_file"}


def check_traversal(c, node, label):
    v = recorder()()
    r = c.noraise(lambda: node.visit(v), label)
    c.check(r is node, f"{label}: returns the node itself")
    got = [(n, x) for n, x in v.log if n not in SHARED]
    want = [(callback(type(x)), x) for x in preorder(node)]
    c.check(len(got) == len(want), f"{label}: every node visited exactly once", f"{[g[0] for g in got]} instead of {[w[0] for w in want]}")
    for g, w in zip(got, want):
        c.check(g[0] == w[0] and g[1] is w[1], f"{label}: callback of the node type, in source order", f"{g[0]} instead of {w[0]}")
    for x in preorder(node):
        k = common(type(x))
        if k:
            n = sum(1 for a, b in v.log if a == k and b is x)
            c.check(n == 1, f"{label}: shared callback {k} called once for the node", f"{n} calls")
    ends = [x for a, x in v.log if a == "on_end_of_file"]
    c.check(len(ends) == (1 if isinstance(node, N.File) else 0), f"{label}: end of file signalled once for a file")


@contract("C16", "every node type is visited with its operands",
          fns=[V + "on_" + "*", "pygerber.gerber.ast.nodes.*.visit", "pygerber.gerber.ast.nodes.*.get_visitor_callback_function"],
          note="all 106 node types; every combination of optional operands; lists of 0, 1 and 2 elements; operand values are opaque to the code", max_paths=20000)
def _(c):
    classes = concrete_classes()
    name = c.choice("type", sorted(classes))
    cls = classes[name]

    def pick(n, seq):
        if n.endswith("="):
            return seq[-1]
        return c.choice(n, seq)

    node = Builder(pick).build(cls)
    check_traversal(c, node, "traversal")
    v = AstVisitor()
    f = node.get_visitor_callback_function(v)
    c.check(getattr(f, "__self__", None) is v and f.__name__ == callback(cls), "callback function of the node type", getattr(f, "__name__", "?"))


def expr(c, name, depth):
    k = c.choice(name + ".k", ["const", "var"] if depth == 0 else ["const", "var", "add", "sub", "mul", "div", "neg", "pos", "paren"])
    sub = lambda i: expr(c, f"{name}.{i}", depth - 1)  # noqa: E731
    if k == "const":
        return N.Constant(constant=1.5)
    if k == "var":
        return N.Variable(variable="$1")
    if k in ("add", "sub", "mul", "div"):
        t = {"add": N.Add, "sub": N.Sub, "mul": N.Mul, "div": N.Div}[k]
        return t(head=sub(0), tail=[sub(i + 1) for i in range(c.choice(name + ".n", [1, 2]))])
    if k == "paren":
        return N.Parenthesis(inner=sub(0))
    return (N.Neg if k == "neg" else N.Pos)(operand=sub(0))


@contract("C16", "nested trees", fns=[V + n for n in ("on_file", "on_ab", "on_sr", "on_am", "on_add", "on_sub", "on_mul", "on_div", "on_neg", "on_pos", "on_parenthesis", "on_assignment", "on_point")],
          bounded=True, samples=150, note="bounded: random trees with nesting of blocks and expressions up to depth 3")
def _(c):
    def nodes(name, depth):
        out = []
        for i in range(c.choice(name + "#", [0, 1, 2, 3])):
            nm = f"{name}.{i}"
            k = c.choice(nm + ".k", ["leaf", "d01", "am"] + (["ab", "sr"] if depth else []))
            if k == "leaf":
                out.append(N.G04(string=nm))
            elif k == "d01":
                out.append(N.D01(x=N.CoordinateX(value="1"), j=N.CoordinateJ(value="2")))
            elif k == "ab":
                out.append(N.AB(open=N.ABopen(aperture_id="D11"), nodes=nodes(nm, depth - 1), close=N.ABclose()))
            elif k == "sr":
                out.append(N.SR(open=N.SRopen(), nodes=nodes(nm, depth - 1), close=N.SRclose()))
            else:
                b = Builder()
                out.append(N.AM(open=N.AMopen(name="m"), close=N.AMclose(), primitives=[
                    N.Assignment(variable=N.Variable(variable="$2"), expression=expr(c, nm + ".e", 3)),
                    b.build(N.Code4, points=[N.Point(x=expr(c, nm + ".px", 2), y=expr(c, nm + ".py", 2))]),
                    b.build(N.Code1, diameter=expr(c, nm + ".d", 2))]))
        return out

    check_traversal(c, N.File(nodes=nodes("f", 2)), "traversal of nested tree")


@contract("C16", "errors and end of file", fns=[V + "on_file", V + "on_exception", V + "on_end_of_file"],
          note="files of up to 4 commands; every subset of failing commands; error callback asking to raise or to continue", max_paths=20000)
def _(c):
    n = c.choice("commands", [0, 1, 2, 3, 4])
    nodes = [N.G04(string=str(i)) for i in range(n)]
    bad = [c.bool(f"fails{i}") for i in range(n)]
    reraise = [bad[i] and c.bool(f"raise{i}") for i in range(n)]
    default = c.bool("default error callback")
    log = []

    class Boom(Exception):
        pass

    errs = {}

    class Visitor(AstVisitor):
        def on_g04(self, node):
            i = int(node.string)
            log.append(("visit", i))
            if bad[i]:
                errs[i] = Boom(i)
                raise errs[i]
            return super().on_g04(node)

        def on_end_of_file(self, node):
            log.append(("end", node))
            return super().on_end_of_file(node)

        if not default:
            def on_exception(self, node, exception):
                i = int(node.string)
                log.append(("error", i, exception))
                super().on_exception(node, exception)
                return reraise[i]

    f = N.File(nodes=nodes)
    r, e = c.calls(lambda: f.visit(Visitor()))
    want, stop = [], None
    for i in range(n):
        want.append(("visit", i))
        if bad[i]:
            if not default:
                want.append(("error", i, errs.get(i)))
            if default or reraise[i]:
                stop = i
                break
    want.append(("end", f))
    c.check(len(log) == len(want), "every command up to the reported error is visited, each error reported once, end of file once", f"{log} instead of {want}")
    for g, w in zip(log, want):
        c.check(len(g) == len(w) and all(a is b or (not isinstance(a, N.Node) and a == b) for a, b in zip(g, w)), "order of visits, error reports and end of file", f"{g} instead of {w}")
    if stop is None:
        c.check(e is None and r is f, "traversal completes", repr(e))
    else:
        c.check(e is errs.get(stop), "the error itself is raised", repr(e))
