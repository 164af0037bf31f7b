"""What a compiled program paints, as a tree independent of how layers are named."""
import pygerber.gerber.ast.nodes as N
from pygerber.gerber.compiler.compiler import Compiler
from pygerber.vm.commands import EndLayer, PasteLayer, Shape, StartLayer
from pygerber.vm.commands.shape_segments import Arc, Line
from pygerber.vm.types.matrix import Matrix3x3
from pygerber.vm.types.vector import Vector

from pyvc.spec import check_outline, holds, is_disc, same_pt


class Outline:
    """Segments of a shape shifted to their place."""

    def __init__(self, commands):
        self.commands = commands


def shift(shape, d):
    v = lambda p: Vector(x=p.x + d[0], y=p.y + d[1])  # noqa: E731
    out = []
    for s in shape.commands:
        if isinstance(s, Line):
            out.append(Line(start=v(s.start), end=v(s.end)))
        else:
            out.append(Arc(start=v(s.start), end=v(s.end), center=v(s.center), clockwise=s.clockwise))
    return Outline(out)


def layers(c, rvmc, label="program"):
    """Layer name -> commands; checks that the program is well formed (C07)."""
    out, order, cur = {}, [], None
    for cmd in rvmc.commands:
        if isinstance(cmd, StartLayer):
            c.check(cur is None, f"{label}: layer opened inside of a layer")
            c.check(cmd.id.id not in out, f"{label}: layer defined twice", str(cmd.id))
            cur = cmd.id.id
            out[cur] = (cmd, [])
            order.append(cur)
        elif isinstance(cmd, EndLayer):
            c.check(cur is not None, f"{label}: layer closed without being open")
            cur = None
        else:
            c.check(cur is not None, f"{label}: draw command outside of a layer")
            if isinstance(cmd, PasteLayer):
                c.check(cmd.source_layer_id.id in out and cmd.source_layer_id.id != cur, f"{label}: layer pasted before it is defined", str(cmd.source_layer_id))
            out[cur][1].append(cmd)
    c.check(cur is None, f"{label}: layer left open")
    return out, order


def items(c, rvmc):
    """Contents of the main (last) layer: ("S", outline, negative, metadata) or ("G", [items], negative, metadata)."""
    ls, order = layers(c, rvmc)

    def expand(name, d):
        out = []
        for cmd in ls[name][1]:
            if isinstance(cmd, Shape):
                out.append(("S", shift(cmd, d), cmd.is_negative, cmd.metadata))
            else:
                o = ls[cmd.source_layer_id.id][0].origin
                dd = (d[0] + cmd.center.x - o.x, d[1] + cmd.center.y - o.y)
                sub = expand(cmd.source_layer_id.id, dd)
                out.append(("G", sub, cmd.is_negative, cmd.metadata))
        return out

    return expand(order[-1], (0.0, 0.0))


def simple(it):
    """A pasted layer with a single dark shape is that shape."""
    if it[0] == "G" and len(it[1]) == 1:
        s = simple(it[1][0])
        if s[0] == "S" and not s[2]:
            return ("S", s[1], it[2], it[3])
    return it


def disc(center, r):
    f = lambda c, o, label: is_disc(c, o, center, r, label)  # noqa: E731
    f.center = center
    return f


def is_round(c, o):
    """No straight segment, neither written nor implied by a gap."""
    cs = list(o.commands)
    return bool(cs) and all(isinstance(s, Arc) for s in cs) and all(holds(c, same_pt(c, a.end.xy, b.start.xy)) for a, b in zip(cs, cs[1:] + cs[:1]))


def rounds_first(c, got):
    flags = [g[0] == "S" and is_round(c, g[1]) for g in got]
    return [g for g, f in zip(got, flags) if f], [g for g, f in zip(got, flags) if not f]


def arrange(c, got, want):
    """Objects painted one after another in the same polarity may come in any order: `got` in the order of `want`."""
    out, i = [], 0
    while i < len(want):
        j = i
        while j < len(want) and want[j][0] == "S" and bool(want[j][2]) == bool(want[i][2]):
            j += 1
        run = got[i:j]
        if j - i > 1 and all(g[0] == "S" and bool(g[2]) == bool(want[i][2]) for g in run):
            rnd, rest = rounds_first(c, run)
            if len(rnd) == sum(hasattr(w[1], "center") for w in want[i:j]):
                for w in want[i:j]:
                    if not hasattr(w[1], "center"):
                        out.append(rest.pop(0))
                        continue
                    k = 0
                    if len(rnd) > 1:
                        k = next((k for k, g in enumerate(rnd) if holds(c, same_pt(c, g[1].commands[0].center.xy, w[1].center))), 0)
                    out.append(rnd.pop(k))
                i = j
                continue
        j = max(j, i + 1)
        out.extend(got[i:j])
        i = j
    return out


def outline(edges):
    return lambda c, o, label: check_outline(c, o, edges, label)


def check_items(c, got, want, label, meta=None):
    """want: list of ("S", checker, negative) or ("G", [..], negative)."""
    c.check(len(got) == len(want), f"{label}: number of painted objects", f"{len(got)} instead of {len(want)}: {[g[0] for g in got]}")
    if len(got) != len(want):
        raise c._end()
    for i, (g, w) in enumerate(zip(arrange(c, [simple(g) for g in got], want), want)):
        c.check(g[0] == w[0], f"{label}: kind of object", f"{g[0]} instead of {w[0]} at {i}")
        if g[0] != w[0]:
            raise c._end()
        c.check(bool(g[2]) == bool(w[2]), f"{label}: polarity", f"object {i}")
        if w[0] == "S":
            w[1](c, g[1], label)
        else:
            check_items(c, g[1], w[1], label)


class Machine:
    """A compiler brought to an arbitrary state."""

    def __init__(self, c, **kw):
        self.c = c
        self.comp = Compiler(**kw)
        if c.sym:
            tag_contract(c)

    def run(self, *nodes):
        for n in nodes:
            n.visit(self.comp)
        return self

    def at(self, x, y):
        self.comp.state.current_x, self.comp.state.current_y = x, y
        self.comp.state.coordinate_x = self.comp.state.coordinate_y = None
        return self

    def finish(self):
        return self.comp.compile(N.File(nodes=[]))

    def items(self):
        return items(self.c, self.finish())


def tag_contract(c):
    """Matrix tags by their contract (C10): equal exactly for equal matrices."""
    seen = []

    def tag(self):
        for k, m in enumerate(seen):
            if c.And(*[self.mtx[i][j] == m[i][j] for i in range(3) for j in range(3)]):
                return f"tag{k}"
        seen.append(self.mtx)
        return f"tag{len(seen) - 1}"

    c.stub(Matrix3x3, "tag", property(tag))
