"""Vector renderer: ordered combination of shapes, translation of layers, SVG."""
import io
import math
import re

from pyvc.registry import contract
from pyvc.spec import holds, same_pt

import pygerber.vm.shapely.vm as sv
from pygerber.vm.commands import EndLayer, PasteLayer, Shape, StartLayer
from pygerber.vm.commands.shape_segments import Line
from pygerber.vm.rvmc import RVMC
from pygerber.vm.types import Box, LayerID, NoMainLayerError, Style, Vector
from pygerber.vm.types.color import Color

from contracts.raster import Strict

S = "pygerber.vm.shapely.vm."
VMC = S + "ShapelyVirtualMachine."


# ------------------------------------------------------------------ geometry by its contract (symbolic runs)
class Geo(Strict):
    """A set of points: a polygon, a union or a difference of sets."""

    def __init__(self, c, kind, args):
        super().__init__(c)
        self.kind, self.args = kind, args

    is_empty = False

    def buffer(self, d, *a, **k):
        if d != 0:
            raise self._c.S.Unsupported("buffer")
        return self

    def difference(self, o, *a, **k):
        return Geo(self._c, "diff", [self, o])

    def union(self, o, *a, **k):
        return Geo(self._c, "union", [self, o])

    def map(self, f):
        if self.kind == "poly":
            return Geo(self._c, "poly", f(self.args))
        return Geo(self._c, self.kind, [a.map(f) for a in self.args])

    def leaves(self):
        return [self] if self.kind == "poly" else [x for a in self.args for x in a.leaves()]


class Arr:
    """The array of coordinates given to a point transform."""

    def __init__(self, pts):
        self.pts = pts

    def __getitem__(self, key):
        import numpy as np

        _, k = key
        a = np.empty(len(self.pts), dtype=object)
        for i, p in enumerate(self.pts):
            a[i] = p[k]
        return a


def library(c):
    import numpy as real_np

    def transform(g, fn, *a, **k):
        def f(pts):
            r = fn(Arr(pts))
            return [(r[i][0], r[i][1]) for i in range(len(pts))]

        return g.map(f)

    sh = Strict(c)
    sh.Polygon = lambda pts, *a: Geo(c, "poly", [tuple(p) for p in pts])
    sh.transform = transform
    sh.unary_union = lambda gs, *a, **k: Geo(c, "union", list(gs))
    sh.union_all = sh.unary_union
    sh.MultiPolygon = lambda gs, *a: Geo(c, "union", list(gs))
    sh.GeometryCollection = lambda gs=(), *a: Geo(c, "union", list(gs))
    sh.difference = lambda a, b, **k: a.difference(b)
    tree = Strict(c)

    class STRtree:
        """query returns (at least) the entries that meet the geometry; here all of them."""

        def __init__(self, gs, *a, **k):
            self.geometries, self.n = gs, len(gs)

        def query(self, g, *a, **k):
            if a or k:
                raise c.S.Unsupported("query with predicate")
            if isinstance(g, Geo):
                return real_np.array(range(self.n), dtype=int)
            return real_np.array([(i, j) for i in range(len(g)) for j in range(self.n)], dtype=int).reshape(-1, 2).T

    tree.STRtree = STRtree
    sh.STRtree = STRtree
    affinity = Strict(c)
    affinity.translate = lambda g, xoff=0.0, yoff=0.0, zoff=0.0: g.map(lambda ps: [(p[0] + xoff, p[1] + yoff) for p in ps])
    sh.affinity = affinity
    for n, v in (("sh", sh), ("shtree", tree), ("shapely", sh)):
        if n in vars(sv):
            c.stub(sv, n, v)


class Poly:
    def __init__(self, pts, d=(0.0, 0.0)):
        self.pts, self.d = pts, d

    def moved(self, d):
        return Poly(self.pts, (self.d[0] + d[0], self.d[1] + d[1]))

    def at(self):
        return [(p[0] + self.d[0], p[1] + self.d[1]) for p in self.pts]


def program(c, quick):
    """Layers with shapes and pastes: (commands, reference operations per layer)."""
    cmds, ref = [], {}
    lay = ["src", "%main%"] if quick else ["src", "mid", "%main%"]
    for name in lay:
        o = c.vec(name + ".o", -9, 9) if name != "%main%" or c.bool("main origin") else Vector(x=0.0, y=0.0)
        fixed = c.bool(name + " fixed") if not quick or name == "src" else True
        cmds.append(StartLayer(id=LayerID(id=name), origin=o, box=Box(min_x=-99, min_y=-99, max_x=99, max_y=99) if fixed else None))
        ops = []
        n = c.choice(name + " n", ([1, 2] if name == "src" else [2, 3]) if quick else [0, 1, 2, 3, 4])
        for i in range(n):
            neg = i > 0 and c.bool(f"{name} {i} clear")
            if name != "src" and c.bool(f"{name} {i} paste"):
                src = c.choice(f"{name} {i} from", list(ref))
                p = c.vec(f"{name}{i}.p", -9, 9)
                cmds.append(PasteLayer(source_layer_id=LayerID(id=src), center=p, is_negative=neg))
                ops.append(("paste", src, p.xy, neg))
            else:
                if quick:
                    pts = [c.vec(f"{name}{i}.{k}", -9, 9) for k in range(3)]
                    for k in range(3):  # no two corners in one place: the area would be empty
                        c.assume(c.Or(pts[k].x != pts[k - 1].x, pts[k].y != pts[k - 1].y))
                else:
                    x, y, w, h = c.real(f"{name}{i}x", -5, 5), c.real(f"{name}{i}y", -5, 5), c.real(f"{name}{i}w", 0.5, 6), c.real(f"{name}{i}h", 0.5, 6)
                    if c.int(f"{name}{i} tiny", 0, 4) == 4:
                        w, h = w / 200, h / 200
                    pts = [Vector(x=x, y=y), Vector(x=x + w, y=y), Vector(x=x + w / 3, y=y + h)]
                cmds.append(Shape(commands=[Line(start=pts[k], end=pts[(k + 1) % 3]) for k in range(3)], is_negative=neg))
                ops.append(("shape", Poly([v.xy for v in pts]), None, neg))
        cmds.append(EndLayer())
        ref[name] = (o.xy, ops)
    return cmds, ref


def meaning(ref, name):
    """Layer contents in local coordinates: ordered list of (set expression, clear)."""
    o, ops = ref[name]
    cur = None
    for kind, what, p, neg in ops:
        if kind == "shape":
            e = ("poly", what.moved((-o[0], -o[1])))
        else:
            m = meaning(ref, what)
            if m is None:
                continue
            e = move(m, (p[0] - o[0], p[1] - o[1]))
        cur = (None if neg else e) if cur is None else ("diff" if neg else "union", cur, e)
    return cur


def move(e, d):
    return ("poly", e[1].moved(d)) if e[0] == "poly" else (e[0], move(e[1], d), move(e[2], d))


def atoms(e):
    return [e[1]] if e[0] == "poly" else atoms(e[1]) + atoms(e[2])


@contract("C13", "shapes and layers are combined in order", fns=[VMC + n for n in ("on_shape_eager", "_add_polygon", "on_paste_layer_eager", "run", "create_eager_layer", "create_deferred_layer")], weight=3, max_paths=5000,
          assumes=["shapely: Polygon, transform, difference, unary_union are the set operations; STRtree.query returns at least the entries meeting the geometry"],
          note="programs of a pasted layer with up to two objects and a main layer with up to three, arbitrary positions and origins; longer programs at run time")
def _(c):
    cmds, ref = program(c, c.sym)
    if not c.sym:
        return concrete(c, cmds, ref)
    library(c)
    want = meaning(ref, "%main%")
    r = sv.ShapelyVirtualMachine().run(RVMC(commands=cmds)).shape
    import z3

    names = []

    def var(poly_pts, exp=None):
        """Membership of an arbitrary point in a polygon: one variable per distinct polygon."""
        for pts, v in names:
            if len(pts) == len(poly_pts) and all(holds(c, same_pt(c, a, b)) for a, b in zip(pts, poly_pts)):
                return v
        v = z3.Bool(f"in{len(names)}")
        names.append((poly_pts, v))
        return v

    def close(pts):
        out = []
        for p in pts:
            if not out or not holds(c, same_pt(c, p, out[-1])):
                out.append(p)
        pts = out
        while len(pts) > 1 and holds(c, same_pt(c, pts[0], pts[-1])):
            pts.pop()
        return pts

    def ev_want(e):
        if e is None:
            return z3.BoolVal(False)
        if e[0] == "poly":
            return var(e[1].at())
        a, b = ev_want(e[1]), ev_want(e[2])
        return z3.Or(a, b) if e[0] == "union" else z3.And(a, z3.Not(b))

    def ev_got(g):
        if g.kind == "poly":
            return var(close(g.args))
        xs = [ev_got(a) for a in g.args]
        return z3.Or(*xs) if g.kind == "union" else z3.And(xs[0], z3.Not(xs[1]))

    w = ev_want(want)
    n = len(names)
    g = ev_got(r)
    c.check(len(names) == n, "every polygon of the result is a drawn shape at its place", f"{len(names) - n} unknown polygons")
    s = z3.Solver()
    s.add(w != g)
    c.check(s.check() == z3.unsat, "result is the ordered combination of dark and clear objects")


def inside(e, p, eps=0.0):
    """Membership, None when too close to a boundary."""
    if e is None:
        return False
    if e[0] == "poly":
        pts = e[1].at()
        s = [(pts[i][0] - p[0]) * (pts[(i + 1) % 3][1] - p[1]) - (pts[i][1] - p[1]) * (pts[(i + 1) % 3][0] - p[0]) for i in range(3)]
        if any(abs(v) < 1e-9 for v in s):
            return None
        return all(v > 0 for v in s) or all(v < 0 for v in s)
    a, b = inside(e[1], p), inside(e[2], p)
    if a is None or b is None:
        return None
    return (a or b) if e[0] == "union" else (a and not b)


def concrete(c, cmds, ref):
    import shapely

    want = meaning(ref, "%main%")
    # fixed layers have a box of their own, automatic layers without contents are empty
    r = sv.ShapelyVirtualMachine().run(RVMC(commands=cmds))
    pts = [(c.rng.uniform(-15, 15), c.rng.uniform(-15, 15)) for _ in range(25)]
    if want is not None:
        for a in atoms(want)[:6]:
            x, y = (sum(q[k] for q in a.at()) / 3 for k in (0, 1))
            pts += [(x, y), (x + 0.05, y - 0.03), (x + 1e-4, y - 1e-4)]
    for p in pts:
        w = inside(want, p)
        if w is None:
            continue
        g = r.shape.covers(shapely.Point(p))
        c.check(bool(g) == w, "result is the ordered combination of dark and clear objects", f"point {p}: {bool(g)}")
    svg(c, r)


def numbers(t):
    return [float(x) for x in re.findall(r"-?\d+(?:\.\d+)?(?:[eE][-+]?\d+)?", t)]


def svg(c, r):
    import shapely
    import xml.etree.ElementTree as ET

    k = [c.int(f"col{i}", 0, 255) for i in range(4)] if c.int("colour", 0, 3) else [0x55, 0x55, 0x55, 0xFF]
    st = Style(foreground=Color.from_rgba(*k), background=Color.from_rgba(0, 0, 0, 0))
    if c.bool("saved before"):
        r.save(io.BytesIO(), "svg", Style(foreground=Color.from_rgba(1, 2, 3, 4), background=Color.from_rgba(0, 0, 0, 0)))
    buf = io.BytesIO()
    r.save(buf, c.choice("format", ["svg", "SVG"]), st)
    root = ET.fromstring(buf.getvalue().decode("utf-8"))
    if r.shape.is_empty:
        c.check(not list(root), "nothing is drawn for an empty result")
        return
    x0, y0, x1, y1 = r.shape.bounds
    vb = numbers(root.attrib["viewBox"])
    c.check(len(vb) == 4, "view box")
    ns = "{http://www.w3.org/2000/svg}"
    rings, fills = [], set()

    def walk(el, m):
        t = el.attrib.get("transform")
        if t:
            a = numbers(t)
            c.check(t.startswith("matrix"), "transform is a matrix", t)
            m = (m[0] * a[0] + m[2] * a[1], m[1] * a[0] + m[3] * a[1], m[0] * a[2] + m[2] * a[3], m[1] * a[2] + m[3] * a[3],
                 m[0] * a[4] + m[2] * a[5] + m[4], m[1] * a[4] + m[3] * a[5] + m[5])
        if el.tag == ns + "path":
            fills.add(el.attrib.get("fill"))
            c.check(el.attrib.get("fill-rule", "nonzero") == "evenodd" or "z M" not in el.attrib["d"], "holes stay holes")
            for part in el.attrib["d"].split("M")[1:]:
                v = numbers(part)
                ps = [(m[0] * v[i] + m[2] * v[i + 1] + m[4], m[1] * v[i] + m[3] * v[i + 1] + m[5]) for i in range(0, len(v), 2)]
                rings.append(ps)
        for ch in el:
            walk(ch, m)

    walk(root, (1, 0, 0, 1, 0, 0))
    c.check(fills == {st.foreground.to_hex()}, "drawn in the foreground colour", str(fills))
    # even-odd combination of all rings, turned back to the y axis pointing up of the view box
    back = []
    for ps in rings:
        back.append([(x - vb[0] + x0, (vb[1] + vb[3] - y) + y0) for x, y in ps])
    c.check(abs(vb[2] - (x1 - x0)) < 1e-6 and abs(vb[3] - (y1 - y0)) < 1e-6, "view box is as large as the result", str(vb))
    c.check(abs(float(root.attrib["width"]) * vb[3] - float(root.attrib["height"]) * vb[2]) < 1e-6, "image has the proportions of the view box")
    want = [list(p.exterior.coords) for p in polys(r.shape)] + [list(h.coords) for p in polys(r.shape) for h in p.interiors]
    area = lambda ps: abs(sum(ps[i][0] * ps[(i + 1) % len(ps)][1] - ps[i][1] * ps[(i + 1) % len(ps)][0] for i in range(len(ps)))) / 2  # noqa: E731
    c.check(len(back) == len(want), "every polygon and hole is drawn", f"{len(back)} instead of {len(want)}")
    if len(back) == len(want):
        key = lambda ps: (round(area(ps), 4), round(min(p[0] for p in ps), 4), round(min(p[1] for p in ps), 4))  # noqa: E731
        for g in back:
            best = min(want, key=lambda w: abs(area(w) - area(g)) + abs(min(p[0] for p in w) - min(p[0] for p in g)) + abs(min(p[1] for p in w) - min(p[1] for p in g)))
            dv = max(min(math.dist(p, q) for q in best) for p in g)
            c.check(dv < 1e-6, "outlines are drawn in place with the y axis pointing up", f"deviation {dv}")


def polys(g):
    if g.geom_type == "Polygon":
        return [g]
    return [q for p in getattr(g, "geoms", []) for q in polys(p)]


@contract("C13", "missing and empty main layer", fns=[VMC + "run"], bounded=True, samples=20)
def _(c):
    r, e = c.calls(lambda: sv.ShapelyVirtualMachine().run(RVMC(commands=[])))
    c.check(isinstance(e, NoMainLayerError), "program without main layer is an error", repr(e))
    r = sv.ShapelyVirtualMachine().run(RVMC(commands=[StartLayer(id=LayerID(id="%main%")), EndLayer()]))
    c.check(r.shape.is_empty, "empty main layer gives an empty result")
    svg(c, r)
    d = c.choice("ext", ["png", "pdf"])
    _r, e = c.calls(lambda: r.save(io.BytesIO(), d))
    c.check(isinstance(e, NotImplementedError), "other formats are refused")
