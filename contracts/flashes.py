"""Flashes: aperture transforms, blocks, step and repeat."""
from pyvc.registry import contract

import pygerber.gerber.ast.nodes as N
from pygerber.gerber.ast.nodes.enums import Mirroring, Polarity
from pygerber.gerber.ast.nodes.primitives.code_4 import Point

from contracts.draws import coords
from contracts.paint import Machine, check_items, disc, outline
from contracts.shapes import lines

C = "pygerber.gerber.compiler.compiler.Compiler."
K = lambda v: N.Constant(constant=v)  # noqa: E731


class Motif:
    """A macro aperture without any symmetry: a triangle and a disc beside it."""

    def __init__(self, c, name, one=False):
        self.pts = [c.vec(f"{name}.p{i}").xy for i in range(3)]
        self.o, self.d = c.vec(f"{name}.o").xy, c.real(f"{name}.d", 0.1)
        self.one = one
        self.name = name

    def define(self, m, aid):
        s = self.pts[0]
        tri = N.Code4(exposure=K(1.0), number_of_points=K(3.0), start_x=K(s[0]), start_y=K(s[1]), points=[Point(x=K(p[0]), y=K(p[1])) for p in self.pts[1:] + [s]], rotation=K(0.0))
        cir = N.Code1(exposure=K(0.0), diameter=K(self.d), center_x=K(self.o[0]), center_y=K(self.o[1]))
        m.run(N.AM(open=N.AMopen(name=self.name), primitives=[tri] if self.one else [tri, cir], close=N.AMclose()), N.ADmacro(aperture_id=aid, name=self.name))

    def spec(self, neg=False):
        return ("G", [("poly", self.pts, False)] + ([] if self.one else [("disc", self.o, self.d / 2, True)]), neg)


class T:
    """Mirroring, rotation and scaling of the aperture."""

    def __init__(self, c, name, parts="mrs", axis=False, few=None):
        """few: combinations of mirroring and rotation tried symbolically (all of them at run time)."""
        self.c = c
        if few and c.sym:
            self.s = None
            self.m, self.r = c.choice(name, few)
            if self.r == "any":
                self.r = c.real(name + ".rot", 0, 360)
            return
        self.m = c.choice(name + ".mirror", list(Mirroring)) if "m" in parts else None
        self.r = c.real(name + ".rot", 0, 360) if "r" in parts else None
        if axis:
            self.r = c.choice(name + ".rot", [0.0, 90.0, 180.0, 270.0])
        self.s = c.real(name + ".scale", 0.1, 10) if "s" in parts else None

    def load(self, m):
        m.run(N.LM(mirroring=self.m or Mirroring.NONE), N.LR(rotation=0.0 if self.r is None else self.r), N.LS(scale=1.0 if self.s is None else self.s))

    def __call__(self, p):
        x, y = p
        if self.s is not None:
            x, y = x * self.s, y * self.s
        if self.m in (Mirroring.X, Mirroring.XY):
            x = -x
        if self.m in (Mirroring.Y, Mirroring.XY):
            y = -y
        if self.r is not None:
            mt = self.c.math
            co, si = mt.cos(mt.radians(self.r)), mt.sin(mt.radians(self.r))
            x, y = x * co - y * si, x * si + y * co
        return x, y

    def scale(self, r):
        return r if self.s is None else r * self.s


class Shift:
    def __init__(self, d):
        self.d = d

    def __call__(self, p):
        return p[0] + self.d[0], p[1] + self.d[1]

    def scale(self, r):
        return r


def place(item, *fs, flip=False):
    """Item after the transforms (first one first); flip: the polarity of the outermost objects."""
    neg = item[-1] != flip
    if item[0] == "G":
        return ("G", [place(i, *fs) for i in item[1]], neg)
    if item[0] == "poly":
        pts = item[1]
        for f in fs:
            pts = [f(p) for p in pts]
        return ("poly", pts, neg)
    o, r = item[1], item[2]
    for f in fs:
        o, r = f(o), f.scale(r)
    return ("disc", o, r, neg)


def expect(item):
    if item[0] == "G":
        sub = [expect(i) for i in item[1]]
        return ("S", sub[0][1], item[2]) if len(sub) == 1 and sub[0][0] == "S" and not sub[0][2] else ("G", sub, item[2])
    if item[0] == "poly":
        return ("S", outline(lines(*item[1])), item[2])
    return ("S", disc(item[1], item[2]), item[3])


def check_painted(c, m, want, label):
    check_items(c, m.items(), [expect(w) for w in want], label)


def flash(c, m, p):
    coords(c, m, {"x": p[0], "y": p[1]}, N.D03)


def level(c, m, name):
    neg = c.bool(name + " clear")
    m.run(N.LP(polarity=Polarity.Clear if neg else Polarity.Dark))
    return neg


FEW = [(None, None), (Mirroring.X, 90.0), (Mirroring.Y, 180.0), (Mirroring.NONE, 270.0)]


def levels(c, *names):
    """Polarities of several objects; symbolically at most one of them or all clear."""
    if not c.sym:
        return {n: c.bool(n) for n in names}
    k = c.choice("clear", ["none", "all", *names])
    return {n: k in ("all", n) for n in names}


def pol(m, neg):
    m.run(N.LP(polarity=Polarity.Clear if neg else Polarity.Dark))
    return neg


FL = ["_on_flash_aperture", "_get_aperture_buffer", "_get_buffer_with_transform", "_apply_transform_to_buffer"]


@contract("C06", "flash of a transformed aperture", fns=[C + n for n in FL + ["on_flash_macro"]], weight=3)
def _(c):
    m = Machine(c)
    a = Motif(c, "A")
    a.define(m, "D10")
    m.run(N.Dnn(aperture_id="D10"))
    t, p = T(c, "t"), c.vec("at").xy
    t.load(m)
    neg = level(c, m, "flash")
    flash(c, m, p)
    check_painted(c, m, [place(a.spec(neg), t, Shift(p))], "transformed flash")


@contract("C06", "one aperture under several transforms", fns=[C + n for n in FL], weight=3, note="three flashes of one aperture, each pair of transforms equal or different")
def _(c):
    m = Machine(c)
    a = Motif(c, "A", one=True)
    a.define(m, "D10")
    b = Motif(c, "B", one=True)
    b.define(m, "D11")
    want = []
    ts = []
    for i in range(3):
        use = c.choice(f"aperture {i}", ["D10", "D11"] if i == 1 else ["D10"])
        same = i and c.bool(f"same transform {i}")
        t = ts[-1] if same else T(c, f"t{i}", "mr" if i == 1 else "s" if i == 0 else "r")
        ts.append(t)
        t.load(m)
        p = c.vec(f"at{i}").xy
        m.run(N.Dnn(aperture_id=use))
        flash(c, m, p)
        want.append(place((a if use == "D10" else b).spec(), t, Shift(p)))
    check_painted(c, m, want, "flashes of one aperture")


STD = {"C": lambda c: N.ADC(aperture_id="D10", diameter=2.0), "R": lambda c: N.ADR(aperture_id="D10", width=4.0, height=2.0),
       "O": lambda c: N.ADO(aperture_id="D10", width=4.0, height=2.0), "P": lambda c: N.ADP(aperture_id="D10", outer_diameter=4.0, vertices=3, rotation=0.0)}


@contract("C06", "flash of standard apertures", fns=[C + n for n in ("on_flash_circle", "on_flash_rectangle", "on_flash_obround", "on_flash_polygon", "_on_flash_aperture")])
def _(c):
    from contracts.draws import aperture
    from contracts.paint import items

    kind = c.choice("kind", "CRP")
    node, want, _p = aperture(c, kind, hole=None)
    m = Machine(c)
    t, p = T(c, "t", "m", axis=True), c.vec("at").xy
    m.run(node, N.Dnn(aperture_id="D10"))
    t.load(m)
    neg = level(c, m, "flash")
    flash(c, m, p)
    got = m.items()
    # move the flash back to the origin and compare with the definition
    inv = back(c, t)

    class Back:
        def __init__(self, o):
            from pygerber.vm.commands.shape_segments import Arc, Line
            from pygerber.vm.types.vector import Vector

            def v(q):
                x, y = inv((q.x - p[0], q.y - p[1]))
                return Vector(x=x, y=y)

            fl = t.m in (Mirroring.X, Mirroring.Y)
            self.commands = [Line(start=v(s.start), end=v(s.end)) if isinstance(s, Line) else Arc(start=v(s.start), end=v(s.end), center=v(s.center), clockwise=s.clockwise != fl) for s in o.commands]

    chk = want[0][1]
    check_items(c, got, [("S", lambda c, o, label: chk(c, Back(o), label), neg)], f"flash of {kind}")


def back(c, t):
    def f(p):
        x, y = p
        k = int(t.r // 90)
        for _ in range(k):
            x, y = y, -x
        if t.m in (Mirroring.X, Mirroring.XY):
            x = -x
        if t.m in (Mirroring.Y, Mirroring.XY):
            y = -y
        return x, y

    return f


def triangle(c, m, name):
    """Region drawn at absolute coordinates."""
    pts = [c.vec(f"{name}{i}").xy for i in range(3)]
    m.run(N.G01(), N.G36())
    coords(c, m, {"x": pts[0][0], "y": pts[0][1]}, N.D02)
    for p in pts[1:] + pts[:1]:
        coords(c, m, {"x": p[0], "y": p[1]})
    m.run(N.G37())
    return pts


class Inside(N.G04):
    """Statement of a block whose effect is a step of the contract."""

    def visit(self, visitor):
        STEPS[self.string](visitor)
        return self


STEPS = {}


def step(key, fn):
    STEPS[key] = fn
    return Inside(string=key)


def block(aid, *steps):
    return N.AB(open=N.ABopen(aperture_id=aid), nodes=[step(f"{aid}/{i}", s) for i, s in enumerate(steps)], close=N.ABclose())


@contract("C06", "flash of a block aperture", fns=[C + n for n in ("on_ab", "on_flash_block", "_apply_transform_to_buffer", "_apply_transform_to_buffer_non_recursive_tmp", "_expand_buffer_to_current_buffer")], weight=3)
def _(c):
    m = Machine(c)
    a = Motif(c, "A", one=c.bool("simple"))
    a.define(m, "D10")
    inner = T(c, "in", "ms", axis=True, few=FEW[:3])
    outer = T(c, "out", "mrs", few=[(None, None), (Mirroring.X, "any"), (Mirroring.Y, "any"), (Mirroring.XY, "any")])
    if c.sym and c.bool("scaled"):
        outer.s = c.real("out.scale", 0.1, 10)
    lv = levels(c, "inner flash", "inner region", "block")
    q, p = c.vec("q").xy, c.vec("p").xy
    body = []

    def content(v):
        m.run(N.Dnn(aperture_id="D10"))
        inner.load(m)
        n1 = pol(m, lv["inner flash"])
        flash(c, m, q)
        body.append(place(a.spec(n1), inner, Shift(q)))
        n2 = pol(m, lv["inner region"])
        body.append(("poly", triangle(c, m, "g"), n2))

    m.run(block("D11", content))
    m.run(N.Dnn(aperture_id="D11"))
    outer.load(m)
    neg = pol(m, lv["block"])
    flash(c, m, p)
    check_painted(c, m, [place(b, outer, Shift(p), flip=neg) for b in body], "flashed block")


@contract("C06", "nested block apertures", fns=[C + n for n in ("on_ab", "on_flash_block", "_apply_transform_to_buffer", "_apply_transform_to_buffer_non_recursive_tmp")], weight=2)
def _(c):
    m = Machine(c)
    a = Motif(c, "A", one=True)
    a.define(m, "D10")
    t1, t2 = T(c, "t1", "m", axis=True, few=FEW), T(c, "t2", "m", axis=True, few=FEW)
    q1, q2, q3, p = (c.vec(f"q{i}").xy for i in range(4))
    inner, body = [], []

    def leafs(v):
        m.run(N.Dnn(aperture_id="D10"), N.LP(polarity=Polarity.Dark))
        T.load(T(c, "id", ""), m)
        flash(c, m, q1)
        inner.append(place(a.spec(), Shift(q1)))

    def mid(v):
        if nested:
            m.run(block("D12", leafs))
        m.run(N.Dnn(aperture_id="D12"))
        for i, q in enumerate((q2, q3)):
            t1.load(m) if i else T(c, "id", "").load(m)
            n = level(c, m, f"mid {i}") if i else False
            m.run(N.LP(polarity=Polarity.Clear if n else Polarity.Dark))
            flash(c, m, q)
            body.extend(place(b, *([t1] if i else []), Shift(q), flip=n) for b in inner)

    nested = c.bool("defined inside")
    if not nested:
        m.run(block("D12", leafs))
    m.run(block("D11", mid))
    m.run(N.Dnn(aperture_id="D11"))
    t2.load(m)
    neg = level(c, m, "outer")
    flash(c, m, p)
    check_painted(c, m, [place(b, t2, Shift(p), flip=neg) for b in body], "flash of nested blocks")


@contract("C06", "step and repeat", fns=[C + n for n in ("on_sr", "_apply_transform_to_buffer_non_recursive_tmp", "_expand_buffer_to_current_buffer")], weight=2,
          note="repeat counts 1x1, 2x1, 1x3, 3x2 symbolically unrolled (up to 4x4 at run time), arbitrary steps and contents")
def _(c):
    m = Machine(c)
    a = Motif(c, "A", one=True)
    a.define(m, "D10")
    nx, ny = c.choice("counts", [(1, 1), (2, 1), (1, 3), (3, 2)]) if c.sym else (c.choice("nx", [1, 2, 3, 4]), c.choice("ny", [1, 2, 3, 4]))
    dx, dy = c.real("dx"), c.real("dy")
    before = c.bool("objects before")
    body, want = [], []
    if before:
        want.append(("poly", triangle(c, m, "b"), False))
    t = T(c, "t", "m", axis=True, few=FEW[:2])
    q = c.vec("q").xy

    def content(v):
        m.run(N.Dnn(aperture_id="D10"))
        t.load(m)
        n1 = level(c, m, "flash")
        flash(c, m, q)
        body.append(place(a.spec(n1), t, Shift(q)))
        body.append(("poly", triangle(c, m, "g"), n1))

    m.run(N.SR(open=sropen(c, nx, ny, dx, dy), nodes=[step("sr", content)], close=N.SRclose()))
    for i in range(nx):
        for j in range(ny):
            want += [place(b, Shift((dx * i, dy * j))) for b in body]
    if c.bool("objects after"):
        m.run(N.LP(polarity=Polarity.Dark))
        want.append(("poly", triangle(c, m, "a"), False))
    check_painted(c, m, want, "step and repeat")


def sropen(c, nx, ny, dx, dy):
    x = None if nx == 1 and c.bool("no X") else str(nx)
    y = None if ny == 1 and c.bool("no Y") else str(ny)
    if not c.sym:
        return N.SRopen(x=x, y=y, i=repr(dx), j=repr(dy))
    c.stub(N.SRopen, "x_delta", property(lambda self: dx))
    c.stub(N.SRopen, "y_delta", property(lambda self: dy))
    return N.SRopen(x=x, y=y, i="1", j="1")


@contract("C06", "operands of step and repeat", fns=["pygerber.gerber.ast.nodes.aperture.SRopen.SRopen." + n for n in ("x_repeats", "y_repeats", "x_delta", "y_delta")])
def _(c):
    d = [c.digits(n, 3) for n in "xyij"]
    miss = c.choice("missing", ["", "x", "y", "i", "j", "xyij"])
    kw = {n: (None if n in miss else v) for n, v in zip("xyij", d)}
    if not c.sym:
        c.assume(int(d[0]) > 0 and int(d[1]) > 0)
    else:
        c.assume(c.And(c.to_int(d[0]) > 0, c.to_int(d[1]) > 0))
    n = N.SRopen(**kw)
    val = lambda k, t, e: e if k in miss else c.to_int(t)  # noqa: E731
    c.eq(n.x_repeats, val("x", d[0], 1), "columns")
    c.eq(n.y_repeats, val("y", d[1], 1), "rows")
    c.eq(n.x_delta, val("i", d[2], 0), "column distance")
    c.eq(n.y_delta, val("j", d[3], 0), "row distance")


@contract(["C05", "C06"], "objects of blocks keep their attributes", fns=[C + n for n in ("on_ab", "on_sr", "on_flash_block", "_apply_transform_to_buffer", "_apply_transform_to_buffer_non_recursive_tmp", "_expand_buffer_to_current_buffer")],
          note="flash, line and region inside a block, a block in a block or step and repeat, with and without transforms and clear polarity")
def _(c):
    m = Machine(c, include_metadata=True)
    m.run(N.ADC(aperture_id="D10", diameter=1.0), N.Dnn(aperture_id="D10"))
    kind = c.choice("kind", ["block", "block in block", "step and repeat"])
    ops = [c.choice(f"operation {i}", ["flash", "line", "region"]) for i in range(2)]
    tos = [N.TO_UserName(user_name=f"o{i}", fields=[str(i)]) for i in range(2)]
    keep = c.bool("first attribute stays")

    def content(v):
        for i, op in enumerate(ops):
            m.run(tos[i], N.Dnn(aperture_id="D10"))
            if op == "flash":
                flash(c, m, (1.0 + i, 2.0))
            elif op == "line":
                m.run(N.G01())
                coords(c, m, {"x": 4.0 + i, "y": 5.0})
            else:
                m.run(N.G01(), N.G36())
                coords(c, m, {"x": 1.0, "y": 1.0}, N.D02)
                for q in ((3.0, 1.0), (3.0, 2.0), (1.0, 1.0)):
                    coords(c, m, {"x": q[0], "y": q[1]})
                m.run(N.G37())
            if i == 0 and not keep:
                m.run(N.TD(name="o0"))
        m.run(N.TD())

    m.at(0.0, 0.0)
    times = 1
    if kind == "step and repeat":
        times = 2
        m.run(N.SR(open=N.SRopen(x="2", y="1", i="9", j="0"), nodes=[step("attr", content)], close=N.SRclose()))
    else:
        m.run(block("D20", content))
        aid = "D20"
        if kind == "block in block":
            def outer(v):
                m.run(N.Dnn(aperture_id="D20"))
                flash(c, m, (7.0, 7.0))

            m.run(block("D21", outer))
            aid = "D21"
        m.run(N.Dnn(aperture_id=aid))
        if c.bool("transformed"):
            m.run(N.LM(mirroring=c.choice("mirroring", [Mirroring.X, Mirroring.XY])), N.LR(rotation=90.0), N.LS(scale=2.0))
        if c.bool("clear"):
            m.run(N.LP(polarity=Polarity.Clear))
        flash(c, m, (0.0, 0.0))
    dump = lambda *ts: {t.user_name: t.model_dump_json(serialize_as_any=True) for t in ts}  # noqa: E731
    want = [dump(tos[0]), dump(tos[0], tos[1]) if keep else dump(tos[1])] * times
    got = []
    for it in m.items():
        if not got or got[-1] != it[3]:
            got.append(it[3])
    c.check(got == want, "objects carry the attributes in force when they were drawn in the block", f"{got} instead of {want}")
