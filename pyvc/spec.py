"""Specification vocabulary shared by the contracts: directions, outlines, quiet provability."""
from __future__ import annotations

import math


# ---------------------------------------------------------------- directions
def theta(c, x, y):
    """Direction of the non-zero vector (x, y) in degrees, in [0, 360), counterclockwise from +x.

    Symbolically an assumed-contract function: range, quadrants, and for every pair of vectors
    the relation of the angle difference to the signs of cross and dot product."""
    if not c.sym:
        a = math.degrees(math.atan2(y, x))
        return a % 360.0 if a % 360.0 < 360.0 else 0.0
    import z3

    S, ex = c.S, c.ex
    X, Y = z3.simplify(S.R(x), som=True), z3.simplify(S.R(y), som=True)
    key = ("theta", X.sexpr(), Y.sexpr())
    if key in ex.cache:
        return S.SymReal(ex.cache[key])
    if z3.is_rational_value(X) and z3.is_rational_value(Y):
        fx, fy = X.as_fraction(), Y.as_fraction()
        if fx == 0 or fy == 0:
            v = (0 if fx > 0 else 180) if fy == 0 else (90 if fy > 0 else 270)
            t = z3.RealVal(v)
            ex.cache[key] = t
            ex.cache.setdefault("thetas", []).append((X, Y, t))
            return S.SymReal(t)
    ex.axioms_used = True
    t = ex.fresh("theta", "r")
    ex.add(t >= 0, t < 360)
    ex.add((Y == 0) == z3.Or(t == 0, t == 180), (X == 0) == z3.Or(t == 90, t == 270))
    ex.add((Y > 0) == z3.And(t > 0, t < 180), (X > 0) == z3.Or(t < 90, t > 270))
    for (X2, Y2, t2) in ex.cache.setdefault("thetas", []):
        cr = X * Y2 - Y * X2  # direction 2 relative to 1
        dt = X * X2 + Y * Y2
        d = t2 - t
        ex.add((cr > 0) == z3.Or(z3.And(d > 0, d < 180), z3.And(d > -360, d < -180)))
        ex.add((cr == 0) == z3.Or(d == 0, d == 180, d == -180))
        ex.add((dt > 0) == z3.Or(z3.And(d > -90, d < 90), d > 270, d < -270))
    ex.cache["thetas"].append((X, Y, t))
    ex.cache[key] = t
    return S.SymReal(t)


def mod360(c, a):
    """a modulo 360 for a in (-360, 360]."""
    if not c.sym:
        r = a % 360.0
        return 0.0 if r >= 360.0 else r
    return c.If(a < 0, a + 360, c.If(a >= 360, a - 360, a))


def same_angle(c, a, b):
    """Equality of angles in [0, 360) (tolerant across the wrap on floats)."""
    if c.sym:
        return c.near(a, b)
    d = abs(a - b) % 360.0
    return min(d, 360.0 - d) < 1e-6


def cross(a, b):
    return a[0] * b[1] - a[1] * b[0]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1]


# ---------------------------------------------------------------- quiet provability
def holds(c, cond, ms=1500):
    """True if cond is certainly true on this path (symbolic: proved quietly; concrete: value)."""
    if not c.sym:
        return bool(cond)
    import z3

    e = z3.simplify(c.S.B(cond))
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    s = z3.Solver()
    s.set("timeout", ms)
    s.add(*c.S.GLOBAL_AXIOMS, *c.ex.pc, z3.Not(e))
    return s.check() == z3.unsat


def same_pt(c, a, b):
    return c.And(c.near(a[0], b[0]), c.near(a[1], b[1]))


# ---------------------------------------------------------------- outlines
def edges_of(c, shape):
    """Closed outline as a list of edges ('L', p, q) / ('A', p, q, center, clockwise), the
    implicit joins between consecutive segments included, zero-length lines dropped."""
    from pygerber.vm.commands.shape_segments import Arc, Line

    es = []
    for s in shape.commands:
        if isinstance(s, Line):
            es.append(("L", s.start.xy, s.end.xy))
        elif isinstance(s, Arc):
            es.append(("A", s.start.xy, s.end.xy, s.center.xy, s.clockwise))
        else:
            c.fail("outline consists of lines and arcs", repr(type(s)))
    out = []
    for i, e in enumerate(es):
        nxt = es[(i + 1) % len(es)]
        out.append(e)
        if not holds(c, same_pt(c, e[2], nxt[1])):
            out.append(("L", e[2], nxt[1]))
    return [e for e in out if not (e[0] == "L" and holds(c, same_pt(c, e[1], e[2])))]


def reverse(edges):
    out = []
    for e in reversed(edges):
        out.append(("L", e[2], e[1]) if e[0] == "L" else ("A", e[2], e[1], e[3], not e[4]))
    return out


def _edge_eq(c, a, b):
    if a[0] != b[0]:
        return None
    cs = [same_pt(c, a[1], b[1]), same_pt(c, a[2], b[2])]
    if a[0] == "A":
        if bool(a[4]) != bool(b[4]):
            return None
        cs.append(same_pt(c, a[3], b[3]))
    return c.And(*cs)


def check_outline(c, shape, expected, label):
    """The closed outline of `shape` equals the expected edge list up to start and direction."""
    got = edges_of(c, shape)
    expected = [e for e in expected if not (e[0] == "L" and holds(c, same_pt(c, e[1], e[2])))]
    check_edges(c, got, expected, label)


def check_edges(c, got, expected, label):
    n = len(expected)
    if len(got) != n:
        got, expected = split_arcs(c, got), split_arcs(c, expected)
        n = len(expected)
    c.check(len(got) == n, f"{label}: number of edges", f"{len(got)} edges, expected {n}: {got} vs {expected}")
    if len(got) != n:
        raise c._end()
    cands = []
    for exp in (expected, reverse(expected)):
        for k in range(n):
            cs = []
            for i in range(n):
                r = _edge_eq(c, got[i], exp[(i + k) % n])
                if r is None:
                    cs = None
                    break
                cs.append(r)
            if cs is None:
                continue
            cond = c.And(*cs) if cs else True
            if holds(c, cond):
                c.check(cond, label)
                return
            cands.append(cond)
    c.check(c.Or(*cands) if cands else False, label, f"outline {got} expected {expected}")


def split_arcs(c, edges):
    """Full circles as two antipodal half circles."""
    out = []
    for e in edges:
        if e[0] == "A" and holds(c, same_pt(c, e[1], e[2])):
            m = (2 * e[3][0] - e[1][0], 2 * e[3][1] - e[1][1])
            out += [("A", e[1], m, e[3], e[4]), ("A", m, e[2], e[3], e[4])]
        else:
            out.append(e)
    return out


def is_disc(c, shape, center, radius, label):
    """shape is the disc: 1 full circle or 2 complementary half circles around center."""
    es = split_arcs(c, edges_of(c, shape))
    ok = len(es) == 2 and all(e[0] == "A" for e in es)
    if holds(c, c.near(radius, 0)) and all(holds(c, same_pt(c, e[1], center)) and holds(c, same_pt(c, e[2], center)) for e in es):
        c.check(True, label)
        return
    if len(es) > 2 and all(e[0] == "A" for e in es):
        if c.sym:
            c.S  # more pieces than known: leave to the bounded check
            raise c.S.Unsupported("disc made of more than two arcs")
        return _disc_general(c, es, center, radius, label)
    c.check(ok, f"{label}: outline is a full circle", repr(es))
    if not ok:
        raise c._end()
    a, b = es
    cs = [same_pt(c, a[3], center), same_pt(c, b[3], center)]
    for p in (a[1], a[2], b[1], b[2]):
        dx, dy = p[0] - center[0], p[1] - center[1]
        cs.append(c.near(dx * dx + dy * dy, radius * radius))
    # the two halves start and end at antipodal points and run the same way round
    cs.append(c.near(a[1][0] + a[2][0], 2 * center[0]))
    cs.append(c.near(a[1][1] + a[2][1], 2 * center[1]))
    cs.append(same_pt(c, a[2], b[1]))
    cs.append(same_pt(c, b[2], a[1]))
    cs.append(bool(a[4]) == bool(b[4]))
    c.check(c.And(*cs), label, repr(es))


def _disc_general(c, es, center, radius, label):
    tot = 0.0
    for e in es:
        ok = c.And(same_pt(c, e[3], center), e[4] == es[0][4],
                   c.near(math.hypot(e[1][0] - center[0], e[1][1] - center[1]), radius))
        c.check(ok, label, repr(es))
        d = theta(c, e[2][0] - center[0], e[2][1] - center[1]) - theta(c, e[1][0] - center[0], e[1][1] - center[1])
        tot += (-d if e[4] else d) % 360
    c.check(abs(tot - 360) < 1e-6, label, repr(es))


class plain_decimal:
    """decimal.Decimal by its contract: formatted with 'f', the same value without exponent."""

    def __init__(self, x):
        from pyvc import symstr as T

        if not isinstance(x, T.SymStr):
            raise T.Unsupported("Decimal of something else")
        self.v = T.value_of(x)

    def _text(self, spec):
        from pyvc import symstr as T

        if spec != "f" or self.v[0] != "real":
            raise T.Unsupported(f"Decimal format {spec!r}")
        return T.mk([T.PReal(self.v[1] * self.v[2])])

    __symformat__ = _text
