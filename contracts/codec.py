"""Coordinate text <-> number."""
from fractions import Fraction

from pyvc.registry import contract

from pygerber.gerber.ast.errors import PackedCoordinateTooLongError, PackedCoordinateTooShortError
from pygerber.gerber.ast.nodes.enums import CoordinateNotation, Zeros
from pygerber.gerber.ast.state_tracking_visitor import CoordinateFormat

MOD = "pygerber.gerber.ast.state_tracking_visitor."


def _format(zeros, axis, i, d):
    # the other axis gets a different format, so that mixing the axes up is observable
    oi, od = (i % 9) + 1, ((d + 3) % 9) + 1
    kw = {"x_integral": i, "x_decimal": d, "y_integral": oi, "y_decimal": od}
    if axis == "y":
        kw = {"y_integral": i, "y_decimal": d, "x_integral": oi, "x_decimal": od}
    return CoordinateFormat(zeros=zeros, coordinate_mode=CoordinateNotation.ABSOLUTE, **kw)


def denoted(c, text, zeros, i, d):
    """Spec: (negative?, magnitude scaled by 10^d) denoted by a coordinate text."""
    neg = False
    if text[0] in ("+", "-"):
        neg = text[0] == "-"
        text = text[1:]
    n = len(text)
    v = c.to_int(text)
    if zeros is Zeros.SKIP_TRAILING:
        v = v * 10 ** (i + d - n)
    return neg, v


def _mk_unpack(zeros, axis):
    @contract("C01", f"decode {axis} {zeros.name}", fns=[MOD + f"CoordinateFormat.unpack_{axis}", MOD + "CoordinateFormat.__init__",
              MOD + "CoordinateFormat._unpack_skip_leading", MOD + "CoordinateFormat._unpack_skip_trailing", MOD + "CoordinateFormat._unpack_preprocess"])
    def _(c):
        i = c.choice("integral", range(0, 10))
        d = c.choice("decimal", range(0, 10))
        if i + d == 0:
            return
        fmt = _format(zeros, axis, i, d)
        sign = c.choice("sign", ["", "+", "-"])
        n = c.choice("length", range(0, i + d + 2))
        text = sign + c.digits("dig", n)
        unpack = fmt.unpack_x if axis == "x" else fmt.unpack_y
        r, e = c.calls(lambda: unpack(text), (PackedCoordinateTooLongError, PackedCoordinateTooShortError))
        if n == 0:
            c.check(isinstance(e, PackedCoordinateTooShortError), "text without digits is rejected as too short")
            return
        if n > i + d:
            c.check(isinstance(e, PackedCoordinateTooLongError), "text with too many digits is rejected as too long")
            return
        c.check(e is None, "well-formed text is accepted")
        neg, mag = denoted(c, text, zeros, i, d)
        c.eq(r * 10**d, -mag if neg else mag, "decoded value", tol=1e-12)


def _mk_pack(zeros, axis):
    @contract("C01", f"encode {axis} {zeros.name}", fns=[MOD + f"CoordinateFormat.pack_{axis}", MOD + "CoordinateFormat.__init__",
              MOD + "CoordinateFormat._pack_skip_leading", MOD + "CoordinateFormat._pack_skip_trailing"])
    def _(c):
        i = c.choice("integral", range(1, 10))
        d = c.choice("decimal", range(1, 10))
        fmt = _format(zeros, axis, i, d)
        v = c.real("value", -(10 ** 11), 10 ** 11) if c.sym else _value(c, i, d)
        pack = fmt.pack_x if axis == "x" else fmt.pack_y
        text, e = c.calls(lambda: pack(v), PackedCoordinateTooLongError)
        ev = v if c.sym else Fraction(v)  # exact value of the float
        mag = c.If(v >= 0, ev, -ev)
        half = c.const(0.5) if c.sym else Fraction(1, 2)
        limit = 10 ** (i + d)
        if e is not None:
            # rejected only if the rounded magnitude does not fit
            c.check(limit - half <= mag * 10**d, "only values that do not fit are rejected")
            return
        neg, n = denoted(c, text, zeros, i, d)
        diff = mag * 10**d - n
        c.check(c.And(diff <= half, -diff <= half), "text denotes the value rounded to the resolution of the format")
        c.check(c.Implies(v < 0, neg), "sign kept")
        c.check(c.Implies(v > 0, not neg), "no sign invented")
        digits = text[1:] if text[0] in ("+", "-") else text
        c.check(len(digits) <= i + d, "text fits the format")
        if len(digits) > 1:
            z = digits[-1] if zeros is Zeros.SKIP_TRAILING else digits[0]
            c.check(c.Not(z == "0"), "omitted zeros are really omitted")
        back = (fmt.unpack_x if axis == "x" else fmt.unpack_y)(text)
        c.eq(back * 10**d, -n if neg else n, "decoding the text gives the rounded value back", tol=1e-12)


def _value(c, i, d):
    k = c.choice("kind", range(4))
    if k == 0:
        return c.int("n", -(10 ** (i + d)) + 1, 10 ** (i + d) - 1) / 10**d
    if k == 1:
        return c.real("value", -1, 1)
    if k == 2:
        return c.real("value", -(10 ** i) + 1, 10**i - 1)
    return c.real("value", -(10 ** 11), 10 ** 11)


for _z in Zeros:
    for _a in "xy":
        _mk_unpack(_z, _a)
        _mk_pack(_z, _a)
