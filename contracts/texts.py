"""Gerber text of every node type (specification), as a list of items: literal text, T(text), Num(value)."""
import pygerber.gerber.ast.nodes as N
from pygerber.gerber.ast.nodes import Expression

from contracts.nodelib import Builder


class Num:
    def __init__(self, v):
        self.v = v


class Opaque(Expression):
    """An operand of which only the text is known (induction hypothesis of the structural induction)."""

    text: object = None
    value: object = None

    def visit(self, visitor):
        visitor.output.write(self.text)
        return self

    def get_visitor_callback_function(self, visitor):
        return lambda n: n.visit(visitor)


class Fields(Builder):
    """Arbitrary operands: symbolic (or random) numbers and texts, every choice of optional operands."""

    def __init__(self, c, opaque=True):
        super().__init__(pick=lambda name, seq: c.choice(name, seq))
        self.c, self.opaque = c, opaque

    def value(self, t, name):
        import enum
        import inspect

        c = self.c
        if t is float:
            return c.real(name, -99999, 99999)
        if t is int:
            return c.int(name, 0, 9)
        if inspect.isclass(t) and issubclass(t, str) and not issubclass(t, enum.Enum) and not name.endswith("md5"):
            return c.text(name)
        if self.opaque and inspect.isclass(t) and issubclass(t, Expression) and t.__name__ == "Expression":
            return Opaque(text=c.text(name))
        return super().value(t, name)


def commas(*xs):
    out = []
    for x in xs:
        out += [",", x]
    return out


def opt(pre, x, wrap=lambda v: v):
    return [] if x is None else [pre, wrap(x)]


def ext(*items):
    return ["%", *items, "*%"]


def val(e):
    return e.value


def text(n, explicit=False, keep=True, r54=False, r55=False):
    """Items of the text of a node; `explicit` and `keep` are the options that decide on tokens."""
    k = type(n).__name__
    num = Num

    def sub(x):
        return text(x, explicit, keep, r54, r55)

    if isinstance(n, Opaque):
        return [n.text]
    if k == "ABopen":
        return ext("AB", n.aperture_id)
    if k == "ABclose":
        return ext("AB")
    if k == "ADC":
        return ext("AD", n.aperture_id, "C,", num(n.diameter), *opt("X", n.hole_diameter, num))
    if k in ("ADR", "ADO"):
        return ext("AD", n.aperture_id, k[2] + ",", num(n.width), "X", num(n.height), *opt("X", n.hole_diameter, num))
    if k == "ADP":
        rot = n.rotation if n.rotation is not None or n.hole_diameter is None else 0.0
        return ext("AD", n.aperture_id, "P,", num(n.outer_diameter), "X", n.vertices, *opt("X", rot, num), *opt("X", n.hole_diameter, num))
    if k == "ADmacro":
        p = []
        for i, v in enumerate(n.params or []):
            p += ["X" if i else ",", num(v)]
        return ext("AD", n.aperture_id, n.name, *p)
    if k == "AMopen":
        return ["%AM", n.name, "*"]
    if k == "AMclose":
        return ["%"]
    if k == "SRclose":
        return ext("SR")
    if k == "SRopen":
        return ext("SR", *opt("X", n.x), *opt("Y", n.y), *opt("I", n.i), *opt("J", n.j))
    if k in ("TA_UserName", "TF_UserName", "TO_UserName"):
        return ext(k[:2], n.user_name, *commas(*n.fields))
    if k == "TA_AperFunction":
        return ext("TA.AperFunction", *opt(",", n.function, val), *commas(*n.fields))
    if k == "TA_DrillTolerance":
        return ext("TA.DrillTolerance", *opt(",", n.plus_tolerance, num), *opt(",", n.minus_tolerance, num))
    if k == "TA_FlashText":
        f = [n.string, n.mode, n.mirroring, n.font or "", n.size or "", *n.comments]
        while len(f) > 3 and isinstance(f[-1], str) and f[-1] == "" and len(f) <= 5:
            f.pop()
        return ext("TA.FlashText", *commas(*f))
    if k == "TD":
        return ext("TD", *opt("", n.name))
    if k == "TF_Part":
        return ext("TF.Part,", n.part.value, *commas(*n.fields))
    if k == "TF_FileFunction":
        return ext("TF.FileFunction,", n.file_function.value, *commas(*n.fields))
    if k == "TF_FilePolarity":
        return ext("TF.FilePolarity,", n.polarity)
    if k == "TF_SameCoordinates":
        return ext("TF.SameCoordinates", *opt(",", n.identifier))
    if k == "TF_CreationDate":
        return ext("TF.CreationDate", *opt(",", n.creation_date, lambda d: d.isoformat()))
    if k == "TF_GenerationSoftware":
        return ext("TF.GenerationSoftware", *commas(n.vendor or "", n.application or "", n.version or ""))
    if k == "TF_ProjectId":
        return ext("TF.ProjectId", *commas(n.name or "", n.guid or "", n.revision or ""))
    if k == "TF_MD5":
        return ext("TF.MD5,", n.md5)
    if k == "TO_N":
        return ext("TO.N", *commas(*n.net_names))
    if k == "TO_P":
        return ext("TO.P", *commas(n.refdes, n.number), *opt(",", n.function))
    if k in ("TO_CRot", "TO_CHgt"):
        return ext("TO." + k[3:] + ",", num(n.angle if k == "TO_CRot" else n.height))
    if k == "TO_CMnt":
        return ext("TO.CMnt,", n.mount.value)
    if k == "TO_CSup":
        return ext("TO.CSup", *commas(n.supplier, n.supplier_part, *n.other_suppliers))
    if k == "TO_CMNP":
        return ext("TO.CMPN,", n.part_number)
    one = {"TO_C": "refdes", "TO_CMfr": "manufacturer", "TO_CVal": "value", "TO_CFtp": "footprint", "TO_CPgN": "name", "TO_CPgD": "description", "TO_CLbN": "name", "TO_CLbD": "description"}
    if k in one:
        return ext("TO." + k[3:] + ",", getattr(n, one[k]))
    if k in ("D01", "D02", "D03"):
        out = []
        for a in ("x", "y", "i", "j"):
            v = getattr(n, a, None)
            if v is not None:
                out += sub(v)
        return [*out, k + "*"]
    if k.startswith("Coordinate"):
        return [k[-1], n.value]
    if k == "Dnn":
        return [n.aperture_id, "*"]
    if k == "G04":
        return ["G04", n.string or "", "*"]
    if k[0] == "G" and k[1:].isdigit():
        if (k == "G54" and r54) or (k == "G55" and r55):
            return []
        return [k + ("*" if n.is_standalone or not keep else "")]
    if k in ("M00", "M01", "M02"):
        return [k + "*"]
    if k in ("LM", "LP"):
        return ext(k, (n.mirroring if k == "LM" else n.polarity).value)
    if k in ("LN", "IN"):
        return ext(k, n.name)
    if k in ("LR", "LS", "IR"):
        return ext(k, num(n.rotation if k == "LR" else n.scale if k == "LS" else n.rotation_degrees))
    ops = {"Add": "+", "Sub": "-", "Mul": "x", "Div": "/"}
    if k in ops:
        out = ["("] if explicit else []
        out += sub(n.head)
        for x in n.tail:
            out += [ops[k], *sub(x)]
        return out + ([")"] if explicit else [])
    if k in ("Neg", "Pos"):
        return ["-" if k == "Neg" else "+", *sub(n.operand)]
    if k == "Assignment":
        return [*sub(n.variable), "=", *sub(n.expression), "*"]
    if k == "Constant":
        return [num(n.constant)]
    if k == "Parenthesis":
        return sub(n.inner) if explicit else ["(", *sub(n.inner), ")"]
    if k == "Point":
        return [*sub(n.x), ",", *sub(n.y)]
    if k == "Variable":
        return [n.variable]
    if k == "Code0":
        return ["0", n.string, "*"]
    params = {
        "Code1": "exposure diameter center_x center_y rotation", "Code2": "exposure width start_x start_y end_x end_y rotation",
        "Code20": "exposure width start_x start_y end_x end_y rotation", "Code21": "exposure width height center_x center_y rotation",
        "Code22": "exposure width height x_lower_left y_lower_left rotation", "Code4": "exposure number_of_points start_x start_y points rotation",
        "Code5": "exposure number_of_vertices center_x center_y diameter rotation",
        "Code6": "center_x center_y outer_diameter ring_thickness gap_between_rings max_ring_count crosshair_thickness crosshair_length rotation",
        "Code7": "center_x center_y outer_diameter inner_diameter gap_thickness rotation",
    }
    if k in params:
        out = [k[4:]]
        for a in params[k].split():
            v = getattr(n, a)
            for x in v if isinstance(v, list) else [v]:
                if x is not None:
                    out += [",", *sub(x)]
        return [*out, "*"]
    if k == "AS":
        return ext("AS", n.correspondence.value)
    if k == "FS":
        return ext("FS", n.zeros.value, n.coordinate_mode.value, "X", n.x_integral, n.x_decimal, "Y", n.y_integral, n.y_decimal)
    if k in ("IP", "MO"):
        return ext(k, (n.polarity if k == "IP" else n.mode).value)
    if k == "MI":
        return ext("MIA", n.a_mirroring, "B", n.b_mirroring)
    if k == "OF":
        return ext("OF", *opt("A", n.a_offset, num), *opt("B", n.b_offset, num))
    if k == "SF":
        return ext("SFA", num(n.a_scale), "B", num(n.b_scale))
    if k in ("AB", "SR"):
        return sub(n.open) + [i for x in n.nodes for i in sub(x)] + sub(n.close)
    if k == "AM":
        return sub(n.open) + [i for x in n.primitives for i in sub(x)] + sub(n.close)
    if k == "File":
        return [i for x in n.nodes for i in sub(x)]
    raise NotImplementedError(k)
