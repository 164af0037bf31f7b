"""Builds syntax tree nodes of every type, for contracts quantified over node types."""
import datetime
import enum
import inspect
import typing

import pygerber.gerber.ast.nodes as N
from pygerber.gerber.ast.nodes.base import Node

CB = {  # visitor callback belonging to each node type
    "ADmacro": "on_ad_macro", "ABopen": "on_ab_open", "ABclose": "on_ab_close", "AMopen": "on_am_open", "AMclose": "on_am_close",
    "SRopen": "on_sr_open", "SRclose": "on_sr_close", "TA_UserName": "on_ta_user_name", "TA_AperFunction": "on_ta_aper_function",
    "TA_DrillTolerance": "on_ta_drill_tolerance", "TA_FlashText": "on_ta_flash_text", "TF_UserName": "on_tf_user_name",
    "TF_FileFunction": "on_tf_file_function", "TF_FilePolarity": "on_tf_file_polarity", "TF_SameCoordinates": "on_tf_same_coordinates",
    "TF_CreationDate": "on_tf_creation_date", "TF_GenerationSoftware": "on_tf_generation_software", "TF_ProjectId": "on_tf_project_id",
    "TO_UserName": "on_to_user_name", **{f"Code{i}": f"on_code_{i}" for i in (0, 1, 2, 4, 5, 6, 7, 20, 21, 22)},
    **{f"Coordinate{a}": f"on_coordinate_{a.lower()}" for a in "XYIJ"},
}
ABSTRACT = {"Node", "AD", "TA", "TF", "TO", "D", "G", "M", "Expression", "Coordinate"}
COMMON = {  # additional callback shared by a family of nodes
    "AD": "on_ad", "TA": "on_ta", "TF": "on_tf", "TO": "on_to", "Expression": "on_expression", "Coordinate": "on_coordinate",
}


def callback(cls):
    return CB.get(cls.__name__, "on_" + cls.__name__.lower())


def common(cls):
    for b in cls.__mro__[1:]:
        if b.__name__ in COMMON:
            return COMMON[b.__name__]
    return None


def concrete_classes():
    out = {}
    for n, v in sorted(vars(N).items()):
        if inspect.isclass(v) and issubclass(v, Node) and n not in ABSTRACT and v.__name__ == n:
            out[n] = v
    return out


def hints(cls):
    return {k: f.annotation for k, f in cls.model_fields.items() if k != "source_info"}


class Builder:
    """Default values for fields by their type; `pick` decides on optional fields, enum members and lengths."""

    def __init__(self, pick=None):
        self.n = 0
        self.pick = pick or (lambda name, seq: seq[-1])

    def value(self, t, name):
        o, a = typing.get_origin(t), typing.get_args(t)
        if o is typing.Annotated:
            return self.value(a[0], name)
        if o is typing.Union or str(o) == "<class 'types.UnionType'>":
            rest = [x for x in a if x is not type(None)]
            if len(rest) < len(a) and not self.pick(name + "?", [False, True]):
                return None
            return self.value(self.pick(name + "|", rest) if len(rest) > 1 else rest[0], name)
        if o in (list, typing.List):
            return [self.value(a[0], f"{name}[{i}]") for i in range(self.pick(name + "#", [1, 2, 3] if name.endswith("tail") else [0, 1, 2]))]
        if o is typing.Literal:
            return self.pick(name + "=", list(a))
        self.n += 1
        if inspect.isclass(t) and issubclass(t, enum.Enum):
            return self.pick(name + "=", list(t))
        if t is float:
            return self.n + 0.25
        if t is int:
            return 3 + self.n % 5
        if t is bool:
            return self.pick(name + "=", [False, True])
        if t is datetime.datetime:
            return datetime.datetime(2024, 1, 1 + self.n % 20, tzinfo=datetime.timezone.utc)
        if inspect.isclass(t) and issubclass(t, N.Expression) and t.__name__ in ABSTRACT:
            return N.Constant(constant=self.n + 0.5)
        if inspect.isclass(t) and issubclass(t, Node):
            if t is Node:
                return N.G04(string=f"leaf{self.n}")
            return self.build(t, name + ".")
        if name.endswith("md5"):
            return f"{self.n:032x}"
        if inspect.isclass(t) and issubclass(t, str):
            return t(str(self.n)) if name.endswith(("x", "y", "i", "j", "value")) else t(f"text{self.n}")
        raise NotImplementedError(f"{name}: {t}")

    def build(self, cls, prefix="", **over):
        kw = {}
        for k, t in hints(cls).items():
            kw[k] = over[k] if k in over else self.value(t, prefix + k)
        return cls(**kw)


def children(node):
    """Sub-nodes in the order of their fields, i.e. in source order."""
    out = []
    for k in hints(type(node)):
        v = getattr(node, k)
        for x in v if isinstance(v, list) else [v]:
            if isinstance(x, Node):
                out.append(x)
    return out
