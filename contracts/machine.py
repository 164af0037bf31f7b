"""The rendering machine: layer stack, automatic sizes."""
from pyvc.registry import contract

from pygerber.vm.commands import EndLayer, PasteLayer, Shape, StartLayer
from pygerber.vm.commands.shape_segments import Line
from pygerber.vm.rvmc import RVMC
from pygerber.vm.types import (
    Box,
    EmptyAutoSizedLayerNotAllowedError,
    LayerAlreadyExistsError,
    LayerID,
    LayerNotFoundError,
    NoLayerSetError,
    Vector,
)
from pygerber.vm.vm import VirtualMachine

V = "pygerber.vm.vm.VirtualMachine."


class Refused(Exception):
    """The renderer cannot create the layer."""


class Recorder(VirtualMachine):
    """Renderer that records what is drawn where."""

    def __init__(self, **kw):
        super().__init__(**kw)
        self.log = []

    def create_eager_layer(self, layer_id, origin, box):
        if getattr(self, "refuse", False):
            raise Refused
        return super().create_eager_layer(layer_id, origin, box)

    def on_shape_eager(self, command):
        self.log.append((self.layer, command.metadata["k"]))

    def on_paste_layer_eager(self, command):
        self.log.append((self.layer, command.metadata["k"], self.get_layer(command.source_layer_id)))


class Ref:
    """What the machine has to do, written down directly."""

    def __init__(self, c, fail_on_empty):
        self.c, self.fail = c, fail_on_empty
        self.layers, self.stack, self.log = {}, [], []

    def start(self, cmd, name, box, origin):
        if name in self.layers:
            return LayerAlreadyExistsError
        self.layers[name] = L = {"name": name, "box": box, "origin": origin, "cmds": [], "auto": box is None, "open": True}
        self.stack.append(L)
        return None

    def draw(self, kind, key, extra):
        if not self.stack:
            return NoLayerSetError
        L = self.stack[-1]
        if L["auto"]:
            L["cmds"].append((kind, key, extra))
            return None
        return self.exec(L, kind, key, extra)

    def exec(self, L, kind, key, extra):
        if kind == "paste":
            if extra[0] not in self.layers:
                return LayerNotFoundError
            self.log.append((L, key, self.layers[extra[0]]))
        else:
            self.log.append((L, key))
        return None

    def end(self):
        if not self.stack:
            return NoLayerSetError
        L = self.stack.pop()
        L["open"] = False
        if not L["auto"]:
            return None
        boxes = []
        for kind, key, extra in L["cmds"]:
            if kind == "shape":
                boxes.append(extra)
                continue
            src = self.layers.get(extra[0])
            if src is None:
                return LayerNotFoundError
            if src["box"] is None:
                if src["open"] or src is L:
                    return "open" if src["open"] else None
                continue
            b, p, o = src["box"], extra[1], src["origin"]
            boxes.append((b[0] + p[0] - o[0], b[1] + p[1] - o[1], b[2] + p[0] - o[0], b[3] + p[1] - o[1]))
        if not boxes:
            return EmptyAutoSizedLayerNotAllowedError if self.fail else None
        c = self.c
        L["box"] = tuple((c.min if i < 2 else c.max)(*[b[i] for b in boxes]) if len(boxes) > 1 else boxes[0][i] for i in range(4))
        for cmd in L["cmds"]:
            self.exec(L, *cmd)
        return None


class Run:
    def __init__(self, c):
        self.c = c
        fail = c.bool("fail on empty")
        self.vm, self.ref = Recorder(fail_on_empty_auto_sized_layer=fail), Ref(c, fail)
        self.n = 0

    def box(self, name):
        c = self.c
        b = tuple(c.real(f"{name}.{k}") for k in ("x0", "y0", "x1", "y1"))
        c.assume(c.And(b[0] <= b[2], b[1] <= b[3]))
        return b

    def do(self, ev):
        """Apply the event to the machine and to the reference; returns whether the path goes on."""
        c = self.c
        self.n += 1
        key = f"k{self.n}"
        if ev.startswith("start"):
            _, name, auto = ev.split()
            box = None if auto == "auto" else self.box(key)
            self.vm.refuse = auto == "refused"
            o = c.vec(key + ".o")
            cmd = StartLayer(id=LayerID(id=name), box=None if box is None else Box(min_x=box[0], min_y=box[1], max_x=box[2], max_y=box[3]), origin=o)
            want = Refused if auto == "refused" and name not in self.ref.layers else self.ref.start(cmd, name, box, o.xy)
        elif ev == "shape":
            s, e = c.vec(key + ".s"), c.vec(key + ".e")
            cmd = Shape(commands=[Line(start=s, end=e)], metadata={"k": key}, is_negative=self.n % 2 == 0)
            want = self.ref.draw("shape", key, (c.min(s.x, e.x), c.min(s.y, e.y), c.max(s.x, e.x), c.max(s.y, e.y)))
        elif ev.startswith("paste"):
            p = c.vec(key + ".p")
            src = ev.split()[1]
            cmd = PasteLayer(source_layer_id=LayerID(id=src), center=p, is_negative=self.n % 3 == 0, metadata={"k": key})
            want = self.ref.draw("paste", key, (src, p.xy))
        else:
            cmd = EndLayer()
            want = self.ref.end()
        r, e = c.calls(lambda: cmd.visit(self.vm), Exception)
        self.vm.refuse = False
        if type(e).__name__ in ("PathEnd", "Infeasible"):
            raise e
        what = ev.split()[0]
        if want is None:
            c.check(e is None, f"{what} is accepted", f"{ev}: {e!r}")
            if e is not None:
                raise c._end()
            return True
        if want == "open":
            c.check(e is not None, "a layer that is not finished cannot be pasted")
        else:
            c.check(isinstance(e, want), f"{what} is rejected with {want.__name__}", f"{ev}: {e!r}")
        return want in (LayerAlreadyExistsError, NoLayerSetError, Refused) or (want is LayerNotFoundError and ev.startswith("paste"))

    def same_box(self, layer, box, label):
        c = self.c
        if box is None:
            return c.check(getattr(layer, "box", None) is None, label + " (none)")
        b = getattr(layer, "box", None)
        c.check(b is not None, label + " (missing)")
        if b is None:
            raise c._end()
        for got, want, k in zip((b.min_x, b.min_y, b.max_x, b.max_y), box, ("min x", "min y", "max x", "max y")):
            c.eq(got, want, f"{label}: {k}")

    def compare(self):
        c, vm, ref = self.c, self.vm, self.ref
        c.check(len(vm.log) == len(ref.log), "commands drawn", f"{[(g[0].layer_id.id, g[1]) for g in vm.log]} instead of {[(w[0]['name'], w[1]) for w in ref.log]}")
        if len(vm.log) != len(ref.log):
            raise c._end()
        for g, w in zip(vm.log, ref.log):
            c.check(g[1] == w[1], "commands are drawn in order", f"{g[1]} instead of {w[1]}")
            c.check(g[0].layer_id.id == w[0]["name"], "commands go to the open layer", f"{g[0].layer_id.id} instead of {w[0]['name']}")
            self.same_box(g[0], w[0]["box"], "size of the layer drawn to")
            if len(w) > 2:
                c.check(g[2].layer_id.id == w[2]["name"], "layer is found under its own name", g[2].layer_id.id)
                self.same_box(g[2], w[2]["box"], "size of the pasted layer")
        c.check(vm.is_layer_stack_empty() == (not ref.stack), "layers open")
        if ref.stack:
            c.check(vm.layer.layer_id.id == ref.stack[-1]["name"], "layer open before a nested layer is open again", vm.layer.layer_id.id)
        for name, L in ref.layers.items():
            got = vm.get_layer(LayerID(id=name))
            c.check(got.layer_id.id == name, "layer is available under its own name")
            c.check(c.And(c.near(got.origin.x, L["origin"][0]), c.near(got.origin.y, L["origin"][1])), "layer keeps its origin")
            if not L["open"]:
                self.same_box(got, L["box"], "size of the finished layer")


def prefix(c, run):
    """A machine with two finished layers (one drawn, one empty) and up to two open ones."""
    for name, auto in (("F", c.choice("F", ["auto", "fixed"])), ("E", "auto")):
        run.do(f"start {name} {auto}")
        if name == "F":
            run.do("shape")
        if not run.do("end"):
            raise c._end()
    depth = c.choice("depth", [0, 1, 2])
    for d in range(depth):
        run.do(f"start {'%main%' if d == 0 else 'N'} {c.choice(f'kind {d}', ['auto', 'fixed'])}")
        for e in c.choice(f"contents {d}", [[], ["shape"], ["paste F"]] if d == 0 else [[], ["shape", "paste E"]]):
            run.do(e)


EVENTS = ["start X auto", "start X fixed", "start X refused", "start F auto", "shape", "paste F", "paste E", "paste nothing", "end"]


@contract(["C08", "C09"], "machine steps", fns=[V + n for n in ("on_start_layer", "on_end_layer", "on_shape", "on_paste_layer", "on_shape_deferred", "on_paste_layer_deferred", "_calculate_deferred_layer_box", "_eval_deferred_commands", "_is_empty_layer",
                                                              "set_handlers_for_layer", "set_eager_handlers", "set_deferred_handlers", "set_layer", "get_layer", "layer")],
          weight=4, max_paths=20000, note="two arbitrary commands from every machine with up to two open layers and two finished ones, then all layers closed; positions and sizes symbolic")
def _(c):
    run = Run(c)
    prefix(c, run)
    for i in range(c.choice("steps", [2] if c.sym else [1, 2, 3, 4, 6])):
        if not run.do(c.choice(f"step {i}", EVENTS if i == 0 or not c.sym else ["shape", "end", "paste F", "start F auto"])):
            return
        if c.sym and i == 0 and run.n > 40:
            break
    k = 0
    while run.ref.stack and k < 9:
        k += 1
        if not run.do("end"):
            return
        if run.ref.stack and c.bool(f"shape after {k}"):
            run.do("shape")
    run.compare()


@contract("C08", "result of a run", fns=[V + "run"])
def _(c):
    fail = c.bool("fail on empty")
    vm = Recorder(fail_on_empty_auto_sized_layer=fail)
    kind = c.choice("main layer", ["none", "empty", "auto", "fixed"])
    s, e = c.vec("s"), c.vec("e")
    cmds = [StartLayer(id=LayerID(id="other")), Shape(commands=[Line(start=c.vec("a"), end=c.vec("b"))], metadata={"k": "o"}), EndLayer()]
    main = LayerID(id="%main%")
    sh = Shape(commands=[Line(start=s, end=e)], metadata={"k": "m"})
    want = (0, 0, 0, 0)
    if kind == "empty":
        cmds += [StartLayer(id=main), EndLayer()]
    elif kind == "auto":
        cmds += [StartLayer(id=main), sh, EndLayer()]
        want = (c.min(s.x, e.x), c.min(s.y, e.y), c.max(s.x, e.x), c.max(s.y, e.y))
    elif kind == "fixed":
        want = tuple(c.real(k) for k in ("x0", "y0", "x1", "y1"))
        c.assume(c.And(want[0] <= want[2], want[1] <= want[3]))
        cmds += [StartLayer(id=main, box=Box(min_x=want[0], min_y=want[1], max_x=want[2], max_y=want[3])), sh, EndLayer()]
    r, err = c.calls(lambda: vm.run(RVMC(commands=cmds)))
    if fail and kind in ("none", "empty"):
        return c.check(err is not None, "missing or empty main layer is reported when asked for")
    c.check(err is None, "program runs", repr(err))
    if err is not None:
        raise c._end()
    b = r.main_box
    for g, w, k in zip((b.min_x, b.min_y, b.max_x, b.max_y), want, ("min x", "min y", "max x", "max y")):
        c.eq(g, w, f"box of the result is the box of the main layer: {k}")
