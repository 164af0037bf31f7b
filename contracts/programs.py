"""Layer submission of the compiler."""
from pyvc.registry import contract

import pygerber.gerber.ast.nodes as N
from pygerber.gerber.ast.nodes.enums import Mirroring, Polarity
from pygerber.gerber.compiler.compiler import CommandBuffer, Compiler
from pygerber.gerber.compiler.errors import CyclicBufferDependencyError
from pygerber.vm.commands import EndLayer, PasteLayer, Shape, StartLayer
from pygerber.vm.commands.shape_segments import Line
from pygerber.vm.types import LayerID, Vector

from contracts.flashes import K, block, flash
from contracts.macros import circ
from contracts.paint import Machine, layers

C = "pygerber.gerber.compiler.compiler.Compiler."
MAIN = "%main%"
SEG = [Line(start=Vector(x=0, y=0), end=Vector(x=1, y=0))]


def acyclic(n, edges):
    """Reachable part of the graph from node 0; None if it contains a cycle."""
    done, path = set(), []

    def go(k):
        if k in path:
            return False
        if k in done:
            return True
        path.append(k)
        ok = all(go(j) for j in edges[k])
        path.pop()
        done.add(k)
        return ok

    return done if go(0) else None


def build(c, n, edges, names):
    """Compiler whose layer k pastes the layers edges[k] (in order), between two shapes."""
    comp = Compiler()
    for k in range(1, n):
        comp._set_buffer(CommandBuffer(names[k], None, Vector(x=0, y=0), [], set(), []))
    log = {}
    for k in range(n):
        b = comp._get_buffer(names[k])
        cmds = [Shape(commands=SEG, metadata={"k": f"{k}a"})]
        b.append_shape(cmds[0])
        for j in edges[k]:
            p = PasteLayer(source_layer_id=LayerID(id=names[j]), center=Vector(x=j, y=k), is_negative=(j + k) % 2 == 1)
            b.append_paste(p)
            cmds.append(p)
        cmds.append(Shape(commands=SEG, metadata={"k": f"{k}b"}))
        b.append_shape(cmds[-1])
        log[names[k]] = cmds
    return comp, log


@contract("C07", "layers of an arbitrary dependency graph", fns=[C + n for n in ("_resolve_buffer_submit_order", "_convert_buffers_to_rvmc", "compile")] + ["pygerber.gerber.compiler.compiler.CommandBuffer.append_paste"],
          bounded=True, weight=3, note="every graph of 4 layers (all 65536, in slices) including self references and cycles, and sampled graphs of up to 30 layers")
def _(c):
    how = c.choice("how", ["slice", "sample"])
    if how == "slice":
        hi = c.int("slice", 0, 255)
        graphs = [(4, [[j for j in range(4) if (hi * 256 + lo) >> (4 * k + j) & 1] for k in range(4)]) for lo in range(256)]
    else:
        n = c.choice("n", [5, 6, 7, 9, 30])
        dag = c.choice("acyclic", [True, True, False])
        graphs = [(n, [[j for j in range(n) if (j > k or not dag) and c.int(f"e{k}{j}", 0, 2 if n < 10 else 7) == 0] for k in range(n)])]
        c.choice("repeat", [0])
        if n >= 9 and graphs[0][1][0]:
            graphs[0][1][0].append(graphs[0][1][0][0])
    for n, edges in graphs:
        names = [MAIN] + [f"L{(k * 7) % (11 if n < 11 else 31)}" for k in range(1, n)]
        comp, log = build(c, n, edges, names)
        want = acyclic(n, edges)
        r, e = c.calls(lambda: comp.compile(N.File(nodes=[])), Exception)
        if want is None:
            c.check(isinstance(e, CyclicBufferDependencyError), "cyclic layers are an error", f"{edges}: {e!r}")
            continue
        c.check(e is None, "acyclic layers are compiled", f"{edges}: {e!r}")
        ls, order = layers(c, r)
        c.check(set(order) == {names[k] for k in want}, "layers reachable from the main layer are defined", f"{edges}: {order}")
        c.check(order[-1] == MAIN, "main layer comes last", str(order))
        for k in want:
            got = [x.metadata["k"] if isinstance(x, Shape) else x.source_layer_id.id for x in ls[names[k]][1]]
            exp = [x.metadata["k"] if isinstance(x, Shape) else x.source_layer_id.id for x in log[names[k]]]
            c.check(got == exp, "commands of a layer stay in drawing order", f"{got} instead of {exp}")


@contract("C07", "dependencies are recorded with every paste", fns=["pygerber.gerber.compiler.compiler.CommandBuffer." + n for n in ("append_paste", "append_shape", "layer_id")])
def _(c):
    names = ["a", "b"]
    b = CommandBuffer("x", None, Vector(x=0, y=0), [], set(), [])
    exp, deps = [], set()
    for i in range(4):
        k = c.choice(f"command {i}", ["shape", "a", "b"])
        cmd = Shape(commands=SEG, metadata={"k": str(i)}) if k == "shape" else PasteLayer(source_layer_id=LayerID(id=k), center=c.vec(f"p{i}"), is_negative=c.bool(f"clear {i}"))
        (b.append_shape if k == "shape" else b.append_paste)(cmd)
        exp.append(cmd)
        if k != "shape":
            deps.add(k)
    c.check([id(x) for x in b.commands] == [id(x) for x in exp], "commands in order of drawing")
    c.check(set(b.depends_on) == deps, "depends on exactly the pasted layers", str(b.depends_on))
    c.check(b.layer_id.id == "x", "layer keeps its name")


@contract("C07", "compiled files are well formed", fns=[C + n for n in ("compile", "_convert_buffers_to_rvmc", "_resolve_buffer_submit_order", "_get_buffer_with_transform", "_apply_transform_to_buffer", "on_ab", "on_sr")], weight=2,
          note="files of nested blocks, repeats and macros with thermals, flashed under transforms; all choices of contents of two nesting levels")
def _(c):
    m = Machine(c)
    k = K
    thermal = N.Code7(center_x=k(0.0), center_y=k(0.0), outer_diameter=k(4.0), inner_diameter=k(2.0), gap_thickness=k(0.5), rotation=k(0.0))
    m.run(N.AM(open=N.AMopen(name="T"), primitives=[thermal, circ(k(1.0), k(0.0)), thermal], close=N.AMclose()), N.ADmacro(aperture_id="D10", name="T"), N.ADmacro(aperture_id="D11", name="T"),
          N.ADC(aperture_id="D12", diameter=1.0), N.AM(open=N.AMopen(name="E"), primitives=[], close=N.AMclose()), N.ADmacro(aperture_id="D13", name="E"))

    def content(tag, avail):
        def f(v):
            for i in range(c.choice(f"{tag} n", [0, 1, 2] if tag == "main" else [0, 1])):
                a = c.choice(f"{tag} {i} aperture", avail)
                m.run(N.Dnn(aperture_id=a), N.LM(mirroring=c.choice(f"{tag} {i} mirror", [Mirroring.NONE, Mirroring.X]) if not c.sym or tag in ("main", "inner") and i == 0 else Mirroring.NONE))
                m.run(N.LP(polarity=c.choice(f"{tag} {i} polarity", [Polarity.Dark, Polarity.Clear]) if not c.sym or (tag == "main" and i == 0) else Polarity.Dark))
                flash(c, m, (1.0, 2.0))

        return f

    m.run(block("D20", content("inner", ["D10", "D12"])))
    m.run(block("D21", content("outer", ["D20", "D11", "D13"])))
    from contracts.flashes import step

    if c.bool("repeated"):
        m.run(N.SR(open=N.SRopen(x="2", y="1", i="5", j="0"), nodes=[step("sr", content("sr", ["D21", "D10"]))], close=N.SRclose()))
    content("main", ["D21", "D10", "D12", "D13"])(None)
    r = c.noraise(m.finish, "compilation")
    ls, order = layers(c, r)
    c.check(order[-1] == MAIN, "main layer comes last", str(order))
    used = {MAIN} | {cmd.source_layer_id.id for l in ls.values() for cmd in l[1] if isinstance(cmd, PasteLayer)}
    c.check(set(order) == used, "exactly the layers in use are defined", f"{order} {used}")
