#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ST = "src/pygerber/gerber/ast/state_tracking_visitor.py"
CO = "src/pygerber/gerber/compiler/compiler.py"
SH = "src/pygerber/vm/commands/shape.py"
ARC = "src/pygerber/vm/commands/shape_segments/arc.py"
VEC = "src/pygerber/vm/types/vector.py"
MAT = "src/pygerber/vm/types/matrix.py"
BOX = "src/pygerber/vm/types/box.py"
VM = "src/pygerber/vm/vm.py"
PIL = "src/pygerber/vm/pillow/vm.py"
SHA = "src/pygerber/vm/shapely/vm.py"
FMT = "src/pygerber/gerber/formatter/formatter.py"
BLD = "src/pygerber/builder/gerber.py"
VIS = "src/pygerber/gerber/ast/ast_visitor.py"
API = "src/pygerber/gerber/api/"

# id, title, statement, over, quantifier text, why tests cannot, files, mechanism [(name, where)], level note
P = []


def prop(id, title, statement, over, text, why, files, mech, note="", na=None, level="proof"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, na=na, level=level))


prop("C01", "Coordinate text and numbers are converted exactly",
     "For every coordinate format (any number of integer and decimal digits, leading or trailing zeros omitted) the number read from a coordinate text is exactly the decimal value the text denotes, and texts with no digits or more digits than the format allows are rejected. "
     "Writing a number gives a text that fits the format, omits the zeros the format omits, and reads back as the number rounded to the resolution of the format; numbers that do not fit are rejected.",
     ["inputs", "configurations"], "all digit strings, all numbers, all coordinate formats, both axes",
     "tests sample a few formats and values; sign, length and zero-omission corner cases are unbounded",
     [ST], [("CoordinateFormat.unpack_x/unpack_y, pack_x/pack_y", ST)],
     "proof for every format with 0..9 integer/decimal digits (decode) and 1..9 (encode); floats as reals, cross-checked with exact fractions at run time")
prop("C02", "Graphics state follows every command of the Gerber file",
     "After any sequence of commands, the plot mode, arc mode, region mode, unit, coordinate format, current point, selected aperture, polarity, mirroring, rotation, scaling and attribute dictionaries are the ones the Gerber specification prescribes, every command changes only the state it is specified to change, and each draw, move or flash is dispatched to the operation that the state before it calls for. "
     "Coordinates missing from an operation keep their previous value, arc offsets never carry over, deleting attributes deletes exactly the named ones (or all), and nothing is processed after the end-of-file command.",
     ["histories", "inputs"], "all command sequences and operands; proved as one-step preservation from an arbitrary state",
     "tests run a handful of files; the state space is the product of all modes, attributes and coordinates",
     [ST], [("StateTrackingVisitor callbacks", ST), ("State, Attributes, ProgramStop", ST)],
     "one-step contracts from an arbitrary symbolic state, composed by induction over the history")
prop("C03", "Shapes have exactly the requested geometry",
     "Rectangles, obrounds, circles, regular polygons, thick lines, thick arcs, rings and closed polylines are created with an outline that encloses exactly the requested area for every position, size, rotation and vertex count, and keep the requested polarity and metadata. "
     "Standard apertures (with or without a round hole) defined in a Gerber file consist of exactly these shapes, the hole being cut out of the centre.",
     ["inputs"], "all real-valued positions, sizes and rotations",
     "tests compare images of a few sizes; off-centre, rotated or extreme aspect cases are not reached",
     [SH, CO], [("Shape.new_* factories", SH), ("aperture definition callbacks", CO)],
     "proof over reals; polygon and polyline vertex counts unrolled up to a stated bound")
prop("C04", "Aperture macros are evaluated as specified",
     "Every macro primitive (circle, vector line, centre line, lower-left line, outline, polygon, thermal, moire) yields the specified geometry for all parameter values, including rotation about the macro origin and exposure on or off. "
     "Macro arithmetic is evaluated with the usual semantics, parameters of the aperture definition are bound to the numbered variables, assignments take effect for the following primitives only, variables never assigned are zero, and nothing leaks from one macro instance into another.",
     ["inputs", "programs"], "all expressions, parameter values and primitive lists",
     "tests instantiate a few macros with constant parameters",
     [CO, "src/pygerber/gerber/ast/expression_eval_visitor.py"],
     [("macro primitive callbacks", CO), ("ExpressionEvalVisitor", "src/pygerber/gerber/ast/expression_eval_visitor.py")],
     "proof per primitive and per expression operator (structural induction over expressions)")
prop("C05", "Draw operations paint exactly what the graphics state calls for",
     "A line drawn with a round aperture covers the segment between the two points at the width of the aperture with its two ends capped by the aperture; arcs follow the circle given by the offsets in the current direction, a coincident start and end giving a full circle; rectangular and obround apertures give, for lines along their sides, the extent perpendicular to the line, and regular polygons their circumscribed circle; the width follows the aperture scaling and rotation. "
     "Region contours become filled shapes made of exactly the drawn segments, one per contour, and all shapes carry the polarity and the attributes in force when they were drawn.",
     ["inputs", "histories"], "all points, offsets, apertures, polarities and attribute sets",
     "tests compare reference images of a few drawings",
     [CO], [("draw_line, draw_cw_arc, draw_ccw_arc, region callbacks", CO)],
     "proof over reals with the shape factories used through their contracts")
prop("C06", "Flashes apply aperture transforms in the specified order",
     "Flashing an aperture places its shapes at the current point after scaling, mirroring and rotating them about the aperture origin, in that order, whatever combination of the three is active, and arcs keep the area they bound under mirroring. "
     "Block apertures and step-and-repeat blocks are reproduced with all their contents, attributes included, at every repetition offset, a flash with clear polarity toggles the polarity of block contents, and two different transforms of one aperture never share a rendering.",
     ["inputs", "histories"], "all transforms, positions, nesting of blocks, repeat counts and steps",
     "tests flash a few apertures at a few fixed angles",
     [CO, SH, ARC, MAT], [("flash callbacks and transformed aperture cache", CO), ("Shape.transform, Arc.transform", SH)],
     "proof for the transform chain and per-iteration effect of repetition")
prop("C07", "Compiled programs define every layer once and before use",
     "For every Gerber file the compiled drawing program contains each layer that is reachable from the main layer exactly once, properly opened and closed, before the first command that pastes it, the main layer last, and all commands of a layer in drawing order. "
     "Cyclic definitions are reported as errors instead of producing a program.",
     ["programs"], "all layer dependency graphs",
     "tests compile a few files with one or two levels of nesting",
     [CO], [("layer submission", CO)], "contract on the submission routine; dependency graphs are enumerated up to a stated size, so the graph contract is bounded and not counted as proved", level="other")
prop("C08", "The rendering machine keeps layers isolated",
     "While a drawing program runs, every command affects only the layer that is open, layers are closed in the reverse order of opening, a finished layer is available under its own name only, and duplicate and missing layers are reported as errors, a rejected layer start leaving the machine as it was. "
     "A layer with automatic size is exactly as large as the union of its contents, empty layers are allowed, and after a nested layer the machine continues with the layer that was open before it.",
     ["programs", "histories"], "all command sequences",
     "tests execute a few well-formed programs",
     [VM], [("VirtualMachine layer stack and deferred layers", VM)], "contracts on every machine operation from arbitrary machine states; sequences up to a bound")
prop("C09", "Bounding boxes are exact",
     "The bounding box of a line or arc contains every point of it and touches it on all four sides (for arcs together with the arc centre), whichever direction it is drawn and whichever axes it crosses. "
     "The box of a shape, of a pasted layer and of an automatically sized layer is the union of the boxes of what it contains.",
     ["inputs"], "all segments, centres, radii, directions",
     "tests check a dozen arcs; the crossing cases are a continuum",
     [ARC, BOX, SH], [("outer_box of segments and shapes", ARC)], "proof over reals; angle functions through their assumed contracts")
prop("C10", "Vector, matrix and box algebra is plane geometry",
     "Vector arithmetic and comparison act coordinate-wise, lengths, normalised vectors and clockwise and counterclockwise angles are the Euclidean ones (angles in [0, 360)), and matrix products compose transforms right to left for translation, rotation, mirroring and scaling. "
     "Boxes of points, unions, shifts, width, height and centre of boxes are exact, and different transforms have different tags.",
     ["inputs"], "all finite numbers",
     "tests use a few literal vectors",
     [VEC, MAT, BOX], [("Vector", VEC), ("Matrix3x3", MAT), ("Box", BOX)], "proof over reals; tag injectivity bounded")
prop("C11", "Arcs are approximated by points on the arc, in order",
     "Both renderers replace an arc by points that lie on its circle, start and end exactly at its endpoints, run in its direction over its angular span (a full turn when start and end coincide), and are dense enough that the chords deviate only slightly from the arc. "
     "Transforming a segment transforms all its defining points and reverses the direction of arcs exactly when the transform mirrors.",
     ["inputs"], "all arcs, resolutions, transforms",
     "tests compare images at one resolution",
     [PIL, SHA, ARC], [("arc tessellation", PIL), ("arc tessellation", SHA), ("Arc.transform", ARC)],
     "proof of count, angles and order with the numeric tolerance of the code; per-point contract for a generic index")
prop("C12", "Raster rendering maps coordinates to pixels consistently",
     "In the raster renderer every coordinate is mapped to pixels by one scale per layer with the y axis pointing up, each layer image has the pixel size of its box at the requested resolution, and a pasted layer appears at the offset of its origin, only where it has content. "
     "Dark shapes and pastes set pixels and clear ones erase them, in drawing order, and the style colours replace exactly foreground and background.",
     ["inputs", "configurations"], "all boxes, resolutions, positions and polarities",
     "tests compare whole images at one resolution with tolerance",
     [PIL], [("PillowVirtualMachine", PIL)], "contracts with the drawing library replaced by a recorder (trusted)")
prop("C13", "Vector rendering combines shapes by polarity in order",
     "In the vector renderer the result is the ordered combination of all shapes and pasted layers, dark ones united and clear ones subtracted, each pasted layer translated to its place. "
     "The written SVG covers exactly the bounding box of the result with the y axis pointing up, contains every polygon with its holes, in the colours of the style.",
     ["inputs", "programs"], "all programs of shapes, pastes and layers",
     "tests compare a few SVG files",
     [SHA], [("ShapelyVirtualMachine, ShapelyResult.save_svg", SHA)], "contracts with the geometry library through its assumed contract; SVG writer bounded")
prop("C14", "Formatting preserves the meaning of every command",
     "For every syntax tree and every formatting option the text written for each command denotes that same command with the same operands: numbers keep their value to the configured number of decimals and never use exponents, optional operands appear exactly when present, and options influence only layout. "
     "Every command inside a block is indented according to the nesting of the blocks and comments are never lost.",
     ["inputs", "configurations"], "all nodes, all operand values, all formatter options",
     "tests format a few files with a few option sets",
     [FMT], [("Formatter callbacks", FMT)], "proof of the text emitted per node over symbolic operands")
prop("C15", "Built Gerber code draws exactly what was requested",
     "For every sequence of pads, cut-outs, line and arc traces and regions added to a builder, the generated code, executed from the initial graphics state, performs each requested operation at the requested place with the requested aperture, polarity, rotation, mirroring, scaling and interpolation mode, in order, and nothing else. "
     "Every aperture and macro that is used is defined once before use under its own number with the requested parameters and attributes, and a call that is rejected adds nothing. "
     "Likewise the rendering commands made by the layer builder consist of exactly the requested layers, shapes and pastes, properly nested, and finished layers and builders refuse further additions.",
     ["histories", "inputs"], "all sequences of accepted builder calls and operands",
     "tests build a few fixed boards and compare text",
     [BLD, "src/pygerber/builder/rvmc.py"], [("GerberX3Builder, PadCreator, CustomPadCreator, RegionCreator", BLD), ("RvmcBuilder, LayerBuilder", "src/pygerber/builder/rvmc.py")], "one-step contract from an arbitrary builder state: the emitted commands, run over the abstract state, give the requested operation")
prop("C16", "Syntax tree traversal visits every node once, in order",
     "A visitor that overrides nothing visits every node of a syntax tree exactly once in source order, with the callback belonging to the type of the node and including all operands, expressions and nested blocks, and returns each node unchanged. "
     "Errors raised while visiting a command are offered to the error callback and end-of-file is signalled exactly once in every case.",
     ["inputs", "fault_sequences"], "all node types, all combinations of optional operands, all error positions",
     "tests traverse a few files",
     [VIS, "src/pygerber/gerber/ast/nodes"], [("AstVisitor callbacks, Node.visit", VIS)], "proof per node type by structural induction")
prop("C17", "Diagnostics report each finding exactly once at its place",
     "Linting any file calls every rule exactly once for each node it subscribed to, reports an interpolation command as redundant exactly when the same one is the latest interpolation command before it (an aperture block makes the mode unknown) and deprecated commands wherever they occur, with the position of the offending command, independently of files linted before. "
     "Positions are totally ordered by line and column, conversions between editor and parser positions are inverse to each other, and the command found at an editor position is the innermost one containing it.",
     ["histories", "inputs"], "all node sequences, all rule sets, all positions",
     "tests lint a few snippets",
     ["src/pygerber/gerber/linter", "src/pygerber/common/position.py", "src/pygerber/gerber/ast/node_finder.py"],
     [("EventAstVisitor, Rule, GRB001", "src/pygerber/gerber/linter"), ("Position", "src/pygerber/common/position.py"), ("NodeFinder", "src/pygerber/gerber/ast/node_finder.py")],
     "one-step contracts plus induction over the node sequence")
prop("C18", "High level file and project API is consistent",
     "Image space values in millimetres and pixels are the exact conversion of the rendered box for both units and the rendered image has the requested dots per millimetre (within one pixel), file types are inferred from extensions (ignoring case) and from the file function attribute as documented, every file type has a colour, options changed after a render take effect, and images are written alike to paths, open files and buffers. "
     "Composite views place every image according to its own origin with later files on top, and job files produce top, inner (by layer number) and bottom views with the documented layer order.",
     ["inputs", "configurations", "histories"], "all boxes, units, extensions, file functions and job files",
     "tests open a few files",
     [API + "_gerber_file.py", API + "_enums.py", API + "_composite_view.py", API + "_gerber_job_file.py"],
     [("ImageSpace, GerberFile", API + "_gerber_file.py"), ("FileTypeEnum", API + "_enums.py"), ("CompositeView", API + "_composite_view.py"), ("GerberJobFile", API + "_gerber_job_file.py")],
     "proof for the numeric part; composition and job files over enumerated configurations")
prop("C19", "Command line commands do exactly what their options say",
     "Every conversion command renders the named file with the requested file type, style (preset or custom colours) and resolution and writes it in the format of the command, with the requested compression settings, to the requested output file; merging commands render all named files in the given order. "
     "Formatting writes the file formatted with exactly the given configuration, linting prints every violation of the requested rules for every file, names of types and styles are accepted in any case, and wrong options are reported naming the option, with nothing written.",
     ["inputs", "configurations"], "all commands, options, file types, styles and numbers",
     "tests run each command once with one set of options",
     ["src/pygerber/console/gerber.py", API + "_gerber_file.py"],
     [("commands of the console", "src/pygerber/console/gerber.py"), ("image writers", API + "_gerber_file.py")],
     "commands executed with symbolic numbers and every value of every enumerated option; rendering and the imaging library recorded; end-to-end image files bounded")
prop("C20", "Parsing accepts the Gerber language and loses nothing",
     "Every syntactically valid Gerber file is parsed into the syntax tree that corresponds to its text, command by command with all operands and in order, whatever line breaks and spellings of codes and numbers (leading zeros included) are used, and every command knows where its text is. "
     "Text that is not valid is rejected, or with resilient parsing kept as an invalid node while all other commands are preserved, and formatted code is read back as the same commands. The MD5 attribute is verified against exactly the text preceding it.",
     ["inputs"], "all texts", "tests parse sample files; combinations of commands, operands and spellings are unbounded",
     ["src/pygerber/gerber/parser/pyparsing/grammar.py", "src/pygerber/gerber/parser/pyparsing/parser.py", "src/pygerber/gerber/ast/nodes/attribute/TF.py"],
     [("Grammar, Parser", "src/pygerber/gerber/parser/pyparsing/grammar.py"), ("TF_MD5.check_source_hash", "src/pygerber/gerber/ast/nodes/attribute/TF.py")],
     "bounded stand-in: the grammar is combinator data interpreted by pyparsing, outside the verifier's reach; contracts are checked at run time on generated files (stated bounds), never counted as proved", level="exploration")

prop("C21", "Editor assistance describes the document as it is now",
     "After any sequence of open, change and close requests, hover and completion answer for the latest text of the requested document. Hovering anywhere in an operation, definition or attribute command shows that command with its range, its points, parameters and attributes, and the graphics state in force just before it (also inside blocks), and previews exactly that operation. "
     "Completion offers exactly the apertures and blocks the document defines, and new definitions under a code that is not in use.",
     ["histories", "inputs"], "all request sequences, documents and positions",
     "the repository has no running tests of the language server",
     ["src/pygerber/gerber/language_server/_server/hover/gerber.py", "src/pygerber/gerber/language_server/_server/documents/gerber.py", "src/pygerber/gerber/language_server/_server/server.py", ST],
     [("LimitedStateTrackingVisitor, GerberHoverCreator", "src/pygerber/gerber/language_server/_server/hover/gerber.py"), ("GerberDocument", "src/pygerber/gerber/language_server/_server/documents/gerber.py"), ("get_server", "src/pygerber/gerber/language_server/_server/server.py")],
     "state before the command proved with symbolic places in the text; request sequences enumerated; texts of the hover bounded")


def main():
    with open(os.path.join(HERE, "contracts", "INDEX.json"), encoding="utf-8") as f:
        index = json.load(f)
    with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None},
            }) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if p["na"] or i not in index:
            na.append({"property": i, "reason": p["na"] or "check not built yet"})
            continue
        checks.append({
            "property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
            "technique": "contract-based deductive verification of the real functions (symbolic execution to SMT obligations, z3/cvc5)" if p["level"] == "proof" else "contracts on the real functions, checked at run time on generated inputs (bounded stand-in, not proved)",
            "level": p["level"], "level_note": p["note"],
        })
    m = {"version": 1, "setup_cmd": "python3 -c \"print('nothing to build')\"", "checks": checks, "not_applicable": na,
         "notes": "Contracts in contracts/, verifier in pyvc/, driver check.py. No hooks in /repo; only fix: commits."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
