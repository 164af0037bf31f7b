From 704afb2d65f0dc19f049e4dd4f5b5116e6e5cb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:08 +0000
Subject: [PATCH 01/63] fix: do not carry arc offsets (I/J) over to following
 operations

---
 src/pygerber/gerber/ast/state_tracking_visitor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pygerber/gerber/ast/state_tracking_visitor.py b/src/pygerber/gerber/ast/state_tracking_visitor.py
index 94467ce..2c4df87 100644
--- a/src/pygerber/gerber/ast/state_tracking_visitor.py
+++ b/src/pygerber/gerber/ast/state_tracking_visitor.py
@@ -614,6 +614,9 @@ class StateTrackingVisitor(AstVisitor):
             self.state.current_x = self.state.coordinate_x
         if self.state.coordinate_y is not None:
             self.state.current_y = self.state.coordinate_y
+        # Offsets (I and J) are not modal, missing offset has to be interpreted as 0.
+        self.state.coordinate_i = None
+        self.state.coordinate_j = None
 
     def on_d02(self, node: D02) -> D02:
         """Handle `D02` node."""
-- 
2.43.0


From 928245da523383d11355260882b8e7a7c796bbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:08 +0000
Subject: [PATCH 02/63] fix: stop processing at M00/M02 unless program stop is
 ignored

---
 src/pygerber/gerber/ast/state_tracking_visitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/ast/state_tracking_visitor.py b/src/pygerber/gerber/ast/state_tracking_visitor.py
index 2c4df87..9d1123b 100644
--- a/src/pygerber/gerber/ast/state_tracking_visitor.py
+++ b/src/pygerber/gerber/ast/state_tracking_visitor.py
@@ -951,6 +951,6 @@ class StateTrackingVisitor(AstVisitor):
     def on_exception(self, node: Node, exception: Exception) -> bool:  # noqa: ARG002
         """Handle exception."""
         if isinstance(exception, ProgramStop):
-            return bool(self._ignore_program_stop)
+            return not self._ignore_program_stop
 
         return True
-- 
2.43.0


From 0b012d2979b1a5521f7100aa00d91feadf4dfaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:08 +0000
Subject: [PATCH 03/63] fix: repeat step and repeat block content relative to
 its own origin

---
 src/pygerber/gerber/compiler/compiler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index 72f10f7..869a30d 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -240,8 +240,8 @@ class Compiler(StateTrackingVisitor):
 
         for x in range(node.open.x_repeats):
             for y in range(node.open.y_repeats):
-                x_coordinate = self.coordinate_x + (x * x_delta)
-                y_coordinate = self.coordinate_y + (y * y_delta)
+                x_coordinate = x * x_delta
+                y_coordinate = y * y_delta
                 tmp_buffer = self._apply_transform_to_buffer_non_recursive_tmp(
                     buffer, Matrix3x3.new_translate(x=x_coordinate, y=y_coordinate)
                 )
-- 
2.43.0


From c84523fc118d1af50cdd4843a068e6d3e0a1a3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:08 +0000
Subject: [PATCH 04/63] fix: derive thickness of drawn line from direction of
 the line

---
 src/pygerber/gerber/compiler/compiler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index 869a30d..05e3b60 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -413,7 +413,7 @@ class Compiler(StateTrackingVisitor):
         end_point = (end_x, end_y)
 
         thickness = self._get_line_thickness(
-            Vector.from_tuple((self.coordinate_x, self.coordinate_y))
+            Vector.from_tuple((end_x - start_x, end_y - start_y))
         )
         self._append_shape_to_current_buffer(
             Shape.new_circle(
@@ -461,7 +461,7 @@ class Compiler(StateTrackingVisitor):
         center = (center_x, center_y)
 
         thickness = self._get_line_thickness(
-            Vector.from_tuple((self.coordinate_x, self.coordinate_y))
+            Vector.from_tuple((end_x - start_x, end_y - start_y))
         )
 
         self._append_shape_to_current_buffer(
-- 
2.43.0


From 18a121bdedc45fe0ee49482f6a76ccaf26d9ca80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:08 +0000
Subject: [PATCH 05/63] fix: attach object attributes to regions

---
 src/pygerber/gerber/compiler/compiler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index 05e3b60..c87b614 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -610,6 +610,7 @@ class Compiler(StateTrackingVisitor):
             metadata.update(
                 _convert_attributes_to_metadata(self.state.attributes.object_attributes)
             )
+            return metadata
         return None
 
     def on_flush_region(self) -> None:
-- 
2.43.0


From 80cdb43f42a6dd0ce730ccb039639aea11e93986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:08 +0000
Subject: [PATCH 06/63] fix: submit layer shared by multiple layers exactly
 once

---
 src/pygerber/gerber/compiler/compiler.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index c87b614..7ddc28f 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -777,14 +777,23 @@ class Compiler(StateTrackingVisitor):
     def _resolve_buffer_submit_order(self) -> list[CommandBuffer]:
         buffer_submit_order: list[str] = []
 
+        in_progress: set[str] = set()
+
         def _(buffer: CommandBuffer) -> None:
+            in_progress.add(buffer.id_str)
+
             for dependency_id in buffer.depends_on:
                 dependency = self._get_buffer(dependency_id)
-                _(dependency)
 
-                if buffer.id_str in buffer_submit_order:
+                if dependency_id in in_progress:
                     raise CyclicBufferDependencyError(buffer, dependency)
 
+                # Layer can be used by multiple other layers, but has to be submitted
+                # only once.
+                if dependency_id not in buffer_submit_order:
+                    _(dependency)
+
+            in_progress.remove(buffer.id_str)
             buffer_submit_order.append(buffer.id_str)
 
         _(self._get_buffer(self.MAIN_BUFFER_ID))
-- 
2.43.0


From 0f07d1d2684caf393886db3f522020191a8d1471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:08 +0000
Subject: [PATCH 07/63] fix: do not rotate macro polygon primitive twice

---
 src/pygerber/gerber/compiler/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index 7ddc28f..85d210c 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -920,7 +920,7 @@ class MacroEvalVisitor(AstVisitor):
             (center_x, center_y),
             diameter,
             number_of_vertices,
-            rotation,
+            0.0,
             is_negative=(exposure == 0),
             metadata=self._metadata,
         )
-- 
2.43.0


From 379dba814940a10b9564ba8d4d26259318d33ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:08 +0000
Subject: [PATCH 08/63] fix: stop drawing moire rings when there is no space
 for them

---
 src/pygerber/gerber/compiler/compiler.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index 85d210c..065365d 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -975,10 +975,16 @@ class MacroEvalVisitor(AstVisitor):
             current_inner_diameter = outer_diameter - (ring_thickness * 2)
 
             for _ in range(int(max_ring_count)):
-                if current_outer_diameter <= ring_thickness:
+                if current_outer_diameter <= 0:
+                    break
+
+                if current_inner_diameter <= 0:
                     shapes.append(
                         Shape.new_circle(
-                            center, current_outer_diameter, is_negative=False
+                            center,
+                            current_outer_diameter,
+                            is_negative=False,
+                            metadata=self._metadata,
                         )
                     )
                     break
@@ -989,6 +995,7 @@ class MacroEvalVisitor(AstVisitor):
                         current_outer_diameter,
                         current_inner_diameter,
                         is_negative=False,
+                        metadata=self._metadata,
                     )
                 )
                 current_outer_diameter -= diameter_delta
-- 
2.43.0


From 007f6abb8c3b4b72ae0550c8e72cc8b2d77f070f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:08 +0000
Subject: [PATCH 09/63] fix: use distinct layer for thermal primitive of each
 aperture

---
 src/pygerber/gerber/compiler/compiler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index 065365d..5db2911 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -1031,7 +1031,9 @@ class MacroEvalVisitor(AstVisitor):
         if thickness <= 0:
             return node
 
-        aperture_id = ApertureIdStr(f"%%Code7%{id(node)}%{time.time():.0f}")
+        # Same macro can be used by multiple apertures with different parameters, hence
+        # ID of the aperture has to be a part of the ID of the thermal layer.
+        aperture_id = ApertureIdStr(f"%%Code7%{self._aperture_buffer.id_str}%{id(node)}")
         aperture_buffer = self._compiler._create_aperture_buffer(  # noqa: SLF001
             aperture_id
         )
-- 
2.43.0


From 0351c5ea49891ec7cfab2a034e3094337b714ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:08 +0000
Subject: [PATCH 10/63] fix: create all vertices of polygon regardless of its
 rotation

---
 src/pygerber/vm/commands/shape.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pygerber/vm/commands/shape.py b/src/pygerber/vm/commands/shape.py
index 1b460fa..2263b55 100644
--- a/src/pygerber/vm/commands/shape.py
+++ b/src/pygerber/vm/commands/shape.py
@@ -234,10 +234,8 @@ class Shape(Command):
         local_vertex_offset = local_vertex_offset.transform(
             Matrix3x3.new_rotate(base_rotation)
         )
-        current_angle = base_rotation
 
-        while current_angle < FULL_ANGLE_DEGREES:
-            current_angle += angle_step
+        for _ in range(vertices_count):
             new_local_vertex_offset = local_vertex_offset.transform(transform_matrix)
 
             commands.append(
-- 
2.43.0


From a6813afbdfffe0e7b71ab344152c8e0e059f7f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:08 +0000
Subject: [PATCH 11/63] fix: flip arc direction only for orientation reversing
 transforms

---
 src/pygerber/vm/commands/shape_segments/arc.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pygerber/vm/commands/shape_segments/arc.py b/src/pygerber/vm/commands/shape_segments/arc.py
index 616851d..fcb7aa0 100644
--- a/src/pygerber/vm/commands/shape_segments/arc.py
+++ b/src/pygerber/vm/commands/shape_segments/arc.py
@@ -109,7 +109,11 @@ class Arc(ShapeSegment):
             center=self.center.transform(transform),
             clockwise=(
                 self.clockwise
-                if transform[0][0] * transform[1][1] > 0
+                if (
+                    transform[0][0] * transform[1][1]
+                    - transform[0][1] * transform[1][0]
+                )
+                > 0
                 else not self.clockwise
             ),
         )
-- 
2.43.0


From f7e81e7192d05fb647510b19a8eb4e8e5de7275b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:12 +0000
Subject: [PATCH 12/63] fix: support auto-sized layers without contents

---
 src/pygerber/vm/pillow/vm.py  |  8 +++++
 src/pygerber/vm/shapely/vm.py |  8 +++++
 src/pygerber/vm/vm.py         | 58 +++++++++++++++++------------------
 3 files changed, 44 insertions(+), 30 deletions(-)

diff --git a/src/pygerber/vm/pillow/vm.py b/src/pygerber/vm/pillow/vm.py
index b57a680..e5ad0d3 100644
--- a/src/pygerber/vm/pillow/vm.py
+++ b/src/pygerber/vm/pillow/vm.py
@@ -467,6 +467,9 @@ class PillowVirtualMachine(VirtualMachine):
         """Visit `PasteLayer` command."""
         source_layer = self.get_layer(command.source_layer_id)
 
+        if self._is_empty_layer(source_layer):
+            return
+
         if isinstance(source_layer, PillowDeferredLayer):
             raise PasteDeferredLayerNotAllowedError(command.source_layer_id)
 
@@ -524,6 +527,11 @@ class PillowVirtualMachine(VirtualMachine):
                 Box(min_x=0, min_y=0, max_x=0, max_y=0), Image.new("1", (1, 1), 0)
             )
 
+        if self._is_empty_layer(layer):
+            return PillowResult(
+                Box(min_x=0, min_y=0, max_x=0, max_y=0), Image.new("1", (1, 1), 0)
+            )
+
         assert isinstance(layer, PillowEagerLayer)
         return PillowResult(
             layer.box, layer.image.transpose(Image.Transpose.FLIP_TOP_BOTTOM)
diff --git a/src/pygerber/vm/shapely/vm.py b/src/pygerber/vm/shapely/vm.py
index 84e6113..77f2af6 100644
--- a/src/pygerber/vm/shapely/vm.py
+++ b/src/pygerber/vm/shapely/vm.py
@@ -374,6 +374,9 @@ class ShapelyVirtualMachine(VirtualMachine):
         """Visit `PasteLayer` command."""
         source_layer = self.get_layer(command.source_layer_id)
 
+        if self._is_empty_layer(source_layer):
+            return
+
         if isinstance(source_layer, ShapelyDeferredLayer):
             raise PasteDeferredLayerNotAllowedError(command.source_layer_id)
 
@@ -418,5 +421,10 @@ class ShapelyVirtualMachine(VirtualMachine):
         if layer is None:
             raise NoMainLayerError
 
+        if self._is_empty_layer(layer):
+            return ShapelyResult(
+                Box(min_x=0, min_y=0, max_x=0, max_y=0), sh.GeometryCollection()
+            )
+
         assert isinstance(layer, ShapelyEagerLayer)
         return ShapelyResult(layer.box, sh.unary_union(layer.shape))
diff --git a/src/pygerber/vm/vm.py b/src/pygerber/vm/vm.py
index d6d5752..f306f97 100644
--- a/src/pygerber/vm/vm.py
+++ b/src/pygerber/vm/vm.py
@@ -262,17 +262,17 @@ class VirtualMachine(CommandVisitor):
             if box is None:
                 if self._fail_on_empty_auto_sized_layer:
                     raise EmptyAutoSizedLayerNotAllowedError(top_layer.layer_id)
-                return
 
-            new_layer = self.create_eager_layer(
-                top_layer.layer_id, top_layer.origin, box
-            )
-            self.set_layer(top_layer.layer_id, new_layer)
+            else:
+                new_layer = self.create_eager_layer(
+                    top_layer.layer_id, top_layer.origin, box
+                )
+                self.set_layer(top_layer.layer_id, new_layer)
 
-            self.push_layer_to_stack(new_layer)
-            self.set_eager_handlers()
-            self._eval_deferred_commands(top_layer.commands)
-            self.pop_layer_from_stack()
+                self.push_layer_to_stack(new_layer)
+                self.set_eager_handlers()
+                self._eval_deferred_commands(top_layer.commands)
+                self.pop_layer_from_stack()
 
         else:
             raise NotImplementedError(type(top_layer))
@@ -288,39 +288,34 @@ class VirtualMachine(CommandVisitor):
     def _calculate_deferred_layer_box(
         self, deferred_layer: DeferredLayer
     ) -> Optional[Box]:
-        commands = deferred_layer.commands
         box: Optional[Box] = None
 
-        if len(commands) == 0:
-            return None
-
-        cmd = commands[0]
-
-        if isinstance(cmd, Shape):
-            box = cmd.outer_box
-
-        elif isinstance(cmd, PasteLayer):
-            layer = self._layers[cmd.source_layer_id]
-            assert isinstance(layer, EagerLayer)
-            box = layer.box + cmd.center - layer.origin
-
-        else:
-            raise NotImplementedError(type(cmd))
-
-        for cmd in commands[1:]:
+        for cmd in deferred_layer.commands:
             if isinstance(cmd, Shape):
-                box = box + cmd.outer_box
+                cmd_box = cmd.outer_box
 
             elif isinstance(cmd, PasteLayer):
-                layer = self._layers[cmd.source_layer_id]
+                layer = self.get_layer(cmd.source_layer_id)
+                if self._is_empty_layer(layer):
+                    continue
+
                 assert isinstance(layer, EagerLayer)
-                box = box + (layer.box + cmd.center - layer.origin)
+                cmd_box = layer.box + cmd.center - layer.origin
 
             else:
                 raise NotImplementedError(type(cmd))
 
+            box = cmd_box if box is None else box + cmd_box
+
         return box
 
+    def _is_empty_layer(self, layer: Layer) -> bool:
+        """Check if layer is a finished auto-sized layer which has no contents.
+
+        Finished auto-sized layers with contents are replaced with eager layers.
+        """
+        return isinstance(layer, DeferredLayer) and layer not in self._layer_stack
+
     def _eval_deferred_commands(self, commands: list[DrawCmdT]) -> None:
         for cmd in commands:
             cmd.visit(self)
@@ -336,5 +331,8 @@ class VirtualMachine(CommandVisitor):
                 raise NoMainLayerError
             return Result(Box(min_x=0, min_y=0, max_x=0, max_y=0))
 
+        if self._is_empty_layer(layer):
+            return Result(Box(min_x=0, min_y=0, max_x=0, max_y=0))
+
         assert isinstance(layer, EagerLayer)
         return Result(layer.box)
-- 
2.43.0


From 056b965505efc7b5947dfc1e71740abeaf993ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:33 +0000
Subject: [PATCH 13/63] fix: return 0 as angle between vectors with the same
 direction

---
 src/pygerber/vm/commands/shape_segments/arc.py | 6 +++++-
 src/pygerber/vm/types/vector.py                | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pygerber/vm/commands/shape_segments/arc.py b/src/pygerber/vm/commands/shape_segments/arc.py
index fcb7aa0..562779f 100644
--- a/src/pygerber/vm/commands/shape_segments/arc.py
+++ b/src/pygerber/vm/commands/shape_segments/arc.py
@@ -84,12 +84,16 @@ class Arc(ShapeSegment):
             self.get_relative_end_point(),
         ]
         if not self.clockwise:
-            total_angle = 360 - total_angle
+            total_angle = (360 - total_angle) % 360
             angle_x_plus = 360 - angle_x_plus
             angle_y_minus = 360 - angle_y_minus
             angle_x_minus = 360 - angle_x_minus
             angle_y_plus = 360 - angle_y_plus
 
+        # Arc which starts and ends in the same place is a full circle.
+        if total_angle == 0:
+            total_angle = 360
+
         if angle_x_plus < total_angle:
             vectors.append(Vector(x=radius, y=0))
         if angle_y_minus < total_angle:
diff --git a/src/pygerber/vm/types/vector.py b/src/pygerber/vm/types/vector.py
index 772dea1..0d1020b 100644
--- a/src/pygerber/vm/types/vector.py
+++ b/src/pygerber/vm/types/vector.py
@@ -126,7 +126,7 @@ class Vector(ModelType):
         >>> e.angle_between(s)
         270.0
         """
-        return 360 - self.angle_between_cc(other)
+        return (360 - self.angle_between_cc(other)) % 360
 
     def angle_between_cc(self, other: Vector) -> float:
         """Calculate counter clockwise angle between two vectors in degrees.
-- 
2.43.0


From d647206c589ae8f1bd1087fb5b877bff1abc72ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:33 +0000
Subject: [PATCH 14/63] fix: accept zero size apertures in Pillow virtual
 machine

---
 src/pygerber/vm/pillow/vm.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pygerber/vm/pillow/vm.py b/src/pygerber/vm/pillow/vm.py
index e5ad0d3..9c6bae5 100644
--- a/src/pygerber/vm/pillow/vm.py
+++ b/src/pygerber/vm/pillow/vm.py
@@ -323,8 +323,8 @@ class PillowVirtualMachine(VirtualMachine):
 
     def create_eager_layer(self, layer_id: LayerID, origin: Vector, box: Box) -> Layer:
         """Create new eager layer instances (factory method)."""
-        assert box.width > 0
-        assert box.height > 0
+        assert box.width >= 0
+        assert box.height >= 0
         return PillowEagerLayer(self.dpmm, layer_id, box, origin)
 
     def create_deferred_layer(self, layer_id: LayerID, origin: Vector) -> Layer:
@@ -533,6 +533,9 @@ class PillowVirtualMachine(VirtualMachine):
             )
 
         assert isinstance(layer, PillowEagerLayer)
+        if 0 in layer.pixel_size:
+            return PillowResult(layer.box, Image.new("1", (1, 1), 0))
+
         return PillowResult(
             layer.box, layer.image.transpose(Image.Transpose.FLIP_TOP_BOTTOM)
         )
-- 
2.43.0


From 9b78ace5fb1af1f0ab331c5ed0197c62e16033d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:33 +0000
Subject: [PATCH 15/63] fix: use extent perpendicular to line direction as line
 thickness

---
 src/pygerber/gerber/compiler/compiler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index 5db2911..bac6b2b 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -202,8 +202,8 @@ class Compiler(StateTrackingVisitor):
             cos_angle = cos(radians(-angle))
 
             return Vector(
-                x=current_aperture.width * cos_angle,
-                y=current_aperture.height * sin_angle,
+                x=current_aperture.width * sin_angle,
+                y=current_aperture.height * cos_angle,
             ).length()
 
         if isinstance(current_aperture, ADP):
-- 
2.43.0


From f8d9a8c78475328e5785e2e6efbcbc82b7ef0e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:33 +0000
Subject: [PATCH 16/63] fix: mirror apertures before rotating them

---
 src/pygerber/gerber/compiler/compiler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index bac6b2b..1336094 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -661,7 +661,8 @@ class Compiler(StateTrackingVisitor):
         rotation_matrix = Matrix3x3.new_rotate(transform.rotation)
         scale_matrix = Matrix3x3.new_scale(transform.scaling, transform.scaling)
 
-        transform_matrix = mirroring_matrix @ rotation_matrix @ scale_matrix
+        # Mirroring is performed before rotation.
+        transform_matrix = rotation_matrix @ mirroring_matrix @ scale_matrix
 
         return self._get_buffer_with_transform(aperture_id, transform_matrix)
 
-- 
2.43.0


From 38dbcfc95b8f67b0a9d952358a609c10848476b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:33 +0000
Subject: [PATCH 17/63] fix: evaluate undefined macro variables to 0

---
 src/pygerber/gerber/ast/expression_eval_visitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/ast/expression_eval_visitor.py b/src/pygerber/gerber/ast/expression_eval_visitor.py
index 056c604..8d9380c 100644
--- a/src/pygerber/gerber/ast/expression_eval_visitor.py
+++ b/src/pygerber/gerber/ast/expression_eval_visitor.py
@@ -103,7 +103,7 @@ class ExpressionEvalVisitor(AstVisitor):
 
     def on_variable(self, node: Variable) -> Variable:
         """Handle `Variable` node."""
-        self.return_value = self.scope[node.variable]
+        self.return_value = self.scope.get(node.variable, 0.0)
         return node
 
     def on_constant(self, node: Constant) -> Constant:
-- 
2.43.0


From 6edb75999e5ce3ef424faa83fb9ee209895bafdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:33 +0000
Subject: [PATCH 18/63] fix: draw thermal with gap covering whole inner circle

---
 src/pygerber/gerber/compiler/compiler.py | 28 ++++++++++++++++--------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index 1336094..769e94f 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -1026,7 +1026,7 @@ class MacroEvalVisitor(AstVisitor):
 
         thickness = outer_diameter - inner_diameter
 
-        if gap_thickness * math.sqrt(2) >= inner_diameter:
+        if gap_thickness * math.sqrt(2) >= outer_diameter:
             return node
 
         if thickness <= 0:
@@ -1040,15 +1040,25 @@ class MacroEvalVisitor(AstVisitor):
         )
 
         shapes: list[Shape] = []
-        shapes.extend(
-            Shape.new_ring(
-                (0, 0),
-                outer_diameter,
-                inner_diameter,
-                is_negative=False,
-                metadata=self._metadata,
+        if inner_diameter > 0:
+            shapes.extend(
+                Shape.new_ring(
+                    (0, 0),
+                    outer_diameter,
+                    inner_diameter,
+                    is_negative=False,
+                    metadata=self._metadata,
+                )
+            )
+        else:
+            shapes.append(
+                Shape.new_circle(
+                    (0, 0),
+                    outer_diameter,
+                    is_negative=False,
+                    metadata=self._metadata,
+                )
             )
-        )
 
         # Compensate rounding errors with rotation.
         radius_delta = outer_diameter / 2 + thickness / 1.99
-- 
2.43.0


From 86cafe1f989fb08ecd6fb89adbc151a8a85a9fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:33 +0000
Subject: [PATCH 19/63] fix: compare positions in the same line by column

---
 src/pygerber/common/position.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pygerber/common/position.py b/src/pygerber/common/position.py
index 95861f5..c7417a7 100644
--- a/src/pygerber/common/position.py
+++ b/src/pygerber/common/position.py
@@ -54,7 +54,7 @@ class Position:
     def __ne__(self, __value: object) -> bool:
         if not isinstance(__value, self.__class__):
             return NotImplemented
-        return self.line != __value.line and self.column != __value.column
+        return self.line != __value.line or self.column != __value.column
 
     def __gt__(self, __value: object) -> bool:
         if not isinstance(__value, self.__class__):
@@ -66,7 +66,7 @@ class Position:
     def __ge__(self, __value: object) -> bool:
         if not isinstance(__value, self.__class__):
             return NotImplemented
-        return self.line >= __value.line or (
+        return self.line > __value.line or (
             self.line == __value.line and self.column >= __value.column
         )
 
@@ -80,6 +80,6 @@ class Position:
     def __le__(self, __value: object) -> bool:
         if not isinstance(__value, self.__class__):
             return NotImplemented
-        return self.line <= __value.line or (
+        return self.line < __value.line or (
             self.line == __value.line and self.column <= __value.column
         )
-- 
2.43.0


From 72c5595911b74f9aab84d94b39b8a073ef40a9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:24 +0000
Subject: [PATCH 20/63] fix: walk arcs along their actual angular span

---
 src/pygerber/vm/pillow/vm.py  | 33 ++++++++++++++++++---------------
 src/pygerber/vm/shapely/vm.py | 19 +++++++------------
 2 files changed, 25 insertions(+), 27 deletions(-)

diff --git a/src/pygerber/vm/pillow/vm.py b/src/pygerber/vm/pillow/vm.py
index 9c6bae5..f4d11e8 100644
--- a/src/pygerber/vm/pillow/vm.py
+++ b/src/pygerber/vm/pillow/vm.py
@@ -382,9 +382,18 @@ class PillowVirtualMachine(VirtualMachine):
         assert end_angle < FULL_ANGLE_DEGREES
 
         angle_delta = abs(start_angle - end_angle)
-        angle_length = (angle_delta / 360) * (command.get_radius() * 2 * math.pi)
-        angle_length_pixels = self.to_pixel(angle_length)
-        segment_count = self.angle_length_to_segment_count(angle_length_pixels)
+        segment_count = self._get_arc_segment_count(command, angle_delta)
+
+        # Arc which starts and ends in the same place is a full circle.
+        if command.clockwise and end_angle >= start_angle:
+            end_angle -= FULL_ANGLE_DEGREES
+        elif not command.clockwise and end_angle <= start_angle:
+            end_angle += FULL_ANGLE_DEGREES
+
+        if segment_count <= MIN_SEGMENT_COUNT:
+            # Ends of the arc are close to each other, but arc itself may be long.
+            angle_delta = abs(start_angle - end_angle)
+            segment_count = self._get_arc_segment_count(command, angle_delta)
 
         if segment_count < 1:
             raise DPMMTooSmallError(self.dpmm)
@@ -394,22 +403,11 @@ class PillowVirtualMachine(VirtualMachine):
 
         angle_generator: Generator[float, None, None]
 
-        if start_angle <= end_angle:
-            if command.clockwise:
-                end_angle -= FULL_ANGLE_DEGREES
-                angle_generator = self._generate_arc_angles(
-                    start_angle, end_angle, angle_delta, *DECREASE_ANGLE
-                )
-            else:
-                angle_generator = self._generate_arc_angles(
-                    start_angle, end_angle, angle_delta, *INCREASE_ANGLE
-                )
-        elif command.clockwise:
+        if command.clockwise:
             angle_generator = self._generate_arc_angles(
                 start_angle, end_angle, angle_delta, *DECREASE_ANGLE
             )
         else:
-            end_angle += FULL_ANGLE_DEGREES
             angle_generator = self._generate_arc_angles(
                 start_angle, end_angle, angle_delta, *INCREASE_ANGLE
             )
@@ -428,6 +426,11 @@ class PillowVirtualMachine(VirtualMachine):
 
         yield command.end.xy
 
+    def _get_arc_segment_count(self, command: Arc, angle_delta: float) -> int:
+        angle_length = (angle_delta / 360) * (command.get_radius() * 2 * math.pi)
+        angle_length_pixels = self.to_pixel(angle_length)
+        return self.angle_length_to_segment_count(angle_length_pixels)
+
     def _generate_arc_angles(
         self,
         start: float,
diff --git a/src/pygerber/vm/shapely/vm.py b/src/pygerber/vm/shapely/vm.py
index 77f2af6..d286656 100644
--- a/src/pygerber/vm/shapely/vm.py
+++ b/src/pygerber/vm/shapely/vm.py
@@ -317,6 +317,12 @@ class ShapelyVirtualMachine(VirtualMachine):
         assert start_angle < FULL_ANGLE_DEGREES
         assert end_angle < FULL_ANGLE_DEGREES
 
+        # Arc which starts and ends in the same place is a full circle.
+        if command.clockwise and end_angle >= start_angle:
+            end_angle -= FULL_ANGLE_DEGREES
+        elif not command.clockwise and end_angle <= start_angle:
+            end_angle += FULL_ANGLE_DEGREES
+
         angle_delta = abs(start_angle - end_angle)
         angle_length = (angle_delta / 360) * (command.get_radius() * 2 * math.pi)
         segment_count = self.angle_length_to_segment_count(angle_length)
@@ -326,22 +332,11 @@ class ShapelyVirtualMachine(VirtualMachine):
 
         angle_generator: Generator[float, None, None]
 
-        if start_angle <= end_angle:
-            if command.clockwise:
-                end_angle -= FULL_ANGLE_DEGREES
-                angle_generator = self._generate_arc_angles(
-                    start_angle, end_angle, angle_delta, *DECREASE_ANGLE
-                )
-            else:
-                angle_generator = self._generate_arc_angles(
-                    start_angle, end_angle, angle_delta, *INCREASE_ANGLE
-                )
-        elif command.clockwise:
+        if command.clockwise:
             angle_generator = self._generate_arc_angles(
                 start_angle, end_angle, angle_delta, *DECREASE_ANGLE
             )
         else:
-            end_angle += FULL_ANGLE_DEGREES
             angle_generator = self._generate_arc_angles(
                 start_angle, end_angle, angle_delta, *INCREASE_ANGLE
             )
-- 
2.43.0


From a4793c8dce894a267e295a6f2174afd56146f9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:14 +0000
Subject: [PATCH 21/63] fix: toggle polarity of block contents flashed with
 clear polarity

---
 src/pygerber/gerber/compiler/compiler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index 769e94f..c2095cf 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -739,6 +739,12 @@ class Compiler(StateTrackingVisitor):
         tmp_buffer = self._apply_transform_to_buffer_non_recursive_tmp(
             buffer, Matrix3x3.new_translate(x=self.coordinate_x, y=self.coordinate_y)
         )
+        if self.is_negative:
+            # Clear polarity toggles polarity of all objects in the block.
+            tmp_buffer.commands = [
+                cmd.model_copy(update={"is_negative": not cmd.is_negative})
+                for cmd in tmp_buffer.commands
+            ]
 
         self._expand_buffer_to_current_buffer(tmp_buffer)
 
-- 
2.43.0


From a67185e9c1caceb1dc642d2b966d84e99aa66407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:32 +0000
Subject: [PATCH 22/63] fix: format each parameter of step and repeat only when
 present

---
 src/pygerber/gerber/formatter/formatter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pygerber/gerber/formatter/formatter.py b/src/pygerber/gerber/formatter/formatter.py
index 7471884..d0d29a3 100644
--- a/src/pygerber/gerber/formatter/formatter.py
+++ b/src/pygerber/gerber/formatter/formatter.py
@@ -510,13 +510,13 @@ class Formatter(AstVisitor):
             if node.x is not None:
                 self._write(f"X{node.x}")
 
-            if node.x is not None:
+            if node.y is not None:
                 self._write(f"Y{node.y}")
 
-            if node.x is not None:
+            if node.i is not None:
                 self._write(f"I{node.i}")
 
-            if node.x is not None:
+            if node.j is not None:
                 self._write(f"J{node.j}")
 
         return node
-- 
2.43.0


From 8d7308c951f780404d1ea1fe6127d59b3df2332f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:32 +0000
Subject: [PATCH 23/63] fix: trim only trailing zeros of fraction and only when
 requested

---
 src/pygerber/gerber/formatter/formatter.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pygerber/gerber/formatter/formatter.py b/src/pygerber/gerber/formatter/formatter.py
index d0d29a3..b5d1388 100644
--- a/src/pygerber/gerber/formatter/formatter.py
+++ b/src/pygerber/gerber/formatter/formatter.py
@@ -130,6 +130,7 @@ from pygerber.gerber.ast.nodes import (
 from pygerber.gerber.formatter.enums import (
     EmptyLineBeforePolaritySwitch,
     ExplicitParenthesis,
+    FloatTrimTrailingZeros,
     KeepNonStandaloneCodes,
     MacroEndInNewLine,
     MacroSplitMode,
@@ -279,7 +280,9 @@ class Formatter(AstVisitor):
 
         self.float_decimal_places = self.options.float_decimal_places
 
-        self.float_trim_trailing_zeros = self.options.float_trim_trailing_zeros
+        self.float_trim_trailing_zeros = (
+            self.options.float_trim_trailing_zeros == FloatTrimTrailingZeros.Yes
+        )
 
         if isinstance(self.options.d01_indent, int):
             self.d01_indent = self.options.indent_character * self.options.d01_indent
@@ -375,9 +378,9 @@ class Formatter(AstVisitor):
         if self.float_decimal_places < 0:
             return str(value)
         double = f"{value:.{self.float_decimal_places}f}"
-        if self.float_trim_trailing_zeros:
+        if self.float_trim_trailing_zeros and "." in double:
             return double.rstrip("0").rstrip(".")
-        return double  # type: ignore[unreachable]
+        return double
 
     def _insert_base_indent(self) -> None:
         self._write(self._base_indent)
-- 
2.43.0


From ccc684c165daabe6e7ed21a83841599447bda7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:32 +0000
Subject: [PATCH 24/63] fix: never use scientific notation in formatted Gerber
 code

---
 src/pygerber/gerber/formatter/formatter.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/pygerber/gerber/formatter/formatter.py b/src/pygerber/gerber/formatter/formatter.py
index b5d1388..540b6fe 100644
--- a/src/pygerber/gerber/formatter/formatter.py
+++ b/src/pygerber/gerber/formatter/formatter.py
@@ -5,6 +5,7 @@ configurable Gerber code formatting.
 from __future__ import annotations
 
 from contextlib import contextmanager
+from decimal import Decimal
 from functools import wraps
 from io import StringIO
 from typing import (
@@ -376,7 +377,9 @@ class Formatter(AstVisitor):
 
     def _fmt_double(self, value: Double) -> str:
         if self.float_decimal_places < 0:
-            return str(value)
+            double = str(value)
+            # Scientific notation is not allowed in Gerber files.
+            return f"{Decimal(double):f}" if "e" in double else double
         double = f"{value:.{self.float_decimal_places}f}"
         if self.float_trim_trailing_zeros and "." in double:
             return double.rstrip("0").rstrip(".")
@@ -476,9 +479,9 @@ class Formatter(AstVisitor):
         with self._extended_command(f"AD{node.aperture_id}{node.name}"):
             if node.params is not None:
                 first, *rest = node.params
-                self._write(f",{first}")
+                self._write(f",{self._fmt_double(first)}")
                 for param in rest:
-                    self._write(f"X{param}")
+                    self._write(f"X{self._fmt_double(param)}")
         return node
 
     @_decorator_insert_base_indent
@@ -1501,9 +1504,9 @@ class Formatter(AstVisitor):
         """Handle `OF` node."""
         with self._extended_command("OF"):
             if node.a_offset is not None:
-                self._write(f"A{node.a_offset}")
+                self._write(f"A{self._fmt_double(node.a_offset)}")
             if node.b_offset is not None:
-                self._write(f"B{node.b_offset}")
+                self._write(f"B{self._fmt_double(node.b_offset)}")
         return node
 
     @_decorator_insert_base_indent
-- 
2.43.0


From 291e2b7748e8f5fa8a71060382a5d3dd097d5c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:32 +0000
Subject: [PATCH 25/63] fix: keep indentation of outer block when inner block
 has no indentation

---
 src/pygerber/gerber/formatter/formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/formatter/formatter.py b/src/pygerber/gerber/formatter/formatter.py
index 540b6fe..f56730a 100644
--- a/src/pygerber/gerber/formatter/formatter.py
+++ b/src/pygerber/gerber/formatter/formatter.py
@@ -182,7 +182,7 @@ def _decrease_base_indent(
             assert isinstance(self, Formatter)
 
             indent_delta = getattr(self, variable_name)
-            if self._base_indent.endswith(indent_delta):
+            if indent_delta and self._base_indent.endswith(indent_delta):
                 self._base_indent = self._base_indent[: -len(indent_delta)]
 
             return function(*args, **kwargs)
-- 
2.43.0


From 3c38659b77411fd76f71f6862078412d98a58150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:55 +0000
Subject: [PATCH 26/63] fix: track plot mode changed by region outline in
 builder

---
 src/pygerber/builder/gerber.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pygerber/builder/gerber.py b/src/pygerber/builder/gerber.py
index fe9fd49..8bab33b 100644
--- a/src/pygerber/builder/gerber.py
+++ b/src/pygerber/builder/gerber.py
@@ -1639,6 +1639,8 @@ class RegionCreator:
                 else:
                     raise NotImplementedError
 
+            self._builder._plot_mode = mode  # noqa: SLF001
+
             yield G37()
             yield D02(
                 x=self._builder._pack_x(self._begin[0]),  # noqa: SLF001
-- 
2.43.0


From 93e66af8d3b15a161608cac6a9e6be2b332b3203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:26 +0000
Subject: [PATCH 27/63] fix: add drill map to default color map with alpha

---
 src/pygerber/gerber/api/_enums.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pygerber/gerber/api/_enums.py b/src/pygerber/gerber/api/_enums.py
index 1437b4d..c20546d 100644
--- a/src/pygerber/gerber/api/_enums.py
+++ b/src/pygerber/gerber/api/_enums.py
@@ -243,6 +243,7 @@ DEFAULT_ALPHA_COLOR_MAP: COLOR_MAP_T = {
     FileTypeEnum.VCUT: Style.presets.PASTE_MASK_ALPHA,
     FileTypeEnum.VIAFILL: Style.presets.PASTE_MASK_ALPHA,
     FileTypeEnum.PADS: Style.presets.PASTE_MASK_ALPHA,
+    FileTypeEnum.DRILLMAP: Style.presets.SILK_ALPHA,
     FileTypeEnum.FABRICATIONDRAWING: Style.presets.SILK_ALPHA,
     FileTypeEnum.VCUTMAP: Style.presets.SILK_ALPHA,
     FileTypeEnum.ASSEMBLYDRAWING: Style.presets.SILK_ALPHA,
-- 
2.43.0


From 224dcaaef34116590407e59138e6fdda2fc8c680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:26 +0000
Subject: [PATCH 28/63] fix: ignore case of numbered layer file extensions

---
 src/pygerber/gerber/api/_enums.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/api/_enums.py b/src/pygerber/gerber/api/_enums.py
index c20546d..9719c90 100644
--- a/src/pygerber/gerber/api/_enums.py
+++ b/src/pygerber/gerber/api/_enums.py
@@ -156,6 +156,8 @@ class FileTypeEnum(Enum):
 
     @classmethod
     def infer_from_extension(cls, extension: str) -> FileTypeEnum:
+        extension = extension.lower()
+
         if re.match(r"\.g[0-9]+", extension):
             return FileTypeEnum.COPPER
 
@@ -166,7 +168,7 @@ class FileTypeEnum(Enum):
             return FileTypeEnum.COPPER
 
         return GERBER_EXTENSION_TO_FILE_TYPE_MAPPING.get(
-            extension.lower(), FileTypeEnum.UNDEFINED
+            extension, FileTypeEnum.UNDEFINED
         )
 
 
-- 
2.43.0


From ae64b0be00fae4a5fad10c9d62e7016cad9bf8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:26 +0000
Subject: [PATCH 29/63] fix: order inner layers of job file by layer number

---
 src/pygerber/gerber/api/_gerber_job_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/api/_gerber_job_file.py b/src/pygerber/gerber/api/_gerber_job_file.py
index ad41c84..368ec74 100644
--- a/src/pygerber/gerber/api/_gerber_job_file.py
+++ b/src/pygerber/gerber/api/_gerber_job_file.py
@@ -229,7 +229,7 @@ class GerberJobFile(_ModelType):
             top=CompositeView(extract_and_sort_files(top)),
             inner=(
                 CompositeView(extract_and_sort_files(inner[key]))
-                for key in sorted(inner)
+                for key in sorted(inner, key=int)
             ),
             bottom=CompositeView(extract_and_sort_files(bottom)),
         )
-- 
2.43.0


From 81b4df1bdc4db563fc70ebe1886efdcdebfc9f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:26 +0000
Subject: [PATCH 30/63] fix: allow creating Gerber job file without file on
 disk

---
 src/pygerber/gerber/api/_gerber_job_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/api/_gerber_job_file.py b/src/pygerber/gerber/api/_gerber_job_file.py
index 368ec74..f02a8d8 100644
--- a/src/pygerber/gerber/api/_gerber_job_file.py
+++ b/src/pygerber/gerber/api/_gerber_job_file.py
@@ -102,7 +102,8 @@ class GerberJobFile(_ModelType):
     __file_path__: Optional[Path] = None
 
     def model_post_init(self, __context: Any) -> None:
-        self.__file_path__ = Path(__context["__file_path__"])
+        if __context is not None and "__file_path__" in __context:
+            self.__file_path__ = Path(__context["__file_path__"])
         return super().model_post_init(__context)
 
     @classmethod
-- 
2.43.0


From ff9b9356dde22e44df8f8fd3a58366c63e89862e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:22 +0000
Subject: [PATCH 31/63] fix: notify listeners about visited node exactly once

---
 .../gerber/linter/event_ast_visitor.py        | 34 -------------------
 1 file changed, 34 deletions(-)

diff --git a/src/pygerber/gerber/linter/event_ast_visitor.py b/src/pygerber/gerber/linter/event_ast_visitor.py
index 8b996c3..4164999 100644
--- a/src/pygerber/gerber/linter/event_ast_visitor.py
+++ b/src/pygerber/gerber/linter/event_ast_visitor.py
@@ -10,7 +10,6 @@ from pygerber.gerber.ast.nodes import Node
 if TYPE_CHECKING:
     from pygerber.gerber.ast.nodes import (
         AB,
-        AD,
         ADC,
         ADO,
         ADP,
@@ -51,11 +50,8 @@ if TYPE_CHECKING:
         OF,
         SF,
         SR,
-        TA,
         TD,
-        TF,
         TF_MD5,
-        TO,
         TO_C,
         TO_CMNP,
         TO_N,
@@ -78,14 +74,12 @@ if TYPE_CHECKING:
         Code21,
         Code22,
         Constant,
-        Coordinate,
         CoordinateI,
         CoordinateJ,
         CoordinateX,
         CoordinateY,
         Div,
         Dnn,
-        Expression,
         File,
         Invalid,
         Mul,
@@ -158,10 +152,6 @@ class EventAstVisitor(AstVisitor):
         self._trigger_listeners(node)
         return super().on_ab_open(node)
 
-    def on_ad(self, node: AD) -> None:  # noqa: D102
-        self._trigger_listeners(node)
-        return super().on_ad(node)
-
     def on_adc(self, node: ADC) -> ADC:  # noqa: D102
         self._trigger_listeners(node)
         return super().on_adc(node)
@@ -206,10 +196,6 @@ class EventAstVisitor(AstVisitor):
         self._trigger_listeners(node)
         return super().on_sr_open(node)
 
-    def on_ta(self, node: TA) -> None:  # noqa: D102
-        self._trigger_listeners(node)
-        return super().on_ta(node)
-
     def on_ta_user_name(self, node: TA_UserName) -> TA_UserName:  # noqa: D102
         self._trigger_listeners(node)
         return super().on_ta_user_name(node)
@@ -234,10 +220,6 @@ class EventAstVisitor(AstVisitor):
         self._trigger_listeners(node)
         return super().on_td(node)
 
-    def on_tf(self, node: TF) -> None:  # noqa: D102
-        self._trigger_listeners(node)
-        return super().on_tf(node)
-
     def on_tf_user_name(self, node: TF_UserName) -> TF_UserName:  # noqa: D102
         self._trigger_listeners(node)
         return super().on_tf_user_name(node)
@@ -284,10 +266,6 @@ class EventAstVisitor(AstVisitor):
         self._trigger_listeners(node)
         return super().on_tf_md5(node)
 
-    def on_to(self, node: TO) -> None:  # noqa: D102
-        self._trigger_listeners(node)
-        return super().on_to(node)
-
     def on_to_user_name(self, node: TO_UserName) -> TO_UserName:  # noqa: D102
         self._trigger_listeners(node)
         return super().on_to_user_name(node)
@@ -488,10 +466,6 @@ class EventAstVisitor(AstVisitor):
         self._trigger_listeners(node)
         return super().on_constant(node)
 
-    def on_expression(self, node: Expression) -> None:  # noqa: D102
-        self._trigger_listeners(node)
-        return super().on_expression(node)
-
     def on_parenthesis(self, node: Parenthesis) -> Parenthesis:  # noqa: D102
         self._trigger_listeners(node)
         return super().on_parenthesis(node)
@@ -504,10 +478,6 @@ class EventAstVisitor(AstVisitor):
         self._trigger_listeners(node)
         return super().on_variable(node)
 
-    def on_coordinate(self, node: Coordinate) -> None:  # noqa: D102
-        self._trigger_listeners(node)
-        return super().on_coordinate(node)
-
     def on_coordinate_x(self, node: CoordinateX) -> CoordinateX:  # noqa: D102
         self._trigger_listeners(node)
         return super().on_coordinate_x(node)
@@ -604,10 +574,6 @@ class EventAstVisitor(AstVisitor):
         self._trigger_listeners(node)
         return super().on_file(node)
 
-    def on_end_of_file(self, node: File) -> None:  # noqa: D102
-        self._trigger_listeners(node)
-        return super().on_end_of_file(node)
-
     def on_invalid(self, node: Invalid) -> Invalid:  # noqa: D102
         self._trigger_listeners(node)
         return super().on_invalid(node)
-- 
2.43.0


From c626cac3ff07df69b60ce61d1a8657f615f7ea30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:44 +0000
Subject: [PATCH 32/63] fix: store manufacturer part number attribute under its
 own name

---
 src/pygerber/gerber/ast/nodes/attribute/TO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pygerber/gerber/ast/nodes/attribute/TO.py b/src/pygerber/gerber/ast/nodes/attribute/TO.py
index c7b25fc..3d1265a 100644
--- a/src/pygerber/gerber/ast/nodes/attribute/TO.py
+++ b/src/pygerber/gerber/ast/nodes/attribute/TO.py
@@ -155,14 +155,14 @@ class TO_CMfr(TO):  # noqa: N801
 
 
 class TO_CMNP(TO):  # noqa: N801
-    """Represents TO Gerber extended command with .CMNP attribute."""
+    """Represents TO Gerber extended command with .CMPN attribute."""
 
     part_number: str
 
     @property
     def attribute_name(self) -> str:
         """Get attribute name."""
-        return ".CMNP"
+        return ".CMPN"
 
     def visit(self, visitor: AstVisitor) -> TO_CMNP:
         """Handle visitor call."""
-- 
2.43.0


From 5d52358272a31699fd0cd69481c303ceeeabc153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:17 +0000
Subject: [PATCH 33/63] fix: do not carry outer box of shape over to its
 transformed copy

---
 src/pygerber/vm/commands/shape.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pygerber/vm/commands/shape.py b/src/pygerber/vm/commands/shape.py
index 2263b55..818b3f0 100644
--- a/src/pygerber/vm/commands/shape.py
+++ b/src/pygerber/vm/commands/shape.py
@@ -47,10 +47,11 @@ class Shape(Command):
 
     def transform(self, transform: Matrix3x3) -> Self:
         """Transpose shape by vector."""
-        return self.model_copy(
-            update={
-                "commands": [segment.transform(transform) for segment in self.commands]
-            }
+        # Cached outer box must not be carried over to transformed shape.
+        return self.__class__(
+            commands=[segment.transform(transform) for segment in self.commands],
+            is_negative=self.is_negative,
+            metadata=self.metadata,
         )
 
     def visit(self, visitor: CommandVisitor) -> None:
-- 
2.43.0


From d1fd55a8eb7c339f33420268b2c2ea331094a4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:23 +0000
Subject: [PATCH 34/63] fix: apply aperture scaling and rotation to drawn lines
 and arcs

---
 src/pygerber/gerber/compiler/compiler.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index c2095cf..da54071 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -192,22 +192,26 @@ class Compiler(StateTrackingVisitor):
         self._buffer_stack.pop()
 
     def _get_line_thickness(self, line_direction: Vector) -> float:
+        # Aperture transforms affect also apertures used for drawing lines and arcs.
+        transform = self.state.transform
         current_aperture = self.state.current_aperture
         if isinstance(current_aperture, ADC):
-            return current_aperture.diameter
+            return current_aperture.diameter * transform.scaling
 
         if isinstance(current_aperture, (ADR, ADO)):
-            angle = line_direction.angle_between(Vector.unit.x)
+            angle = (
+                line_direction.angle_between(Vector.unit.x) - transform.rotation
+            )
             sin_angle = sin(radians(-angle))
             cos_angle = cos(radians(-angle))
 
             return Vector(
                 x=current_aperture.width * sin_angle,
                 y=current_aperture.height * cos_angle,
-            ).length()
+            ).length() * transform.scaling
 
         if isinstance(current_aperture, ADP):
-            return current_aperture.outer_diameter
+            return current_aperture.outer_diameter * transform.scaling
 
         raise NotImplementedError(type(current_aperture))
 
-- 
2.43.0


From aebd92e12ca37b6650cdb3653ec3cd0b3779d9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:30 +0000
Subject: [PATCH 35/63] fix: pasting a layer without shapes with clear polarity
 crashed the vector renderer

---
 src/pygerber/vm/shapely/vm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pygerber/vm/shapely/vm.py b/src/pygerber/vm/shapely/vm.py
index d286656..f9cd805 100644
--- a/src/pygerber/vm/shapely/vm.py
+++ b/src/pygerber/vm/shapely/vm.py
@@ -396,6 +396,9 @@ class ShapelyVirtualMachine(VirtualMachine):
             for geom in source_layer.shape
         ]
 
+        if not transformed_shape:
+            return
+
         if command.is_negative:
             dest_layer_tree = shtree.STRtree(self.layer.shape)
             dest_idx = dest_layer_tree.query(transformed_shape).T
-- 
2.43.0


From 449446df7d28ccc78616158a75a8c6c1ff2b0f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:15 +0000
Subject: [PATCH 36/63] fix: formatted size of flashed text without font became
 its font

---
 src/pygerber/gerber/formatter/formatter.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/pygerber/gerber/formatter/formatter.py b/src/pygerber/gerber/formatter/formatter.py
index f56730a..cc6a52c 100644
--- a/src/pygerber/gerber/formatter/formatter.py
+++ b/src/pygerber/gerber/formatter/formatter.py
@@ -581,17 +581,13 @@ class Formatter(AstVisitor):
             self._write(node.mirroring)
 
             if len(node.comments) == 0:
-                if node.font is not None:
+                if node.font is not None or node.size is not None:
                     self._write(",")
-                    self._write(node.font)
+                    self._write(node.font or "")
 
                 if node.size is not None:
                     self._write(",")
                     self._write(node.size)
-
-                for comment in node.comments:
-                    self._write(",")
-                    self._write(comment)
             else:
                 self._write(",")
                 if node.font is not None:
-- 
2.43.0


From c756b9f05f8222f52b8258102df26df02d29e022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:15 +0000
Subject: [PATCH 37/63] fix: formatted hole diameter of polygon without
 rotation became its rotation

---
 src/pygerber/gerber/formatter/formatter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pygerber/gerber/formatter/formatter.py b/src/pygerber/gerber/formatter/formatter.py
index cc6a52c..d78e6ae 100644
--- a/src/pygerber/gerber/formatter/formatter.py
+++ b/src/pygerber/gerber/formatter/formatter.py
@@ -468,6 +468,9 @@ class Formatter(AstVisitor):
 
             if node.rotation is not None:
                 self._write(f"X{self._fmt_double(node.rotation)}")
+            elif node.hole_diameter is not None:
+                # Hole diameter can be given only after rotation.
+                self._write(f"X{self._fmt_double(0.0)}")
 
             if node.hole_diameter is not None:
                 self._write(f"X{self._fmt_double(node.hole_diameter)}")
-- 
2.43.0


From 090c503599d8a2a4a36ea676b020f7472380e4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:15 +0000
Subject: [PATCH 38/63] fix: formatting macro aperture with empty list of
 parameters failed

---
 src/pygerber/gerber/formatter/formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/formatter/formatter.py b/src/pygerber/gerber/formatter/formatter.py
index d78e6ae..1d92330 100644
--- a/src/pygerber/gerber/formatter/formatter.py
+++ b/src/pygerber/gerber/formatter/formatter.py
@@ -480,7 +480,7 @@ class Formatter(AstVisitor):
     def on_ad_macro(self, node: ADmacro) -> ADmacro:
         """Handle `AD` macro node."""
         with self._extended_command(f"AD{node.aperture_id}{node.name}"):
-            if node.params is not None:
+            if node.params:
                 first, *rest = node.params
                 self._write(f",{self._fmt_double(first)}")
                 for param in rest:
-- 
2.43.0


From f1f1b869c789a42a83394d68e745e84b39d49e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:15 +0000
Subject: [PATCH 39/63] fix: TO.CLbN attribute was formatted as TO.CLbn

---
 src/pygerber/gerber/formatter/formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/formatter/formatter.py b/src/pygerber/gerber/formatter/formatter.py
index 1d92330..a0abe72 100644
--- a/src/pygerber/gerber/formatter/formatter.py
+++ b/src/pygerber/gerber/formatter/formatter.py
@@ -851,7 +851,7 @@ class Formatter(AstVisitor):
     @_decorator_insert_base_indent
     def on_to_clbn(self, node: TO_CLbN) -> TO_CLbN:
         """Handle `TO_CLbN` node."""
-        with self._extended_command("TO.CLbn"):
+        with self._extended_command("TO.CLbN"):
             self._write(",")
             self._write(node.name)
 
-- 
2.43.0


From 58697e1b2f39b892f7abe7c7d57237833335fa66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:15 +0000
Subject: [PATCH 40/63] fix: removed G54 and G55 left their indentation before
 following command

---
 src/pygerber/gerber/formatter/formatter.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/pygerber/gerber/formatter/formatter.py b/src/pygerber/gerber/formatter/formatter.py
index a0abe72..9e3ccc7 100644
--- a/src/pygerber/gerber/formatter/formatter.py
+++ b/src/pygerber/gerber/formatter/formatter.py
@@ -975,22 +975,24 @@ class Formatter(AstVisitor):
         self._handle_g(node, G37)
         return node
 
-    @_decorator_insert_base_indent
     def on_g54(self, node: G54) -> G54:
         """Handle `G54` node."""
-        if self.remove_g54:
-            return node
-        self._handle_g(node, G54)
+        self._handle_removable_g(node, G54, remove=self.remove_g54)
         return node
 
-    @_decorator_insert_base_indent
     def on_g55(self, node: G55) -> G55:
         """Handle `G55` node."""
-        if self.remove_g55:
-            return node
-        self._handle_g(node, G55)
+        self._handle_removable_g(node, G55, remove=self.remove_g55)
         return node
 
+    def _handle_removable_g(self, node: G, cls: Type[G], *, remove: bool) -> None:
+        # Code which shared line with removed one still has to be indented.
+        if not remove or (self.keep_non_standalone_codes and not node.is_standalone):
+            self._insert_base_indent()
+
+        if not remove:
+            self._handle_g(node, cls)
+
     @_decorator_insert_base_indent
     def on_g70(self, node: G70) -> G70:
         """Handle `G70` node."""
-- 
2.43.0


From 01ad92e55da059d56e39c9bba62c03f02d9bbe46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:05 +0000
Subject: [PATCH 41/63] fix: builder lost track of graphics state when
 coordinates of an element were rejected

---
 src/pygerber/builder/gerber.py | 141 ++++++++++++++++++---------------
 1 file changed, 77 insertions(+), 64 deletions(-)

diff --git a/src/pygerber/builder/gerber.py b/src/pygerber/builder/gerber.py
index 8bab33b..d7ee99d 100644
--- a/src/pygerber/builder/gerber.py
+++ b/src/pygerber/builder/gerber.py
@@ -185,6 +185,14 @@ class GerberX3Builder:
         """
         self._check_pad_not_a_pad_creator(pad)
 
+        location = at.end_location if isinstance(at, TraceDraw) else at
+        # Coordinates have to be packed before state is updated, as they can be rejected.
+        draw_ops: list[Node] = [
+            D03(
+                x=CoordinateX(value=self._coordinate_format.pack_x(location[0])),
+                y=CoordinateY(value=self._coordinate_format.pack_y(location[1])),
+            )
+        ]
         state_updates = list(
             self._create_state_updates(
                 selected_aperture=pad.aperture_id,
@@ -195,16 +203,10 @@ class GerberX3Builder:
                 scale=scale,
             )
         )
-        location = at.end_location if isinstance(at, TraceDraw) else at
 
         draw = PadDraw(
             state_updates=state_updates,
-            draw_ops=[
-                D03(
-                    x=CoordinateX(value=self._coordinate_format.pack_x(location[0])),
-                    y=CoordinateY(value=self._coordinate_format.pack_y(location[1])),
-                )
-            ],
+            draw_ops=draw_ops,
             location=location,
         )
         self._add_draw(draw)
@@ -310,6 +312,14 @@ class GerberX3Builder:
         """
         self._check_pad_not_a_pad_creator(pad)
 
+        location = at.end_location if isinstance(at, TraceDraw) else at
+        # Coordinates have to be packed before state is updated, as they can be rejected.
+        draw_ops: list[Node] = [
+            D03(
+                x=CoordinateX(value=self._coordinate_format.pack_x(location[0])),
+                y=CoordinateY(value=self._coordinate_format.pack_y(location[1])),
+            )
+        ]
         state_updates = list(
             self._create_state_updates(
                 selected_aperture=pad.aperture_id,
@@ -320,16 +330,10 @@ class GerberX3Builder:
                 scale=scale,
             )
         )
-        location = at.end_location if isinstance(at, TraceDraw) else at
 
         draw = PadDraw(
             state_updates=state_updates,
-            draw_ops=[
-                D03(
-                    x=CoordinateX(value=self._coordinate_format.pack_x(location[0])),
-                    y=CoordinateY(value=self._coordinate_format.pack_y(location[1])),
-                )
-            ],
+            draw_ops=draw_ops,
             location=location,
         )
         self._add_draw(draw)
@@ -370,18 +374,7 @@ class GerberX3Builder:
         begin_location = self._dispatch_begin_location(begin)
         end_location = self._dispatch_end_location(end)
 
-        state_updates = list(
-            self._create_state_updates(
-                selected_aperture=aperture.aperture_id,
-                polarity=Polarity.Dark,
-                rotation=0.0,
-                mirror_x=False,
-                mirror_y=False,
-                scale=1.0,
-                plot_mode=PlotMode.LINEAR,
-            )
-        )
-
+        # Coordinates have to be packed before state is updated, as they can be rejected.
         draw_ops: list[Node] = []
         if self._current_location != begin_location:
             draw_ops.append(
@@ -398,6 +391,18 @@ class GerberX3Builder:
             )
         )
 
+        state_updates = list(
+            self._create_state_updates(
+                selected_aperture=aperture.aperture_id,
+                polarity=Polarity.Dark,
+                rotation=0.0,
+                mirror_x=False,
+                mirror_y=False,
+                scale=1.0,
+                plot_mode=PlotMode.LINEAR,
+            )
+        )
+
         draw = TraceDraw(
             state_updates=state_updates,
             draw_ops=draw_ops,
@@ -474,18 +479,7 @@ class GerberX3Builder:
         begin_location = self._dispatch_begin_location(begin)
         end_location = self._dispatch_end_location(end)
 
-        state_updates = list(
-            self._create_state_updates(
-                selected_aperture=aperture.aperture_id,
-                polarity=Polarity.Dark,
-                rotation=0.0,
-                mirror_x=False,
-                mirror_y=False,
-                scale=1.0,
-                plot_mode=PlotMode.ARC,
-            )
-        )
-
+        # Coordinates have to be packed before state is updated, as they can be rejected.
         draw_ops: list[Node] = []
         if self._current_location != begin_location:
             draw_ops.append(
@@ -504,6 +498,18 @@ class GerberX3Builder:
             )
         )
 
+        state_updates = list(
+            self._create_state_updates(
+                selected_aperture=aperture.aperture_id,
+                polarity=Polarity.Dark,
+                rotation=0.0,
+                mirror_x=False,
+                mirror_y=False,
+                scale=1.0,
+                plot_mode=PlotMode.ARC,
+            )
+        )
+
         draw = ArcTraceDraw(
             state_updates=state_updates,
             draw_ops=draw_ops,
@@ -553,18 +559,7 @@ class GerberX3Builder:
         begin_location = self._dispatch_begin_location(begin)
         end_location = self._dispatch_end_location(end)
 
-        state_updates = list(
-            self._create_state_updates(
-                selected_aperture=aperture.aperture_id,
-                polarity=Polarity.Dark,
-                rotation=0.0,
-                mirror_x=False,
-                mirror_y=False,
-                scale=1.0,
-                plot_mode=PlotMode.CCW_ARC,
-            )
-        )
-
+        # Coordinates have to be packed before state is updated, as they can be rejected.
         draw_ops: list[Node] = []
         if self._current_location != begin_location:
             draw_ops.append(
@@ -583,6 +578,18 @@ class GerberX3Builder:
             )
         )
 
+        state_updates = list(
+            self._create_state_updates(
+                selected_aperture=aperture.aperture_id,
+                polarity=Polarity.Dark,
+                rotation=0.0,
+                mirror_x=False,
+                mirror_y=False,
+                scale=1.0,
+                plot_mode=PlotMode.CCW_ARC,
+            )
+        )
+
         draw = ArcTraceDraw(
             state_updates=state_updates,
             draw_ops=draw_ops,
@@ -1570,18 +1577,10 @@ class RegionCreator:
             msg = "A region must have at least 3 points"
             raise InvalidRegionOutlineError(msg)
 
-        def _() -> Iterable[Node]:
-            aperture = self._builder._get_trace_aperture(1)  # noqa: SLF001
-            yield from self._builder._create_state_updates(  # noqa: SLF001
-                selected_aperture=aperture.aperture_id,
-                polarity=Polarity.Dark,
-                rotation=0.0,
-                mirror_x=False,
-                mirror_y=False,
-                scale=1.0,
-            )
+        mode: Optional[PlotMode] = None
 
-            mode: Optional[PlotMode] = None
+        def _() -> Iterable[Node]:
+            nonlocal mode
 
             yield G36()
             yield D02(
@@ -1639,15 +1638,29 @@ class RegionCreator:
                 else:
                     raise NotImplementedError
 
-            self._builder._plot_mode = mode  # noqa: SLF001
-
             yield G37()
             yield D02(
                 x=self._builder._pack_x(self._begin[0]),  # noqa: SLF001
                 y=self._builder._pack_y(self._begin[1]),  # noqa: SLF001
             )
 
-        region = Region(nodes=list(_()), attributes=[], location=self._begin)
+        # Coordinates have to be packed before state is updated, as they can be rejected.
+        outline_nodes = list(_())
+        aperture = self._builder._get_trace_aperture(1)  # noqa: SLF001
+        state_updates = self._builder._create_state_updates(  # noqa: SLF001
+            selected_aperture=aperture.aperture_id,
+            polarity=Polarity.Dark,
+            rotation=0.0,
+            mirror_x=False,
+            mirror_y=False,
+            scale=1.0,
+        )
+        region = Region(
+            nodes=[*state_updates, *outline_nodes],
+            attributes=[],
+            location=self._begin,
+        )
+        self._builder._plot_mode = mode  # noqa: SLF001
         self._builder._add_draw(region)  # noqa: SLF001
         return region
 
-- 
2.43.0


From 45874d3b48a0bb07159d7cd580f9cb6683daed8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:02 +0000
Subject: [PATCH 42/63] fix: commands after a block opened mid-line were not
 found by position

---
 src/pygerber/gerber/ast/node_finder.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/ast/node_finder.py b/src/pygerber/gerber/ast/node_finder.py
index 002c0b4..69e95ba 100644
--- a/src/pygerber/gerber/ast/node_finder.py
+++ b/src/pygerber/gerber/ast/node_finder.py
@@ -77,7 +77,12 @@ class NodeFinder(AstVisitor):
         if len(nodes) == 1:
             self.return_node = nodes[0]
             source_info = self.return_node.source_info
-            if source_info is not None and self.location.column < source_info.column:
+            if (
+                source_info is not None
+                and self.location.column < source_info.column
+                # Columns can not be compared in following lines of multiline node.
+                and not source_info.line < self.location.line <= source_info.end_line
+            ):
                 self.return_node = None
                 return None
 
-- 
2.43.0


From 9b50645008246f3715fbd8b10e338bee8f80cf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:02 +0000
Subject: [PATCH 43/63] fix: imperial files were rendered with dots per inch
 instead of per millimetre

---
 src/pygerber/gerber/api/_gerber_file.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pygerber/gerber/api/_gerber_file.py b/src/pygerber/gerber/api/_gerber_file.py
index f21ece3..230562e 100644
--- a/src/pygerber/gerber/api/_gerber_file.py
+++ b/src/pygerber/gerber/api/_gerber_file.py
@@ -610,15 +610,17 @@ class GerberFile:
         style = self._dispatch_style(style)
 
         rvmc = self._get_rvmc()
+        units = self._get_final_state().unit_mode
         result = render(
             rvmc,
             backend="pillow",
-            dpmm=dpmm,
+            # RVMC uses units of the file, not necessarily millimeters.
+            dpmm=dpmm if units == UnitMode.METRIC else dpmm * 25.4,
         )
         assert isinstance(result, PillowResult)
         return PillowImage(
             image_space=ImageSpace(
-                units=self._get_final_state().unit_mode,
+                units=units,
                 box=result.main_box,
                 dpmm=dpmm,
             ),
-- 
2.43.0


From cdf7c06dd064cd3060a3404cb9558e72acd45dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:02 +0000
Subject: [PATCH 44/63] fix: composite view compared origins of files in
 different units

---
 src/pygerber/gerber/api/_composite_view.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pygerber/gerber/api/_composite_view.py b/src/pygerber/gerber/api/_composite_view.py
index 29eee02..0b79399 100644
--- a/src/pygerber/gerber/api/_composite_view.py
+++ b/src/pygerber/gerber/api/_composite_view.py
@@ -67,10 +67,10 @@ class CompositeView:
             file.render_with_pillow(dpmm=dpmm) for file in self.files
         ]
 
-        max_x_image = max(sub_images, key=lambda x: x.get_image_space().max_x)
-        max_y_image = max(sub_images, key=lambda x: x.get_image_space().max_y)
-        min_x_image = min(sub_images, key=lambda x: x.get_image_space().min_x)
-        min_y_image = min(sub_images, key=lambda x: x.get_image_space().min_y)
+        max_x_image = max(sub_images, key=lambda x: x.get_image_space().max_x_mm)
+        max_y_image = max(sub_images, key=lambda x: x.get_image_space().max_y_mm)
+        min_x_image = min(sub_images, key=lambda x: x.get_image_space().min_x_mm)
+        min_y_image = min(sub_images, key=lambda x: x.get_image_space().min_y_mm)
 
         width_pixels = (
             max_x_image.get_image_space().max_x_pixels
-- 
2.43.0


From 2e341c3f4e6759caab99944009f93cafac70f54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:03 +0000
Subject: [PATCH 45/63] fix: MD5 check ignored last character before the
 attribute

---
 src/pygerber/gerber/ast/nodes/attribute/TF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/ast/nodes/attribute/TF.py b/src/pygerber/gerber/ast/nodes/attribute/TF.py
index e16002f..eece283 100644
--- a/src/pygerber/gerber/ast/nodes/attribute/TF.py
+++ b/src/pygerber/gerber/ast/nodes/attribute/TF.py
@@ -225,7 +225,7 @@ class TF_MD5(TF):  # noqa: N801
             raise SourceNotAvailableError(self)
 
         source = (
-            self.source_info.source[: self.source_info.location - 1]
+            self.source_info.source[: self.source_info.location]
             .replace("\n", "")
             .replace("\r", "")
             .encode("utf-8")
-- 
2.43.0


From b7ae709ccbe57d5be4fa8134506b1868747458a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:03 +0000
Subject: [PATCH 46/63] fix: decimals with no digits after the point were
 rejected

---
 src/pygerber/gerber/parser/pyparsing/grammar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/parser/pyparsing/grammar.py b/src/pygerber/gerber/parser/pyparsing/grammar.py
index a67d268..20c4046 100644
--- a/src/pygerber/gerber/parser/pyparsing/grammar.py
+++ b/src/pygerber/gerber/parser/pyparsing/grammar.py
@@ -303,7 +303,7 @@ class Grammar:
     @pp.cached_property
     def double(self) -> pp.ParserElement:
         """Create a parser element capable of parsing doubles."""
-        return pp.Regex(r"[+-]?(([0-9]+(\.[0-9]+)?)|(\.[0-9]+))").set_results_name(
+        return pp.Regex(r"[+-]?(([0-9]+(\.[0-9]*)?)|(\.[0-9]+))").set_results_name(
             "double"
         )
 
-- 
2.43.0


From 6a9719f6409554d0e9fd7ac5006be9130f986cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:03 +0000
Subject: [PATCH 47/63] fix: source length of a command ignored whitespace
 between its tokens

---
 src/pygerber/gerber/parser/pyparsing/grammar.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/pygerber/gerber/parser/pyparsing/grammar.py b/src/pygerber/gerber/parser/pyparsing/grammar.py
index 20c4046..aa00ea4 100644
--- a/src/pygerber/gerber/parser/pyparsing/grammar.py
+++ b/src/pygerber/gerber/parser/pyparsing/grammar.py
@@ -330,10 +330,18 @@ class Grammar:
         """Create a callback for unpacking the results of the parser."""
 
         def _(s: str, loc: int, tokens: pp.ParseResults) -> Node:
+            end = loc
+            for token in tokens.as_list():
+                if isinstance(token, Node) and token.source_info is not None:
+                    end = token.source_info.end_location
+                    continue
+                # Whitespace between tokens is skipped, but is part of command source.
+                while not s.startswith(token, end) and s[end].isspace():
+                    end += 1
+                end += len(token)
+
             return self.get_cls(node_type)(
-                source_info=SourceInfo(
-                    source=s, location=loc, length=sum(len(t) for t in tokens.as_list())
-                ),
+                source_info=SourceInfo(source=s, location=loc, length=end - loc),
                 **tokens.as_dict(),
                 **kwargs,
             )
-- 
2.43.0


From d459dabb72d199a66b48460a3ed38646e2a6fd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:03 +0000
Subject: [PATCH 48/63] fix: .FlashText without trailing optional fields was
 rejected

---
 .../gerber/parser/pyparsing/grammar.py         | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/pygerber/gerber/parser/pyparsing/grammar.py b/src/pygerber/gerber/parser/pyparsing/grammar.py
index aa00ea4..540b5c9 100644
--- a/src/pygerber/gerber/parser/pyparsing/grammar.py
+++ b/src/pygerber/gerber/parser/pyparsing/grammar.py
@@ -686,14 +686,18 @@ class Grammar:
                 + pp.one_of(list("BC")).set_results_name("mode")
                 + self.comma
                 + pp.Opt(pp.one_of(list("RM")).set_results_name("mirroring"))
-                + self.comma
-                + pp.Opt(self.field).set_results_name("font")
-                + self.comma
-                + pp.Opt(self.field).set_results_name("size")
-                + pp.ZeroOrMore(
+                + pp.Opt(
                     self.comma
-                    + pp.Opt(self.field).set_results_name(
-                        "comments", list_all_matches=True
+                    + pp.Opt(self.field).set_results_name("font")
+                    + pp.Opt(
+                        self.comma
+                        + pp.Opt(self.field).set_results_name("size")
+                        + pp.ZeroOrMore(
+                            self.comma
+                            + pp.Opt(self.field).set_results_name(
+                                "comments", list_all_matches=True
+                            )
+                        )
                     )
                 )
             )
-- 
2.43.0


From 009275b69985b702eef156efc64a004b8f2f708d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:05 +0000
Subject: [PATCH 49/63] fix: choose the file type of the command line by its
 name

---
 src/pygerber/console/gerber.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/pygerber/console/gerber.py b/src/pygerber/console/gerber.py
index c8e88ee..825e560 100644
--- a/src/pygerber/console/gerber.py
+++ b/src/pygerber/console/gerber.py
@@ -144,7 +144,7 @@ def png(
 ) -> None:
     """Convert Gerber image file to PNG image."""
     style_obj = _sanitize_style(style, foreground, background)
-    file = GerberFile.from_file(source, file_type=FileTypeEnum(file_type.upper()))
+    file = GerberFile.from_file(source, file_type=FileTypeEnum[file_type.upper()])
 
     if implementation.lower() == "pillow":
         result = file.render_with_pillow(style_obj, dpmm)
@@ -231,7 +231,7 @@ def jpeg(  # noqa: PLR0913
 ) -> None:
     """Convert Gerber image file to JPEG image."""
     style_obj = _sanitize_style(style, foreground, background)
-    file = GerberFile.from_file(source, file_type=FileTypeEnum(file_type.upper()))
+    file = GerberFile.from_file(source, file_type=FileTypeEnum[file_type.upper()])
 
     if implementation.lower() == "pillow":
         result = file.render_with_pillow(style_obj, dpmm)
@@ -299,7 +299,7 @@ def tiff(  # noqa: PLR0913
 ) -> None:
     """Convert Gerber image file to TIFF image."""
     style_obj = _sanitize_style(style, foreground, background)
-    file = GerberFile.from_file(source, file_type=FileTypeEnum(file_type.upper()))
+    file = GerberFile.from_file(source, file_type=FileTypeEnum[file_type.upper()])
 
     if implementation.lower() == "pillow":
         result = file.render_with_pillow(style_obj, dpmm)
@@ -336,7 +336,7 @@ def bmp(
 ) -> None:
     """Convert Gerber image file to BMP image."""
     style_obj = _sanitize_style(style, foreground, background)
-    file = GerberFile.from_file(source, file_type=FileTypeEnum(file_type.upper()))
+    file = GerberFile.from_file(source, file_type=FileTypeEnum[file_type.upper()])
 
     if implementation.lower() == "pillow":
         result = file.render_with_pillow(style_obj, dpmm)
@@ -387,7 +387,7 @@ def webp(  # noqa: PLR0913
 ) -> None:
     """Convert Gerber image file to WEBP image."""
     style_obj = _sanitize_style(style, foreground, background)
-    file = GerberFile.from_file(source, file_type=FileTypeEnum(file_type.upper()))
+    file = GerberFile.from_file(source, file_type=FileTypeEnum[file_type.upper()])
 
     if implementation.lower() == "pillow":
         result = file.render_with_pillow(style_obj, dpmm)
@@ -419,7 +419,7 @@ if is_shapely_available():
     ) -> None:
         """Convert Gerber image file to SVG image."""
         style_obj = _sanitize_style(style, foreground, background)
-        file = GerberFile.from_file(source, file_type=FileTypeEnum(file_type.upper()))
+        file = GerberFile.from_file(source, file_type=FileTypeEnum[file_type.upper()])
 
         if implementation.lower() == "shapely":
             result = file.render_with_shapely(style_obj)
@@ -529,7 +529,7 @@ def merge_convert_png(
     SOURCES - paths to files which are supposed to be rendered and merged.
     """
     view = CompositeView(
-        GerberFile.from_file(source, file_type=FileTypeEnum(file_type.upper()))
+        GerberFile.from_file(source, file_type=FileTypeEnum[file_type.upper()])
         for source in sources
     )
 
@@ -563,7 +563,7 @@ def merge_convert_jpeg(
     SOURCES - paths to files which are supposed to be rendered and merged.
     """
     view = CompositeView(
-        GerberFile.from_file(source, file_type=FileTypeEnum(file_type.upper()))
+        GerberFile.from_file(source, file_type=FileTypeEnum[file_type.upper()])
         for source in sources
     )
 
-- 
2.43.0


From 348a9cb940083291192cbfdda7dd08f02c03faed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:06 +0000
Subject: [PATCH 50/63] fix: name the foreground option when its color is
 invalid

---
 src/pygerber/console/gerber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygerber/console/gerber.py b/src/pygerber/console/gerber.py
index 825e560..c7b063d 100644
--- a/src/pygerber/console/gerber.py
+++ b/src/pygerber/console/gerber.py
@@ -184,7 +184,7 @@ def _sanitize_style(
                 foreground_color = Color.from_hex(foreground)
             except InvalidHexColorLiteralError as e:
                 msg = f"Invalid hex color literal: {e!r}"
-                raise click.BadOptionUsage("background", msg) from e
+                raise click.BadOptionUsage("foreground", msg) from e
 
             style_obj = Style(
                 background=background_color,
-- 
2.43.0


From 3759287a05a705690d14b2e7aec497d8072c4cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:06 +0000
Subject: [PATCH 51/63] fix: suggest an aperture code when no aperture is
 defined

---
 src/pygerber/gerber/ast/state_tracking_visitor.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pygerber/gerber/ast/state_tracking_visitor.py b/src/pygerber/gerber/ast/state_tracking_visitor.py
index 9d1123b..33607cd 100644
--- a/src/pygerber/gerber/ast/state_tracking_visitor.py
+++ b/src/pygerber/gerber/ast/state_tracking_visitor.py
@@ -362,8 +362,11 @@ class ApertureStorage(_StateModel):
         """Get next free aperture code."""
         return (
             max(
-                int(aperture_id.lstrip("D"))
-                for aperture_id in chain(self.apertures.keys(), self.blocks.keys())
+                (
+                    int(aperture_id.lstrip("D"))
+                    for aperture_id in chain(self.apertures.keys(), self.blocks.keys())
+                ),
+                default=9,
             )
             + 1
         )
-- 
2.43.0


From a18d59e92616becf8ccb29074b7e32957b8cb5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:06 +0000
Subject: [PATCH 52/63] fix: track state inside of blocks for hover

---
 .../language_server/_server/hover/gerber.py   | 34 ++++++++++++-------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/pygerber/gerber/language_server/_server/hover/gerber.py b/src/pygerber/gerber/language_server/_server/hover/gerber.py
index 17c2ca9..af2d476 100644
--- a/src/pygerber/gerber/language_server/_server/hover/gerber.py
+++ b/src/pygerber/gerber/language_server/_server/hover/gerber.py
@@ -4,11 +4,12 @@ import base64
 import io
 from contextlib import contextmanager, suppress
 from io import StringIO
-from typing import TYPE_CHECKING, Generator, Optional, cast
+from typing import TYPE_CHECKING, Generator, Iterable, Optional, cast
 
 from pygerber.gerber import formatter
 from pygerber.gerber.ast.ast_visitor import AstVisitor
 from pygerber.gerber.ast.nodes import (
+    AB,
     AD,
     ADC,
     ADO,
@@ -27,6 +28,7 @@ from pygerber.gerber.ast.nodes import (
     LS,
     M02,
     MO,
+    SR,
     TA,
     TD,
     TF,
@@ -92,23 +94,29 @@ class LimitedStateTrackingVisitor(StateTrackingVisitor):
         """Handle `File` node."""
         with suppress(ProgramStop):
             try:
-                for command in node.nodes:
-                    source_info = command.source_info
-                    assert source_info is not None
-
-                    if source_info.end_location > self.max_location:
-                        raise ProgramStop(M02())
-
-                    try:
-                        command.visit(self)
-                    except Exception as e:
-                        if self.on_exception(command, e):
-                            raise
+                self._visit_commands(node.nodes)
             finally:
                 self.on_end_of_file(node)
 
         return node
 
+    def _visit_commands(self, commands: Iterable[Node]) -> None:
+        for command in commands:
+            source_info = command.source_info
+            assert source_info is not None
+
+            if source_info.end_location > self.max_location:
+                if isinstance(command, (AB, SR)):
+                    self._visit_commands([command.open, *command.nodes])
+
+                raise ProgramStop(M02())
+
+            try:
+                command.visit(self)
+            except Exception as e:
+                if self.on_exception(command, e):
+                    raise
+
 
 class ToMarkdown(AstVisitor):
     """Convert Gerber Node to markdown."""
-- 
2.43.0


From 7004f11c3f8b1e9732b250fa22b4b07df836a7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:06 +0000
Subject: [PATCH 53/63] fix: preview counterclockwise arcs and block apertures
 in hover

---
 .../gerber/language_server/_server/hover/gerber.py       | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pygerber/gerber/language_server/_server/hover/gerber.py b/src/pygerber/gerber/language_server/_server/hover/gerber.py
index af2d476..03a646c 100644
--- a/src/pygerber/gerber/language_server/_server/hover/gerber.py
+++ b/src/pygerber/gerber/language_server/_server/hover/gerber.py
@@ -21,6 +21,7 @@ from pygerber.gerber.ast.nodes import (
     FS,
     G01,
     G02,
+    G03,
     G74,
     G75,
     LM,
@@ -436,6 +437,9 @@ class GerberHoverCreator(AstVisitor):
         )
 
         nodes.append(MO(mode=self.state.unit_mode))
+        nodes.extend(self.state.apertures.macros.values())
+        nodes.extend(self.state.apertures.apertures.values())
+        nodes.extend(self.state.apertures.blocks.values())
         nodes.append(
             D02(
                 x=CoordinateX(
@@ -446,15 +450,12 @@ class GerberHoverCreator(AstVisitor):
                 ),
             )
         )
-        nodes.extend(self.state.apertures.macros.values())
-        nodes.extend(self.state.apertures.apertures.values())
-        nodes.extend(self.state.apertures.macros.values())
 
         nodes.append(
             {
                 PlotMode.LINEAR: G01(),
                 PlotMode.ARC: G02(),
-                PlotMode.CCW_ARC: G02(),
+                PlotMode.CCW_ARC: G03(),
             }[self.state.plot_mode]
         )
         nodes.append(
-- 
2.43.0


From c8ac285a25e6cd8abb4ae7e038fef0ad43ddbdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:06 +0000
Subject: [PATCH 54/63] fix: show the arc center instead of its offset in hover

---
 .../gerber/language_server/_server/hover/gerber.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/language_server/_server/hover/gerber.py b/src/pygerber/gerber/language_server/_server/hover/gerber.py
index 03a646c..8ff766a 100644
--- a/src/pygerber/gerber/language_server/_server/hover/gerber.py
+++ b/src/pygerber/gerber/language_server/_server/hover/gerber.py
@@ -340,6 +340,18 @@ class GerberHoverCreator(AstVisitor):
             f"{message} &nbsp;&nbsp;&nbsp; _x =_ `{x_value}` _y =_ `{y_value}`"
         )
 
+    def _append_arc_center(
+        self, i: Optional[Coordinate], j: Optional[Coordinate]
+    ) -> None:
+        fmt = self.state.coordinate_format
+        if fmt is None:
+            return
+
+        # Offsets are relative to the start point of the arc.
+        center_x = self.state.current_x + (fmt.unpack_x(i.value) if i else 0.0)
+        center_y = self.state.current_y + (fmt.unpack_y(j.value) if j else 0.0)
+        self._append_xy("Arc center at:", None, None, center_x, center_y)
+
     def _current_aperture(self) -> None:
         self._print(f"`Aperture: {self.state.current_aperture_id}`")
 
@@ -504,7 +516,7 @@ class GerberHoverCreator(AstVisitor):
         )
 
         if self.state.plot_mode != PlotMode.LINEAR:
-            self._append_xy("Arc center at:", node.i, node.j)
+            self._append_arc_center(node.i, node.j)
 
         self._sep()
         self._current_aperture()
-- 
2.43.0


From c0ed83e6886c4a4f6109841d984c992fc5cc821e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:06 +0000
Subject: [PATCH 55/63] fix: do not preview region contours in hover

---
 .../gerber/language_server/_server/hover/gerber.py   | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pygerber/gerber/language_server/_server/hover/gerber.py b/src/pygerber/gerber/language_server/_server/hover/gerber.py
index 8ff766a..2b8a777 100644
--- a/src/pygerber/gerber/language_server/_server/hover/gerber.py
+++ b/src/pygerber/gerber/language_server/_server/hover/gerber.py
@@ -530,11 +530,13 @@ class GerberHoverCreator(AstVisitor):
 
         self._object_attributes()
 
-        self._sep()
-        self._print_line("### Visualization")
-        self._single_break()
-        self._visualize_draw_op([node])
-        self._single_break()
+        # Region contours are not drawn with aperture.
+        if not self.state.is_region:
+            self._sep()
+            self._print_line("### Visualization")
+            self._single_break()
+            self._visualize_draw_op([node])
+            self._single_break()
 
         self._spec_ref(spec.d01())
 
-- 
2.43.0


From 201e417c5fe0f1ac8f8b3b87a1e7f8ae329adf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:06 +0000
Subject: [PATCH 56/63] fix: save SVG to any binary stream

---
 src/pygerber/vm/shapely/vm.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pygerber/vm/shapely/vm.py b/src/pygerber/vm/shapely/vm.py
index f9cd805..e0628f0 100644
--- a/src/pygerber/vm/shapely/vm.py
+++ b/src/pygerber/vm/shapely/vm.py
@@ -9,7 +9,6 @@ import importlib.util
 import math
 import operator
 from contextlib import suppress
-from io import BytesIO
 from pathlib import Path
 from typing import Any, BinaryIO, Callable, Generator, Optional, Sequence
 
@@ -129,7 +128,7 @@ class ShapelyResult(Result):
             with Path(destination).open("wb") as file:
                 self._dump_svg(file, color, encoding=encoding)
 
-        elif isinstance(destination, (BinaryIO, BytesIO)):
+        elif hasattr(destination, "write"):
             self._dump_svg(destination, color, encoding=encoding)
 
         else:
-- 
2.43.0


From c1a6df6e344617afe0fb0f783d891bf39072e326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:11 +0000
Subject: [PATCH 57/63] fix: attach aperture attributes to regions

---
 src/pygerber/gerber/compiler/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/compiler/compiler.py b/src/pygerber/gerber/compiler/compiler.py
index da54071..f272725 100644
--- a/src/pygerber/gerber/compiler/compiler.py
+++ b/src/pygerber/gerber/compiler/compiler.py
@@ -609,7 +609,7 @@ class Compiler(StateTrackingVisitor):
     def _get_region_metadata(self) -> Optional[dict[str, str]]:
         if self._include_metadata:
             metadata = _convert_attributes_to_metadata(
-                self.state.attributes.object_attributes
+                self.state.attributes.aperture_attributes
             )
             metadata.update(
                 _convert_attributes_to_metadata(self.state.attributes.object_attributes)
-- 
2.43.0


From e836c9b03fe668deb446fcf3aac89dfdb04107f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:59 +0000
Subject: [PATCH 58/63] fix: interpret coordinates in incremental notation
 relative to the current point

---
 src/pygerber/gerber/ast/state_tracking_visitor.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pygerber/gerber/ast/state_tracking_visitor.py b/src/pygerber/gerber/ast/state_tracking_visitor.py
index 33607cd..0e3d08b 100644
--- a/src/pygerber/gerber/ast/state_tracking_visitor.py
+++ b/src/pygerber/gerber/ast/state_tracking_visitor.py
@@ -851,7 +851,11 @@ class StateTrackingVisitor(AstVisitor):
         if self.state.coordinate_format is None:
             raise CoordinateFormatNotSetError(node)
 
-        self.state.coordinate_x = self.state.coordinate_format.unpack_x(node.value)
+        coordinate = self.state.coordinate_format.unpack_x(node.value)
+        if self.state.coordinate_format.coordinate_mode == CoordinateNotation.INCREMENTAL:
+            coordinate += self.state.current_x
+
+        self.state.coordinate_x = coordinate
         return node
 
     def on_coordinate_y(self, node: CoordinateY) -> CoordinateY:
@@ -860,7 +864,11 @@ class StateTrackingVisitor(AstVisitor):
         if self.state.coordinate_format is None:
             raise CoordinateFormatNotSetError(node)
 
-        self.state.coordinate_y = self.state.coordinate_format.unpack_y(node.value)
+        coordinate = self.state.coordinate_format.unpack_y(node.value)
+        if self.state.coordinate_format.coordinate_mode == CoordinateNotation.INCREMENTAL:
+            coordinate += self.state.current_y
+
+        self.state.coordinate_y = coordinate
         return node
 
     def on_coordinate_i(self, node: CoordinateI) -> CoordinateI:
-- 
2.43.0


From 9972b45dd93d2e921d7deb2eec06a39ef2b2a7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:32 +0000
Subject: [PATCH 59/63] fix: find commands inside of a block which is the only
 node of a file

---
 src/pygerber/gerber/ast/node_finder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pygerber/gerber/ast/node_finder.py b/src/pygerber/gerber/ast/node_finder.py
index 69e95ba..40172f3 100644
--- a/src/pygerber/gerber/ast/node_finder.py
+++ b/src/pygerber/gerber/ast/node_finder.py
@@ -52,6 +52,8 @@ class NodeFinder(AstVisitor):
 
         if len(node.nodes) == 1:
             self.return_node = node.nodes[0]
+            # The only node can be a block containing other nodes.
+            self.return_node.visit(self)
             return node
 
         self.return_node = self._bin_search(node.nodes)
-- 
2.43.0


From 71d99dfb93a160d4fce4623e0e25c870101317cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:18 +0000
Subject: [PATCH 60/63] fix: do not define an aperture for a rejected trace

---
 src/pygerber/builder/gerber.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/pygerber/builder/gerber.py b/src/pygerber/builder/gerber.py
index d7ee99d..514c473 100644
--- a/src/pygerber/builder/gerber.py
+++ b/src/pygerber/builder/gerber.py
@@ -369,8 +369,6 @@ class GerberX3Builder:
             point for another trace or a center of a pad.
 
         """
-        aperture = self._get_trace_aperture(width)
-
         begin_location = self._dispatch_begin_location(begin)
         end_location = self._dispatch_end_location(end)
 
@@ -391,6 +389,7 @@ class GerberX3Builder:
             )
         )
 
+        aperture = self._get_trace_aperture(width)
         state_updates = list(
             self._create_state_updates(
                 selected_aperture=aperture.aperture_id,
@@ -474,8 +473,6 @@ class GerberX3Builder:
             point for another trace or a center of a pad.
 
         """
-        aperture = self._get_trace_aperture(width)
-
         begin_location = self._dispatch_begin_location(begin)
         end_location = self._dispatch_end_location(end)
 
@@ -498,6 +495,7 @@ class GerberX3Builder:
             )
         )
 
+        aperture = self._get_trace_aperture(width)
         state_updates = list(
             self._create_state_updates(
                 selected_aperture=aperture.aperture_id,
@@ -554,8 +552,6 @@ class GerberX3Builder:
             point for another trace or a center of a pad.
 
         """
-        aperture = self._get_trace_aperture(width)
-
         begin_location = self._dispatch_begin_location(begin)
         end_location = self._dispatch_end_location(end)
 
@@ -578,6 +574,7 @@ class GerberX3Builder:
             )
         )
 
+        aperture = self._get_trace_aperture(width)
         state_updates = list(
             self._create_state_updates(
                 selected_aperture=aperture.aperture_id,
-- 
2.43.0


From 299d039533cf848b3aa06b01eb216a3fc4c19583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:18 +0000
Subject: [PATCH 61/63] fix: leading zeros of aperture numbers are not
 significant

---
 src/pygerber/gerber/ast/nodes/types.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pygerber/gerber/ast/nodes/types.py b/src/pygerber/gerber/ast/nodes/types.py
index 71a9acf..554909c 100644
--- a/src/pygerber/gerber/ast/nodes/types.py
+++ b/src/pygerber/gerber/ast/nodes/types.py
@@ -23,7 +23,13 @@ class ApertureIdStr(str):
     def __get_pydantic_core_schema__(
         cls, source_type: Any, handler: GetCoreSchemaHandler
     ) -> CoreSchema:
-        return core_schema.no_info_after_validator_function(cls, handler(str))
+        return core_schema.no_info_after_validator_function(cls.create, handler(str))
+
+    @classmethod
+    def create(cls, value: str) -> ApertureIdStr:
+        """Create aperture ID, leading zeros of the number are not significant."""
+        number = value[1:].lstrip("0")
+        return cls(value[:1] + number) if number else cls(value)
 
 
 class PackedCoordinateStr(str):
-- 
2.43.0


From c23029a55ac955e2354c4c7016ca602ce61765c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:27 +0000
Subject: [PATCH 62/63] fix: report invalid formatter configuration naming the
 option

---
 src/pygerber/console/gerber.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pygerber/console/gerber.py b/src/pygerber/console/gerber.py
index c7b063d..5b7a8d8 100644
--- a/src/pygerber/console/gerber.py
+++ b/src/pygerber/console/gerber.py
@@ -445,7 +445,7 @@ if is_shapely_available():
 @click.option(
     "-c",
     "--config",
-    type=click.Path(file_okay=True, dir_okay=False),
+    type=click.Path(file_okay=True, dir_okay=False, exists=True),
     default=None,
     help="Path to configuration file. Please have a look into documentation in command "
     "line section to see available formatter options.",
@@ -490,7 +490,12 @@ def format_cmd(
 
     if inline_config is not None:
         if config_type == "json":
-            options = formatter.Options(**json.loads(inline_config))
+            try:
+                options = formatter.Options(**json.loads(inline_config))
+            except (TypeError, ValueError) as e:
+                option_name = "inline-config" if config is None else "config"
+                msg = f"Invalid formatter configuration: {e}"
+                raise click.BadOptionUsage(option_name, msg) from e
         else:
             raise NotImplementedError
 
-- 
2.43.0


From bcfb73c0bf8929f7bba889cb494e9c5f5f961eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:27 +0000
Subject: [PATCH 63/63] fix: report unknown lint rules naming the option

---
 src/pygerber/console/gerber.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pygerber/console/gerber.py b/src/pygerber/console/gerber.py
index 5b7a8d8..0da05e4 100644
--- a/src/pygerber/console/gerber.py
+++ b/src/pygerber/console/gerber.py
@@ -597,6 +597,7 @@ def merge_convert_jpeg(
 def lint(files: str, rules: list[str]) -> None:
     """Lint Gerber files with specified rules."""
     from pygerber.gerber.linter import lint  # noqa: PLC0415
+    from pygerber.gerber.linter.rules import RULE_REGISTRY  # noqa: PLC0415
     from pygerber.gerber.parser import parse  # noqa: PLC0415
 
     if len(files) == 0:
@@ -609,6 +610,11 @@ def lint(files: str, rules: list[str]) -> None:
 
     rules = list(_parse_rules(rules))
 
+    for rule in rules:
+        if rule not in RULE_REGISTRY:
+            msg = f"Linting rule {rule!r} is not recognized."
+            raise click.BadOptionUsage("rules", msg)
+
     for file in files:
         path = Path(file).expanduser().resolve()
 
-- 
2.43.0

