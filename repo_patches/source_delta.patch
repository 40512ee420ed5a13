From 36c917b2c3769f388d04f1eba7040ec9c1d1dcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:40 +0000
Subject: [PATCH 01/53] fix: pass the source wire to the circle offset
 workaround

The validation loop reused the name of the source wire, so the workaround
compared an offset wire with itself and never undid OCCT's doubled location:
circles were profiled at twice their depth (and xy offset).
---
 src/cq_cam/utils/geometry_op.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index a7bf5ea..73abe5c 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -83,13 +83,13 @@ def offset_wire(
             return []
 
     validated_wires = []
-    for wire in offset_wires:
+    for offset_wire_ in offset_wires:
         try:
-            face = cq.Face.makeFromWires(wire)
+            face = cq.Face.makeFromWires(offset_wire_)
             # Todo arbitrary..
             # How should one detect whether offset is possible??
             if face.Area() > 0.1:
-                validated_wires.append(wire)
+                validated_wires.append(offset_wire_)
         except StdFail_NotDone:
             logger.warning("Failed to offset wire")
         except:
-- 
2.43.0


From bac1987de1f8af197814f5c72cb13765417662ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:40 +0000
Subject: [PATCH 02/53] fix: recognise closed circle edges when routing arcs

The topological Closed() flag is not set on offset circles, so a full circle
was routed as a zero length straight cut.
---
 src/cq_cam/routers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cq_cam/routers.py b/src/cq_cam/routers.py
index 252e012..9fe0df4 100644
--- a/src/cq_cam/routers.py
+++ b/src/cq_cam/routers.py
@@ -162,7 +162,7 @@ def route_edge(
         # Actual circles are closed
         # CIRCLE geom type does not guarantee that the edge is a full circle!
         # TODO ARC's are not necessarily circular, so the gcode representation can be wrong!
-        if edge.Closed():
+        if edge.IsClosed():
             mid1_p, end1_p, mid2_p = np.linspace(start_p, end_p, 5)[1:-1]
             mid1 = AddressVector.from_vector(edge.positionAt(mid1_p, "parameter"))
             end1 = AddressVector.from_vector(edge.positionAt(end1_p, "parameter"))
-- 
2.43.0


From 6ab1a298cb53055bbbd9e85ae07c32bd4b27e737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:44 +0000
Subject: [PATCH 03/53] fix: do not flatten curves when simplifying offset
 paths

CleanPolygons' error accumulates over densely interpolated curves: arcs
of a pocket outline collapsed to their chords.
---
 src/cq_cam/utils/geometry_op.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index 73abe5c..b5b7e97 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -99,6 +99,18 @@ def offset_wire(
     return validated_wires
 
 
+def simplify_path(path: ClosedPath, tolerance: float) -> ClosedPath:
+    """
+    Drop the points that are not needed to stay within tolerance of the path.
+
+    Clipper's CleanPolygon judges each point only by its immediate (remaining)
+    neighbors, so the error accumulates and densely interpolated curves get
+    flattened to straight lines.
+    """
+    simplified = shapely.LineString(path).simplify(tolerance)
+    return [list(point) for point in simplified.coords]
+
+
 def offset_path(path: ClosedPath, offset: float, precision: int) -> list[Path]:
     # noinspection PyArgumentList
     scaled_path = pc.scale_to_clipper(path)
@@ -117,19 +129,18 @@ def offset_path(path: ClosedPath, offset: float, precision: int) -> list[Path]:
     """
 
     # To get a little more leeway, we divide the precision by two
+    tolerance = 10**-precision / 2
     # noinspection PyArgumentList
-    scaled_precision = pc.scale_to_clipper(10**-precision / 2)
+    scaled_tolerance = pc.scale_to_clipper(tolerance)
 
     # Use a scaled miter limit of 2. This is the default
     # noinspection PyArgumentList
-    pco = pc.PyclipperOffset(pc.scale_to_clipper(2.0), scaled_precision)
+    pco = pc.PyclipperOffset(pc.scale_to_clipper(2.0), scaled_tolerance)
     pco.AddPath(scaled_path, pc.JT_ROUND, pc.ET_CLOSEDPOLYGON)
 
     offset_paths = [
-        close_path(pc.scale_from_clipper(offsetted_path))
-        for offsetted_path in pc.CleanPolygons(
-            pco.Execute(scaled_offset), scaled_precision
-        )
+        simplify_path(close_path(pc.scale_from_clipper(offsetted_path)), tolerance)
+        for offsetted_path in pco.Execute(scaled_offset)
         if offsetted_path
     ]
     return offset_paths
-- 
2.43.0


From 4bb0002e670178364ad52558a06845b217bbe5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:23 +0000
Subject: [PATCH 04/53] fix: do not cut across the pocket when the next contour
 is far

The squared distance was compared with the stepover, and a contour that
was entered at its start was still closed at the closest point.
---
 src/cq_cam/routers.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cq_cam/routers.py b/src/cq_cam/routers.py
index 9fe0df4..929b017 100644
--- a/src/cq_cam/routers.py
+++ b/src/cq_cam/routers.py
@@ -1,4 +1,4 @@
-from math import isclose
+from math import isclose, sqrt
 from typing import TYPE_CHECKING, Union
 
 import cadquery as cq
@@ -349,7 +349,8 @@ def route_polyface_outers(
             distance, closest_point, poly_position = None, None, None
 
         # Same comment applies here as in the same section in route_wires
-        if stepover and distance and distance <= stepover:
+        # (except that the distance is squared)
+        if stepover and distance and sqrt(distance) <= stepover + 10**-job.precision:
             # Determine the index of the edge, shift edges and use param?
             # edges = shift_edges(edges, target)
             index = poly_position[0]
@@ -368,6 +369,8 @@ def route_polyface_outers(
                 job.op_safe_height,
                 job.plunge_feed,
             )
+            # The wire is entered at its start, not at the closest point
+            closest_point = None
 
         previous_pos = commands[-1].end
         for x, y in poly[1:]:
-- 
2.43.0


From 24cb799eb381d8b9036209c8ffb1e84287437b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:16 +0000
Subject: [PATCH 05/53] fix: do not machine the overlap of two islands

The even-odd fill rule treated the area where the offset islands or avoid
areas overlap as a part of the pocket (and dropped the overlap of areas).
---
 src/cq_cam/operations/pocket.py | 4 +++-
 src/cq_cam/utils/geometry_op.py | 7 +++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/cq_cam/operations/pocket.py b/src/cq_cam/operations/pocket.py
index 5cdcdb9..1c263cd 100644
--- a/src/cq_cam/operations/pocket.py
+++ b/src/cq_cam/operations/pocket.py
@@ -172,7 +172,9 @@ def build_pocket_ops(
             avoid_faces = []
             for avoid_depth in active_avoid_depths:
                 avoid_faces += avoid_depth_map[avoid_depth]
-            avoid_outers = [face.outer for face in avoid_faces]
+            # Same orientation as with the inners (holes), otherwise the winding
+            # would cancel out where they overlap
+            avoid_outers = [face.outer[::-1] for face in avoid_faces]
 
             # A limitation here is that avoids only work with the outer polygon
             # Technically pyclipper does support multiple depths, so this could
diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index b5b7e97..8cbb802 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -240,7 +240,10 @@ def boolean_op_path_list(
     subjects: list[Path], clips: list[Path], clip_type: int
 ) -> list[Path]:
     clipper = prepare_path_boolean_op(subjects, clips)
-    results = [pc.scale_from_clipper(result) for result in clipper.Execute(clip_type)]
+    results = [
+        pc.scale_from_clipper(result)
+        for result in clipper.Execute(clip_type, pc.PFT_NONZERO, pc.PFT_NONZERO)
+    ]
     return results
 
 
@@ -248,7 +251,7 @@ def boolean_op_poly_tree(
     subjects: list[Path], clips: list[Path], clip_type: int
 ) -> pc.PyPolyNode:
     clipper = prepare_path_boolean_op(subjects, clips)
-    results = clipper.Execute2(clip_type)
+    results = clipper.Execute2(clip_type, pc.PFT_NONZERO, pc.PFT_NONZERO)
     return results
 
 
-- 
2.43.0


From 953dc1074c1aae1d095d17a454ba0160ca080789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:25 +0000
Subject: [PATCH 06/53] fix: follow the walls of pocket islands

Up to a stepover of material was left around an island.
---
 src/cq_cam/operations/pocket.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/operations/pocket.py b/src/cq_cam/operations/pocket.py
index 1c263cd..892284e 100644
--- a/src/cq_cam/operations/pocket.py
+++ b/src/cq_cam/operations/pocket.py
@@ -223,7 +223,11 @@ def fill_pocket_contour_shrink(
     except StopIteration:
         pass
 
-    return tree.sequences
+    # The shrinking contours follow the islands only partially
+    island_sequences = [
+        [PathFace(inner, [], pocket.depth)] for inner in pocket.inners
+    ]
+    return tree.sequences + island_sequences
 
 
 def pocket_clipper(
-- 
2.43.0


From 3a11240936966c10094ff2d446c4215d5c6e2feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:11 +0000
Subject: [PATCH 07/53] fix: skip pocket areas with islands that are too small
 for the tool

Clipper refuses to operate on an empty list of outer paths.
---
 src/cq_cam/utils/geometry_op.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index 8cbb802..d14b1d3 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -212,7 +212,7 @@ def offset_polyface(
     polyface: PathFace, outer_offset: float, inner_offset: float, precision: int
 ) -> list[PathFace]:
     outers = offset_path(polyface.outer, outer_offset, precision)
-    if polyface.inners:
+    if outers and polyface.inners:
         inners = flatten_list(
             [offset_path(inner, inner_offset, precision) for inner in polyface.inners]
         )
-- 
2.43.0


From f0154e101fe0f8b13d4d8a85ed02ae28db051771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:40 +0000
Subject: [PATCH 08/53] fix: save the program instead of the repr of the job

---
 src/cq_cam/fluent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cq_cam/fluent.py b/src/cq_cam/fluent.py
index 4ca81f9..7598291 100644
--- a/src/cq_cam/fluent.py
+++ b/src/cq_cam/fluent.py
@@ -283,7 +283,7 @@ class Job:
         )
 
     def save_gcode(self, file_name):
-        gcode = str(self)
+        gcode = self.to_gcode()
         with open(file_name, "w") as f:
             f.write(gcode)
 
-- 
2.43.0


From 957a992b869ebe2f93bf2271976c9f7eda8c445e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:46 +0000
Subject: [PATCH 09/53] fix: do not modify the original job when only feed or
 diameter changes

---
 src/cq_cam/fluent.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cq_cam/fluent.py b/src/cq_cam/fluent.py
index 7598291..e822a6a 100644
--- a/src/cq_cam/fluent.py
+++ b/src/cq_cam/fluent.py
@@ -133,6 +133,9 @@ class Job:
             elif speed is not None and speed != self.speed:
                 commands = [StartSequence(speed, self.coolant)]
                 self = self._add_operation("Speed Change", commands)
+            else:
+                # Leave the original job as it was
+                self = copy(self)
 
             # Update Job attributes
             self.tool_number = tool_number
-- 
2.43.0


From 727c65aa3b831da7a0e8374dd10e6a45afae6e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:18 +0000
Subject: [PATCH 10/53] fix: start the program with the speed of the first
 operation

---
 src/cq_cam/fluent.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/fluent.py b/src/cq_cam/fluent.py
index e822a6a..b523741 100644
--- a/src/cq_cam/fluent.py
+++ b/src/cq_cam/fluent.py
@@ -275,10 +275,12 @@ class Job:
 
     def to_gcode(self):
         task_break = "\n\n\n"
+        # The speed may have been changed by the later operations
+        start_speed = self.operations[0].job.speed if self.operations else self.speed
         return (
             f"({self.name} - Feedrate: {self.feed} - Unit: {repr(self.unit)})\n"
             f"{SafetyBlock()}\n"
-            f"{StartSequence(speed=self.speed, coolant=self.coolant)}\n"
+            f"{StartSequence(speed=start_speed, coolant=self.coolant)}\n"
             f"{task_break.join(task.to_gcode() for task in self.operations)}\n"
             f"{SafetyBlock()}\n"
             f"{StopSequence(coolant=self.coolant)}\n"
-- 
2.43.0


From 30c2551b8ff2653eb657cb88a1e624c11d7cbf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:46 +0000
Subject: [PATCH 11/53] fix: accept the tool diameter of the tool given to
 profile

---
 src/cq_cam/fluent.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cq_cam/fluent.py b/src/cq_cam/fluent.py
index b523741..a2735f0 100644
--- a/src/cq_cam/fluent.py
+++ b/src/cq_cam/fluent.py
@@ -157,14 +157,14 @@ class Job:
         tabs: Tabs | None = None,
         tool: Tool | None = None,
     ) -> Job:
-        if self.tool_diameter is None:
-            raise ValueError("Profile requires tool_diameter to be set")
-
         if outer_offset is None and inner_offset is None:
             raise ValueError('Set at least one of "outer_offset" or "inner_offset"')
         outer_wires, inner_wires = extract_wires(shape)
 
         self = self.update_tool(tool)
+        if self.tool_diameter is None:
+            raise ValueError("Profile requires tool_diameter to be set")
+
         # Prefer inner wires first
         commands = []
         if inner_wires and inner_offset is not None:
-- 
2.43.0


From 07a4374f24cf24277640d993f3e9144197a2d3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:50 +0000
Subject: [PATCH 12/53] fix: drill at the coordinates relative to the job plane

---
 src/cq_cam/operations/drill.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cq_cam/operations/drill.py b/src/cq_cam/operations/drill.py
index f6afc99..033e9c6 100644
--- a/src/cq_cam/operations/drill.py
+++ b/src/cq_cam/operations/drill.py
@@ -24,7 +24,7 @@ class Drill(Operation):
     def __post_init__(self):
         # TODO max depth
         # TODO evacuate chips?
-        transform_f = self.job.top.toWorldCoords
+        transform_f = self.job.top.toLocalCoords
         drill_vectors: list[cq.Vector] = []
 
         if self.o is None:
-- 
2.43.0


From e113066928aa32dd9a7a324106c26b01045ee87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:51 +0000
Subject: [PATCH 13/53] fix: emit the unit, work offset and motion mode of the
 job

Every program was declared to be metric, G54 and G64.
---
 src/cq_cam/command.py | 17 ++++++++++++++---
 src/cq_cam/fluent.py  |  5 +++--
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/cq_cam/command.py b/src/cq_cam/command.py
index 30b696d..af8bef2 100644
--- a/src/cq_cam/command.py
+++ b/src/cq_cam/command.py
@@ -415,6 +415,17 @@ class StopSequence(ConfigCommand):
 
 
 class SafetyBlock(ConfigCommand):
+    def __init__(
+        self,
+        unit: Unit = Unit.METRIC,
+        coordinate: WorkOffset = WorkOffset.OFFSET_1,
+        controller_motion: PlannerControlMode = PlannerControlMode.CONTINUOUS,
+    ):
+        self.unit = unit
+        self.coordinate = coordinate
+        self.controller_motion = controller_motion
+        super().__init__()
+
     def __str__(self) -> str:
         return "\n".join(
             (
@@ -422,8 +433,8 @@ class SafetyBlock(ConfigCommand):
                     (
                         str(DistanceMode.ABSOLUTE),
                         # str(ArcDistanceMode.INCREMENTAL),
-                        str(WorkOffset.OFFSET_1),
-                        str(PlannerControlMode.CONTINUOUS),
+                        str(self.coordinate),
+                        str(self.controller_motion),
                         str(SpindleControlMode.MAX_SPINDLE_SPEED),
                         str(WorkPlane.XY),
                         str(FeedRateControlMode.UNITS_PER_MINUTE),
@@ -436,7 +447,7 @@ class SafetyBlock(ConfigCommand):
                         str(CannedCycle.CANCEL),
                     )
                 ),
-                str(Unit.METRIC),
+                str(self.unit),
                 str(Position.SECONDARY_HOME),
             )
         )
diff --git a/src/cq_cam/fluent.py b/src/cq_cam/fluent.py
index a2735f0..b113590 100644
--- a/src/cq_cam/fluent.py
+++ b/src/cq_cam/fluent.py
@@ -274,15 +274,16 @@ class Job:
         return 0.04
 
     def to_gcode(self):
+        safety_block = SafetyBlock(self.unit, self.coordinate, self.controller_motion)
         task_break = "\n\n\n"
         # The speed may have been changed by the later operations
         start_speed = self.operations[0].job.speed if self.operations else self.speed
         return (
             f"({self.name} - Feedrate: {self.feed} - Unit: {repr(self.unit)})\n"
-            f"{SafetyBlock()}\n"
+            f"{safety_block}\n"
             f"{StartSequence(speed=start_speed, coolant=self.coolant)}\n"
             f"{task_break.join(task.to_gcode() for task in self.operations)}\n"
-            f"{SafetyBlock()}\n"
+            f"{safety_block}\n"
             f"{StopSequence(coolant=self.coolant)}\n"
             f"{ProgramControlMode.END_RESET}"
         )
-- 
2.43.0


From 0e41eab47e96c378ad6796cde666c3600c363c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:56 +0000
Subject: [PATCH 14/53] fix: keep parentheses and line breaks of the job name
 out of comments

---
 src/cq_cam/fluent.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/cq_cam/fluent.py b/src/cq_cam/fluent.py
index b113590..da382a9 100644
--- a/src/cq_cam/fluent.py
+++ b/src/cq_cam/fluent.py
@@ -28,6 +28,12 @@ from cq_cam.visualize import visualize_job, visualize_job_as_edges
 logger = logging.getLogger(__name__)
 
 
+def comment(text: str) -> str:
+    """Format text as a G-code comment. Comments are single line and don't nest"""
+    text = text.replace("(", "[").replace(")", "]")
+    return f"({' '.join(text.split())})"
+
+
 class Operation:
     def __init__(self, job: Job, name: str, commands: list[Command]):
         self.job = job
@@ -37,7 +43,7 @@ class Operation:
     def to_gcode(self):
         # Set starting position above rapid height so that
         # we guarantee getting the correct Z rapid in the beginning
-        gcodes = [f"({self.job.name} - {self.name})"]
+        gcodes = [comment(f"{self.job.name} - {self.name}")]
         for command in self.commands:
             gcode = str(command)
 
@@ -274,12 +280,15 @@ class Job:
         return 0.04
 
     def to_gcode(self):
+        header = comment(
+            f"{self.name} - Feedrate: {self.feed} - Unit: {repr(self.unit)}"
+        )
         safety_block = SafetyBlock(self.unit, self.coordinate, self.controller_motion)
         task_break = "\n\n\n"
         # The speed may have been changed by the later operations
         start_speed = self.operations[0].job.speed if self.operations else self.speed
         return (
-            f"({self.name} - Feedrate: {self.feed} - Unit: {repr(self.unit)})\n"
+            f"{header}\n"
             f"{safety_block}\n"
             f"{StartSequence(speed=start_speed, coolant=self.coolant)}\n"
             f"{task_break.join(task.to_gcode() for task in self.operations)}\n"
-- 
2.43.0


From 06ff21898c6e17fa8b1a169ceaff96b3c5aa7a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:36 +0000
Subject: [PATCH 15/53] fix: do not lose profile layers when the job plane is
 not at the origin

The layers (in job coordinates) were cut with the job plane in global
coordinates.
---
 src/cq_cam/operations/profile.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/operations/profile.py b/src/cq_cam/operations/profile.py
index a18d16d..d5cefc6 100644
--- a/src/cq_cam/operations/profile.py
+++ b/src/cq_cam/operations/profile.py
@@ -47,6 +47,8 @@ def profile(
     # Transform to relative coordinates
     wire = wire.transformShape(job.top.fG)
 
+    top_plane_face = job.top_plane_face.transformShape(job.top.fG)
+
     # Generate base features
     base_features = offset_wire(wire, offset * job.tool_radius)
 
@@ -68,7 +70,7 @@ def profile(
                 if bb.zmin >= -0.001:
                     break
 
-                edges = compound_to_edges(i_op.cut(job.top_plane_face))
+                edges = compound_to_edges(i_op.cut(top_plane_face))
                 edges = [edge for edge in edges if edge.Center().z < 0]
                 wires = cq.Wire.combine(edges)
 
-- 
2.43.0


From 2f75925bb1df86b8f88638980ebc88194c3b03a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:02 +0000
Subject: [PATCH 16/53] fix: keep the tab that crosses the start of the wire

The tab ranges were out of order, which broke the path of any wire with
more than two edges or (closed) single edge wire with multiple tabs.
---
 src/cq_cam/operations/tabs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/operations/tabs.py b/src/cq_cam/operations/tabs.py
index 6c7ccf5..157f1b1 100644
--- a/src/cq_cam/operations/tabs.py
+++ b/src/cq_cam/operations/tabs.py
@@ -99,7 +99,8 @@ class WireTabs(Tabs):
             if range[1] > 1:
                 wire_tab_ds.append((range[0] - 1, range[1] - 1))
 
-        self.wire_tab_ds = wire_tab_ds
+        # The range that crosses 0 is the last one of the wire as well
+        self.wire_tab_ds = sorted(wire_tab_ds)
 
     def load_ordered_edges(self, ordered_edges):
         edge_lengths = [edge.Length() for edge in ordered_edges]
-- 
2.43.0


From 4bd705977937235a6ec959ebfdd9cf4e38c7f47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:34 +0000
Subject: [PATCH 17/53] fix: merge overlapping edge tabs

The tabs overlap when the spacing is just above the width. Overlapping
tabs were cut back and forth at full depth.
---
 src/cq_cam/operations/tabs.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/operations/tabs.py b/src/cq_cam/operations/tabs.py
index 157f1b1..c82336d 100644
--- a/src/cq_cam/operations/tabs.py
+++ b/src/cq_cam/operations/tabs.py
@@ -61,7 +61,11 @@ class EdgeTabs(Tabs):
 
             half_d = 1 / length * half
             for d in np.linspace(0, 1, count + 2, endpoint=True)[1:-1]:
-                edge_ds.append((d - half_d, d + half_d))
+                start_d = d - half_d
+                if edge_ds and start_d <= edge_ds[-1][1]:
+                    # The tabs overlap, merge them
+                    start_d, _ = edge_ds.pop()
+                edge_ds.append((start_d, d + half_d))
 
     def edge_tab_transitions(self, edge_index):
         edge_ds = self.edges_ds[edge_index]
-- 
2.43.0


From 19f6411d73460d54fd2069691b25c3b02cfbf312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:08 +0000
Subject: [PATCH 18/53] fix: slice tabs at the location of the edge

The curve of an edge doesn't know about the location of the edge. The tabs
were projected from the curve at the origin and the sliced edges were moved
only after that.
---
 src/cq_cam/operations/profile.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/cq_cam/operations/profile.py b/src/cq_cam/operations/profile.py
index d5cefc6..3d17783 100644
--- a/src/cq_cam/operations/profile.py
+++ b/src/cq_cam/operations/profile.py
@@ -121,7 +121,9 @@ def apply_tabs(wire: cq.Wire, tab_z: float, tabs: Tabs):
             )
             p1 = edge.paramAt(t_start_p)
             p2 = edge.paramAt(t_end_p)
+            # The location of the edge doesn't affect the underlying curve
             curve = edge._geomAdaptor().Curve().Curve()
+            curve = curve.Transformed(edge.location().wrapped.Transformation())
 
             if t_start[1] == Transition.TAB:
                 projected_curve = GeomProjLib.ProjectOnPlane_s(
@@ -157,9 +159,6 @@ def apply_tabs(wire: cq.Wire, tab_z: float, tabs: Tabs):
                 if e_reversed:
                     sliced_edge.wrapped.Orientation(TopAbs_REVERSED)
 
-                # The location of the edge needs to be copied because it doesn't
-                # affect the underlying curve..
-                sliced_edge.move(edge.location())
                 # Plunge
                 if previous_edge:
                     plunge = cq.Edge.makeLine(
-- 
2.43.0


From eb158dfb7bfe32bb63bb24b39723f3a78c6a5365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:08 +0000
Subject: [PATCH 19/53] fix: apply the circle offset workaround only to circles

Other closed edges (splines, ellipses) are offset correctly by OCCT.
---
 src/cq_cam/utils/circle_bug_workaround.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cq_cam/utils/circle_bug_workaround.py b/src/cq_cam/utils/circle_bug_workaround.py
index 9753c3a..2957d32 100644
--- a/src/cq_cam/utils/circle_bug_workaround.py
+++ b/src/cq_cam/utils/circle_bug_workaround.py
@@ -12,7 +12,7 @@ def circle_bug_workaround(source_wire: cq.Wire, target_wires: list[cq.Wire]):
     """
     if len(source_wire.Edges()) == 1:
         edge = source_wire.Edges()[0]
-        if edge.startPoint() == edge.endPoint():
+        if edge.geomType() == "CIRCLE" and edge.startPoint() == edge.endPoint():
             # OCCT bug with offsetting circles!
             for target in target_wires:
                 target.wrapped.Location(source_wire.wrapped.Location().Inverted())
-- 
2.43.0


From 79154f9651defb8a60d120f259c74b036c0afcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:41 +0000
Subject: [PATCH 20/53] fix: cut arcs that round to a point straight

A G2/G3 that ends where it starts is a full circle.
---
 src/cq_cam/routers.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/cq_cam/routers.py b/src/cq_cam/routers.py
index 929b017..e294b84 100644
--- a/src/cq_cam/routers.py
+++ b/src/cq_cam/routers.py
@@ -1,4 +1,4 @@
-from math import isclose, sqrt
+from math import isclose, pi, sqrt
 from typing import TYPE_CHECKING, Union
 
 import cadquery as cq
@@ -6,7 +6,7 @@ import numpy as np
 from OCP.BRepExtrema import BRepExtrema_DistShapeShape, BRepExtrema_SupportType
 from OCP.TopAbs import TopAbs_REVERSED
 
-from cq_cam.address import AddressVector
+from cq_cam.address import XYZ, AddressVector
 from cq_cam.command import (
     CircularCCW,
     CircularCW,
@@ -189,9 +189,9 @@ def route_edge(
                     arrow=arrow,
                 )
             )
-        elif sp == ep:
-            # Really tiny arc, might as well just cut it straight
-            # TODO verify the sanity
+        elif abs(end_p - start_p) < pi and str(XYZ(start_cv)) == str(XYZ(end_cv)):
+            # Really tiny arc, must be cut straight because an arc which (after
+            # rounding) ends where it starts is a full circle in G-code
             commands.append(Cut(end=end_cv, start=start_cv, arrow=arrow, feed=feed))
         else:
             mid_p = np.linspace(start_p, end_p, 3)[1]
-- 
2.43.0


From 82696f004251e3aa950f28a7c28a5c3a012edd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:41 +0000
Subject: [PATCH 21/53] fix: show arcs in the visualization

The arc start was not a vector, so all the arcs failed to be created.
---
 src/cq_cam/command.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cq_cam/command.py b/src/cq_cam/command.py
index af8bef2..7b21b41 100644
--- a/src/cq_cam/command.py
+++ b/src/cq_cam/command.py
@@ -335,8 +335,9 @@ class Circular(FeedRateCommand, ABC):
         return " ".join(words)
 
     def to_ais_shape(self, as_edges=False, alt_color=False) -> AIS_Shape:
-        end = self.end.to_vector(self.start)
-        mid = self.mid.to_vector(self.start)
+        start = self.start.to_vector(cq.Vector(0, 0, 0))
+        end = self.end.to_vector(start)
+        mid = self.mid.to_vector(start)
 
         # Note: precision of __eq__ on vectors can cause false positive circles with very small arcs
         # TODO: Neutralise small arcs, these can cause similar problem with grbl as far as I remember
@@ -348,10 +349,10 @@ class Circular(FeedRateCommand, ABC):
         #    edge = cq.Edge.makeCircle(radius, center, cq.Vector(0,0,1))
         # else:
         try:
-            edge = cq.Edge.makeThreePointArc(self.start, mid, end)
+            edge = cq.Edge.makeThreePointArc(start, mid, end)
         except:
             try:
-                edge = cq.Edge.makeLine(self.start, end)
+                edge = cq.Edge.makeLine(start, end)
             except:
                 # Too small to render ?
                 return None
-- 
2.43.0


From adbc9f5953af3859acdf7e0ee6da25ed342cdc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:40 +0000
Subject: [PATCH 22/53] fix: ignore numerical noise in the depth of pocket and
 avoid faces

Faces in a rotated job plane ended up above the job plane (rejected), or an
avoid face ended up below the floor it shares with the pocket and was machined.
---
 src/cq_cam/utils/geometry_op.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index d14b1d3..df60887 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -45,7 +45,8 @@ class PathFace:
         return cls(
             wire_to_path(cq_face.outerWire(), precision),
             [wire_to_path(wire, precision) for wire in cq_face.innerWires()],
-            bbox.zmax,
+            # Depths are compared with each other, so get rid of the numerical noise
+            round(bbox.zmax, 6),
         )
 
     def clone_to_depth(self, depth: float):
-- 
2.43.0


From deb9d65903e822482301d24824c5e1445040848a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:26 +0000
Subject: [PATCH 23/53] fix: offset the circular holes of solids to the
 requested side

OCCT offsets a circle inwards or outwards depending on the orientation of the
edge and the surface attached to it.
---
 src/cq_cam/utils/circle_bug_workaround.py | 20 ++++++++++++++++++++
 src/cq_cam/utils/geometry_op.py           |  6 +++++-
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/utils/circle_bug_workaround.py b/src/cq_cam/utils/circle_bug_workaround.py
index 2957d32..b0d1009 100644
--- a/src/cq_cam/utils/circle_bug_workaround.py
+++ b/src/cq_cam/utils/circle_bug_workaround.py
@@ -1,4 +1,5 @@
 import cadquery as cq
+from OCP.BRepBuilderAPI import BRepBuilderAPI_MakeEdge
 
 
 def circle_bug_workaround(source_wire: cq.Wire, target_wires: list[cq.Wire]):
@@ -16,3 +17,22 @@ def circle_bug_workaround(source_wire: cq.Wire, target_wires: list[cq.Wire]):
             # OCCT bug with offsetting circles!
             for target in target_wires:
                 target.wrapped.Location(source_wire.wrapped.Location().Inverted())
+
+
+def clean_circle(wire: cq.Wire) -> cq.Wire:
+    """
+    OCCT may offset a circle to the wrong side depending on the orientation of the
+    edge and the faces it belongs to, which is often the case with the holes of a
+    solid. Get rid of those by building the circle again.
+    """
+    edges = wire.Edges()
+    if len(edges) == 1:
+        edge = edges[0]
+        if edge.geomType() == "CIRCLE" and edge.startPoint() == edge.endPoint():
+            curve = edge._geomAdaptor()
+            circle = BRepBuilderAPI_MakeEdge(
+                curve.Circle(), curve.FirstParameter(), curve.LastParameter()
+            )
+            return cq.Wire.assembleEdges([cq.Edge(circle.Edge())])
+
+    return wire
diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index df60887..65db157 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -10,7 +10,10 @@ import pyclipper as pc
 import shapely
 from OCP.StdFail import StdFail_NotDone
 
-from cq_cam.utils.circle_bug_workaround import circle_bug_workaround
+from cq_cam.utils.circle_bug_workaround import (
+    circle_bug_workaround,
+    clean_circle,
+)
 from cq_cam.utils.interpolation import vectors_to_2d_tuples, wire_to_vectors
 from cq_cam.utils.utils import dist_to_segment_squared, flatten_list
 
@@ -72,6 +75,7 @@ def calculate_offset(tool_radius: float, offset: OffsetInput | None, default=Non
 def offset_wire(
     wire: cq.Wire, offset, kind: Literal["arc", "intersection", "tangent"] = "arc"
 ) -> list[cq.Wire]:
+    wire = clean_circle(wire)
     try:
         offset_wires = wire.offset2D(offset, kind)
     except ValueError:
-- 
2.43.0


From a929b5b949b9bb4701ffed6706149464ba156c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:12 +0000
Subject: [PATCH 24/53] fix: offset small circles to the inside

---
 src/cq_cam/utils/circle_bug_workaround.py | 25 +++++++++++++++++++++++
 src/cq_cam/utils/geometry_op.py           |  3 ++-
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/utils/circle_bug_workaround.py b/src/cq_cam/utils/circle_bug_workaround.py
index b0d1009..1f00e41 100644
--- a/src/cq_cam/utils/circle_bug_workaround.py
+++ b/src/cq_cam/utils/circle_bug_workaround.py
@@ -1,5 +1,6 @@
 import cadquery as cq
 from OCP.BRepBuilderAPI import BRepBuilderAPI_MakeEdge
+from OCP.gp import gp_Circ
 
 
 def circle_bug_workaround(source_wire: cq.Wire, target_wires: list[cq.Wire]):
@@ -36,3 +37,27 @@ def clean_circle(wire: cq.Wire) -> cq.Wire:
             return cq.Wire.assembleEdges([cq.Edge(circle.Edge())])
 
     return wire
+
+
+def offset_circle(wire: cq.Wire, offset: float) -> list[cq.Wire]:
+    """
+    OCCT fails to offset small circles (with a radius of about one unit or less)
+    to the inside, so build the result directly.
+
+    :return: empty list if the wire is not a circle or if the circle is too small
+    """
+    edges = wire.Edges()
+    if len(edges) == 1:
+        edge = edges[0]
+        if edge.geomType() == "CIRCLE" and edge.startPoint() == edge.endPoint():
+            curve = edge._geomAdaptor()
+            radius = curve.Circle().Radius() + offset
+            if radius > 0:
+                circle = BRepBuilderAPI_MakeEdge(
+                    gp_Circ(curve.Circle().Position(), radius),
+                    curve.FirstParameter(),
+                    curve.LastParameter(),
+                )
+                return [cq.Wire.assembleEdges([cq.Edge(circle.Edge())])]
+
+    return []
diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index 65db157..a2b5556 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -13,6 +13,7 @@ from OCP.StdFail import StdFail_NotDone
 from cq_cam.utils.circle_bug_workaround import (
     circle_bug_workaround,
     clean_circle,
+    offset_circle,
 )
 from cq_cam.utils.interpolation import vectors_to_2d_tuples, wire_to_vectors
 from cq_cam.utils.utils import dist_to_segment_squared, flatten_list
@@ -85,7 +86,7 @@ def offset_wire(
         try:
             offset_wires = wire.offset2D(offset + 0.000001, kind)
         except ValueError:
-            return []
+            offset_wires = offset_circle(wire, offset)
 
     validated_wires = []
     for offset_wire_ in offset_wires:
-- 
2.43.0


From 30b5c5fbaf6d809a16644e1619d694beaadcb320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:43 +0000
Subject: [PATCH 25/53] fix: keep small offset outlines

---
 src/cq_cam/utils/geometry_op.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index a2b5556..a7902e7 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -94,7 +94,7 @@ def offset_wire(
             face = cq.Face.makeFromWires(offset_wire_)
             # Todo arbitrary..
             # How should one detect whether offset is possible??
-            if face.Area() > 0.1:
+            if face.Area() > 1e-6:
                 validated_wires.append(offset_wire_)
         except StdFail_NotDone:
             logger.warning("Failed to offset wire")
-- 
2.43.0


From e5417d4534b03564ba2ae92caeb783bfa6621ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:49 +0000
Subject: [PATCH 26/53] fix: route arcs that are too short to be measured

---
 src/cq_cam/utils/utils.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/cq_cam/utils/utils.py b/src/cq_cam/utils/utils.py
index b2e6dd4..c05f07a 100644
--- a/src/cq_cam/utils/utils.py
+++ b/src/cq_cam/utils/utils.py
@@ -35,17 +35,21 @@ def edge_start_point(edge: cq.Edge, precision=3) -> cq.Vector:
 
 
 def edge_start_param(edge: cq.Edge) -> float:
+    # Edge.paramAt measures the edge, which fails with really tiny arcs
+    first, last = edge._bounds()
     orientation = edge.wrapped.Orientation()
     if orientation == TopAbs_REVERSED:
-        return edge.paramAt(1)
-    return edge.paramAt(0)
+        return last
+    return first
 
 
 def edge_end_param(edge: cq.Edge) -> float:
+    # Edge.paramAt measures the edge, which fails with really tiny arcs
+    first, last = edge._bounds()
     orientation = edge.wrapped.Orientation()
     if orientation == TopAbs_REVERSED:
-        return edge.paramAt(0)
-    return edge.paramAt(1)
+        return first
+    return last
 
 
 def edge_oriented_param(edge: cq.Edge, p1, p2):
-- 
2.43.0


From 4d4013e3af911629d374da07b51fa16731e946b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:42 +0000
Subject: [PATCH 27/53] fix: accept flat pocket faces at any depth

---
 src/cq_cam/utils/geometry_op.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index a7902e7..a782317 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -43,7 +43,7 @@ class PathFace:
     @classmethod
     def from_cq_face(cls, cq_face: cq.Face, precision: int):
         bbox = cq_face.BoundingBox()
-        if round(bbox.zmin, 3) != round(bbox.zmax, 3):
+        if bbox.zmax - bbox.zmin > 0.001:
             raise ValueError("PolyFace supports only flat faces")
 
         return cls(
-- 
2.43.0


From 76073caa171cbb3ca8bed89bae3f4c35cf59d531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:40 +0000
Subject: [PATCH 28/53] fix: enter the passes of tabbed wires at their start

---
 src/cq_cam/routers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cq_cam/routers.py b/src/cq_cam/routers.py
index e294b84..7766beb 100644
--- a/src/cq_cam/routers.py
+++ b/src/cq_cam/routers.py
@@ -286,6 +286,8 @@ def route_wires(
                 job.op_safe_height,
                 plunge_feed=job.plunge_feed,
             )
+            # The wire is entered at its start, not at the closest point
+            param = None
         previous_pos = commands[-1].end
 
         for edge_i, edge in enumerate(edges):
-- 
2.43.0


From ba80739eb5f312ec53244e24cab3a17e6dbc03f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:40 +0000
Subject: [PATCH 29/53] fix: keep wire tabs that overlap or end at a corner

---
 src/cq_cam/operations/profile.py | 17 ++++++++++++++++-
 src/cq_cam/operations/tabs.py    | 24 ++++++++++++++++++++----
 2 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/src/cq_cam/operations/profile.py b/src/cq_cam/operations/profile.py
index 3d17783..e95835d 100644
--- a/src/cq_cam/operations/profile.py
+++ b/src/cq_cam/operations/profile.py
@@ -93,11 +93,24 @@ def profile(
 TAB_ERRORS = []
 
 
+def connect_levels(edges: list[cq.Edge]) -> list[cq.Edge]:
+    """Connect the edges where a tab starts or ends exactly between two of them"""
+    connected = []
+    for edge, next_edge in zip(edges, edges[1:] + edges[:1]):
+        connected.append(edge)
+        end, start = edge_end_point(edge), edge_start_point(next_edge)
+        gap = start - end
+        if abs(gap.z) > 1e-6 and cq.Vector(gap.x, gap.y, 0).Length < 1e-4:
+            connected.append(cq.Edge.makeLine(end, start))
+    return connected
+
+
 def apply_tabs(wire: cq.Wire, tab_z: float, tabs: Tabs):
     if tabs is None:
         return wire
 
-    if wire.BoundingBox().zmin >= tab_z:
+    # The bounding box may include the tolerance of the shape
+    if wire.BoundingBox().zmin >= tab_z - 1e-6:
         return wire
 
     tab_plane = cq.Plane((0, 0, tab_z))
@@ -169,6 +182,8 @@ def apply_tabs(wire: cq.Wire, tab_z: float, tabs: Tabs):
                 previous_edge = sliced_edge
                 new_edges.append(sliced_edge)
 
+    new_edges = connect_levels(new_edges)
+
     global TAB_ERRORS
     try:
         return cq.Wire.assembleEdges(new_edges)
diff --git a/src/cq_cam/operations/tabs.py b/src/cq_cam/operations/tabs.py
index c82336d..b605344 100644
--- a/src/cq_cam/operations/tabs.py
+++ b/src/cq_cam/operations/tabs.py
@@ -78,6 +78,9 @@ class EdgeTabs(Tabs):
 
 
 class WireTabs(Tabs):
+    # Anything smaller, as a fraction of the wire length, is numerical noise
+    MIN_D = 1e-6
+
     def __init__(self, *, count: int, width: float, height: float):
         super().__init__(width=width, height=height)
         self.edge_lengths = None
@@ -104,7 +107,13 @@ class WireTabs(Tabs):
                 wire_tab_ds.append((range[0] - 1, range[1] - 1))
 
         # The range that crosses 0 is the last one of the wire as well
-        self.wire_tab_ds = sorted(wire_tab_ds)
+        self.wire_tab_ds = []
+        for start_d, end_d in sorted(wire_tab_ds):
+            if self.wire_tab_ds and start_d <= self.wire_tab_ds[-1][1] + self.MIN_D:
+                # The tabs overlap, merge them
+                previous_start_d, previous_end_d = self.wire_tab_ds.pop()
+                start_d, end_d = previous_start_d, max(previous_end_d, end_d)
+            self.wire_tab_ds.append((start_d, end_d))
 
     def load_ordered_edges(self, ordered_edges):
         edge_lengths = [edge.Length() for edge in ordered_edges]
@@ -125,17 +134,24 @@ class WireTabs(Tabs):
         edge_start_d, edge_end_d = edge_range
         transitions = []
         for tab_start_d, tab_end_d in self.wire_tab_ds:
+            # Tab is not on the edge or touches it only at the ends
+            if (
+                tab_end_d <= edge_start_d + self.MIN_D
+                or tab_start_d >= edge_end_d - self.MIN_D
+            ):
+                continue
+
             # Tab crosses start
-            if tab_start_d <= edge_start_d < tab_end_d:
+            if tab_start_d <= edge_start_d + self.MIN_D:
                 transitions.append((0, Transition.TAB))
 
             # Tab starts inside edge
-            if edge_start_d < tab_start_d <= edge_end_d:
+            else:
                 edge_d = min(max(self.wire_d_to_edge_d(tab_start_d, edge_range), 0), 1)
                 transitions.append((edge_d, Transition.TAB))
 
             # Tab ends inside edge
-            if edge_start_d < tab_end_d <= edge_end_d:
+            if tab_end_d < edge_end_d - self.MIN_D:
                 edge_d = min(max(self.wire_d_to_edge_d(tab_end_d, edge_range), 0), 1)
                 transitions.append((edge_d, Transition.NORMAL))
 
-- 
2.43.0


From 8453dd7e058bd5fb1fbd1af1e5642fa9b63083b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:36 +0000
Subject: [PATCH 30/53] fix: refuse pocket stepovers that never end

---
 src/cq_cam/operations/pocket.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cq_cam/operations/pocket.py b/src/cq_cam/operations/pocket.py
index 892284e..c5d0d8c 100644
--- a/src/cq_cam/operations/pocket.py
+++ b/src/cq_cam/operations/pocket.py
@@ -52,6 +52,9 @@ def pocket(
     avoid_inner_offset = calculate_offset(job.tool_radius, avoid_inner_offset, -1)
     stepover = calculate_offset(job.tool_radius, stepover, 0.5)
 
+    if stepover <= 0:
+        raise ValueError("Pocket stepover must be greater than zero")
+
     # Transform to job plane
     op_areas = [face.transformShape(job.top.fG) for face in op_areas]
     avoid_areas = [face.transformShape(job.top.fG) for face in avoid_areas]
-- 
2.43.0


From e0f67357d2c89d4769ec43fa69e75ee8f82fa2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:04 +0000
Subject: [PATCH 31/53] fix: refuse profiles of wires that are not parallel to
 the job plane

---
 src/cq_cam/operations/profile.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cq_cam/operations/profile.py b/src/cq_cam/operations/profile.py
index e95835d..de68c69 100644
--- a/src/cq_cam/operations/profile.py
+++ b/src/cq_cam/operations/profile.py
@@ -47,6 +47,10 @@ def profile(
     # Transform to relative coordinates
     wire = wire.transformShape(job.top.fG)
 
+    bbox = wire.BoundingBox()
+    if bbox.zmax - bbox.zmin > 0.001:
+        raise ValueError("Profile supports only flat wires parallel to the job plane")
+
     top_plane_face = job.top_plane_face.transformShape(job.top.fG)
 
     # Generate base features
-- 
2.43.0


From b43a0af4cab8c7316038762b8e2f35b8077d38cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:21 +0000
Subject: [PATCH 32/53] fix: keep islands that several pocket areas enclose
 together

---
 src/cq_cam/operations/pocket.py | 22 +++++++++++++++++-----
 src/cq_cam/utils/geometry_op.py |  5 +++--
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/cq_cam/operations/pocket.py b/src/cq_cam/operations/pocket.py
index c5d0d8c..c44cac5 100644
--- a/src/cq_cam/operations/pocket.py
+++ b/src/cq_cam/operations/pocket.py
@@ -110,9 +110,19 @@ def combine_poly_faces(poly_faces: list[PathFace], depth) -> list[PathFace]:
     return difference_poly_tree(new_outers, inners, depth)
 
 
-def combine_outers(poly_faces: list[PathFace], depth) -> list[Path]:
+def combine_outers(poly_faces: list[PathFace], depth, precision: int) -> list[Path]:
     outers = [poly_face.outer for poly_face in poly_faces]
-    return [poly_face.outer for poly_face in union_poly_tree(outers, [], depth)]
+    paths = []
+    for poly_face in union_poly_tree(outers, [], depth):
+        paths.append(poly_face.outer)
+        # The faces may enclose an island together. Anything narrower than the
+        # precision is just a seam between the faces.
+        paths += [
+            inner
+            for inner in poly_face.inners
+            if offset_path(inner, -(10**-precision), precision)
+        ]
+    return paths
 
 
 def determine_stepdown_start_depth(
@@ -152,7 +162,7 @@ def apply_stepdown(
 
 
 def build_pocket_ops(
-    op_areas: list[PathFace], avoid_areas: list[PathFace]
+    op_areas: list[PathFace], avoid_areas: list[PathFace], precision: int
 ) -> list[PathFace]:
     # Determine depth of each face
     depth_map, depths = generate_depth_map(op_areas)
@@ -165,7 +175,7 @@ def build_pocket_ops(
         for sub_depth in depths[i + 1 :]:
             depth_faces += depth_map[sub_depth]
 
-        depth_ops = combine_outers(depth_faces, depth)
+        depth_ops = combine_outers(depth_faces, depth, precision)
         depth_inners = flatten_list(face.inners for face in depth_faces)
 
         if avoid_depths:
@@ -258,7 +268,9 @@ def pocket_clipper(
             face, avoid_outer_offset, avoid_inner_offset, job.precision
         )
 
-    pocket_ops = build_pocket_ops(offset_op_areas, offset_avoid_areas)
+    pocket_ops = build_pocket_ops(
+        offset_op_areas, offset_avoid_areas, job.precision
+    )
 
     # Apply pocket fill
     sequences: list[list[PathFace]] = []
diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index a782317..c9b0aea 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -197,14 +197,15 @@ def close_path(path: OpenPath) -> ClosedPath:
 def poly_tree_to_poly_faces(poly_tree: pc.PyPolyNode, depth: float) -> list[PathFace]:
     polyfaces: list[PathFace] = []
     for face in poly_tree.Childs:
-        if face.depth > 1:
-            logger.warning("Deep face encountered in make_polyface")
         outer = tuplify_path(close_path(pc.scale_from_clipper(face.Contour)))
         inners = [
             tuplify_path(close_path(pc.scale_from_clipper(child.Contour)))
             for child in face.Childs
         ]
         polyfaces.append(PathFace(outer, inners, depth))
+        # Faces inside the inners
+        for child in face.Childs:
+            polyfaces += poly_tree_to_poly_faces(child, depth)
     return polyfaces
 
 
-- 
2.43.0


From 8f0f4c332ad790886c67748880f251d1e753a39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:55 +0000
Subject: [PATCH 33/53] fix: machine pocket areas that lie inside the holes of
 other areas

---
 src/cq_cam/operations/pocket.py | 38 ++++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/src/cq_cam/operations/pocket.py b/src/cq_cam/operations/pocket.py
index c44cac5..42789e2 100644
--- a/src/cq_cam/operations/pocket.py
+++ b/src/cq_cam/operations/pocket.py
@@ -4,6 +4,7 @@ from typing import TYPE_CHECKING, Literal
 
 import cadquery as cq
 import numpy as np
+import shapely
 
 from cq_cam.address import AddressVector
 from cq_cam.operations.pocket_cq import pocket_cq
@@ -203,6 +204,24 @@ def build_pocket_ops(
     return pocket_ops
 
 
+def is_inside(face: PathFace, hole: Path, precision: int) -> bool:
+    # Anything narrower than the precision is just the seam between the face and the hole
+    return not any(
+        offset_path(outside.outer, -(10**-precision), precision)
+        for outside in difference_poly_tree([face.outer], [hole], face.depth)
+    )
+
+
+def nesting_level(face: PathFace, faces: list[PathFace], precision: int) -> int:
+    """Number of holes that the face lies in"""
+    holes = [
+        hole
+        for hole in flatten_list(other.inners for other in faces)
+        if shapely.Polygon(hole).area > 1e-9
+    ]
+    return sum(is_inside(face, hole, precision) for hole in holes)
+
+
 def fill_pocket_contour_shrink(
     pocket: PathFace, step: float, precision: int
 ) -> list[list[PathFace]]:
@@ -255,22 +274,31 @@ def pocket_clipper(
     stepdown: float,
 ):
     # Offset faces
-    offset_op_areas: list[PathFace] = []
+    offset_op_areas: dict[int, list[PathFace]] = defaultdict(list)
     offset_avoid_areas: list[PathFace] = []
 
     for face in op_areas:
-        offset_op_areas += offset_polyface(
+        level = nesting_level(face, op_areas, job.precision)
+        offset_faces = offset_polyface(
             face, outer_offset, inner_offset, job.precision
         )
+        for offset_face in offset_faces:
+            offset_level = level + nesting_level(
+                offset_face, offset_faces, job.precision
+            )
+            offset_op_areas[offset_level].append(offset_face)
 
     for face in avoid_areas:
         offset_avoid_areas += offset_polyface(
             face, avoid_outer_offset, avoid_inner_offset, job.precision
         )
 
-    pocket_ops = build_pocket_ops(
-        offset_op_areas, offset_avoid_areas, job.precision
-    )
+    # The holes of an area don't apply to the areas inside of the holes
+    pocket_ops = []
+    for level in sorted(offset_op_areas):
+        pocket_ops += build_pocket_ops(
+            offset_op_areas[level], offset_avoid_areas, job.precision
+        )
 
     # Apply pocket fill
     sequences: list[list[PathFace]] = []
-- 
2.43.0


From 626b1c7540e91bc572691f50b855e91b84e8e30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:39 +0000
Subject: [PATCH 34/53] fix: islands of the cq pocket engine that touch each
 other or the wall, and follow islands

---
 src/cq_cam/operations/pocket_cq.py |  3 ++-
 src/cq_cam/utils/geometry_op.py    | 14 ++++++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/cq_cam/operations/pocket_cq.py b/src/cq_cam/operations/pocket_cq.py
index a56ae8e..9562fe0 100644
--- a/src/cq_cam/operations/pocket_cq.py
+++ b/src/cq_cam/operations/pocket_cq.py
@@ -134,7 +134,8 @@ def fill_pocket_contour_shrink(pocket: cq.Face, step: float) -> list[list[cq.Wir
     except StopIteration:
         pass
 
-    return tree.sequences
+    # The shrinking contours follow the islands only partially
+    return tree.sequences + [[inner] for inner in pocket.innerWires()]
 
 
 def pocket_cq(
diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index c9b0aea..63a6e3e 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -16,7 +16,11 @@ from cq_cam.utils.circle_bug_workaround import (
     offset_circle,
 )
 from cq_cam.utils.interpolation import vectors_to_2d_tuples, wire_to_vectors
-from cq_cam.utils.utils import dist_to_segment_squared, flatten_list
+from cq_cam.utils.utils import (
+    break_compound_to_faces,
+    dist_to_segment_squared,
+    flatten_list,
+)
 
 logger = logging.getLogger(__name__)
 OffsetToolRadiusMultiplier: TypeAlias = float
@@ -180,7 +184,13 @@ def offset_face(
     for inner in face.innerWires():
         op_inners += offset_wire(inner, inner_offset)
     for op_outer in op_outers:
-        offset_faces.append(cq.Face.makeFromWires(op_outer, op_inners))
+        op_face = cq.Face.makeFromWires(op_outer)
+        if op_inners:
+            # The inners may overlap each other and the outer
+            inner_faces = [cq.Face.makeFromWires(inner) for inner in op_inners]
+            offset_faces += break_compound_to_faces(op_face.cut(*inner_faces))
+        else:
+            offset_faces.append(op_face)
     return offset_faces
 
 
-- 
2.43.0


From afc02bc5c568ba2501b3280cd7ccf84686c69098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:44 +0000
Subject: [PATCH 35/53] fix: depths of the cq pocket engine in tilted job
 planes

---
 src/cq_cam/operations/pocket_cq.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/cq_cam/operations/pocket_cq.py b/src/cq_cam/operations/pocket_cq.py
index 9562fe0..9516013 100644
--- a/src/cq_cam/operations/pocket_cq.py
+++ b/src/cq_cam/operations/pocket_cq.py
@@ -23,11 +23,12 @@ def generate_depth_map(faces: list[cq.Face]):
     depth_map = defaultdict(list)
 
     for face in faces:
-        bbox = face.BoundingBox()
-        if bbox.zmax > 0:
+        # Depths are compared with each other, so get rid of the numerical noise
+        depth = round(face.BoundingBox().zmax, 6)
+        if depth > 0:
             raise ValueError("Face is above job plane")
 
-        depth_map[bbox.zmax].append(face)
+        depth_map[depth].append(face)
 
     depths = list(depth_map.keys())
     depths.sort(reverse=True)
@@ -65,7 +66,7 @@ def build_pocket_ops(
         for sub_depth in depths[i + 1 :]:
             # Move faces UP
             depth_faces += [
-                face.translate(job.top.zDir.multiply(depth - sub_depth))
+                face.translate(cq.Vector(0, 0, depth - sub_depth))
                 for face in depth_map[sub_depth]
             ]
 
@@ -79,7 +80,7 @@ def build_pocket_ops(
             for avoid_depth in active_avoid_depths:
                 # Move faces DOWN
                 avoid_faces += [
-                    face.translate(job.top.zDir.multiply(depth - avoid_depth))
+                    face.translate(cq.Vector(0, 0, depth - avoid_depth))
                     for face in avoid_depth_map[avoid_depth]
                 ]
             depth_ops_with_avoid = []
-- 
2.43.0


From 765eb5ee9a3a517ed8652b9d57a1f85aa290951c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:05 +0000
Subject: [PATCH 36/53] fix: clear the areas enclosed by the offset of an
 island in the cq pocket engine

---
 src/cq_cam/utils/geometry_op.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index 63a6e3e..bc7b77f 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -175,20 +175,28 @@ def path_to_wire(path: Path, reference: cq.Wire | float) -> cq.Wire:
     return wire
 
 
+def offset_wire_to_faces(wire: cq.Wire, offset: float) -> list[cq.Face]:
+    faces = [
+        cq.Face.makeFromWires(offset_wire_) for offset_wire_ in offset_wire(wire, offset)
+    ]
+    if offset > 0 and len(faces) > 1:
+        # A wire that grows stays in one piece, the rest are areas it encloses
+        faces.sort(key=lambda face: face.Area())
+        return break_compound_to_faces(faces.pop().cut(*faces))
+    return faces
+
+
 def offset_face(
     face: cq.Face, outer_offset: float, inner_offset: float
 ) -> list[cq.Face]:
     offset_faces = []
-    op_outers = offset_wire(face.outerWire(), outer_offset)
     op_inners = []
     for inner in face.innerWires():
-        op_inners += offset_wire(inner, inner_offset)
-    for op_outer in op_outers:
-        op_face = cq.Face.makeFromWires(op_outer)
+        op_inners += offset_wire_to_faces(inner, inner_offset)
+    for op_face in offset_wire_to_faces(face.outerWire(), outer_offset):
         if op_inners:
             # The inners may overlap each other and the outer
-            inner_faces = [cq.Face.makeFromWires(inner) for inner in op_inners]
-            offset_faces += break_compound_to_faces(op_face.cut(*inner_faces))
+            offset_faces += break_compound_to_faces(op_face.cut(*op_inners))
         else:
             offset_faces.append(op_face)
     return offset_faces
-- 
2.43.0


From 459464f4274bd0e21e52443c5bbe3e82d5edb621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:09 +0000
Subject: [PATCH 37/53] fix: never ending fill of the cq pocket engine when an
 offset goes to the wrong side

---
 src/cq_cam/operations/pocket_cq.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/cq_cam/operations/pocket_cq.py b/src/cq_cam/operations/pocket_cq.py
index 9516013..85f0f14 100644
--- a/src/cq_cam/operations/pocket_cq.py
+++ b/src/cq_cam/operations/pocket_cq.py
@@ -110,20 +110,22 @@ def fill_pocket_contour_shrink(pocket: cq.Face, step: float) -> list[list[cq.Wir
     try:
         while True:
             node = tree.next_unlocked
-            next_outer_candidates = offset_wire(node.obj, -step, "arc")
-            if inner_faces:
-                next_outers = []
-                for next_outer in next_outer_candidates:
-                    try:
-                        outer_face = cq.Face.makeFromWires(next_outer)
-                    except StdFail_NotDone:
-                        continue
+            node_area = cq.Face.makeFromWires(node.obj).Area()
+            next_outers = []
+            for next_outer in offset_wire(node.obj, -step, "arc"):
+                try:
+                    outer_face = cq.Face.makeFromWires(next_outer)
+                except StdFail_NotDone:
+                    continue
+                # OCCT may offset to the wrong side, which would never end
+                if outer_face.Area() >= node_area:
+                    continue
+                if inner_faces:
                     outer_compound = outer_face.cut(*inner_faces)
                     compound_faces = break_compound_to_faces(outer_compound)
-                    if compound_faces:
-                        next_outers += [face.outerWire() for face in compound_faces]
-            else:
-                next_outers = next_outer_candidates
+                    next_outers += [face.outerWire() for face in compound_faces]
+                else:
+                    next_outers.append(next_outer)
 
             if next_outers:
                 node.branch(next_outers)
-- 
2.43.0


From 40534187e3f1684c2c11afe42eace287e4b7fc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:39 +0000
Subject: [PATCH 38/53] fix: zigzag scanlines that end on the closing segment
 of a boundary

---
 src/cq_cam/operations/strategy.py  | 3 ++-
 src/cq_cam/utils/linked_polygon.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cq_cam/operations/strategy.py b/src/cq_cam/operations/strategy.py
index f6c9a54..656eb87 100644
--- a/src/cq_cam/operations/strategy.py
+++ b/src/cq_cam/operations/strategy.py
@@ -135,7 +135,8 @@ class ZigZagStrategy(Strategy):
         for polygon in boundaries:
             linked_polygon = LinkedPolygon(polygon[:])
             linked_polygons.append(linked_polygon)
-            for p1, p2 in pairwise(polygon):
+            # The polygon is closed by the segment from its last to its first point
+            for p1, p2 in pairwise(polygon + polygon[:1]):
                 for scanpoint in remaining_scanpoints[:]:
                     d, _ = dist_to_segment_squared(scanpoint, p1, p2)
                     # Todo pick a good number. Tests show values between 1.83e-19 and 1.38e-21
diff --git a/src/cq_cam/utils/linked_polygon.py b/src/cq_cam/utils/linked_polygon.py
index 42f2642..32553b7 100644
--- a/src/cq_cam/utils/linked_polygon.py
+++ b/src/cq_cam/utils/linked_polygon.py
@@ -19,7 +19,8 @@ class LinkedPolygon:
 
         i = self.polygon.index(segment_start)
         i_1 = i + 1
-        j = self.polygon.index(segment_end)
+        # The last segment ends at the first point
+        j = self.polygon.index(segment_end) or len(self.polygon)
 
         if i_1 == j:
             self.polygon.insert(i_1, point)
-- 
2.43.0


From 40b1ca2540c71c9ea4f0147ea29e2d7833d5ffc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:39 +0000
Subject: [PATCH 39/53] fix: boundaries that lie between two zigzag scanlines

---
 src/cq_cam/operations/strategy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cq_cam/operations/strategy.py b/src/cq_cam/operations/strategy.py
index 656eb87..2992f88 100644
--- a/src/cq_cam/operations/strategy.py
+++ b/src/cq_cam/operations/strategy.py
@@ -95,6 +95,9 @@ class ZigZagStrategy(Strategy):
             clipper.add_subject_polygon(scanline_template)
 
         scanlines = clipper.execute()
+        if not scanlines:
+            # The boundaries are so small that they lie between two scanlines
+            return []
 
         scanpoint_to_scanline, scanpoints = cls._scanline_end_map(scanlines)
 
-- 
2.43.0


From 9234c060d3d99e4f48392f89fb3910909199ede1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:39 +0000
Subject: [PATCH 40/53] fix: 3D surface operation accepts a positive stepdown
 like all others

---
 src/cq_cam/operations/op3d.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/cq_cam/operations/op3d.py b/src/cq_cam/operations/op3d.py
index 5b9b097..0630c90 100644
--- a/src/cq_cam/operations/op3d.py
+++ b/src/cq_cam/operations/op3d.py
@@ -113,12 +113,11 @@ class Surface3D(FaceBaseOperation):
 
             bottom_height = bb.zmin
             if self.stepdown:
+                stepdown = abs(self.stepdown)
                 depths = list(
-                    np.arange(
-                        self.top_height + self.stepdown, bottom_height, self.stepdown
-                    )
+                    np.arange(self.top_height - stepdown, bottom_height, -stepdown)
                 )
-                if depths[-1] != bottom_height:
+                if not depths or depths[-1] != bottom_height:
                     depths.append(bottom_height)
             else:
                 depths = [bottom_height]
-- 
2.43.0


From 2ba550a842477fb8edb398c4a80cfd66d7b7f073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:39 +0000
Subject: [PATCH 41/53] fix: circular boundaries were offset to the wrong side

---
 src/cq_cam/operations/base_operation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cq_cam/operations/base_operation.py b/src/cq_cam/operations/base_operation.py
index b8a7c36..6db93fd 100644
--- a/src/cq_cam/operations/base_operation.py
+++ b/src/cq_cam/operations/base_operation.py
@@ -8,6 +8,7 @@ from OCP.TopAbs import TopAbs_FACE
 from OCP.TopExp import TopExp_Explorer
 
 from cq_cam.command import MotionCommand
+from cq_cam.utils.geometry_op import offset_wire
 from cq_cam.utils.utils import flatten_list
 
 
@@ -185,12 +186,12 @@ class FaceBaseOperation(Operation, ABC):
             + self.inner_boundary_offset[1]
         )
 
-        outer_wires = boundary.outerWire().offset2D(outer_offset)
+        outer_wires = offset_wire(boundary.outerWire(), outer_offset)
         inner_wires = (
             []
             if inner_offset is None
             else flatten_list(
-                [inner.offset2D(inner_offset) for inner in boundary.innerWires()]
+                [offset_wire(inner, inner_offset) for inner in boundary.innerWires()]
             )
         )
 
-- 
2.43.0


From b6050078569564e1a352309caa4227a10222e04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:39 +0000
Subject: [PATCH 42/53] fix: vertical walls of 3D surfaces were machined as
 areas of their own

---
 src/cq_cam/operations/op3d.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/operations/op3d.py b/src/cq_cam/operations/op3d.py
index 0630c90..513b5a6 100644
--- a/src/cq_cam/operations/op3d.py
+++ b/src/cq_cam/operations/op3d.py
@@ -43,7 +43,12 @@ class Surface3D(FaceBaseOperation):
         compound = cq.Workplane().add(faces).combine().objects[0]
         bb = compound.BoundingBox()
 
-        projected_faces = [utils.project_face(face) for face in faces]
+        # The projections of vertical walls are no areas
+        projected_faces = [
+            projected_face
+            for projected_face in map(utils.project_face, faces)
+            if projected_face.Area() > 1e-6
+        ]
         combine_result = cq.Workplane().add(projected_faces).combine().objects[0]
         if isinstance(combine_result, cq.Compound):
             base_boundaries = self.break_compound_to_faces(combine_result)
-- 
2.43.0


From 23d51f26d70d7dec3183671f8e22c9ab6789c9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:14 +0000
Subject: [PATCH 43/53] fix: 3D surfacing failed where a scanline touches a
 boundary

---
 src/cq_cam/operations/strategy.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/operations/strategy.py b/src/cq_cam/operations/strategy.py
index 2992f88..81bd926 100644
--- a/src/cq_cam/operations/strategy.py
+++ b/src/cq_cam/operations/strategy.py
@@ -94,7 +94,7 @@ class ZigZagStrategy(Strategy):
         for scanline_template in scanline_templates:
             clipper.add_subject_polygon(scanline_template)
 
-        scanlines = clipper.execute()
+        scanlines = cls._join_scanlines(clipper.execute())
         if not scanlines:
             # The boundaries are so small that they lie between two scanlines
             return []
@@ -116,6 +116,24 @@ class ZigZagStrategy(Strategy):
         )
         return cut_sequences
 
+    @staticmethod
+    def _join_scanlines(scanlines: tuple[Scanline]) -> tuple[Scanline]:
+        """
+        Clipper breaks a scanline up where it touches a boundary. Join the parts,
+        so that each scanpoint is the end of one scanline only.
+        """
+        joined = []
+        for scanline in scanlines:
+            points = {scanline[0], scanline[-1]}
+            for other in joined[:]:
+                if not points.isdisjoint(other):
+                    joined.remove(other)
+                    points.update(other)
+            if points != set(scanline):
+                scanline = (min(points), max(points))
+            joined.append(scanline)
+        return tuple(joined)
+
     @staticmethod
     def _scanline_end_map(scanlines: list[Scanline]):
         scanline_end_map = {}
-- 
2.43.0


From af7107be12800ba38cce1c29b4cc105e9d9a3c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:55 +0000
Subject: [PATCH 44/53] fix: arcs of an outline were flattened against their
 direction

---
 src/cq_cam/utils/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cq_cam/utils/utils.py b/src/cq_cam/utils/utils.py
index c05f07a..39505fc 100644
--- a/src/cq_cam/utils/utils.py
+++ b/src/cq_cam/utils/utils.py
@@ -72,8 +72,11 @@ def drop_z(vector: cq.Vector) -> tuple[float, float]:
 
 
 def position_space(edge: cq.Edge, tolerance=0.1):
-    # TODO orientation check
-    return np.linspace(0, 1, math.ceil(edge.Length() / tolerance))
+    # Tiny edges have a start and an end as well
+    positions = np.linspace(0, 1, max(2, math.ceil(edge.Length() / tolerance)))
+    if edge.wrapped.Orientation() == TopAbs_REVERSED:
+        return positions[::-1]
+    return positions
 
 
 def flatten_edges(edges: list[cq.Edge]):
@@ -88,7 +91,6 @@ def flatten_edges(edges: list[cq.Edge]):
             # TODO tmp
         elif edge.geomType() in ["ARC", "CIRCLE", "OFFSET"]:
             # TODO handle full circles
-            # TODO make sure position_space ends up returning something (really tiny arcs?)
             positions = edge.positions(position_space(edge)[1:])
             vxs += positions
         else:
-- 
2.43.0


From 38997b34425e882a8bf8a7107c3652ebb5d3f644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:03 +0000
Subject: [PATCH 45/53] fix: 3D surfacing failed for round parts

The projection of a vertical cylinder is no area, but its edges were
taken for a face that the other projections cannot be combined with.
---
 src/cq_cam/operations/op3d.py |  4 +---
 src/cq_cam/utils/utils.py     | 16 +++++++++++++++-
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/cq_cam/operations/op3d.py b/src/cq_cam/operations/op3d.py
index 513b5a6..7730152 100644
--- a/src/cq_cam/operations/op3d.py
+++ b/src/cq_cam/operations/op3d.py
@@ -45,9 +45,7 @@ class Surface3D(FaceBaseOperation):
 
         # The projections of vertical walls are no areas
         projected_faces = [
-            projected_face
-            for projected_face in map(utils.project_face, faces)
-            if projected_face.Area() > 1e-6
+            utils.project_face(face) for face in faces if not utils.is_vertical(face)
         ]
         combine_result = cq.Workplane().add(projected_faces).combine().objects[0]
         if isinstance(combine_result, cq.Compound):
diff --git a/src/cq_cam/utils/utils.py b/src/cq_cam/utils/utils.py
index 39505fc..25f54d0 100644
--- a/src/cq_cam/utils/utils.py
+++ b/src/cq_cam/utils/utils.py
@@ -8,9 +8,10 @@ import pyclipper
 from cadquery import Edge, cq
 from cadquery.occ_impl.shapes import TOLERANCE
 from OCP.BRep import BRep_Tool
+from OCP.BRepGProp import BRepGProp_Face
 from OCP.BRepLib import BRepLib
 from OCP.BRepTools import BRepTools_WireExplorer
-from OCP.gp import gp_Ax2, gp_Dir, gp_Pnt
+from OCP.gp import gp_Ax2, gp_Dir, gp_Pnt, gp_Vec
 from OCP.HLRAlgo import HLRAlgo_Projector
 from OCP.HLRBRep import HLRBRep_Algo, HLRBRep_HLRToShape
 from OCP.TopAbs import TopAbs_EDGE, TopAbs_FACE, TopAbs_REVERSED, TopAbs_ShapeEnum
@@ -353,6 +354,19 @@ def project_face(face: cq.Face, projection_dir=(0, 0, 1)) -> cq.Face:
     return cq.Face.makeFromWires(wires[0], wires[1:])
 
 
+def is_vertical(face: cq.Face) -> bool:
+    """Is the face parallel to the Z axis everywhere?"""
+    surface = BRepGProp_Face(face.wrapped)
+    u_min, u_max, v_min, v_max = face._uvBounds()
+    point, normal = gp_Pnt(), gp_Vec()
+    for u in np.linspace(u_min, u_max, 5):
+        for v in np.linspace(v_min, v_max, 5):
+            surface.Normal(u, v, point, normal)
+            if abs(normal.Z()) > 1e-6 * normal.Magnitude():
+                return False
+    return True
+
+
 def extract_wires(
     shape: Union[cq.Workplane, cq.Shape, list[cq.Shape]]
 ) -> tuple[list[cq.Wire], list[cq.Wire]]:
-- 
2.43.0


From 630b22c320d363360be3776d8e8b3d3e79700c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:00 +0000
Subject: [PATCH 46/53] fix: pockets with a negative stepdown were cut at once

---
 src/cq_cam/operations/pocket.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cq_cam/operations/pocket.py b/src/cq_cam/operations/pocket.py
index 42789e2..0b6e549 100644
--- a/src/cq_cam/operations/pocket.py
+++ b/src/cq_cam/operations/pocket.py
@@ -56,6 +56,9 @@ def pocket(
     if stepover <= 0:
         raise ValueError("Pocket stepover must be greater than zero")
 
+    if stepdown is not None and stepdown < 0:
+        raise ValueError("Pocket stepdown must not be negative")
+
     # Transform to job plane
     op_areas = [face.transformShape(job.top.fG) for face in op_areas]
     avoid_areas = [face.transformShape(job.top.fG) for face in avoid_areas]
-- 
2.43.0


From 9c1384da884641a4dc9d8e4ef4411860fb5c0450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:54 +0000
Subject: [PATCH 47/53] fix: small areas between two scanlines were not
 machined in 3D

---
 src/cq_cam/operations/strategy.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/operations/strategy.py b/src/cq_cam/operations/strategy.py
index 81bd926..a57e801 100644
--- a/src/cq_cam/operations/strategy.py
+++ b/src/cq_cam/operations/strategy.py
@@ -77,6 +77,7 @@ class ZigZagStrategy(Strategy):
                 polygon = inner_boundary
             inner_polygons.append(polygon)
 
+        bounds = clipper.bounds()  # Y points down in these
         max_bounds = clipper.max_bounds()
 
         # Generate ZigZag scanlines
@@ -87,6 +88,10 @@ class ZigZagStrategy(Strategy):
                 task._tool_diameter * task.stepover,
             )
         )
+        if not any(bounds["top"] < y < bounds["bottom"] for y in y_scanpoints):
+            # The boundaries are so small that they lie between two scanlines
+            y_scanpoints = [(bounds["bottom"] + bounds["top"]) / 2]
+
         scanline_templates = [
             ((max_bounds["left"], y), (max_bounds["right"], y)) for y in y_scanpoints
         ]
@@ -96,7 +101,7 @@ class ZigZagStrategy(Strategy):
 
         scanlines = cls._join_scanlines(clipper.execute())
         if not scanlines:
-            # The boundaries are so small that they lie between two scanlines
+            # The boundaries are too small for a scanline
             return []
 
         scanpoint_to_scanline, scanpoints = cls._scanline_end_map(scanlines)
-- 
2.43.0


From 69389d54b104e0fad73c3b04b621ddad469d53ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:32 +0000
Subject: [PATCH 48/53] fix: a profile starts its rapids from the end of the
 previous outline

The moves to the second and later outlines of a profile were built as if the
tool came from the origin, and shown so in the viewer.
---
 src/cq_cam/fluent.py             | 3 +++
 src/cq_cam/operations/profile.py | 4 +++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/fluent.py b/src/cq_cam/fluent.py
index da382a9..6ad760a 100644
--- a/src/cq_cam/fluent.py
+++ b/src/cq_cam/fluent.py
@@ -181,6 +181,7 @@ class Job:
                     offset=inner_offset,
                     stepdown=stepdown,
                     tabs=tabs,
+                    previous_pos=commands[-1].end if commands else None,
                 )
 
         if outer_wires and outer_offset is not None:
@@ -191,6 +192,7 @@ class Job:
                     offset=outer_offset,
                     stepdown=stepdown,
                     tabs=tabs,
+                    previous_pos=commands[-1].end if commands else None,
                 )
 
         return self._add_operation("Profile", commands)
@@ -215,6 +217,7 @@ class Job:
                 offset=offset,
                 stepdown=stepdown,
                 tabs=tabs,
+                previous_pos=commands[-1].end if commands else None,
             )
         return self._add_operation("Wire Profile", commands)
 
diff --git a/src/cq_cam/operations/profile.py b/src/cq_cam/operations/profile.py
index de68c69..d20eefe 100644
--- a/src/cq_cam/operations/profile.py
+++ b/src/cq_cam/operations/profile.py
@@ -33,6 +33,7 @@ def profile(
     offset: float,
     stepdown: int | None = None,
     tabs: Tabs | None = None,
+    previous_pos: AddressVector | None = None,
 ):
     """
     A 2.5D profile operation
@@ -42,6 +43,7 @@ def profile(
     :param offset: Multiplier for tool radius
     :param stepdown:
     :param tabs:
+    :param previous_pos: Where the tool is before the operation, if known
     :return:
     """
     # Transform to relative coordinates
@@ -90,7 +92,7 @@ def profile(
 
         toolpaths += layers
 
-    commands = route_wires(job, toolpaths)
+    commands = route_wires(job, toolpaths, previous_pos=previous_pos)
     return commands
 
 
-- 
2.43.0


From d70b48a42c9d6b12bf76788373a868e1bab1c81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:21 +0000
Subject: [PATCH 49/53] fix: merge edge tabs that touch each other up to
 rounding

The stretch between two tabs which are as far apart as they are wide has a
length of nearly zero, which the kernel refuses to build an edge of.
---
 src/cq_cam/operations/tabs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/operations/tabs.py b/src/cq_cam/operations/tabs.py
index b605344..c5886e6 100644
--- a/src/cq_cam/operations/tabs.py
+++ b/src/cq_cam/operations/tabs.py
@@ -36,6 +36,9 @@ class NoTabs(Tabs):
 
 
 class EdgeTabs(Tabs):
+    # Anything smaller, as a fraction of the edge length, is numerical noise
+    MIN_D = 1e-6
+
     def __init__(self, *, spacing: float, width: float, height: float, only=None):
         super().__init__(width=width, height=height)
         if spacing <= width:
@@ -62,7 +65,7 @@ class EdgeTabs(Tabs):
             half_d = 1 / length * half
             for d in np.linspace(0, 1, count + 2, endpoint=True)[1:-1]:
                 start_d = d - half_d
-                if edge_ds and start_d <= edge_ds[-1][1]:
+                if edge_ds and start_d <= edge_ds[-1][1] + self.MIN_D:
                     # The tabs overlap, merge them
                     start_d, _ = edge_ds.pop()
                 edge_ds.append((start_d, d + half_d))
-- 
2.43.0


From 343cc11120f1d1894e2ed0a44f1ba7ad630ed4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:05 +0000
Subject: [PATCH 50/53] fix: retry an offset that results in a broken outline

wire.offset2D does not only raise at unlucky offsets, it may also return a
wire that is no outline, which was then silently left out.
---
 src/cq_cam/utils/geometry_op.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index bc7b77f..8eacaa6 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -78,7 +78,10 @@ def calculate_offset(tool_radius: float, offset: OffsetInput | None, default=Non
 
 
 def offset_wire(
-    wire: cq.Wire, offset, kind: Literal["arc", "intersection", "tangent"] = "arc"
+    wire: cq.Wire,
+    offset,
+    kind: Literal["arc", "intersection", "tangent"] = "arc",
+    retry=True,
 ) -> list[cq.Wire]:
     wire = clean_circle(wire)
     try:
@@ -101,6 +104,9 @@ def offset_wire(
             if face.Area() > 1e-6:
                 validated_wires.append(offset_wire_)
         except StdFail_NotDone:
+            if retry:
+                # The same bug can also result in a broken wire
+                return offset_wire(wire, offset + 0.000001, kind, retry=False)
             logger.warning("Failed to offset wire")
         except:
             logger.error("NOT PLANAR!")
-- 
2.43.0


From dae22dba5089ee97092ea468b17ebc0fff3910e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:55 +0000
Subject: [PATCH 51/53] fix: 3D surfacing starts its rapids from the end of the
 previous area

The moves to the second and later areas were built as if the tool came from
the origin, and shown so in the viewer.
---
 src/cq_cam/operations/op3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cq_cam/operations/op3d.py b/src/cq_cam/operations/op3d.py
index 7730152..2ed4c9d 100644
--- a/src/cq_cam/operations/op3d.py
+++ b/src/cq_cam/operations/op3d.py
@@ -57,6 +57,7 @@ class Surface3D(FaceBaseOperation):
             [self.offset_boundary(boundary) for boundary in base_boundaries]
         )
 
+        previous_pos = AddressVector()
         for op_boundary in op_boundaries:
             outer_boundary = op_boundary.outerWire()
             inner_boundaries = op_boundary.innerWires()  # TODO is this needed?
@@ -125,7 +126,6 @@ class Surface3D(FaceBaseOperation):
             else:
                 depths = [bottom_height]
 
-            previous_pos = AddressVector()
             for i, depth in enumerate(depths):
                 # We want to include i-2 - otherwise we get gaps between depths
                 last_last_depth = depths[i - 2] if i > 1 else 0
-- 
2.43.0


From 8dece7e363e184e922cd47079356ffcde2ce5b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:08 +0000
Subject: [PATCH 52/53] fix: 3D surfacing the same faces again gives the same
 program

Meshing the faces adds noise to their bounding box, which added a pass to the
second program of the same faces.
---
 src/cq_cam/operations/op3d.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cq_cam/operations/op3d.py b/src/cq_cam/operations/op3d.py
index 2ed4c9d..dff9223 100644
--- a/src/cq_cam/operations/op3d.py
+++ b/src/cq_cam/operations/op3d.py
@@ -41,7 +41,8 @@ class Surface3D(FaceBaseOperation):
         super().__post_init__()
         faces = self.transform_shapes_to_global(self._faces)
         compound = cq.Workplane().add(faces).combine().objects[0]
-        bb = compound.BoundingBox()
+        # The bounding box gets some numerical noise once the faces are meshed
+        zmin = round(compound.BoundingBox().zmin, 6)
 
         # The projections of vertical walls are no areas
         projected_faces = [
@@ -88,7 +89,7 @@ class Surface3D(FaceBaseOperation):
             cl_points = []
             for cut_sequence in interpolated_cut_sequences:
                 for point in cut_sequence:
-                    cl_point = ocl.CLPoint(point[0], point[1], bb.zmin)
+                    cl_point = ocl.CLPoint(point[0], point[1], zmin)
                     cl_points.append(cl_point)
 
             triangles = self.shape_to_triangles(compound)
@@ -115,7 +116,7 @@ class Surface3D(FaceBaseOperation):
                     cut_sequence[j] = (*point, result_points[i][2])
                     i += 1
 
-            bottom_height = bb.zmin
+            bottom_height = zmin
             if self.stepdown:
                 stepdown = abs(self.stepdown)
                 depths = list(
-- 
2.43.0


From 54dc32ffbbcea870ea155ed68bc71172256d6844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:48 +0000
Subject: [PATCH 53/53] fix: shapes that have been shown are planned the same

---
 src/cq_cam/operations/op3d.py      |  2 +-
 src/cq_cam/operations/pocket_cq.py |  4 ++--
 src/cq_cam/operations/profile.py   |  9 +++++----
 src/cq_cam/utils/geometry_op.py    |  3 ++-
 src/cq_cam/utils/utils.py          | 11 ++++++++++-
 5 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/cq_cam/operations/op3d.py b/src/cq_cam/operations/op3d.py
index dff9223..fbfd22c 100644
--- a/src/cq_cam/operations/op3d.py
+++ b/src/cq_cam/operations/op3d.py
@@ -42,7 +42,7 @@ class Surface3D(FaceBaseOperation):
         faces = self.transform_shapes_to_global(self._faces)
         compound = cq.Workplane().add(faces).combine().objects[0]
         # The bounding box gets some numerical noise once the faces are meshed
-        zmin = round(compound.BoundingBox().zmin, 6)
+        zmin = round(utils.bounding_box(compound).zmin, 6)
 
         # The projections of vertical walls are no areas
         projected_faces = [
diff --git a/src/cq_cam/operations/pocket_cq.py b/src/cq_cam/operations/pocket_cq.py
index 85f0f14..c6bce8a 100644
--- a/src/cq_cam/operations/pocket_cq.py
+++ b/src/cq_cam/operations/pocket_cq.py
@@ -11,7 +11,7 @@ from cq_cam.address import AddressVector
 from cq_cam.routers import route_wires
 from cq_cam.utils.geometry_op import offset_face, offset_wire
 from cq_cam.utils.tree import Tree
-from cq_cam.utils.utils import break_compound_to_faces
+from cq_cam.utils.utils import bounding_box, break_compound_to_faces
 
 logger = logging.getLogger(__name__)
 
@@ -24,7 +24,7 @@ def generate_depth_map(faces: list[cq.Face]):
 
     for face in faces:
         # Depths are compared with each other, so get rid of the numerical noise
-        depth = round(face.BoundingBox().zmax, 6)
+        depth = round(bounding_box(face).zmax, 6)
         if depth > 0:
             raise ValueError("Face is above job plane")
 
diff --git a/src/cq_cam/operations/profile.py b/src/cq_cam/operations/profile.py
index d20eefe..ab38d37 100644
--- a/src/cq_cam/operations/profile.py
+++ b/src/cq_cam/operations/profile.py
@@ -13,6 +13,7 @@ from cq_cam.operations.tabs import Tabs, Transition
 from cq_cam.routers import route_wires
 from cq_cam.utils.geometry_op import offset_wire
 from cq_cam.utils.utils import (
+    bounding_box,
     compound_to_edges,
     edge_end_point,
     edge_oriented_param,
@@ -49,7 +50,7 @@ def profile(
     # Transform to relative coordinates
     wire = wire.transformShape(job.top.fG)
 
-    bbox = wire.BoundingBox()
+    bbox = bounding_box(wire)
     if bbox.zmax - bbox.zmin > 0.001:
         raise ValueError("Profile supports only flat wires parallel to the job plane")
 
@@ -60,7 +61,7 @@ def profile(
 
     toolpaths = []
     for base_feature in base_features:
-        base_zmin = base_feature.BoundingBox().zmin
+        base_zmin = bounding_box(base_feature).zmin
         tab_z = base_zmin + tabs.height if tabs else None
         layers: list[cq.Wire] = [base_feature]
         if stepdown:
@@ -71,7 +72,7 @@ def profile(
                     raise RuntimeError("Profile max_stepdown_count exceeded")
 
                 i_op: cq.Wire = base_feature.moved(cq.Location(step * (i + 1)))
-                bb = i_op.BoundingBox()
+                bb = bounding_box(i_op)
                 # TODO arbitrary precision..
                 if bb.zmin >= -0.001:
                     break
@@ -116,7 +117,7 @@ def apply_tabs(wire: cq.Wire, tab_z: float, tabs: Tabs):
         return wire
 
     # The bounding box may include the tolerance of the shape
-    if wire.BoundingBox().zmin >= tab_z - 1e-6:
+    if bounding_box(wire).zmin >= tab_z - 1e-6:
         return wire
 
     tab_plane = cq.Plane((0, 0, tab_z))
diff --git a/src/cq_cam/utils/geometry_op.py b/src/cq_cam/utils/geometry_op.py
index 8eacaa6..4bcd535 100644
--- a/src/cq_cam/utils/geometry_op.py
+++ b/src/cq_cam/utils/geometry_op.py
@@ -17,6 +17,7 @@ from cq_cam.utils.circle_bug_workaround import (
 )
 from cq_cam.utils.interpolation import vectors_to_2d_tuples, wire_to_vectors
 from cq_cam.utils.utils import (
+    bounding_box,
     break_compound_to_faces,
     dist_to_segment_squared,
     flatten_list,
@@ -46,7 +47,7 @@ class PathFace:
 
     @classmethod
     def from_cq_face(cls, cq_face: cq.Face, precision: int):
-        bbox = cq_face.BoundingBox()
+        bbox = bounding_box(cq_face)
         if bbox.zmax - bbox.zmin > 0.001:
             raise ValueError("PolyFace supports only flat faces")
 
diff --git a/src/cq_cam/utils/utils.py b/src/cq_cam/utils/utils.py
index 25f54d0..dbc9f3e 100644
--- a/src/cq_cam/utils/utils.py
+++ b/src/cq_cam/utils/utils.py
@@ -5,9 +5,11 @@ from typing import Iterable, T, Union
 
 import numpy as np
 import pyclipper
-from cadquery import Edge, cq
+from cadquery import BoundBox, Edge, cq
 from cadquery.occ_impl.shapes import TOLERANCE
+from OCP.Bnd import Bnd_Box
 from OCP.BRep import BRep_Tool
+from OCP.BRepBndLib import BRepBndLib
 from OCP.BRepGProp import BRepGProp_Face
 from OCP.BRepLib import BRepLib
 from OCP.BRepTools import BRepTools_WireExplorer
@@ -19,6 +21,13 @@ from OCP.TopExp import TopExp_Explorer
 from OCP.TopoDS import TopoDS, TopoDS_Shape
 
 
+def bounding_box(shape: cq.Shape) -> BoundBox:
+    """Shape.BoundingBox gets inexact once the shape is meshed (i.e. shown or exported)"""
+    bbox = Bnd_Box()
+    BRepBndLib.AddOptimal_s(shape.wrapped, bbox, False)
+    return BoundBox(bbox)
+
+
 def edge_end_point(edge: cq.Edge, precision=3) -> cq.Vector:
     # https://github.com/CadQuery/cadquery/issues/831
     orientation = edge.wrapped.Orientation()
-- 
2.43.0

