From cba5efbbae94ccd4e27ca910961e167df4490eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:53 +0000
Subject: [PATCH 01/69] fix: apply theta_method to the arcs of SectorRectangle

---
 pvgridder/core/geometric_objects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvgridder/core/geometric_objects.py b/pvgridder/core/geometric_objects.py
index 417b7ef..779798d 100644
--- a/pvgridder/core/geometric_objects.py
+++ b/pvgridder/core/geometric_objects.py
@@ -1000,8 +1000,8 @@ def SectorRectangle(
     line_y = generate_line_from_two_points(
         [dx, dy], [dx, 0.0], theta_resolution, theta_method
     )
-    line_45 = generate_arc(radius, 45.0, 0.0, theta_resolution)
-    line_90 = generate_arc(radius, 45.0, 90.0, theta_resolution)
+    line_45 = generate_arc(radius, 45.0, 0.0, theta_resolution, theta_method)
+    line_90 = generate_arc(radius, 45.0, 90.0, theta_resolution, theta_method)
     mesh_y45 = StructuredSurface(line_45, line_y, "xy", r_resolution, r_method)
     mesh_x90 = StructuredSurface(line_90, line_x, "xy", r_resolution, r_method)
     mesh = mesh_y45.cast_to_unstructured_grid() + mesh_x90.cast_to_unstructured_grid()
-- 
2.43.0


From f11e674423b79f47e3b60209f238416f8b3ae9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:53 +0000
Subject: [PATCH 02/69] fix: reject non-positive radius in RectangleSector

---
 pvgridder/core/geometric_objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/core/geometric_objects.py b/pvgridder/core/geometric_objects.py
index 779798d..12cbfcb 100644
--- a/pvgridder/core/geometric_objects.py
+++ b/pvgridder/core/geometric_objects.py
@@ -834,7 +834,7 @@ def RectangleSector(
         Rectangle mesh with sector removed at the center.
 
     """
-    if 0.0 < radius < (dx**2 + dy**2) ** 0.5:
+    if radius < (dx**2 + dy**2) ** 0.5:
         raise ValueError("invalid sector radius")
 
     line_x = generate_line_from_two_points([dx, dy], [0.0, dy], x_resolution, x_method)
-- 
2.43.0


From eed9cdfd4abfeb2f040570a00742cccedfa39ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:53 +0000
Subject: [PATCH 03/69] fix: do not reverse the polygons of the input surface
 in place when extruding

---
 pvgridder/core/_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/core/_helpers.py b/pvgridder/core/_helpers.py
index 09cdff9..e22d041 100644
--- a/pvgridder/core/_helpers.py
+++ b/pvgridder/core/_helpers.py
@@ -380,7 +380,7 @@ def generate_volume_from_two_surfaces(
         for ic, (i1, i2, celltype) in enumerate(
             zip(offset[:-1], offset[1:], celltypes)
         ):
-            cell = cell_connectivity[i1:i2]
+            cell = cell_connectivity[i1:i2].copy()
 
             # Handle pixel/voxel (convert to quad/hexahedron)
             if celltype == pv.CellType.VOXEL:
-- 
2.43.0


From 40deb61b6dba68609d5aacea8508e23a33c84fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:44 +0000
Subject: [PATCH 04/69] fix: repeat line data along the right axis for
 transposed surface planes

---
 pvgridder/core/_helpers.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pvgridder/core/_helpers.py b/pvgridder/core/_helpers.py
index e22d041..1f5907b 100644
--- a/pvgridder/core/_helpers.py
+++ b/pvgridder/core/_helpers.py
@@ -210,13 +210,20 @@ def generate_surface_from_two_lines(
     mesh = pv.StructuredGrid(X, Y, Z)
 
     if isinstance(line_a, pv.PolyData):
-        reps = (perc.size, 1)
+        # Points are ordered along the line first, unless the plane is transposed
+        def repeat(v: NDArray, n: int) -> NDArray:
+            """Repeat line data."""
+            return (
+                np.repeat(v, n, axis=0)
+                if plane in {"yx", "zx", "zy"}
+                else np.tile(v, (n, 1)[: v.ndim])
+            )
+
         for k, v in line_a.point_data.items():
-            mesh.point_data[k] = np.tile(v, reps[: v.ndim]).copy()
+            mesh.point_data[k] = repeat(v, perc.size).copy()
 
-        reps = (perc.size - 1, 1)
         for k, v in line_a.cell_data.items():
-            mesh.cell_data[k] = np.tile(v, reps[: v.ndim]).copy()
+            mesh.cell_data[k] = repeat(v, perc.size - 1).copy()
 
     # Handle collapsed cells
     if "vtkGhostType" not in mesh.cell_data:
-- 
2.43.0


From 644c5d90aa318640575dd62dfe5d5d40d10c7610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:14 +0000
Subject: [PATCH 05/69] fix: number columns and layers along the actual
 stacking or extrusion axis

---
 pvgridder/core/_base.py   | 28 +++++++++++++++++++---------
 pvgridder/core/extrude.py | 10 ++++------
 2 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/pvgridder/core/_base.py b/pvgridder/core/_base.py
index e2263ee..ec6a493 100644
--- a/pvgridder/core/_base.py
+++ b/pvgridder/core/_base.py
@@ -229,6 +229,17 @@ class MeshBase(ABC):
 
         return mesh
 
+    @staticmethod
+    def _get_layer_ids(columns: ArrayLike, n_layers: int) -> NDArray:
+        """Get layer ids (i.e., rank of each cell in its column)."""
+        columns = np.asarray(columns)
+        layers = np.empty(columns.size, dtype=int)
+        layers[np.argsort(columns, kind="stable")] = np.tile(
+            np.arange(n_layers), columns.size // n_layers
+        )
+
+        return layers
+
     @staticmethod
     def _get_group_number(group: str, groups: dict) -> int:
         """Get group number."""
@@ -484,19 +495,18 @@ class MeshStackBase(MeshBase):
 
             if item2.transition:
                 mesh_b = self._transition(mesh_a, item2.mesh, groups, item2.group)
-                nsub, repeats = 1, mesh_b.n_cells
+                nsub = 1
                 mesh_b.cell_data["ColumnId"] = np.full(mesh_b.n_cells, -1)
+                mesh_b.cell_data["LayerId"] = np.full(mesh_b.n_cells, n_layers)
 
             else:
+                mesh_a.cell_data["ColumnId"] = np.arange(mesh_a.n_cells)
                 mesh_b = extrude(mesh_a, item2.mesh, item2.resolution, item2.method)
-                nsub, repeats = mesh_b.n_cells // mesh_a.n_cells, mesh_a.n_cells
-                mesh_b.cell_data["ColumnId"] = np.tile(
-                    np.arange(mesh_a.n_cells), nsub
-                ).copy()
-
-            mesh_b.cell_data["LayerId"] = np.repeat(
-                np.arange(nsub) + n_layers, repeats
-            ).copy()
+                nsub = mesh_b.n_cells // mesh_a.n_cells
+                mesh_b.cell_data["LayerId"] = n_layers + self._get_layer_ids(
+                    mesh_b.cell_data["ColumnId"], nsub
+                )
+
             mesh_b.cell_data["StackItem"] = np.full(mesh_b.n_cells, i)
             meshes.append(mesh_b)
             n_layers += nsub
diff --git a/pvgridder/core/extrude.py b/pvgridder/core/extrude.py
index b95a752..579a805 100644
--- a/pvgridder/core/extrude.py
+++ b/pvgridder/core/extrude.py
@@ -175,17 +175,15 @@ class MeshExtrude(MeshBase):
                 mesh_a, groups, item2.group
             )
 
+            mesh_a.cell_data["ColumnId"] = np.arange(mesh_a.n_cells)
             mesh_b = generate_volume_from_two_surfaces(
                 mesh_a, item2.mesh, item2.resolution, item2.method
             )
 
             nsub = mesh_b.n_cells // mesh_a.n_cells
-            mesh_b.cell_data["ColumnId"] = np.tile(
-                np.arange(mesh_a.n_cells), nsub
-            ).copy()
-            mesh_b.cell_data["LayerId"] = np.repeat(
-                np.arange(nsub) + n_layers, mesh_a.n_cells
-            ).copy()
+            mesh_b.cell_data["LayerId"] = n_layers + self._get_layer_ids(
+                mesh_b.cell_data["ColumnId"], nsub
+            )
             mesh_b.cell_data["ExtrudeItem"] = np.full(mesh_b.n_cells, i)
             meshes.append(mesh_b)
             n_layers += nsub
-- 
2.43.0


From 60e8ffa636b6b2f32e2796db6d929e92280979b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:15 +0000
Subject: [PATCH 06/69] fix: do not overwrite the cell groups of the items when
 merging meshes

---
 pvgridder/core/merge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/core/merge.py b/pvgridder/core/merge.py
index 7a55487..aed03dd 100644
--- a/pvgridder/core/merge.py
+++ b/pvgridder/core/merge.py
@@ -92,7 +92,7 @@ class MeshMerge(MeshBase):
         groups = {}
 
         for i, item in enumerate(self.items):
-            mesh_b = cast(pv.UnstructuredGrid, item.mesh)
+            mesh_b = cast(pv.UnstructuredGrid, item.mesh.copy())
             mesh_b.cell_data["CellGroup"] = self._initialize_group_array(
                 mesh_b, groups, default_group=item.group
             )
-- 
2.43.0


From 9bfadb4089cc4fab94dad18f9a8dfc024b78cbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:22 +0000
Subject: [PATCH 07/69] fix: orient polyhedron faces from the whole base
 polygon instead of its first corner

---
 pvgridder/core/_helpers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pvgridder/core/_helpers.py b/pvgridder/core/_helpers.py
index 1f5907b..3ac322c 100644
--- a/pvgridder/core/_helpers.py
+++ b/pvgridder/core/_helpers.py
@@ -403,10 +403,12 @@ def generate_volume_from_two_surfaces(
                 if invert_polyhedron_faces:
                     # Polyhedron faces must be ordered such that normal vectors point outwards
                     # Determine whether base face needs to be reversed
-                    p0, p1, p2 = points[faces[0][:3]]
-                    p3 = points[faces[1][0]]
+                    base, top = points[faces[0]], points[faces[1]]
+                    normal = np.cross(
+                        base - base[0], np.roll(base, -1, axis=0) - base[0]
+                    ).sum(axis=0)
 
-                    if np.cross(p1 - p0, p2 - p0) @ (p3 - p0) >= 0.0:
+                    if normal @ (top - base).mean(axis=0) >= 0.0:
                         faces[0][:] = faces[0][::-1]
                         faces[1][:] = faces[1][::-1]
 
-- 
2.43.0


From e66812c5f0024f420c292ede4cc93ea5421b0c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:22 +0000
Subject: [PATCH 08/69] fix: do not modify the items of a stack when generating
 its mesh

---
 pvgridder/core/_base.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pvgridder/core/_base.py b/pvgridder/core/_base.py
index ec6a493..a56c30e 100644
--- a/pvgridder/core/_base.py
+++ b/pvgridder/core/_base.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 from abc import ABC, abstractmethod
+from copy import copy
 from typing import TYPE_CHECKING, Union, cast
 
 import numpy as np
@@ -456,7 +457,13 @@ class MeshStackBase(MeshBase):
         groups = {}
 
         # Cut intersecting meshes w.r.t. priority
-        for item1, item2 in zip(self.items[:-1], self.items[1:]):
+        # Work on copies such that items are left unchanged
+        items = [copy(item) for item in self.items]
+
+        for item in items:
+            item._mesh = item.mesh.copy()
+
+        for item1, item2 in zip(items[:-1], items[1:]):
             if item2.transition:
                 continue
 
@@ -487,7 +494,7 @@ class MeshStackBase(MeshBase):
         meshes = []
         n_layers = 0
 
-        for i, (item1, item2) in enumerate(zip(self.items[:-1], self.items[1:])):
+        for i, (item1, item2) in enumerate(zip(items[:-1], items[1:])):
             mesh_a = item1.mesh.copy()
             mesh_a.cell_data["CellGroup"] = self._initialize_group_array(
                 mesh_a, groups, item2.group
-- 
2.43.0


From 7c5bf94f82ecb4e4d7183af43c730cdfd677d099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:22 +0000
Subject: [PATCH 09/69] fix: do not modify the angles passed to
 MeshStack3D.add_plane

---
 pvgridder/core/stack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/core/stack.py b/pvgridder/core/stack.py
index e5d1d9f..34098b7 100644
--- a/pvgridder/core/stack.py
+++ b/pvgridder/core/stack.py
@@ -207,7 +207,7 @@ class MeshStack3D(MeshStackBase):
         """
         from scipy.spatial.transform import Rotation
 
-        angles = np.asanyarray(angles)
+        angles = np.array(angles, dtype=float)
         point = np.asanyarray(point)
 
         angles[self.axis] = 0.0
-- 
2.43.0


From e947bc4b9e29df91446123b610691e2aa15f56c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:40 +0000
Subject: [PATCH 10/69] fix: select base mesh groups by name instead of by
 unrelated group numbers

---
 pvgridder/core/_base.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pvgridder/core/_base.py b/pvgridder/core/_base.py
index a56c30e..5c99f88 100644
--- a/pvgridder/core/_base.py
+++ b/pvgridder/core/_base.py
@@ -152,15 +152,17 @@ class MeshBase(ABC):
             if isinstance(group, str):
                 group = {group: np.ones(size, dtype=bool)}
 
+            base = arr.copy()  # groups of the base mesh, as numbered in groups
+
             for k, v in group.items():
                 if hasattr(v, "__call__"):
                     mask = v(mesh)
 
                 elif isinstance(v, str):
                     mask = (
-                        mesh.cell_data["CellGroup"] != groups[v[1:]]
+                        base != groups[v[1:]]
                         if v.startswith("~")
-                        else mesh.cell_data["CellGroup"] == groups[v]
+                        else base == groups[v]
                     )
 
                 elif isinstance(v, (list, tuple, np.ndarray)) and all(
@@ -170,9 +172,9 @@ class MeshBase(ABC):
 
                     for cid in v:
                         mask |= (
-                            mesh.cell_data["CellGroup"] != groups[cid[1:]]
+                            base != groups[cid[1:]]
                             if cid.startswith("~")
-                            else mesh.cell_data["CellGroup"] == groups[cid]
+                            else base == groups[cid]
                         )
 
                 else:
-- 
2.43.0


From 5bc1ddfa0d17e438b8da58c3f768571d3fc7cda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:40 +0000
Subject: [PATCH 11/69] fix: accept cell indices returned by a callable for an
 inverted group

---
 pvgridder/core/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvgridder/core/_base.py b/pvgridder/core/_base.py
index 5c99f88..03b7cf0 100644
--- a/pvgridder/core/_base.py
+++ b/pvgridder/core/_base.py
@@ -156,9 +156,9 @@ class MeshBase(ABC):
 
             for k, v in group.items():
                 if hasattr(v, "__call__"):
-                    mask = v(mesh)
+                    v = v(mesh)
 
-                elif isinstance(v, str):
+                if isinstance(v, str):
                     mask = (
                         base != groups[v[1:]]
                         if v.startswith("~")
-- 
2.43.0


From e7cbfa67c672a726eb54c3cae09db2b487288e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:42 +0000
Subject: [PATCH 12/69] fix: compute the orientation of Voronoi cells from
 their closed polygon

---
 pvgridder/core/voronoi.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index ff031ec..480b9ec 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -474,7 +474,7 @@ class VoronoiMesh2D(MeshBase):
             cells += [len(points_), *(np.arange(len(points_)) + n_points)]
 
             # Ensure correct orientation
-            signed_area = self._compute_signed_area(points_[:3])
+            signed_area = self._compute_signed_area(points_)
 
             if (orientation == "CCW" and signed_area < 0.0) or (
                 orientation == "CW" and signed_area > 0.0
@@ -511,6 +511,8 @@ class VoronoiMesh2D(MeshBase):
         """Compute signed area of a polygon given its vertices."""
         x, y = points.T
 
+        x, y = x - x[0], y - y[0]
+
         return 0.5 * np.sum(x[:-1] * y[1:] - x[1:] * y[:-1])
 
     def _generate_voronoi_tesselation(
-- 
2.43.0


From 3b0be704b55d0945005b3183dd507202a04400a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:42 +0000
Subject: [PATCH 13/69] fix: discard Voronoi items that lie completely out of
 the background mesh

---
 pvgridder/core/voronoi.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index 480b9ec..404cd04 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -386,9 +386,11 @@ class VoronoiMesh2D(MeshBase):
             mask = self.mesh.find_containing_cell(get_cell_centers(mesh_a)) != -1
             mask = cast(NDArray, mask)
 
-            if mask.any():
-                mesh_a = extract_cells(mesh_a, mask)
-                points_ = points_[mask]
+            if not mask.any():
+                continue
+
+            mesh_a = extract_cells(mesh_a, mask)
+            points_ = points_[mask]
 
             # Initialize item arrays
             item_group_array = self._initialize_group_array(mesh_a, groups, item.group)
-- 
2.43.0


From c89a6d3b7ddc01d428af6bfb02bca5426a51b073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:44 +0000
Subject: [PATCH 14/69] fix: flatten uniform and rectilinear grids in
 VoronoiMesh2D

---
 pvgridder/core/voronoi.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index 404cd04..090868e 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -53,7 +53,7 @@ class VoronoiMesh2D(MeshBase):
     ) -> None:
         """Initialize a 2D Voronoi mesh."""
         super().__init__(default_group, ignore_groups)
-        self._mesh = mesh.copy()
+        self._mesh = self._to_explicit_grid(mesh)
         self._axis = axis
         self._preference = preference
         self._fuse_cells = []
@@ -89,7 +89,7 @@ class VoronoiMesh2D(MeshBase):
             mesh = pv.PolyData(mesh_or_points)
 
         else:
-            mesh = mesh_or_points.copy()
+            mesh = self._to_explicit_grid(mesh_or_points)
             mesh = cast(
                 Union[pv.PolyData, pv.StructuredGrid, pv.UnstructuredGrid], mesh
             )
@@ -508,6 +508,14 @@ class VoronoiMesh2D(MeshBase):
 
         return cast(pv.UnstructuredGrid, self._clean(mesh, tolerance))
 
+    @staticmethod
+    def _to_explicit_grid(mesh: pv.DataSet) -> pv.DataSet:
+        """Copy a mesh such that the coordinates of its points can be modified."""
+        if isinstance(mesh, (pv.ImageData, pv.RectilinearGrid)):
+            return mesh.cast_to_structured_grid()
+
+        return mesh.copy()
+
     @staticmethod
     def _compute_signed_area(points: NDArray) -> float:
         """Compute signed area of a polygon given its vertices."""
-- 
2.43.0


From 2a83f507312dd68d3fa84923c379258b438c9c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:12 +0000
Subject: [PATCH 15/69] fix: flag collapsed cells of structured volumes between
 surfaces that are not plane

---
 pvgridder/core/_helpers.py | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/pvgridder/core/_helpers.py b/pvgridder/core/_helpers.py
index 3ac322c..c45339b 100644
--- a/pvgridder/core/_helpers.py
+++ b/pvgridder/core/_helpers.py
@@ -349,6 +349,13 @@ def generate_volume_from_two_surfaces(
         ).cell_data["Volume"]
         inactive = np.abs(volumes) == 0.0
 
+        # Volume of collapsed cells is not exactly zero if surface is not plane
+        mask = are_coincident(surface_a.points, surface_b.points)
+        mask = mask.reshape(surface_a.dimensions, order="F").squeeze(axis)
+        mask = mask[:-1, :-1] & mask[1:, :-1] & mask[:-1, 1:] & mask[1:, 1:]
+        mask = np.expand_dims(mask, axis)
+        inactive |= np.repeat(mask, perc.size - 1, axis).ravel(order="F")
+
         # Repeat data
         shape = surface_a.dimensions
         for k, v in surface_a.point_data.items():
@@ -518,6 +525,31 @@ def resolution_to_perc(
     return np.sort(perc)
 
 
+def are_coincident(points_a: ArrayLike, points_b: ArrayLike) -> NDArray:
+    """
+    Determine whether points of two arrays coincide (up to rounding errors).
+
+    Parameters
+    ----------
+    points_a : ArrayLike
+        Coordinates of first points.
+    points_b : ArrayLike
+        Coordinates of second points.
+
+    Returns
+    -------
+    ArrayLike
+        Mask of coincident points.
+
+    """
+    points_a = np.asarray(points_a)
+    points_b = np.asarray(points_b)
+    eps = max(np.finfo(x.dtype).eps for x in (points_a, points_b))
+    scale = max(np.abs(x).max(initial=0.0) for x in (points_a, points_b))
+
+    return (np.abs(points_b - points_a) <= max(1.0e-8, 4.0 * eps * scale)).all(axis=-1)
+
+
 def repeat_structured_data(
     shape: ArrayLike, data: ArrayLike, repeats: int, axis: int
 ) -> NDArray:
-- 
2.43.0


From ceab91da57784c9ffb4943072fb09a9a50357537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:25 +0000
Subject: [PATCH 16/69] fix: do not flag thin cells far from the origin as
 collapsed

---
 pvgridder/core/_helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvgridder/core/_helpers.py b/pvgridder/core/_helpers.py
index c45339b..4651752 100644
--- a/pvgridder/core/_helpers.py
+++ b/pvgridder/core/_helpers.py
@@ -390,6 +390,7 @@ def generate_volume_from_two_surfaces(
         cell_connectivity = surface_a.cell_connectivity
         cells = [[] for _ in range(n)]
         inactive = [[] for _ in range(n)]
+        coincident = are_coincident(points_a, points_b)
 
         for ic, (i1, i2, celltype) in enumerate(
             zip(offset[:-1], offset[1:], celltypes)
@@ -404,7 +405,7 @@ def generate_volume_from_two_surfaces(
             faces = [cell, cell + n_points]
 
             # Handle collapsed cells
-            is_collapsed = np.allclose(*points[faces])
+            is_collapsed = coincident[cell].all()
 
             if celltype == pv.CellType.POLYHEDRON:
                 if invert_polyhedron_faces:
-- 
2.43.0


From e53219428ae774717124848108a51b01518904c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:04 +0000
Subject: [PATCH 17/69] fix: keep the shape of vector data of single-cell
 structured surfaces

---
 pvgridder/core/_helpers.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/pvgridder/core/_helpers.py b/pvgridder/core/_helpers.py
index 4651752..cbb8bcf 100644
--- a/pvgridder/core/_helpers.py
+++ b/pvgridder/core/_helpers.py
@@ -574,19 +574,18 @@ def repeat_structured_data(
         Data array with repeated values.
 
     """
-    data = np.asanyarray(data)
-    data = data if data.ndim == 2 else data[:, np.newaxis]
-
-    return np.column_stack(
-        [
-            np.repeat(
-                v.reshape(shape, order="F"),
-                repeats,
-                axis,
-            ).ravel(order="F")
-            for v in data.T
-        ]
-    ).squeeze()
+    data = np.asarray(data)
+    columns = data.T if data.ndim == 2 else [data]
+    columns = [
+        np.repeat(
+            v.reshape(shape, order="F"),
+            repeats,
+            axis,
+        ).ravel(order="F")
+        for v in columns
+    ]
+
+    return np.column_stack(columns) if data.ndim == 2 else columns[0]
 
 
 def translate(
-- 
2.43.0


From 30926db2000bbb2fa91e9972d4cb23c358fd5634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:30 +0000
Subject: [PATCH 18/69] fix: cut intersecting items in the right direction when
 stacking from top to bottom

---
 pvgridder/core/_base.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pvgridder/core/_base.py b/pvgridder/core/_base.py
index 03b7cf0..bcb9694 100644
--- a/pvgridder/core/_base.py
+++ b/pvgridder/core/_base.py
@@ -469,26 +469,27 @@ class MeshStackBase(MeshBase):
             if item2.transition:
                 continue
 
+            sign = 1.0 if self.bottom_up else -1.0
             shift = (
-                item2.mesh.points[:, self.axis]
-                - item1.mesh.points[:, self.axis]
+                sign
+                * (
+                    item2.mesh.points[:, self.axis]
+                    - item1.mesh.points[:, self.axis]
+                )
                 - item2.thickness
             )
 
-            if not self.bottom_up:
-                shift *= -1.0
-
             if item2.priority < item1.priority:
                 item2.mesh.points[:, self.axis] = np.where(  # type: ignore
                     shift < 0.0,
-                    item2.mesh.points[:, self.axis] - shift,
+                    item2.mesh.points[:, self.axis] - sign * shift,
                     item2.mesh.points[:, self.axis],
                 )
 
             else:
                 item1.mesh.points[:, self.axis] = np.where(  # type: ignore
                     shift < 0.0,
-                    item1.mesh.points[:, self.axis] + shift,
+                    item1.mesh.points[:, self.axis] + sign * shift,
                     item1.mesh.points[:, self.axis],
                 )
 
-- 
2.43.0


From 96844e987f49d4eda3a1bbbf893127aae9759551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:30 +0000
Subject: [PATCH 19/69] fix: interpolate lines whose points are not sorted in
 ascending order

---
 pvgridder/core/_base.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pvgridder/core/_base.py b/pvgridder/core/_base.py
index bcb9694..7744c40 100644
--- a/pvgridder/core/_base.py
+++ b/pvgridder/core/_base.py
@@ -567,18 +567,16 @@ class MeshStackBase(MeshBase):
 
         else:
             idx = idx[0]
+            order = np.argsort(points[:, idx], kind="stable")
             x = mesh.points[:, idx]
-            xp = points[:, idx]
+            xp = points[order, idx]
 
-            if (
-                not (xp[0] <= x[0] <= xp[-1] and xp[0] <= x[-1] <= xp[-1])
-                and not extrapolation
-            ):
+            if (x.min() < xp[0] or x.max() > xp[-1]) and not extrapolation:
                 raise ValueError(
                     "could not interpolate from points not fully enclosing base mesh"
                 )
 
-            tmp = np.interp(x, xp, points[:, self.axis])
+            tmp = np.interp(x, xp, points[order, self.axis])
 
         mesh.points[:, self.axis] = tmp  # type: ignore
 
-- 
2.43.0


From 060c8e4b0d1c4d345f31afa33443598765689a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:30 +0000
Subject: [PATCH 20/69] fix: accept any dataset as stack item

---
 pvgridder/core/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/core/_base.py b/pvgridder/core/_base.py
index 7744c40..da92ec6 100644
--- a/pvgridder/core/_base.py
+++ b/pvgridder/core/_base.py
@@ -393,7 +393,7 @@ class MeshStackBase(MeshBase):
             Self (for daisy chaining).
 
         """
-        if isinstance(arg, (pv.PolyData, pv.StructuredGrid, pv.UnstructuredGrid)):
+        if isinstance(arg, pv.DataSet):
             mesh = self._interpolate(arg.points, extrapolation)
 
         elif callable(arg):
-- 
2.43.0


From 04be4f68377794a6df456baf135fb5adc97d4c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:30 +0000
Subject: [PATCH 21/69] fix: use the new base mesh for scalar transition items

---
 pvgridder/core/_base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pvgridder/core/_base.py b/pvgridder/core/_base.py
index da92ec6..b12b90d 100644
--- a/pvgridder/core/_base.py
+++ b/pvgridder/core/_base.py
@@ -411,7 +411,11 @@ class MeshStackBase(MeshBase):
                 else:
                     arg = abs(arg)
                     arg *= 1.0 if self.bottom_up else -1.0
-                    mesh = self.items[-1].mesh.copy()
+                    mesh = (
+                        self._interpolate(self.items[-1].mesh.points, "nearest")
+                        if self._transition_flag
+                        else self.items[-1].mesh.copy()
+                    )
                     mesh.points[:, self.axis] += arg  # type: ignore
 
             else:
-- 
2.43.0


From 192187b3cb14ea8e9db9dd3d1bdfe0a91f2cc459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:28 +0000
Subject: [PATCH 22/69] fix: dip planes by the given angles instead of by their
 sine

---
 pvgridder/core/stack.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pvgridder/core/stack.py b/pvgridder/core/stack.py
index 34098b7..28ca86a 100644
--- a/pvgridder/core/stack.py
+++ b/pvgridder/core/stack.py
@@ -219,7 +219,11 @@ class MeshStack3D(MeshStackBase):
             points[:, idx] -= point[idx]
             points[:, self.axis] = 0.0
 
-            return rot.apply(points, inverse=True)[:, self.axis] + point[self.axis]
+            # Project rotated plane along stacking axis
+            dz = rot.apply(points, inverse=True)[:, self.axis]
+            dz /= rot.as_matrix()[self.axis, self.axis]
+
+            return dz + point[self.axis]
 
         return self.add(func, *args, **kwargs)
 
-- 
2.43.0


From 53ba98b41ffc5c9140ee37332825aeb4180357cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:48 +0000
Subject: [PATCH 23/69] fix: merge structured grids with vector cell data

---
 pvgridder/utils/_misc.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 4a60381..16abcc6 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -970,11 +970,13 @@ def merge(
                     {
                         k: np.concatenate(
                             (
-                                v.reshape(shape_a, order="F"),
-                                mesh_b.cell_data[k].reshape(shape_b, order="F"),
+                                v.reshape((*shape_a, *v.shape[1:]), order="F"),
+                                mesh_b.cell_data[k].reshape(
+                                    (*shape_b, *v.shape[1:]), order="F"
+                                ),
                             ),
                             axis=axis,
-                        ).ravel(order="F")
+                        ).reshape((-1, *v.shape[1:]), order="F")
                         for k, v in mesh_a.cell_data.items()
                         if k in mesh_b.cell_data
                     }
-- 
2.43.0


From 77ced3f8aa684e57a739cfc8dba76ba4e1d79c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:15 +0000
Subject: [PATCH 24/69] fix: neighborhood and connectivity of meshes whose
 edges or faces are not shared by exactly two cells

---
 pvgridder/utils/_connectivity.py | 20 +++++++++++---------
 pvgridder/utils/_misc.py         |  8 +++++---
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/pvgridder/utils/_connectivity.py b/pvgridder/utils/_connectivity.py
index f368aea..fc19c04 100644
--- a/pvgridder/utils/_connectivity.py
+++ b/pvgridder/utils/_connectivity.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+from itertools import combinations
 from typing import TYPE_CHECKING
 
 import numpy as np
@@ -37,12 +38,10 @@ def get_neighborhood(
     neighbors = [[] for _ in range(mesh.n_cells)]
     mesh = extract_cell_geometry(mesh, remove_ghost_cells)
 
-    for i1, i2 in mesh["vtkOriginalCellIds"]:
-        if i1 == -1 or i2 == -1:
-            continue
-
-        neighbors[i1].append(i2)
-        neighbors[i2].append(i1)
+    for ids in mesh["vtkOriginalCellIds"]:
+        for i1, i2 in combinations(ids[ids != -1], 2):
+            neighbors[i1].append(i2)
+            neighbors[i2].append(i1)
 
     return tuple([np.asanyarray(neighbor) for neighbor in neighbors])
 
@@ -82,7 +81,10 @@ def get_connectivity(
         )
 
     mesh = extract_cell_geometry(mesh, remove_ghost_cells)
-    lines = [(i1, i2) for i1, i2 in mesh["vtkOriginalCellIds"] if i1 != -1 and i2 != -1]
-    lines = np.column_stack((np.full(len(lines), 2), lines)).ravel()
+    lines = [
+        (2, i1, i2)
+        for ids in mesh["vtkOriginalCellIds"]
+        for i1, i2 in combinations(ids[ids != -1], 2)
+    ]
 
-    return pv.PolyData(cell_centers, lines=lines)
+    return pv.PolyData(cell_centers, lines=np.array(lines, dtype=int).ravel())
diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 16abcc6..620af02 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -341,7 +341,9 @@ def extract_cell_geometry(
                     cells_.append(c)
                     lines_or_faces += [len(c), *cells_[idx]]
 
-        tmp = -np.ones((len(cell_ids), len(max(cell_ids, key=len))), dtype=int)
+        # Edges and faces are shared by up to two cells in most meshes
+        n_ids = max(2, len(max(cell_ids, key=len)))
+        tmp = -np.ones((len(cell_ids), n_ids), dtype=int)
         for i, ids in enumerate(cell_ids):
             tmp[i, : len(ids)] = ids
 
@@ -412,7 +414,7 @@ def extract_cell_geometry(
             if not mask.all():
                 lines = poly.lines.reshape((poly.n_lines, 3))[mask]
                 tmp = poly.cell_data["vtkOriginalCellIds"][mask]
-                tmp = tmp[:, np.ptp(tmp, axis=0) > 0]
+                tmp = tmp[:, : (tmp != -1).sum(axis=1).max(initial=2)]
 
                 poly = pv.PolyData(poly.points, lines=lines)
                 poly.cell_data["vtkOriginalCellIds"] = tmp
@@ -472,7 +474,7 @@ def extract_cell_geometry(
                     face for face, mask_ in zip(poly.irregular_faces, mask) if mask_
                 ]
                 tmp = poly.cell_data["vtkOriginalCellIds"][mask]
-                tmp = tmp[:, np.ptp(tmp, axis=0) > 0]
+                tmp = tmp[:, : (tmp != -1).sum(axis=1).max(initial=2)]
 
                 poly = pv.PolyData().from_irregular_faces(poly.points, faces)
                 poly.cell_data["vtkOriginalCellIds"] = tmp
-- 
2.43.0


From 1ad7005798a4bf1a75ddf7c0f725f24bb4ccb7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:15 +0000
Subject: [PATCH 25/69] fix: raise NotImplementedError for unsupported cells of
 3D meshes in extract_cell_geometry

---
 pvgridder/utils/_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 620af02..69691f4 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -455,7 +455,7 @@ def extract_cell_geometry(
 
                 else:
                     raise NotImplementedError(
-                        f"cells of type '{celltype.name}' are not supported yet"
+                        f"cells of type '{pv.CellType(celltype).name}' are not supported yet"
                     )
 
                 cell_faces.append(cell_face)
-- 
2.43.0


From 8904082924e862e1b4aeedcf84a3e3a9c4bbfdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:48 +0000
Subject: [PATCH 26/69] fix: return integer cell IDs for cells without
 neighbors

---
 pvgridder/utils/_connectivity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/utils/_connectivity.py b/pvgridder/utils/_connectivity.py
index fc19c04..a1fe993 100644
--- a/pvgridder/utils/_connectivity.py
+++ b/pvgridder/utils/_connectivity.py
@@ -43,7 +43,7 @@ def get_neighborhood(
             neighbors[i1].append(i2)
             neighbors[i2].append(i1)
 
-    return tuple([np.asanyarray(neighbor) for neighbor in neighbors])
+    return tuple([np.asanyarray(neighbor, dtype=int) for neighbor in neighbors])
 
 
 def get_connectivity(
-- 
2.43.0


From ef9efc48cfe279be08da7e2d320934281a11f25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:39 +0000
Subject: [PATCH 27/69] fix: extract no cell from a mesh with ghost cells

---
 pvgridder/utils/_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 69691f4..bb04578 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -519,7 +519,7 @@ def extract_cells(
     try:
         cells = mesh.extract_cells(ind, invert=invert, progress_bar=progress_bar)
 
-        if ghost_cells is not None:
+        if ghost_cells is not None and cells.n_cells > 0:
             cells.cell_data["vtkGhostType"] = ghost_cells[
                 cells.cell_data["vtkOriginalCellIds"]
             ]
-- 
2.43.0


From 93ea9735047bc001b6fa2caa1274757545955810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:16 +0000
Subject: [PATCH 28/69] fix: do not keep empty cells when extracting cells of
 lower dimension

---
 pvgridder/utils/_misc.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index bb04578..819475b 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -573,8 +573,7 @@ def extract_cells_by_dimension(
     else:
         raise ValueError(f"invalid method '{method}' (expected 'lower' or 'upper')")
 
-    if keep_empty_cells:
-        mask |= mesh.celltypes == pv.CellType.EMPTY_CELL
+    mask[mesh.celltypes == pv.CellType.EMPTY_CELL] = keep_empty_cells
 
     if not mask.all():
         mesh = extract_cells(mesh, mask)
-- 
2.43.0


From 8fd9c6997398c5195733922b4dbf23646278f26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:09 +0000
Subject: [PATCH 29/69] fix: dimension of convex point sets

---
 pvgridder/utils/_properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/utils/_properties.py b/pvgridder/utils/_properties.py
index e602057..eb718c4 100644
--- a/pvgridder/utils/_properties.py
+++ b/pvgridder/utils/_properties.py
@@ -315,7 +315,7 @@ _dimension_map = np.array(
         -1,
         -1,
         -1,
-        0,  # CONVEX_POINT_SET
+        3,  # CONVEX_POINT_SET
         3,  # POLYHEDRON
         -1,
         -1,
-- 
2.43.0


From 653896295d97dd70b26412c16ab5db420fc470bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:44 +0000
Subject: [PATCH 30/69] fix: average all the points of a point cloud within the
 tolerance

---
 pvgridder/utils/_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 819475b..c38acbc 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -75,7 +75,7 @@ def average_points(mesh: pv.PolyData, tolerance: float = 0.0) -> pv.PolyData:
             continue
 
         point_map[group] = group[0]
-        new_points[group[0]] = points[group].mean(axis=0)
+        new_points[group] = points[group].mean(axis=0)
 
     if mesh.n_faces_strict:
         irregular_faces = [
-- 
2.43.0


From 85fbaba223b60c59f5b578d979c8859b2f182daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:56 +0000
Subject: [PATCH 31/69] fix: measure distances to segments when decimating
 lines that double back

---
 pvgridder/utils/_misc.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index c38acbc..df80758 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -119,11 +119,21 @@ def decimate_rdp(mesh: pv.PolyData, tolerance: float = 1.0e-8) -> pv.PolyData:
         points = np.asanyarray(points)
         u = points[-1] - points[0]
         un = np.linalg.norm(u)
-        dist = (
-            np.linalg.norm(np.cross(u, points[0] - points), axis=1) / un
-            if un > 0.0
-            else np.linalg.norm(points - points[0], axis=1)
-        )
+        dist = np.linalg.norm(points - points[0], axis=1)
+
+        if un > 0.0:
+            # Distance to segment
+            t = (points - points[0]) @ u
+            dist = np.where(
+                t < 0.0,
+                dist,
+                np.where(
+                    t > un**2,
+                    np.linalg.norm(points - points[-1], axis=1),
+                    np.linalg.norm(np.cross(u, points[0] - points), axis=1) / un,
+                ),
+            )
+
         imax = dist.argmax()
 
         if dist[imax] > tolerance:
-- 
2.43.0


From 1092175fe8a03554bffb930646bfe54ef58f6a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:51 +0000
Subject: [PATCH 32/69] fix: count every edge once when computing the
 orientation of polygons to offset

---
 pvgridder/utils/_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index df80758..da46901 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -1148,7 +1148,7 @@ def offset_polygon(
         )
 
         x, y = points.T
-        signed_area = (x[:-1] * y[1:] - x[1:] * y[:-1]).sum()
+        signed_area = (x[:-2] * y[1:-1] - x[1:-1] * y[:-2]).sum()
 
         vn = points[2:] - points[1:-1]
         vn /= np.linalg.norm(vn, axis=1)[:, np.newaxis]
-- 
2.43.0


From 2724a121758c637af91a15a8edac5740faf9d42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:52 +0000
Subject: [PATCH 33/69] fix: offset polygons in their own plane

---
 pvgridder/utils/_misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index da46901..c81c5c9 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -1134,6 +1134,7 @@ def offset_polygon(
 
         else:
             axis = np.flatnonzero(mask)[0]
+            level = points[0, axis]
 
         # Simple polygon offset algorithm
         # Vectorized version of C# code
@@ -1164,7 +1165,7 @@ def offset_polygon(
         points = points[1:-1] + dist[:, np.newaxis] * vb[:, [1, 0]]
 
         faces += [len(points), *(np.arange(len(points)) + len(points_))]
-        points_ += np.insert(points, axis, 0.0, axis=1).tolist()
+        points_ += np.insert(points, axis, level, axis=1).tolist()
 
     return pv.PolyData(points_, faces=faces)
 
-- 
2.43.0


From 3a484368366e48ce1ca4445691cae93b8e1125f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:35 +0000
Subject: [PATCH 34/69] fix: reconstruct lines from any dataset

---
 pvgridder/utils/_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index c81c5c9..77f69df 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -1292,7 +1292,7 @@ def reconstruct_line(
         Reconstructed line.
 
     """
-    if isinstance(mesh_or_points, pv.PolyData):
+    if isinstance(mesh_or_points, pv.DataSet):
         points = mesh_or_points.points
 
     else:
-- 
2.43.0


From 1f04f1db6b78eeed932cd57d316f35644f376737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:35 +0000
Subject: [PATCH 35/69] fix: consider the last two points when reconstructing
 lines

---
 pvgridder/utils/_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 77f69df..522e047 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -1317,7 +1317,7 @@ def reconstruct_line(
     while True:
         best_length = shortest_length
 
-        for first in range(1, n - 2):
+        for first in range(1, n - 1):
             for last in range(first + 2, n + 1):
                 path[first:last] = np.flip(path[first:last])
                 length = path_length(path)
-- 
2.43.0


From cd8267de74aa002fdf506ca8eb2068a7f450aed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:35 +0000
Subject: [PATCH 36/69] fix: terminate when reconstructing a line of zero
 length

---
 pvgridder/utils/_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 522e047..c0b0abb 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -1331,7 +1331,7 @@ def reconstruct_line(
                         path[first:last]
                     )  # reset path to current shortest path
 
-        if shortest_length > (1.0 - tolerance) * best_length:
+        if shortest_length >= (1.0 - tolerance) * best_length:
             break
 
     points = points[shortest_path]
-- 
2.43.0


From 38eafad4a7e7647b2d04e4779611524917e239d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:13 +0000
Subject: [PATCH 37/69] fix: ignore reversals of equal length when
 reconstructing lines

---
 pvgridder/utils/_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index c0b0abb..6db1d4c 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -1322,7 +1322,7 @@ def reconstruct_line(
                 path[first:last] = np.flip(path[first:last])
                 length = path_length(path)
 
-                if length < shortest_length:
+                if length < (1.0 - tolerance) * shortest_length:
                     shortest_path[:] = path
                     shortest_length = length
 
-- 
2.43.0


From 739f316ec98ac7e58877010a8cb7507beaf7521b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:27 +0000
Subject: [PATCH 38/69] fix: keep the labels of the values that are not
 remapped

---
 pvgridder/utils/_misc.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 6db1d4c..8aab89c 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -1396,7 +1396,7 @@ def remap_categorical_data(
 
     remapped_data = data.copy()
     data_labels_map = {v: k for k, v in data_labels.items()}
-    unused_labels = set(list(data_labels))
+    unused_labels = [k for k, v in data_labels.items() if v not in data]
 
     for k, v in mapping.items():
         if isinstance(k, str):
@@ -1417,7 +1417,6 @@ def remap_categorical_data(
             try:
                 key_ = k if isinstance(k, str) else data_labels_map[vid]
                 data_labels[key_] = v
-                unused_labels.remove(key_)
 
             except KeyError:
                 pass
-- 
2.43.0


From ee9721884bac76380f8b47bb1d768a059bd92016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:42 +0000
Subject: [PATCH 39/69] fix: select cells or points in the plane of the view

---
 pvgridder/utils/_interactive.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/pvgridder/utils/_interactive.py b/pvgridder/utils/_interactive.py
index 6827312..b6ea8b6 100644
--- a/pvgridder/utils/_interactive.py
+++ b/pvgridder/utils/_interactive.py
@@ -146,22 +146,17 @@ def interactive_lasso_selection(
 
     # Select cells or points within the lasso polygon
     if "x" not in view_:
-        points_ = np.delete(points.points, 0, axis=1)
+        axis = 0
 
     elif "y" not in view_:
-        points_ = np.delete(points.points, 1, axis=1)
+        axis = 1
 
     else:
-        points_ = np.delete(points.points, 2, axis=1)
+        axis = 2
 
-    polygon_ = Polygon(points_)
-
-    if preference == "cell":
-        centers = get_cell_centers(mesh)
-        mask = contains_xy(polygon_, centers)
-
-    else:
-        mask = contains_xy(polygon_, mesh.points)
+    polygon_ = Polygon(np.delete(points.points, axis, axis=1))
+    points_ = get_cell_centers(mesh) if preference == "cell" else mesh.points
+    mask = contains_xy(polygon_, np.delete(points_, axis, axis=1))
 
     ind = np.flatnonzero(mask)
 
-- 
2.43.0


From f377803007e2441df7a7478d8e1fce107d307ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:42 +0000
Subject: [PATCH 40/69] fix: return integer indices for empty interactive
 selections

---
 pvgridder/utils/_interactive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/utils/_interactive.py b/pvgridder/utils/_interactive.py
index b6ea8b6..0026d0e 100644
--- a/pvgridder/utils/_interactive.py
+++ b/pvgridder/utils/_interactive.py
@@ -262,4 +262,4 @@ def interactive_selection(
 
     p.show()
 
-    return np.array(list(actors))
+    return np.array(list(actors), dtype=int)
-- 
2.43.0


From b9d703184a75f6b08a1c0b4e8f487549a73ef545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:31 +0000
Subject: [PATCH 41/69] fix: do not group islands with the boundary around
 their hole

---
 pvgridder/utils/_misc.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 8aab89c..37e9c27 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -263,15 +263,18 @@ def extract_boundary_polygons(
     if with_holes:
         holes = {}
         polygons = [shapely.Polygon(edge.points) for edge in edges]
+        containers = [[] for _ in polygons]
 
         for i, j in itertools.permutations(range(len(polygons)), 2):
-            if i in holes or j in holes:
-                continue
-
             if polygons[i].area > polygons[j].area and polygons[i].contains(
                 polygons[j]
             ):
-                holes[j] = i
+                containers[j].append(i)
+
+        # A boundary edge within an even number of other ones is not a hole
+        for i, container in enumerate(containers):
+            if len(container) % 2:
+                holes[i] = min(container, key=lambda j: polygons[j].area)
 
         # Group boundary edges and holes
         polygons = [[edge] if i not in holes else [] for i, edge in enumerate(edges)]
-- 
2.43.0


From e58b1aa5e74cab77e5df2b22b66cf61429736e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:31 +0000
Subject: [PATCH 42/69] fix: identify holes in the plane of the boundary edges

---
 pvgridder/utils/_misc.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 37e9c27..575ece2 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -262,7 +262,12 @@ def extract_boundary_polygons(
     # Identify holes
     if with_holes:
         holes = {}
-        polygons = [shapely.Polygon(edge.points) for edge in edges]
+        points = [edge.points for edge in edges]
+        normals = [
+            np.cross(p[1:-1] - p[0], p[2:] - p[0]).sum(axis=0) for p in points
+        ]
+        axis = np.abs(max(normals, key=np.linalg.norm)).argmax()
+        polygons = [shapely.Polygon(np.delete(p, axis, axis=1)) for p in points]
         containers = [[] for _ in polygons]
 
         for i, j in itertools.permutations(range(len(polygons)), 2):
-- 
2.43.0


From a0ce31b3f86ff3a41fdbaef00dd4e2fdc06ff644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:28 +0000
Subject: [PATCH 43/69] fix: do not miss faces perpendicular to the ray because
 of round-off errors

---
 pvgridder/utils/_misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 575ece2..f039e76 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -1239,7 +1239,8 @@ def ray_cast(
         normals = mesh.compute_normals(
             cell_normals=True, point_normals=False
         ).cell_data["Normals"]
-        angles = np.rad2deg(np.arccos(np.abs(normals[ids] @ dvec)))
+        cosines = np.abs(normals[ids] @ dvec).clip(max=1.0)
+        angles = np.rad2deg(np.arccos(cosines))
         ids = ids[angles < max_angle]
 
         if ids.size == 0:
-- 
2.43.0


From 5834010e41a3ddb8fdf6563e18d74f0c7a078160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:11 +0000
Subject: [PATCH 44/69] fix: follow polylines through the cells that they cross

The first cell was the one with the closest center, lines that start inside the mesh,
end in their first cell or come back were not assigned to their cells, and the last
point was lost when the last line is fully contained in a cell.
---
 pvgridder/utils/_misc.py | 203 +++++++++++++--------------------------
 1 file changed, 69 insertions(+), 134 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index f039e76..4d76912 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -737,159 +737,94 @@ def intersect_polyline(
     mesh = mesh.translate(-center)
     lines = lines.translate(-center)
 
-    line_ids, cell_ids, cell = [], [], None
-    mesh_entered, mesh_exited = False, False
-    points = [lines.points[0]]
-    count = 0
-
-    def add_point(point: ArrayLike, line_id: int, cell_id: int) -> None:
-        """Add a point to the intersection results."""
-        if not np.allclose(points[-1], point, atol=tolerance):
-            if (
-                not mesh_entered
-                or mesh_exited
-                or np.linalg.norm(point - points[-1]) >= min_length
-            ):
-                points.append(point)
-                line_ids.append(line_id)
-                cell_ids.append(cell_id)
-
+    # Split the line at its intersections with cell edges or faces
+    # Extend the last line to find the cell that contains the last point
+    centers = get_cell_centers(mesh)
     cell_geometry = extract_cell_geometry(mesh, remove_ghost_cells=True)
-    tree = KDTree(get_cell_centers(cell_geometry))
+    neighbors = cell_geometry.cell_data["vtkOriginalCellIds"].copy()
+    splits = []
 
     for lid, (pointa, pointb) in enumerate(zip(lines.points[:-1], lines.points[1:])):
-        # Find the first cell intersected by the line
-        if cell is None:
-            ids = mesh.find_cells_intersecting_line(pointa, pointb, tolerance=tolerance)
+        dvec = pointb - pointa
+        length = np.linalg.norm(dvec)
 
-            if ids.size == 0:
-                add_point(pointb, lid, -1)
-                continue
-
-            ids = np.sort(ids)
-            id_ = np.linalg.norm(
-                get_cell_centers(extract_cells(mesh, ids)) - pointa,
-                axis=-1,
-            ).argmin()
-            cid = ids[id_]
-            cell = extract_cells(mesh, cid)
-
-        if not mesh_exited:
-            while True:
-                # Find cell edges or faces intersected by the line
-                intersections = ray_cast(
-                    cell,
-                    pointa,
-                    pointb,
-                    tolerance=tolerance,
-                )
+        if length == 0.0:
+            continue
 
-                # Find the exit, if any
-                # Line is fully contained in the cell
-                if intersections is None:
-                    break
-
-                # Either an entrance or an exit
-                elif intersections.n_cells == 1:
-                    # It's an entrance if intersection point matches previous point
-                    if not mesh_entered or np.allclose(
-                        points[-1],
-                        intersections.cell_data["IntersectionPoints"][0],
-                        atol=tolerance,
-                    ):
-                        if not mesh_entered:
-                            count = len(points)
-                            mesh_entered = True
-                            add_point(
-                                intersections.cell_data["IntersectionPoints"][0],
-                                lid,
-                                -1,
-                            )
-
-                            if count > 1:
-                                break
-
-                        else:
-                            add_point(
-                                intersections.cell_data["IntersectionPoints"][0],
-                                lid,
-                                int(cid),
-                            )
-                            break
-
-                    fid = 0
-
-                # The exit is the farthest from last point
-                elif intersections.n_cells == 2:
-                    dist = np.linalg.norm(
-                        intersections.cell_data["IntersectionPoints"] - points[-1],
-                        axis=-1,
-                    )
+        is_last = lid == lines.n_lines - 1
+        pointc = pointb + 2.0 * mesh.length / length * dvec if is_last else pointb
+        intersections = ray_cast(cell_geometry, pointa, pointc, tolerance=tolerance)
+        splits_ = [(length, pointb, lid, None)]
 
-                    if not mesh_entered:
-                        count = len(points)
-                        add_point(
-                            intersections.cell_data["IntersectionPoints"][
-                                dist.argmin()
-                            ],
-                            lid,
-                            -1,
-                        )
-                        mesh_entered = True
+        if intersections is not None:
+            for cell, point, id_ in zip(
+                intersections.cell,
+                intersections.cell_data["IntersectionPoints"],
+                intersections.cell_data["vtkOriginalCellIds"],
+            ):
+                # Line is parallel to edge
+                if not np.isfinite(point).all():
+                    continue
+
+                # Find the cell before the intersection
+                vecs = np.diff(cell.points, axis=0)
+                normal = (
+                    np.cross(np.cross(vecs[0], dvec), vecs[0])
+                    if len(vecs) == 1
+                    else np.cross(cell.points[:-1] - cell.points[0], vecs).sum(axis=0)
+                )
+                normal = normal if normal @ dvec > 0.0 else -normal
+                cid = -1
 
-                    fid = dist.argmax()
+                for cell_id in neighbors[id_]:
+                    if cell_id >= 0 and (centers[cell_id] - point) @ normal < 0.0:
+                        cid = int(cell_id)
 
-                # The line is hitting an edge or a corner
-                else:
-                    raise ValueError("could not find the exit face")
+                splits_.append((np.linalg.norm(point - pointa), point, lid, cid))
 
-                add_point(
-                    intersections.cell_data["IntersectionPoints"][fid], lid, int(cid)
-                )
-                exit_face = intersections.get_cell(fid)
+        splits += sorted(splits_, key=lambda x: x[0])
 
-                # Check distance to last point
-                if (
-                    np.linalg.norm(
-                        intersections.cell_data["IntersectionPoints"][fid]
-                        - lines.points[-1]
-                    )
-                    < min_length
-                ):
-                    break
+    # Each line is contained by the cell before the next intersection
+    cell_ids_ = []
+    cid = -1
 
-                # Determine the exit cell
-                _, id_ = tree.query(exit_face.center)
-                cells = cell_geometry.cell_data["vtkOriginalCellIds"][id_]
+    for _, _, _, cid_ in splits[::-1]:
+        cid = cid if cid_ is None else cid_
+        cell_ids_.append(cid)
 
-                if cid not in cells:
-                    raise ValueError("could not determine exit cell")
+    # Keep a single line per crossed cell
+    lines_ = []
+    last_point = lines.points[0]
+    n_splits = max(i for i, split in enumerate(splits) if split[-1] is None) + 1
 
-                if -1 in cells:
-                    if not ignore_points_after_exit:
-                        add_point(pointb, lid, -1)
+    for (_, point, lid, _), cid in zip(splits[:n_splits], cell_ids_[::-1]):
+        if np.allclose(last_point, point, atol=tolerance):
+            continue
 
-                    mesh_exited = True
-                    break
+        if cid >= 0 and lines_ and lines_[-1][-1] == cid:
+            lines_.pop()
 
-                cid = [id_ for id_ in cells if id_ != cid][0]
-                cell = extract_cells(mesh, cid)
+        lines_.append((point, lid, cid))
+        last_point = point
 
-                # Add last point of the polyline if it is inside the exit cell
-                if lid == lines.n_lines - 1 and cell.find_containing_cell(pointb) > -1:
-                    add_point(pointb, lid, cid)
-                    break
+    # Ignore lines within the mesh that are too short
+    points, line_ids, cell_ids = [lines.points[0]], [], []
 
-        else:
-            if ignore_points_after_exit:
-                break
+    for point, lid, cid in lines_:
+        if cid < 0 or np.linalg.norm(point - points[-1]) >= min_length:
+            points.append(point)
+            line_ids.append(lid)
+            cell_ids.append(cid)
 
-            add_point(pointb, lid, -1)
+    # Ignore points before the first entry and/or after the last exit
+    inside = np.flatnonzero(np.array(cell_ids) >= 0)
 
-    if ignore_points_before_entry:
-        points = points[count:]
-        line_ids = line_ids[count:]
-        cell_ids = cell_ids[count:]
+    if inside.size > 0:
+        first = inside[0] if ignore_points_before_entry else 0
+        last = inside[-1] + 1 if ignore_points_after_exit else len(cell_ids)
+        points = points[first : last + 1]
+        line_ids = line_ids[first:last]
+        cell_ids = cell_ids[first:last]
 
     polyline = split_lines(pv.MultipleLines(points))[0].compute_cell_sizes(
         length=True, area=False, volume=False
-- 
2.43.0


From 682a9e6b01b329a19faf3b2cfe5430f61bc85111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:11 +0000
Subject: [PATCH 45/69] fix: pass the cell data of single polylines in
 intersect_polyline

---
 pvgridder/utils/_misc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 4d76912..f2330a4 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -833,11 +833,13 @@ def intersect_polyline(
     polyline.cell_data["IntersectedCellIds"] = cell_ids
 
     if pass_cell_data:
+        ids = line_ids if line.n_cells > 1 else [0] * len(line_ids)
+
         for k, v in line.cell_data.items():
             if k in polyline.cell_data:
                 continue
 
-            polyline.cell_data[k] = v[line_ids]
+            polyline.cell_data[k] = v[ids]
 
     return cast(pv.PolyData, polyline.translate(center))
 
-- 
2.43.0


From f3ff51c39aea5e26447e94be88ca5376d6343fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:50 +0000
Subject: [PATCH 46/69] fix: keep the precision of the points when splitting
 lines

---
 pvgridder/utils/_misc.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index f2330a4..3535b3e 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -1402,13 +1402,10 @@ def split_lines(mesh: pv.PolyData, as_lines: bool = True) -> Sequence[pv.PolyDat
     """
     from pyvista.core.cell import _get_irregular_cells
 
-    mesh = cast(
-        pv.PolyData,
-        mesh.extract_cells_by_type((pv.CellType.LINE, pv.CellType.POLY_LINE)),
-    )
     lines = []
 
-    for i, line_ids in enumerate(_get_irregular_cells(mesh.GetLines())):
+    # Cells of a polydata are ordered by verts, lines and faces
+    for i, line_ids in enumerate(_get_irregular_cells(mesh.GetLines()), mesh.n_verts):
         lines_ = (
             np.insert(
                 np.column_stack(
-- 
2.43.0


From d0fe260d0fd30b8fdb832133b6c523f7d1d93a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:36 +0000
Subject: [PATCH 47/69] fix: do not fuse cells that are only connected by a
 corner

---
 pvgridder/utils/_misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 3535b3e..e19cd39 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -641,7 +641,8 @@ def fuse_cells(
                     "could not extract boundary polygons for the selected cells"
                 )
 
-            if len(poly) > 1:
+            # Boundary of cells connected by a corner visits this corner twice
+            if len(poly) > 1 or poly[0].lines[0] > poly[0].n_points + 1:
                 raise ValueError("could not fuse not fully connected cells together")
 
             # Find original point IDs of polygon
-- 
2.43.0


From da8f619f773c67c984f2884b0f33e677ef336b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:12 +0000
Subject: [PATCH 48/69] fix: generate a polygon for each part of a Voronoi
 region within the background mesh

---
 pvgridder/core/voronoi.py | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index 090868e..f64f194 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -463,6 +463,7 @@ class VoronoiMesh2D(MeshBase):
 
         # Generate polygonal mesh
         points, cells = [], []
+        indices = []
         n_points = 0
 
         for i, region in enumerate(regions):
@@ -472,30 +473,40 @@ class VoronoiMesh2D(MeshBase):
                 raise ValueError(f"region {i} is not a valid polygon")
 
             polygon = boundary.intersection(polygon)
-            points_ = get_coordinates(polygon)[:-1]
-            cells += [len(points_), *(np.arange(len(points_)) + n_points)]
 
-            # Ensure correct orientation
-            signed_area = self._compute_signed_area(points_)
+            # The intersection can consist of several parts (including lines and points)
+            for part in getattr(polygon, "geoms", [polygon]):
+                if part.geom_type != "Polygon" or part.is_empty:
+                    continue
 
-            if (orientation == "CCW" and signed_area < 0.0) or (
-                orientation == "CW" and signed_area > 0.0
-            ):
-                points_ = points_[::-1]
+                if len(part.interiors) > 0:
+                    raise ValueError(f"region {i} encloses a hole")
 
-            points += list(points_)
-            n_points += len(points_)
+                points_ = get_coordinates(part)[:-1]
+                cells += [len(points_), *(np.arange(len(points_)) + n_points)]
+                indices.append(i)
+
+                # Ensure correct orientation
+                signed_area = self._compute_signed_area(points_)
+
+                if (orientation == "CCW" and signed_area < 0.0) or (
+                    orientation == "CW" and signed_area > 0.0
+                ):
+                    points_ = points_[::-1]
+
+                points += list(points_)
+                n_points += len(points_)
 
         points = self._check_point_array(points)
         mesh = pv.PolyData(points, faces=cells)
         mesh = mesh.cast_to_unstructured_grid()
 
-        mesh.cell_data["CellGroup"] = group_array[active]
+        mesh.cell_data["CellGroup"] = group_array[active][indices]
         mesh.user_dict["CellGroup"] = groups
         _ = mesh.set_active_scalars("CellGroup", preference="cell")
 
         # Add coordinates of Voronoi points
-        voronoi_points = np.insert(voronoi_points, self.axis, 0.0, axis=1)
+        voronoi_points = np.insert(voronoi_points[indices], self.axis, 0.0, axis=1)
         mesh.cell_data["X"] = voronoi_points[:, 0]
         mesh.cell_data["Y"] = voronoi_points[:, 1]
         mesh.cell_data["Z"] = voronoi_points[:, 2]
-- 
2.43.0


From 79ead7d62771814daed5c61aedde7adf479b4ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:20 +0000
Subject: [PATCH 49/69] fix: do not repeat points in Voronoi cells cut by the
 background mesh

---
 pvgridder/core/voronoi.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index f64f194..64bca3d 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -482,7 +482,14 @@ class VoronoiMesh2D(MeshBase):
                 if len(part.interiors) > 0:
                     raise ValueError(f"region {i} encloses a hole")
 
+                # Remove points that would be merged with the previous one
                 points_ = get_coordinates(part)[:-1]
+                lengths = np.linalg.norm(points_ - np.roll(points_, 1, axis=0), axis=1)
+                points_ = points_[lengths > tolerance]
+
+                if len(points_) < 3:
+                    continue
+
                 cells += [len(points_), *(np.arange(len(points_)) + n_points)]
                 indices.append(i)
 
-- 
2.43.0


From 4883e3f1195b931c4176dafd06952380c423c9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:14 +0000
Subject: [PATCH 50/69] fix: add circles in the plane of the Voronoi mesh

---
 pvgridder/core/voronoi.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index 64bca3d..40f277f 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -145,25 +145,35 @@ class VoronoiMesh2D(MeshBase):
         )
         dr = constraint_radius - radius
 
+        center = np.zeros(3) if center is None else self._check_point_array(center)
+        center = np.array(center, dtype=float)
+        center[self.axis] = 0.0
+
+        def to_plane(mesh: pv.DataSet) -> pv.DataSet:
+            """Move a mesh centered at the origin of the xy plane to its location."""
+            mesh.points = np.insert(mesh.points[:, :2], self.axis, 0.0, axis=1) + center
+
+            return mesh
+
         if dr > 0.0:
             self.add(
-                (
+                to_plane(
                     MeshMerge()
-                    .add(Circle(radius - dr, resolution, center=center))
-                    .add(Annulus(radius - dr, radius, 1, resolution, center=center))
+                    .add(Circle(radius - dr, resolution))
+                    .add(Annulus(radius - dr, radius, 1, resolution))
                     .generate_mesh()
                 ),
                 priority=priority,
                 group=group,
             )
             self.add(
-                Annulus(radius, radius + dr, 1, resolution, center=center),
+                to_plane(Annulus(radius, radius + dr, 1, resolution)),
                 priority=0,
             )
 
         elif dr == 0.0:
             self.add(
-                Circle(radius, resolution, center=center),
+                to_plane(Circle(radius, resolution)),
                 priority=priority,
                 group=group,
             )
@@ -172,8 +182,6 @@ class VoronoiMesh2D(MeshBase):
             raise ValueError("invalid constraint radius")
 
         if plain:
-            center = np.zeros(3) if center is None else np.asanyarray(center)
-            center = np.insert(center, self.axis, 0.0) if len(center) == 2 else center
             self.fuse_cells.append(
                 lambda x: np.linalg.norm(x - center, axis=1) < radius
             )
-- 
2.43.0


From 670a807c9ba73af0e075997983ac601a1007cc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:14 +0000
Subject: [PATCH 51/69] fix: ignore plain circles that do not contain any
 Voronoi cell

---
 pvgridder/core/voronoi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index 40f277f..6b3a62b 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -530,7 +530,8 @@ class VoronoiMesh2D(MeshBase):
         if self.fuse_cells:
             points = get_cell_centers(mesh)
             indices = [func(points) for func in self.fuse_cells]
-            mesh = fuse_cells(mesh, indices)
+            indices = [mask for mask in indices if mask.any()]
+            mesh = fuse_cells(mesh, indices) if indices else mesh
 
         return cast(pv.UnstructuredGrid, self._clean(mesh, tolerance))
 
-- 
2.43.0


From 26427e00b6874dcc292cc85345802f421efe0454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:14 +0000
Subject: [PATCH 52/69] fix: replace Voronoi points at the location of added
 points

---
 pvgridder/core/voronoi.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index 6b3a62b..a21d168 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -6,7 +6,7 @@ import numpy as np
 import pyvista as pv
 from numpy.typing import NDArray
 from pyrequire import require_package
-from scipy.spatial import Voronoi
+from scipy.spatial import KDTree, Voronoi
 
 from ._base import MeshBase, MeshItem
 from ._helpers import generate_surface_from_two_lines, resolution_to_perc
@@ -407,6 +407,10 @@ class VoronoiMesh2D(MeshBase):
             # Disable existing points contained by item mesh and with lower (or equal) priority
             if not isinstance(mesh_a, pv.PolyData):
                 idx = mesh_a.find_containing_cell(points)
+
+                # Existing points are also replaced by item points at the same location
+                dist, ids = KDTree(points_).query(points)
+                idx = np.where(dist <= tolerance, ids, idx)
                 mask = np.logical_and(
                     idx != -1,
                     (
-- 
2.43.0


From 1dbaccf1c3f42b21044ba56126db728a915b9db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:25 +0000
Subject: [PATCH 53/69] fix: merge duplicate points of Voronoi cells
 consistently before fusing them

---
 pvgridder/core/voronoi.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index a21d168..ce94f32 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -494,14 +494,7 @@ class VoronoiMesh2D(MeshBase):
                 if len(part.interiors) > 0:
                     raise ValueError(f"region {i} encloses a hole")
 
-                # Remove points that would be merged with the previous one
                 points_ = get_coordinates(part)[:-1]
-                lengths = np.linalg.norm(points_ - np.roll(points_, 1, axis=0), axis=1)
-                points_ = points_[lengths > tolerance]
-
-                if len(points_) < 3:
-                    continue
-
                 cells += [len(points_), *(np.arange(len(points_)) + n_points)]
                 indices.append(i)
 
@@ -518,6 +511,10 @@ class VoronoiMesh2D(MeshBase):
 
         points = self._check_point_array(points)
         mesh = pv.PolyData(points, faces=cells)
+
+        # Merge duplicate points such that cells do not visit a point twice
+        mesh = average_points(mesh, tolerance=tolerance * max(1.0, self.mesh.length))
+        indices = np.array(indices)[mesh.cell_data.pop("vtkOriginalCellIds")]
         mesh = mesh.cast_to_unstructured_grid()
 
         mesh.cell_data["CellGroup"] = group_array[active][indices]
-- 
2.43.0


From d057ef6d5a92260e18785942b2e84fadd5bda05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:58 +0000
Subject: [PATCH 54/69] fix: do not modify the points passed to
 VoronoiMesh2D.add

---
 pvgridder/core/voronoi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index ce94f32..1f7c964 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -86,7 +86,7 @@ class VoronoiMesh2D(MeshBase):
         """
         if not isinstance(mesh_or_points, pv.DataSet):
             mesh_or_points = self._check_point_array(mesh_or_points)
-            mesh = pv.PolyData(mesh_or_points)
+            mesh = pv.PolyData(np.array(mesh_or_points))
 
         else:
             mesh = self._to_explicit_grid(mesh_or_points)
-- 
2.43.0


From dbcb68e2cd5e6c20bc6f3781ab060d250b2a83a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:39 +0000
Subject: [PATCH 55/69] fix: precision of Voronoi diagrams far from the origin

Qhull works on coordinates relative to the center of the points, and the
radius used for points at infinity is the largest extent of the mesh, not
the range of all its coordinates (e.g., of projected coordinates).
---
 pvgridder/core/voronoi.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index 1f7c964..899b6af 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -567,7 +567,9 @@ class VoronoiMesh2D(MeshBase):
         See <https://stackoverflow.com/a/43023639>.
 
         """
-        voronoi = Voronoi(points, qhull_options=qhull_options)
+        # Qhull loses precision away from the origin
+        origin = np.mean(points, axis=0)
+        voronoi = Voronoi(points - origin, qhull_options=qhull_options)
 
         # Construct a map containing all ridges for a given point
         ridges = {}
@@ -578,7 +580,9 @@ class VoronoiMesh2D(MeshBase):
 
         # Reconstruct infinite regions
         center = voronoi.points.mean(axis=0)
-        radius = infinity if infinity else np.ptp(self.mesh.points).max() * 1.0e3
+        radius = (
+            infinity if infinity else np.ptp(self.mesh.points, axis=0).max() * 1.0e3
+        )
         new_vertices = voronoi.vertices.tolist()
         new_regions = []
 
@@ -616,7 +620,7 @@ class VoronoiMesh2D(MeshBase):
                 angles = np.arctan2(vs[:, 1] - c[1], vs[:, 0] - c[0])
                 new_regions.append([new_region[i] for i in np.argsort(angles)])
 
-        return new_regions, np.array(new_vertices)
+        return new_regions, np.array(new_vertices) + origin
 
     @property
     def mesh(self) -> pv.DataSet:
-- 
2.43.0


From 5d1a64c288220e41ffd4bb05fa68949e1672655e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:15 +0000
Subject: [PATCH 56/69] fix: keep double precision of lines

RegularLine, CurvedLine, VoronoiMesh2D.add_polyline, intersect_polyline and
Quadrilateral rounded coordinates to single precision, i.e. by up to 0.25 m
for projected coordinates, which also hangs transition items of 2D stacks.
---
 pvgridder/core/geometric_objects.py | 8 +++++++-
 pvgridder/core/voronoi.py           | 1 +
 pvgridder/utils/_misc.py            | 4 +++-
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/pvgridder/core/geometric_objects.py b/pvgridder/core/geometric_objects.py
index 12cbfcb..9559169 100644
--- a/pvgridder/core/geometric_objects.py
+++ b/pvgridder/core/geometric_objects.py
@@ -254,6 +254,7 @@ def CurvedLine(
         points.append(points[-1] + dl * vec)
 
     mesh = pv.MultipleLines(np.asanyarray(points))
+    mesh.points = np.array(points, dtype=float)  # single precision otherwise
     mesh.clear_data()
 
     return mesh
@@ -706,10 +707,14 @@ def Quadrilateral(
     )
     points = np.asanyarray(points)
 
+    # Lines are generated in single precision
+    origin = points[0]
+    points = points - origin
+
     line_a = generate_line_from_two_points(points[0], points[1], x_resolution, x_method)
     line_b = generate_line_from_two_points(points[3], points[2], x_resolution, x_method)
     mesh = StructuredSurface(line_a, line_b, "xy", y_resolution, y_method)
-    mesh = translate(mesh, center)
+    mesh = translate(translate(mesh, origin), center)
     mesh = cast(pv.StructuredGrid, mesh)
 
     return mesh
@@ -878,6 +883,7 @@ def RegularLine(points: ArrayLike, resolution: Optional[int] = None) -> pv.PolyD
     x = np.linspace(0.0, xp.max(), resolution + 1)
     points = np.column_stack([np.interp(x, xp, fp) for fp in points.T])
     mesh = pv.MultipleLines(points)
+    mesh.points = points  # single precision otherwise
     mesh.clear_data()
 
     return mesh
diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index 899b6af..f2e4789 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -239,6 +239,7 @@ class VoronoiMesh2D(MeshBase):
 
         if not isinstance(mesh_or_points, pv.PolyData):
             mesh = pv.MultipleLines(np.asanyarray(mesh_or_points))
+            mesh.points = np.array(mesh_or_points, dtype=float)
 
         else:
             mesh = mesh_or_points.copy()
diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index e19cd39..7bf7f0c 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -827,7 +827,9 @@ def intersect_polyline(
         line_ids = line_ids[first:last]
         cell_ids = cell_ids[first:last]
 
-    polyline = split_lines(pv.MultipleLines(points))[0].compute_cell_sizes(
+    polyline = pv.MultipleLines(points)
+    polyline.points = np.array(points, dtype=float)  # single precision otherwise
+    polyline = split_lines(polyline)[0].compute_cell_sizes(
         length=True, area=False, volume=False
     )
     polyline.cell_data["vtkOriginalCellIds"] = line_ids
-- 
2.43.0


From d40f427096e4cacd2c82ebeb500eecd70e0bbfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:51:57 +0000
Subject: [PATCH 57/69] fix: tolerance of interfaces of structured grids

The tolerance was relative to the coordinates, such that gaps of tens of
meters were accepted between grids with projected coordinates.
---
 pvgridder/utils/_misc.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 7bf7f0c..273bfbf 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -881,11 +881,23 @@ def merge(
         mesh_a = dataset[0]
 
         for mesh_b in dataset[1:]:
+            # Tolerances are relative to the size of the grids (not to their position)
+            eps = max(np.finfo(mesh_.points.dtype).eps for mesh_ in (mesh_a, mesh_b))
+            tol = {
+                k: {
+                    "rtol": 4.0 * eps,
+                    "atol": 1.0e-8
+                    + 1.0e-5
+                    * max(np.ptp(getattr(mesh_, k)) for mesh_ in (mesh_a, mesh_b)),
+                }
+                for k in ("x", "y", "z")
+            }
+
             if axis == 0:
                 if not (
-                    np.allclose(mesh_a.x[-1], mesh_b.x[0])
-                    and np.allclose(mesh_a.y[-1], mesh_b.y[0])
-                    and np.allclose(mesh_a.z[-1], mesh_b.z[0])
+                    np.allclose(mesh_a.x[-1], mesh_b.x[0], **tol["x"])
+                    and np.allclose(mesh_a.y[-1], mesh_b.y[0], **tol["y"])
+                    and np.allclose(mesh_a.z[-1], mesh_b.z[0], **tol["z"])
                 ):
                     raise ValueError(
                         "could not merge structured grids with non-matching east and west interfaces"
@@ -895,9 +907,9 @@ def merge(
 
             elif axis == 1:
                 if not (
-                    np.allclose(mesh_a.x[:, -1], mesh_b.x[:, 0])
-                    and np.allclose(mesh_a.y[:, -1], mesh_b.y[:, 0])
-                    and np.allclose(mesh_a.z[:, -1], mesh_b.z[:, 0])
+                    np.allclose(mesh_a.x[:, -1], mesh_b.x[:, 0], **tol["x"])
+                    and np.allclose(mesh_a.y[:, -1], mesh_b.y[:, 0], **tol["y"])
+                    and np.allclose(mesh_a.z[:, -1], mesh_b.z[:, 0], **tol["z"])
                 ):
                     raise ValueError(
                         "could not merge structured grids with non-matching north and south interfaces"
@@ -907,9 +919,9 @@ def merge(
 
             else:
                 if not (
-                    np.allclose(mesh_a.x[..., -1], mesh_b.x[..., 0])
-                    and np.allclose(mesh_a.y[..., -1], mesh_b.y[..., 0])
-                    and np.allclose(mesh_a.z[..., -1], mesh_b.z[..., 0])
+                    np.allclose(mesh_a.x[..., -1], mesh_b.x[..., 0], **tol["x"])
+                    and np.allclose(mesh_a.y[..., -1], mesh_b.y[..., 0], **tol["y"])
+                    and np.allclose(mesh_a.z[..., -1], mesh_b.z[..., 0], **tol["z"])
                 ):
                     raise ValueError(
                         "could not merge structured grids with non-matching top and bottom interfaces"
-- 
2.43.0


From b0b878ce8a1129cafcc05257ffbd8fa4d01fec60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:19 +0000
Subject: [PATCH 58/69] fix: accept numpy integers as resolutions and
 constraints

---
 pvgridder/core/_helpers.py | 2 +-
 pvgridder/core/stack.py    | 2 +-
 pvgridder/core/voronoi.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pvgridder/core/_helpers.py b/pvgridder/core/_helpers.py
index cbb8bcf..db1e7b0 100644
--- a/pvgridder/core/_helpers.py
+++ b/pvgridder/core/_helpers.py
@@ -501,7 +501,7 @@ def resolution_to_perc(
     """
     resolution = resolution if resolution is not None else 1
 
-    if isinstance(resolution, int):
+    if isinstance(resolution, (int, np.integer)):
         resolution = max(1, resolution)
         method = method if method else "constant"
 
diff --git a/pvgridder/core/stack.py b/pvgridder/core/stack.py
index 28ca86a..d68da5e 100644
--- a/pvgridder/core/stack.py
+++ b/pvgridder/core/stack.py
@@ -120,7 +120,7 @@ class MeshStack2D(MeshStackBase):
         """
         from .. import RegularLine, split_lines
 
-        if isinstance(mesh_or_resolution, int):
+        if isinstance(mesh_or_resolution, (int, np.integer)):
             mesh_or_resolution = RegularLine(
                 self.mesh.points, resolution=mesh_or_resolution
             )
diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index f2e4789..fa85821 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -244,7 +244,7 @@ class VoronoiMesh2D(MeshBase):
         else:
             mesh = mesh_or_points.copy()
 
-        if isinstance(constraint, int):
+        if isinstance(constraint, (int, np.integer)):
             constraint_start = constraint
             constraint_end = constraint
 
-- 
2.43.0


From 740a6b3fb5544f41c53b5d4b01718bb892b885fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:59 +0000
Subject: [PATCH 59/69] fix: truncate Voronoi regions of almost aligned points

---
 pvgridder/core/voronoi.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index fa85821..446e8aa 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -587,21 +587,25 @@ class VoronoiMesh2D(MeshBase):
         new_vertices = voronoi.vertices.tolist()
         new_regions = []
 
+        # Vertices between almost aligned points are too far away to be accurate
+        reach = max(radius, np.ptp(self.mesh.points, axis=0).max() * 1.0e3)
+        far = np.linalg.norm(voronoi.vertices - center, axis=1) > reach
+
         for p1, region in enumerate(voronoi.point_region):
             vertices = voronoi.regions[region]
 
-            if -1 not in vertices:
+            if -1 not in vertices and not far[vertices].any():
                 new_regions.append(vertices)
 
             else:
                 ridge = ridges[p1]
-                new_region = [v for v in vertices if v >= 0]
+                new_region = [v for v in vertices if v >= 0 and not far[v]]
 
                 for p2, v1, v2 in ridge:
-                    if v2 < 0:
+                    if v2 < 0 or far[v2]:
                         v1, v2 = v2, v1
 
-                    if v1 >= 0:
+                    if v2 < 0 or far[v2] or (v1 >= 0 and not far[v1]):
                         continue
 
                     t = voronoi.points[p2] - voronoi.points[p1]
@@ -609,8 +613,15 @@ class VoronoiMesh2D(MeshBase):
                     n = np.array([-t[1], t[0]])
 
                     midpoint = voronoi.points[[p1, p2]].mean(axis=0)
-                    direction = np.sign(np.dot(midpoint - center, n)) * n
-                    far_point = voronoi.vertices[v2] + direction * radius
+
+                    if v1 < 0:
+                        direction = np.sign(np.dot(midpoint - center, n)) * n
+                        far_point = voronoi.vertices[v2] + direction * radius
+
+                    else:
+                        ray = voronoi.vertices[v1] - voronoi.vertices[v2]
+                        direction = np.sign(np.dot(ray, n)) * n
+                        far_point = voronoi.vertices[v2] + direction * reach
 
                     new_region.append(len(new_vertices))
                     new_vertices.append(far_point.tolist())
-- 
2.43.0


From f26b4429e9b5b576bc9d434f59379aa7e357ab02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:44 +0000
Subject: [PATCH 60/69] fix: average_points when no face is left

---
 pvgridder/utils/_misc.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 273bfbf..ec5f040 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -82,10 +82,14 @@ def average_points(mesh: pv.PolyData, tolerance: float = 0.0) -> pv.PolyData:
             decimate(point_map[face], close=True) for face in mesh.irregular_faces
         ]
         faces = [face for face in irregular_faces if face.size > 2]
-        new_mesh = pv.PolyData().from_irregular_faces(new_points, faces)
-        new_mesh.cell_data["vtkOriginalCellIds"] = [
-            i for i, face in enumerate(irregular_faces) if face.size > 2
-        ]
+        new_mesh = (
+            pv.PolyData().from_irregular_faces(new_points, faces)
+            if faces
+            else pv.PolyData()
+        )
+        new_mesh.cell_data["vtkOriginalCellIds"] = np.array(
+            [i for i, face in enumerate(irregular_faces) if face.size > 2], dtype=int
+        )
 
     else:
         new_mesh = pv.PolyData(new_points)
-- 
2.43.0


From 0fe94d75458e65cd5e94abd5b480991fd5415217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:26 +0000
Subject: [PATCH 61/69] fix: keep all the separate parts of the background mesh
 of Voronoi meshes

---
 pvgridder/core/voronoi.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index 446e8aa..80747e0 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -361,7 +361,7 @@ class VoronoiMesh2D(MeshBase):
             2D Voronoi mesh.
 
         """
-        from shapely import Polygon, get_coordinates
+        from shapely import MultiPolygon, Polygon, get_coordinates
 
         from .. import (
             average_points,
@@ -467,12 +467,16 @@ class VoronoiMesh2D(MeshBase):
                 "could not extract boundary polygons for the background mesh"
             )
 
-        boundary_polygon = boundary_polygons[0]
-        boundary = [
-            np.delete(decimate_rdp(polygon).points, self.axis, axis=1)
-            for polygon in boundary_polygon
+        boundaries = [
+            [
+                np.delete(decimate_rdp(polygon).points, self.axis, axis=1)
+                for polygon in boundary_polygon
+            ]
+            for boundary_polygon in boundary_polygons
         ]
-        boundary = Polygon(boundary[0], boundary[1:])
+        boundary = MultiPolygon(
+            [Polygon(boundary[0], boundary[1:]) for boundary in boundaries]
+        )
 
         # Generate polygonal mesh
         points, cells = [], []
-- 
2.43.0


From 73d9c71e2a4325b35600b3bd67c166ac97ad39f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:29 +0000
Subject: [PATCH 62/69] fix: accept numpy integers as new values of categorical
 data

---
 pvgridder/utils/_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index ec5f040..4b6d50a 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -1381,7 +1381,7 @@ def remap_categorical_data(
 
             try:
                 key_ = k if isinstance(k, str) else data_labels_map[vid]
-                data_labels[key_] = v
+                data_labels[key_] = int(v)
 
             except KeyError:
                 pass
-- 
2.43.0


From ee7be448ed29fd432e0981c298d09132ecdd2fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:23 +0000
Subject: [PATCH 63/69] fix: MeshMerge keeps copies of the meshes added

---
 pvgridder/core/merge.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvgridder/core/merge.py b/pvgridder/core/merge.py
index aed03dd..188c7aa 100644
--- a/pvgridder/core/merge.py
+++ b/pvgridder/core/merge.py
@@ -59,7 +59,8 @@ class MeshMerge(MeshBase):
             Self (for daisy chaining).
 
         """
-        mesh = mesh.cast_to_unstructured_grid()
+        # Cast may share its arrays with the input mesh
+        mesh = mesh.cast_to_unstructured_grid().copy()
 
         # Check for existing user_dict
         if "_PYVISTA_USER_DICT" not in mesh.field_data:
-- 
2.43.0


From 49a50360869942235b3e9eabdb966dd93e4e0e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:23 +0000
Subject: [PATCH 64/69] fix: MeshExtrude keeps a copy of the base mesh

---
 pvgridder/core/extrude.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pvgridder/core/extrude.py b/pvgridder/core/extrude.py
index 579a805..f8d102e 100644
--- a/pvgridder/core/extrude.py
+++ b/pvgridder/core/extrude.py
@@ -63,6 +63,9 @@ class MeshExtrude(MeshBase):
         if isinstance(mesh, (pv.ImageData, pv.RectilinearGrid)):
             mesh = mesh.cast_to_structured_grid()
 
+        # Do not depend on later changes of the input mesh
+        mesh = mesh.copy()
+
         super().__init__(default_group, ignore_groups, items=[MeshItem(mesh)])
         self._mesh = mesh
         self._angle = angle
-- 
2.43.0


From 09b320ac870052f53a982f284453685c9a322439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:23 +0000
Subject: [PATCH 65/69] fix: VoronoiMesh2D copies the data of grids without
 explicit points

---
 pvgridder/core/voronoi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/core/voronoi.py b/pvgridder/core/voronoi.py
index 80747e0..53a10cc 100644
--- a/pvgridder/core/voronoi.py
+++ b/pvgridder/core/voronoi.py
@@ -545,7 +545,7 @@ class VoronoiMesh2D(MeshBase):
     def _to_explicit_grid(mesh: pv.DataSet) -> pv.DataSet:
         """Copy a mesh such that the coordinates of its points can be modified."""
         if isinstance(mesh, (pv.ImageData, pv.RectilinearGrid)):
-            return mesh.cast_to_structured_grid()
+            mesh = mesh.cast_to_structured_grid()
 
         return mesh.copy()
 
-- 
2.43.0


From 2891f9575dd34849777d296db6701fe90039230b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:29 +0000
Subject: [PATCH 66/69] fix: repeat the point data of lines in the order of
 their nodes

---
 pvgridder/core/_helpers.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pvgridder/core/_helpers.py b/pvgridder/core/_helpers.py
index db1e7b0..5c02ebe 100644
--- a/pvgridder/core/_helpers.py
+++ b/pvgridder/core/_helpers.py
@@ -143,8 +143,8 @@ def generate_surface_from_two_lines(
 
     """
 
-    def get_points(line: pv.PolyData | ArrayLike) -> NDArray:
-        """Get line points."""
+    def get_points(line: pv.PolyData | ArrayLike) -> tuple[NDArray, NDArray]:
+        """Get line points and their indices."""
         if isinstance(line, pv.PolyData):
             # Use the first continuous polyline if available
             if line.n_lines:
@@ -156,13 +156,15 @@ def generate_surface_from_two_lines(
                 ids = line.irregular_faces[0]
                 ids = np.append(ids, ids[0])
 
-            return line.points[ids]
+            return line.points[ids], ids
 
         else:
-            return np.asanyarray(line)
+            points = np.asanyarray(line)
 
-    line_points_a = get_points(line_a)
-    line_points_b = get_points(line_b)
+            return points, np.arange(len(points))
+
+    line_points_a, line_ids_a = get_points(line_a)
+    line_points_b, _ = get_points(line_b)
 
     if line_points_a.shape != line_points_b.shape:
         raise ValueError(
@@ -220,7 +222,7 @@ def generate_surface_from_two_lines(
             )
 
         for k, v in line_a.point_data.items():
-            mesh.point_data[k] = repeat(v, perc.size).copy()
+            mesh.point_data[k] = repeat(v[line_ids_a], perc.size).copy()
 
         for k, v in line_a.cell_data.items():
             mesh.cell_data[k] = repeat(v, perc.size - 1).copy()
-- 
2.43.0


From 04065935949c598beb71b5fa5deedd928c80a4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:52 +0000
Subject: [PATCH 67/69] fix: decimate_rdp for lines of many points

---
 pvgridder/utils/_misc.py | 52 +++++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index 4b6d50a..e882c86 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -121,33 +121,37 @@ def decimate_rdp(mesh: pv.PolyData, tolerance: float = 1.0e-8) -> pv.PolyData:
     def decimate(points: ArrayLike) -> NDArray:
         """Ramer-Douglas-Packer algorithm."""
         points = np.asanyarray(points)
-        u = points[-1] - points[0]
-        un = np.linalg.norm(u)
-        dist = np.linalg.norm(points - points[0], axis=1)
-
-        if un > 0.0:
-            # Distance to segment
-            t = (points - points[0]) @ u
-            dist = np.where(
-                t < 0.0,
-                dist,
-                np.where(
-                    t > un**2,
-                    np.linalg.norm(points - points[-1], axis=1),
-                    np.linalg.norm(np.cross(u, points[0] - points), axis=1) / un,
-                ),
-            )
-
-        imax = dist.argmax()
+        ids = [0, len(points) - 1]
+        segments = [(0, len(points) - 1)]
+
+        # Depth of a recursion would be limited for long lines
+        while segments:
+            i1, i2 = segments.pop()
+            points_ = points[i1 : i2 + 1]
+            u = points_[-1] - points_[0]
+            un = np.linalg.norm(u)
+            dist = np.linalg.norm(points_ - points_[0], axis=1)
+
+            if un > 0.0:
+                # Distance to segment
+                t = (points_ - points_[0]) @ u
+                dist = np.where(
+                    t < 0.0,
+                    dist,
+                    np.where(
+                        t > un**2,
+                        np.linalg.norm(points_ - points_[-1], axis=1),
+                        np.linalg.norm(np.cross(u, points_[0] - points_), axis=1) / un,
+                    ),
+                )
 
-        if dist[imax] > tolerance:
-            res1 = decimate(points[: imax + 1])
-            res2 = decimate(points[imax:])
+            imax = dist.argmax()
 
-            return np.vstack((res1[:-1], res2))
+            if dist[imax] > max(0.0, tolerance):
+                ids.append(i1 + imax)
+                segments += [(i1, i1 + imax), (i1 + imax, i2)]
 
-        else:
-            return np.vstack((points[0], points[-1]))
+        return points[np.sort(ids)]
 
     lines = []
     points = []
-- 
2.43.0


From a79315935508f4a927f566350af0c8fe286ab358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:42 +0000
Subject: [PATCH 68/69] fix: intersect_polyline for lines of more than 1000
 segments

---
 pvgridder/utils/_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/utils/_misc.py b/pvgridder/utils/_misc.py
index e882c86..c9bcaca 100644
--- a/pvgridder/utils/_misc.py
+++ b/pvgridder/utils/_misc.py
@@ -738,7 +738,7 @@ def intersect_polyline(
     """
     from .. import get_cell_centers
 
-    line_ = cast(pv.PolyData, line.strip())
+    line_ = cast(pv.PolyData, line.strip(max_length=line.lines.size))
     lines = split_lines(line_, as_lines=True)[0]
 
     # Recenter coordinates around zero to prevent accuracy issues
-- 
2.43.0


From 4579b12e583cc2a00b647eb3bb553b4e6418540b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:42 +0000
Subject: [PATCH 69/69] fix: surfaces from lines of more than 1000 segments

---
 pvgridder/core/_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvgridder/core/_helpers.py b/pvgridder/core/_helpers.py
index 5c02ebe..1e7a1de 100644
--- a/pvgridder/core/_helpers.py
+++ b/pvgridder/core/_helpers.py
@@ -148,7 +148,7 @@ def generate_surface_from_two_lines(
         if isinstance(line, pv.PolyData):
             # Use the first continuous polyline if available
             if line.n_lines:
-                lines = line.strip(join=True).lines
+                lines = line.strip(join=True, max_length=line.lines.size).lines
                 ids = lines[1 : lines[0] + 1]
 
             # Use the first polygon otherwise
-- 
2.43.0

