From 8a3b75589ea8db8427757efbcb76039dafe5c877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:53 +0000
Subject: [PATCH 01/19] fix: vertices inside a fixed side are not Neumann
 vertices

The tag of such a vertex is 0, which put it into both parts of the boundary.
Refining a grid did not reproduce this, so a refined grid differed from the
uniform grid of the finer scale (tests/test_domain.py::test_equilateral_grid_refine).
---
 src/tvemoves_rufbad/domain.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tvemoves_rufbad/domain.py b/src/tvemoves_rufbad/domain.py
index 35c110b..ad47f66 100644
--- a/src/tvemoves_rufbad/domain.py
+++ b/src/tvemoves_rufbad/domain.py
@@ -510,7 +510,7 @@ class RectangleDomain(Domain):
         )
         boundary = Boundary(boundary_vertices, boundary_edges)
 
-        # 1 / 0 => Neumann, 0 / -1 => Dirichlet
+        # 0 / -1 => Dirichlet
         boundary_vertices_tags = {i: 1 for i in boundary_vertices}
         dirichlet_edges = set()
         neumann_edges = set(boundary_edges)
@@ -544,8 +544,10 @@ class RectangleDomain(Domain):
                         neumann_edges.difference_update(left_boundary_edges)
         dirichlet_vertices = []
         neumann_vertices = []
+        # A vertex inside a fixed side is not an end point of any Neumann edge.
+        neumann_edge_vertices = {i for edge in neumann_edges for i in edge}
         for i, tag in boundary_vertices_tags.items():
-            if tag >= 0:
+            if i in neumann_edge_vertices:
                 neumann_vertices.append(i)
             if tag <= 0:
                 dirichlet_vertices.append(i)
-- 
2.43.0


From 1bc606cb21ff9f4b2fc1b9de6ed8aba61291d308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:53 +0000
Subject: [PATCH 02/19] fix: fine diagonal edges have the orientation of the
 coarse diagonal

They were added in the opposite direction of the one under which their coarse
edge is stored, so to_coarse_edge_point rejected every fine edge on a coarse diagonal.
---
 src/tvemoves_rufbad/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tvemoves_rufbad/domain.py b/src/tvemoves_rufbad/domain.py
index ad47f66..f194455 100644
--- a/src/tvemoves_rufbad/domain.py
+++ b/src/tvemoves_rufbad/domain.py
@@ -823,7 +823,7 @@ def _refine_equilateral_triangle(
             intermediate_grid.append_edge(
                 assure_orientation(
                     diagonal_edge_correct,
-                    (triangle_vertices[(k, l)], triangle_vertices[(k, l + 1)]),
+                    (triangle_vertices[(k, l + 1)], triangle_vertices[(k, l)]),
                 )
             )
 
-- 
2.43.0


From 4bd950f756bb07f869d809d85f203b39d262bca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 03/19] fix: rotate the weights along with a rotated fine
 triangle

A fine triangle given in another cyclic order was accepted, but its weights were
applied to the corners in the stored order, which gave a different point.
---
 src/tvemoves_rufbad/domain.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/tvemoves_rufbad/domain.py b/src/tvemoves_rufbad/domain.py
index f194455..740dd9d 100644
--- a/src/tvemoves_rufbad/domain.py
+++ b/src/tvemoves_rufbad/domain.py
@@ -345,18 +345,22 @@ class RefinedGrid(Grid):
         """Transform a barycentric point in the fine mesh to a barycentric point in the coarse mesh"""
         fine_triangle = fine_point.triangle
         i1, i2, i3 = fine_triangle
+        p = fine_point.coordinates
+        p_data = (p.l1, p.l2, p.l3)
         if (i1, i2, i3) not in self.triangles:
             if (i2, i3, i1) in self.triangles:
                 fine_triangle = (i2, i3, i1)
+                p_data = (p.l2, p.l3, p.l1)
             elif (i3, i1, i2) in self.triangles:
                 fine_triangle = (i3, i1, i2)
+                p_data = (p.l3, p.l1, p.l2)
             else:
                 raise ValueError("triangle does not appear in the grid")
         coarse_triangle = self._coarse_triangle[fine_triangle]
-        p = fine_point.coordinates
+        l1, l2, l3 = p_data
         q1, q2, q3 = self._coarse_barycentric_coordinates[fine_triangle]
         coarse_barycentric_coordinates = BarycentricCoordinates(
-            p.l1 * q1.l1 + p.l2 * q2.l1 + p.l3 * q3.l1, p.l1 * q1.l2 + p.l2 * q2.l2 + p.l3 * q3.l2
+            l1 * q1.l1 + l2 * q2.l1 + l3 * q3.l1, l1 * q1.l2 + l2 * q2.l2 + l3 * q3.l2
         )
         return BarycentricPoint(coarse_triangle, coarse_barycentric_coordinates)
 
-- 
2.43.0


From dd2973f0f4d32588143120016b2dc89efa0754ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 04/19] fix: refine refined grids of larger domains

The absolute tolerance of 1e-15 for horizontal and vertical edges is exceeded by the
rounding of refined points as soon as coordinates are larger than about 4. Refining the
refined grid, which every regularized step does for plotting, then failed.
---
 src/tvemoves_rufbad/domain.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tvemoves_rufbad/domain.py b/src/tvemoves_rufbad/domain.py
index 740dd9d..4cf578c 100644
--- a/src/tvemoves_rufbad/domain.py
+++ b/src/tvemoves_rufbad/domain.py
@@ -702,7 +702,8 @@ def _refine_equilateral_triangle(
 
     i1, i2, i3 = triangle
     p1, p2, p3 = grid.triangle_vertices(triangle)
-    eps = 1e-15
+    # rounding errors of the points scale with the size of the grid
+    eps = 1e-7 * ((p2 - p1).norm() + (p3 - p2).norm())
     assert abs(p1[1] - p2[1]) < eps, "First edge of an equilateral triangle must be horizontal"
     assert abs(p2[0] - p3[0]) < eps, "Second edge of an equilateral triangle must be vertical"
 
-- 
2.43.0


From 2c8e4c24bc0abeaf5ccffa616e4c9d4b48171463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 05/19] fix: make the tolerance of the point location relative
 to the triangle

With the absolute tolerance, every point near a grid of scale below about 1e-5 was located
in the first triangle, and points on the outline of large grids were located in none.
---
 src/tvemoves_rufbad/domain.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tvemoves_rufbad/domain.py b/src/tvemoves_rufbad/domain.py
index 4cf578c..ea69fb8 100644
--- a/src/tvemoves_rufbad/domain.py
+++ b/src/tvemoves_rufbad/domain.py
@@ -48,9 +48,10 @@ def _sign(triangle_vertices: TriangleVertices):
 
 def _triangle_contains_point(triangle_vertices: TriangleVertices, p: Vector) -> bool:
     """Determine if a point is contained in a triangle."""
-    eps = 1e-10
-
     p1, p2, p3 = triangle_vertices
+    # _sign has the dimension of an area
+    eps = 1e-10 * ((p2 - p1).normsqr() + (p3 - p2).normsqr() + (p1 - p3).normsqr())
+
     d1 = _sign((p, p1, p2))
     d2 = _sign((p, p2, p3))
     d3 = _sign((p, p3, p1))
-- 
2.43.0


From 18b2e3677fc068488bc50e83814ae1656a729465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 06/19] fix: do not lose the last row of cells to rounding

For example RectangleDomain(0.3, 0.3).grid(0.1) had only two rows of cells.
---
 src/tvemoves_rufbad/domain.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/tvemoves_rufbad/domain.py b/src/tvemoves_rufbad/domain.py
index ea69fb8..004765c 100644
--- a/src/tvemoves_rufbad/domain.py
+++ b/src/tvemoves_rufbad/domain.py
@@ -1,6 +1,7 @@
 """"Domain class that in particular can create grids"""
 
 from dataclasses import dataclass
+from math import isclose
 from typing import Literal, Protocol, Dict
 from abc import ABC
 from copy import deepcopy
@@ -409,6 +410,14 @@ class Domain(Protocol):
 FixOption = Literal["lower", "right", "upper", "left"]
 
 
+def _num_cells(length: float, scale: float) -> int:
+    """Number of cells of size `scale` that fit into `length`."""
+    num_cells = length / scale
+    # E.g. 0.3 / 0.1 is slightly smaller than 3
+    nearest = round(num_cells)
+    return nearest if isclose(num_cells, nearest, rel_tol=1e-9) else int(num_cells)
+
+
 class RectangleDomain(Domain):
     """Rectangular reference domain."""
 
@@ -428,8 +437,8 @@ class RectangleDomain(Domain):
         If `scale` does not evenly divide the width or height of the rectangle (only) the rightmost
         or uppermost edges of the grid might not align exactly with the rectangle boundary.
         """
-        num_horizontal_vertices = int(self.width / scale) + 1
-        num_vertical_vertices = int(self.height / scale) + 1
+        num_horizontal_vertices = _num_cells(self.width, scale) + 1
+        num_vertical_vertices = _num_cells(self.height, scale) + 1
 
         def pair_to_vertex(i, j):
             # left to right, bottom to top
-- 
2.43.0


From 23a702ccb8379355933e201c3787dfb41bdb65a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 07/19] fix: check all indices of a 3-d tensor

Negative second and third indices silently counted from the end.
---
 src/tvemoves_rufbad/tensors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tvemoves_rufbad/tensors.py b/src/tvemoves_rufbad/tensors.py
index c0d88ff..a8309e6 100644
--- a/src/tvemoves_rufbad/tensors.py
+++ b/src/tvemoves_rufbad/tensors.py
@@ -386,9 +386,9 @@ class Tensor3D:
         i, j, k = index
         if i < 0 or i >= self.shape[0]:
             raise IndexError(f"index {i} is out of bounds for axis 0 with size {self.shape[0]}")
-        if i < 0 or i >= self.shape[0]:
+        if j < 0 or j >= self.shape[1]:
             raise IndexError(f"index {j} is out of bounds for axis 1 with size {self.shape[1]}")
-        if i < 0 or i >= self.shape[0]:
+        if k < 0 or k >= self.shape[2]:
             raise IndexError(f"index {k} is out of bounds for axis 2 with size {self.shape[2]}")
         return self.data[i][j][k]
 
-- 
2.43.0


From d87561b1d959ce7e2f6e2c4b1992252145b21080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 08/19] fix: reject scalar products of vectors of different
 sizes

The surplus components were silently dropped, unlike in all other operations.
---
 src/tvemoves_rufbad/tensors.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tvemoves_rufbad/tensors.py b/src/tvemoves_rufbad/tensors.py
index a8309e6..8b5bba0 100644
--- a/src/tvemoves_rufbad/tensors.py
+++ b/src/tvemoves_rufbad/tensors.py
@@ -70,6 +70,10 @@ class Vector:
 
     def dot(self, other: Vector):
         """Compute the scalar product with another vector."""
+        if self.size != other.size:
+            raise ValueError(
+                f"vectors of sizes {self.size} and {other.size} cannot be scalar multiplied"
+            )
         return sum(x * y for x, y in zip(self.data, other.data))
 
     def map(self, f: Callable) -> Vector:
-- 
2.43.0


From 6ab2c88a1482f55b1296747533d15289618af94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 09/19] fix: plot a grid without a given axis

fig_axis was called without its limits.
---
 src/tvemoves_rufbad/domain.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/tvemoves_rufbad/domain.py b/src/tvemoves_rufbad/domain.py
index 004765c..ca7fd18 100644
--- a/src/tvemoves_rufbad/domain.py
+++ b/src/tvemoves_rufbad/domain.py
@@ -150,15 +150,14 @@ class Grid(ABC):
             p, q = self.points[i], self.points[j]
             ax.plot([p[0], q[0]], [p[1], q[1]], color="black", linewidth=PLOT_LINEWIDTH)
 
-    def plot(self, ax):
+    def plot(self, ax=None):
         """Returns matplotlib plot of the grid."""
+        new_xlim = (-PLOT_BORDER, max(p[0] for p in self.points) + PLOT_BORDER)
+        new_ylim = (-PLOT_BORDER, max(p[1] for p in self.points) + PLOT_BORDER)
         if ax is None:
-            _, ax = fig_axis()
+            _, ax = fig_axis(new_xlim, new_ylim)
 
-        new_xlim = (-PLOT_BORDER, max(p[0] for p in self.points) + PLOT_BORDER)
         _adjust_xlim(ax, new_xlim)
-
-        new_ylim = (-PLOT_BORDER, max(p[1] for p in self.points) + PLOT_BORDER)
         _adjust_ylim(ax, new_ylim)
 
         self._plot_vertices(ax)
-- 
2.43.0


From 92036ef83baad3056a1333984516fb4a7f49d9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 10/19] fix: reject a frame rate of zero

It was accepted, against the error message, and then divided by.
---
 src/tvemoves_rufbad/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tvemoves_rufbad/simulation.py b/src/tvemoves_rufbad/simulation.py
index a7ab17d..6cfe32c 100644
--- a/src/tvemoves_rufbad/simulation.py
+++ b/src/tvemoves_rufbad/simulation.py
@@ -182,7 +182,7 @@ class SimulationParams:
                 f"search radius must be positive but {self.search_radius} was provided"
             )
 
-        if self.fps < 0:
+        if self.fps <= 0:
             raise ValueError(f"fps must be positive but {self.fps} was provided")
 
         if self.regularization is not None and self.regularization < 0:
-- 
2.43.0


From b717ef446c3d743fa0873ced0e04bcfe9c3a9e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 11/19] fix: resume a failed run from the last recorded step

If the thermal solve (or a callback before it) failed or was interrupted, the thermal step
already held the deformation of the unfinished step. Running again then started from that
deformation and the old temperature, a state which is not part of the history.
---
 src/tvemoves_rufbad/simulation.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/tvemoves_rufbad/simulation.py b/src/tvemoves_rufbad/simulation.py
index 6cfe32c..a77450c 100644
--- a/src/tvemoves_rufbad/simulation.py
+++ b/src/tvemoves_rufbad/simulation.py
@@ -46,6 +46,10 @@ class AbstractStep(ABC):
         self.y = y
         self.theta = theta
 
+    def data(self) -> tuple[npt.NDArray[np.float64], npt.NDArray[np.float64]]:
+        """Return deformation and temperature data."""
+        return self._y_data, self._theta_data
+
     def __repr__(self):
         return f"Step(y={repr(self._y_data)}, theta={repr(self._theta_data)})"
 
@@ -322,8 +326,11 @@ class Simulation:
         anim.save(filename + ".mp4", fps=30, dpi=300, extra_args=["-vcodec", "libx264"])
 
     def _update_mechanical_step(self):
-        self._mechanical_step.update_prev_y(self._thermal_step.y())
-        self._mechanical_step.update_prev_theta(self._thermal_step.theta())
+        # Continue from the last recorded step, as the thermal step might have been left in an
+        # intermediate state by a failed or interrupted run.
+        y_data, theta_data = self.steps[-1].data()
+        self._mechanical_step.update_prev_y(y_data)
+        self._mechanical_step.update_prev_theta(theta_data)
         self._mechanical_step.update_boundary_traction(self._current_time)
 
     def _update_thermal_step(self):
-- 
2.43.0


From ae48dc2a0271b12fd9efdf10ee78b87e4f9f7205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 12/19] fix: compute the plot limits of regularized steps from
 positions only

The derivatives among the C1 parameters were treated like positions.
---
 src/tvemoves_rufbad/simulation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tvemoves_rufbad/simulation.py b/src/tvemoves_rufbad/simulation.py
index a77450c..5b2c4c3 100644
--- a/src/tvemoves_rufbad/simulation.py
+++ b/src/tvemoves_rufbad/simulation.py
@@ -342,8 +342,9 @@ class Simulation:
     def _append_step(self, y_data: npt.NDArray[np.float64], theta_data: npt.NDArray[np.float64]):
         # Update variables required for plotting
         self._max_temp = max(self._max_temp, np.max(theta_data))
-        x_coords = y_data[:, 0]
-        y_coords = y_data[:, 1]
+        # In the regularized setting only the first parameters are positions
+        x_coords = y_data[:, 0] if y_data.ndim == 2 else y_data[:, 0, 0]
+        y_coords = y_data[:, 1] if y_data.ndim == 2 else y_data[:, 1, 0]
         self._xlims = (min(self._xlims[0], np.min(x_coords)), max(self._xlims[1], np.max(x_coords)))
         self._ylims = (min(self._ylims[0], np.min(y_coords)), max(self._ylims[1], np.max(y_coords)))
 
-- 
2.43.0


From 71c7af25cc88bd335a893049b5cdedc1a9ca9f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 13/19] fix: do not fail on temperatures that the solver rounds
 below zero

Ipopt (3.14, as pinned in environment.yml) relaxes bounds by about 1e-8 and does not
project the solution back. Such a temperature was recorded as it is and made the next
step fail, because the temperature parameters only accept non-negative values.
---
 src/tvemoves_rufbad/thermal_step.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/tvemoves_rufbad/thermal_step.py b/src/tvemoves_rufbad/thermal_step.py
index 523e678..5fc03dc 100644
--- a/src/tvemoves_rufbad/thermal_step.py
+++ b/src/tvemoves_rufbad/thermal_step.py
@@ -345,6 +345,11 @@ def _model_regularized(
     return m
 
 
+def _project_temperature(theta: npt.NDArray[np.float64]) -> npt.NDArray[np.float64]:
+    """Solvers respect the bound theta >= 0 only up to a tolerance."""
+    return np.maximum(theta, 0.0)
+
+
 class _ThermalStep(AbstractThermalStep):
     """Thermal step without regularization using P1 finite elements for the deformation."""
 
@@ -388,7 +393,7 @@ class _ThermalStep(AbstractThermalStep):
     def theta(self) -> npt.NDArray[np.float64]:
         """Return the current temperature as vector of length N, where N is the number of vertices."""
         m = self._model
-        return np.array([m.theta[i].value for i in m.vertices])
+        return _project_temperature(np.array([m.theta[i].value for i in m.vertices]))
 
     def update_prev_y(self, new_prev_y: npt.NDArray[np.float64]) -> None:
         if new_prev_y.shape != (self._num_vertices, 2):
@@ -508,7 +513,9 @@ class _ThermalStepRegularized(AbstractThermalStep):
         """Return the current temperature as a vector of length N_ref, where N_ref is the number of
         vertices of the refined grid.
         """
-        return np.array([self._model.theta[i].value for i in list(self._model.refined_vertices)])
+        return _project_temperature(
+            np.array([self._model.theta[i].value for i in list(self._model.refined_vertices)])
+        )
 
     def update_prev_y(self, new_prev_y: npt.NDArray[np.float64]) -> None:
         m = self._model
-- 
2.43.0


From 2ddc27404aca0d3932ec3f20fc783b2418530b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:00 +0000
Subject: [PATCH 14/19] fix: draw grids with negative coordinates in a window
 that contains them

---
 src/tvemoves_rufbad/domain.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tvemoves_rufbad/domain.py b/src/tvemoves_rufbad/domain.py
index ca7fd18..24f0f14 100644
--- a/src/tvemoves_rufbad/domain.py
+++ b/src/tvemoves_rufbad/domain.py
@@ -152,8 +152,10 @@ class Grid(ABC):
 
     def plot(self, ax=None):
         """Returns matplotlib plot of the grid."""
-        new_xlim = (-PLOT_BORDER, max(p[0] for p in self.points) + PLOT_BORDER)
-        new_ylim = (-PLOT_BORDER, max(p[1] for p in self.points) + PLOT_BORDER)
+        x = [p[0] for p in self.points]
+        y = [p[1] for p in self.points]
+        new_xlim = (min(x) - PLOT_BORDER, max(x) + PLOT_BORDER)
+        new_ylim = (min(y) - PLOT_BORDER, max(y) + PLOT_BORDER)
         if ax is None:
             _, ax = fig_axis(new_xlim, new_ylim)
 
-- 
2.43.0


From ce374f1b185d9b4d63d1f36712e0dbe039451d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:32 +0000
Subject: [PATCH 15/19] fix: do not add equations for the fixed positions of
 regularized steps

The positions of the vertices on fixed sides are fixed variables, so the equations for them
contain no unknowns. They only lower the number of degrees of freedom: with all sides of a
small grid fixed the solver was given more equations than unknowns and refused the problem.
---
 src/tvemoves_rufbad/mechanical_step.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tvemoves_rufbad/mechanical_step.py b/src/tvemoves_rufbad/mechanical_step.py
index b65c5eb..34f2596 100644
--- a/src/tvemoves_rufbad/mechanical_step.py
+++ b/src/tvemoves_rufbad/mechanical_step.py
@@ -375,14 +375,14 @@ def _dirichlet_constraint_regularized(y, edge, edge_vertices, constraint_id, y_c
     i += 1
     j += 1
     match constraint_id:
-        case 1:
-            return y[i, 1] == p[y_component]
+        case 1 | 4:
+            # The positions of the vertices are fixed. An equation without unknowns would only
+            # reduce the number of degrees of freedom counted by the solver.
+            return pyo.Constraint.Skip
         case 2:
             return y[i, 2] * d[0] + y[i, 3] * d[1] == d[y_component]
         case 3:
             return y[i, 4] * d[0] ** 2 + 2 * y[i, 5] * d[0] * d[1] + y[i, 6] * d[1] ** 2 == 0
-        case 4:
-            return y[j, 1] == q[y_component]
         case 5:
             return y[j, 2] * d[0] + y[j, 3] * d[1] == d[y_component]
         case 6:
-- 
2.43.0


From 5c7620c5b9a052b70a606dce9b0c9b2ee7916b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:32 +0000
Subject: [PATCH 16/19] fix: record steps in the setting the simulation was
 created with

Changing the parameter object after a simulation was created, for instance to create the next
one, made the first simulation fail when its next step was recorded.
---
 src/tvemoves_rufbad/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tvemoves_rufbad/simulation.py b/src/tvemoves_rufbad/simulation.py
index 5b2c4c3..9576fe1 100644
--- a/src/tvemoves_rufbad/simulation.py
+++ b/src/tvemoves_rufbad/simulation.py
@@ -351,7 +351,7 @@ class Simulation:
         # Add newest step
         step = (
             Step(y_data, theta_data, self._domain, self._grid)
-            if self.params.regularization is None
+            if self._refined_grid is None
             else RegularizedStep(y_data, theta_data, self._domain, self._grid, self._refined_grid)
         )
         self.steps.append(step)
-- 
2.43.0


From d38f2012c0b919a7df5a96a10c3293cd3006cf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:32 +0000
Subject: [PATCH 17/19] fix: do not accumulate rounding errors in the time of
 the loads

The time is now computed from the number of recorded steps. The accumulated one was slightly too
small or too large, so that loads changing at the time of a step changed one step too late or too
early. It was also not updated if a run was interrupted right after a step was recorded.
---
 src/tvemoves_rufbad/simulation.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/tvemoves_rufbad/simulation.py b/src/tvemoves_rufbad/simulation.py
index 9576fe1..11bf2cd 100644
--- a/src/tvemoves_rufbad/simulation.py
+++ b/src/tvemoves_rufbad/simulation.py
@@ -265,8 +265,7 @@ class Simulation:
 
         # Add initial step
         self.steps: list[AbstractStep] = []
-        self._tau = 1 / self.params.fps
-        self._current_time = -self._tau
+        self._fps = self.params.fps
         self._max_temp = 0
         self._xlims = (float("inf"), float("-inf"))
         self._ylims = (float("inf"), float("-inf"))
@@ -356,8 +355,11 @@ class Simulation:
         )
         self.steps.append(step)
 
-        # Update time
-        self._current_time += self._tau
+    @property
+    def _current_time(self) -> float:
+        """Time of the last recorded step. It is not accumulated, as the rounding errors would let
+        loads, that change at the time of a step, change one step too late or too early."""
+        return (len(self.steps) - 1) / self._fps
 
     def _run_single_step(self):
         self._update_mechanical_step()
-- 
2.43.0


From d5383e44a81dae2b46d0a61d71e7d910516eeb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:39 +0000
Subject: [PATCH 18/19] fix: reject negative temperatures before any of them is
 stored

---
 src/tvemoves_rufbad/helpers.py         | 6 ++++++
 src/tvemoves_rufbad/mechanical_step.py | 3 +++
 src/tvemoves_rufbad/thermal_step.py    | 4 ++++
 3 files changed, 13 insertions(+)

diff --git a/src/tvemoves_rufbad/helpers.py b/src/tvemoves_rufbad/helpers.py
index 700c1f9..85f6b8d 100644
--- a/src/tvemoves_rufbad/helpers.py
+++ b/src/tvemoves_rufbad/helpers.py
@@ -170,6 +170,12 @@ def heat_conductivity_reference(strain: Matrix) -> Matrix:
     return strain.det() * strain_inverse @ HEAT_CONDUCTIVITY @ strain_inverse.transpose()
 
 
+def check_temperature(theta) -> None:
+    """Raise if any of the provided temperatures is not a nonnegative number."""
+    if not (theta >= 0).all():
+        raise ValueError("Temperatures must not be negative")
+
+
 def compose_to_integrand(outer, *inner):
     """Compose an admissable integrand 'inner' with a function 'outer' to create a new integrand."""
     return lambda *args: outer(*(f(*args) for f in inner))
diff --git a/src/tvemoves_rufbad/mechanical_step.py b/src/tvemoves_rufbad/mechanical_step.py
index 34f2596..0d6dac9 100644
--- a/src/tvemoves_rufbad/mechanical_step.py
+++ b/src/tvemoves_rufbad/mechanical_step.py
@@ -17,6 +17,7 @@ from tvemoves_rufbad.integrators import Integrator, BoundaryIntegrator
 from tvemoves_rufbad.tensors import Vector
 from tvemoves_rufbad.domain import Grid, RefinedGrid
 from tvemoves_rufbad.helpers import (
+    check_temperature,
     total_elastic_potential,
     compose_to_integrand,
     dissipation_potential,
@@ -241,6 +242,7 @@ class _MechanicalStep(AbstractMechanicalStep):
                 f"Input array has incorrect shape {new_prev_theta.shape} (should be"
                 f" {(self._num_vertices,)})"
             )
+        check_temperature(new_prev_theta)
 
         m = self._model
         for i in m.vertices:
@@ -489,6 +491,7 @@ class _MechanicalStepRegularized(AbstractMechanicalStep):
                 f"Input array has incorrect shape {new_prev_theta.shape} (should be"
                 f" {(len(refined_vertices),)})"
             )
+        check_temperature(new_prev_theta)
 
         for i in refined_vertices:
             self._model.prev_theta[i] = new_prev_theta[i - 1]
diff --git a/src/tvemoves_rufbad/thermal_step.py b/src/tvemoves_rufbad/thermal_step.py
index 5fc03dc..5528b3e 100644
--- a/src/tvemoves_rufbad/thermal_step.py
+++ b/src/tvemoves_rufbad/thermal_step.py
@@ -16,6 +16,7 @@ from tvemoves_rufbad.interpolation import (
 from tvemoves_rufbad.integrators import Integrator, BoundaryIntegrator
 from tvemoves_rufbad.quadrature_rules import DUNAVANT2, DUNAVANT5
 from tvemoves_rufbad.helpers import (
+    check_temperature,
     heat_conductivity_reference,
     dissipation_rate,
     strain_derivative_coupling_potential,
@@ -429,6 +430,7 @@ class _ThermalStep(AbstractThermalStep):
                 f"Input array has incorrect shape {new_prev_theta.shape} (should be"
                 f" {(self._num_vertices,)})"
             )
+        check_temperature(new_prev_theta)
 
         m = self._model
         for i in m.vertices:
@@ -542,6 +544,8 @@ class _ThermalStepRegularized(AbstractThermalStep):
                 f"Input array has incorrect shape {new_prev_theta.shape} (should be"
                 f" {(len(refined_vertices),)})"
             )
+        check_temperature(new_prev_theta)
+
         m = self._model
         for i in refined_vertices:
             m.prev_theta[i] = new_prev_theta[i - 1]
-- 
2.43.0


From 8c6ebdbb5452590026d7b3011a744be730a835c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:06 +0000
Subject: [PATCH 19/19] fix: reject deformations and temperatures that are not
 finite before any of them is stored

---
 src/tvemoves_rufbad/helpers.py         | 12 +++++++++---
 src/tvemoves_rufbad/mechanical_step.py |  3 +++
 src/tvemoves_rufbad/thermal_step.py    |  5 +++++
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/tvemoves_rufbad/helpers.py b/src/tvemoves_rufbad/helpers.py
index 85f6b8d..6f41c72 100644
--- a/src/tvemoves_rufbad/helpers.py
+++ b/src/tvemoves_rufbad/helpers.py
@@ -170,10 +170,16 @@ def heat_conductivity_reference(strain: Matrix) -> Matrix:
     return strain.det() * strain_inverse @ HEAT_CONDUCTIVITY @ strain_inverse.transpose()
 
 
+def check_deformation(y) -> None:
+    """Raise if any of the provided values is not a finite number."""
+    if not (abs(y) < float("inf")).all():
+        raise ValueError("Deformations must be finite")
+
+
 def check_temperature(theta) -> None:
-    """Raise if any of the provided temperatures is not a nonnegative number."""
-    if not (theta >= 0).all():
-        raise ValueError("Temperatures must not be negative")
+    """Raise if any of the provided temperatures is not a finite nonnegative number."""
+    if not ((theta >= 0) & (theta < float("inf"))).all():
+        raise ValueError("Temperatures must be finite and must not be negative")
 
 
 def compose_to_integrand(outer, *inner):
diff --git a/src/tvemoves_rufbad/mechanical_step.py b/src/tvemoves_rufbad/mechanical_step.py
index 0d6dac9..59b7fd6 100644
--- a/src/tvemoves_rufbad/mechanical_step.py
+++ b/src/tvemoves_rufbad/mechanical_step.py
@@ -17,6 +17,7 @@ from tvemoves_rufbad.integrators import Integrator, BoundaryIntegrator
 from tvemoves_rufbad.tensors import Vector
 from tvemoves_rufbad.domain import Grid, RefinedGrid
 from tvemoves_rufbad.helpers import (
+    check_deformation,
     check_temperature,
     total_elastic_potential,
     compose_to_integrand,
@@ -217,6 +218,7 @@ class _MechanicalStep(AbstractMechanicalStep):
                 f"Input array has incorrect shape {new_prev_y.shape} (should be"
                 f" {(self._num_vertices, 2)})"
             )
+        check_deformation(new_prev_y)
 
         new_prev_y1 = new_prev_y[:, 0]
         new_prev_y2 = new_prev_y[:, 1]
@@ -465,6 +467,7 @@ class _MechanicalStepRegularized(AbstractMechanicalStep):
                 f"Input array has incorrect shape {new_prev_y.shape} (should be"
                 f" {(len(vertices), 2, 6)})"
             )
+        check_deformation(new_prev_y)
 
         new_prev_y1 = new_prev_y[:, 0, :]
         new_prev_y2 = new_prev_y[:, 1, :]
diff --git a/src/tvemoves_rufbad/thermal_step.py b/src/tvemoves_rufbad/thermal_step.py
index 5528b3e..532aae0 100644
--- a/src/tvemoves_rufbad/thermal_step.py
+++ b/src/tvemoves_rufbad/thermal_step.py
@@ -16,6 +16,7 @@ from tvemoves_rufbad.interpolation import (
 from tvemoves_rufbad.integrators import Integrator, BoundaryIntegrator
 from tvemoves_rufbad.quadrature_rules import DUNAVANT2, DUNAVANT5
 from tvemoves_rufbad.helpers import (
+    check_deformation,
     check_temperature,
     heat_conductivity_reference,
     dissipation_rate,
@@ -402,6 +403,7 @@ class _ThermalStep(AbstractThermalStep):
                 f"Input array has incorrect shape {new_prev_y.shape} (should be"
                 f" {(self._num_vertices, 2)})"
             )
+        check_deformation(new_prev_y)
 
         new_prev_y1 = new_prev_y[:, 0]
         new_prev_y2 = new_prev_y[:, 1]
@@ -416,6 +418,7 @@ class _ThermalStep(AbstractThermalStep):
                 f"Input array has incorrect shape {new_y.shape} (should be"
                 f" {(self._num_vertices, 2)})"
             )
+        check_deformation(new_y)
 
         new_y1 = new_y[:, 0]
         new_y2 = new_y[:, 1]
@@ -529,6 +532,7 @@ class _ThermalStepRegularized(AbstractThermalStep):
                 f"Input array has incorrect shape {new_prev_y.shape} (should be"
                 f" {(len(vertices), 2, 6)})"
             )
+        check_deformation(new_prev_y)
 
         new_prev_y1 = new_prev_y[:, 0, :]
         new_prev_y2 = new_prev_y[:, 1, :]
@@ -564,6 +568,7 @@ class _ThermalStepRegularized(AbstractThermalStep):
             raise ValueError(
                 f"Input array has incorrect shape {new_y.shape} (should be {(len(vertices), 2, 6)})"
             )
+        check_deformation(new_y)
 
         new_y1 = new_y[:, 0, :]
         new_y2 = new_y[:, 1, :]
-- 
2.43.0

