"""Planted bugs, second batch (python3 tools/seed.py tools/bugs2.py)."""

import pathlib

_first = {}
exec((pathlib.Path("/verif/tools/bugs1.py")).read_text(), _first)
SIM = _first["SIM"]

BUGS = [
    dict(
        id="b01-close", property="C01",
        edits=[("domain.py", "return (p1 - p2).norm() < eps", "return (p1 - p2).normsqr() < eps")],
        demo='''
from tvemoves_rufbad.domain import RectangleDomain
from tvemoves_rufbad.tensors import Vector
g = RectangleDomain(2, 1).grid(0.5)
assert g.point_to_vertex(Vector([0.5, 0.5])) == 6
assert g.point_to_vertex(Vector([0.5001, 0.5])) is None
''',
        needs="looking up a point that is close to a vertex", breaks="points that do not belong to the grid are taken for vertices"),
    dict(
        id="b01-lookup", property="C01",
        edits=[("domain.py", "        if triangle not in self.triangles:", "        if sorted(triangle) not in [sorted(t) for t in self.triangles]:")],
        demo='''
from tvemoves_rufbad.domain import RectangleDomain
g = RectangleDomain(1, 1).grid(0.5)
a, b, c = g.triangles[1]
try:
    g.triangle_vertices((b, a, c))
except ValueError:
    pass
else:
    raise AssertionError("clockwise triangle accepted")
''',
        needs="a triangle listed in clockwise order", breaks="a triangle that is not in the grid is not rejected"),
    dict(
        id="b02-consumed", property="C02",
        edits=[("domain.py", "fixes = list(set(self.fix))", "fixes = self.fix"),
               ("domain.py", "            for fix in fixes:\n                match fix:", "            while fixes:\n                fix = fixes.pop()\n                match fix:")],
        demo='''
from tvemoves_rufbad.domain import RectangleDomain
d = RectangleDomain(1, 1, fix=["left", "lower"])
assert len(d.grid(0.5).dirichlet_boundary.edges) == 4
assert len(d.grid(0.25).dirichlet_boundary.edges) == 8
''',
        needs="a second grid of the same domain whose sides are given as a list", breaks="the list of sides is used up by the first grid, later ones have no fixed part"),
    dict(
        id="b03-hint", property="C03",
        edits=[("domain.py", "        for triangle in self.triangles:\n            i1, i2, i3 = triangle\n            triangle_vertices = (self.points[i1], self.points[i2], self.points[i3])\n            if _triangle_contains_point(triangle_vertices, p):\n                return",
                "        hint = self.__dict__.get(\"_hint\")\n        if hint is not None:\n            # neighboring points are often located in the same triangle\n            corners = [self.points[i] for i in hint]\n            if not all(min(c[d] for c in corners) <= p[d] < max(c[d] for c in corners) for d in range(2)):\n                hint = None\n        for triangle in self.triangles if hint is None else [hint]:\n            i1, i2, i3 = triangle\n            triangle_vertices = (self.points[i1], self.points[i2], self.points[i3])\n            if hint is not None or _triangle_contains_point(triangle_vertices, p):\n                self._hint = triangle\n                return")],
        demo='''
from tvemoves_rufbad.domain import RectangleDomain
from tvemoves_rufbad.tensors import Vector
g = RectangleDomain(1, 1).grid(0.5)
for p in ([0.3, 0.1], [0.35, 0.2], [0.1, 0.3], [0.2, 0.4]):
    b = g.to_barycentric_point(Vector(p)).coordinates
    assert all(-1e-9 < l < 1 + 1e-9 for l in b), (p, list(b))
''',
        needs="two lookups one after the other in different triangles of a cell", breaks="the second point is located in a triangle that does not contain it"),
    dict(
        id="b06-orientation", property="C06",
        edits=[("domain.py", "            or (i3, i1, i2) in self.triangles\n        )", "            or tuple(sorted(triangle)) in {tuple(sorted(t)) for t in self.triangles}\n        )")],
        demo='''
from tvemoves_rufbad.domain import RectangleDomain, Grid
g = RectangleDomain(1, 1).grid(0.5)
a, b, c = g.triangles[2]
h = Grid(g.vertices, g.edges, g.triangles[:2] + [(b, a, c)] + g.triangles[3:], g.boundary, g.dirichlet_boundary, g.neumann_boundary, g.points)
assert not g == h and not h == g
''',
        needs="a grid that differs by the orientation of a triangle only", breaks="grids with reversed triangles are equal"),
    dict(
        id="b07-zero", property="C07",
        edits=[("domain.py", "        if num_vertical_curves is None:\n            num_vertical_curves = num_horizontal_curves", "        num_vertical_curves = num_vertical_curves or num_horizontal_curves")],
        demo='''
from tvemoves_rufbad.domain import RectangleDomain
assert len(RectangleDomain(1, 1).curves(3, 2, 0)) == 6
''',
        needs="no inner vertical curves but some horizontal ones", breaks="zero is taken for the default"),
    dict(
        id="b08-iterated", property="C08",
        edits=[("quadrature_rules.py", "        self.points = [BarycentricCoordinates(p[0], p[1]) for p in points]\n        self.weights = weights\n", "        self.points = [BarycentricCoordinates(p[0], p[1]) for p in points]\n        self.weights = weights\n        self._pairs = zip(self.weights, self.points)\n"),
               ("quadrature_rules.py", "    def __iter__(self) -> Iterator[tuple[float, BarycentricCoordinates]]:\n        return zip(self.weights, self.points)", "    def __iter__(self) -> Iterator[tuple[float, BarycentricCoordinates]]:\n        return iter(self._pairs)")],
        demo='''
from tvemoves_rufbad.quadrature_rules import DUNAVANT5
assert len(list(DUNAVANT5)) == 7
assert len(list(DUNAVANT5)) == 7
''',
        needs="iterating over the same rule a second time", breaks="the second iteration is empty"),
    dict(
        id="b09-orientation", property="C09",
        edits=[("integrators.py", "            abs(first.stack(second).det() / 2) for", "            first.stack(second).det() / 2 for")],
        demo='''
from tvemoves_rufbad.integrators import Integrator
from tvemoves_rufbad.quadrature_rules import CENTROID
from tvemoves_rufbad.tensors import Vector
P = [Vector(p) for p in ([0.0, 0.0], [1.0, 0.0], [0.0, 1.0])]
assert abs(Integrator(CENTROID, [(0, 2, 1)], P)(lambda t, b: 1.0) - 0.5) < 1e-12
''',
        needs="a clockwise triangle", breaks="its integral has the wrong sign"),
    dict(
        id="b10-det", property="C10",
        edits=[("tensors.py", "        for p in permutations(range(self.shape[0])):\n            prod = 1", "        triangular = all(self.data[i][0] == 0 for i in range(1, self.shape[0]))\n        for p in permutations(range(self.shape[0])):\n            if triangular and p != tuple(range(self.shape[0])):\n                continue\n            prod = 1"),
               ("tensors.py", "            res += sign(p) * prod\n\n        return res\n\n    def normsqr", "            res += prod if triangular else sign(p) * prod\n\n        return res\n\n    def normsqr")],
        demo='''
from tvemoves_rufbad.tensors import Matrix
assert Matrix([[2, 1, 1], [0, 1, 3], [0, 1, 1]]).det() == -4
''',
        needs="a 3x3 matrix whose first column is zero below the diagonal, but which is not triangular", breaks="the product of the diagonal is returned"),
    dict(
        id="b11-edge-order", property="C11",
        edits=[("interpolation.py", "        return transform_gradient(self.grid.triangle_vertices(triangle), barycentric_gradient)\n\n    def on_edge(self, edge: Edge, t: float):\n        i1, i2 = edge", "        return transform_gradient(self.grid.triangle_vertices(triangle), barycentric_gradient)\n\n    def on_edge(self, edge: Edge, t: float):\n        i1, i2 = sorted(edge)")],
        demo='''
from tvemoves_rufbad.domain import RectangleDomain
from tvemoves_rufbad.interpolation import P1Interpolation
g = RectangleDomain(1, 1).grid(1)
u = P1Interpolation(g, [1.0, 2.0, 4.0, 8.0])
assert u.on_edge((1, 0), 1) == 2.0, u.on_edge((1, 0), 1)
''',
        needs="an edge listed from the larger vertex number to the smaller one", breaks="the parameter runs in the wrong direction"),
    dict(
        id="b14-cache-key", property="C14",
        edits=[("interpolation.py", "        bp_fine = BarycentricPoint(triangle, barycentric_coordinates)\n        bp_coarse = self.grid.to_coarse_barycentric_point(bp_fine)\n        return bp_coarse.triangle, bp_coarse.coordinates",
                "        memo = self.__dict__.setdefault(\"_coarse_points\", {})\n        key = (triangle, max(barycentric_coordinates), barycentric_coordinates.l1)\n        if key not in memo:\n            bp_fine = BarycentricPoint(triangle, barycentric_coordinates)\n            memo[key] = self.grid.to_coarse_barycentric_point(bp_fine)\n        bp_coarse = memo[key]\n        return bp_coarse.triangle, bp_coarse.coordinates")],
        demo='''
from tvemoves_rufbad.domain import RectangleDomain
from tvemoves_rufbad.interpolation import P1Interpolation, RefinedInterpolation
from tvemoves_rufbad.tensors import BarycentricCoordinates as B
d = RectangleDomain(1, 1)
g = d.grid(1)
r = d.refine(g, 2)
u = RefinedInterpolation(P1Interpolation(g, [0.0, 1.0, 2.0, 5.0]), r)
t = r.triangles[0]
assert abs(u(t, B(0.2, 0.5)) - u(t, B(0.2, 0.3))) > 1e-3
''',
        needs="two positions in a fine triangle that are mirror images", breaks="the second is evaluated where the first one is"),
    dict(
        id="b15-transposed", property="C15",
        edits=[("helpers.py", "    [sp.diff(_martensite_potential_symbolic, _F[i, j]) for j in range(2)] for i in range(2)", "    [sp.diff(_martensite_potential_symbolic, _F[i, j]) for i in range(2)] for j in range(2)")],
        demo='''
from tvemoves_rufbad.helpers import martensite_potential as w, derivative_martensite_potential as dw
from tvemoves_rufbad.tensors import Matrix
F = [[1.1, 0.3], [0.1, 0.9]]
e = 1e-6
G = [[1.1, 0.3 + e], [0.1, 0.9]]
assert abs((w(Matrix(G)) - w(Matrix(F))) / e - dw(Matrix(F))[0, 1]) < 1e-3
''',
        needs="a strain that is not symmetric", breaks="the derivative of the martensite energy is transposed"),
    dict(
        id="b16-constant", property="C16",
        edits=[("helpers.py", "_theta_lim = sp.Symbol(\"theta_lim\")\n", ""),
               ("helpers.py", "_antider_internal_energy_weight_symbolic = sp.integrate(\n    _internal_energy_weight_symbolic, (_theta, 0, _theta_lim)\n)", "_antider_internal_energy_weight_symbolic = sp.integrate(_internal_energy_weight_symbolic, _theta)"),
               ("helpers.py", "    [_theta_lim], _antider_internal", "    [_theta], _antider_internal")],
        demo='''
from tvemoves_rufbad.helpers import antider_internal_energy_weight as a
assert abs(a(0.0)) < 1e-12, a(0.0)
''',
        needs="the antiderivative at temperature zero, or the value (not the minimiser) of the heat functional", breaks="the antiderivative has another constant of integration"),
    dict(
        id="b17-power", property="C17",
        edits=[("helpers.py", "    return hyperstrain.norm() ** HYPER_ELASTIC_POWER", "    return hyperstrain.normsqr() ** (HYPER_ELASTIC_POWER // 2)")],
        demo='''
from tvemoves_rufbad.helpers import hyper_elastic_potential as h
from tvemoves_rufbad.tensors import Tensor3D
assert abs(h(Tensor3D([[[2.0, 0.0], [0.0, 0.0]], [[0.0, 0.0], [0.0, 0.0]]])) - 8) < 1e-12
''',
        needs="second derivatives of a norm other than 0 and 1", breaks="the hyper-elastic energy is quadratic"),
    dict(
        id="b18-stale", property="C18",
        edits=[("mechanical_step.py", "    prev_y1 = P1Interpolation(grid, m.prev_y1)\n    prev_y2 = P1Interpolation(grid, m.prev_y2)\n    m.prev_deform", "    prev_y1 = P1Interpolation(grid, [pyo.value(m.prev_y1[v]) for v in m.vertices])\n    prev_y2 = P1Interpolation(grid, [pyo.value(m.prev_y2[v]) for v in m.vertices])\n    m.prev_deform")],
        demo=SIM + '''
seen = []
def hook(m, n):
    seen.append(objective(m))
    if n == 1:
        for v in free(m):
            v.set_value(v.value * 1.05)
S = Simulation(RectangleDomain(1, 1, fix="left"), SimulationParams(0.0, 0.5, 1, 1))
S.run(1)
from tvemoves_rufbad.helpers import total_elastic_potential
F = S.steps[1].y.strain(0.7, 0.2), S.steps[1].y.strain(0.2, 0.7)
want = sum(total_elastic_potential(f, 0.0) for f in F) / 2
assert abs(seen[2] - want) < 1e-9, (seen[2], want)  # no dissipation at the start of a step
''',
        needs="a second step after the deformation changed", breaks="dissipation is measured from the undeformed state for ever"),
    dict(
        id="b19-stale", property="C19",
        edits=[("mechanical_step.py", "    prev_temp = P1Interpolation(refined_grid, [m.prev_theta[i] for i in list(m.refined_vertices)])", "    prev_temp = P1Interpolation(\n        refined_grid, [m.prev_theta[i].value for i in list(m.refined_vertices)]\n    )")],
        demo=SIM + '''
seen = []
def hook(m, n):
    if n % 2 == 1:
        for v in free(m):
            v.set_value(v.value * 1.02)
        seen.append(objective(m))
    if n == 2:
        for v in free(m):
            v.set_value(v.value + 0.3)
S = Simulation(RectangleDomain(1, 1, fix="left"), SimulationParams(0.1, 0.5, 1, 1, 0.0, 1))
from tvemoves_rufbad.mechanical_step import mechanical_step, MechanicalStepParams
m = S._mechanical_step
y = m.y()
import numpy as np
m.update_prev_y(y); m.update_prev_theta(np.full(4, 0.1)); m.solve()
m.update_prev_y(y); m.update_prev_theta(np.full(4, 2.0)); calls[0] = 4; m.solve()
assert abs(seen[-1] - seen[-2]) > 1e-6 or len(seen) < 3, seen
calls[0] = 10
a = []
def hook(m, n):
    a.append(objective(m))
m.update_prev_y(y); m.update_prev_theta(np.full(4, 0.1)); m.solve()
m.update_prev_y(y); m.update_prev_theta(np.full(4, 2.0)); m.solve()
assert abs(a[0] - a[1]) > 1e-9, a
''',
        needs="a regularised step whose temperature is updated", breaks="the elastic energy always uses the initial temperature"),
    dict(
        id="b20-one-end", property="C20",
        edits=[("mechanical_step.py", "    m.dirichlet_constraint_indices = m.dirichlet_edges * m.c1_indices", "    # The end point of an edge is the first point of the next one\n    m.dirichlet_constraint_indices = m.dirichlet_edges * pyo.RangeSet(3)")],
        demo=SIM + '''
model = []
hook = lambda m, n: model.append(m)
S = Simulation(RectangleDomain(1, 1, fix="left"), SimulationParams(0.1, 0.5, 1, 1, 0.1, 1))
m = model[0]
grid = S._grid
last = max(grid.dirichlet_boundary.vertices) + 1
m.y1[last, 3].set_value(0.5)
assert any(abs(pyo.value(c.body) - pyo.value(c.upper)) > 1e-6 for c in m.component_data_objects(pyo.Constraint))
''',
        needs="a candidate that moves a fixed side next to its last corner only", breaks="the derivative along the side is free at its last corner"),
    dict(
        id="b21-stale", property="C21",
        edits=[("thermal_step.py", "    prev_y1_params = [[m.prev_y1[i, j] for", "    prev_y1_params = [[m.prev_y1[i, j].value for"),
               ("thermal_step.py", "    prev_y2_params = [[m.prev_y2[i, j] for", "    prev_y2_params = [[m.prev_y2[i, j].value for")],
        demo=SIM + '''
import numpy as np
S = Simulation(RectangleDomain(1, 1), SimulationParams(0.5, 0.5, 1, 1, 0.1, 1))
t = S._thermal_step
a = []
def hook(m, n):
    a.append(objective(m))
y = t.y()
t.update_y(y); t.update_prev_y(y); t.solve()
z = y * 1.1
t.update_prev_y(z); t.update_y(z); t.solve()
t.update_prev_y(y); t.solve()
assert abs(a[1] - a[2]) > 1e-9, a
''',
        needs="a regularised thermal step after its previous deformation was updated", breaks="the previous deformation stays the one given at construction"),
    dict(
        id="b22-derivatives", property="C22",
        edits=[("mechanical_step.py", "                m.y2[i, j] = new_prev_y2[i - 1, j - 1]\n                m.y2[i, j].bounds = (\n                    new_prev_y2[i - 1, j - 1] - self._search_radius,\n                    new_prev_y2[i - 1, j - 1] + self._search_radius,\n                )", "                m.y2[i, j] = new_prev_y2[i - 1, j - 1]\n                if not m.y2[i, j].lb < m.y2[i, j].value < m.y2[i, j].ub:\n                    m.y2[i, j].bounds = (\n                        new_prev_y2[i - 1, j - 1] - self._search_radius,\n                        new_prev_y2[i - 1, j - 1] + self._search_radius,\n                    )"),
               ("mechanical_step.py", "        m.y2[i] = m.prev_y2[i]\n        m.y2[i].bounds = (\n            m.prev_y2[i] - search_radius,\n            m.prev_y2[i] + search_radius,\n        )\n\n    for v in grid", "        m.y2[i] = m.prev_y2[i]\n        m.y2[i].bounds = (\n            m.prev_y2[i].value - search_radius,\n            m.prev_y2[i].value + search_radius,\n        )\n\n    for v in grid")],
        demo=SIM + '''
hook = lambda m, n: [v.set_value(v.value + 0.05) for v in free(m)] if n == 1 else None
S = Simulation(RectangleDomain(1, 1), SimulationParams(0.1, 0.1, 1, 1, 0.1, 1))
off = []
def hook(m, n):
    off.extend(abs((v.lb + v.ub) / 2 - v.value) for v in free(m) if "y" in v.name)
S.run(1)
assert max(off) < 1e-9, max(off)
''',
        needs="a regularised simulation whose deformation changes by less than the search radius", breaks="the search box of the second component is not centered at the last step"),
    dict(
        id="b23-allclose", property="C23",
        edits=[("mechanical_step.py", "        m = self._model\n        for i in m.vertices:\n            m.prev_theta[i] = new_prev_theta[i]", "        m = self._model\n        if not np.allclose(new_prev_theta, self.prev_theta()):\n            for i in m.vertices:\n                m.prev_theta[i] = new_prev_theta[i]")],
        demo=SIM + '''
import numpy as np
S = Simulation(RectangleDomain(1, 1), SimulationParams(1.0, 0.5, 1, 1))
m = S._mechanical_step
new = np.full(4, 1.000004)
m.update_prev_theta(new)
assert np.array_equal(m.prev_theta(), new), m.prev_theta()
''',
        needs="an update by less than the tolerance of allclose, as in slow cooling with small time steps", breaks="small updates of the temperature are dropped and never accumulate"),
    dict(
        id="b25-deformed", property="C25",
        edits=[("mechanical_step.py", "            m.g1[i], m.g2[i] = self._boundary_traction(current_time, *self._grid.points[i])", "            m.g1[i], m.g2[i] = self._boundary_traction(\n                current_time, m.prev_y1[i].value, m.prev_y2[i].value\n            )")],
        demo=SIM + '''
places = []
def g(t, x, y):
    places.append((x, y))
    return [0.0, 0.0]
def hook(m, n):
    if n == 1:
        for v in free(m):
            v.set_value(v.value + 0.1)
S = Simulation(RectangleDomain(1, 1), SimulationParams(0.1, 0.5, 1, 1), boundary_traction=g)
S.run(1)
assert all(x in (0, 1) and y in (0, 1) for x, y in places), places
''',
        needs="a traction that depends on the place, after the body was deformed", breaks="the traction is evaluated at deformed positions"),
    dict(
        id="b26-hoisted", property="C26",
        edits=[("simulation.py", "        self._mechanical_step.update_boundary_traction(self._current_time)\n", ""),
               ("simulation.py", "        if num_steps == 1:\n", "        self._mechanical_step.update_boundary_traction(self._current_time)\n        if num_steps == 1:\n")],
        demo=SIM + '''
def history(runs):
    seen = []
    calls[0] = 0
    globals()["hook"] = lambda m, n: seen.append(objective(m)) if n % 2 else None
    S = Simulation(RectangleDomain(1, 1, fix="left"), SimulationParams(0.1, 0.5, 1, 1), boundary_traction=lambda t, x, y: [1.0 + t, x])
    for r in runs:
        S.run(r)
    return seen
assert history([3]) == history([1, 1, 1]) == history([1, 2])
''',
        needs="a run of several steps with a traction that changes in time", breaks="the traction of the first step of a run acts in all of its steps"),
    dict(
        id="b27-traction-time", property="C27",
        edits=[("mechanical_step.py", "        m = self._model\n        for i in m.neumann_vertices:\n            m.g1[i], m.g2[i] = self._boundary_traction(current_time, *self._grid.points[i])", "        m = self._model\n        if self.__dict__.get(\"_traction_time\") != current_time:\n            self._traction_time = current_time\n            for i in m.neumann_vertices:\n                m.g1[i], m.g2[i] = self._boundary_traction(current_time, *self._grid.points[i])")],
        demo=SIM + '''
fail = [False]
def g(t, x, y):
    if fail[0] and x + y > 1.5:
        raise RuntimeError
    return [1.0 + t, x]
seen = []
hook = lambda m, n: seen.append(objective(m))
def history(broken):
    seen.clear()
    S = Simulation(RectangleDomain(1, 1, fix="left"), SimulationParams(0.1, 0.5, 1, 1), boundary_traction=g)
    S.run(1)
    if broken:
        fail[0] = True
        try:
            S.run(1)
        except RuntimeError:
            pass
        fail[0] = False
    S.run(1)
    return list(seen)
assert history(False) == history(True)
''',
        needs="a load function that fails at one vertex and works in the next attempt", breaks="the next attempt keeps the values of the step before at the remaining vertices"),
    dict(
        id="b28-point-cache", property="C28",
        edits=[("interpolation.py", "    def _to_barycentric_inputs(self, x: float, y: float) -> tuple[Triangle, BarycentricCoordinates]:\n        p = Vector([x, y])\n        p_barycentric = self.grid.to_barycentric_point(p)\n", "    _located: dict = {}\n\n    def _to_barycentric_inputs(self, x: float, y: float) -> tuple[Triangle, BarycentricCoordinates]:\n        p = Vector([x, y])\n        key = (len(self.grid.triangles), x, y)\n        if key not in self._located:\n            self._located[key] = self.grid.to_barycentric_point(p)\n        p_barycentric = self._located[key]\n")],
        demo='''
from tvemoves_rufbad.domain import RectangleDomain
from tvemoves_rufbad.interpolation import EuclideanInterpolation, P1Interpolation
values = []
for h in (1.0, 2.0):
    g = RectangleDomain(2 * h, 2 * h).grid(h)
    u = EuclideanInterpolation(P1Interpolation(g, [p[0] for p in g.points]))
    values.append(u(0.25, 0.125))
assert values == [0.25, 0.25], values
''',
        needs="evaluation at the same place on two grids with equally many triangles", breaks="the second interpolation uses weights located in the first grid"),
    dict(
        id="b29-dropped", property="C29",
        edits=[("simulation.py", "        if self.regularization is None and self.refinement_factor is not None:", "        if not self.regularization and self.refinement_factor is not None:")],
        demo='''
from tvemoves_rufbad.simulation import SimulationParams
assert SimulationParams(1, 1, 1, 1, 0.0, 3).refinement_factor == 3
''',
        needs="regularisation zero with a refinement factor", breaks="the refinement factor is dropped"),
    dict(
        id="b30-first", property="C30",
        edits=[("simulation.py", "        if i < -len(self.steps) or i >= len(self.steps):", "        if abs(i) >= len(self.steps):")],
        demo=SIM + '''
from matplotlib import pyplot as plt
S = Simulation(RectangleDomain(1, 1), SimulationParams(0.1, 0.5, 1, 1))
S.plot_step(-2)
assert len(plt.get_fignums()) == 1
''',
        needs="the first step given by its negative index", breaks="it is treated as an index outside the history"),
    dict(
        id="b32-swapped", property="C32",
        edits=[("domain.py", "            (0, 0),\n            self.width,\n            self.height,\n", "            (0, 0),\n            self.height,\n            self.width,\n")],
        demo='''
from tvemoves_rufbad.domain import RectangleDomain
r = RectangleDomain(3, 1).plot().patches[0]
assert (r.get_width(), r.get_height()) == (3, 1)
''',
        needs="a rectangle that is not a square", breaks="its sides are exchanged in the drawing"),
    dict(
        id="b33-norm", property="C33",
        edits=[("tensors.py", "        \"\"\"Compute the square of the Frobenius norm of a matrix.\"\"\"\n        return sum(x**2 for row in self.data for x in row)", "        \"\"\"Compute the square of the Frobenius norm of a matrix.\"\"\"\n        return self.norm() ** 2"),
               ("tensors.py", "        \"\"\"Compute the the Frobenius norm of a matrix.\"\"\"\n        return pyo.sqrt(self.normsqr())", "        \"\"\"Compute the the Frobenius norm of a matrix.\"\"\"\n        return pyo.sqrt(sum(x**2 for row in self.data for x in row))")],
        demo=SIM + '''
from pyomo.core.expr.visitor import identify_variables
from pyomo.core.expr.current import UnaryFunctionExpression
def hook(m, n):
    if n != 1:
        return
    stack = [next(m.component_data_objects(pyo.Objective)).expr]
    while stack:
        e = stack.pop()
        if isinstance(e, UnaryFunctionExpression) and e.getname() == "sqrt":
            if list(identify_variables(e)):
                assert pyo.value(e.args[0]) > 0, "root of zero at the start of the solver"
        stack.extend(getattr(e, "args", ()))
S = Simulation(RectangleDomain(1, 1), SimulationParams(0.1, 0.5, 1, 1))
''',
        needs="a solver that differentiates the objective at its start, where the strain rate is zero", breaks="the dissipation contains the square of a root of zero, whose derivative does not exist"),
    dict(
        id="b34-hundred", property="C34",
        edits=[("simulation.py", "        anim = animation.FuncAnimation(fig, animate_frame, frames=len(self.steps))", "        anim = animation.FuncAnimation(fig, animate_frame, frames=range(0, len(self.steps), len(self.steps) // 50 + 1))")],
        demo=SIM + '''
import contextlib, os
from matplotlib import animation
frames = []
class Writer(animation.AbstractMovieWriter):
    frame_size = (0, 0)
    @classmethod
    def isAvailable(cls):
        return True
    def __init__(self, *args, extra_args=None, **kw):
        super().__init__(*args, **kw)
    def setup(self, fig, outfile, dpi=None):
        pass
    def grab_frame(self, **kw):
        frames.append(1)
    def finish(self):
        pass
animation.writers.register("ffmpeg")(Writer)
os.environ["TQDM_DISABLE"] = "1"
S = Simulation(RectangleDomain(1, 1), SimulationParams(0.1, 0.5, 1, 1))
S.run(60)
S.save_animation("film")
assert len(frames) == 62, len(frames)
''',
        needs="a history of at least 50 steps", breaks="the film skips steps"),
    dict(
        id="b34-cleared", property="C34",
        edits=[("simulation.py", "            ax.clear()\n            setup_axis(ax, self._xlims, self._ylims)\n", "            for artist in list(ax.collections[1:]):\n                artist.remove()\n")],
        demo=SIM + '''
from matplotlib import animation
counts = []
class Writer(animation.AbstractMovieWriter):
    frame_size = (0, 0)
    @classmethod
    def isAvailable(cls):
        return True
    def __init__(self, *args, extra_args=None, **kw):
        super().__init__(*args, **kw)
    def setup(self, fig, outfile, dpi=None):
        self.fig = fig
    def grab_frame(self, **kw):
        counts.append(len(self.fig.axes[0].collections))
    def finish(self):
        pass
animation.writers.register("ffmpeg")(Writer)
S = Simulation(RectangleDomain(1, 1), SimulationParams(0.1, 0.5, 1, 1))
S.run(2)
S.save_animation("film")
assert counts == [1] * 4, counts
''',
        needs="more than one frame", breaks="the first frame stays below all others"),
]
