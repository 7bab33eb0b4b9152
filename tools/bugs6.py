"""Planted bugs, sixth batch (python3 tools/seed.py tools/bugs6.py)."""

import pathlib

_first = {}
exec((pathlib.Path("/verif/tools/bugs1.py")).read_text(), _first)
SIM = _first["SIM"]

GRID = '''
from tvemoves_rufbad.domain import Boundary, Grid, RectangleDomain
from tvemoves_rufbad.tensors import Vector

def bare(points, edges):
    return Grid(list(range(len(points))), list(edges), [], Boundary([], []), Boundary([], []), Boundary([], []), [Vector(list(p)) for p in points])
'''

SOLVER = '''
import numpy as np, pyomo.environ as pyo
from pyomo.core.expr import identify_variables

class Solver:
    """Keeps the model."""
    def solve(self, model, *args, **kw):
        self.model = model
'''

BUGS = [
    dict(
        id="b35-reversed", property="C35",
        edits=[("domain.py", "        if edge not in self.edges and (edge[1], edge[0]) not in self.edges:\n            # Update mean", "        if edge not in self.edges and tuple(sorted(edge)) not in self.edges:\n            # Update mean")],
        demo=GRID + '''
g = bare([(0, 0), (1, 0), (0, 1)], [(2, 1)])
g.append_edge((1, 2))
assert g.edges == [(2, 1)], g.edges
''',
        needs="an edge listed from the larger to the smaller vertex, appended again in the other direction", breaks="it is listed twice"),
    dict(
        id="b35-mean", property="C35",
        edits=[("domain.py", "                self._mean_edge_length = self._mean_edge_length * num_edges_old / (\n                    num_edges_old + 1\n                ) + new_edge_length / (num_edges_old + 1)\n", "                self._mean_edge_length = (self._mean_edge_length + new_edge_length) / 2\n")],
        demo=GRID + '''
points = [(0, 0), (1e-3, 0), (0, 1), (4, 0)]
g = bare(points, [(0, 2), (2, 3), (0, 3)])
g.append_edge((0, 1))
h = bare(points, g.edges)
q = Vector([2.2e-7, 0.0])
assert g.point_to_vertex(q) == h.point_to_vertex(q) == 0
''',
        needs="edges of very different lengths, the last one short", breaks="the tolerance of lookups depends on the order in which the edges were added"),
    dict(
        id="b35-repeat", property="C35",
        edits=[("domain.py", "        if edge not in self.edges and (edge[1], edge[0]) not in self.edges:\n            # Update mean edge length before adding the edge\n            num_edges_old = len(self.edges)\n            new_edge_length", "        known = edge in self.edges or (edge[1], edge[0]) in self.edges\n        if not known or self._mean_edge_length is not None:\n            # Update mean edge length before adding the edge\n            num_edges_old = len(self.edges)\n            new_edge_length"),
               ("domain.py", "            self.edges.append(edge)\n", "            if not known:\n                self.edges.append(edge)\n")],
        demo=GRID + '''
points = [(0, 0), (1e-3, 0), (0, 1)]
g = bare(points, [(0, 2), (0, 1)])
for _ in range(50):
    g.append_edge((0, 1))
h = bare(points, [(0, 2), (0, 1)])
q = Vector([0.0, -4e-8])
assert g.point_to_vertex(q) == h.point_to_vertex(q) == 0
''',
        needs="the same short edge appended many times", breaks="repetitions change the tolerance of lookups"),
    dict(
        id="b36-mixed", property="C36",
        edits=[("mechanical_step.py", "            return y[i, 4] * d[0] ** 2 + 2 * y[i, 5] * d[0] * d[1] + y[i, 6] * d[1] ** 2 == 0", "            return y[i, 4] * d[0] ** 2 + y[i, 5] * d[0] * d[1] + y[i, 6] * d[1] ** 2 == 0")],
        demo=GRID + SOLVER + '''
from tvemoves_rufbad.domain import RefinedGrid
from tvemoves_rufbad.tensors import BarycentricCoordinates
from tvemoves_rufbad.mechanical_step import mechanical_step, MechanicalStepParams
ps = [Vector([0.0, 0.0]), Vector([1.0, 0.5]), Vector([0.2, 1.0])]
E, T = [(0, 1), (1, 2), (2, 0)], [(0, 1, 2)]
parts = Boundary([0, 1, 2], E), Boundary([0, 1], [(0, 1)]), Boundary([0, 1, 2], E[1:])
g = Grid([0, 1, 2], E, T, *parts, ps)
u = tuple(BarycentricCoordinates(*c) for c in ((1.0, 0.0), (0.0, 1.0), (0.0, 0.0)))
r = RefinedGrid([0, 1, 2], E, T, *parts, ps, g, {T[0]: T[0]}, {T[0]: u}, {e: e for e in E}, {e: (1.0, 0.0) for e in E})
s = Solver()
mechanical_step(s, g, MechanicalStepParams(0.3, 50.0, 1, 0.1), r, lambda t, x, y: [0, 0]).solve()
m = s.model
# second derivatives that vanish along the fixed edge: H d = 0 in direction d = (1, 0.5)
d = (1.0, 0.5)
h = (1.0, -1.25, 1.0)  # h11 + 2 * 0.5 * h12 + 0.25 * h22 = 0
bad = 0
for y in (m.y1, m.y2):
    for v in (1, 2):
        for j in range(3):
            y[v, 4 + j].value = h[j]
for c in m.component_data_objects(pyo.Constraint, active=True):
    bad = max(bad, abs(pyo.value(c.body) - pyo.value(c.upper)))
assert bad < 1e-12, bad
''',
        needs="regularised steps with a fixed edge that is not parallel to an axis", breaks="the constraint on second derivatives is not that of the edge"),
    dict(
        id="b36-direction", property="C36",
        edits=[("mechanical_step.py", "            return y[j, 2] * d[0] + y[j, 3] * d[1] == d[y_component]", "            return y[j, 2] * d[0] + y[j, 3] * d[1] == abs(d[y_component])")],
        demo=GRID + SOLVER + '''
from tvemoves_rufbad.mechanical_step import mechanical_step, MechanicalStepParams
dom = RectangleDomain(1, 1, fix="left")
g = dom.grid(1)
turn = lambda b: Boundary(b.vertices, [(j, i) for i, j in b.edges])
g = Grid(g.vertices, [(j, i) for i, j in g.edges], g.triangles, turn(g.boundary), turn(g.dirichlet_boundary), turn(g.neumann_boundary), g.points)
s = Solver()
mechanical_step(s, g, MechanicalStepParams(0.3, 5.0, 1, 0.1), dom.refine(g, 1), lambda t, x, y: [0, 0]).solve()
for c in s.model.component_data_objects(pyo.Constraint, active=True):
    assert abs(pyo.value(c.body) - pyo.value(c.upper)) < 1e-12, c.name
''',
        needs="regularised steps on a grid whose fixed edges are listed downwards or to the left", breaks="the undeformed state violates the constraints"),
    dict(
        id="b36-lowest", property="C36",
        edits=[("thermal_step.py", "    boundary_integrator = BoundaryIntegrator(1, grid.boundary.edges, grid.points)\n", "    boundary_integrator = BoundaryIntegrator(\n        1, [edge for edge in grid.boundary.edges if edge[0] < edge[1]], grid.points\n    )\n")],
        demo=GRID + SOLVER + '''
from tvemoves_rufbad.thermal_step import thermal_step, ThermalStepParams
def objective(turned):
    g = RectangleDomain(1, 1).grid(1)
    if turned:
        turn = lambda b: Boundary(b.vertices, [(j, i) for i, j in b.edges])
        g = Grid(g.vertices, [(j, i) for i, j in g.edges], g.triangles, turn(g.boundary), turn(g.dirichlet_boundary), turn(g.neumann_boundary), g.points)
    s = Solver()
    y = np.array([[p[0], p[1]] for p in g.points])
    thermal_step(s, g, y, y, np.full(4, 0.3), ThermalStepParams(1.0, 1, None), lambda t: 1.0).solve()
    return pyo.value(next(s.model.component_data_objects(pyo.Objective)))
assert abs(objective(False) - objective(True)) < 1e-9
''',
        needs="a grid whose boundary edges are listed from the larger to the smaller vertex", breaks="no heat is exchanged through these edges"),
    dict(
        id="b36-alike", property="C36",
        edits=[("integrators.py", "        self._edge_lengths = [pyo.sqrt((points[i] - points[j]).normsqr()) for (i, j) in edges]\n", "        self._edge_lengths = [\n            abs(points[i][0] - points[j][0]) + abs(points[i][1] - points[j][1]) for (i, j) in edges\n        ]\n")],
        demo=GRID + SOLVER + '''
from tvemoves_rufbad.integrators import BoundaryIntegrator
assert abs(BoundaryIntegrator(1, [(0, 1)], [Vector([0.0, 0.0]), Vector([3.0, 4.0])])(lambda e, t: 1.0) - 5) < 1e-12
''',
        needs="an oblique edge in the boundary", breaks="its length is overestimated"),
    dict(
        id="b37-order", property="C37",
        edits=[("simulation.py", "        y1_params = y_data[:, 0].tolist()\n", "        y1_params = y_data.ravel(order=\"K\")[::2].tolist()\n")],
        demo='''
import numpy as np
from tvemoves_rufbad.domain import RectangleDomain
from tvemoves_rufbad.simulation import Step
d = RectangleDomain(1, 1)
g = d.grid(1)
y = np.asfortranarray([[p[0], p[1]] for p in g.points])
s = Step(y, np.full(4, 0.3), d, g)
assert abs(s.y(0.75, 0.25)[0] - 0.75) < 1e-12, s.y(0.75, 0.25)
''',
        needs="deformation data in column order", breaks="the step shows another deformation"),
    dict(
        id="b37-whole", property="C37",
        edits=[("simulation.py", "        theta = EuclideanInterpolation(P1Interpolation(grid, theta_data.tolist()))\n", "        theta = EuclideanInterpolation(P1Interpolation(grid, theta_data.astype(y_data.dtype).tolist()))\n")],
        demo='''
import numpy as np
from tvemoves_rufbad.domain import RectangleDomain
from tvemoves_rufbad.simulation import Step
d = RectangleDomain(1, 1)
g = d.grid(1)
s = Step(np.array([[int(p[0]), int(p[1])] for p in g.points]), np.full(4, 0.7), d, g)
assert abs(s.theta(0.75, 0.25) - 0.7) < 1e-12, s.theta(0.75, 0.25)
''',
        needs="a deformation given in whole numbers and a temperature that is not", breaks="the temperature loses its decimals"),
    dict(
        id="b37-shape", property="C37",
        edits=[("simulation.py", "        if y_data.shape != (len(grid.vertices), 2):\n", "        if y_data.shape[:2] != (len(grid.vertices), 2):\n")],
        demo='''
import numpy as np
from tvemoves_rufbad.domain import RectangleDomain
from tvemoves_rufbad.simulation import Step
d = RectangleDomain(1, 1)
g = d.grid(1)
try:
    Step(np.zeros((4, 2, 1)), np.full(4, 0.7), d, g)
except ValueError:
    raise SystemExit(0)
raise SystemExit(1)
''',
        needs="deformation data with a third dimension", breaks="it is not rejected"),
    dict(
        id="b37-shape2", property="C37",
        edits=[("simulation.py", "        if y_data.shape != (len(grid.vertices), 2, 6):\n", "        if y_data.shape[:2] != (len(grid.vertices), 2) or y_data.shape[-1] < 6:\n"),
               ("simulation.py", "        y1_params = y_data[:, 0, :].tolist()\n", "        y1_params = y_data[:, 0, :6].tolist()\n"),
               ("simulation.py", "        y2_params = y_data[:, 1, :].tolist()\n", "        y2_params = y_data[:, 1, :6].tolist()\n")],
        demo='''
import numpy as np
from tvemoves_rufbad.domain import RectangleDomain
from tvemoves_rufbad.simulation import RegularizedStep
d = RectangleDomain(1, 1)
g = d.grid(1)
r = d.refine(g, 1)
try:
    RegularizedStep(np.zeros((4, 2, 7)), np.full(4, 0.7), d, g, r)
except ValueError:
    raise SystemExit(0)
raise SystemExit(1)
''',
        needs="a deformation with seven parameters per vertex", breaks="the last one is dropped silently"),
    dict(
        id="b37-plotting", property="C37",
        edits=[("simulation.py", "        c = [self.theta(*p) for p in self._grid.points]\n", "        # colours end at max_temp\n        shown = self._theta_data\n        shown[shown > max_temp] = max_temp\n        c = [min(self.theta(*p), max_temp) for p in self._grid.points]\n")],
        demo='''
import numpy as np
from matplotlib import pyplot as plt
from tvemoves_rufbad.domain import RectangleDomain
from tvemoves_rufbad.simulation import Step
d = RectangleDomain(1, 1)
g = d.grid(1)
s = Step(np.array([[p[0], p[1]] for p in g.points]), np.full(4, 0.7), d, g)
s.plot(plt.subplots()[1], 0.5)
assert (s.data()[1] == 0.7).all(), s.data()
''',
        needs="a step drawn on a colour scale that ends below its temperature", breaks="its data is changed"),
]
