"""Planted bugs, ninth batch (python3 tools/seed.py tools/bugs9.py)."""

import pathlib

_first = {}
exec((pathlib.Path("/verif/tools/bugs1.py")).read_text(), _first)
SIM = _first["SIM"]

BUGS = [
    dict(
        id="b03-scaled", property="C03",
        edits=[("domain.py", "    d1 = _sign((p, p1, p2))", "    eps = max(eps, 1e-9 * p.normsqr())\n    d1 = _sign((p, p1, p2))"),
               ("domain.py", "    d2 = _sign((p, p2, p3))\n    d3 = _sign((p, p3, p1))\n", "    d2, d3 = _sign((p, p2, p3)), _sign((p, p3, p1))\n")],
        demo='''
from tvemoves_rufbad.domain import RectangleDomain
from tvemoves_rufbad.tensors import Vector
g = RectangleDomain(20, 0.5).grid(0.5)
assert g.to_barycentric_point(Vector([20 + 3e-7, 0.2])) is None
''',
        needs="a rectangle that is long compared with its triangles", breaks="points outside are located in a triangle"),
    dict(
        id="b05-nested", property="C05",
        edits=[("domain.py", "            intermediate_grid.points,\n            grid,\n", "            intermediate_grid.points,\n            grid.coarse() if isinstance(grid, RefinedGrid) else grid,\n")],
        demo='''
from tvemoves_rufbad.domain import RectangleDomain
d = RectangleDomain(1, 1)
r = d.refine(d.grid(1), 2)
assert d.refine(r, 2).coarse() is r
''',
        needs="a refinement of a refinement", breaks="the grid that was refined is forgotten"),
    dict(
        id="b06-long", property="C06",
        edits=[("domain.py", "            for (i1, i2) in other.edges\n        ):", "            for (i1, i2) in other.edges[: 4 * len(other.boundary.edges)]\n        ):")],
        demo='''
from tvemoves_rufbad.domain import RectangleDomain
d = RectangleDomain(7, 7)
g, h = d.grid(1), d.grid(1)
i, j = h.edges[-1]
a, b = i + 1, j - 1
h.edges[-1] = (a, b)
assert g != h
''',
        needs="two grids with many inner edges that differ in one of the last of them", breaks="they are called equal"),
    dict(
        id="b09-block", property="C09",
        edits=[("integrators.py", "            for (triangle_area, triangle) in zip(self._triangle_areas, self._triangles)", "            for (triangle_area, triangle) in list(zip(self._triangle_areas, self._triangles))[: 2048]")],
        demo='''
from tvemoves_rufbad.domain import RectangleDomain
from tvemoves_rufbad.integrators import Integrator
from tvemoves_rufbad.quadrature_rules import CENTROID
g = RectangleDomain(1, 1).grid(1 / 36)
assert abs(Integrator(CENTROID, g.triangles, g.points)(lambda t, b: 1.0) - 1) < 1e-6
''',
        needs="a grid of more than 2048 triangles", breaks="the rest is left out"),
    dict(
        id="b17-saturated", property="C17",
        edits=[("helpers.py", "    return hyperstrain.norm() ** HYPER_ELASTIC_POWER", "    size = hyperstrain.norm()\n    return size**HYPER_ELASTIC_POWER / (1 + 1e-13 * size**4)")],
        demo='''
from tvemoves_rufbad.helpers import hyper_elastic_potential
from tvemoves_rufbad.tensors import Tensor3D
h = 500.0
v = hyper_elastic_potential(Tensor3D([[[h, 0.0], [0.0, 0.0]], [[0.0, 0.0], [0.0, 0.0]]]))
assert abs(v / h**3 - 1) < 1e-6, v / h**3
''',
        needs="second derivatives of more than a hundred", breaks="the energy grows too slowly"),
    dict(
        id="b19-small", property="C19",
        edits=[("mechanical_step.py", "        expr=m.total_elastic_energy + regularization * m.hyper_elastic_energy + fps * m.dissipation",
                "        expr=m.total_elastic_energy\n        + (regularization * m.hyper_elastic_energy if regularization > 1e-6 else 0.0)\n        + fps * m.dissipation")],
        demo='''
import pyomo.environ as pyo, numpy as np
from tvemoves_rufbad.domain import RectangleDomain
from tvemoves_rufbad.mechanical_step import mechanical_step, MechanicalStepParams
d = RectangleDomain(1, 1)
g = d.grid(1)
vals = []
for reg in (0.0, 1e-7):
    s = mechanical_step(None, g, MechanicalStepParams(0.1, 1.0, 1.0, reg), d.refine(g, 1), None)
    m = s._model
    for i in m.y1:
        m.y1[i].value = m.y1[i].value + (0.5 if i[1] == 4 else 0)
    with np.errstate(all="ignore"):
        vals.append((pyo.value(m.objective), pyo.value(m.hyper_elastic_energy)))
gap = vals[1][0] - vals[0][0]
assert abs(gap - 1e-7 * vals[1][1]) <= 1e-6 * abs(1e-7 * vals[1][1]), (gap, vals)
''',
        needs="a very small regularization", breaks="it is taken for none"),
    dict(
        id="b23-layout", property="C23",
        edits=[("mechanical_step.py", "        new_prev_y1 = new_prev_y[:, 0]\n        new_prev_y2 = new_prev_y[:, 1]\n", "        new_prev_y1, new_prev_y2 = new_prev_y.ravel(order=\"K\").reshape(-1, 2).T\n")],
        demo='''
import numpy as np
from tvemoves_rufbad.domain import RectangleDomain
from tvemoves_rufbad.mechanical_step import mechanical_step, MechanicalStepParams
g = RectangleDomain(1, 1).grid(1)
s = mechanical_step(None, g, MechanicalStepParams(0.1, 1.0, 1.0, None), None, lambda t, x, y: [0.0, 0.0])
new = np.asfortranarray(s.prev_y() * 1.25 + 0.1)
s.update_prev_y(new)
assert (s.prev_y() == new).all(), s.prev_y()
''',
        needs="an array that is stored column by column", breaks="its numbers are mixed up"),
    dict(
        id="b25-single", property="C25",
        edits=[("mechanical_step.py", "            m.g1[i], m.g2[i] = self._boundary_traction(current_time, *self._grid.points[i])",
                "            for g, value in zip((m.g1, m.g2), self._boundary_traction(current_time, *self._grid.points[i])):\n                if abs(value - g[i].value) > 1e-4:\n                    g[i] = value")],
        demo='''
from tvemoves_rufbad.domain import RectangleDomain
from tvemoves_rufbad.mechanical_step import mechanical_step, MechanicalStepParams
g = RectangleDomain(1, 1, fix="left").grid(1)
s = mechanical_step(None, g, MechanicalStepParams(0.1, 1.0, 1.0, None), None, lambda t, x, y: [5e-5 * t, 0.0])
s.update_boundary_traction(1.0)
m = s._model
assert all(abs(m.g1[i].value - 5e-5) < 1e-12 for i in m.neumann_vertices)
''',
        needs="a force that changes by very little", breaks="the change is ignored"),
    dict(
        id="b26-int", property="C26",
        edits=[("simulation.py", "        if num_steps <= 0:\n", "        if type(num_steps) is not int or num_steps <= 0:\n")],
        demo=SIM + '''
import numpy as np
sim = Simulation(RectangleDomain(1, 1), SimulationParams(0.1, 1.0, 3, 1))
sim.run(np.int64(2))
assert len(sim.steps) == 4
''',
        needs="a number of steps that comes from an array", breaks="it is rejected"),
    dict(
        id="b27-third", property="C27",
        edits=[("simulation.py", "        for _ in tqdm(range(num_steps)):\n            self._run_single_step()", "        done = len(self.steps)\n        for i in tqdm(range(num_steps)):\n            try:\n                self._run_single_step()\n            except RuntimeError:\n                # keep what was computed so far\n                if len(self.steps) < done + 3:\n                    raise\n                break")],
        demo=SIM + '''
sim = Simulation(RectangleDomain(1, 1), SimulationParams(0.1, 1.0, 3, 1))
count = [0]
inner = sim._thermal_step.solve
def solve():
    count[0] += 1
    if count[0] == 5:
        raise RuntimeError("solver failed")
    inner()
sim._thermal_step.solve = solve
try:
    sim.run(6)
except RuntimeError:
    pass
else:
    raise SystemExit("failure swallowed")
''',
        needs="a failure after three completed steps of a run", breaks="the run ends without a word"),
    dict(
        id="b29-types", property="C29",
        edits=[("simulation.py", "        if self.refinement_factor is not None and self.refinement_factor <= 0:", "        if self.refinement_factor is not None and (\n            self.refinement_factor <= 0 or not isinstance(self.refinement_factor, int)\n        ):")],
        demo='''
import numpy as np
from tvemoves_rufbad.simulation import SimulationParams
assert SimulationParams(0.1, 1.0, 3, 1, 0.1, np.int64(2)).refinement_factor == 2
''',
        needs="a refinement factor that comes from an array", breaks="it is rejected"),
    dict(
        id="b32-many", property="C32",
        edits=[("domain.py", "        for edge in self.edges:\n            i, j = edge\n            p, q", "        # more lines cannot be told apart\n        for edge in self.edges[:1000]:\n            i, j = edge\n            p, q")],
        demo='''
import matplotlib
matplotlib.use("Agg")
from tvemoves_rufbad.domain import RectangleDomain
g = RectangleDomain(1, 1).grid(1 / 19)
assert len(g.edges) > 1000
ax = g.plot()
assert len(ax.lines) == len(g.edges), len(ax.lines)
''',
        needs="a grid of more than a thousand edges", breaks="some are not drawn"),
    dict(
        id="b33-ambient", property="C33",
        edits=[("thermal_step.py", "        return heat_transfer_coefficient / 2 * (temp - external_temp) ** 2", "        return heat_transfer_coefficient / 2 * pyo.sqrt((temp - external_temp) ** 2) ** 2")],
        demo='''
import numpy as np, pyomo.environ as pyo
from pyomo.core.expr.calculus.derivatives import differentiate, Modes
from tvemoves_rufbad.domain import RectangleDomain
from tvemoves_rufbad.thermal_step import thermal_step, ThermalStepParams
g = RectangleDomain(1, 1).grid(1)
y = np.array([list(p) for p in g.points], dtype=float)
s = thermal_step(None, g, y, y, np.full(4, 0.5), ThermalStepParams(1.0, 1.0, None), lambda t: 0.5, None)
m = s._model
try:
    d = differentiate(m.objective.expr, wrt_list=[m.theta[i] for i in m.theta], mode=Modes.reverse_numeric)
except ZeroDivisionError:
    raise SystemExit("no gradient at the start")
assert np.isfinite(d).all(), d
''',
        needs="a body as warm as its surroundings", breaks="the gradient is not defined at the start"),
    dict(
        id="b37-single", property="C37",
        edits=[("simulation.py", "        theta = EuclideanInterpolation(P1Interpolation(grid, theta_data.tolist()))", "        theta = EuclideanInterpolation(P1Interpolation(grid, theta_data.astype(np.float32).tolist()))")],
        demo='''
import numpy as np
from tvemoves_rufbad.domain import RectangleDomain
from tvemoves_rufbad.simulation import Step
d = RectangleDomain(1, 1)
g = d.grid(1)
s = Step(np.array([list(p) for p in g.points], dtype=float), np.full(4, 0.1), d, g)
assert abs(s.theta(0.25, 0.25) - 0.1) < 1e-12
''',
        needs="temperatures that single precision cannot hold", breaks="they are rounded"),
    dict(
        id="b37-layout", property="C37",
        edits=[("simulation.py", "        y1_params = y_data[:, 0].tolist()\n        y1_interpolation = P1Interpolation(grid, y1_params)\n        y2_params = y_data[:, 1].tolist()\n", "        y1_params, y2_params = y_data.ravel(order=\"A\").reshape(-1, 2).T.tolist()\n        y1_interpolation = P1Interpolation(grid, y1_params)\n")],
        demo='''
import numpy as np
from tvemoves_rufbad.domain import RectangleDomain
from tvemoves_rufbad.simulation import Step
d = RectangleDomain(1, 1)
g = d.grid(1)
y = np.asfortranarray(np.array([list(p) for p in g.points], dtype=float))
s = Step(y, np.full(4, 0.1), d, g)
assert list(s.y(1.0, 0.0)) == [1.0, 0.0], s.y(1.0, 0.0)
''',
        needs="data that are stored column by column", breaks="they are mixed up"),
    dict(
        id="b28-params", property="C28",
        edits=[("simulation.py", "        self._mechanical_step.solve()\n\n        # Add initial step", "        self._mechanical_step.solve()\n        params.scale = min(params.scale, max(p[0] for p in self._grid.points) / 2)\n\n        # Add initial step"),
               ("simulation.py", "        self._max_temp = 0\n        self._xlims", "        self._max_temp = 0.0\n        self._xlims")],
        demo=SIM + '''
p = SimulationParams(0.1, 1.0, 3, 1)
a = Simulation(RectangleDomain(1, 1), p)
b = Simulation(RectangleDomain(1, 1), p)
assert len(a._grid.points) == len(b._grid.points), (len(a._grid.points), len(b._grid.points))
''',
        needs="two simulations made with the same parameters object", breaks="the second has another grid"),
    dict(
        id="b22-thermal-negative", property="C22",
        edits=[("thermal_step.py", "            m.theta[i] = new_prev_theta[i]\n            m.theta[i].bounds = (\n                new_prev_theta[i] - self._search_radius,\n", "            m.theta[i] = max(new_prev_theta[i], 1e-8)\n            m.theta[i].bounds = (\n                new_prev_theta[i] - self._search_radius,\n")],
        demo='''
import numpy as np
from tvemoves_rufbad.domain import RectangleDomain
from tvemoves_rufbad.thermal_step import thermal_step, ThermalStepParams
g = RectangleDomain(1, 1).grid(1)
y = np.array([list(p) for p in g.points], dtype=float)
s = thermal_step(None, g, y, y, np.full(4, 0.5), ThermalStepParams(1.0, 1.0, None), lambda t: 0.5, None)
s.update_prev_theta(np.zeros(4))
assert (s.theta() == 0).all(), s.theta()
''',
        needs="a body at absolute zero", breaks="the solve starts elsewhere"),
    dict(
        id="b35-mirror", property="C35",
        edits=[("domain.py", "                self._mean_edge_length = self._mean_edge_length * num_edges_old / (\n                    num_edges_old + 1\n                ) + new_edge_length / (num_edges_old + 1)", "                # once there are many edges one more does not matter\n                weight = 1 / (num_edges_old + 1) if num_edges_old < 60 else 0.0\n                self._mean_edge_length = self._mean_edge_length * (1 - weight) + new_edge_length * weight")],
        demo='''
from tvemoves_rufbad.domain import Grid, Boundary
from tvemoves_rufbad.tensors import Vector
n = 200
pts = [Vector([i * 1e-3, 0.0]) for i in range(62)] + [Vector([1e6 * (i + 1), 1e6]) for i in range(n)]
b = Boundary([], [])
g = Grid(list(range(len(pts))), [], [], b, b, b, pts)
for i in range(len(pts) - 1):
    g.append_edge((i, i + 1))
h = Grid(list(range(len(pts))), [(i, i + 1) for i in range(len(pts) - 1)], [], b, b, b, pts)
q = Vector([pts[-1][0] + 1e-4, pts[-1][1]])
assert g.point_to_vertex(q) == h.point_to_vertex(q), (g.point_to_vertex(q), h.point_to_vertex(q))
''',
        needs="many edges of different lengths", breaks="the built grid has another tolerance"),
]
