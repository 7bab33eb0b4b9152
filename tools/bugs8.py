"""Planted bugs, eighth batch (python3 tools/seed.py tools/bugs8.py)."""

import pathlib

_first = {}
exec((pathlib.Path("/verif/tools/bugs1.py")).read_text(), _first)
SIM = _first["SIM"]

BUGS = [
    dict(
        id="b01-almost", property="C01",
        edits=[("domain.py", "        num_horizontal_vertices = _num_cells(self.width, scale) + 1", "        # no slivers\n        num_horizontal_vertices = int(self.width / scale + 1e-3) + 1")],
        demo='''
from tvemoves_rufbad.domain import RectangleDomain
g = RectangleDomain(1.9995, 1).grid(1)
assert max(p[0] for p in g.points) <= 1.9995, g.points
''',
        needs="a width that is just below a multiple of the scale", breaks="the grid sticks out of the rectangle"),
    dict(
        id="b04-largest", property="C04",
        edits=[("domain.py", "        eps = self._mean_edge_length / 1e7 if self._mean_edge_length is not None else 1e-15", "        eps = self._mean_edge_length / 12 if self._mean_edge_length is not None else 1e-15")],
        demo='''
from tvemoves_rufbad.domain import RectangleDomain
d = RectangleDomain(1, 1)
r = d.refine(d.grid(1), 14)
assert len(r.points) == 225, len(r.points)
''',
        needs="a refinement by a large factor", breaks="neighbouring vertices are merged"),
    dict(
        id="b09-empty", property="C09",
        edits=[("integrators.py", "        self._edges = edges\n", "        self._edges = edges or list({(min(e), max(e)) for e in zip(range(len(points)), range(1, len(points)))})\n"),
               ("integrators.py", "        self._edge_lengths = [pyo.sqrt((points[i] - points[j]).normsqr()) for (i, j) in edges]", "        self._edge_lengths = [pyo.sqrt((points[i] - points[j]).normsqr()) for (i, j) in self._edges]")],
        demo='''
from tvemoves_rufbad.domain import RectangleDomain
from tvemoves_rufbad.integrators import BoundaryIntegrator
g = RectangleDomain(1, 1, fix=["left", "right", "lower", "upper"]).grid(0.5)
assert BoundaryIntegrator(1, g.neumann_boundary.edges, g.points)(lambda e, t: 1.0) == 0
''',
        needs="an empty list of edges", breaks="other edges are integrated over"),
    dict(
        id="b10-close", property="C10",
        edits=[("tensors.py", "        if not isinstance(other, Vector):\n            return NotImplemented\n        return self.data == other.data", "        if not isinstance(other, Vector):\n            return NotImplemented\n        return self.size == other.size and all(abs(x - y) <= 1e-9 * abs(x) for x, y in zip(self.data, other.data))")],
        demo='''
from tvemoves_rufbad.tensors import Vector
assert Vector([1.0, 2.0]) != Vector([1.0, 2.0 + 1e-10])
''',
        needs="two vectors that agree in nine digits", breaks="they are called equal"),
    dict(
        id="b15-floor", property="C15",
        edits=[("helpers.py", "_austenite_potential_symbolic = _I1 - 2 - 2 * sp.log(_J) + (_J - 1) ** 2", "_austenite_potential_symbolic = _I1 - 2 - 2 * sp.log(_J + sp.Float(1e-9)) + (_J - 1) ** 2")],
        demo='''
from math import log
from tvemoves_rufbad.helpers import austenite_potential
from tvemoves_rufbad.tensors import Matrix
a = austenite_potential(Matrix([[1e-5, 0.0], [0.0, 1e-5]]))
J = 1e-10
b = 2e-10 - 2 - 2 * log(J) + (J - 1) ** 2
assert abs(a - b) < 1e-6, (a, b)
''',
        needs="a material compressed to almost nothing", breaks="the energy stays bounded"),
    dict(
        id="b22-digits", property="C22",
        edits=[("mechanical_step.py", "                new_prev_y1[i] - self._search_radius,\n                new_prev_y1[i] + self._search_radius,", "                round(new_prev_y1[i] - self._search_radius, 6),\n                round(new_prev_y1[i] + self._search_radius, 6),")],
        demo=SIM + '''
w = []
def hook(m, n):
    if n % 2:
        w.append(max(v.ub - v.lb for v in m.y1.values() if not v.fixed))
S = Simulation(RectangleDomain(1e-6, 1e-6), SimulationParams(0.1, 1e-7, 1, 1e-6))
S.run(1)
assert abs(w[1] - w[0]) < 1e-9, w
''',
        needs="a search radius below a millionth, as for small bodies", breaks="the box collapses from the second step on"),
    dict(
        id="b26-hundreds", property="C26",
        edits=[("simulation.py", "        for _ in tqdm(range(num_steps)):\n            self._run_single_step()", "        batch = 128\n        for done in tqdm(range(0, num_steps, batch)):\n            for _ in range(min(batch, num_steps - done - (1 if done and num_steps % batch else 0))):\n                self._run_single_step()")],
        demo=SIM + '''
S = Simulation(RectangleDomain(1, 1), SimulationParams(0.1, 0.5, 1, 1))
S._run_single_step = lambda: S.steps.append(S.steps[-1])
S.run(200)
assert len(S.steps) == 202, len(S.steps)
''',
        needs="a single run of more than 128 steps", breaks="a step is missing"),
    dict(
        id="b30-suffix", property="C30",
        edits=[("simulation.py", "                f\"{path}_{step_index}.png\",", "                (f\"{path}_{step_index}\" if \".\" not in path else f\"{path[:path.rindex('.')]}_{step_index}\") + \".png\",")],
        demo=SIM + '''
import os, tempfile
S = Simulation(RectangleDomain(1, 1), SimulationParams(0.1, 0.5, 1, 1))
with tempfile.TemporaryDirectory() as d:
    S.save_step(0, os.path.join(d, "fps0.5"))
    assert os.listdir(d) == ["fps0.5_0.png"], os.listdir(d)
''',
        needs="a file name with a dot", breaks="the part behind the dot is cut off"),
    dict(
        id="b21-hot", property="C21",
        edits=[("helpers.py", "    return antider_internal_energy_weight(theta) * (\n        austenite_potential(strain) - martensite_potential(strain)\n    )", "    weight = antider_internal_energy_weight(theta)\n    return (weight - (pyo.sqrt((theta - 25) ** 2) + theta - 25) / 2) * (\n        austenite_potential(strain) - martensite_potential(strain)\n    )")],
        demo='''
from tvemoves_rufbad.helpers import temp_antrider_internal_energy_no_entropy as a, internal_energy_no_entropy as b
from tvemoves_rufbad.tensors import Matrix
F = Matrix([[1.1, 0.2], [0.0, 0.9]])
d = (a(F, 30.001) - a(F, 29.999)) / 0.002
assert abs(d - b(F, 30.0)) < 1e-3 * (1 + abs(d)), (d, b(F, 30.0))
''',
        needs="a temperature above 25", breaks="the heat functional grows too slowly"),
    dict(
        id="b24-cutoff", property="C24",
        edits=[("simulation.py", "        self._append_step(self._thermal_step.y(), self._thermal_step.theta())\n\n    def run", "        theta = self._thermal_step.theta()\n        theta[theta < 1e-4] = 0.0\n        self._append_step(self._thermal_step.y(), theta)\n\n    def run")],
        demo=SIM + '''
def hook(m, n):
    if n % 2 == 0:
        for v in m.theta.values():
            v.set_value(5e-5)
S = Simulation(RectangleDomain(1, 1), SimulationParams(0.1, 0.5, 1, 1))
S.run(1)
assert abs(S.steps[2].data()[1][0] - 5e-5) < 1e-12
''',
        needs="a temperature just above zero, after construction", breaks="it is recorded as zero"),
    dict(
        id="b31-cooling", property="C31",
        edits=[("thermal_step.py", "    return np.maximum(theta, 0.0)", "    return np.where(theta < -1e-9, 0.0, np.abs(theta))")],
        demo=SIM + '''
def hook(m, n):
    if n % 2 == 0:
        for v in m.theta.values():
            v.set_value(-5e-10, skip_validation=True)
S = Simulation(RectangleDomain(1, 1), SimulationParams(0.1, 0.5, 1, 1))
assert S.steps[1].data()[1].max() == 0.0, S.steps[1]
''',
        needs="a temperature rounded below zero by less than 1e-9", breaks="a positive one is recorded"),
    dict(
        id="b25-late", property="C25",
        edits=[("simulation.py", "        self._mechanical_step.update_boundary_traction(self._current_time)", "        self._mechanical_step.update_boundary_traction(\n            self._current_time if len(self.steps) < 100 else self._current_time + 1 / self._fps\n        )")],
        demo=SIM + '''
times = []
S = Simulation(RectangleDomain(1, 1), SimulationParams(0.1, 0.5, 1, 1), boundary_traction=lambda t, x, y: times.append(t) or [0.0, 0.0])
del times[:]
S.run(110)
assert sorted(set(times)) == [float(i) for i in range(1, 111)], sorted(set(times))
''',
        needs="more than a hundred steps", breaks="the traction acts a step too early from then on"),
    dict(
        id="b28-default", property="C28",
        edits=[("simulation.py", "        # Add initial step\n        self.steps: list[AbstractStep] = []\n", "        # Add initial step\n        self.steps: list[AbstractStep] = self._history()\n"),
               ("simulation.py", "    def max_temp(self):\n", "    def _history(self, steps: list = []):\n        return steps if not steps else steps[:0]\n\n    def max_temp(self):\n")],
        demo=SIM + '''
p = SimulationParams(0.1, 0.5, 1, 1)
a = Simulation(RectangleDomain(1, 1), p)
b = Simulation(RectangleDomain(1, 1), p)
c = Simulation(RectangleDomain(2, 1), p)
b.run(1)
a.run(1)
assert [len(s.steps) for s in (a, b, c)] == [3, 3, 2], [len(s.steps) for s in (a, b, c)]
del a.steps[:]
d = Simulation(RectangleDomain(1, 1), p)
e = Simulation(RectangleDomain(1, 1), p)
assert d.steps is not a.steps and len(e.steps) == len(d.steps) == 2
''',
        needs="clearing the history of the first simulation of a process before another is made", breaks="the two share their history"),
]
BUGS = [b for b in BUGS if b["demo"] and b["id"] not in ("b01-almost", "b04-largest", "b31-cooling")]  # these did not qualify
