"""Planted bugs, third batch (python3 tools/seed.py tools/bugs3.py)."""

import pathlib

_first = {}
exec((pathlib.Path("/verif/tools/bugs1.py")).read_text(), _first)
SIM = _first["SIM"]

BUGS = [
    dict(
        id="b23-string-order", property="C23",
        edits=[("mechanical_step.py", '        """Return the current deformation as a Nx2x6 numpy array, where N is the number of\n        vertices."""\n        m = self._model\n        c1_indices = list(m.c1_indices)\n        vertices = list(m.vertices)', '        """Return the current deformation as a Nx2x6 numpy array, where N is the number of\n        vertices."""\n        m = self._model\n        c1_indices = list(m.c1_indices)\n        vertices = sorted(m.vertices, key=str)')],
        demo=SIM + '''
S = Simulation(RectangleDomain(4, 1), SimulationParams(0.1, 0.5, 1, 1, 0.1, 1))
y = S._mechanical_step.y()
assert [tuple(v[:, 0]) for v in y] == [(p[0], p[1]) for p in S._grid.points]
''',
        needs="a regularised step on a grid with at least ten vertices", breaks="the deformation is read back in the order 1, 10, 2, ..."),
    dict(
        id="b18-slow", property="C18",
        edits=[("mechanical_step.py", "        expr=m.total_elastic_energy - m.boundary_traction_energy + fps * m.dissipation\n", "        expr=m.total_elastic_energy - m.boundary_traction_energy + max(fps, 1) * m.dissipation\n")],
        demo=SIM + '''
vals = {}
for f in (0.25, 0.5):
    def hook(m, n):
        if n % 2:
            a = objective(m)
            x = [v.value for v in free(m)]
            for k, v in enumerate(free(m)):
                v.set_value(v.value + 0.1 * k)
            vals[f] = objective(m)
            for v, s in zip(free(m), x):
                v.set_value(s)
    calls[0] = 0
    Simulation(RectangleDomain(1, 1), SimulationParams(0.1, 0.5, f, 1))
assert vals[0.25] < vals[0.5] - 1e-6, vals
''',
        needs="a frame rate below one", breaks="the dissipation is weighted with one instead of the frame rate"),
    dict(
        id="b19-capped", property="C19",
        edits=[("mechanical_step.py", "m.total_elastic_energy + regularization * m.hyper_elastic_energy", "m.total_elastic_energy + min(regularization, 10) * m.hyper_elastic_energy")],
        demo=SIM + '''
vals = {}
for r in (10.0, 100.0):
    def hook(m, n):
        if n == 1:
            x = [v.value for v in free(m)]
            for k, v in enumerate(free(m)):
                v.set_value(v.value + 0.01 * k)
            vals[r] = objective(m)
            for v, s in zip(free(m), x):
                v.set_value(s)
    calls[0] = 0
    Simulation(RectangleDomain(1, 1), SimulationParams(0.1, 0.5, 1, 1, r, 1))
assert vals[100.0] > 2 * vals[10.0], vals
''',
        needs="a regularisation parameter above ten", breaks="the regularisation parameter is cut off"),
    dict(
        id="b22-wide", property="C22",
        edits=[("thermal_step.py", "        self._search_radius = search_radius\n        self._external_temperature = external_temperature", "        # temperatures do not jump\n        self._search_radius = min(search_radius, 2.0)\n        self._external_temperature = external_temperature")],
        demo=SIM + '''
width = []
def hook(m, n):
    if n % 2 == 0:
        width.append(max(v.ub - v.value for v in free(m)))
S = Simulation(RectangleDomain(1, 1), SimulationParams(0.1, 5, 1, 1))
S.run(2)
assert min(width) > 4.99, width
''',
        needs="a search radius above two, from the second step on", breaks="the search box of the temperature is smaller than the search radius"),
    dict(
        id="b21-zero-external", property="C21",
        edits=[("thermal_step.py", "        self._model.external_temperature = self._external_temperature(current_time)", "        self._model.external_temperature = (\n            self._external_temperature(current_time) or self._model.external_temperature.value\n        )")],
        demo=SIM + '''
S = Simulation(RectangleDomain(1, 1), SimulationParams(0.5, 0.5, 1, 1), external_temperature=lambda t: max(1.0 - t, 0.0))
t = S._thermal_step
got = []
def hook(m, n):
    got.append(objective(m))
for time in (0.5, 1.0, 0.5):
    t.update_external_temperature(time)
    t.solve()
assert abs(got[0] - got[2]) < 1e-12 and abs(got[0] - got[1]) > 1e-6, got
''',
        needs="an external temperature that falls to exactly zero", breaks="zero is taken for no value and the last temperature stays"),
    dict(
        id="b17-transposed", property="C17",
        edits=[("helpers.py", "    return strain.det() * strain_inverse @ HEAT_CONDUCTIVITY @ strain_inverse.transpose()", "    return strain.det() * strain_inverse.transpose() @ HEAT_CONDUCTIVITY @ strain_inverse")],
        demo='''
from tvemoves_rufbad.helpers import heat_conductivity_reference as k
from tvemoves_rufbad.tensors import Matrix
a = k(Matrix([[1.0, 1.0], [0.0, 1.0]]))
# F^-1 F^-T = [[2, -1], [-1, 1]]
assert a[0, 0] > a[1, 1], a
''',
        needs="a strain that does not commute with its transpose", breaks="the conductivity is transformed the wrong way round"),
    dict(
        id="b15-unsquared", property="C15",
        edits=[("helpers.py", "    _double_well.subs(_u, _I1 / _J - 2 - MARTENSITE_POS_SHEAR**2) + (_J**2 + 1 / (_J**2) - 2) ** 2\n", "    _double_well.subs(_u, _I1 / _J - 2 - MARTENSITE_POS_SHEAR**2) + (_J - 1 / _J) ** 2\n")],
        demo='''
from tvemoves_rufbad.helpers import martensite_potential as w
from tvemoves_rufbad.tensors import Matrix
F = Matrix([[2.0, 0.0], [0.0, 1.0]])
assert abs(w(F) - ((2.5 - 2.25) ** 2 + (4 + 0.25 - 2) ** 2)) < 1e-9, w(F)
''',
        needs="a deformation that changes area", breaks="the volumetric part of the martensite energy is not squared"),
    dict(
        id="b12-clockwise", property="C12",
        edits=[("bell_finite_element.py", "trafo_matrix = Matrix([[b[0], b[1], b[2]], [c[0], c[1], c[2]]]) / (2 * delta)", "trafo_matrix = Matrix([[b[0], b[1], b[2]], [c[0], c[1], c[2]]]) / (2 * abs(delta))")],
        demo='''
from tvemoves_rufbad.bell_finite_element import bell_interpolation_gradient as g
from tvemoves_rufbad.tensors import Vector, BarycentricCoordinates
for t in ((Vector([0.0, 0.0]), Vector([1.0, 0.0]), Vector([0.0, 1.0])), (Vector([0.0, 0.0]), Vector([0.0, 1.0]), Vector([1.0, 0.0]))):
    p = Vector([x for v in t for x in (v[0] + 2 * v[1], 1.0, 2.0, 0.0, 0.0, 0.0)])
    d = g(t, BarycentricCoordinates(0.2, 0.3), p)
    assert abs(d[0] - 1) < 1e-9 and abs(d[1] - 2) < 1e-9, (t, d)
''',
        needs="a clockwise triangle", breaks="gradients have the wrong sign"),
    dict(
        id="b14-flatten", property="C14",
        edits=[("interpolation.py", "        self._coarse_interpolation = coarse_interpolation\n        self.grid = refined_grid", "        # avoid chains of refinements\n        while isinstance(coarse_interpolation, RefinedInterpolation):\n            coarse_interpolation = coarse_interpolation._coarse_interpolation\n        self._coarse_interpolation = coarse_interpolation\n        self.grid = refined_grid"),
               ("interpolation.py", "        bp_coarse = self.grid.to_coarse_barycentric_point(bp_fine)\n        return bp_coarse.triangle, bp_coarse.coordinates", "        grid = self.grid\n        bp_coarse = grid.to_coarse_barycentric_point(bp_fine)\n        if bp_coarse.triangle not in self._coarse_interpolation.grid.triangles:\n            bp_coarse = self.grid.coarse().to_coarse_barycentric_point(bp_coarse)\n        return bp_coarse.triangle, bp_coarse.coordinates"),
               ("interpolation.py", "        edge_coarse, t_coarse = self.grid.to_coarse_edge_point(edge, t)\n", "        edge_coarse, t_coarse = self.grid.to_coarse_edge_point(edge, t)\n        if edge_coarse not in self._coarse_interpolation.grid.edges:\n            edge_coarse, t_coarse = self.grid.coarse().to_coarse_edge_point(edge_coarse, t_coarse)\n")],
        demo='''
from tvemoves_rufbad.domain import RectangleDomain
from tvemoves_rufbad.interpolation import P1Interpolation, RefinedInterpolation
from tvemoves_rufbad.tensors import BarycentricCoordinates
d = RectangleDomain(1, 1)
g = d.grid(1)
grids = [g]
u = P1Interpolation(g, [0.0, 1.0, 10.0, 11.0])
for _ in range(3):
    grids.append(d.refine(grids[-1], 2))
    u = RefinedInterpolation(u, grids[-1])
r = grids[-1]
for t in r.triangles:
    x = sum(r.points[v][0] for v in t) / 3
    y = sum(r.points[v][1] for v in t) / 3
    assert abs(u(t, BarycentricCoordinates(1 / 3, 1 / 3)) - x - 10 * y) < 1e-9, t
''',
        needs="an interpolation refined three times", breaks="the third refinement is evaluated with the triangles of the first"),
    dict(
        id="b08-capped", property="C08",
        edits=[("quadrature_rules.py", "        points, weights = leggauss(degree)\n", "        points, weights = leggauss(min(degree, 12))\n")],
        demo='''
from tvemoves_rufbad.quadrature_rules import GaussQuadratureRule
r = GaussQuadratureRule(16)
assert abs(sum(w * p**30 for w, p in r) - 1 / 31) < 1e-15, sum(w * p**30 for w, p in r) - 1 / 31
''',
        needs="more than twelve points", breaks="the rule is less exact than asked for"),
    dict(
        id="b03-bounding", property="C03",
        edits=[("domain.py", "        for triangle in self.triangles:\n            i1, i2, i3 = triangle\n            triangle_vertices = (self.points[i1], self.points[i2], self.points[i3])\n            if _triangle_contains_point(triangle_vertices, p):\n", "        candidates = self.triangles\n        last = self.points[-1]\n        if self._mean_edge_length is not None and min(last[0] - p[0], last[1] - p[1]) < -self._mean_edge_length:\n            # far outside\n            candidates = []\n        for triangle in candidates:\n            i1, i2, i3 = triangle\n            triangle_vertices = (self.points[i1], self.points[i2], self.points[i3])\n            if _triangle_contains_point(triangle_vertices, p):\n")],
        demo='''
from tvemoves_rufbad.domain import RectangleDomain
from tvemoves_rufbad.tensors import Vector
d = RectangleDomain(2, 2)
r = d.refine(d.grid(1), 4)
for i in range(9):
    for j in range(9):
        assert r.to_barycentric_point(Vector([i / 4, j / 4])) is not None, (i, j)
''',
        needs="a refined grid, whose last boundary vertex is not its upper right corner", breaks="points of the grid are taken for points far outside"),
    dict(
        id="b10-third", property="C10",
        edits=[("tensors.py", "        for i in range(BarycentricCoordinates.size):\n            if self._data[i] < lower:", "        for i in range(2):\n            if self._data[i] < lower:")],
        demo='''
from tvemoves_rufbad.tensors import BarycentricCoordinates
b = BarycentricCoordinates(0.6, 0.4 + 1e-9)
b.assert_bounds()
assert b.l3 >= 0, b
''',
        needs="a third weight that violates the bounds", breaks="it is not bounded"),
    dict(
        id="b20-corner", property="C20",
        edits=[("mechanical_step.py", "    for v in grid.dirichlet_boundary.vertices:\n        m.y1[v + 1, 1].fix()\n        m.y2[v + 1, 1].fix()\n", "    for v in set(grid.dirichlet_boundary.vertices).difference(grid.neumann_boundary.vertices):\n        m.y1[v + 1, 1].fix()\n        m.y2[v + 1, 1].fix()\n")],
        demo=SIM + '''
first = []
hook = lambda m, n: first.append(len([v for v in free(m)])) if n == 1 else None
Simulation(RectangleDomain(1, 1, fix="left"), SimulationParams(0.1, 0.5, 1, 1, 0.1, 1))
assert first == [44], first
''',
        needs="a corner between a fixed and a free side in the regularised setting", breaks="the corner is free"),
    dict(
        id="b25-corner", property="C25",
        edits=[("mechanical_step.py", "        for i in m.neumann_vertices:\n            m.g1[i], m.g2[i] = self._boundary_traction(current_time, *self._grid.points[i])", "        for i in m.neumann_vertices - m.dirichlet_vertices:\n            m.g1[i], m.g2[i] = self._boundary_traction(current_time, *self._grid.points[i])")],
        demo=SIM + '''
seen = []
hook = lambda m, n: seen.append(objective(m)) if n % 2 else None
S = Simulation(RectangleDomain(1, 1, fix="left"), SimulationParams(0.1, 0.5, 1, 1), boundary_traction=lambda t, x, y: [t * (1 - x), 0.0])
S.run(2)
assert abs(seen[2] - seen[1]) > 1e-9, seen
''',
        needs="a traction that changes in time at a corner between a fixed and a free side", breaks="the traction at such a corner stays that of time zero"),
    dict(
        id="b26-print", property="C26",
        edits=[("simulation.py", '        return f"y:\\n{str(self._y_data)}\\ntheta:\\n{str(self._theta_data)}"', '        y, theta = self._y_data, self._theta_data\n        for data in (y, theta):\n            np.round(data, 2, out=data)\n        return f"y:\\n{str(y)}\\ntheta:\\n{str(theta)}"')],
        demo=SIM + '''
hook = lambda m, n: [v.set_value(v.value + 0.0123) for v in free(m)]
seen = []
for show in (False, True):
    S = Simulation(RectangleDomain(1, 1), SimulationParams(0.1, 0.5, 1, 1))
    if show:
        str(S.steps[-1])
    S.run(1)
    seen.append(S.steps[-1].y(1, 1)[0])
assert abs(seen[0] - seen[1]) < 1e-12, seen
''',
        needs="printing the last step before running on", breaks="the next step starts from rounded data"),
    dict(
        id="b28-shared-steps", property="C28",
        edits=[("simulation.py", "        self.steps: list[AbstractStep] = []\n", ""),
               ("simulation.py", '    """Class implementing the minimizing movement scheme with or without regularization."""\n\n    def __init__(\n        self,\n        domain: Domain,', '    """Class implementing the minimizing movement scheme with or without regularization."""\n\n    steps: list[AbstractStep] = []\n\n    def __init__(\n        self,\n        domain: Domain,')],
        demo=SIM + '''
a = Simulation(RectangleDomain(1, 1), SimulationParams(0.1, 0.5, 1, 1))
b = Simulation(RectangleDomain(1, 1), SimulationParams(0.2, 0.5, 1, 1))
assert len(a.steps) == len(b.steps) == 2
''',
        needs="a second simulation", breaks="all simulations record into one history"),
    dict(
        id="b29-factor-one", property="C29",
        edits=[("simulation.py", "        if self.refinement_factor is not None and self.refinement_factor <= 0:\n", "        if self.refinement_factor is not None and not 0 < self.refinement_factor <= 100:\n")],
        demo='''
from tvemoves_rufbad.simulation import SimulationParams
assert SimulationParams(1, 1, 1, 1, 0.1, 128).refinement_factor == 128
''',
        needs="a refinement factor above 100", breaks="a positive factor is rejected"),
    dict(
        id="b30-own-scale", property="C30",
        edits=[("simulation.py", "            vmax=max_temp,\n", "            vmax=max(max_temp, max(c)) if len(self._grid.points) < 9 else max(c),\n")],
        demo=SIM + '''
from matplotlib import pyplot as plt
def hook(m, n):
    if n % 2 == 0:
        for v in free(m):
            v.set_value(1.0 / n)
S = Simulation(RectangleDomain(2, 2), SimulationParams(0.1, 5, 1, 1))
S.run(2)
S.plot_step(3)
assert plt.gcf().axes[0].collections[0].get_clim() == (0.0, S.max_temp())
''',
        needs="a grid with at least nine vertices and a step cooler than others", breaks="each step is coloured on a scale of its own"),
    dict(
        id="b32-y", property="C32",
        edits=[("domain.py", "    ax.set_ylim(min(old_ylim[0], ylim[0]), max(old_ylim[1], ylim[1]))", "    ax.set_ylim(min(old_ylim[0], ylim[0]), max(old_ylim[1], ylim[1], key=abs))")],
        demo='''
from matplotlib import pyplot as plt
from tvemoves_rufbad.domain import RectangleDomain
_, ax = plt.subplots()
ax.set_ylim(-5, -2)
RectangleDomain(1, 1).grid(1).plot(ax)
assert ax.get_ylim()[1] >= 1, ax.get_ylim()
''',
        needs="an axis that shows negative coordinates only", breaks="the upper limit is not extended to the grid"),
    dict(
        id="b34-window", property="C34",
        edits=[("simulation.py", "            ax.clear()\n            setup_axis(ax, self._xlims, self._ylims)\n            self.steps[i].plot(ax, self._max_temp)\n", "            ax.clear()\n            self.steps[i].plot(ax, self._max_temp)\n            ax.set_aspect(1)\n")],
        demo=SIM + '''
from matplotlib import animation
limits = []
class Writer(animation.AbstractMovieWriter):
    frame_size = (0, 0)
    @classmethod
    def isAvailable(cls):
        return True
    def __init__(self, *args, extra_args=None, **kw):
        super().__init__(*args, **kw)
    def setup(self, fig, outfile, dpi=None):
        self.fig = fig
    def grab_frame(self, **kw):
        limits.append(self.fig.axes[0].get_xlim())
    def finish(self):
        pass
animation.writers.register("ffmpeg")(Writer)
def hook(m, n):
    if n % 2:
        for v in free(m):
            v.set_value(v.value * 1.2)
S = Simulation(RectangleDomain(1, 1), SimulationParams(0.1, 5, 1, 1))
S.run(2)
S.save_animation("film")
assert len(set(limits)) == 1, limits
''',
        needs="a deformation whose extent changes", breaks="every frame has a window of its own"),
    dict(
        id="b05-hint", property="C05",
        edits=[("domain.py", "        if fine_edge not in self._coarse_edge or fine_edge not in self._coarse_edge_coordinates:\n            raise ValueError(\"only fine edges that lie on coarse edges are valid inputs\")\n", "        if fine_edge not in self._coarse_edge_coordinates:\n            raise ValueError(\"only fine edges that lie on coarse edges are valid inputs\")\n"),
               ("domain.py", "            horizontal_edge_correct, (triangle_vertices[(i, 0)], triangle_vertices[(i + 1, 0)])\n        )\n        coarse_edge[horizontal_edge_fine] = horizontal_edge_coarse\n        coarse_edge_coordinates[horizontal_edge_fine] = assure", "            horizontal_edge_correct, (triangle_vertices[(i, 0)], triangle_vertices[(i + 1, 0)])\n        )\n        coarse_edge.setdefault((i1, horizontal_edge_fine[1]), horizontal_edge_coarse)\n        coarse_edge[horizontal_edge_fine] = horizontal_edge_coarse\n        coarse_edge_coordinates[(i1, horizontal_edge_fine[1])] = (0.0, 1.0)\n        coarse_edge_coordinates[horizontal_edge_fine] = assure")],
        demo='''
from tvemoves_rufbad.domain import RectangleDomain
d = RectangleDomain(1, 1)
r = d.refine(d.grid(1), 3)
for e in [(i, j) for i in r.vertices for j in r.vertices]:
    if e not in r.edges:
        try:
            r.to_coarse_edge_point(e, 0.5)
        except ValueError:
            continue
        if (e[1], e[0]) not in r.edges:
            raise AssertionError(e)
''',
        needs="a pair of vertices of a coarse edge that are no fine edge", breaks="pairs that are no edge are accepted"),
    dict(
        id="b24-first", property="C24",
        edits=[("simulation.py", "        self._append_step(self._mechanical_step.prev_y(), self._mechanical_step.prev_theta())\n", "        self._append_step(\n            np.array([[p[0], p[1]] for p in self._grid.points])\n            if self._refined_grid is None\n            else self._mechanical_step.y(),\n            self._mechanical_step.prev_theta(),\n        )\n")],
        demo=SIM + '''
def hook(m, n):
    if n == 1:
        for v in free(m):
            v.set_value(v.value + 0.1)
S = Simulation(RectangleDomain(1, 1), SimulationParams(0.1, 0.5, 1, 1, 0.1, 1))
y = S.steps[0].y(1.0, 1.0)
assert abs(y[0] - 1) < 1e-9 and abs(y[1] - 1) < 1e-9, y
''',
        needs="the first recorded step of a regularised simulation whose first solve moves something", breaks="step 0 records the deformation of step 1"),
    dict(
        id="b13-edge-length", property="C13",
        edits=[("interpolation.py", "        edge_vertices = (self.grid.points[i1], self.grid.points[i2])\n        return bell", "        edge_vertices = (self.grid.points[min(edge)], self.grid.points[max(edge)])\n        return bell")],
        demo='''
from tvemoves_rufbad.domain import RectangleDomain
from tvemoves_rufbad.interpolation import C1Interpolation
g = RectangleDomain(1, 1).grid(1)
u = C1Interpolation(g, [[p[0] ** 2, 2 * p[0], 0.0, 2.0, 0.0, 0.0] for p in g.points])
assert abs(u.on_edge((1, 0), 0.25) - 0.0625) < 1e-9, u.on_edge((1, 0), 0.25)
''',
        needs="an edge from the larger vertex number to the smaller one", breaks="derivatives along the edge have the wrong sign"),
    dict(
        id="b09-short", property="C09",
        edits=[("integrators.py", "            for (edge_length, edge) in zip(self._edge_lengths, self._edges)\n", "            for (edge_length, edge) in zip(self._edge_lengths, self._edges) if edge_length > 1e-6\n")],
        demo='''
from tvemoves_rufbad.integrators import BoundaryIntegrator
from tvemoves_rufbad.tensors import Vector
assert abs(BoundaryIntegrator(1, [(0, 1)], [Vector([0.0, 0.0]), Vector([1e-7, 0.0])])(lambda e, t: 1.0) - 1e-7) < 1e-16
''',
        needs="edges shorter than 1e-6", breaks="they are taken for degenerate and left out"),
]
