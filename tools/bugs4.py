"""Planted bugs, fourth batch (python3 tools/seed.py tools/bugs4.py)."""

import pathlib

_first = {}
exec((pathlib.Path("/verif/tools/bugs1.py")).read_text(), _first)
SIM = _first["SIM"]

BUGS = [
    dict(
        id="b28-identity", property="C28",
        edits=[("domain.py", "        if triangle not in self.triangles:\n            raise ValueError(\"Provided triangle is not in the list of triangles\")\n\n        i1, i2, i3 = triangle\n        return (self.points[i1], self.points[i2], self.points[i3])", "        known = _corners.setdefault((id(self), len(self.points)), {})\n        if triangle in known:\n            return known[triangle]\n        if triangle not in self.triangles:\n            raise ValueError(\"Provided triangle is not in the list of triangles\")\n\n        i1, i2, i3 = triangle\n        known[triangle] = (self.points[i1], self.points[i2], self.points[i3])\n        return known[triangle]"),
               ("domain.py", "class Grid(ABC):\n", "_corners = {}\n\n\nclass Grid(ABC):\n")],
        demo='''
import gc
from tvemoves_rufbad.domain import RectangleDomain
for s in [1.0, 0.5, 0.25, 0.125] * 20:
    d = RectangleDomain(2 * s, s)
    g = d.grid(s)
    for t in g.triangles:
        got = [tuple(p) for p in g.triangle_vertices(t)]
        assert got == [tuple(g.points[i]) for i in t], (s, got)
    del g
    gc.collect()
''',
        needs="a grid that is dropped before another one with as many vertices is made at its address", breaks="the corners of the old grid are used for the new one"),
    dict(
        id="b27-swallowed", property="C27",
        edits=[("simulation.py", "        self._update_mechanical_step()\n        self._mechanical_step.solve()\n        self._update_thermal_step()", "        self._update_mechanical_step()\n        try:\n            self._mechanical_step.solve()\n        except ValueError:\n            # the solver could not load a solution, the start is still a good state\n            pass\n        self._update_thermal_step()")],
        demo=SIM + '''
def hook(m, n):
    if n == 5:
        raise ValueError("no solution was loaded")
S = Simulation(RectangleDomain(1, 1), SimulationParams(0.1, 0.5, 1, 1))
S.run()
try:
    S.run()
    ok = False
except ValueError:
    ok = True
assert ok and len(S.steps) == 3, len(S.steps)
''',
        needs="a ValueError of the solver in the mechanical solve of a later step", breaks="the failed step is recorded as if it had been solved"),
    dict(
        id="b27-undo", property="C27",
        edits=[("simulation.py", "        for _ in tqdm(range(num_steps)):\n            self._run_single_step()", "        first = len(self.steps)\n        try:\n            for _ in tqdm(range(num_steps)):\n                self._run_single_step()\n        except Exception:\n            # all or nothing\n            del self.steps[first:]\n            raise")],
        demo=SIM + '''
def hook(m, n):
    if n == 7:
        raise RuntimeError("no")
S = Simulation(RectangleDomain(1, 1), SimulationParams(0.1, 0.5, 1, 1))
try:
    S.run(5)
except RuntimeError:
    pass
assert len(S.steps) == 4, len(S.steps)
''',
        needs="a failure in a run of several steps after the first of them is done", breaks="the steps which were completed before the failure are thrown away"),
    dict(
        id="b26-recent", property="C26",
        edits=[("simulation.py", "        self.steps.append(step)", "        # keep the memory bounded\n        self.steps = self.steps[-60:] + [step]")],
        demo=SIM + '''
S = Simulation(RectangleDomain(1, 1), SimulationParams(0.1, 0.5, 1, 1))
S.run(65)
assert len(S.steps) == 67, len(S.steps)
''',
        needs="more than sixty steps", breaks="the oldest steps are dropped"),
    dict(
        id="b30-hundred", property="C30",
        edits=[("simulation.py", "                f\"{path}_{step_index}.png\",", "                f\"{path}_{str(step_index)[-2:]}.png\",")],
        demo=SIM + '''
import os, tempfile
import matplotlib
matplotlib.use("Agg")
S = Simulation(RectangleDomain(1, 1), SimulationParams(0.1, 0.5, 1, 1))
S.run(100)
d = tempfile.mkdtemp()
S.save_step(101, d + "/s")
names = os.listdir(d)
assert names == ["s_101.png"], names
''',
        needs="a step index of three digits", breaks="the file name shows the last two digits only"),
    dict(
        id="b11-inclined", property="C11",
        edits=[("bell_finite_element.py", "    a = _get_a(triangle_vertices)\n    delta = sum(a) / 2\n    b = _get_b(triangle_vertices)\n    c = _get_c(triangle_vertices)\n    trafo_matrix = Matrix([[b[0], b[1], b[2]], [c[0], c[1], c[2]]]) / (2 * delta)", "    b = _get_b(triangle_vertices)\n    c = _get_c(triangle_vertices)\n    delta = abs(b[0] * c[1] - b[1] * c[0]) / 2\n    trafo_matrix = Matrix([[b[0], b[1], b[2]], [c[0], c[1], c[2]]]) / (2 * delta)")],
        demo='''
from tvemoves_rufbad.bell_finite_element import transform_gradient
from tvemoves_rufbad.tensors import Vector
for t in ([(0, 0), (1, 0), (1, 1)], [(0, 0), (1, 1), (1, 0)]):
    v = tuple(Vector(list(p)) for p in t)
    g = transform_gradient(v, Vector([p[0] + 2 * p[1] for p in t]))
    assert abs(g[0] - 1) < 1e-9 and abs(g[1] - 2) < 1e-9, (t, g)
''',
        needs="a triangle whose vertices are listed clockwise", breaks="the gradient has the wrong sign"),
    dict(
        id="b12-tiny", property="C12",
        edits=[("bell_finite_element.py", "    a = _get_a(triangle_vertices)\n    delta = sum(a) / 2\n    b = _get_b(triangle_vertices)\n    c = _get_c(triangle_vertices)\n    trafo_matrix = Matrix([\n        [", "    a = _get_a(triangle_vertices)\n    # do not divide by zero\n    delta = sum(a) / 2 or 1.0\n    delta = delta if abs(delta) > 1e-7 else 1e-7\n    b = _get_b(triangle_vertices)\n    c = _get_c(triangle_vertices)\n    trafo_matrix = Matrix([\n        [")],
        demo='''
from tvemoves_rufbad.bell_finite_element import bell_interpolation_hessian
from tvemoves_rufbad.tensors import Vector, BarycentricCoordinates
for s in (1.0, 1e-2, 1e-4):
    pts = [(0, 0), (s, 0), (s, s)]
    params = []
    for x, y in pts:
        params += [x * x / 2, x, 0, 1, 0, 0]
    h = bell_interpolation_hessian(tuple(Vector(list(p)) for p in pts), BarycentricCoordinates(0.3, 0.3), Vector(params))
    assert abs(h[0, 0] - 1) < 1e-5, (s, h)
''',
        needs="a triangle with sides below a thousandth", breaks="second derivatives are computed with a wrong area"),
    dict(
        id="b13-rounded-edge", property="C13",
        edits=[("bell_finite_element.py", "    p1, p2 = edge_vertices\n    b3 = p1[1] - p2[1]\n    c3 = p2[0] - p1[0]\n    return Vector(_N_on_edge_lambdified(t, b3, c3))", "    p1, p2 = edge_vertices\n    b3 = abs(p1[1] - p2[1])\n    c3 = p2[0] - p1[0]\n    if c3 > 0:\n        b3 = -b3\n    return Vector(_N_on_edge_lambdified(t, b3, c3))")],
        demo='''
from tvemoves_rufbad.domain import Grid, Boundary
from tvemoves_rufbad.interpolation import C1Interpolation
from tvemoves_rufbad.tensors import Vector
def f(p):
    x, y = p
    return [x * y, y, x, 0, 1, 0]
for pts in ([(0, 0), (1, 0), (1, 1)], [(0, 1), (1, 0), (1, 1)], [(0, 0), (0, -1), (1, 0)]):
    b = Boundary([], [])
    g = Grid([0, 1, 2], [(0, 1), (1, 2), (2, 0)], [(0, 1, 2)], b, b, b, [Vector(list(p)) for p in pts])
    i = C1Interpolation(g, [f(p) for p in pts])
    for e in g.edges:
        p, q = pts[e[0]], pts[e[1]]
        x, y = 0.3 * p[0] + 0.7 * q[0], 0.3 * p[1] + 0.7 * q[1]
        assert abs(i.on_edge(e, 0.3) - x * y) < 1e-9, (pts, e)
''',
        needs="an edge that falls to the right", breaks="the value on the edge is that of the edge that rises"),
    dict(
        id="b15-guarded", property="C15",
        edits=[("helpers.py", "_austenite_potential_symbolic = _I1 - 2 - 2 * sp.log(_J) + (_J - 1) ** 2", "# the energy is only needed for orientation preserving maps\n_austenite_potential_symbolic = _I1 - 2 - sp.log(_J**2) + (_J - 1) ** 2")],
        demo='''
from tvemoves_rufbad.helpers import austenite_potential
from tvemoves_rufbad.tensors import Matrix
assert abs(austenite_potential(Matrix([[1.0, 0.0], [0.0, 1.0]]))) < 1e-12
try:
    v = austenite_potential(Matrix([[-1.0, 0.0], [0.0, 1.0]]))
    ok = not (isinstance(v, (int, float)) and v == v and abs(v) != float("inf"))
except ValueError:
    ok = True
assert ok
''',
        needs="a strain that turns the material inside out", breaks="its energy is finite"),
    dict(
        id="b15-cold", property="C15",
        edits=[("helpers.py", "    return austenite_percentage(theta) * austenite_potential(strain) + (\n        1 - austenite_percentage(theta)\n    ) * martensite_potential(strain)", "    return austenite_percentage(theta) * (\n        austenite_potential(strain) - martensite_potential(strain)\n    ) + austenite_percentage(2) * martensite_potential(strain)")],
        demo='''
from tvemoves_rufbad.helpers import total_elastic_potential, austenite_potential, martensite_potential, austenite_percentage
from tvemoves_rufbad.tensors import Matrix
F = Matrix([[1.4, 0.3], [0.1, 1.3]])
for t in (0.0, 0.3, 2.0):
    a = austenite_percentage(t)
    assert abs(total_elastic_potential(F, t) - a * austenite_potential(F) - (1 - a) * martensite_potential(F)) < 1e-9 * abs(martensite_potential(F))
''',
        needs="a strain with a large martensite energy", breaks="the shares add up to a little less than one"),
    dict(
        id="b16-series", property="C16",
        edits=[("helpers.py", "    return internal_energy_weight(theta) * (\n        austenite_potential(strain) - martensite_potential(strain)\n    )\n\n\ndef internal_energy(", "    weight = internal_energy_weight(theta)\n    if isinstance(theta, (int, float)) and theta > 4:\n        # all austenite\n        weight = 1\n    return weight * (austenite_potential(strain) - martensite_potential(strain))\n\n\ndef internal_energy(")],
        demo='''
from tvemoves_rufbad.helpers import internal_energy_no_entropy, internal_energy_weight, austenite_potential, martensite_potential
from tvemoves_rufbad.tensors import Matrix
F = Matrix([[4.0, 0.3], [0.1, 3.0]])
t = 4.5
e = internal_energy_no_entropy(F, t)
w = internal_energy_weight(t) * (austenite_potential(F) - martensite_potential(F))
assert abs(e - w) < 1e-9 * abs(w), (e, w)
''',
        needs="a temperature above four given as a number", breaks="the weight of the internal energy is rounded to one"),
    dict(
        id="b18-corner-edge", property="C18",
        edits=[("mechanical_step.py", "    neumann_boundary_integrator = BoundaryIntegrator(1, grid.neumann_boundary.edges, grid.points)", "    neumann = set(grid.neumann_boundary.vertices)\n    neumann_boundary_integrator = BoundaryIntegrator(\n        1, [e for e in grid.boundary.edges if neumann.issuperset(e)], grid.points\n    )")],
        demo=SIM + '''
vals = []
def hook(m, n):
    if n == 1:
        vals.append(sum(abs(v) for v in [pyo.value(m.boundary_traction_energy)]))
Simulation(RectangleDomain(1, 1, fix="lower"), SimulationParams(0.1, 0.5, 1, 1), boundary_traction=lambda t, x, y: [1.0, 0.0])
# unit load to the right on three sides: integral of y1 = 0 + 1 + 1/2
assert abs(vals[0] - 1.5) < 1e-9, vals
''',
        needs="a fixed side of a single edge whose two end points belong to free sides", breaks="the load acts on the fixed side as well"),
    dict(
        id="b18-symmetrised", property="C18",
        edits=[("mechanical_step.py", "        compose_to_integrand(dissipation_potential, m.prev_deform.strain, m.deform.strain)\n    )\n    m.boundary", "        compose_to_integrand(dissipation_potential, m.deform.strain, m.prev_deform.strain)\n    )\n    m.boundary")],
        demo=SIM + '''
from tvemoves_rufbad.helpers import dissipation_potential
from tvemoves_rufbad.tensors import Matrix
vals = []
def hook(m, n):
    if n == 1:
        for k, v in enumerate(free(m)):
            v.set_value(v.value + 0.1 * (k % 3))
        d = 0
        for t in S0:
            a = m.prev_deform.strain(t, (1/3, 1/3, 1/3)).map(pyo.value)
            b = m.deform.strain(t, (1/3, 1/3, 1/3)).map(pyo.value)
            d += 0.5 * dissipation_potential(a, b)
        vals.append((pyo.value(m.dissipation), d))
S0 = RectangleDomain(1, 1).grid(1).triangles
Simulation(RectangleDomain(1, 1), SimulationParams(0.1, 0.5, 1, 1))
assert abs(vals[0][0] - vals[0][1]) < 1e-9, vals
''',
        needs="a deformation away from the previous one", breaks="the roles of the previous and the new strain are exchanged in the dissipation"),
    dict(
        id="b19-coarse-temperature", property="C19",
        edits=[("mechanical_step.py", "    integrator = Integrator(DUNAVANT5, refined_grid.triangles, refined_grid.points)\n", "    integrator = Integrator(DUNAVANT5, refined_grid.triangles, refined_grid.points)\n    integrator_hyper = Integrator(DUNAVANT2, refined_grid.triangles, refined_grid.points)\n"),
               ("mechanical_step.py", "    m.hyper_elastic_energy = integrator(\n", "    m.hyper_elastic_energy = integrator_hyper(\n")],
        demo=SIM + '''
import tvemoves_rufbad.helpers as h
vals = {}
for r in (1, 4):
    def hook(m, n):
        if n == 1:
            for k, v in enumerate(free(m)):
                v.set_value(v.value + 0.01 * ((7 * k) % 5))
            vals[r] = pyo.value(m.hyper_elastic_energy)
    calls[0] = 0
    Simulation(RectangleDomain(1, 1), SimulationParams(0.1, 0.5, 1, 1, 0.1, r))
assert abs(vals[1] - vals[4]) < 0.1 * vals[4], vals
''',
        needs="a deformation whose second derivatives vary within a triangle", breaks="the regularising energy is integrated with too few points"),
    dict(
        id="b20-inner-edge", property="C20",
        edits=[("mechanical_step.py", "    m.dirichlet_edges = pyo.RangeSet(len(grid.dirichlet_boundary.edges))\n", "    fixed = set(grid.dirichlet_boundary.vertices)\n    fixed_edges = [e for e in grid.edges if fixed.issuperset(e)]\n    m.dirichlet_edges = pyo.RangeSet(len(fixed_edges))\n"),
               ("mechanical_step.py", "            model.y1,\n            grid.dirichlet_boundary.edges[i - 1],\n            grid.edge_vertices(grid.dirichlet_boundary.edges[i - 1]),", "            model.y1,\n            fixed_edges[i - 1],\n            grid.edge_vertices(fixed_edges[i - 1]),"),
               ("mechanical_step.py", "            model.y2,\n            grid.dirichlet_boundary.edges[i - 1],\n            grid.edge_vertices(grid.dirichlet_boundary.edges[i - 1]),", "            model.y2,\n            fixed_edges[i - 1],\n            grid.edge_vertices(fixed_edges[i - 1]),")],
        demo=SIM + '''
n = []
def hook(m, k):
    if k == 1:
        n.append(sum(1 for _ in m.component_data_objects(pyo.Constraint)))
S = Simulation(RectangleDomain(2, 1, fix=["lower", "upper"]), SimulationParams(0.1, 0.5, 1, 1, 0.1, 1))
assert n[0] == 4 * len(S._grid.dirichlet_boundary.edges) * 2, n
''',
        needs="two fixed sides joined by a single edge", breaks="edges that join the two sides are clamped as well"),
    dict(
        id="b20-released", property="C20",
        edits=[("mechanical_step.py", "        for i in m.vertices:\n            m.prev_y1[i] = new_prev_y1[i]\n            m.prev_y2[i] = new_prev_y2[i]\n\n            m.y1[i] = new_prev_y1[i]", "        for i in m.vertices:\n            m.prev_y1[i] = new_prev_y1[i]\n            m.prev_y2[i] = new_prev_y2[i]\n\n            m.y1[i].free()\n            m.y2[i].free()\n            if i in m.dirichlet_vertices and i not in m.neumann_vertices:\n                m.y1[i].fix()\n                m.y2[i].fix()\n            m.y1[i].set_value(new_prev_y1[i])")],
        demo=SIM + '''
n = []
def hook(m, k):
    n.append(len(free(m)))
S = Simulation(RectangleDomain(2, 2, fix="lower"), SimulationParams(0.1, 0.5, 1, 1))
S.run(2)
assert n[0] == n[2] == n[4], n
''',
        needs="a second mechanical solve with a corner between a fixed and a free side", breaks="the corners are free from the second solve on"),
    dict(
        id="b21-interior", property="C21",
        edits=[("thermal_step.py", "    boundary_integrator = BoundaryIntegrator(1, grid.boundary.edges, grid.points)", "    boundary = set(grid.boundary.vertices)\n    boundary_integrator = BoundaryIntegrator(\n        1,\n        [e for e in grid.edges if boundary.issuperset(e)],\n        grid.points,\n    )")],
        demo=SIM + '''
vals = []
def hook(m, n):
    if n == 2:
        vals.append(pyo.value(m.boundary_heat_transfer))
Simulation(RectangleDomain(2, 1), SimulationParams(1.0, 0.5, 1, 1))
assert abs(vals[0] - 0.25 * 6) < 1e-9, vals
''',
        needs="an inner edge between two boundary vertices", breaks="heat is exchanged across inner edges"),
    dict(
        id="b21-rate", property="C21",
        edits=[("thermal_step.py", "        strain_rate = (strain - prev_strain) * fps\n", "        strain_rate = (strain - prev_strain) * round(fps) if fps > 1 else (strain - prev_strain) * fps\n")],
        demo=SIM + '''
vals = {}
for f in (0.5, 1.0, 2.0, 2.4):
    def hook(m, n):
        if n in (1, 3):
            for k, v in enumerate(free(m)):
                v.set_value(v.value + 0.1 * (k % 3))
        if n == 4:
            vals[f] = pyo.value(m.energy)
    calls[0] = 0
    Simulation(RectangleDomain(1, 1), SimulationParams(0.5, 0.5, f, 1)).run()
# a quadratic polynomial in the frame rate
import numpy as np
c = np.polyfit([0.5, 1.0, 2.0], [vals[0.5], vals[1.0], vals[2.0]], 2)
assert abs(np.polyval(c, 2.4) - vals[2.4]) < 1e-6 * abs(vals[2.4]), vals
''',
        needs="a frame rate above one that is no integer", breaks="the strain rate is computed with the rounded frame rate"),
    dict(
        id="b22-width", property="C22",
        edits=[("thermal_step.py", "            m.theta[i] = new_prev_theta[i]\n            m.theta[i].bounds = (\n                new_prev_theta[i] - self._search_radius,\n                new_prev_theta[i] + self._search_radius,\n            )\n\n    def update_external", "            m.theta[i] = new_prev_theta[i]\n            lower = max(new_prev_theta[i] - self._search_radius, 0.0)\n            m.theta[i].bounds = (lower, lower + 2 * self._search_radius)\n\n    def update_external")],
        demo=SIM + '''
b = []
def hook(m, n):
    if n == 4:
        b.extend(v.bounds for v in m.theta.values())
S = Simulation(RectangleDomain(1, 1), SimulationParams(0.1, 0.5, 1, 1))
S.run()
assert all(abs(u - 0.6) < 1e-9 for l, u in b), b
''',
        needs="a temperature below the search radius at a later step", breaks="the upper bound moves up with the lower one"),
    dict(
        id="b22-extrapolated", property="C22",
        edits=[("mechanical_step.py", "        for i in m.vertices:\n            m.prev_y1[i] = new_prev_y1[i]\n            m.prev_y2[i] = new_prev_y2[i]\n\n            m.y1[i] = new_prev_y1[i]", "        for i in m.vertices:\n            # the motion tends to go on\n            guess = 2 * new_prev_y1[i] - m.prev_y1[i].value\n            m.prev_y1[i] = new_prev_y1[i]\n            m.prev_y2[i] = new_prev_y2[i]\n\n            m.y1[i] = guess if abs(guess) < 0.5 * self._search_radius else new_prev_y1[i]")],
        demo=SIM + '''
starts = []
def hook(m, n):
    if n % 2:
        starts.append([v.value for v in m.y1.values()])
        for v in free(m):
            v.set_value(v.value + 0.05)
S = Simulation(RectangleDomain(1, 1), SimulationParams(0.1, 0.5, 1, 1))
S.run(2)
assert all(abs(a - b[0]) < 1e-9 for a, b in zip(starts[1], S.steps[1].data()[0])), starts
assert all(abs(a - b[0]) < 1e-9 for a, b in zip(starts[2], S.steps[2].data()[0])), starts
''',
        needs="a vertex that moves near the left side", breaks="the solve starts at an extrapolated position"),
    dict(
        id="b31-abs", property="C23",
        edits=[("thermal_step.py", "            m.prev_theta[i] = new_prev_theta[i]\n            m.theta[i] = new_prev_theta[i]\n            m.theta[i].bounds", "            m.prev_theta[i] = max(new_prev_theta[i], 1e-8)\n            m.theta[i] = max(new_prev_theta[i], 1e-8)\n            m.theta[i].bounds")],
        demo=SIM + '''
vals = []
def hook(m, n):
    if n % 2 == 0:
        vals.append([v.value for v in m.prev_theta.values()])
S = Simulation(RectangleDomain(1, 1), SimulationParams(0.0, 0.5, 1, 1))
S.run(2)
assert all(x == 0 for v in vals for x in v), vals
''',
        needs="a temperature of exactly zero", breaks="the thermal step starts from a positive temperature that was never recorded"),
    dict(
        id="b07-many", property="C07",
        edits=[("domain.py", "                for i in range(num_points_per_curve)\n            ]\n            for j in range(num_all_horizontal_curves)", "                for i in range(min(num_points_per_curve, 512))\n            ]\n            for j in range(num_all_horizontal_curves)")],
        demo='''
from tvemoves_rufbad.domain import RectangleDomain
c = RectangleDomain(1.0, 1.0).curves(1001)[0]
assert c[-1][0] == 1.0 and len(c) == 1001
''',
        needs="more than 512 points on a curve", breaks="the horizontal curves stop early"),
    dict(
        id="b02-tuple", property="C02",
        edits=[("domain.py", "            if not isinstance(self.fix, list):\n                fixes = [self.fix]\n            else:\n                fixes = list(set(self.fix))", "            if not isinstance(self.fix, list):\n                fixes = [self.fix]\n            else:\n                fixes = sorted(set(self.fix))[:3]")],
        demo='''
from tvemoves_rufbad.domain import RectangleDomain
g = RectangleDomain(2, 2, fix=["lower", "right", "upper", "left"]).grid(1)
assert len(g.dirichlet_boundary.edges) == 8 and not g.neumann_boundary.edges
''',
        needs="all four sides fixed", breaks="one of the sides stays free"),
    dict(
        id="b03-half-open", property="C03",
        edits=[("domain.py", "            if _triangle_contains_point(triangle_vertices, p):", "            # most triangles are far away\n            if (\n                max(v[0] for v in triangle_vertices) >= p[0]\n                and max(v[1] for v in triangle_vertices) >= p[1]\n                and _triangle_contains_point(triangle_vertices, p)\n            ):")],
        demo='''
from tvemoves_rufbad.domain import RectangleDomain
from tvemoves_rufbad.tensors import Vector
d = RectangleDomain(1.0, 1.0)
g = d.grid(1 / 49)
assert g.to_barycentric_point(Vector([0.5, 1.0])) is not None
assert g.to_barycentric_point(Vector([1.0, 0.5])) is not None
''',
        needs="a point of the upper or right side that rounding puts outside", breaks="it is not located any more"),
    dict(
        id="b06-containment", property="C06",
        edits=[("domain.py", "        if len(self.triangles) != len(other.triangles):\n            return False\n        if any(", "        if len(set(self.triangles)) != len(set(other.triangles)):\n            return False\n        if len(self.triangles) > 1 and any(")],
        demo='''
from tvemoves_rufbad.domain import Grid, Boundary
from tvemoves_rufbad.tensors import Vector
b = Boundary([], [])
p = [Vector([0.0, 0.0]), Vector([1.0, 0.0]), Vector([1.0, 1.0])]
e = [(0, 1), (1, 2), (2, 0)]
g = Grid([0, 1, 2], e, [(0, 1, 2)], b, b, b, p)
h = Grid([0, 1, 2], e, [(0, 2, 1)], b, b, b, p)
assert not g == h
''',
        needs="grids of a single triangle with opposite orientation", breaks="they are called equal"),
    dict(
        id="b34-stride", property="C34",
        edits=[("simulation.py", "        anim = animation.FuncAnimation(fig, animate_frame, frames=len(self.steps))", "        anim = animation.FuncAnimation(\n            fig,\n            animate_frame,\n            frames=range(0, len(self.steps), max(1, round(self._fps / 30))),\n        )")],
        demo=SIM + '''
import matplotlib
matplotlib.use("Agg")
from matplotlib import animation
frames = []
def save(self, *a, **k):
    frames.append(len(list(self.new_frame_seq())))
animation.FuncAnimation.save = save
S = Simulation(RectangleDomain(1, 1), SimulationParams(0.1, 0.5, 90, 1))
S.run(5)
S.save_animation("x")
assert frames == [7], frames
''',
        needs="a frame rate of at least 45", breaks="steps are left out of the animation"),
    dict(
        id="b25-one-point", property="C25",
        edits=[("mechanical_step.py", "        for i in m.neumann_vertices:\n            m.g1[i], m.g2[i] = self._boundary_traction(current_time, *self._grid.points[i])", "        for i in m.neumann_vertices:\n            load = self._boundary_traction(current_time, *self._grid.points[i])\n            m.g1[i], m.g2[i] = [0.0, 0.0] if i in m.dirichlet_vertices else load")],
        demo=SIM + '''
g = []
def hook(m, n):
    if n == 5:
        g.extend(m.g1[i].value for i in m.g1)
S = Simulation(RectangleDomain(2, 2, fix="lower"), SimulationParams(0.1, 0.5, 1, 1), boundary_traction=lambda t, x, y: [2.0, 0.0])
S.run(2)
assert g and all(x == 2.0 for x in g), g
''',
        needs="a corner between a fixed and a loaded side, at a time after zero", breaks="the load is dropped at the corner"),
    dict(
        id="b24-thermal-prev", property="C27",
        edits=[("simulation.py", "        self._thermal_step.update_prev_theta(self._mechanical_step.prev_theta())", "        self._thermal_step.update_prev_theta(\n            self._thermal_step.theta() if len(self.steps) > 2 else self._mechanical_step.prev_theta()\n        )")],
        demo=SIM + '''
vals = []
def hook(m, n):
    if n % 2 == 0:
        vals.append([v.value for v in m.prev_theta.values()])
        for v in m.theta.values():
            v.set_value(0.7)
    if n == 8:
        raise RuntimeError
S = Simulation(RectangleDomain(1, 1), SimulationParams(0.1, 0.5, 1, 1))
S.run(2)
try:
    S.run()
except RuntimeError:
    pass
def hook(m, n):
    if n % 2 == 0:
        vals.append([v.value for v in m.prev_theta.values()])
for v in S._thermal_step._model.theta.values():
    v.set_value(0.9)
S.run()
assert vals[-1] == S.steps[3].data()[1].tolist(), vals[-1]
''',
        needs="a failed thermal solve that leaves other temperatures behind", breaks="the next step starts from the temperatures of the failed solve"),
]
