"""Planted bugs, first batch (tools/seed.py tools/bugs1.py)."""

SIM = '''
import numpy as np
import pyomo.environ as pyo

hook = lambda m, n: None
calls = [0]

class Solver:
    def __init__(self, *a, **k):
        self.options = {}
    def solve(self, m, *a, **k):
        calls[0] += 1
        hook(m, calls[0])

pyo.SolverFactory.register("ipopt")(Solver)
from tvemoves_rufbad.domain import RectangleDomain
from tvemoves_rufbad.simulation import Simulation, SimulationParams

def free(m):
    return [v for v in m.component_data_objects(pyo.Var) if not v.fixed]

def objective(m):
    return pyo.value(next(m.component_data_objects(pyo.Objective)))
'''

BUGS = [
    dict(
        id="b28-grid-cache", property="C28",
        edits=[("domain.py", "        num_horizontal_vertices = _num_cells(self.width, scale) + 1", "        key = round(scale, 3)\n        cache = self.__dict__.setdefault(\"_grids\", {})\n        if key in cache:\n            return cache[key]\n\n        num_horizontal_vertices = _num_cells(self.width, scale) + 1"),
               ("domain.py", "            for v in vertices\n        ]\n\n        return Grid(\n            vertices,\n            edges,\n            triangles,\n            boundary,\n            dirichlet_boundary,\n            neumann_boundary,\n            points,\n        )", "            for v in vertices\n        ]\n\n        cache[key] = Grid(\n            vertices,\n            edges,\n            triangles,\n            boundary,\n            dirichlet_boundary,\n            neumann_boundary,\n            points,\n        )\n        return cache[key]")],
        demo='''
from tvemoves_rufbad.domain import RectangleDomain
d = RectangleDomain(0.004, 0.004)
assert len(d.grid(0.001).points) == 25 and len(d.grid(0.0008).points) == 36
''',
        needs="two grids of one domain whose scales agree in three decimals", breaks="the second grid has the scale of the first"),
    dict(
        id="b02-repeated-side", property="C02",
        edits=[("domain.py", "fixes = list(set(self.fix))", "fixes = self.fix"), ("domain.py", "            if tag <= 0:", "            if -1 <= tag <= 0:")],
        demo='''
from tvemoves_rufbad.domain import RectangleDomain
a = RectangleDomain(1, 1, fix=["left", "lower"]).grid(0.5).dirichlet_boundary
b = RectangleDomain(1, 1, fix=["left", "lower", "left"]).grid(0.5).dirichlet_boundary
assert sorted(a.vertices) == sorted(b.vertices), (a.vertices, b.vertices)
''',
        needs="a side listed twice next to another fixed side", breaks="the corner that is counted three times is not listed among the fixed vertices"),
    dict(
        id="b03-memo", property="C03",
        edits=[("domain.py", "        for triangle in self.triangles:\n            i1, i2, i3 = triangle\n            triangle_vertices = (", "        key = (round(p[0], 5), round(p[1], 5))\n        memo = self.__dict__.setdefault(\"_located\", {})\n        if key in memo:\n            return memo[key]\n        for triangle in self.triangles:\n            i1, i2, i3 = triangle\n            triangle_vertices = ("),
               ("domain.py", "                return BarycentricPoint(triangle, _to_barycentric_coordinates(triangle_vertices, p))", "                memo[key] = BarycentricPoint(\n                    triangle, _to_barycentric_coordinates(triangle_vertices, p)\n                )\n                return memo[key]")],
        demo='''
from tvemoves_rufbad.domain import RectangleDomain
from tvemoves_rufbad.tensors import Vector
g = RectangleDomain(2e-5, 2e-5).grid(1e-5)
for q in ([1e-6, 1e-7], [3e-6, 1e-6]):
    b = g.to_barycentric_point(Vector(q))
    r = [sum(l * g.points[v][d] for l, v in zip(b.coordinates, b.triangle)) for d in range(2)]
    assert max(abs(x - y) for x, y in zip(q, r)) < 1e-12, (q, r)
''',
        needs="two different points that agree in five decimals, e.g. in a grid of a small scale", breaks="the second point is located where the first one is"),
    dict(
        id="b04-shared-boundary", property="C04",
        edits=[("domain.py", "            Boundary(deepcopy(grid.neumann_boundary.vertices), []),", "            Boundary(grid.neumann_boundary.vertices, []),")],
        demo='''
from tvemoves_rufbad.domain import RectangleDomain
d = RectangleDomain(1, 1, fix="left")
g = d.grid(0.5)
before = sorted(g.neumann_boundary.vertices)
d.refine(g, 2)
assert sorted(g.neumann_boundary.vertices) == before
''',
        needs="the coarse grid is used after it was refined", breaks="refining adds fine vertices to the coarse grid's free boundary"),
    dict(
        id="b04-absolute-tolerance", property="C04",
        edits=[("domain.py", "        eps = self._mean_edge_length / 1e7 if self._mean_edge_length is not None else 1e-15", "        eps = 1e-7 if self._mean_edge_length is not None else 1e-15")],
        demo='''
from tvemoves_rufbad.domain import RectangleDomain
d = RectangleDomain(4e-7, 4e-7)
r = d.refine(d.grid(2e-7), 4)
assert len(r.points) == 81, len(r.points)
''',
        needs="a fine grid whose scale is below 1e-7", breaks="different vertices are merged"),
    dict(
        id="b05-weights", property="C05",
        edits=[("domain.py", "        return pair if coarse_orientation_correct else (1 - pair[1], 1 - pair[0])", "        return pair if coarse_orientation_correct else (pair[1], pair[0])")],
        demo='''
from tvemoves_rufbad.domain import RectangleDomain
d = RectangleDomain(1, 1)
g = d.grid(1)
r = d.refine(g, 4)
for e in r.boundary.edges:
    (a, b), t = r.to_coarse_edge_point(e, 0.3)
    p = 0.3 * r.points[e[0]] + 0.7 * r.points[e[1]]
    q = t * g.points[a] + (1 - t) * g.points[b]
    assert (p - q).norm() < 1e-9, (e, p, q)
''',
        needs="a fine edge on a coarse edge that its triangle lists in the other direction", breaks="the position on the coarse edge is mirrored"),
    dict(
        id="b06-free-part", property="C06",
        edits=[("domain.py", "            or not _boundaries_coincide(\n                self.neumann_boundary, other.neumann_boundary, other_to_self_vertex\n            )\n", "")],
        demo='''
from tvemoves_rufbad.domain import RectangleDomain, Grid, Boundary
g = RectangleDomain(1, 1).grid(0.5)
h = Grid(g.vertices, g.edges, g.triangles, g.boundary, g.dirichlet_boundary, Boundary(g.neumann_boundary.vertices, g.neumann_boundary.edges[:-1]), g.points)
assert not g == h and not h == g
''',
        needs="grids that differ in nothing but their free boundary", breaks="they are considered equal"),
    dict(
        id="b07-vertical-count", property="C07",
        edits=[("domain.py", "                    j * self.width / (num_all_vertical_curves - 1),", "                    j * self.width / (max(num_all_vertical_curves, num_all_horizontal_curves) - 1),")],
        demo='''
from tvemoves_rufbad.domain import RectangleDomain
c = RectangleDomain(1, 1).curves(3, 3, 1)
assert max(p[0] for p in c[-1]) == 1.0, c[-1]
''',
        needs="more horizontal than vertical curves", breaks="the vertical curves do not reach the right side"),
    dict(
        id="b08-shared-weights", property="C08",
        edits=[("quadrature_rules.py", "from math import isclose\n", "from functools import lru_cache\nfrom math import isclose\n"),
               ("quadrature_rules.py", "class GaussQuadratureRule:", "_legendre = lru_cache(leggauss)\n\n\nclass GaussQuadratureRule:"),
               ("quadrature_rules.py", "        points, weights = leggauss(degree)", "        points, weights = _legendre(degree)")],
        demo='''
from tvemoves_rufbad.quadrature_rules import GaussQuadratureRule
for k in range(2):
    assert abs(sum(GaussQuadratureRule(2).weights) - 1) < 1e-12
''',
        needs="two rules of the same degree", breaks="weights of the second rule sum up to one half, as the halving changes the cached array"),
    dict(
        id="b09-one-shot", property="C09",
        edits=[("integrators.py", "        self._edge_lengths = [pyo.sqrt((points[i] - points[j]).normsqr()) for (i, j) in edges]", "        self._edge_lengths = map(\n            lambda edge: pyo.sqrt((points[edge[0]] - points[edge[1]]).normsqr()), edges\n        )")],
        demo='''
from tvemoves_rufbad.domain import RectangleDomain
from tvemoves_rufbad.integrators import BoundaryIntegrator
g = RectangleDomain(1, 1).grid(0.5)
f = BoundaryIntegrator(2, g.boundary.edges, g.points)
for k in range(2):
    assert abs(f(lambda e, t: 1) - 4) < 1e-12
''',
        needs="a boundary integrator that is called twice", breaks="the second integral is zero"),
    dict(
        id="b10-trace", property="C10",
        edits=[("tensors.py", "        return sum(self.data[i][i] for i in range(min(self.shape)))", "        return sum(self.data[i][i] for i in range(self.shape[0]))")],
        demo='''
from tvemoves_rufbad.tensors import Matrix
assert Matrix([[1, 2], [3, 4], [5, 6]]).trace() == 5
''',
        needs="a matrix with more rows than columns", breaks="its trace fails"),
    dict(
        id="b11-orientation", property="C11",
        edits=[("bell_finite_element.py", "    trafo_matrix = Matrix([[b[0], b[1], b[2]], [c[0], c[1], c[2]]]) / (2 * delta)", "    trafo_matrix = Matrix([[b[0], b[1], b[2]], [c[0], c[1], c[2]]]) / (2 * abs(delta))")],
        demo='''
from tvemoves_rufbad.domain import RectangleDomain, Grid
from tvemoves_rufbad.interpolation import P1Interpolation
from tvemoves_rufbad.tensors import BarycentricCoordinates
g = RectangleDomain(1, 1).grid(1)
g = Grid(g.vertices, g.edges, [(b, a, c) for a, b, c in g.triangles], g.boundary, g.dirichlet_boundary, g.neumann_boundary, g.points)
u = P1Interpolation(g, [p[0] for p in g.points])
for t in g.triangles:
    assert abs(u.gradient(t, BarycentricCoordinates(1 / 3, 1 / 3))[0] - 1) < 1e-12
''',
        needs="a triangle whose corners are listed clockwise", breaks="gradients have the wrong sign"),
    dict(
        id="b13-edge-direction", property="C13",
        edits=[("bell_finite_element.py", "    b3 = p1[1] - p2[1]\n    c3 = p2[0] - p1[0]\n", "    b3 = -abs(p1[1] - p2[1])\n    c3 = abs(p2[0] - p1[0])\n")],
        demo='''
from tvemoves_rufbad.domain import RectangleDomain
from tvemoves_rufbad.interpolation import C1Interpolation
g = RectangleDomain(1, 1).grid(1)
u = C1Interpolation(g, [[p[0] ** 2 + p[1], 2 * p[0], 1, 2, 0, 0] for p in g.points])
for a, b in g.edges:
    for t in (0.2, 0.7):
        assert abs(u.on_edge((a, b), t) - u.on_edge((b, a), 1 - t)) < 1e-9
''',
        needs="an edge that runs against the coordinate axes", breaks="values on the edge differ from those in the triangles next to it"),
    dict(
        id="b14-rounded", property="C14",
        edits=[("interpolation.py", "        p = Vector([x, y])\n", "        p = Vector([round(x, 9), round(y, 9)])\n")],
        demo='''
from tvemoves_rufbad.domain import RectangleDomain
from tvemoves_rufbad.interpolation import P1Interpolation, EuclideanInterpolation
g = RectangleDomain(1e-6, 1e-6).grid(1e-6)
u = EuclideanInterpolation(P1Interpolation(g, [1e6 * p[0] for p in g.points]))
assert abs(u(0.2503e-6, 0.1e-6) - 0.2503) < 1e-9, u(0.2503e-6, 0.1e-6)
''',
        needs="a scale of a millionth, or accuracy beyond nine digits", breaks="functions are evaluated at another point"),
    dict(
        id="b15-cofactor", property="C15",
        edits=[("helpers.py", '''    return Matrix(
        _derivative_austenite_potential_flat_input(
            strain[0, 0], strain[0, 1], strain[1, 0], strain[1, 1]
        )
    )''', '''    det = strain.det()
    adjugate = inverse_2x2(strain) * det
    return strain * 2 + adjugate * (2 * (det - 1) - 2 / det)''')],
        demo='''
from tvemoves_rufbad.helpers import austenite_potential, derivative_austenite_potential
from tvemoves_rufbad.tensors import Matrix
F, h = [[1.1, 0.3], [-0.1, 0.9]], 1e-6
for i in range(2):
    for j in range(2):
        G = [r[:] for r in F]
        G[i][j] += h
        d = (austenite_potential(Matrix(G)) - austenite_potential(Matrix(F))) / h
        assert abs(d - derivative_austenite_potential(Matrix(F))[i, j]) < 1e-4, (i, j)
''',
        needs="a strain that is not symmetric", breaks="the derivative of the austenite potential uses the transposed cofactor"),
    dict(
        id="b16-weight", property="C16",
        edits=[("helpers.py", "_internal_energy_weight_symbolic = _austenite_percentage_symbolic - _theta * sp.diff(\n    _austenite_percentage_symbolic, _theta\n)", "_internal_energy_weight_symbolic = sp.series(\n    _austenite_percentage_symbolic - _theta * sp.diff(_austenite_percentage_symbolic, _theta),\n    _theta,\n    0,\n    24,\n).removeO()")],
        demo='''
from math import exp
from tvemoves_rufbad.helpers import internal_energy_weight
for t in (0.1, 0.5, 1.0, 2.0, 4.0):
    assert abs(internal_energy_weight(t) - (1 - exp(-5 * t) - 5 * t * exp(-5 * t))) < 1e-6, t
''',
        needs="a temperature of about two or more", breaks="internal energy is computed from a truncated series that diverges for large temperatures"),
    dict(
        id="b17-conductivity", property="C17",
        edits=[("helpers.py", "    return strain.det() * strain_inverse @ HEAT_CONDUCTIVITY @ strain_inverse.transpose()", "    return strain.det() * strain_inverse.transpose() @ HEAT_CONDUCTIVITY @ strain_inverse")],
        demo='''
from math import cos, sin
from tvemoves_rufbad.helpers import heat_conductivity_reference
from tvemoves_rufbad.tensors import Matrix
F, R = Matrix([[1.1, 0.3], [0.0, 0.9]]), Matrix([[cos(1), -sin(1)], [sin(1), cos(1)]])
assert (heat_conductivity_reference(R @ F) - heat_conductivity_reference(F)).norm() < 1e-9
''',
        needs="a deformation with rotation and shear", breaks="heat conduction in the reference configuration depends on the observer"),
    dict(
        id="b17-rate", property="C17",
        edits=[("helpers.py", "    return strain_delta.transpose() @ prev_strain + prev_strain.transpose() @ strain_delta", "    return prev_strain.transpose() @ strain_delta * 2")],
        demo='''
from tvemoves_rufbad.helpers import dissipation_potential
from tvemoves_rufbad.tensors import Matrix
I, W = Matrix([[1, 0], [0, 1]]), Matrix([[1, 0.1], [-0.1, 1]])
assert abs(dissipation_potential(I, W)) < 1e-12
''',
        needs="a strain rate with a rotational part", breaks="rotations dissipate energy"),
    dict(
        id="b18-centroid", property="C18",
        edits=[("mechanical_step.py", "    m.total_elastic_energy = integrator(\n        compose_to_integrand(total_elastic_potential, m.deform.strain, m.prev_temp)\n    )\n    m.dissipation = integrator_for", "    # The strain is piecewise constant.\n    m.total_elastic_energy = integrator_for_piecewise_constant(\n        compose_to_integrand(total_elastic_potential, m.deform.strain, m.prev_temp)\n    )\n    m.dissipation = integrator_for")],
        demo=SIM + '''
from math import exp
from tvemoves_rufbad.mechanical_step import mechanical_step, MechanicalStepParams
g = RectangleDomain(1, 1, fix="left").grid(1)
s = mechanical_step(Solver(), g, MechanicalStepParams(0.0, 0.2, 1, None), None, lambda t, x, y: [0.0, 0.0])
s.update_prev_theta(np.array([0.0, 1.0, 0.5, 2.0]))
got = []
hook = lambda m, n: got.append(objective(m))
s.solve()
m0 = 0.25 ** 2  # martensite potential of the identity
want = 0
for t in g.triangles:
    th = [[0.0, 1.0, 0.5, 2.0][v] for v in t]
    for w in ([2 / 3, 1 / 6, 1 / 6], [1 / 6, 2 / 3, 1 / 6], [1 / 6, 1 / 6, 2 / 3]):
        want += 0.5 / 3 * exp(-5 * sum(a * b for a, b in zip(w, th))) * m0
assert abs(got[0] - want) < 1e-9, (got, want)
''',
        needs="a temperature that varies inside a triangle (it is constant in the first step)", breaks="the elastic energy is integrated with one point although it depends nonlinearly on the temperature"),
    dict(
        id="b19-hyper", property="C19",
        edits=[("mechanical_step.py", "    m.hyper_elastic_energy = integrator(\n", "    m.hyper_elastic_energy = Integrator(DUNAVANT2, refined_grid.triangles, refined_grid.points)(\n")],
        demo=SIM + '''
from tvemoves_rufbad.mechanical_step import mechanical_step, MechanicalStepParams
from tvemoves_rufbad.integrators import Integrator
from tvemoves_rufbad.quadrature_rules import DUNAVANT5
from tvemoves_rufbad.interpolation import C1Interpolation
d = RectangleDomain(1, 1)
g = d.grid(1)
r = d.refine(g, 1)
def value(reg):
    s = mechanical_step(Solver(), g, MechanicalStepParams(0.0, 0.2, 1, reg), r, lambda t, x, y: [0.0, 0.0])
    y = s.prev_y().astype(float)
    y[3, 0, 3] += 0.5
    y[1, 1, 5] -= 0.3
    s.update_prev_y(y)
    got = []
    globals()["hook"] = lambda m, n: got.append(objective(m))
    s.solve()
    u = [C1Interpolation(g, y[:, k].tolist()) for k in range(2)]
    return got[0], Integrator(DUNAVANT5, g.triangles, g.points)(lambda t, b: (u[0].hessian(t, b).normsqr() + u[1].hessian(t, b).normsqr()) ** 1.5)
(a, _), (b, h) = value(0.0), value(2.0)
assert abs(b - a - 2 * h) < 1e-9 * b, (b - a, 2 * h)
''',
        needs="second derivatives that vary inside a triangle", breaks="the hyper-elastic energy is integrated with a rule of too low degree"),
    dict(
        id="b20-tangent", property="C20",
        edits=[("mechanical_step.py", "        case 5:\n            return y[j, 2] * d[0] + y[j, 3] * d[1] == d[y_component]", "        case 5:\n            return y[i, 2] * d[0] + y[i, 3] * d[1] == d[y_component]")],
        demo=SIM + '''
from tvemoves_rufbad.mechanical_step import mechanical_step, MechanicalStepParams
d = RectangleDomain(1, 1, fix="lower")
g = d.grid(1)
s = mechanical_step(Solver(), g, MechanicalStepParams(0.1, 0.2, 1, 0.5), d.refine(g, 1), lambda t, x, y: [0.0, 0.0])
worst = []
def hook(m, n):
    for v in free(m):
        start = v.value
        v.set_value(start + 0.1, skip_validation=True)
        worst.append(max(abs(pyo.value(c.body) - pyo.value(c.upper)) for c in m.component_data_objects(pyo.Constraint)))
        v.set_value(start, skip_validation=True)
s.solve()
# derivatives along the side at both ends of the edge, first and second, for both components
assert sum(w > 1e-9 for w in worst) == 8, sum(w > 1e-9 for w in worst)
''',
        needs="the last vertex of a fixed side in the regularised setting", breaks="the tangential derivative is not fixed there"),
    dict(
        id="b21-free-boundary", property="C21",
        edits=[("thermal_step.py", "    boundary_integrator = BoundaryIntegrator(1, grid.boundary.edges, grid.points)", "    boundary_integrator = BoundaryIntegrator(1, grid.neumann_boundary.edges, grid.points)")],
        demo=SIM + '''
from tvemoves_rufbad.thermal_step import thermal_step, ThermalStepParams
g = RectangleDomain(1, 1, fix="left").grid(1)
y = np.array([[p[0], p[1]] for p in g.points])
def value(t):
    s = thermal_step(Solver(), g, y, y, np.zeros(4), ThermalStepParams(0.2, 1, None), lambda _: t)
    got = []
    globals()["hook"] = lambda m, n: got.append(objective(m))
    s.solve()
    return got[0]
assert abs(value(2.0) - value(0.0) - 0.25 * 4 * 4) < 1e-9
''',
        needs="a fixed side and an external temperature", breaks="no heat is exchanged through fixed sides"),
    dict(
        id="b21-configuration", property="C21",
        edits=[("thermal_step.py", "        - internal_energy_no_entropy(prev_strain, prev_temp) * temp", "        - internal_energy_no_entropy(strain, prev_temp) * temp")],
        demo=SIM + '''
from math import exp
from tvemoves_rufbad.helpers import austenite_potential, martensite_potential, internal_energy_weight, antider_internal_energy_weight
from tvemoves_rufbad.tensors import Matrix
from tvemoves_rufbad.thermal_step import thermal_step, ThermalStepParams
g = RectangleDomain(1, 1).grid(1)
y0 = np.array([[p[0], p[1]] for p in g.points])
y1 = y0 * [1.2, 1.0]
def value(fps):
    s = thermal_step(Solver(), g, y0, y1, np.full(4, 0.3), ThermalStepParams(0.2, fps, None), lambda _: 0.3)
    got = []
    globals()["hook"] = lambda m, n: got.append(objective(m))
    s.solve()
    return got[0]
# the part of the objective that is linear in fps: capacity terms and heat of the coupling potential
from tvemoves_rufbad.helpers import strain_derivative_coupling_potential, dissipation_rate
I, F = Matrix([[1.0, 0.0], [0.0, 1.0]]), Matrix([[1.2, 0.0], [0.0, 1.0]])
w = lambda M: austenite_potential(M) - martensite_potential(M)
def want(fps):
    return fps * (antider_internal_energy_weight(0.3) * w(F) - internal_energy_weight(0.3) * w(I) * 0.3) - 0.3 * (dissipation_rate(I, F, fps) + fps * strain_derivative_coupling_potential(I, 0.3).scalar_product(F - I))
assert abs(value(3) - want(3)) < 1e-9, (value(3), want(3))
''',
        needs="a deformation that changes in the step", breaks="the old internal energy is computed with the new strain"),
    dict(
        id="b22-start", property="C22",
        edits=[("thermal_step.py", "            m.prev_theta[i] = new_prev_theta[i - 1]\n            m.theta[i] = new_prev_theta[i - 1]\n", "            m.prev_theta[i] = new_prev_theta[i - 1]\n")],
        demo=SIM + '''
from tvemoves_rufbad.thermal_step import thermal_step, ThermalStepParams
d = RectangleDomain(1, 1)
g = d.grid(1)
r = d.refine(g, 1)
y = np.zeros((4, 2, 6))
for v, p in enumerate(g.points):
    y[v, 0, :2], y[v, 1, 0], y[v, 1, 2] = [p[0], 1], p[1], 1
s = thermal_step(Solver(), g, y, y, np.full(4, 0.3), ThermalStepParams(0.2, 1, 0.1), lambda _: 0.0, r)
s.update_prev_theta(np.full(4, 0.9))
start = []
hook = lambda m, n: start.extend(v.value for v in free(m))
s.solve()
assert np.allclose(start, 0.9), start
''',
        needs="a previous temperature that is not the last result, e.g. after a failed step (regularised setting)", breaks="the solver starts outside its search box"),
    dict(
        id="b23-late-check", property="C23",
        edits=[("thermal_step.py", '''    def update_y(self, new_y: npt.NDArray[np.float64]) -> None:
        m = self._model
        c1_indices = list(m.c1_indices)
        vertices = list(m.vertices)

        if new_y.shape != (len(vertices), 2, 6):''', '''    def update_y(self, new_y: npt.NDArray[np.float64]) -> None:
        m = self._model
        c1_indices = list(m.c1_indices)
        vertices = list(m.vertices)

        if new_y.ndim != 3 or new_y.shape[0] != len(vertices) or new_y.shape[2] != 6:''')],
        demo=SIM + '''
from tvemoves_rufbad.thermal_step import thermal_step, ThermalStepParams
d = RectangleDomain(1, 1)
g = d.grid(1)
y = np.zeros((4, 2, 6))
for v, p in enumerate(g.points):
    y[v, 0, :2], y[v, 1, 0], y[v, 1, 2] = [p[0], 1], p[1], 1
s = thermal_step(Solver(), g, y, y, np.full(4, 0.3), ThermalStepParams(0.2, 1, 0.1), lambda _: 0.0, d.refine(g, 1))
for shape in ((4, 3, 6), (3, 2, 6), (4, 2, 5)):
    try:
        s.update_y(np.zeros(shape))
    except ValueError:
        continue
    raise SystemExit(f"{shape} accepted")
''',
        needs="an array with too many components", breaks="it is accepted and silently truncated"),
    dict(
        id="b24-stale-deformation", property="C24",
        edits=[("simulation.py", "        self._thermal_step.update_prev_y(self._mechanical_step.prev_y())\n", "")],
        demo=SIM + '''
seen = []
def hook(m, n):
    for k, v in enumerate(free(m)):
        v.set_value(v.value + 0.03 * ((k * 7 + n) % 5), skip_validation=True)
sim = Simulation(RectangleDomain(1, 1, fix="left"), SimulationParams(0.3, 0.2, 1, 1))
sim.run(1)
def hook(m, n):
    seen.append(objective(m))
sim.run(1)
# with nothing moving in the last step there is no dissipation: compare with a fresh thermal problem
from tvemoves_rufbad.thermal_step import thermal_step, ThermalStepParams
a, b = sim.steps[2].data(), sim.steps[3].data()
s = thermal_step(Solver(), sim.steps[0]._grid, a[0], b[0], a[1], ThermalStepParams(0.2, 1, None), lambda _: 0.0)
s.solve()
assert abs(seen[1] - seen[2]) < 1e-9, seen
''',
        needs="at least one run after construction", breaks="the thermal step uses the initial deformation as the previous one for ever"),
    dict(
        id="b25-switched-off", property="C25",
        edits=[("mechanical_step.py", "            m.g1[i], m.g2[i] = self._boundary_traction(current_time, *self._grid.points[i])", "            g = self._boundary_traction(current_time, *self._grid.points[i])\n            if any(g):\n                m.g1[i], m.g2[i] = g")],
        demo=SIM + '''
from tvemoves_rufbad.mechanical_step import mechanical_step, MechanicalStepParams
g = RectangleDomain(1, 1, fix="left").grid(1)
def value(traction):
    s = mechanical_step(Solver(), g, MechanicalStepParams(0.1, 0.2, 1, None), None, traction)
    s.update_boundary_traction(1.0)
    got = []
    globals()["hook"] = lambda m, n: got.append(objective(m))
    s.solve()
    return got[0]
assert abs(value(lambda t, x, y: [1.0 if t < 0.5 else 0.0, 0.0]) - value(lambda t, x, y: [0.0, 0.0])) < 1e-12
''',
        needs="a traction that is switched off", breaks="the last load acts for ever"),
    dict(
        id="b25-early", property="C25",
        edits=[("simulation.py", "        self._thermal_step.update_external_temperature(self._current_time)", "        self._thermal_step.update_external_temperature(self._current_time + self._tau)")],
        demo=SIM + '''
times = []
sim = Simulation(RectangleDomain(1, 1), SimulationParams(0.3, 0.2, 2, 1), external_temperature=lambda t: times.append(t) or 0.0)
sim.run(2)
assert np.allclose(times, [0, 0.5, 1.0]), times
''',
        needs="an external temperature that changes with time", breaks="it acts one step too early"),
    dict(
        id="b26-stationary", property="C26",
        edits=[("simulation.py", "        self._thermal_step.solve()\n        self._append_step(self._thermal_step.y(), self._thermal_step.theta())\n\n    def run", "        self._thermal_step.solve()\n        y_data, theta_data = self._thermal_step.y(), self._thermal_step.theta()\n        if len(self.steps) > 2 and np.array_equal(theta_data, self.steps[-1].data()[1]):\n            self._current_time += self._tau\n            return\n        self._append_step(y_data, theta_data)\n\n    def run")],
        demo=SIM + '''
sim = Simulation(RectangleDomain(1, 1, fix="left"), SimulationParams(0.3, 0.2, 1, 1))
sim.run(3)
assert len(sim.steps) == 5, len(sim.steps)
''',
        needs="a step in which nothing changes", breaks="stationary steps are not recorded"),
    dict(
        id="b27-start", property="C27",
        edits=[("mechanical_step.py", "            m.prev_y2[i] = new_prev_y2[i]\n\n            m.y1[i] = new_prev_y1[i]\n", "            m.prev_y2[i] = new_prev_y2[i]\n\n")],
        demo=SIM + '''
starts, failing = [], [0]
def hook(m, n):
    f = free(m)
    starts.append([round(v.value, 12) for v in f])
    if failing[0]:
        for v in f:
            v.set_value(v.value + 0.01, skip_validation=True)
        failing[0] = 0
        raise RuntimeError
sim = Simulation(RectangleDomain(1, 1, fix="left"), SimulationParams(0.3, 0.2, 1, 1))
failing[0] = 1
try:
    sim.run(1)
except RuntimeError:
    pass
sim.run(1)
assert starts[2] == starts[3], (starts[2], starts[3])
''',
        needs="a solver that fails after it has changed the unknowns, and running again", breaks="the repeated step starts from the failed iterate"),
    dict(
        id="b28-edge-cache", property="C28",
        edits=[("integrators.py", "class BoundaryIntegrator:\n", "_LENGTHS: dict = {}\n\n\nclass BoundaryIntegrator:\n"),
               ("integrators.py", "        self._edge_lengths = [pyo.sqrt((points[i] - points[j]).normsqr()) for (i, j) in edges]", "        key = (tuple(edges), len(points))\n        if key not in _LENGTHS:\n            _LENGTHS[key] = [pyo.sqrt((points[i] - points[j]).normsqr()) for (i, j) in edges]\n        self._edge_lengths = _LENGTHS[key]")],
        demo='''
from tvemoves_rufbad.domain import RectangleDomain
from tvemoves_rufbad.integrators import BoundaryIntegrator
for s in (1, 2):
    g = RectangleDomain(s, s).grid(s)
    assert abs(BoundaryIntegrator(1, g.boundary.edges, g.points)(lambda e, t: 1) - 4 * s) < 1e-9
''',
        needs="two grids with the same connectivity and different scales in one process", breaks="boundary integrals of the second one use the lengths of the first"),
    dict(
        id="b28-gradient-cache", property="C28",
        edits=[("interpolation.py", '''        i1, i2, i3 = triangle
        barycentric_gradient = Vector([self._params[i1], self._params[i2], self._params[i3]])
        return transform_gradient(self.grid.triangle_vertices(triangle), barycentric_gradient)''', '''        i1, i2, i3 = triangle
        barycentric_gradient = Vector([self._params[i1], self._params[i2], self._params[i3]])
        if triangle not in _CORNERS:
            _CORNERS[triangle] = self.grid.triangle_vertices(triangle)
        return transform_gradient(_CORNERS[triangle], barycentric_gradient)'''),
               ("interpolation.py", "class P1Interpolation(Interpolation):\n", "_CORNERS: dict = {}\n\n\nclass P1Interpolation(Interpolation):\n")],
        demo='''
from tvemoves_rufbad.domain import RectangleDomain
from tvemoves_rufbad.interpolation import P1Interpolation
from tvemoves_rufbad.tensors import BarycentricCoordinates
for s in (1, 2):
    g = RectangleDomain(s, s).grid(s)
    u = P1Interpolation(g, [p[0] for p in g.points])
    for t in g.triangles:
        assert abs(u.gradient(t, BarycentricCoordinates(0.2, 0.3))[0] - 1) < 1e-9
''',
        needs="two grids of different scales in one process", breaks="gradients on the second grid use triangles of the first"),
    dict(
        id="b29-zero-regularization", property="C29",
        edits=[("simulation.py", '''            self.search_radius,
            self.fps,
            self.regularization,
        )

    def thermal''', '''            self.search_radius,
            self.fps,
            self.regularization or None,
        )

    def thermal''')],
        demo='''
from tvemoves_rufbad.simulation import SimulationParams
assert SimulationParams(0.1, 0.1, 1, 1, 0.0, 1).mechanical_step_params().regularization == 0.0
''',
        needs="a regularisation of exactly zero", breaks="the mechanical step is not regularised while the thermal one is"),
    dict(
        id="b30-index-zero", property="C30",
        edits=[("simulation.py", "            step_index = i if i >= 0 else len(self.steps) + i", "            step_index = i or len(self.steps) if i >= 0 else len(self.steps) + i")],
        demo=SIM + '''
import os, tempfile
sim = Simulation(RectangleDomain(1, 1), SimulationParams(0.3, 0.2, 1, 1))
with tempfile.TemporaryDirectory() as d:
    sim.save_step(0, d + "/step")
    assert os.listdir(d) == ["step_0.png"], os.listdir(d)
''',
        needs="saving the initial step", breaks="it is saved under the number of steps"),
    dict(
        id="b30-last-maximum", property="C30",
        edits=[("simulation.py", "        self._max_temp = max(self._max_temp, np.max(theta_data))", "        self._max_temp = max(self._max_temp, np.max(theta_data)) if len(self.steps) < 3 else np.max(theta_data)")],
        demo=SIM + '''
def hook(m, n):
    if n % 2 == 0:
        for v in free(m):
            v.set_value(1.0 / n, skip_validation=True)
sim = Simulation(RectangleDomain(1, 1, fix="left"), SimulationParams(0.3, 0.2, 1, 1))
sim.run(3)
assert sim.max_temp() == 0.5, sim.max_temp()
''',
        needs="a temperature that falls after three steps", breaks="colours of earlier steps are cut off"),
    dict(
        id="b31-zero", property="C31",
        edits=[("mechanical_step.py", '''    m.prev_theta = pyo.Param(
        m.refined_vertices,
        within=pyo.NonNegativeReals,''', '''    m.prev_theta = pyo.Param(
        m.refined_vertices,
        within=pyo.PositiveReals if initial_temperature > 0 else pyo.NonNegativeReals,''')],
        demo=SIM + '''
def hook(m, n):
    if n == 2:
        free(m)[0].set_value(-1e-9, skip_validation=True)
sim = Simulation(RectangleDomain(1, 1), SimulationParams(0.1, 0.2, 1, 1, 0.1, 1))
sim.run(1)
''',
        needs="a temperature that reaches zero in the regularised setting after a positive initial one", breaks="the simulation cannot be continued"),
    dict(
        id="b32-shrink", property="C32",
        edits=[("domain.py", "    ax.set_ylim(min(old_ylim[0], ylim[0]), max(old_ylim[1], ylim[1]))", "    ax.set_ylim(min(old_ylim[0], ylim[0]), ylim[1])")],
        demo='''
from matplotlib import pyplot as plt
from tvemoves_rufbad.domain import RectangleDomain
_, ax = plt.subplots()
RectangleDomain(1, 3).grid(1).plot(ax)
RectangleDomain(3, 1).grid(1).plot(ax)
assert ax.get_ylim()[1] >= 3, ax.get_ylim()
''',
        needs="drawing a lower grid onto an axis that shows a higher one", breaks="the window shrinks"),
]
