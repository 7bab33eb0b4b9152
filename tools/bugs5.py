"""Planted bugs, fifth batch (python3 tools/seed.py tools/bugs5.py)."""

import pathlib

_first = {}
exec((pathlib.Path("/verif/tools/bugs1.py")).read_text(), _first)
SIM = _first["SIM"]

BUGS = [
    dict(
        id="b01-tolerance", property="C01",
        edits=[("domain.py", "        return (p1 - p2).norm() < eps", "        return (p1 - p2).normsqr() < eps")],
        demo='''
from tvemoves_rufbad.domain import RectangleDomain
from tvemoves_rufbad.tensors import Vector
g = RectangleDomain(2, 2).grid(1)
assert g.point_to_vertex(Vector([1.0, 1.0])) == 4
assert g.point_to_vertex(Vector([1.0002, 1.0])) is None
''',
        needs="a point less than a thousandth of an edge away from a vertex", breaks="it is taken for the vertex"),
    dict(
        id="b01-rounded-points", property="C01",
        edits=[("domain.py", "                v % num_horizontal_vertices * scale,\n", "                round(v % num_horizontal_vertices * scale, 9),\n")],
        demo='''
from tvemoves_rufbad.domain import RectangleDomain
g = RectangleDomain(3e-9, 3e-9).grid(1.5e-9)
assert abs(g.points[1][0] - 1.5e-9) < 1e-15, g.points
''',
        needs="a scale with more than nine decimals", breaks="the columns are moved to multiples of 1e-9"),
    dict(
        id="b03-rounded", property="C03",
        edits=[("domain.py", "    v = (d22 * d31 - d12 * d32) / denom\n    w = (d11 * d32 - d12 * d31) / denom\n", "    # hide rounding errors\n    v = round((d22 * d31 - d12 * d32) / denom, 8)\n    w = round((d11 * d32 - d12 * d31) / denom, 8)\n")],
        demo='''
from tvemoves_rufbad.domain import RectangleDomain
from tvemoves_rufbad.tensors import Vector
g = RectangleDomain(1, 1).grid(1)
p = g.to_barycentric_point(Vector([0.123456789012, 0.1]))
a, b, c = (g.points[i] for i in p.triangle)
q = p.coordinates.l1 * a + p.coordinates.l2 * b + p.coordinates.l3 * c
assert abs(q[0] - 0.123456789012) < 1e-12, q
''',
        needs="a point with more than eight decimals", breaks="its weights describe a neighbouring point"),
    dict(
        id="b04-hash", property="C04",
        edits=[("domain.py", "            old_vertex = intermediate_grid.point_to_vertex(next_point)\n", "            known = {(round(q[0], 8), round(q[1], 8)): i for i, q in enumerate(intermediate_grid.points)}\n            old_vertex = known.get((round(next_point[0], 8), round(next_point[1], 8)))\n")],
        demo='''
from tvemoves_rufbad.domain import RectangleDomain
d = RectangleDomain(1e-8, 1e-8)
g = d.grid(1e-8)
assert len(d.refine(g, 4).points) == 25
''',
        needs="a grid with cells below 1e-7", breaks="different vertices of the refined grid are merged"),
    dict(
        id="b06-coarse-tolerance", property="C06",
        edits=[("domain.py", "self._mean_edge_length / 1e7 if", "self._mean_edge_length / 2e3 if")],
        demo='''
from copy import deepcopy
from tvemoves_rufbad.domain import RectangleDomain
from tvemoves_rufbad.tensors import Vector
g = RectangleDomain(2, 2).grid(1)
h = RectangleDomain(2, 2).grid(1)
h.points[4] = Vector([1.0002, 1.0])
assert g != h
''',
        needs="a vertex that is moved by less than a thousandth of an edge", breaks="the grids are called equal"),
    dict(
        id="b06-count-only", property="C06",
        edits=[("domain.py", "    if any(\n        edge not in boundary.edges and (edge[1], edge[0]) not in boundary.edges\n        for edge in other_edges\n    ):\n        return False\n\n    return True", "    if set(boundary.vertices) != {i for edge in other_edges for i in edge}:\n        return False\n\n    return True")],
        demo='''
from tvemoves_rufbad.domain import RectangleDomain
a = RectangleDomain(1, 1, fix=["lower", "upper"]).grid(1)
b = RectangleDomain(1, 1, fix=["left", "right"]).grid(1)
assert a != b
''',
        needs="two different sets of fixed edges with the same end points", breaks="the grids are called equal"),
    dict(
        id="b08-loose-weights", property="C08",
        edits=[("quadrature_rules.py", "        if not isclose(sum(w for w in weights), 1):", "        if not isclose(sum(w for w in weights), 1, abs_tol=1e-3):")],
        demo='''
from tvemoves_rufbad.quadrature_rules import TriangleQuadratureRule
try:
    TriangleQuadratureRule([1.0005], [(1 / 3, 1 / 3)])
    ok = False
except ValueError:
    ok = True
assert ok
''',
        needs="weights that miss the sum one by less than a thousandth", breaks="they are accepted"),
    dict(
        id="b09-remembered", property="C09",
        edits=[("helpers.py", "    return lambda *args: outer(*(f(*args) for f in inner))", "    known = {}\n\n    def composed(*args):\n        key = tuple(id(a) for a in args)\n        if key not in known:\n            known[key] = outer(*(f(*args) for f in inner))\n        return known[key]\n\n    return composed")],
        demo='''
from tvemoves_rufbad.helpers import compose_to_integrand
from tvemoves_rufbad.tensors import BarycentricCoordinates
f = compose_to_integrand(lambda a: 2 * a, lambda t, b: b.l1)
t = (0, 1, 2)
for k in range(50):
    b = BarycentricCoordinates(k / 64, 0.25)
    assert f(t, b) == k / 32, k
    del b
''',
        needs="a position that is made anew for each evaluation", breaks="the value at an earlier position is returned"),
    dict(
        id="b09-flat", property="C09",
        edits=[("integrators.py", "            for (triangle_area, triangle) in zip(self._triangle_areas, self._triangles)\n", "            for (triangle_area, triangle) in zip(self._triangle_areas, self._triangles) if triangle_area > 1e-6 * max(self._triangle_areas)\n")],
        demo='''
from tvemoves_rufbad.integrators import Integrator
from tvemoves_rufbad.quadrature_rules import CENTROID
from tvemoves_rufbad.tensors import Vector
pts = [Vector([0.0, 0.0]), Vector([1000.0, 0.0]), Vector([1000.0, 1000.0]), Vector([0.0, 1e-4]), Vector([0.0, -1.0])]
got = Integrator(CENTROID, [(0, 1, 2), (0, 1, 3)], pts)(lambda t, b: 1.0 if t == (0, 1, 3) else 0.0)
assert abs(got - 0.05) < 1e-9, got
''',
        needs="triangles of very different areas", breaks="the smallest are left out"),
    dict(
        id="b10-numpy", property="C10",
        edits=[("tensors.py", '        """Return copy of the matrix as numpy array."""\n        return np.array(self.data)', '        """Return copy of the matrix as numpy array."""\n        if not hasattr(self, "_array"):\n            self._array = np.array(self.data)\n        return self._array')],
        demo='''
from tvemoves_rufbad.tensors import Matrix
m = Matrix([[1, 2], [3, 4]])
a = m.numpy()
a[0, 0] = 9
assert m.numpy()[0, 0] == 1
''',
        needs="a change of the array a matrix was converted to", breaks="converting the matrix again gives the changed array"),
    dict(
        id="b11-too-many", property="C11",
        edits=[("interpolation.py", "        if len(params) != len(boundary.vertices):\n", "        if len(params) < len(boundary.vertices):\n")],
        demo='''
from tvemoves_rufbad.domain import RectangleDomain
from tvemoves_rufbad.interpolation import P1BoundaryInterpolation
g = RectangleDomain(1, 1, fix="left").grid(0.5)
try:
    P1BoundaryInterpolation(g.neumann_boundary, {i: 0.0 for i in g.boundary.vertices})
    ok = False
except ValueError:
    ok = True
assert ok
''',
        needs="more values than vertices of a part of the boundary", breaks="they are accepted"),
    dict(
        id="b13-nearly-horizontal", property="C13",
        edits=[("bell_finite_element.py", "    b3 = p1[1] - p2[1]\n    c3 = p2[0] - p1[0]\n    return Vector", "    # horizontal up to rounding\n    b3 = p1[1] - p2[1] if abs(p1[1] - p2[1]) > 1e-3 else 0.0\n    c3 = p2[0] - p1[0]\n    return Vector")],
        demo='''
from tvemoves_rufbad.domain import RectangleDomain
from tvemoves_rufbad.interpolation import C1Interpolation
s = 5e-4
g = RectangleDomain(s, s).grid(s)
i = C1Interpolation(g, [[p[1] / s, 0, 1 / s, 0, 0, 0] for p in g.points])
for e in g.edges:
    want = 0.25 * g.points[e[0]][1] / s + 0.75 * g.points[e[1]][1] / s
    assert abs(i.on_edge(e, 0.25) - want) < 1e-9, e
''',
        needs="a grid with cells below a thousandth", breaks="all edges are treated as horizontal"),
    dict(
        id="b14-mixed", property="C14",
        edits=[("interpolation.py", "        return Vector([\n            self._y[0](x, y),\n            self._y[1](x, y),\n        ])\n\n    def strain(self, x: float, y: float)", "        # locate the point only once\n        position = self._y[0]._to_barycentric_inputs(x, y)\n        return Vector([\n            self._y[0]._barycentric_interpolation(*position),\n            self._y[1]._barycentric_interpolation(*position),\n        ])\n\n    def strain(self, x: float, y: float)")],
        demo='''
from tvemoves_rufbad.domain import RectangleDomain
from tvemoves_rufbad.interpolation import P1Interpolation, EuclideanDeformation
d = RectangleDomain(2, 1)
a, b = d.grid(1), d.grid(0.5)
y = EuclideanDeformation(P1Interpolation(a, [p[0] for p in a.points]), P1Interpolation(b, [p[1] for p in b.points]))
v = y(1.3, 0.4)
assert abs(v[0] - 1.3) < 1e-9 and abs(v[1] - 0.4) < 1e-9, v
''',
        needs="components on different grids", breaks="the second component is evaluated in a triangle of the first grid"),
    dict(
        id="b15-overflow", property="C15",
        edits=[("helpers.py", "austenite_percentage = sp.lambdify(\n    [_theta], _austenite_percentage_symbolic, modules={\"exp\": pyo.exp}\n)", "def austenite_percentage(theta):\n    \"\"\"Share of austenite.\"\"\"\n    warm = pyo.exp(5 * theta)\n    return (warm - 1) / warm")],
        demo='''
from tvemoves_rufbad.helpers import austenite_percentage
assert abs(austenite_percentage(0.2) - 0.6321205588285577) < 1e-12
assert austenite_percentage(200.0) == 1.0
''',
        needs="a temperature above 142", breaks="the share overflows"),
    dict(
        id="b16-cold-series", property="C16",
        edits=[("helpers.py", "    return antider_internal_energy_weight(theta) * (\n        austenite_potential(strain) - martensite_potential(strain)\n    )", "    weight = antider_internal_energy_weight(theta)\n    if isinstance(theta, (int, float)) and theta < 1e-3:\n        # the closed form cancels\n        weight = 25 / 6 * theta**3 * (1 - 5 * theta)\n    return weight * (austenite_potential(strain) - martensite_potential(strain))")],
        demo='''
from tvemoves_rufbad.helpers import temp_antrider_internal_energy_no_entropy as an, internal_energy_no_entropy as ie
from tvemoves_rufbad.tensors import Matrix
F = Matrix([[9.0, 0.5], [0.0, 9.0]])
t, e = 5e-4, 1e-5
d = (an(F, t + e) - an(F, t - e)) / (2 * e)
assert abs(d - ie(F, t)) < 1e-3 * abs(ie(F, t)), (d, ie(F, t))
''',
        needs="a temperature below a thousandth given as a number", breaks="the second term of the series has a wrong coefficient"),
    dict(
        id="b22-growing", property="C22",
        edits=[("mechanical_step.py", "        new_prev_y1 = new_prev_y[:, 0]\n        new_prev_y2 = new_prev_y[:, 1]\n        m = self._model\n        for i in m.vertices:\n            m.prev_y1[i] = new_prev_y1[i]", "        new_prev_y1 = new_prev_y[:, 0]\n        new_prev_y2 = new_prev_y[:, 1]\n        m = self._model\n        moved = max(abs(m.prev_y1[i].value - new_prev_y1[i]) for i in m.vertices)\n        if moved >= self._search_radius:\n            # the box was too small\n            self._search_radius *= 2\n        for i in m.vertices:\n            m.prev_y1[i].set_value(new_prev_y1[i])")],
        demo=SIM + '''
b = []
def hook(m, n):
    if n % 2:
        b.append(max(v.ub - v.lb for v in m.y1.values()))
        for v in m.y1.values():
            v.set_value(v.ub)
S = Simulation(RectangleDomain(1, 1), SimulationParams(0.1, 0.5, 1, 1))
S.run(3)
assert max(b) < 1.0 + 1e-9, b
''',
        needs="an answer at the end of the search box", breaks="the box is twice as large from then on"),
    dict(
        id="b24-rounded", property="C24",
        edits=[("simulation.py", "        theta = EuclideanInterpolation(P1Interpolation(grid, theta_data.tolist()))", "        theta = EuclideanInterpolation(P1Interpolation(grid, theta_data.round(7).tolist()))")],
        demo=SIM + '''
def hook(m, n):
    if n == 2:
        for v in m.theta.values():
            v.set_value(0.123456789012)
S = Simulation(RectangleDomain(1, 1), SimulationParams(0.1, 0.5, 1, 1))
assert abs(S.steps[1].theta(0.3, 0.2) - 0.123456789012) < 1e-12
''',
        needs="a temperature with more than seven decimals", breaks="the recorded step evaluates the rounded temperature"),
    dict(
        id="b26-buffer", property="C26",
        edits=[("thermal_step.py", '        """Return the current temperature as vector of length N, where N is the number of vertices."""\n        m = self._model\n        return', '        """Return the current temperature as vector of length N, where N is the number of vertices."""\n        m = self._model\n        if not hasattr(self, "_buffer"):\n            self._buffer = np.empty(self._num_vertices)\n        self._buffer[:] = np.maximum([m.theta[i].value for i in m.vertices], 0.0)\n        return self._buffer\n        return'),
               ("thermal_step.py", '        """Return the previous temperature as vector of length N, where N is the number of vertices."""\n        m = self._model\n        return np.array([m.prev_theta[i].value for i in m.vertices])\n\n    def theta', '        """Return the previous temperature as vector of length N, where N is the number of vertices."""\n        return np.array([p.value for p in self._model.prev_theta.values()])\n\n    def theta')],
        demo=SIM + '''
def hook(m, n):
    if n % 2 == 0:
        for v in m.theta.values():
            v.set_value(0.1 * n)
S = Simulation(RectangleDomain(1, 1), SimulationParams(0.1, 0.5, 1, 1))
S.run()
assert abs(S.steps[1].data()[1][0] - 0.2) < 1e-12, S.steps[1]
''',
        needs="two steps with different temperatures", breaks="all recorded temperatures share one array"),
    dict(
        id="b27-once", property="C27",
        edits=[("thermal_step.py", "        self._model.external_temperature = self._external_temperature(current_time)", "        # the load of a time is evaluated once\n        if current_time != getattr(self, \"_load_time\", None):\n            self._load_time = current_time\n            self._model.external_temperature.set_value(self._external_temperature(current_time))")],
        demo=SIM + '''
fail = [False]
def external(t):
    if fail[0]:
        fail[0] = False
        raise RuntimeError
    return t
vals = []
def hook(m, n):
    if hasattr(m, "external_temperature"):
        vals.append(pyo.value(m.external_temperature))
S = Simulation(RectangleDomain(1, 1), SimulationParams(0.1, 0.5, 1, 1), external_temperature=external)
S.run()
fail[0] = True
try:
    S.run()
except RuntimeError:
    pass
S.run()
assert vals[-1] == 2.0, vals
''',
        needs="a failure of the external temperature, then another attempt", breaks="the second attempt keeps the temperature of the previous step"),
    dict(
        id="b28-plot-grid", property="C28",
        edits=[("simulation.py", "        plotting_grid = domain.refine(refined_grid, PLOTTING_REFINEMENT_FACTOR)\n", "        key = len(refined_grid.vertices), len(refined_grid.edges)\n        if key not in _plotting_grids:\n            _plotting_grids[key] = domain.refine(refined_grid, PLOTTING_REFINEMENT_FACTOR)\n        plotting_grid = _plotting_grids[key]\n"),
               ("simulation.py", "PLOTTING_REFINEMENT_FACTOR = 5\n", "PLOTTING_REFINEMENT_FACTOR = 5\n_plotting_grids = {}\n")],
        demo=SIM + '''
import matplotlib
matplotlib.use("Agg")
from matplotlib import pyplot as plt
ext = []
for w in (1, 0.5):
    S = Simulation(RectangleDomain(w, w), SimulationParams(0.1, 0.5, 1, w, 0.1, 1))
    fig, ax = plt.subplots()
    S.steps[0].plot(ax, 1.0)
    ext.append(ax.dataLim.x1)
    plt.close(fig)
assert abs(ext[0] - 1) < 1e-6 and abs(ext[1] - 0.5) < 1e-6, ext
''',
        needs="two regularised simulations on rectangles of different sizes with equally many cells", breaks="the second is plotted on the grid of the first"),
    dict(
        id="b29-small", property="C29",
        edits=[("simulation.py", "        if self.search_radius <= 0:\n", "        if self.search_radius < 1e-6:\n")],
        demo='''
from tvemoves_rufbad.simulation import SimulationParams
SimulationParams(0.1, 1e-7, 1, 1)
''',
        needs="a positive search radius below a millionth", breaks="it is rejected"),
    dict(
        id="b29-infinite", property="C29",
        edits=[("simulation.py", "        if self.scale <= 0:\n", "        if not 0 < self.scale < 1000:\n")],
        demo='''
from tvemoves_rufbad.simulation import SimulationParams
SimulationParams(0.1, 0.1, 1, 1000)
''',
        needs="a frame rate of at least a thousand", breaks="it is rejected"),
    dict(
        id="b30-reused", property="C30",
        edits=[("helpers.py", "    fig, ax = plt.subplots()\n", "    # do not open a new window for each picture\n    fig, ax = plt.subplots(num=\"tvemoves\")\n")],
        demo=SIM + '''
import matplotlib
matplotlib.use("Agg")
from matplotlib import pyplot as plt
S = Simulation(RectangleDomain(1, 1), SimulationParams(0.1, 0.5, 1, 1))
S.plot_step(0)
S.plot_step(1)
assert len(plt.gcf().axes) == 1, plt.gcf().axes
''',
        needs="two plots in one session", breaks="the second is drawn over the first"),
    dict(
        id="b34-dotted", property="C34",
        edits=[("simulation.py", "        anim.save(filename + \".mp4\", fps=30", "        anim.save(filename.split(\".\")[0] + \".mp4\", fps=30")],
        demo=SIM + '''
import matplotlib
matplotlib.use("Agg")
from matplotlib import animation
names = []
animation.FuncAnimation.save = lambda self, name, *a, **k: names.append(name)
S = Simulation(RectangleDomain(1, 1), SimulationParams(0.1, 0.5, 1, 1))
S.save_animation("load_0.5")
assert names == ["load_0.5.mp4"], names
''',
        needs="a name with a dot", breaks="the name is cut at the dot"),
    dict(
        id="b32-bent", property="C32",
        edits=[("domain.py", "        for edge in self.edges:\n            i, j = edge\n            p, q = self.points[i], self.points[j]\n            ax.plot([p[0], q[0]], [p[1], q[1]], color=\"black\", linewidth=PLOT_LINEWIDTH)", "        # one line in each row, the others one by one\n        rows = {}\n        for i, j in self.edges:\n            p, q = self.points[i], self.points[j]\n            if p[1] == q[1]:\n                rows.setdefault(p[1], []).extend((p[0], q[0]))\n            else:\n                ax.plot([p[0], q[0]], [p[1], q[1]], color=\"black\", linewidth=PLOT_LINEWIDTH)\n        for height, x in rows.items():\n            ax.plot([min(x), max(x)], [height, height], color=\"black\", linewidth=PLOT_LINEWIDTH)")],
        demo='''
import matplotlib
matplotlib.use("Agg")
from tvemoves_rufbad.domain import Grid, Boundary
from tvemoves_rufbad.tensors import Vector
b = Boundary([], [])
p = [Vector([0.0, 0.0]), Vector([1.0, 0.0]), Vector([0.5, 1.0]), Vector([2.0, 0.0]), Vector([3.0, 0.0]), Vector([2.5, 1.0])]
g = Grid(list(range(6)), [(0, 1), (1, 2), (2, 0), (3, 4), (4, 5), (5, 3)], [(0, 1, 2), (3, 4, 5)], b, b, b, p)
ax = g.plot()
spans = [sorted(l.get_xdata()) for l in ax.lines]
assert all(s[1] - s[0] <= 1.0 for s in spans), spans
''',
        needs="a grid with a gap in a row", breaks="the gap is drawn over"),
    dict(
        id="b23-view", property="C23",
        edits=[("mechanical_step.py", "            for i in vertices\n        ])\n\n    def y(self)", "            for i in vertices\n        ]).round(12)\n\n    def y(self)"),
               ("mechanical_step.py", "                [m.prev_y1[i, j].value for j in c1_indices],\n                [m.prev_y2[i, j].value for j in c1_indices],\n            ]\n            for i in vertices\n        ])", "                [m.prev_y1[i, j].value + 0.0 for j in c1_indices],\n                [m.prev_y2[i, j].value + 0.0 for j in c1_indices],\n            ]\n            for i in vertices\n        ])")][1:] + [("mechanical_step.py", "            m.prev_theta[i] = new_prev_theta[i]\n\n    def update_boundary", "            m.prev_theta[i] = round(float(new_prev_theta[i]), 12)\n\n    def update_boundary")],
        demo=SIM + '''
S = Simulation(RectangleDomain(1, 1), SimulationParams(0.1, 0.5, 1, 1))
a = np.full(4, 1 / 3)
S._mechanical_step.update_prev_theta(a)
assert (S._mechanical_step.prev_theta() == a).all()
''',
        needs="a temperature with more than twelve decimals", breaks="the temperature is stored rounded"),
    dict(
        id="b12-param-count", property="C12",
        edits=[("interpolation.py", "        if any(len(p) != 6 for p in params):", "        if len(params[0]) != 6:")],
        demo='''
from tvemoves_rufbad.domain import RectangleDomain
from tvemoves_rufbad.interpolation import C1Interpolation
g = RectangleDomain(1, 1).grid(1)
try:
    C1Interpolation(g, [[0] * 6, [0] * 6, [0] * 5, [0] * 7])
    ok = False
except ValueError:
    ok = True
assert ok
''',
        needs="vertex data of wrong length at another vertex than the first", breaks="it is accepted"),
    dict(
        id="b20-named-sides", property="C20",
        edits=[("mechanical_step.py", "    for v in grid.dirichlet_boundary.vertices:\n        m.y1[v + 1, 1].fix()\n        m.y2[v + 1, 1].fix()", "    for i, j in grid.dirichlet_boundary.edges:\n        m.y1[j + 1, 1].fix()\n        m.y2[j + 1, 1].fix()\n        if i == 0:\n            m.y1[i + 1, 1].fix()\n            m.y2[i + 1, 1].fix()")],
        demo=SIM + '''
n = {}
for f in ("lower", "upper", "left", "right"):
    def hook(m, k):
        if k == 1:
            n[f] = sum(v.fixed for v in m.y1.values())
    calls[0] = 0
    Simulation(RectangleDomain(1, 1, fix=f), SimulationParams(0.1, 0.5, 1, 1, 0.1, 1))
assert set(n.values()) == {2}, n
''',
        needs="a fixed side that does not start at the origin, with regularisation", breaks="its first vertex is free to move"),
]
