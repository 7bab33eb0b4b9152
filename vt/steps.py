"""Mechanical and thermal steps under a controlled solver, next to a dictionary model of their data."""

from functools import lru_cache

import numpy as np

from vt import dom, shapes
from vt.core import Violation, close, raises, require
from vt.env import Environment, Fault, pattern
from vt.ref import mesh
from vt.ref.scheme import Space


QUIET = 4.0  # a time at which both loads vanish exactly


def traction(t, x, y):
    if t == QUIET:
        return [0.0, 0.0]
    return [0.7 + 2 * x - y + 3 * t + x * y * t, np.cos(t) - x + 0.5 * y * y + 0.3 * t]


def external(t):
    if t == QUIET:
        return 0.0
    return 0.45 + 0.25 * t + 0.1 * t * t


@lru_cache(maxsize=32)
def setting(nx, ny, scale, fix, factor):
    """Grid, refined grid and reference of a setting; shared by the executions of a process."""
    cfg = dict(nx=nx, ny=ny, scale=scale, fix=list(fix))
    domain, s, shape = dom.make(cfg)
    grid = domain.grid(s)
    refined = domain.refine(grid, factor) if factor else None
    return domain, grid, refined, Space(grid, refined), s, shape


@lru_cache(maxsize=32)
def custom(name, turn, scale, fix, factor):
    """The same for a triangulation that does not come from a rectangle."""
    domain, s = shapes.Custom(name, turn, fix), mesh.num(scale)
    grid = domain.grid(s)
    refined = domain.refine(grid, factor) if factor else None
    return domain, grid, refined, Space(grid, refined), s, shapes.Shape(name, s)


def setting_of(cfg):
    if "shape" in cfg:
        return custom(cfg["shape"], cfg.get("turn", 0), cfg.get("scale", "1"), tuple(cfg.get("fix") or ()), cfg.get("factor"))
    return setting(cfg["nx"], cfg["ny"], cfg.get("scale", "1"), tuple(cfg.get("fix") or ()), cfg.get("factor"))


def unit(space, scale):
    """Natural size of the degrees of freedom of a deformation."""
    if space.dofs == 1:
        return np.full((space.n, 2), scale)
    return np.tile(np.array([scale, 1, 1, 1 / scale, 1 / scale, 1 / scale]), (space.n, 2, 1))


def deformation(space, scale, seed, dirichlet=(), amplitude=0.07):
    """A deformation near the identity with positive determinant, undeformed at the fixed vertices."""
    y = space.identity()
    d = amplitude * unit(space, scale) * pattern(1, y.size, seed)[0].reshape(y.shape)
    for v in dirichlet:
        d[v] = 0
    return y + d


def temperature(space, seed):
    return 0.3 + 0.25 * pattern(1, space.m, 50 + seed)[0]


def locate(answer, data, what):
    """Indices in the flattened data of the values answered by the solver."""
    flat = np.asarray(data, float).reshape(-1)
    order = np.argsort(flat, kind="stable")
    pos = np.searchsorted(flat[order], answer)
    out = []
    for k, x in enumerate(answer):
        if pos[k] >= len(flat) or flat[order[pos[k]]] != x:
            raise Violation(f"{what}: the value {x!r} answered by the solver is not among the data read back")
        if pos[k] + 1 < len(flat) and flat[order[pos[k] + 1]] == x:
            raise Violation(f"{what}: the value {x!r} answered by the solver for one unknown appears twice")
        out.append(int(order[pos[k]]))
    return np.array(out, int)


class Harness:
    """Common part: environment, model of the data, problems seen."""

    candidates = 4

    def __init__(self, cfg):
        self.cfg = cfg
        self.domain, self.grid, self.refined, self.space, self.scale, self.shape = setting_of(cfg)
        self.scale = getattr(self.shape, "height", self.scale)  # displacements are proportional to it
        self.what = dom.describe(cfg)
        self.regularization = cfg.get("reg")
        self.fps, self.radius = cfg.get("fps", 3), cfg.get("radius", 0.2)
        self.dirichlet = list(self.grid.dirichlet_boundary.vertices)
        self.env = Environment(self._answer)
        self.next_seed = 0
        self.fault = None
        self.solves = 0

    def _answer(self, index, problem):
        if self.evaluating:
            n = len(problem.free)
            problem.evaluate(self.allowed(problem, problem.start + self.spread(problem) * pattern(self.candidates, n, 300 + index)))
        if self.fault is not None:
            return self.fault
        answer = problem.start + self.spread(problem) * 0.5 * pattern(1, len(problem.free), 7 * self.next_seed + 1)[0]
        return self.allowed(problem, answer)

    def allowed(self, problem, answer):
        return answer

    evaluating = True
    history = ()

    def do(self, op):
        """Perform an operation on the step and on the model."""
        getattr(self, "op_" + op[0])(*op[1:])
        self.history = self.history + (op,)

    def say(self):
        return f"{self.what}: after {' '.join('/'.join(map(str, o)) for o in self.history) or 'construction'}"

    def deformed(self, k, shift=0):
        if k == "far":  # several search radii away
            y = self.deformed(3, shift)
            d = 9 * self.radius * (1 + pattern(1, y.size, 77)[0].reshape(y.shape) ** 2)
            d[self.dirichlet] = 0
            return y + d
        if k == "stretched":
            return 3.5 * self.deformed(3, shift)
        return self.space.identity() if k == "identity" else deformation(self.space, self.scale, k + shift, self.dirichlet)

    def warmed(self, k):
        if k == "far":
            return temperature(self.space, 3) + 9 * self.radius
        if k == "hot":
            return temperature(self.space, 3) + 60
        return np.zeros(self.space.m) if k == "zero" else temperature(self.space, k)

    def update(self, method, array):
        given = array.copy()
        method(given)
        require(np.array_equal(given, array), f"{self.say()}: {method.__name__} changed its argument")
        given[...] = np.nan  # the step must not share the array

    def bad(self, method, shape):
        raises(ValueError, lambda: method(np.full(shape, 0.123)), f"{self.say()}: {method.__name__} with shape {shape}")


class Mechanical(Harness):
    def __init__(self, cfg):
        from tvemoves_rufbad.mechanical_step import MechanicalStepParams, mechanical_step

        super().__init__(cfg)
        theta0 = cfg.get("theta0", 0.4)
        self.step = mechanical_step(
            self.env.solver(), self.grid, MechanicalStepParams(theta0, self.radius, self.fps, self.regularization), self.refined, traction
        )
        self.prev_y = self.space.identity()
        self.y = self.prev_y.copy()
        self.prev_theta = np.full(self.space.m, float(theta0))
        self.time = 0.0
        self.fresh = True  # the unknown has not been solved for since the previous value was set

    def spread(self, problem):
        return 0.05 * self.scale if self.space.dofs == 1 else 0.04 * min(1.0, self.scale)

    def loads(self):
        return {v: traction(self.time, *map(float, self.grid.points[v])) for v in self.grid.neumann_boundary.vertices}

    def op_prev_y(self, k):
        a = self.deformed(k)
        self.update(self.step.update_prev_y, a)
        self.prev_y, self.y, self.fresh = a, a.copy(), True

    def op_prev_theta(self, k):
        a = self.warmed(k)
        self.update(self.step.update_prev_theta, a)
        self.prev_theta = a

    def op_load(self, t):
        self.step.update_boundary_traction(t)
        self.time = t

    def op_bad(self, k):
        n, m = self.space.n, self.space.m
        y = self.space.identity().shape
        if k == 0:
            self.bad(self.step.update_prev_y, (n + 1,) + y[1:])
        elif k == 1:
            self.bad(self.step.update_prev_theta, (m + 1,))

    def op_solve(self, seed):
        self.next_seed = seed
        self.step.solve()
        self.solves += 1
        self.problem = p = self.env.problems[-1]
        got = self.step.y()
        require(got.shape == self.y.shape, f"{self.say()}: y has shape {got.shape}")
        index = locate(p.answer, got, self.say())
        self.index = index
        self.before, self.was_fresh = self.y, self.fresh
        y = self.y.reshape(-1).copy()
        y[index] = p.answer
        self.y, self.fresh = y.reshape(got.shape), False

    def full(self, problem, rows):
        """Candidates of the unknowns as complete deformations."""
        out = np.repeat(self.before.reshape(1, -1), len(rows), axis=0)
        out[:, self.index] = rows
        return out.reshape((len(rows),) + self.y.shape)

    def check_objective(self, ch):
        p = self.problem
        y = self.full(p, p.candidates)
        loads = self.loads() if self.regularization is None else None
        want = self.space.mechanical(y, self.prev_y, self.prev_theta, self.fps, loads, self.regularization)
        size = self.space.mechanical_size(y, self.prev_y, self.prev_theta, self.fps, loads, self.regularization)
        for k in range(len(want)):
            close(p.values[k], want[k], 1e-10 * size[k], f"{self.say()}: objective of the mechanical step at candidate {k}")
        ch.evals(len(want))


class Thermal(Harness):
    def __init__(self, cfg):
        from tvemoves_rufbad.thermal_step import ThermalStepParams, thermal_step

        super().__init__(cfg)
        a, b = deformation(self.space, self.scale, 21, self.dirichlet), deformation(self.space, self.scale, 22, self.dirichlet)
        c = temperature(self.space, 21)
        given = [a.copy(), b.copy(), c.copy()]
        self.step = thermal_step(
            self.env.solver(), self.grid, *given, ThermalStepParams(self.radius, self.fps, self.regularization), external, self.refined
        )
        for x, y in zip(given, (a, b, c)):
            require(np.array_equal(x, y), f"{self.what}: the constructor changed its data")
            x[...] = np.nan
        self.prev_y, self.y, self.prev_theta, self.theta = a, b, c, c.copy()
        self.time = 0.0
        self.fresh = True

    def spread(self, problem):
        return 0.04

    def allowed(self, problem, answer):
        """Temperatures sometimes start at zero: what would leave the box there is reflected (and stays different from the rest)."""
        return np.where(answer < problem.lower, problem.lower + 0.6180339887 * (problem.lower - answer), answer)

    def op_prev_y(self, k):
        a = self.deformed(k)
        self.update(self.step.update_prev_y, a)
        self.prev_y = a

    def op_y(self, k):
        a = self.deformed(k, 10)
        self.update(self.step.update_y, a)
        self.y = a

    def op_prev_theta(self, k):
        a = self.warmed(k)
        self.update(self.step.update_prev_theta, a)
        self.prev_theta, self.theta, self.fresh = a, a.copy(), True

    def op_load(self, t):
        self.step.update_external_temperature(t)
        self.time = t

    def op_bad(self, k):
        y = self.space.identity().shape
        if k == 0:
            self.bad(self.step.update_prev_y, (y[0] + 1,) + y[1:])
        elif k == 1:
            self.bad(self.step.update_prev_theta, (self.space.m + 1,))
        elif k == 2:
            self.bad(self.step.update_y, (y[0] + 1,) + y[1:])

    def op_solve(self, seed):
        self.next_seed = seed
        self.step.solve()
        self.solves += 1
        self.problem = p = self.env.problems[-1]
        got = self.step.theta()
        require(got.shape == self.theta.shape, f"{self.say()}: theta has shape {got.shape}")
        self.index = locate(p.answer, got, self.say())
        self.before, self.was_fresh = self.theta, self.fresh
        self.theta = self.theta.copy()
        self.theta[self.index] = p.answer
        self.fresh = False

    def check_objective(self, ch):
        p = self.problem
        require(len(self.index) == self.space.m, f"{self.say()}: {len(self.index)} unknown temperatures, not {self.space.m}")
        th = np.empty((len(p.candidates), self.space.m))
        th[:, self.index] = p.candidates
        ext = external(self.time) if self.regularization is None else None
        args = (self.prev_y, self.y, self.prev_theta, self.fps, ext)
        want, size = self.space.thermal(th, *args), self.space.thermal_size(th, *args)
        for k in range(len(want)):
            close(p.values[k], want[k], 1e-10 * size[k], f"{self.say()}: objective of the thermal step at candidate {k}")
        ch.evals(len(want))
