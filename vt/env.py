"""The controlled environment of the scheme: a solver whose answers, failures and observations the explorer decides.

The real code is run unchanged; `pyo.SolverFactory("ipopt")` (or the solver argument of the step factories) is this solver.
Every call of `solve` is recorded as a Problem: the unknowns (variables that are not fixed) in the order of the model, their
starting values and bounds, the fixed variables, and the values of the objective and constraints at chosen candidates.
Unknowns are matched with degrees of freedom by the answers given: every answer is a number of its own.
"""

import numpy as np
import pyomo.environ as pyo
from pyomo.opt import SolverResults, SolverStatus, TerminationCondition

from vt import exprval
from vt.core import require


class Problem:
    def __init__(self, model):
        self.vars = [v for v in model.component_data_objects(pyo.Var, active=True, descend_into=True)]
        self.free = [v for v in self.vars if not v.fixed]
        self.fixed_values = [v.value for v in self.vars if v.fixed]
        self.start = np.array([np.nan if v.value is None else v.value for v in self.free], float)
        bounds = [v.bounds for v in self.free]
        self.lower = np.array([-np.inf if b[0] is None else pyo.value(b[0]) for b in bounds], float)
        self.upper = np.array([np.inf if b[1] is None else pyo.value(b[1]) for b in bounds], float)
        objectives = list(model.component_data_objects(pyo.Objective, active=True, descend_into=True))
        require(len(objectives) == 1, f"the problem handed to the solver has {len(objectives)} objectives")
        self._objective = objectives[0]
        self._constraints = list(model.component_data_objects(pyo.Constraint, active=True, descend_into=True))
        self.number_of_constraints = len(self._constraints)
        self.candidates = None
        self.values = None
        self.answer = None

    def objective(self, candidates):
        """Objective (to be minimised) at candidates (K, number of unknowns)."""
        sign = 1 if self._objective.is_minimizing() else -1
        return sign * exprval.evaluate(self._objective.expr, self.free, candidates)

    def evaluate(self, candidates):
        self.candidates = np.array(candidates, float)
        self.values = self.objective(self.candidates)

    def linear_constraints(self):
        """Equality constraints as (A, b) in the free unknowns; requires them to be affine."""
        n = len(self.free)
        rows, rhs = [], []
        probe = np.vstack([np.zeros(n), np.eye(n), np.linspace(-1, 2, n)[None, :] if n else np.zeros((1, 0))])
        for c in self._constraints:
            v = exprval.evaluate(c.body, self.free, probe)
            a = v[1 : n + 1] - v[0]
            size = 1 + np.abs(a).max(initial=0) + abs(v[0])
            require(abs(v[0] + probe[-1] @ a - v[-1]) <= 1e-9 * size * (1 + n), f"constraint {c.name} is not affine")
            lower, upper = (None if x is None else pyo.value(x) for x in (c.lower, c.upper))
            require(lower is not None and lower == upper, f"constraint {c.name} is not an equation")
            rows.append(a)
            rhs.append(upper - v[0])
        return np.array(rows).reshape(-1, n), np.array(rhs)


def pattern(rows, n, seed=0):
    """Deterministic generic numbers in (-1, 1), different in every entry."""
    k = np.arange(rows)[:, None] * 101 + seed * 977
    j = np.arange(n)[None, :]
    return 2 * ((0.5 + (k + 1) * 0.7548776662466927 + (j + 1) * 0.5698402909980532 + (k + 3) * (j + 7) * 0.2360679774997897) % 1) - 1


class Fault:
    """What a call of the solver does instead of answering."""

    def __init__(self, exc, loaded=0.0):
        self.exc, self.loaded = exc, loaded  # share of unknowns that is changed before the exception


class Environment:
    """Decides what happens in the calls of the solver.

    answer(index, problem) -> array with the values of the unknowns (None: the starting values) or a Fault.
    observe(index, problem): called before the answer, e.g. to evaluate the objective.
    """

    def __init__(self, answer=None, observe=None, record=True):
        self.answer, self.observe, self.record = answer, observe, record
        self.problems = []
        self.calls = 0

    def solve(self, model):
        index = self.calls
        self.calls += 1
        problem = Problem(model)
        if self.record:
            self.problems.append(problem)
        if self.observe:
            self.observe(index, problem)
        x = self.answer(index, problem) if self.answer else None
        if isinstance(x, Fault):
            n = int(round(x.loaded * len(problem.free)))
            for k, v in enumerate(problem.free[:n]):
                v.set_value(float(problem.start[k] + 0.01 * (k + 1)), skip_validation=True)
            raise x.exc
        x = problem.start if x is None else np.asarray(x, float)
        require(x.shape == problem.start.shape, f"harness: answer of shape {x.shape} for {len(problem.free)} unknowns")
        for v, value in zip(problem.free, x):
            v.set_value(float(value), skip_validation=True)
        problem.answer = x.copy()
        return x

    def solver(self):
        return Solver(self)


class Solver:
    """What the library sees."""

    def __init__(self, env):
        self._env = env
        self.options = {}

    def solve(self, model, *args, **kwargs):
        self._env.solve(model)
        results = SolverResults()
        results.solver.status = SolverStatus.ok
        results.solver.termination_condition = TerminationCondition.optimal
        return results

    def available(self, *args, **kwargs):
        return True

    def set_options(self, *args, **kwargs):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *args):
        return False


_current = None


class _Registered(Solver):
    def __init__(self, *args, **kwargs):
        super().__init__(_current)
        self.options = dict(kwargs.get("options") or {})


def install(env):
    """Make env the solver that simulations constructed from now on use."""
    global _current
    _current = env
    pyo.SolverFactory.register("ipopt")(_Registered)
    return env
