"""Simulations under the controlled solver."""

import numpy as np

from vt import env as E
from vt import steps


def params(cfg):
    from tvemoves_rufbad.simulation import SimulationParams

    return SimulationParams(
        cfg.get("theta0", 0.4), cfg.get("radius", 0.2), cfg.get("fps", 3), steps.setting_of(cfg)[4], cfg.get("reg"), cfg.get("factor")
    )


def build(cfg, environment, **kw):
    """A simulation of the setting, with the loads of vt.steps unless given."""
    from tvemoves_rufbad.simulation import Simulation

    E.install(environment)
    kw.setdefault("external_temperature", steps.external)
    kw.setdefault("boundary_traction", steps.traction)
    return Simulation(kw.pop("domain", None) or steps.setting_of(cfg)[0], kw.pop("params", None) or params(cfg), **kw)


def data(step, cfg):
    """Data of a recorded step read through its public functions: y (N, 2[, 6]) and theta (M,) at the vertices."""
    _, grid, refined, space, scale, _ = steps.setting_of(cfg)
    y = np.empty(space.identity().shape)
    for v, (a, b) in enumerate(space.points.tolist()):
        if space.dofs == 1:
            q = step.y(a, b)
            y[v] = [q[0], q[1]]
        else:
            q, g, h = step.y(a, b), step.y.strain(a, b), step.y.hyper_strain(a, b)
            for d in range(2):
                y[v, d] = [q[d], g[d, 0], g[d, 1], h[d, 0, 0], h[d, 0, 1], h[d, 1, 1]]
    theta = np.array([step.theta(a, b) for a, b in space.fine_points.tolist()])
    return y, theta


def locate(answer, values, what, tol=1e-9):
    """Indices in the flattened data of the values answered by the solver, within the rounding of evaluation."""
    from vt.core import Violation

    flat = np.asarray(values, float).reshape(-1)
    order = np.argsort(flat, kind="stable")
    s = flat[order]
    out = []
    for x in answer:
        t = tol * (1 + abs(x))
        a, b = np.searchsorted(s, x - t), np.searchsorted(s, x + t)
        if a == b:
            raise Violation(f"{what}: the value {x!r} answered by the solver is not recorded")
        k = a + int(np.argmin(np.abs(s[a:b] - x)))
        out.append(int(order[k]))
    if len(set(out)) != len(out):
        raise Violation(f"{what}: two values answered by the solver are recorded once")
    return np.array(out, int)


def responsive(scale, faults=None, candidates=2):
    """An answer function that depends on everything the solver is given: objective, start, bounds."""

    def answer(index, problem):
        n = len(problem.free)
        if n == 0:
            return problem.start
        spread = 0.05 * min(scale, 1.0)
        p = env_pattern(3, n)
        v = problem.objective(problem.start + spread * p[:candidates])
        s = float(np.sum(np.sin(v * np.array([3.0, 7.0])[: len(v)])) / 2)
        x = problem.start + spread * (0.5 * p[2] + 0.4 * s * p[0])
        return np.clip(x, problem.lower, problem.upper)

    return answer


def env_pattern(rows, n):
    return E.pattern(rows, n, 400)


def history(sim, cfg):
    return [data(s, cfg) for s in sim.steps]


def same(a, b, what, tol=1e-7):
    """Equality of histories up to rounding."""
    from vt.core import Violation, require

    require(len(a) == len(b), f"{what}: {len(a)} recorded steps instead of {len(b)}")
    for k, (x, y) in enumerate(zip(a, b)):
        for name, u, v in (("deformation", x[0], y[0]), ("temperature", x[1], y[1])):
            require(u.shape == v.shape, f"{what}: {name} of step {k} has shape {u.shape} instead of {v.shape}")
            d = np.abs(u - v) / (1 + np.abs(v))
            if not d.max() <= tol:
                j = tuple(int(i) for i in np.unravel_index(int(np.nanargmax(d)) if not np.isnan(d).all() else 0, d.shape))
                raise Violation(f"{what}: {name} of step {k} at {j} is {u[j]!r} instead of {v[j]!r}")
