"""C24: the simulation follows the staggered scheme step by step."""

import numpy as np

from vt import dom, env, grids, sims, steps
from vt.core import THOROUGH, close, require
from vt.ref import fem

LEVEL = "model_checking"
RULE = (
    "a state is a history of answers of the solver; in every state the problem handed to the solver is evaluated at several"
    " candidates and compared with the reference for the recorded steps, and the recorded steps are compared with the answers"
)
ASSUMPTIONS = ["all sequences of answers of an alphabet up to the stated number of steps; loads constant in time (see C25)",
               "relative tolerance 1e-9 (recorded steps are read by evaluating them at the vertices)"]


def traction(t, x, y):
    return [0.6 + x - 0.5 * y, 0.2 * x * y - 0.4]


def external(t):
    return 0.8


def check_history(cfg, sim, problems, ch, what, tr=traction, ext=external):
    """The recorded history and all problems of a simulation against the scheme."""
    _, grid, refined, space, scale, shape = steps.setting_of(cfg)
    reg, fps = cfg.get("reg"), cfg.get("fps", 3)
    require(len(problems) == 2 * (len(sim.steps) - 1), f"{what}: {len(problems)} solves for {len(sim.steps)} recorded steps")
    data = [sims.data(s, cfg) for s in sim.steps]
    y0 = space.identity()
    for v in np.ndindex(y0.shape):
        close(data[0][0][v], y0[v], 1e-10 * max(1, scale * max(shape.nx, shape.ny)), f"{what}: deformation of step 0 at {v}")
    for v in range(space.m):
        close(data[0][1][v], cfg.get("theta0", 0.4), 1e-12 * (1 + cfg.get("theta0", 0.4)), f"{what}: temperature of step 0 at vertex {v}")
    for index, p in enumerate(problems):
        k, thermal = divmod(index, 2)
        w = f"{what}: {'thermal' if thermal else 'mechanical'} solve of step {k + 1}"
        before, after = data[k][thermal], data[k + 1][thermal]
        at = sims.locate(p.answer, after, w)
        if thermal:
            require(len(at) == space.m, f"{w}: {len(at)} unknown temperatures of {space.m}")
        full = np.repeat(after.reshape(1, -1), len(p.candidates), axis=0)
        full[:, at] = p.candidates
        full = full.reshape((-1,) + after.shape)
        if not thermal:
            # components that are no unknowns keep their value
            rest = np.setdiff1d(np.arange(after.size), at)
            for j in rest:
                close(after.reshape(-1)[j], before.reshape(-1)[j], 1e-9 * (1 + abs(before.reshape(-1)[j])), f"{w}: fixed component {j}")
            loads = {v: tr(0, *map(float, grid.points[v])) for v in grid.neumann_boundary.vertices} if reg is None else None
            args = (full, before, data[k][1], fps, loads, reg)
            want, size = space.mechanical(*args), space.mechanical_size(*args)
        else:
            args = (full, data[k][0], data[k + 1][0], before, fps, ext(0) if reg is None else None)
            want, size = space.thermal(*args), space.thermal_size(*args)
        for c in range(len(want)):
            close(p.values[c], want[c], 1e-9 * size[c], f"{w}: objective at candidate {c}")
        ch.evals(len(want))
        for j, x in zip(at, p.answer):
            close(after.reshape(-1)[j], x, 1e-10 * (1 + abs(x)) / min(scale, 1) ** 2, f"{w}: recorded value {j}")
    return data


def between(cfg, sim, data, ch, what):
    """The recorded fields between the vertices are the finite element functions of the data at the vertices."""
    _, grid, refined, space, scale, _ = steps.setting_of(cfg)
    fine = grid if refined is None else refined
    for k, step in enumerate(sim.steps):
        y, theta = data[k]
        for t in grid.triangles:
            c = fem.corners_of(grid.points, t)
            for w in ((1 / 3, 1 / 3, 1 / 3), (0.6, 0.3, 0.1), (0.15, 0.05, 0.8)):
                p = grids.at(c, w)
                got = step.y(*p)
                for d in range(2):
                    if space.dofs == 1:
                        want = sum(l * y[v, d] for l, v in zip(w, t))
                    else:
                        want = fem.bell(c).value(np.concatenate([y[v, d] for v in t]), [p])[0]
                    close(got[d], want, 1e-8 * (1 + abs(want)), f"{what}: step {k}: component {d} of the deformation at {p}")
                ch.evals()
        for t in fine.triangles:
            c = fem.corners_of(fine.points, t)
            for w in ((1 / 3, 1 / 3, 1 / 3), (0.6, 0.3, 0.1)):
                p = grids.at(c, w)
                close(step.theta(*p), sum(l * theta[v] for l, v in zip(w, t)), 1e-9 * (1 + theta.max()), f"{what}: step {k}: temperature at {p}")
                ch.evals()


def body(cfg, ch):
    what0 = dom.describe(cfg)
    scale = steps.setting_of(cfg)[4]
    chosen = []

    def answer(index, problem):
        n = len(problem.free)
        spread = 0.05 * min(scale, 1.0)
        if index % 2:
            spread = 0.05
        problem.evaluate(problem.start + spread * env.pattern(cfg.get("candidates", 3), n, 200 + index))
        k = ch.pick("answer", range(cfg["answers"] if index >= cfg.get("first", 0) else 1))
        chosen.append(k)
        ch.transition()
        ch.state((what0, tuple(chosen)))
        if "small" in cfg:  # temperatures just above zero, and changes of the deformation which are as small
            p = 10.0 ** -cfg["small"] * (1.5 + env.pattern(1, n, 31 * k + index)[0])
            return p if index % 2 else problem.start + p * min(scale, 1.0)
        return problem.start + spread * 0.8 * env.pattern(1, n, 31 * k + index)[0]

    environment = env.Environment(answer)
    sim = sims.build(cfg, environment, boundary_traction=traction, external_temperature=external)
    what = f"{what0}: answers {chosen}"
    require(len(sim.steps) == 2 and environment.calls == 2, f"{what0}: {len(sim.steps)} recorded steps after {environment.calls} solves by the constructor")
    for n in cfg["runs"]:
        before = len(sim.steps), environment.calls
        sim.run(n)
        require(len(sim.steps) == before[0] + n and environment.calls == before[1] + 2 * n,
                f"{what0}: run({n}) recorded {len(sim.steps) - before[0]} steps in {environment.calls - before[1]} solves")
    data = check_history(cfg, sim, environment.problems, ch, f"{what0}: answers {chosen}")
    if all(k == 0 for k in chosen[:-2]):
        between(cfg, sim, data, ch, f"{what0}: answers {chosen}")
    ch.outcome(repr([d[1].round(9).tolist() for d in data]))
    ch.validated()


def parts():
    from vt.ref.mesh import fix_subsets

    deep = [dict(nx=1, ny=1, fix=["left"], theta0=0.4, fps=3, answers=2, runs=[1, 1, 1]), dict(nx=1, ny=1, fix=[], theta0=0.3, fps=0.5, answers=3, runs=[1], scale="1/2"),
            dict(nx=2, ny=1, fix=["right"], theta0=0.5, fps=10, answers=2, runs=[2], scale="1"),
            dict(nx=1, ny=2, fix=["lower", "left"], theta0=0.6, fps=1, answers=2, runs=[1, 1], scale="2")]
    deep += [dict(nx=1, ny=1, fix=["left"], theta0=0.15, fps=2, answers=1, runs=r, small=e) for e in (2, 3, 4, 5, 6) for r in ([1, 1], [2])]
    if THOROUGH:
        deep += [dict(nx=1, ny=1, fix=["upper"], theta0=0.8, fps=2, answers=2, runs=[2, 3]), dict(nx=2, ny=2, fix=["left"], theta0=0.8, fps=2, answers=2, runs=[1, 1])]
    wide = [dict(nx=nx, ny=ny, fix=f, theta0=0.6, fps=(1, 4)[k % 2], answers=1, runs=[[1], [2]][k % 2], scale=("1", "1/2", "5")[k % 3])
            for nx, ny in ((2, 2), (3, 1), (2, 3)) for k, f in enumerate(fix_subsets()) if not (len(f) == 4 and min(nx, ny) == 1)]
    reg = [dict(nx=1, ny=1, fix=["left"], theta0=0.4, fps=3, answers=2, runs=[1], reg=0.3, factor=1, first=1 if not THOROUGH else 0),
           dict(nx=1, ny=1, fix=[], theta0=0.6, fps=1, answers=1, runs=[2], reg=0.0, factor=2),
           dict(nx=1, ny=1, fix=["upper"], theta0=0.6, fps=1, answers=2, runs=[], reg=2, factor=2, scale="2"),
           dict(nx=2, ny=1, fix=["lower"], theta0=0.6, fps=0.5, answers=1, runs=[1], reg=1, factor=1, scale="1/2"),
           dict(nx=1, ny=2, fix=["lower", "upper"], theta0=0.6, fps=0.5, answers=1, runs=[1], reg=0.1, factor=1)]
    if THOROUGH:
        reg += [dict(nx=2, ny=2, fix=["left"], theta0=0.6, fps=2, answers=1, runs=[1], reg=0.5, factor=2), dict(nx=1, ny=1, fix=["left"], theta0=0.6, fps=2, answers=1, runs=[1], reg=0.5, factor=4)]
    return [("answers", body, deep), ("settings", body, wide), ("regularised", body, reg)]
