"""C25: loads act at the right time and place."""

import math

import numpy as np

from vt import dom, env, sims, steps
from vt.checks import c24
from vt.core import THOROUGH, Violation, close, require
from vt.ref.mesh import fix_subsets

LEVEL = "model_checking"
RULE = (
    "a state is one setting (fixed sides, frame rate, load functions), one way of splitting the steps into runs and one solve;"
    " the load seen by the solver is the difference of its objective to that of the same history without that load"
)
ASSUMPTIONS = ["loads are recovered from values of the objective at several candidates, relative tolerance 1e-8",
               "load functions from a finite family: smooth ones, ones with jumps between the times of steps and ones with jumps at whole seconds, where the time is a step's index over the frame rate with no rounding error"]


def tractions():
    return {
        "mixed": lambda t, x, y: [0.7 + 2 * x - y + 3 * t + x * y * t, math.cos(t) - x + 0.5 * y * y + 0.3 * t],
        "first": lambda t, x, y: [0.1 * (1 + t) ** 2 * (1 + x + 2 * y), 0.0],
        "second": lambda t, x, y: [0.0, math.sin(1 + t) * (2 - x) + y],
        "none": lambda t, x, y: [0.0, 0.0],
        # exactly zero from some time on, before some time, at some times, at some places (times between those of the steps)
        "switched off": lambda t, x, y: [1.0 + x, 0.5 - y] if t < 0.4 else [0.0, 0.0],
        "switched on": lambda t, x, y: [0.0, 0.0] if t < 0.4 else [1.0 + t, y - 0.5],
        "pulse": lambda t, x, y: [0.0, 2.0 + x] if 0.4 < t < 0.9 else [0.0, 0.0],
        "corner": lambda t, x, y: [1.0 + t, -2.0 * t] if x > 0 and y > 0 else [0.0, 0.0],
        # changes by very little from one step to the next
        "creeping": lambda t, x, y: [2e-5 * t, -3e-6 * t * (1 + x)],
        "integers": lambda t, x, y: (1, 0) if t < 0.4 else (0, 2),
        # jumps exactly at whole seconds (which are times of steps if the frame rate is a whole number)
        "seconds": lambda t, x, y: [1.0 + math.floor(t) + x, -2.0 * math.ceil(t)],
    }


def externals():
    return {"quadratic": lambda t: 0.45 + 0.25 * t + 0.1 * t * t, "wave": lambda t: 1 + 0.5 * math.sin(3 * t + 1), "none": lambda t: 0.0,
            "switched off": lambda t: 1.5 if t < 0.4 else 0.0, "switched on": lambda t: 0.0 if t < 0.4 else 2, "constant": lambda t: 0.7, "creeping": lambda t: 0.5 + 2e-6 * t,
            "seconds": lambda t: 0.3 + math.floor(t) + 0.5 * math.ceil(t)}


def history(cfg, runs, tr, ext):
    scale = steps.setting_of(cfg)[4]

    def answer(index, problem):
        n = len(problem.free)
        spread = 0.05 if index % 2 else 0.05 * min(scale, 1.0)
        problem.evaluate(np.vstack([problem.start, problem.start + spread * env.pattern(cfg.get("candidates", 4), n, 200 + index)]))
        return problem.start + spread * 0.3 * env.pattern(1, n, 5 + index % 7)[0]

    e = env.Environment(answer)
    sim = sims.build(cfg, e, boundary_traction=tr, external_temperature=ext)
    for n in runs:
        sim.run(n)
    return sim, e.problems


def check(cfg, runs, sim, problems, bare, tr, ext, ch):
    """problems: with loads; bare: the same history without traction and with external temperature zero."""
    _, grid, refined, space, scale, _ = steps.setting_of(cfg)
    fps = cfg["fps"]
    reg = cfg.get("reg")
    what0 = f"{dom.describe(cfg)}: runs {runs}"
    require(len(problems) == len(bare) == 2 * sum(runs, 1), f"{what0}: {len(problems)} and {len(bare)} solves for {sum(runs, 1)} steps")
    ignored = []
    for index, (p, q) in enumerate(zip(problems, bare)):
        k, thermal = divmod(index, 2)
        t = k / fps
        w = f"{what0}: {'thermal' if thermal else 'mechanical'} solve of step {k + 1} (time {t:.6g})"
        require(p.candidates.shape == q.candidates.shape and np.abs(p.candidates - q.candidates).max(initial=0) < 1e-12, f"{w}: start of the unknowns depends on the load functions")
        got = p.values - q.values
        scalef = 1 + np.abs(p.values).max() + np.abs(q.values).max()
        after = sims.data(sim.steps[k + 1], cfg)[thermal]
        if p.answer.size == 0:
            continue
        if reg is not None and np.abs(got).max() <= 1e-10 * scalef:
            ignored.append(w)
            continue
        at = sims.locate(p.answer, after, w)
        full = np.repeat(after.reshape(1, -1), len(p.candidates), axis=0)
        full[:, at] = p.candidates
        full = full.reshape((-1,) + after.shape)
        want = np.zeros(len(full))
        if not thermal:
            pos = full if space.dofs == 1 else full[..., 0]
            for i, j in grid.neumann_boundary.edges:
                length = np.linalg.norm(space.points[i] - space.points[j])
                g = (np.array(tr(t, *space.points[i])) + np.array(tr(t, *space.points[j]))) / 2
                want -= length * ((pos[:, i] + pos[:, j]) / 2) @ g
        else:
            fine = grid if refined is None else refined
            for i, j in fine.boundary.edges:
                length = np.linalg.norm(space.fine_points[i] - space.fine_points[j])
                m = (full[:, i] + full[:, j]) / 2
                want += length * 0.25 * ((m - ext(t)) ** 2 - m**2)
        tol = 1e-8 if reg is None else 0.2  # another implementation of the regularised setting may integrate differently
        for c in range(len(want)):
            close(got[c], want[c], (tol if reg is None else tol * (1e-6 + abs(want[c]))) * (scalef if reg is None else 1), f"{w}: contribution of the load at candidate {c}")
        ch.evals(len(want))
    for index in range(len(problems)):
        ch.state((what0, cfg["load"], index))
        ch.transition()
    ch.validated()
    if ignored:
        ch.finding("regularized-ignores-loads", f"{ignored[0]}: the load functions have no influence on the objective")


def body(cfg, ch):
    runs = ch.pick("runs", cfg["runs"])
    name = cfg["load"]
    tr, ext = tractions()[name[0]], externals()[name[1]]
    zero, cold = tractions()["none"], externals()["none"]
    calls = []

    def traction(t, x, y):
        calls.append(("g", t, x, y))
        return tr(t, x, y)

    def external(t):
        calls.append(("e", t))
        return ext(t)

    sim, problems = history(cfg, runs, traction, external)
    _, bare = history(cfg, runs, zero, cold)
    check(cfg, runs, sim, problems, bare, tr, ext, ch)
    # the load functions are never asked for places outside the reference configuration
    _, grid, _, space, scale, _ = steps.setting_of(cfg)
    hi = space.points.max(axis=0) * (1 + 1e-9)
    for c in calls:
        if c[0] == "g":
            require(-1e-9 * scale <= c[2] <= hi[0] and -1e-9 * scale <= c[3] <= hi[1], f"{dom.describe(cfg)}: boundary traction asked for at {c[2:]}, outside the reference configuration")


def unloaded(cfg, ch):
    """A load that is not given is zero: all problems are those of the history with an explicit zero."""
    runs = ch.pick("runs", cfg["runs"])
    given = ch.pick("given", [(), ("boundary_traction",), ("external_temperature",)])
    by = ch.pick("by", ["position", "keyword"]) if given == ("external_temperature",) else "keyword"
    loads = dict(boundary_traction=tractions()["mixed"], external_temperature=externals()["quadratic"])
    zero = dict(boundary_traction=tractions()["none"], external_temperature=externals()["none"])

    def run(*args, **kw):
        from tvemoves_rufbad.simulation import Simulation

        scale = steps.setting_of(cfg)[4]

        def answer(index, problem):
            n = len(problem.free)
            spread = 0.05 * min(scale, 1.0)
            problem.evaluate(np.vstack([problem.start, problem.start + spread * env.pattern(cfg.get("candidates", 4), n, 200 + index)]))
            return problem.start + spread * 0.3 * env.pattern(1, n, 5 + index % 7)[0]

        e = env.Environment(answer)
        env.install(e)
        sim = Simulation(steps.setting_of(cfg)[0], sims.params(cfg), *args, **kw)
        for n in runs:
            sim.run(n)
        return sims.history(sim, cfg), e.problems

    only = {k: loads[k] for k in given}
    first, p = run(*only.values()) if by == "position" else run(**only)
    second, q = run(**{k: only.get(k, zero[k]) for k in zero})
    what = f"{dom.describe(cfg)}: runs {runs}, given by {by} {list(given) or 'no load'}"
    require(len(p) == len(q), f"{what}: {len(p)} solves instead of {len(q)}")
    for index, (a, b) in enumerate(zip(p, q)):
        w = f"{what}: {'thermal' if index % 2 else 'mechanical'} solve of step {index // 2 + 1}"
        require(a.candidates.shape == b.candidates.shape and np.abs(a.candidates - b.candidates).max(initial=0) < 1e-12, f"{w}: the start of the unknowns is not that with a load of zero")
        for c in range(len(a.values)):
            close(a.values[c], b.values[c], 1e-10 * (1 + abs(b.values[c])), f"{w}: objective at candidate {c}, compared with a load of zero")
        ch.state((what, index))
        ch.transition()
        ch.evals(len(a.values))
    sims.same(first, second, f"{what}: compared with a load of zero")
    ch.validated()


def compositions(n):
    if n == 0:
        return [[]]
    return [[k] + rest for k in range(1, n + 1) for rest in compositions(n - k)]


def parts():
    total = 4 if not THOROUGH else 7
    rates = (0.5, 1, 2, 3, 10, 24) if not THOROUGH else (0.1, 0.5, 1, 1.5, 2, 3, 7, 10, 24, 30, 60)
    A = [dict(nx=1, ny=1, fix=["left"], theta0=0.6, fps=f, load=l, runs=compositions(total)) for f in rates for l in (["mixed", "quadratic"],)]
    A += [dict(nx=2, ny=1, fix=["right"], theta0=0.6, fps=f, load=l, runs=[[3], [2, 1]], scale="1/2") for f in rates for l in (["first", "wave"], ["second", "none"], ["none", "quadratic"])]
    A += [dict(nx=1, ny=1, fix=["left"], theta0=0.6, fps=f, load=["mixed", "wave"], runs=[[12 if not THOROUGH else 40]]) for f in (3, 10)]
    A += [dict(nx=1, ny=1, fix=["left"], theta0=0.6, fps=f, load=l, runs=[[4], [2, 2]])
          for f in (2, 3, 7) for l in (["switched off", "switched on"], ["switched on", "switched off"], ["pulse", "constant"], ["corner", "wave"], ["integers", "switched off"], ["creeping", "creeping"])]
    A += [dict(nx=1, ny=1, fix=["left"], theta0=0.6, fps=7, load=["mixed", "quadratic"], runs=[[130]], candidates=2)]
    # long enough that accumulated rounding would move the time across a whole second
    A += [dict(nx=1, ny=1, fix=["left"], theta0=0.6, fps=f, load=["seconds", "seconds"], runs=r)
          for f, r in ((0.3, [[11]]), (1.5, [[8], [3, 5]]), (2, [[4]]), (3, [[8], [1] * 8]), (6, [[8]]), (7, [[9]]), (10, [[12]])) + (((15, [[33]]), (24, [[50]]), (60, [[62]])) if THOROUGH else ())]
    B = [dict(nx=nx, ny=ny, fix=f, theta0=0.6, fps=(2, 5)[k % 2], load=["mixed", "quadratic"], runs=[[1], [2, 1]], scale=("1", "1/2", "4")[k % 3])
         for nx, ny in ((1, 1), (2, 1), (2, 2), (2, 3)) for k, f in enumerate(fix_subsets())]
    R = [dict(nx=1, ny=1, fix=["left"], theta0=0.6, fps=2, load=["mixed", "quadratic"], runs=[[1]], reg=0.3, factor=1, candidates=2),
         dict(nx=1, ny=1, fix=["lower", "right"], theta0=0.6, fps=3, load=["first", "wave"], runs=[[1]], reg=0.0, factor=2, candidates=2)]
    D = [dict(nx=nx, ny=ny, fix=f, theta0=0.6, fps=fps, runs=[[1], [3], [1, 2]], scale=s) for (nx, ny, s) in ((1, 1, "1"), (2, 1, "1/2")) for f in ([], ["left"], ["lower", "right"]) for fps in (0.5, 3)]
    D += [dict(nx=1, ny=1, fix=f, theta0=0.6, fps=2, runs=[[1]], reg=0.3, factor=1, candidates=2) for f in ([], ["left"])]
    return [("loads not given", unloaded, D), ("frame rates and runs", body, A), ("fixed sides", body, B), ("regularised", body, R)]
