"""C36: steps and simulations work on every triangulation."""

import numpy as np

from vt import dom, env, shapes, sims, steps
from vt.checks import c20, c22, c24
from vt.core import THOROUGH, require

LEVEL = "model_checking"
RULE = (
    "a state is the data of a step, or the history of a simulation, on a triangulation that is no rectangle grid, for one numbering and one choice of fixed"
    " boundary edges; the problems handed to the solver are compared with the reference for that triangulation"
)
ASSUMPTIONS = ["the triangulations of vt/shapes.py in three numberings; vertices are numbered from 0 without gaps",
               "data from finite alphabets, sequences up to the stated depth, relative tolerance 1e-9"]


def check(h, ch):
    """The last problem of a harness: objective, start and bounds, unknowns and constraints."""
    mechanical = isinstance(h, steps.Mechanical)
    h.check_objective(ch)
    c22.check(h, mechanical)
    if mechanical:
        h.shape_fixed = {v for e in h.grid.dirichlet_boundary.edges for v in e}
        c20.check_problem(h, ch)
    else:
        require(h.problem.number_of_constraints == 0, f"{h.say()}: {h.problem.number_of_constraints} constraints")


def sequences(cfg, ch):
    mechanical = cfg["step"] == "mechanical"
    h = (steps.Mechanical if mechanical else steps.Thermal)(cfg)
    ops = [o for o in (MECH if mechanical else THERM) if o[0] != "load" or cfg.get("reg") is None]
    key = sorted((k, repr(v)) for k, v in cfg.items() if k != "first")
    done = []
    for k in range(cfg["depth"]):
        op = ch.pick("op", [tuple(cfg["first"])] if k == 0 and "first" in cfg else ops)
        h.do(op)
        done.append(op)
        ch.transition()
        if op[0] == "solve":
            check(h, ch)
        ch.state((key, h.prev_y.tolist(), h.prev_theta.tolist(), h.time, (h.y if mechanical else h.theta).tolist()))
    readback(h, mechanical)
    h.do(("solve", 2))
    ch.transition()
    check(h, ch)
    ch.case((key, tuple(done)), 0)
    ch.outcome(tuple(h.problem.values.round(9).tolist()))
    ch.validated()


def readback(h, mechanical):
    pairs = [("prev_y", h.prev_y), ("prev_theta", h.prev_theta), ("y", h.y)] + ([] if mechanical else [("theta", h.theta)])
    for name, want in pairs:
        got = getattr(h.step, name)()
        require(got.shape == want.shape, f"{h.say()}: {name} has shape {got.shape} instead of {want.shape}")
        if not h.fresh and name in ("y", "theta"):
            continue  # compared with the answers by the solve
        bad = ~(np.abs(got - want) <= 1e-12 * (1 + np.abs(want)))
        if bad.any():
            k = tuple(int(i) for i in np.argwhere(bad)[0])
            require(False, f"{h.say()}: {name} reads {got[k]!r} at {k} instead of {want[k]!r}")


MECH = [("prev_y", 0), ("prev_theta", 0), ("load", 0.5), ("solve", 1)]
THERM = [("prev_y", 0), ("y", 0), ("prev_theta", 0), ("load", 0.5), ("solve", 1)]


def simulation(cfg, ch):
    """The staggered scheme on a domain written by a user."""
    what = dom.describe(cfg)
    scale = steps.setting_of(cfg)[5].height
    chosen = []

    def answer(index, problem):
        n = len(problem.free)
        spread = 0.04 if index % 2 else 0.04 * min(scale, 1.0)
        problem.evaluate(problem.start + spread * env.pattern(3, n, 200 + index))
        k = ch.pick("answer", range(cfg["answers"]))
        chosen.append(k)
        ch.transition()
        ch.state((what, tuple(chosen)))
        return problem.start + spread * 0.8 * env.pattern(1, n, 31 * k + index)[0]

    environment = env.Environment(answer)
    sim = sims.build(cfg, environment, boundary_traction=c24.traction, external_temperature=c24.external)
    for n in cfg["runs"]:
        sim.run(n)
    data = c24.check_history(cfg, sim, environment.problems, ch, f"{what}: answers {chosen}")
    if sum(chosen) == 0:
        c24.between(cfg, sim, data, ch, f"{what}: answers {chosen}")
    ch.outcome(repr([d[1].round(9).tolist() for d in data]))
    ch.validated()


def parts():
    P, S = [], []
    fixes = ([], [0], [1, 2], [0, 3], [2], list(range(12)))
    for k, name in enumerate(shapes.NAMES):
        for turn in (0, 1, 2):
            for j in range(3 if not THOROUGH else 6):
                f = fixes[(k + turn + 3 * j) % 6]
                base = dict(shape=name, turn=turn, fix=f, scale=("1", "1/2", "10")[(k + turn + j) % 3], fps=(3, 0.5, 24)[(k + j) % 3], radius=(0.3, 0.1)[j % 2])
                P.append(dict(base, step="mechanical", depth=2))
                P.append(dict(base, step="thermal", depth=2 if THOROUGH or len(shapes.RAW[name][1]) <= 3 else 1))
    for k, name in enumerate(shapes.NAMES):
        small = len(shapes.RAW[name][1]) <= 2
        for turn in (0, 2) if small or THOROUGH else (k % 3,):
            f = fixes[(k + turn) % 5]
            base = dict(shape=name, turn=turn, fix=f, scale=("1", "1/2", "5")[(k + turn) % 3], fps=(3, 0.5)[k % 2], reg=(0.4, 0.0, 2)[k % 3], factor=2 if len(shapes.RAW[name][1]) == 1 else 1)
            P.append(dict(base, step="mechanical", depth=1 if small else 0))
            P.append(dict(base, step="thermal", depth=1 if small else 0))
    for k, name in enumerate(shapes.NAMES):
        f = fixes[(k + 1) % 5]
        S.append(dict(shape=name, turn=k % 3, fix=f, scale=("1", "1/2", "5")[k % 3], theta0=0.5, fps=(3, 0.5)[k % 2], answers=2, runs=[1, 1] if len(shapes.RAW[name][1]) <= 3 else [1]))
        if len(shapes.RAW[name][1]) <= 2:
            S.append(dict(shape=name, turn=(k + 1) % 3, fix=f, scale=("1", "2", "1/2")[k % 3], theta0=0.5, fps=(3, 0.5)[k % 2], answers=1, runs=[1], reg=(0.4, 0.0)[k % 2], factor=1 + k % 2))
    P.sort(key=lambda c: "reg" not in c)
    return [("steps", sequences, P), ("simulation", simulation, S)]
