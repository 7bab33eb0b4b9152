"""C22: every solve starts at the previous state with the search box around it."""

import numpy as np

from vt import dom, env, sims, steps
from vt.checks.c18 import split
from vt.core import THOROUGH, Violation, require

LEVEL = "model_checking"
RULE = (
    "a state is the data of a step, or the history of a simulation, before a solve; starting values and bounds of all unknowns"
    " are compared with the previous state in every solve of every sequence"
)
ASSUMPTIONS = ["updates and answers from finite alphabets (answers in the middle and at both ends of the box), sequences up to the stated depth",
               "relative tolerance 1e-12"]


def box(what, problem, prev, radius, nonnegative, fresh):
    """prev: previous values of the unknowns in the order of the problem."""
    tol = 1e-12 * (1 + np.abs(prev).max(initial=0) + radius)
    lower = np.maximum(prev - radius, 0) if nonnegative else prev - radius
    for name, got, want in (("start", problem.start, prev), ("lower bound", problem.lower, lower), ("upper bound", problem.upper, prev + radius)):
        if name == "start" and not fresh:
            continue
        bad = ~(np.abs(got - want) <= tol)
        if bad.any():
            k = int(np.argmax(bad))
            raise Violation(f"{what}: {name} {got[k]!r} of an unknown with previous value {prev[k]!r} and radius {radius}, expected {want[k]!r}")


def check(h, mechanical):
    prev = h.prev_y if mechanical else h.prev_theta
    box(h.say(), h.problem, prev.reshape(-1)[h.index], h.radius, not mechanical, h.was_fresh)


def sequences(cfg, ch):
    mechanical = cfg["step"] == "mechanical"
    h = (steps.Mechanical if mechanical else steps.Thermal)(cfg)
    h.evaluating = False
    ops = MECH if mechanical else THERM
    key = sorted((k, repr(v)) for k, v in cfg.items() if k != "first")
    for k in range(cfg["depth"]):
        op = ch.pick("op", [tuple(cfg["first"])] if k == 0 and "first" in cfg else [o for o in ops if o[0] != "load" or cfg.get("reg") is None])
        h.do(op)
        ch.transition()
        if op[0] == "solve":
            check(h, mechanical)
            ch.evals()
        ch.state((key, h.prev_y.tolist(), h.prev_theta.tolist(), h.time, (h.y if mechanical else h.theta).tolist()))
    h.do(("solve", 2))
    check(h, mechanical)
    ch.transition()
    ch.evals()
    ch.validated()


MECH = [("prev_y", 0), ("prev_y", 1), ("prev_theta", 0), ("load", 0.5), ("solve", 1), ("bad", 0), ("bad", 1), ("prev_y", "far")]
THERM = [("prev_y", 0), ("y", 0), ("prev_theta", 0), ("prev_theta", 1), ("load", 0.5), ("solve", 1), ("bad", 0), ("bad", 1), ("bad", 2), ("prev_theta", "far"), ("prev_theta", "zero")]


def simulation(cfg, ch):
    """All sequences of answers: in the middle, at the lower and at the upper end of the box."""
    radius = cfg["radius"]
    seen = []

    def answer(index, problem):
        n = len(problem.free)
        kind = ch.pick("answer", ("middle", "lower", "upper") if index < cfg["free"] else ("middle",))
        u = (env.pattern(1, n, index)[0] + 1) / 2 if n else np.zeros(0)
        if kind == "middle":
            x = problem.start + radius * (u - 0.5)
        elif kind == "lower":
            x = problem.start - radius * (1 - 1e-6 * u)
        else:
            x = problem.start + radius * (1 - 1e-6 * u)
        if index % 2 == 1:
            x = np.where(x <= 0, 1e-4 * u, x)
        seen.append(kind)
        ch.transition()
        return x

    environment = env.Environment(answer)
    sim = sims.build(cfg, environment)
    while len(sim.steps) < cfg["steps"]:
        sim.run(1)
    data = [sims.data(s, cfg) for s in sim.steps]
    require(len(environment.problems) == 2 * (len(data) - 1), f"{dom.describe(cfg)}: {len(environment.problems)} solves for {len(data)} recorded steps")
    for index, p in enumerate(environment.problems):
        k, thermal = divmod(index, 2)
        after, before = data[k + 1][thermal], data[k][thermal]
        at = sims.locate(p.answer, after, f"{dom.describe(cfg)}: answers {seen}: solve {index}")
        box(f"{dom.describe(cfg)}: answers {seen}: solve {index}", p, before.reshape(-1)[at], radius, bool(thermal), True)
        ch.evals()
        ch.state((repr(cfg), tuple(seen[: index + 1])))
    ch.validated()


def parts():
    deep = 4 if THOROUGH else 3
    cfgs = []
    for kind, ops in (("mechanical", MECH), ("thermal", THERM)):
        base = [dict(nx=1, ny=1, fix=["left"], radius=0.2, depth=deep), dict(nx=2, ny=2, fix=["lower", "right"], radius=0.05, depth=deep - 1, scale="1/2"),
                dict(nx=1, ny=1, fix=[], radius=3.0, depth=deep - 1, scale="10"),
                dict(nx=1, ny=1, fix=["left"], radius=0.2, depth=2, reg=0.3, factor=1),
                dict(nx=2, ny=1, fix=["upper"], radius=0.7, depth=1, reg=0.0, factor=2, scale="1/2")]
        for c in base:
            cfgs += split([dict(c, step=kind)], ops)
    n = 4 if not THOROUGH else 6
    sim = [dict(nx=1, ny=1, fix=["left"], radius=0.2, theta0=0.4, free=n + 1, steps=5),
           dict(nx=1, ny=1, fix=[], radius=0.5, theta0=0.0, free=n, steps=4),
           dict(nx=2, ny=1, fix=["right"], radius=0.05, theta0=0.1, free=n, steps=4, scale="1/2"),
           dict(nx=1, ny=2, fix=["lower", "left"], radius=2.0, theta0=3.0, free=n, steps=4, scale="5"),
           dict(nx=1, ny=1, fix=["left"], radius=0.2, theta0=0.3, free=3 if not THOROUGH else 4, steps=3, reg=0.3, factor=1),
           dict(nx=1, ny=1, fix=["upper", "right"], radius=0.1, theta0=0.05, free=2, steps=3, reg=0.0, factor=2, scale="1/2")]
    return [("sequences", sequences, cfgs), ("simulation", simulation, sim)]
