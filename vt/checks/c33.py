"""C33: a gradient-based solver can read and start every problem."""

import numpy as np

from vt import dom, env, nl, sims, steps
from vt.checks.c18 import split
from vt.core import THOROUGH, Violation, require
from vt.ref.mesh import fix_subsets

LEVEL = "model_checking"
RULE = (
    "a state is the data of a step, or the history of a simulation, before a solve; in every such state the problem is written in"
    " the input format of the solver, and what stands there is evaluated independently"
)
ASSUMPTIONS = ["updates and answers from finite alphabets, sequences up to the stated depth",
               "'differentiable at the start' means: no operation of the problem is singular there (root of zero, quotient by zero, ...), as the"
               " solver differentiates operation by operation"]


def check(what, problem, ch, singular_roots=False, strict=True):
    """The problem just handed to the solver."""
    if not problem.free:
        ch.count("problems without unknowns")
        return
    require(problem.number_of_constraints <= len(problem.free) or not strict, f"{what}: {problem.number_of_constraints} equations for {len(problem.free)} unknowns")
    model = problem._objective.model()
    values = [v.value for v in problem.free]
    try:
        P = nl.Problem(model)
    except nl.Unsupported as e:
        ch.count(f"not judged: {e}")
        return
    except Exception as e:
        raise Violation(f"{what}: the problem cannot be written for the solver: {type(e).__name__} {e}")
    require(values == [v.value for v in problem.free], f"{what}: writing the problem changed it")
    require(P.n_objectives == 1 and P.minimise is not None, f"{what}: {P.n_objectives} objectives")
    at = {id(v): k for k, v in enumerate(problem.free)}
    require(all(id(v) in at for v in P.variables), f"{what}: the solver sees an unknown that is fixed")
    order = [at[id(v)] for v in P.variables]
    equations = sum(lo == hi for lo, hi in P.ranges)
    require(equations <= P.n_file or not strict, f"{what}: {equations} equations for {P.n_file} unknowns")
    require(all(x is not None for x in P.start), f"{what}: an unknown without starting value")
    start = np.array(P.start, float)
    require(bool(np.all(np.isfinite(start))), f"{what}: starting value {start[~np.isfinite(start)][:1]}")
    require(bool(np.array_equal(start, problem.start[order])), f"{what}: starting values are not those of the model")
    for k, (lo, hi) in enumerate(P.bounds):
        require(lo == problem.lower[order[k]] and hi == problem.upper[order[k]] and lo < hi, f"{what}: bounds {lo}, {hi} of an unknown")
    # the same functions
    rows = problem.start + 0.03 * np.clip(problem.upper - problem.lower, 0, 1) * np.vstack([np.zeros(len(order)), env.pattern(2, len(order), 77)])
    got, want = P.value(rows[:, order]), problem.objective(rows)
    require(bool(np.all(np.isfinite(got))), f"{what}: objective {got[~np.isfinite(got)][0] if not np.all(np.isfinite(got)) else 0} at or near the start")
    require(bool(np.all(np.abs(got - want) <= 1e-8 * (1 + np.abs(want).max()))), f"{what}: the objective written for the solver is {got} instead of {want}")
    for v in P.constraint_values(rows[:, order]):
        require(bool(np.all(np.isfinite(v))), f"{what}: constraint not finite")
    # differentiable where the solver starts
    singular = []
    P.value(rows[:1, order], singular)
    if singular_roots:
        singular = [s for s in singular if "root" not in s]
    require(not singular, f"{what}: the problem cannot be differentiated at its start: {singular[:1]} ({len(singular)} times)")
    ch.evals(len(got))


MECH = [("prev_y", 0), ("prev_theta", 0), ("load", 0.5), ("solve", 1)]
THERM = [("prev_y", 0), ("y", 0), ("prev_theta", 0), ("same", 0), ("load", 0.5), ("solve", 1)]


def sequences(cfg, ch):
    mechanical = cfg["step"] == "mechanical"
    h = (steps.Mechanical if mechanical else steps.Thermal)(cfg)
    h.evaluating = False
    ops = MECH if mechanical else THERM
    key = sorted((k, repr(v)) for k, v in cfg.items() if k != "first")
    deformed = not mechanical

    def observe(index, problem):
        check(h.say(), problem, ch, singular_roots=mechanical and not deformed and bool(cfg.get("reg")))

    h.env.observe = observe
    for k in range(cfg["depth"]):
        op = ch.pick("op", [tuple(cfg["first"])] if k == 0 and "first" in cfg else ops)
        if op[0] == "same":  # nothing changed
            a = h.prev_y.copy()
            h.update(h.step.update_y, a)
            h.y = a
            h.history = h.history + (op,)
        else:
            h.do(op)
        deformed = deformed or op[0] == "prev_y"
        ch.transition()
        ch.state((key, h.prev_y.tolist(), h.prev_theta.tolist(), h.time, (h.y if mechanical else h.theta).tolist()))
    h.do(("solve", 2))
    ch.transition()
    ch.validated()


def simulation(cfg, ch):
    """All sequences of answers of the solver: the start again, something close, a corner of the box or zero temperature."""
    seen = []
    scale = steps.setting_of(cfg)[4]
    what = dom.describe({k: v for k, v in cfg.items() if k != "answers"})

    def observe(index, problem):
        check(f"{what}: answers {seen}: solve {index}", problem, ch, singular_roots=bool(cfg.get("reg")) and index % 2 == 0 and set(seen[::2]) <= {"start"})

    def answer(index, problem):
        kind = ch.pick("answer", cfg["answers"] if index < cfg["free"] else ("close",))
        seen.append(kind)
        ch.transition()
        ch.state((what, tuple(seen)))
        n = len(problem.free)
        if kind == "start" or n == 0:
            return None
        if kind == "zero" and index % 2:
            return np.clip(np.zeros(n), problem.lower, problem.upper)
        spread = 0.05 * min(scale, 1.0) if index % 2 == 0 else 0.05
        if kind == "corner":
            return np.clip(problem.start + spread * np.sign(env.pattern(1, n, index)[0]), problem.lower, problem.upper)
        return np.clip(problem.start + spread * env.pattern(1, n, index)[0], problem.lower, problem.upper)

    sim = sims.build(cfg, env.Environment(answer, observe))
    while len(sim.steps) < cfg["steps"]:
        sim.run(1)
    ch.validated()


def settings(cfg, ch):
    """The first problems of a simulation for every choice of fixed sides."""
    what = dom.describe(cfg)

    def observe(index, problem):
        check(f"{what}: solve {index}", problem, ch, singular_roots=bool(cfg.get("reg")) and index == 0)
        ch.state((what, index))
        ch.transition()

    scale = steps.setting_of(cfg)[4]
    if cfg.get("only") == "mechanical":
        from tvemoves_rufbad.mechanical_step import MechanicalStepParams, mechanical_step

        domain, grid, refined, *_ = steps.setting_of(cfg)
        mechanical_step(env.Environment(None, observe).solver(), grid, MechanicalStepParams(0.4, 0.2, 3, cfg.get("reg")), refined, steps.traction).solve()
    else:
        more = {}
        if cfg.get("ambient"):  # the surroundings are as warm as the body
            more = dict(external_temperature=lambda t: cfg["theta0"])
        sims.build({k: v for k, v in cfg.items() if k != "ambient"}, env.Environment(lambda i, p: p.start + 0.05 * min(scale, 1) * env.pattern(1, len(p.free), i)[0] if p.free else None, observe), **more)
    ch.validated()


def parts():
    deep = 4 if THOROUGH else 3
    cfgs = []
    for kind, ops in (("mechanical", MECH), ("thermal", THERM)):
        base = [dict(nx=1, ny=1, fix=["left"], depth=deep, theta0=0.4), dict(nx=2, ny=1, fix=["upper"], depth=deep - 1, scale="1/3", theta0=0.0),
                dict(nx=1, ny=1, fix=["left"], depth=2, reg=0.3, factor=1), dict(nx=1, ny=1, fix=["lower", "right"], depth=1, reg=0.0, factor=2, scale="1/2")]
        for c in base:
            cfgs += split([dict(c, step=kind)], ops)
    A = ("start", "close", "corner", "zero")
    n = 4 if not THOROUGH else 6
    sim = [dict(nx=1, ny=1, fix=["left"], theta0=t, free=n, steps=4 if not THOROUGH else 5, answers=A) for t in (0.0, 0.4)]
    sim += [dict(nx=2, ny=1, fix=["right"], theta0=0.1, free=3, steps=3, answers=A, scale="1/2"),
            dict(nx=1, ny=1, fix=["left"], theta0=0.3, free=2 if not THOROUGH else 4, steps=3, reg=0.3, factor=1, answers=A[:2])]
    shapes = [(1, 1), (2, 1), (2, 2)] + ([(3, 2), (3, 3), (1, 4)] if THOROUGH else [(1, 3)])
    sets = [dict(nx=nx, ny=ny, fix=f, theta0=0.4, scale=s) for nx, ny in shapes for f in fix_subsets() for s in ("1", "1/3")]
    sets += [dict(nx=nx, ny=ny, fix=["left"], theta0=t, scale="1/2", ambient=True, **k) for nx, ny in ((1, 1), (2, 1)) for t in (0.0, 0.4) for k in ({}, dict(reg=0.3, factor=1)) if nx == 1 or not k]
    sets += [dict(nx=nx, ny=ny, fix=f, theta0=0.4, reg=r, factor=1, scale="1/2", only="mechanical") for nx, ny in shapes for f in fix_subsets()
             for r in ((0.3,) if not THOROUGH else (0.3, 0.0))]
    return [("sequences", sequences, cfgs), ("simulation", simulation, sim), ("settings", settings, sets)]
