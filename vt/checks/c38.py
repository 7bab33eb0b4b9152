"""C38: loads without meaning are rejected before they are solved with."""

import math

import numpy as np

from vt import dom, env, sims, steps
from vt.core import THOROUGH, Violation, require

LEVEL = "model_checking"
RULE = (
    "a state is one setting, one load without meaning (its kind, the step and the vertex at which it occurs), one way of splitting"
    " the steps into runs and what is done afterwards; construction or the run must fail with a ValueError, the solver must not be"
    " called for the solve of that load, the recorded steps must stay, and going on with a repaired load must give the healthy history"
)
ASSUMPTIONS = ["the kinds of meaningless loads are those listed in the parts (negative or undefined temperatures, undefined tractions)",
               "answers of the solver are a function of the problem it is given; relative tolerance 1e-7 for the values of steps"]

EXTERNAL = {"minus one": -1, "minus a half": -0.5, "just negative": -1e-6, "undefined": float("nan"), "numpy": np.float64(-2.0), "huge": -1e12}
TRACTION = {"first": lambda g: [float("nan"), g[1]], "second": lambda g: [g[0], float("nan")], "both": lambda g: [float("nan")] * 2}

_healthy = {}


def healthy(cfg, total):
    key = (repr(sorted((k, str(v)) for k, v in cfg.items())), total)
    if key not in _healthy:
        e = environment(cfg)
        sim = sims.build(cfg, e)
        if total > 1:
            sim.run(total - 1)
        _healthy[key] = sims.history(sim, cfg)
    return _healthy[key]


def environment(cfg):
    return env.Environment(sims.responsive(steps.setting_of(cfg)[4]), record=False)


def body(cfg, ch):
    base = {k: v for k, v in cfg.items() if k not in ("total", "step", "load")}
    total = cfg["total"]
    fps = cfg["fps"]
    _, grid, _, space, scale, _ = steps.setting_of(base)
    want = healthy(base, total)
    step, load = cfg["step"], cfg["load"]
    if load == "traction" and not grid.neumann_boundary.edges:
        return
    kind = ch.pick("kind", list(EXTERNAL if load == "external" else TRACTION))
    free = sorted({v for e in grid.neumann_boundary.edges for v in e})
    vertex = ch.pick("vertex", free) if load == "traction" else None
    split = ch.pick("split", ["one run", "single runs"])
    again = ch.pick("again", ["repaired", "still bad once"])
    time = (step - 1) / fps
    bad = [True]
    what = f"{dom.describe(base)}: {load} load {kind!r} in step {step}" + ("" if vertex is None else f" at vertex {vertex}") + f", {split}"

    def now(t):
        return bad[0] and abs(t - time) < 1e-9

    def external(t):
        return EXTERNAL[kind] if load == "external" and now(t) else steps.external(t)

    def traction(t, x, y):
        g = steps.traction(t, x, y)
        if load == "traction" and now(t) and np.abs(np.array([x, y]) - space.points[vertex]).max() < 1e-6 * scale:
            return TRACTION[kind](g)
        return g

    e = environment(base)
    # solves before that of the meaningless load
    before = 2 * (step - 1) + (load == "external")
    try:
        sim = sims.build(base, e, external_temperature=external, boundary_traction=traction)
    except ValueError:
        require(step == 1, f"{what}: already rejected at construction")
        require(e.calls <= before, f"{what}: the problem with this load was solved")
        bad[0] = False
        e = environment(base)
        sim = sims.build(base, e, external_temperature=external, boundary_traction=traction)
        before = 0
    else:
        if step == 1:
            raise Violation(f"{what}: accepted at construction")
        for attempt in range(2 if again == "still bad once" else 1):
            left = total + 1 - len(sim.steps)
            try:
                if split == "one run":
                    sim.run(left)
                else:
                    for _ in range(left):
                        sim.run(1)
            except ValueError:
                ch.transition()
            else:
                raise Violation(f"{what}: accepted")
            require(len(sim.steps) == step, f"{what}: {len(sim.steps)} recorded steps when it was rejected, {step} before")
            sims.same(sims.history(sim, base), want[:step], f"{what}: steps recorded before")
            # the mechanical solve of the step is repeated if the thermal one was rejected
            require(e.calls <= before + attempt * (load == "external"), f"{what}: the problem with this load was solved ({e.calls} solves)")
        bad[0] = False
    left = total + 1 - len(sim.steps)
    if left:
        sim.run(left)
    sims.same(sims.history(sim, base), want, f"{what}: after the load was repaired, compared with a healthy run")
    ch.state((what, again))
    ch.evals(len(want))
    ch.validated()


def parts():
    n = 3 if not THOROUGH else 5
    A = [dict(nx=1, ny=1, fix=f, theta0=0.4, fps=fps, total=n) for f in ([], ["left"], ["lower", "right"], ["left", "lower", "right", "upper"]) for fps in (1, 3)]
    A += [dict(nx=2, ny=1, fix=["left"], theta0=0.0, fps=2, total=2, scale="1/2"), dict(nx=1, ny=2, fix=["upper", "lower"], theta0=1.3, fps=0.5, total=2, scale="4")]
    A = [dict(c, step=k, load=l) for c in A for k in range(1, c["total"] + 1) for l in ("traction", "external")]
    return [("loads", body, A)]
