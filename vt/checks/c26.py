"""C26: the history only grows, by the requested number of steps."""

import contextlib
import io
import os
import tempfile

import numpy as np

from vt import dom, env, sims, steps
from vt.core import THOROUGH, raises, require

LEVEL = "model_checking"
RULE = (
    "a state is the history after a sequence of runs, rejected runs and reading operations; after every operation the history is"
    " compared with the one before and with the history of an undivided run (whose solver answers depend on the whole problem)"
)
ASSUMPTIONS = ["sequences of operations from a finite alphabet up to the stated depth; answers of the solver are a function of the problem it is given",
               "steps are compared by their values at the vertices, relative tolerance 1e-7"]

RUNS = [("run", 1), ("run", 2), ("run", 3)]
REJECTED = [("run", 0), ("run", -1), ("run", -3)]
READ = [("plot", 0), ("plot", -1), ("plot", 99), ("evaluate",), ("print",), ("max_temp",), ("data",), ("draw",)]
SAVE = [("save", -1), ("save", -99)]


def read(sim, op, cfg, folder):
    from matplotlib import pyplot as plt

    _, grid, _, space, scale, shape = steps.setting_of(cfg)
    if op[0] == "plot":
        sim.plot_step(op[1])
    elif op[0] == "save":
        sim.save_step(op[1], os.path.join(folder, "step"))
    elif op[0] == "evaluate":
        for s in sim.steps:
            for x, y in ((0.3 * scale, 0.2 * scale), (0.9 * scale, 0.95 * scale), (0.0, 0.0)):
                s.y(x, y), s.theta(x, y), s.y.strain(x, y), s.theta.gradient(x, y), s.y[0](x, y)
    elif op[0] == "print":
        for s in sim.steps:
            repr(s), str(s)
    elif op[0] == "max_temp":
        require(abs(sim.max_temp() - max(sims.data(s, cfg)[1].max() for s in sim.steps)) < 1e-9 * (1 + sim.max_temp()),
                f"{dom.describe(cfg)}: max_temp() is {sim.max_temp()}")
        sim.params.mechanical_step_params(), sim.params.thermal_step_params()
    elif op[0] == "data":
        for s in sim.steps:
            list(sims.data(s, cfg))
    elif op[0] == "draw":
        _, ax = plt.subplots()
        for s in sim.steps:
            s.plot(ax, 1.0)
    plt.close("all")


def snapshot(sim):
    """The arrays the recorded steps hand out, copied."""
    return [[np.array(a, float) for a in s.data()] for s in sim.steps if hasattr(s, "data")]


_whole = {}

def steady(scale):
    """Answers that depend on the whole problem but stay near the first one for ever."""
    f = sims.responsive(scale)
    base = {}

    def answer(index, problem):
        x0 = base.setdefault(index % 2, problem.start.copy())
        return np.clip(x0 + (f(index, problem) - problem.start), problem.lower, problem.upper)

    return answer


ANSWERS = {
    "steady": steady,
    "responsive": lambda scale: sims.responsive(scale),
    "idle": lambda scale: None,  # the solver answers the start: nothing ever changes
    "sometimes idle": lambda scale: (lambda index, problem, f=sims.responsive(scale): f(index, problem) if index % 6 < 2 else problem.start),
    "only deformation": lambda scale: (lambda index, problem, f=sims.responsive(scale): f(index, problem) if index % 2 == 0 else problem.start),
    "only temperature": lambda scale: (lambda index, problem, f=sims.responsive(scale): f(index, problem) if index % 2 else problem.start),
}


def environment(cfg):
    return env.Environment(ANSWERS[cfg.get("answers", "responsive")](steps.setting_of(cfg)[4]), record=False)


def whole(cfg, n):
    """The history of one run of n steps after construction."""
    key = (repr(cfg), n)
    if key not in _whole:
        sim = sims.build(cfg, environment(cfg))
        if n:
            sim.run(n)
        _whole[key] = sims.history(sim, cfg)
    return _whole[key]


def body(cfg, ch):
    base = {k: v for k, v in cfg.items() if k not in ("ops", "depth", "first", "longest")}
    ops = [tuple(o) for o in cfg["ops"]]
    e = environment(base)
    sim = sims.build(base, e)
    steps_list = sim.steps
    done = []
    total = 0
    before = sims.history(sim, base)
    arrays = snapshot(sim)
    want = whole(base, cfg["longest"])
    require(len(before) == 2, f"{dom.describe(base)}: {len(before)} recorded steps after construction")
    with tempfile.TemporaryDirectory() as folder, contextlib.redirect_stdout(io.StringIO()):
        for k in range(cfg["depth"]):
            op = tuple(cfg["first"]) if k == 0 and "first" in cfg else ch.pick("op", [o for o in ops if o[0] != "run" or total + o[1] <= cfg["longest"]])
            done.append(op)
            ch.transition()
            what = f"{dom.describe(base)}: after {done}"
            calls = e.calls
            objects = list(sim.steps)
            if op[0] == "run" and op[1] > 0:
                if op[1] == 1 and k % 2 == 0:  # one step unless told otherwise
                    sim.run()
                else:
                    sim.run(np.int64(op[1]) if k % 2 else op[1])  # a number from an array is a number
                total += op[1]
                require(len(sim.steps) == len(objects) + op[1], f"{what}: {len(sim.steps)} recorded steps, {len(objects)} before")
            elif op[0] == "run":
                raises(ValueError, lambda: sim.run(op[1]), what)
            else:
                read(sim, op, base, folder)
            if not (op[0] == "run" and op[1] > 0):
                require(e.calls == calls and len(sim.steps) == len(objects), f"{what}: the operation solved or recorded something")
            now = sims.history(sim, base)
            sims.same(now[: len(before)], before, f"{what}: steps recorded earlier", tol=1e-12)
            before = now
            new = snapshot(sim)
            for n, (a, b) in enumerate(zip(arrays, new)):
                require(all(u.shape == v.shape and np.allclose(u, v, rtol=1e-12, atol=1e-12) for u, v in zip(a, b)),
                        f"{what}: the data of step {n}, recorded earlier, became {[x.tolist() for x in b]}, was {[x.tolist() for x in a]}")
            arrays = new
            ch.state((dom.describe(base), [o for o in done]))
            ch.evals()
    sims.same(before, want[: 2 + total], f"{dom.describe(base)}: after {done}, compared with one run")
    if total < cfg["longest"]:  # and the future is what it would have been
        sim.run(cfg["longest"] - total)
        sims.same(sims.history(sim, base), want, f"{dom.describe(base)}: after {done} and {cfg['longest'] - total} more steps, compared with one run")
    ch.outcome((total, repr(before[-1][1].round(6).tolist())))
    ch.validated()


def long(cfg, ch):
    """A long history, split in several ways."""
    base = {k: v for k, v in cfg.items() if k != "runs"}
    total = sum(cfg["runs"][0])
    want = whole(base, total)
    for runs in cfg["runs"]:
        sim = sims.build(base, environment(base))
        what = f"{dom.describe(base)}: runs {runs if len(runs) < 9 else str(runs[:4]) + ' ...'}"
        for k, n in enumerate(runs):
            before = len(sim.steps)
            if k % 3 == 2:
                sim.run(num_steps=n)
            else:
                sim.run(n)
            require(len(sim.steps) == before + n, f"{what}: run {k} of {n} steps appends {len(sim.steps) - before}")
            ch.state((dom.describe(base), runs, k))
            ch.transition()
        now = sims.history(sim, base)
        sims.same(now, want, what)
        hottest = max(t.max() for _, t in now)
        require(abs(sim.max_temp() - hottest) < 1e-9 * (1 + hottest), f"{what}: max_temp() is {sim.max_temp()}, not {hottest}")
        ch.evals(len(now))
    ch.validated()


def parts():
    out = []
    for c, ops, depth, longest in (
        (dict(nx=1, ny=1, fix=["left"], theta0=0.4, fps=3), RUNS + REJECTED, 4, 5),
        (dict(nx=1, ny=1, fix=["left"], theta0=0.4, fps=3), RUNS[:2] + REJECTED[:1] + READ, 3, 3),
        *((dict(nx=1, ny=1, fix=["left"], theta0=0.4, fps=3, answers=a), RUNS[:2] + REJECTED[:1] + [("max_temp",)], 3, 4) for a in ANSWERS if a not in ("responsive", "steady")),
        (dict(nx=1, ny=1, fix=["left"], theta0=0.4, fps=3, answers="idle", reg=0.3, factor=1), RUNS[:2], 2, 4),
        (dict(nx=2, ny=1, fix=[], theta0=0.0, fps=0.5, scale="1/2"), RUNS[:2] + REJECTED[:1] + READ, 2, 3),
        (dict(nx=1, ny=1, fix=["upper"], theta0=0.4, fps=2), [RUNS[0]] + SAVE, 2, 2),
        *((dict(nx=1, ny=1, fix=["left"], theta0=0.4, fps=f), RUNS[:2], 2, 3) for f in (0.3, 1, 7, 10, 24, 60)),
        (dict(nx=1, ny=1, fix=["left"], theta0=0.4, fps=3, reg=0.3, factor=1), RUNS[:2] + REJECTED[:1], 2, 2),
        (dict(nx=1, ny=1, fix=["left"], theta0=0.4, fps=3, reg=0.3, factor=1), [RUNS[0]] + READ[:2] + READ[3:6] + READ[7:], 1, 1),
    ):
        if "answers" in c and THOROUGH:
            depth = 4
        elif THOROUGH:
            depth, longest = depth + 1, longest + 2
        out += [dict(c, ops=[list(o) for o in ops], depth=depth, longest=longest, first=list(o)) for o in ops]
    many = [dict(nx=1, ny=1, fix=["left"], theta0=0.4, fps=3, answers="steady", runs=[[n], [1] * n, [n // 2, n - n // 2], [n - 1, 1]]) for n in (12, 55, 120) + ((1200,) if THOROUGH else ())]
    many += [dict(nx=1, ny=1, fix=["left"], theta0=0.4, fps=3, answers="steady", runs=[[270], r]) for r in ([135, 135], [269, 1], [1] * 270)]
    many += [dict(nx=2, ny=1, fix=[], theta0=0.1, fps=24, scale="1/2", answers="steady", runs=[[60], [20] * 3]), dict(nx=1, ny=1, fix=["left"], theta0=0.4, fps=3, reg=0.3, factor=1, answers="steady", runs=[[9], [4, 5]])]
    return [("operations", body, out), ("long", long, many)]
