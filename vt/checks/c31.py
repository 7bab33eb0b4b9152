"""C31: recorded temperatures are never negative and runs survive solver rounding."""

import numpy as np

from vt import dom, env, sims, steps
from vt.core import THOROUGH, Violation, require

LEVEL = "model_checking"
RULE = (
    "a state is the history after a sequence of answers that violate the bounds by at most the solver's relaxation; the explorer"
    " decides for every step which of the temperatures are slightly negative (every subset) and how the other unknowns leave"
    " their search boxes; after every step the recorded temperatures are compared with the answer"
)
ASSUMPTIONS = ["bounds are relaxed by 1e-8 max(1, |bound|), the solver's default", "temperatures that are not slightly negative follow a fixed pattern inside the search box"]

RELAX = 1e-8
NEGATIVE = {
    "largest": lambda k: -RELAX,
    "graded": lambda k: -1e-9 * (1 + k % 10 / 10),
    "tiny": lambda k: -(10.0 ** -(20 + 40 * (k % 8))),
    "signed zero": lambda k: -0.0,
    "mixed": lambda k: (-RELAX, -1e-12, -0.0, 0.0, -5e-324, -3e-9)[k % 6],
}


class Answers:
    def __init__(self, what, kind, outside, subset):
        self.what, self.kind, self.outside, self.subset = what, kind, outside, subset
        self.last = None

    def __call__(self, index, problem):
        n = len(problem.free)
        v = problem.objective(problem.start[None, :])[0] if n else 0.0
        require(np.isfinite(v), f"{self.what()}: the problem of call {index} of the solver has the value {v} where it starts")
        slack = lambda b: RELAX * np.maximum(1, np.abs(np.where(np.isfinite(b), b, 0)))
        if index % 2 == 0:  # mechanical
            p = env.pattern(1, n, 17 + index)[0]
            low, high = problem.lower - slack(problem.lower), problem.upper + slack(problem.upper)
            if index % 4:  # back and forth, so that the deformation stays orientation preserving
                low, high = high, low
            if self.outside == "below":
                x = low
            elif self.outside == "above":
                x = high
            elif self.outside == "alternating":
                x = np.where(np.arange(n) % 2, low, high)
            else:
                x = problem.start + 0.3 * p * (problem.upper - problem.start)
            return np.where(np.isfinite(x), x, problem.start)
        p = env.pattern(1, n, 71 + index)[0]
        top = np.minimum(problem.upper, problem.start + 0.4)
        bottom = np.maximum(problem.lower, 0)
        x = bottom + (0.5 + 0.4 * p) * (top - bottom)
        if self.outside in ("above", "alternating"):
            sel = np.arange(n) % 3 == 0
            x[sel] = (problem.upper + slack(problem.upper))[sel]
        for k in range(n):
            if self.subset() >> k & 1:
                if problem.lower[k] > 0:
                    x[k] = problem.lower[k] - RELAX
                else:
                    x[k] = NEGATIVE[self.kind](k)
        self.last = x.copy()
        return x


def body(cfg, ch):
    base = {k: v for k, v in cfg.items() if k not in ("steps", "negative", "outside", "first", "choices")}
    _, grid, refined, _, _, _ = steps.setting_of(base)
    n = len((refined or grid).vertices)
    done = [cfg["first"]]
    what = lambda: f"{dom.describe(cfg)}: slightly negative vertices {[sorted(k for k in range(n) if s >> k & 1) for s in done]}"
    answers = Answers(what, cfg["negative"], cfg["outside"], lambda: done[-1])

    def check(sim, count):
        w = what()
        require(len(sim.steps) == count, f"{w}: {len(sim.steps)} recorded steps instead of {count}")
        theta = np.asarray(sim.steps[-1].data()[1], float)
        require(theta.shape == (n,), f"{w}: temperatures of the shape {theta.shape}")
        require(not np.isnan(theta).any() and (theta >= 0).all(), f"{w}: the temperature {theta.min()!r} is recorded")
        want = np.sort(answers.last)
        d = np.abs(np.sort(theta) - want)
        require(len(want) == n and d.max() <= 1.001 * RELAX, f"{w}: recorded temperatures {np.sort(theta).tolist()} for the answers {want.tolist()}")
        read = [sim.steps[-1].theta(*p) for p in (refined or grid).points]
        require(min(read) >= -1e-12 * (1 + theta.max()), f"{w}: the step has the temperature {min(read)!r}")
        require(max(abs(a - b) for a, b in zip(sorted(read), want)) <= 1.01 * RELAX + 1e-9 * theta.max(), f"{w}: temperatures read back {sorted(read)} for the answers {want.tolist()}")
        ch.evals()
        ch.state((w,))
        ch.transition()

    sim = sims.build(base, env.Environment(answers, record=False))
    require((np.asarray(sim.steps[0].data()[1]) >= 0).all(), f"{what()}: negative initial temperatures")
    check(sim, 2)
    everything = range(2**n)
    few = [0, 2**n - 1, 0x55555555 & (2**n - 1), 1, 2 ** (n - 1)]
    for k in range(cfg["steps"]):
        done.append(ch.pick("negative vertices", {"all": everything, "few": few, "same": [done[-1]], "alternate": [2**n - 1 - done[-1]]}[cfg["choices"]]))
        sim.run(1)
        check(sim, 3 + k)
    ch.outcome(sim.steps[-1].data()[1].round(6).tolist())
    ch.validated()


def parts():
    left = dict(nx=1, ny=1, fix=["left"], theta0=0.4, fps=3, scale="1")
    cold = dict(nx=1, ny=1, fix=["left"], theta0=0.0, fps=2, scale="1", radius=0.3)
    wide = dict(nx=2, ny=1, fix=[], theta0=0.1, fps=1, scale="1/2")
    hot = dict(nx=1, ny=1, fix=["upper"], theta0=0.5, fps=4, scale="1", radius=0.2)  # the search box is above zero first
    cube = dict(nx=2, ny=2, fix=["lower"], theta0=0.1, fps=1, scale="1/2")
    reg = dict(nx=1, ny=1, fix=["left"], theta0=0.1, fps=3, scale="1", reg=0.3, factor=1)
    reg0 = dict(nx=1, ny=1, fix=[], theta0=0.0, fps=3, scale="1", reg=0.0, factor=1)
    reg2 = dict(nx=1, ny=1, fix=["left"], theta0=0.1, fps=3, scale="1", reg=0.3, factor=2)
    out = []

    def add(c, n, first, steps, choices, negative, outside):
        firsts = range(2**n) if first is None else first
        out.extend(dict(c, first=f, steps=steps, choices=choices, negative=negative, outside=outside) for f in firsts)

    for negative in NEGATIVE:
        add(left, 4, None, 1, "all" if negative in ("largest", "mixed") or THOROUGH else "few", negative, "inside")
        add(cold, 4, None, 1, "all" if negative == "graded" or THOROUGH else "few", negative, "inside")
    for outside in ("below", "above", "alternating"):
        add(left, 4, None, 1, "few" if not THOROUGH else "all", "graded", outside)
        add(cold, 4, None, 1, "few" if not THOROUGH else "all", "graded", outside)
    add(hot, 4, None, 2, "few", "largest", "inside")
    add(hot, 4, None, 2, "few", "graded", "alternating")
    add(wide, 6, None, 1, "few", "mixed", "above")
    add(wide, 6, None, 2, "alternate", "largest", "inside")
    add(cube, 9, [0, 511, 0b101010101, 0b000010000], 3 if THOROUGH else 2, "few", "graded", "below")
    add(left, 4, None, 6, "same", "largest", "below")
    add(left, 4, None, 6, "alternate", "mixed", "alternating")
    add(reg, 4, None, 1, "alternate", "largest", "inside")
    add(reg, 4, [0b1111, 0b0110], 1, "few", "mixed", "alternating")
    add(reg0, 4, [0b1111, 0b0011, 0b1000], 1, "same", "graded", "below")
    add(reg2, 9, [511, 0b101010101, 0b000010000], 1, "same", "largest", "above")
    if THOROUGH:
        for outside in ("inside", "below", "above", "alternating"):
            add(left, 4, None, 2, "all", "largest", outside)
        add(wide, 6, None, 1, "all", "largest", "inside")
        add(cube, 9, None, 1, "few", "mixed", "inside")
        add(reg, 4, None, 1, "all", "largest", "inside")
        add(reg0, 4, None, 2, "few", "mixed", "alternating")
        add(reg2, 9, None, 1, "alternate", "graded", "inside")
    return [("answers", body, out)]
