"""C27: a run that fails or is interrupted can be resumed without a trace."""

import os
import sys

from vt import dom, env, sims, steps
from vt.core import THOROUGH, Violation, require

LEVEL = "fault_enumeration"
RULE = (
    "a case is one placement of at most two faults (exception or interruption, with none, half or all of the unknowns already"
    " changed) at the calls of the solver and of the load functions during a run and its continuations; the history after every"
    " fault and at the end is compared with the undisturbed one; and one placement of an interruption before a line of the"
    " library that the run executes. Non-trivial: at least one fault happened"
)
ASSUMPTIONS = ["exceptions happen inside calls of the solver or of the load functions, interruptions there or before any line of the library",
               "answers of the solver are a function of the problem it is given (objective, start, bounds)",
               "steps are compared by their values at the vertices, relative tolerance 1e-7"]


class Failure(RuntimeError):
    pass


def exceptions(name):
    """What the solver or a load function may raise (pyomo raises ApplicationError if the solver fails)."""
    from pyomo.common.errors import ApplicationError

    return dict(Failure=Failure, ApplicationError=ApplicationError, ValueError=ValueError, TypeError=TypeError, KeyError=KeyError, ZeroDivisionError=ZeroDivisionError,
                OverflowError=OverflowError, OSError=OSError, MemoryError=MemoryError, SystemExit=SystemExit)[name]


SOLVER = [("none",), ("exception", 0.0), ("exception", 0.5), ("interrupt", 1.0)]
SOLVER_FEW = [("none",), ("exception", 0.5), ("interrupt", 1.0)]
CALLBACK = [("none",), ("exception",)]
CALLBACK_MORE = [("none",), ("exception",), ("interrupt",)]

_undisturbed = {}


def body(cfg, ch):
    base = {k: v for k, v in cfg.items() if k not in ("steps", "faults", "kinds", "chunk", "first", "raises")}
    failure = exceptions(cfg.get("raises", "Failure"))
    scale = steps.setting_of(base)[4]
    what0 = dom.describe(cfg)
    answer = sims.responsive(scale)
    total = cfg["steps"]
    key = (repr(base), total)
    if key not in _undisturbed:
        sim = sims.build(base, env.Environment(answer, record=False))
        sim.run(total)
        _undisturbed[key] = sims.history(sim, base)
    want = _undisturbed[key]

    armed = [False]
    budget = [cfg["faults"]]
    calls = [0]
    recorded = [0]  # number of steps recorded when the last fault happened
    log = []
    lo, hi = cfg.get("first", (0, 10**9))  # calls at which the first fault may happen

    def decide(kind, menu):
        calls[0] += 1
        if not armed[0] or budget[0] == 0:
            return ("none",)
        if budget[0] == cfg["faults"] and not lo <= calls[0] < hi:
            return ("none",)
        f = ch.pick(kind, menu)
        if f[0] != "none":
            budget[0] -= 1
            log.append((kind, calls[0]) + tuple(f))
            recorded[0] = len(sim.steps)
        return f

    def raise_(f):
        if f[0] == "exception":
            raise failure("injected")
        if f[0] == "interrupt":
            raise KeyboardInterrupt

    def solver(index, problem):
        f = decide("solver", SOLVER if cfg["kinds"] == "all" else SOLVER_FEW)
        if f[0] != "none":
            return env.Fault(failure("injected") if f[0] == "exception" else KeyboardInterrupt(), f[1])
        return answer(index, problem)

    callbacks = CALLBACK_MORE if cfg["kinds"] == "all" else CALLBACK

    def traction(t, x, y):
        raise_(decide("boundary traction", callbacks))
        return steps.traction(t, x, y)

    def external(t):
        raise_(decide("external temperature", callbacks))
        return steps.external(t)

    sim = sims.build(base, env.Environment(solver, record=False), boundary_traction=traction, external_temperature=external)
    require(len(sim.steps) == 2, f"{what0}: {len(sim.steps)} recorded steps after construction")
    armed[0] = True
    calls[0] = 0
    while len(sim.steps) < 2 + total:
        before = len(sim.steps)
        try:
            sim.run(min(cfg["chunk"], 2 + total - before) if cfg.get("chunk") else 2 + total - before)
        except failure as e:
            failed = "Failure" if "injected" in str(e) else repr(e)
        except KeyboardInterrupt:
            failed = "KeyboardInterrupt"
        else:
            failed = None
        now = len(sim.steps)
        what = f"{what0}: faults {log}"
        if failed is None:
            require(now > before, f"{what}: a run without failure recorded nothing")
            wanted = min(cfg["chunk"], 2 + total - before) if cfg.get("chunk") else 2 + total - before
            require(now - before == wanted, f"{what}: a run of {wanted} steps ended without failure after {now - before}")
        else:
            want_kind = {"exception": "Failure", "interrupt": "KeyboardInterrupt"}[next(f for f in log[-1][2:] if isinstance(f, str))]
            require(failed == want_kind, f"{what}: the run raised {failed}")
            require(
                before <= recorded[0] <= now <= 2 + total,
                f"{what}: {now} recorded steps, {recorded[0]} at the failure, {before} before the failed run",
            )
            sims.same(sims.history(sim, base), want[:now], f"{what}: history after the failure")
            ch.evals()
        ch.state((what0, tuple(log), now))
        ch.transition()
        if len(log) > cfg["faults"] or before == now and failed is None:
            raise Violation(f"{what}: no progress")
    sims.same(sims.history(sim, base), want, f"{what0}: faults {log}: final history")
    if log:
        ch.case((what0, tuple(log)))
        ch.count(f"executions with {len(log)} faults")
    else:
        ch.evals()
    ch.outcome((len(log), len(sim.steps)))
    ch.validated()


# -- interruptions anywhere -------------------------------------------------------------------------------


class Interrupter:
    """Counts the lines of the library that are executed (in the chosen modules) and interrupts before one of them."""

    def __init__(self, at, modules, sim=None):
        import tvemoves_rufbad

        root = os.path.dirname(os.path.abspath(tvemoves_rufbad.__file__))
        self.files = {os.path.join(root, m) for m in modules} if modules else None
        self.root = root + os.sep
        self.at, self.count, self.where, self.lines = at, 0, None, []
        self.sim, self.recorded = sim, 0

    def _wanted(self, name):
        return name in self.files if self.files else name.startswith(self.root)

    def _global(self, frame, event, arg):
        return self._local if self._wanted(frame.f_code.co_filename) else None

    def _local(self, frame, event, arg):
        if event == "line":
            k = self.count
            self.count += 1
            self.lines.append((os.path.basename(frame.f_code.co_filename), frame.f_lineno))
            if k == self.at:
                self.where = self.lines[-1]
                self.recorded = len(self.sim.steps)
                raise KeyboardInterrupt
        return self._local

    def __enter__(self):
        sys.settrace(self._global)
        return self

    def __exit__(self, *args):
        sys.settrace(None)
        return False


_lines = {}


def anywhere(cfg, ch):
    """An interruption before any one line executed during a run (Ctrl-C); the run is then continued."""
    base = {k: v for k, v in cfg.items() if k not in ("steps", "before", "modules", "only", "part", "of")}
    answer = sims.responsive(steps.setting_of(base)[4])
    before, total = cfg["before"], cfg["steps"]

    def fresh():
        sim = sims.build(base, env.Environment(answer, record=False))
        if before:
            sim.run(before)
        return sim

    key = (repr(base), before, total, repr(cfg["modules"]))
    if key not in _lines:
        sim = fresh()
        with Interrupter(-1, cfg["modules"]) as t:
            sim.run(total)
        _lines[key] = t.lines, sims.history(sim, base)
    lines, want = _lines[key]
    if cfg["only"] == "all":
        points = list(range(len(lines)))
    else:  # first and last time that a line is executed
        points = sorted({lines.index(x) for x in set(lines)} | {len(lines) - 1 - lines[::-1].index(x) for x in set(lines)})
    points = points[cfg["part"] :: cfg["of"]]
    if not points:
        return
    at = ch.pick("interruption before line event", points)
    sim = fresh()
    recorded = len(sim.steps)
    t = Interrupter(at, cfg["modules"], sim)
    try:
        with t:
            sim.run(total)
    except KeyboardInterrupt:
        pass
    else:
        require(t.where is None, f"{dom.describe(cfg)}: the interruption before {t.where} was swallowed")
    what = f"{dom.describe(cfg)}: interrupted before line event {at} of {len(lines)} ({t.where})"
    now = len(sim.steps)
    require(
        max(recorded, t.recorded) <= now <= recorded + total,
        f"{what}: {now} recorded steps after {recorded} before a run of {total}, {t.recorded} at the interruption",
    )
    sims.same(sims.history(sim, base), want[:now], f"{what}: history after the interruption")
    if now < recorded + total:
        sim.run(recorded + total - now)
    sims.same(sims.history(sim, base), want, f"{what}: final history")
    sim.run(1)
    require(len(sim.steps) == len(want) + 1, f"{what}: {len(sim.steps)} steps in the end")
    if t.where is not None:
        ch.case((dom.describe(base), before, total, at))
    ch.state((dom.describe(base), before, total, at, now))
    ch.transition()
    ch.outcome(now - recorded)
    ch.validated()


def parts():
    out = []

    def add(c, steps, faults, kinds, points, width, chunk=None):
        for a in range(0, points, width):
            out.append(dict(c, steps=steps, faults=faults, kinds=kinds, chunk=chunk, first=[a + 1, a + width + 1 if a + width < points else 10**9]))

    left = dict(nx=1, ny=1, fix=["left"], theta0=0.4, fps=3)
    add(left, 3, 1, "all", 20, 5)
    add(left, 3, 1, "all", 20, 5, chunk=1)
    add(left, 2, 2, "few", 14, 1)
    add(left, 6, 1, "all", 42, 14)
    add(left, 3, 2, "few", 20, 1, chunk=1) if THOROUGH else add(left, 2, 2, "few", 14, 1, chunk=1)
    add(dict(nx=2, ny=1, fix=[], theta0=0.2, fps=0.5, scale="1/2"), 2, 1, "all", 16, 8)
    add(dict(nx=1, ny=1, fix=["lower", "right"], theta0=0.0, fps=10), 2, 1, "all", 12, 6)
    for name in ("ApplicationError", "ValueError", "TypeError", "KeyError", "ZeroDivisionError", "OverflowError", "OSError", "MemoryError", "SystemExit"):
        add(dict(left, raises=name), 2, 1, "few", 16, 16)
    reg = dict(nx=1, ny=1, fix=["left"], theta0=0.4, fps=3, reg=0.3, factor=1)
    add(reg, 2, 1, "few", 4, 1)
    if THOROUGH:
        add(left, 4, 2, "all", 28, 1)
        add(left, 2, 3, "few", 14, 1)
        add(reg, 2, 2, "all", 4, 1)
    lines = []

    def add_lines(c, before, steps, only, modules, n):
        lines.extend(dict(c, before=before, steps=steps, only=only, modules=modules, part=k, of=n) for k in range(n))

    scheme = ["simulation.py", "mechanical_step.py", "thermal_step.py"]
    add_lines(left, 0, 1, "all", None, 8)
    add_lines(left, 1, 2, "all" if THOROUGH else "some", None, 8)
    add_lines(dict(nx=2, ny=1, fix=[], theta0=0.2, fps=0.5, scale="1/2"), 0, 1, "all" if THOROUGH else "some", None, 8)
    add_lines(reg, 0, 1, "all" if THOROUGH else "some", scheme, 16)
    if THOROUGH:
        add_lines(reg, 1, 2, "some", None, 32)
    return [("faults", body, out), ("interruptions anywhere", anywhere, lines)]
