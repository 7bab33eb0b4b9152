"""C30: plots show the recorded steps in a common window and save under their index."""

import contextlib
import os
import tempfile

import numpy as np

from vt import dom, env, sims, steps
from vt.core import THOROUGH, Violation, close, require

LEVEL = "model_checking"
RULE = (
    "a state is the history after a sequence of answers of the solver (deformations that move the window's sides in different"
    " steps, temperatures that rise and fall), a transition one step or one plot or save; at every state every step index"
    " between one below and one above the history is plotted and the figure is compared with triangles, temperatures, window"
    " and colour scale computed from the recorded steps"
)
ASSUMPTIONS = ["answers of the solver from a finite alphabet up to the stated number of steps",
               "the figure is inspected through matplotlib's artists; files are written into a scratch folder",
               "in the regularised setting any uniform subdivision of the refined triangles is accepted"]

MECHANICAL = {"grow": 0.15, "shrink": -0.15, "generic": None}
ANSWERS = [("grow", "hot"), ("shrink", "cold"), ("generic", "generic"), ("shrink", "hot"), ("generic", "zero")]


class Answers:
    """Answers by name; the mechanical and the thermal problem take turns."""

    def __init__(self, scale):
        self.scale, self.names = scale, None

    def __call__(self, index, problem):
        n = len(problem.free)
        if n == 0:
            return problem.start
        if index % 2 == 0:
            d = MECHANICAL[self.names[0]]
            p = env.pattern(1, n, 11 + index)[0]
            x = problem.start + 0.2 * self.scale * p if d is None else problem.start * (1 + d) + d * self.scale * (0.5 + 0.1 * p)
            return np.clip(x, problem.lower, problem.upper)
        p = env.pattern(1, n, 31 + index)[0]
        x = {"hot": problem.start + 0.3 + 0.1 * p, "cold": 0.3 * problem.start, "generic": 0.5 + 0.4 * p, "zero": 0 * p}[self.names[1]]
        return np.clip(x, np.maximum(problem.lower, 0), problem.upper)


class Model:
    """What every recorded step should look like, computed when it is recorded."""

    def __init__(self, cfg):
        self.cfg = cfg
        self.domain, self.grid, self.refined, self.space, self.scale, self.shape = steps.setting_of(cfg)
        self.steps = []
        self.hottest = 0.0
        self.low, self.high = np.full(2, np.inf), np.full(2, -np.inf)
        self._plotting = {}

    def record(self, step):
        vertices = np.array([[step.y(*p)[0], step.y(*p)[1]] for p in self.grid.points])
        theta = [step.theta(*p) for p in (self.refined or self.grid).points]
        self.hottest = max(self.hottest, max(theta))
        self.low, self.high = np.minimum(self.low, vertices.min(axis=0)), np.maximum(self.high, vertices.max(axis=0))
        self.steps.append((step, {}))

    def grid_for(self, n):
        """The subdivision of the grid of the temperatures into n triangles."""
        grid = self.refined or self.grid
        m = round((n / len(grid.triangles)) ** 0.5)
        if len(grid.triangles) * m * m != n or m < 1 or (self.refined is None and m != 1):
            raise Violation(f"{len(grid.triangles)} triangles of the grid are drawn as {n} triangles")
        if m not in self._plotting:
            self._plotting[m] = grid if m == 1 else self.domain.refine(grid, m)
        return m, self._plotting[m]

    def drawn(self, k, n):
        """Deformed triangles (n, 3, 2) of step k and their temperatures."""
        m, grid = self.grid_for(n)
        step, cache = self.steps[k]
        if m not in cache:
            y = np.array([[step.y(*p)[0], step.y(*p)[1]] for p in grid.points])
            theta = np.array([step.theta(*p) for p in grid.points])
            t = np.array(grid.triangles)
            cache[m] = y[t], theta[t]
        return cache[m]


def coloured(ax):
    found = [c for c in ax.collections if c.get_array() is not None]
    if len(found) != 1:
        raise Violation(f"{len(found)} coloured collections on the axis")
    return found[0]


def check_axes(model, k, ax, what, hottest=None, window=True):
    try:
        _check_axes(model, k, ax, model.hottest if hottest is None else hottest, window)
    except Violation as e:
        raise Violation(f"{what}: {e}")


def _check_axes(model, k, ax, hottest, window):
    c = coloured(ax)
    values = np.ma.filled(np.ma.asarray(c.get_array(), float), np.nan).reshape(-1)
    size = 1 + np.abs(model.low).max() + np.abs(model.high).max()
    if hasattr(c, "_triangulation"):  # smooth shading: a value at every corner
        t = c._triangulation
        corners = t.get_masked_triangles()
        polygons = np.stack([t.x[corners], t.y[corners]], axis=-1)
        per_corner = values[corners]
    else:
        polygons = []
        for p in c.get_paths():
            v = p.vertices
            if len(v) == 4 and np.array_equal(v[0], v[3]):
                v = v[:3]
            if len(v) != 3:
                raise Violation(f"a polygon with {len(v)} corners is drawn")
            polygons.append(v)
        polygons = np.array(polygons)
        per_corner = None
    if len(polygons) == 0:
        raise Violation("no triangles are drawn")
    want, theta = model.drawn(k, len(polygons))
    # match by the corners
    a, b = polygons.mean(axis=1), want.mean(axis=1)
    partner = np.abs(a[:, None, :] - b[None, :, :]).max(axis=2).argmin(axis=1)
    taken = set()
    for i, j in enumerate(partner):
        d = np.abs(polygons[i][:, None, :] - want[j][None, :, :]).max(axis=2)
        if not (d.min(axis=1).max() <= 1e-9 * size and d.min(axis=0).max() <= 1e-9 * size):
            raise Violation(f"a triangle is drawn at {polygons[i].tolist()}, the closest deformed triangle is {want[j].tolist()}")
        if j in taken:
            raise Violation(f"the deformed triangle {want[j].tolist()} is drawn more than once")
        taken.add(int(j))
        if per_corner is None:
            if len(values) != len(polygons):
                raise Violation(f"{len(values)} colours for {len(polygons)} triangles")
            close(values[i], theta[j].mean(), 1e-9 * (1 + hottest), f"temperature of the triangle {want[j].tolist()}")
        else:
            for q in range(3):
                close(per_corner[i, q], theta[j][d[q].argmin()], 1e-9 * (1 + hottest), f"temperature at {polygons[i][q].tolist()}")
    low, high = c.norm.vmin, c.norm.vmax
    if low is None or high is None:
        raise Violation("the colour scale is left open")
    close(low, 0.0, 1e-12, "lower end of the colour scale")
    close(high, hottest, 1e-9 * (1 + hottest), "upper end of the colour scale")
    if window:
        for name, lim, d in (("horizontal", ax.get_xlim(), 0), ("vertical", ax.get_ylim(), 1)):
            close(lim[0], model.low[d], 1e-9 * size, f"{name} window, lower end")
            close(lim[1], model.high[d], 1e-9 * size, f"{name} window, upper end")


def plots(sim, model, ch, what, indices=None):
    """Plot every index and compare."""
    from matplotlib import pyplot as plt

    n = len(model.steps)
    for i in indices or range(-n - 2, n + 2):
        plt.close("all")
        sim.plot_step(i)
        w = f"{what}: plot_step({i}) with {n} steps"
        ch.transition()
        if not -n <= i < n:
            require(not plt.get_fignums(), f"{w}: a figure was made")
            continue
        figures = plt.get_fignums()
        require(len(figures) == 1, f"{w}: {len(figures)} figures")
        axes = plt.figure(figures[0]).axes
        require(len(axes) == 1, f"{w}: {len(axes)} axes")
        check_axes(model, i % n, axes[0], w)
        ch.evals()
    plt.close("all")


def body(cfg, ch):
    base = {k: v for k, v in cfg.items() if k not in ("steps", "alphabet", "first")}
    model = Model(base)
    answers = Answers(model.scale)
    menu = ANSWERS[: cfg["alphabet"]]
    answers.names = tuple(cfg["first"])
    sim = sims.build(base, env.Environment(answers, record=False))
    done = [answers.names]
    for s in sim.steps:
        model.record(s)
    for k in range(cfg["steps"] + 1):
        what = f"{dom.describe(cfg)}: answers {done}"
        if ch.state((what,)):
            plots(sim, model, ch, what)
        if k == cfg["steps"]:
            break
        answers.names = ch.pick("answers", menu)
        done.append(answers.names)
        sim.run(1)
        ch.transition()
        require(len(sim.steps) == len(model.steps) + 1, f"{what}: {len(sim.steps)} steps")
        model.record(sim.steps[-1])
    ch.outcome(([round(x, 6) for x in (*model.low, *model.high)], round(model.hottest, 6)))
    ch.validated()


def listing(folder):
    return {os.path.relpath(os.path.join(d, f), folder): os.stat(os.path.join(d, f)).st_mtime_ns for d, _, fs in os.walk(folder) for f in fs}


@contextlib.contextmanager
def watch(seen, model):
    """Every figure that is written is inspected when it is written."""
    from matplotlib.backend_bases import FigureCanvasBase as Canvas

    original = Canvas.print_figure

    def print_figure(self, filename, *args, **kwargs):
        seen.append(self.figure)
        return original(self, filename, *args, **kwargs)

    Canvas.print_figure = print_figure
    try:
        yield
    finally:
        Canvas.print_figure = original


def files(cfg, ch):
    """All sequences of saving, plotting and running; every saved file is found under its index."""
    from matplotlib import image
    from matplotlib import pyplot as plt

    base = {k: v for k, v in cfg.items() if k not in ("depth", "first", "path", "initial")}
    model = Model(base)
    answers = Answers(model.scale)
    answers.names = ("generic", "generic")
    sim = sims.build(base, env.Environment(answers, record=False))
    if cfg.get("initial"):
        sim.run(cfg["initial"] - 2)
    for s in sim.steps:
        model.record(s)
    done = []
    here = os.getcwd()
    with tempfile.TemporaryDirectory() as folder:
        try:
            os.chdir(folder)
            os.mkdir("sub")
            for level in range(cfg["depth"]):
                n = len(model.steps)
                ops = [("run",), ("plot", -1), ("save", 0), ("save", n - 1), ("save", -1), ("save", -n), ("save", n), ("save", -n - 1), ("save", -n - n), ("save", 1 - n)]
                op = tuple(cfg["first"]) if level == 0 and "first" in cfg else ch.pick("operation", ops)
                what = f"{dom.describe(cfg)}: {done} then {op}"
                done.append(op)
                before = listing(folder)
                open_before = len(plt.get_fignums())
                new = ch.state((what,))
                ch.transition()
                if op[0] == "run":
                    answers.names = ANSWERS[len(model.steps) % len(ANSWERS)]
                    sim.run(1)
                    model.record(sim.steps[-1])
                elif op[0] == "plot":
                    plots(sim, model, ch, what, [op[1]])
                else:
                    seen = []
                    args = () if cfg["path"] is None else (cfg["path"],)
                    with watch(seen, model):
                        sim.save_step(op[1], *args)
                    after = listing(folder)
                    changed = {f for f in after if before.get(f) != after[f]} | (set(before) - set(after))
                    valid = -n <= op[1] < n
                    name = os.path.normpath(f"{'step' if cfg['path'] is None else cfg['path']}_{op[1] % n}.png")
                    require(changed == ({name} if valid else set()), f"{what}: files written {sorted(changed)}, expected {[name] if valid else 'none'}")
                    if not valid:
                        require(len(plt.get_fignums()) == open_before and not seen, f"{what}: a figure was made")
                    elif new:
                        require(len(seen) >= 1, f"{what}: no figure was written")
                        require(len(seen[-1].axes) == 1, f"{what}: {len(seen[-1].axes)} axes")
                        check_axes(model, op[1] % n, seen[-1].axes[0], what)
                        picture = image.imread(name)
                        require(picture.ndim == 3 and min(picture.shape[:2]) > 20 and picture.std() > 0, f"{what}: the picture is empty")
                        ch.evals()
                if op[0] != "save":
                    require(listing(folder) == before, f"{what}: files were written")
                if level % 2:
                    plt.close("all")
        finally:
            plt.close("all")
            os.chdir(here)
    ch.validated()


def onto_axis(cfg, ch):
    """Step.plot draws on the axis it is given, on the given colour scale."""
    from matplotlib import pyplot as plt

    base = dict(cfg)
    model = Model(base)
    answers = Answers(model.scale)
    answers.names = ("generic", "generic")
    sim = sims.build(base, env.Environment(answers, record=False))
    sim.run(1)
    for s in sim.steps:
        model.record(s)
    for k, s in enumerate(sim.steps):
        for top in (0.25, 1, 40.0):
            fig, (a, b) = plt.subplots(1, 2)
            plt.sca(b)
            s.plot(a, top)
            require(not b.collections and not b.lines and not b.patches, f"{dom.describe(cfg)}: step {k} was drawn on another axis")
            check_axes(model, k, a, f"{dom.describe(cfg)}: step {k} drawn with largest temperature {top}", top, window=False)
            plt.close("all")
            ch.evals()
    ch.validated()


def parts():
    p1 = dict(nx=1, ny=1, fix=["left"], theta0=0.4, fps=3, scale="1")
    wide = dict(nx=2, ny=1, fix=[], theta0=0.0, fps=1, scale="1/2", radius=1.0)
    tall = dict(nx=1, ny=3, fix=["upper", "lower"], theta0=2, fps=5, scale="1/1000", radius=0.5)
    big = dict(nx=3, ny=3, fix=["right"], theta0=0.1, fps=2, scale="100", radius=60.0)
    third = dict(nx=2, ny=2, fix=["lower"], theta0=0.3, fps=2, scale="1/3")
    reg = dict(nx=1, ny=1, fix=["left"], theta0=0.4, fps=3, scale="1", reg=0.3, factor=1)
    reg2 = dict(nx=1, ny=1, fix=[], theta0=0.2, fps=1, scale="1/2", reg=0.0, factor=2, radius=0.4)
    reg3 = dict(nx=2, ny=1, fix=["left"], theta0=1, fps=2, scale="2", reg=0.1, factor=1, radius=1.5)
    answers, saved = [], []

    def add(c, n, k):
        answers.extend(dict(c, steps=n, alphabet=k, first=f) for f in ANSWERS[:k])

    more = 1 if THOROUGH else 0
    add(p1, 2 + more, 5)
    add(wide, 2 + more, 4)
    add(tall, 2 + more, 3)
    add(big, 1 + more, 4)
    add(third, 1 + more, 4)
    add(reg, 2 + more, 3)
    add(reg2, 1 + more, 3)
    add(reg3, 1 + more, 3)
    n = 2
    ops = [("run",), ("plot", -1), ("save", 0), ("save", n - 1), ("save", -1), ("save", -n), ("save", n), ("save", -n - 1), ("save", -n - n), ("save", 1 - n)]
    for f in ops:
        saved.append(dict(p1, depth=3 if THOROUGH else 2, first=f, path=None))
        saved.append(dict(wide, depth=2, first=f, path=os.path.join("sub", "a.b")))
        if THOROUGH or f[0] == "run" or f[1] < 0:
            saved.append(dict(reg, depth=2 if THOROUGH else 1, first=f, path="x"))
    for n in (10, 11, 100, 101) + ((1000, 1001) if THOROUGH else ()):  # more digits
        saved.append(dict(p1, depth=1, initial=n, path=None))
        saved.append(dict(reg if n < 20 else wide, depth=1, initial=n, path="x") if n != 101 else dict(p1, depth=1, initial=37, path="x"))
    return [("answers", body, answers), ("files", files, saved), ("axis", onto_axis, [p1, wide, tall, big, third, reg, reg2])]
