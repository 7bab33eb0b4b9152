"""C34: an animation shows every recorded step once, in order, as plots do."""

import contextlib
import os
import stat
import tempfile

from vt import dom, env, sims
from vt.checks import c30
from vt.core import THOROUGH, require

LEVEL = "model_checking"
RULE = (
    "a state is the history after one sequence of the operations run, animate, plot and save; every animation made is compared"
    " frame by frame, when the frame is handed to the film writer, with the triangles, temperatures, window and colour scale"
    " computed from the recorded steps"
)
ASSUMPTIONS = ["the film writer is matplotlib's for ffmpeg with a stand-in for the program, which takes all frames and writes the file it is asked for",
               "answers of the solver from a finite alphabet, sequences of operations up to the stated depth"]

STAND_IN = """#!/bin/sh
for last; do :; done
case "$*" in *" - "*|*"pipe:"*) exec cat > "$last" ;; *) : > "$last" ;; esac
"""


@contextlib.contextmanager
def studio():
    """An empty working directory and the stand-in for ffmpeg."""
    here, path = os.getcwd(), os.environ["PATH"]
    with tempfile.TemporaryDirectory() as folder, tempfile.TemporaryDirectory() as tools:
        for name in ("ffmpeg", "avconv"):
            program = os.path.join(tools, name)
            with open(program, "w") as f:
                f.write(STAND_IN)
            os.chmod(program, os.stat(program).st_mode | stat.S_IXUSR)
        os.environ["PATH"] = tools + os.pathsep + path
        os.chdir(folder)
        try:
            yield folder
        finally:
            os.chdir(here)
            os.environ["PATH"] = path


def film(sim, model, what, name=None):
    """Make an animation and compare every frame."""
    from matplotlib import pyplot as plt
    from matplotlib.backend_bases import FigureCanvasBase as Canvas

    original = Canvas.print_figure
    frames = []

    def print_figure(self, filename, dpi=None, *args, **kwargs):
        axes = self.figure.axes
        w = f"{what}: frame {len(frames)}"
        require(len(frames) < len(model.steps), f"{w}: only {len(model.steps)} steps are recorded")
        require(len(axes) == 1, f"{w}: {len(axes)} axes")
        c30.check_axes(model, len(frames), axes[0], w)
        require(axes[0].get_aspect() in (1, "equal"), f"{w}: lengths are drawn on different scales ({axes[0].get_aspect()})")
        frames.append(self.figure.get_size_inches().tolist())
        return original(self, filename, 30, *args, **kwargs)  # a few pixels will do

    before = c30.listing(".")
    Canvas.print_figure = print_figure
    try:
        sim.save_animation(*([] if name is None else [name]))
    finally:
        Canvas.print_figure = original
        plt.close("all")
    require(len(frames) == len(model.steps), f"{what}: {len(frames)} frames for {len(model.steps)} steps")
    require(all(f == frames[0] for f in frames), f"{what}: the frames have different sizes")
    after = c30.listing(".")
    written = {f for f in after if before.get(f) != after[f]} | (set(before) - set(after))
    want = os.path.normpath(("animation" if name is None else name) + ".mp4")
    require(written == {want}, f"{what}: files written {sorted(written)}, expected {want}")
    return len(frames)


def body(cfg, ch):
    from matplotlib import pyplot as plt

    base = {k: v for k, v in cfg.items() if k not in ("depth", "first", "name", "answers")}
    model = c30.Model(base)
    answers = c30.Answers(model.scale)
    answers.names = tuple(cfg["answers"])
    sim = sims.build(base, env.Environment(answers, record=False))
    for s in sim.steps:
        model.record(s)
    done = []
    alphabet = [("run",) + a for a in c30.ANSWERS[:3]] + [("animate",), ("plot", 0), ("save", -1)]
    with studio():
        if cfg["name"] and os.path.dirname(cfg["name"]):
            os.mkdir(os.path.dirname(cfg["name"]))
        for level in range(cfg["depth"]):
            op = tuple(cfg["first"]) if level == 0 else ch.pick("operation", alphabet)
            done.append(op)
            what = f"{dom.describe(cfg)}: {done}"
            new = ch.state((what,))
            ch.transition()
            if op[0] == "run":
                answers.names = op[1:]
                sim.run(1)
                model.record(sim.steps[-1])
            elif op[0] == "animate":
                ch.evals(film(sim, model, what, cfg["name"]))
            elif op[0] == "plot":
                sim.plot_step(op[1])
            elif op[0] == "save":
                c30_save(sim, op[1])
            if level % 2 and op[0] != "animate":
                plt.close("all")
            require(len(sim.steps) == len(model.steps), f"{what}: {len(sim.steps)} steps")
            if new and op[0] != "animate":
                ch.evals(film(sim, model, f"{what} then an animation", cfg["name"]))
    plt.close("all")
    ch.outcome((len(model.steps), round(model.hottest, 6)))
    ch.validated()


def long(cfg, ch):
    """A film of a long history, made of several runs."""
    base = {k: v for k, v in cfg.items() if k not in ("runs", "answers")}
    model = c30.Model(base)
    answers = c30.Answers(model.scale)
    answers.names = tuple(cfg["answers"])
    sim = sims.build(base, env.Environment(answers, record=False))
    for n in cfg["runs"]:
        sim.run(n)
        ch.transition()
    for s in sim.steps:
        model.record(s)
    require(len(sim.steps) == 2 + sum(cfg["runs"]), f"{dom.describe(cfg)}: runs {cfg['runs']} give {len(sim.steps)} steps")
    with studio():
        ch.state((repr(cfg),))
        ch.evals(film(sim, model, f"{dom.describe(cfg)}: runs {cfg['runs']}"))
    ch.validated()


def c30_save(sim, i):
    from matplotlib.backend_bases import FigureCanvasBase as Canvas

    original = Canvas.print_figure
    Canvas.print_figure = lambda self, filename, *a, **k: None  # the picture itself is the subject of C30
    try:
        sim.save_step(i)
    finally:
        Canvas.print_figure = original


def parts():
    p1 = dict(nx=1, ny=1, fix=["left"], theta0=0.4, fps=3, scale="1")
    wide = dict(nx=2, ny=1, fix=[], theta0=0.0, fps=1, scale="1/2", radius=1.0)
    tall = dict(nx=1, ny=3, fix=["upper", "lower"], theta0=2, fps=50, scale="1/1000", radius=0.5)
    reg = dict(nx=1, ny=1, fix=["left"], theta0=0.4, fps=3, scale="1", reg=0.3, factor=1)
    reg2 = dict(nx=1, ny=1, fix=[], theta0=0.2, fps=1, scale="1/2", reg=0.0, factor=2, radius=0.4)
    out = []
    more = 1 if THOROUGH else 0
    ops = [("run",) + a for a in c30.ANSWERS[:3]] + [("animate",), ("plot", 0), ("save", -1)]
    for op in ops:
        out += [dict(p1, depth=2 + more, first=op, name=None, answers=a) for a in c30.ANSWERS[:3]]
        out.append(dict(wide, depth=2 + more, first=op, name="a.b", answers=c30.ANSWERS[0]))
        out.append(dict(tall, depth=1 + more, first=op, name=os.path.join("sub", "film"), answers=c30.ANSWERS[2]))
        if op[0] in ("run", "animate"):
            out.append(dict(reg, depth=1 + more, first=op, name=None, answers=c30.ANSWERS[1]))
            out.append(dict(reg2, depth=1 + more, first=op, name="x", answers=c30.ANSWERS[2]))
    # longer histories
    out += [dict(p1, depth=3 if not THOROUGH else 4, first=("run",) + a, name=None, answers=c30.ANSWERS[4]) for a in c30.ANSWERS[:2]]
    many = [dict(p1, runs=runs, answers=c30.ANSWERS[0]) for runs in ([20, 1, 29], [130], *([[1000]] if THOROUGH else []))]
    return [("animations", body, out), ("long", long, many)]
