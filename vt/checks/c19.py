"""C19: the regularised mechanical step minimises its incremental energy."""

from vt import steps
from vt.checks.c18 import OPS, SPECIAL, sequences, split
from vt.core import THOROUGH, raises

LEVEL = "model_checking"
RULE = (
    "a state is the data of the step (previous deformation with all parameters, temperature, current unknown) reached by a"
    " sequence of operations; every solve evaluates the objective at several candidates"
)
ASSUMPTIONS = ["data from finite alphabets, sequences up to the stated depth, relative tolerance 1e-10",
               "the energy is integrated with the fifth order rule on the refined triangles"]


def missing(cfg, ch):
    from tvemoves_rufbad.mechanical_step import MechanicalStepParams, mechanical_step

    h = steps.setting_of(cfg)
    for reg in (0.0, 0.5, 3):
        raises(ValueError, lambda: mechanical_step(steps.Environment().solver(), h[1], MechanicalStepParams(0.3, 0.2, 3, reg), None, steps.traction),
               f"regularised step with parameter {reg} without a refined grid")
        ch.case((cfg, reg))


def parts():
    deep = 3 if not THOROUGH else 4
    base = [dict(nx=1, ny=1, fix=["left"], factor=1, reg=0.3, fps=3, theta0=0.4),
            dict(nx=1, ny=1, fix=[], factor=1, reg=2, fps=0.5, theta0=0.0, scale="1/2")]
    cfgs = [dict(c, depth=deep) for c in base]
    cfgs += [dict(nx=1, ny=1, fix=["lower", "right"], factor=2, reg=0.0, fps=10, theta0=1.5, depth=deep - 1)]
    wide = []
    for k, (nx, ny, f, factor) in enumerate(
        [(1, 1, ["left"], 3), (2, 1, ["upper"], 1), (1, 2, ["lower", "upper"], 2), (2, 2, ["right", "left"], 1), (2, 1, [], 2), (3, 1, ["left"], 1),
         (1, 3, [], 1), (1, 1, ["lower", "left", "upper", "right"], 2)]
        + ([(3, 3, ["left"], 1), (2, 2, ["lower"], 3), (1, 1, [], 5)] if THOROUGH else [])
    ):
        for reg, fps in ((0.7, 1), (0.0, 4)) if k % 2 else ((1e-3, 2),):
            wide.append(dict(nx=nx, ny=ny, fix=f, factor=factor, reg=reg, fps=fps, depth=1, theta0=0.1 * k, scale=("1", "1/5", "3")[k % 3]))
    far = [dict(nx=1, ny=1, fix=["left"], factor=1, reg=reg, fps=fps, theta0=theta0, depth=1)
           for reg, fps, theta0 in ((1e-9, 0.01, 0.0), (9.5, 0.3, 0.2), (12, 100, 5), (150, 1000, 0.7), (1e5, 2, 100))]
    # a small parameter counts when the second derivatives are large
    far += [dict(nx=1, ny=1, fix=["left"], factor=1, reg=reg, fps=1, theta0=0.3, depth=1, scale="1/1000", radius=1e4) for reg in (1e-12, 1e-9, 1e-7, 1e-5, 1e-3)]
    body = sequences(steps.Mechanical, OPS)
    special = [dict(base[0], depth=2 if not THOROUGH else 3)]
    few = [("solve", 1), ("prev_y", 0), ("prev_theta", 0)]
    return [("deep sequences", body, split(cfgs, OPS)), ("settings", body, split(wide, few) + split(far, few[:1]), ), ("special values", sequences(steps.Mechanical, SPECIAL), split(special, SPECIAL)), ("no refined grid", missing, base)]
