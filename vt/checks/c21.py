"""C21: the thermal step minimises the heat functional of its current data."""

import numpy as np

from vt import steps
from vt.checks.c18 import EXTREME, SPECIAL, sequences, split
from vt.core import THOROUGH, raises

LEVEL = "model_checking"
RULE = (
    "a state is the data of the step (both deformations, temperatures, time of the external temperature) reached by a sequence"
    " of operations; every solve evaluates the objective at several candidates"
)
ASSUMPTIONS = ["data from finite alphabets, sequences up to the stated depth, relative tolerance 1e-10",
               "integrals are evaluated with the rule of the setting (second order; fifth order on the refined triangles; midpoints on edges)"]

OPS = [("prev_y", 0), ("prev_y", 1), ("y", 0), ("y", 1), ("prev_theta", 0), ("prev_theta", 1), ("load", 0.5), ("load", 2.0),
       ("solve", 1), ("bad", 0), ("bad", 1), ("bad", 2)]


def invalid(cfg, ch):
    from tvemoves_rufbad.thermal_step import ThermalStepParams, thermal_step

    _, grid, refined, space, _, _ = steps.setting_of(cfg)
    reg = cfg.get("reg")
    y, th = space.identity(), np.full(space.m, 0.3)

    def make(a, b, c, r=refined):
        return thermal_step(steps.Environment().solver(), grid, a, b, c, ThermalStepParams(0.2, 3, reg), steps.external, r)

    make(y, y, th)
    bad_y = [y[:-1], np.concatenate([y, y[:1]]), y[:, :1], y.T, y.reshape(-1), np.concatenate([y, y], axis=1), y[..., None]]
    if reg is not None:
        bad_y += [y[:, :, :5], y[:, :, 0], np.concatenate([y, y[:, :, :1]], axis=2)]
    bad_t = [th[:-1], np.append(th, 0.3), th[:, None], th[None, :], np.array(0.3), np.zeros(0)]
    for b in bad_y:
        if b.shape == y.shape:
            continue
        raises(ValueError, lambda: make(b, y, th), f"{cfg}: previous deformation of shape {b.shape}")
        raises(ValueError, lambda: make(y, b, th), f"{cfg}: deformation of shape {b.shape}")
        ch.case((cfg, "y", b.shape), 2)
    for b in bad_t:
        raises(ValueError, lambda: make(y, y, b), f"{cfg}: temperature of shape {b.shape}")
        ch.case((cfg, "theta", b.shape))
    if reg is not None:
        raises(ValueError, lambda: make(y, y, th, None), f"{cfg}: no refined grid")
        ch.case((cfg, "refined"))


def parts():
    deep = 4 if THOROUGH else 3
    cfgs = [dict(nx=1, ny=1, fix=f, depth=deep, fps=fps, radius=r, scale=s)
            for f, fps, r, s in ((["left"], 3, 0.2, "1"), ([], 0.5, 0.05, "1/2"))]
    cfgs += [dict(nx=1, ny=1, fix=["left"], factor=1, reg=0.3, fps=3, depth=deep - 1),
             dict(nx=1, ny=1, fix=[], factor=2, reg=0.0, fps=0.5, depth=deep - 2, scale="1/2")]
    wide = []
    for k, (nx, ny) in enumerate([(1, 1), (2, 1), (1, 2), (2, 2), (3, 2)] + ([(4, 4), (1, 7)] if THOROUGH else [])):
        for j, f in enumerate(([], ["left"], ["upper", "right"], ["lower", "right", "upper", "left"])):
            wide.append(dict(nx=nx, ny=ny, fix=f, depth=1, fps=(1, 0.5, 24)[(k + j) % 3], scale=("1", "1/10", "5")[(k + j) % 3]))
    for k, (nx, ny, f, factor) in enumerate(
        [(1, 1, ["left"], 3), (2, 1, ["upper"], 1), (1, 2, ["lower", "upper"], 2), (2, 2, ["right", "left"], 1)]
        + ([(3, 3, ["left"], 1), (2, 2, ["lower"], 3), (1, 1, [], 5)] if THOROUGH else [])
    ):
        wide.append(dict(nx=nx, ny=ny, fix=f, factor=factor, reg=0.5, fps=(1, 0.5, 24)[k % 3], depth=1, scale=("1", "1/10", "5")[k % 3]))
    inv = [dict(nx=nx, ny=ny) for nx, ny in ((1, 1), (2, 1), (2, 2))] + [dict(nx=1, ny=1, factor=2, reg=0.3), dict(nx=2, ny=1, factor=1, reg=0.0)]
    for fps, theta, scale, k in ((0.01, 1, "1", {}), (1000, 2, "1/100", {}), (99.5, 3, "20", {}), (0.01, 1, "1", dict(factor=1, reg=150)), (1000, 1, "1", dict(factor=1, reg=1e-9))):
        wide.append(dict(nx=1, ny=1, fix=["left"], depth=1, fps=fps, scale=scale, radius=(0.01, 0.2, 5, 100)[theta], **k))
    for nx, ny, f in ((5, 5, ["left", "lower"]), (12, 1, ["right"]), (1, 11, ["lower"])):
        wide.append(dict(nx=nx, ny=ny, fix=f, depth=0, fps=3, scale="1/5"))
    body = sequences(steps.Thermal, OPS)
    ops = SPECIAL + [("y", 0), ("y", "identity")]
    special = split([dict(cfgs[0], depth=deep)], ops) + split([dict(cfgs[-2], depth=2 if THOROUGH else 1)], ops)
    few = [("solve", 1), ("prev_y", 0), ("y", 0), ("prev_theta", 0)]
    return [("deep sequences", body, split(cfgs, OPS)), ("settings", body, [c for c in wide if "reg" not in c] + split([c for c in wide if "reg" in c], few)), ("special values", sequences(steps.Thermal, ops), special), ("extreme values", sequences(steps.Thermal, EXTREME + [("y", "stretched")]), split([dict(cfgs[0], depth=deep), dict(cfgs[-2], depth=1)], EXTREME + [("y", "stretched")])), ("invalid data", invalid, inv)]
