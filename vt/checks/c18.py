"""C18: the mechanical step minimises the incremental energy of its current data."""

from vt import steps
from vt.core import THOROUGH, require

LEVEL = "model_checking"
RULE = (
    "a state is the data of the step (previous deformation, temperature, time of the loads, current unknown) reached by a"
    " sequence of operations; every solve evaluates the objective at several candidates"
)
ASSUMPTIONS = ["data from finite alphabets, sequences up to the stated depth, relative tolerance 1e-10",
               "the energy is integrated with the second order rule on triangles and the midpoint rule on edges"]

OPS = [("prev_y", 0), ("prev_y", 1), ("prev_theta", 0), ("prev_theta", 1), ("load", 0.5), ("load", 2.0), ("solve", 1), ("bad", 0), ("bad", 1)]


# data and loads that are nothing special to the model but may be to a program: undeformed, zero temperature, no load
SPECIAL = [("prev_y", 0), ("prev_y", "identity"), ("prev_theta", 0), ("prev_theta", "zero"), ("load", 0.5), ("load", steps.QUIET), ("solve", 1)]
# large strains and high temperatures
EXTREME = [("prev_y", 0), ("prev_y", "stretched"), ("prev_theta", 0), ("prev_theta", "hot"), ("solve", 1)]


def sequences(make, ops):
    def body(cfg, ch):
        h = make(cfg)
        done = []
        setting = sorted((k, repr(v)) for k, v in cfg.items() if k != "first")
        alphabet = [tuple(o) for o in ops if o[0] != "load" or cfg.get("reg") is None]
        for k in range(cfg["depth"]):
            op = ch.pick("op", [tuple(cfg["first"])] if k == 0 and "first" in cfg else alphabet)
            h.do(op)
            done.append(op)
            ch.transition()
            if op[0] == "solve":
                h.check_objective(ch)
            ch.state((setting, h.prev_y.tolist(), h.prev_theta.tolist(), h.time, h.y.tolist()))
        h.do(("solve", 2))
        ch.transition()
        h.check_objective(ch)
        if cfg.get("reg") is None and make is steps.Mechanical:
            require(h.problem.number_of_constraints == 0, f"{h.say()}: {h.problem.number_of_constraints} constraints")
            want = 2 * (h.space.n - len(h.dirichlet))
            require(len(h.problem.free) == want, f"{h.say()}: {len(h.problem.free)} unknowns, not {want}")
        ch.case((cfg, tuple(done)), 0)
        ch.outcome(tuple(h.problem.values.round(9).tolist()))
        ch.validated()

    return body


def split(cfgs, ops):
    """One configuration per first operation."""
    return [dict(c, first=list(o)) for c in cfgs for o in ops if o[0] != "load" or c.get("reg") is None]


def parts():
    deep = 4 if THOROUGH else 3
    cfgs = [dict(nx=1, ny=1, fix=f, depth=deep, fps=fps, theta0=t, radius=0.3, scale=s)
            for f, fps, t, s in ((["left"], 3, 0.4, "1"), ([], 1, 0.0, "1"), (["lower", "right"], 0.5, 1.5, "1/2"))]
    cfgs += [dict(nx=2, ny=1, fix=["left"], depth=deep - 1, fps=10, theta0=0.2, radius=0.1, scale="2")]
    wide = []
    sides = ["lower", "right", "upper", "left"]
    subsets = [[s for k, s in enumerate(sides) if m >> k & 1] for m in range(16)]
    for nx, ny in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 2)) + (((4, 4), (1, 7)) if THOROUGH else ()):
        for k, f in enumerate(subsets):
            if len(f) == 4 and min(nx, ny) == 1:
                continue  # no unknowns
            wide.append(dict(nx=nx, ny=ny, fix=f, depth=1, fps=(1, 0.5, 24)[k % 3], theta0=(0.0, 0.1, 2.0)[k % 3], scale=("1", "1/10", "5")[k % 3]))
    body = sequences(steps.Mechanical, OPS)
    # far away values of the parameters
    for fps, theta0, scale in ((0.01, 0.3, "1"), (0.25, 0.0, "1/2"), (1000, 0.3, "1"), (99.5, 40, "20"), (2, 1000, "1/100")):
        wide.append(dict(nx=2, ny=1, fix=["left"], depth=2, fps=fps, theta0=theta0, scale=scale))
    for nx, ny, f in ((5, 5, ["left", "lower"]), (12, 1, ["right"]), (1, 11, ["lower"])):
        wide.append(dict(nx=nx, ny=ny, fix=f, depth=0, fps=3, theta0=0.2, scale="1/5"))
    special = [dict(c, depth=deep) for c in cfgs[:2]]
    return [("deep sequences", body, split(cfgs, OPS)), ("settings", body, wide),
            ("special values", sequences(steps.Mechanical, SPECIAL), split(special, SPECIAL)),
            ("extreme values", sequences(steps.Mechanical, EXTREME), split([dict(c, depth=deep) for c in cfgs[:3]], EXTREME))]
