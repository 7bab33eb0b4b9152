"""C23: step data reads back exactly and bad updates change nothing."""

import numpy as np

from vt import env, steps
from vt.core import THOROUGH, Violation, raises, require

LEVEL = "model_checking"
RULE = (
    "a state is the data of a dictionary model after a sequence of updates, rejected updates and solves; in every state every"
    " getter of the real step is read twice and compared exactly"
)
ASSUMPTIONS = ["data from finite alphabets, sequences up to the stated depth"]

UPDATES = {"mechanical": ("prev_y", "prev_theta"), "thermal": ("prev_y", "y", "prev_theta")}
GETTERS = {"mechanical": ("prev_y", "y", "prev_theta"), "thermal": ("prev_y", "y", "prev_theta", "theta")}

# Data that is legal but unusual: ends of the number range, other types of numbers, equal entries.
SPECIAL = {
    "zero": np.zeros,
    "tiny": lambda n: np.array([5e-324, 1e-300, 1e-12, 0.0])[np.arange(n) % 4],
    "large": lambda n: np.array([1e300, 1e15 + 1, 3.0])[np.arange(n) % 3],
    "integers": lambda n: np.arange(n) % 5,
    "single": lambda n: (np.arange(n, dtype=np.float32) + np.float32(0.1)),
    "constant": lambda n: np.full(n, 0.1),
}


def shapes(shape):
    """Wrong shapes near the right one."""
    out = {(shape[0] + 1,) + shape[1:], (shape[0] - 1,) + shape[1:], shape + (1,), (1,) + shape, shape[::-1], (int(np.prod(shape)),), ()}
    for d in range(1, len(shape)):
        for k in (-1, 1):
            s = list(shape)
            s[d] += k
            out.add(tuple(s))
    if len(shape) == 3:
        out |= {(shape[0], shape[2], shape[1]), shape[:2], (shape[0], shape[1] * shape[2])}
    return sorted(out - {shape})


def body(cfg, ch):
    kind = cfg["step"]
    h = (steps.Mechanical if kind == "mechanical" else steps.Thermal)(cfg)
    h.evaluating = False
    model = {g: getattr(h, g).copy() for g in GETTERS[kind]}
    current = "y" if kind == "mechanical" else "theta"
    previous = "prev_" + current
    done = []

    def compare():
        for again in range(2):
            for g in GETTERS[kind]:
                got = getattr(h.step, g)()
                w = f"{h.what}: {kind} step after {done}: {g}"
                require(isinstance(got, np.ndarray) and got.shape == model[g].shape, f"{w} has shape {getattr(got, 'shape', None)}")
                if not np.array_equal(got, model[g]):
                    k = np.argwhere(got != model[g])[0]
                    raise Violation(f"{w} at {tuple(int(i) for i in k)} is {got[tuple(k)]!r}, expected {model[g][tuple(k)]!r}")
                got[...] = -12345.0  # must not reach the step
        ch.evals(len(GETTERS[kind]))
        ch.state((key, [model[g].tolist() for g in GETTERS[kind]]))

    key = sorted((k, repr(v)) for k, v in cfg.items() if k != "first")
    compare()
    ops = [("update", q, s) for q in UPDATES[kind] for s in list(range(cfg["values"])) + ["nudge"] + (list(SPECIAL) if cfg.get("special") else [])] + [("bad", q) for q in UPDATES[kind]] + ([] if cfg.get("special") else [("solve", 1)])
    if cfg.get("reg") is None:
        ops.append(("load", 1.0))
    for depth in range(cfg["depth"]):
        if depth == 0 and "first" in cfg:
            op = ops[cfg["first"] % len(ops)]
            if cfg["first"] >= len(ops):
                return
        else:
            op = ch.pick("op", ops)
        done.append(op)
        ch.transition()
        if op[0] == "update":
            _, q, s = op
            size = model[q].shape
            if s == "nudge":  # the smallest possible change must not get lost either
                a = np.nextafter(model[q], np.inf)
            elif s in SPECIAL:
                a = SPECIAL[s](int(np.prod(size))).reshape(size)
            else:
                a = 0.5 + 0.4 * env.pattern(1, int(np.prod(size)), 40 + 7 * s + 3 * len(q))[0].reshape(size)
            if s == 1:  # a view with other strides, as slicing or transposing gives
                a = np.asfortranarray(a)
            given = a.copy(order="K")
            getattr(h.step, "update_" + q)(given)
            require(np.array_equal(given, a), f"{h.what}: update_{q} changed its argument")
            given[...] = -54321.0
            model[q] = np.array(a)
            if q == previous:
                model[current] = np.array(a)
        elif op[0] == "bad":
            q = op[1]
            for s in shapes(model[q].shape):
                raises(ValueError, lambda: getattr(h.step, "update_" + q)(np.full(s, 0.777)), f"{h.what}: update_{q} with shape {s} instead of {model[q].shape}")
                ch.evals()
            # illegal at a single place, legal and new at all others
            n = model[q].size
            inf = float("inf")
            kinds = (-1.0, -1e-300, float("nan"), -inf, inf) if q == "prev_theta" else (float("nan"), inf, -inf)
            for k in range(n) if n < 10 else (0, 1, n // 2, n - 1):
                for bad in kinds if depth == 0 else (kinds[k % len(kinds)],):
                    a = 0.123 + 0.01 * np.arange(n)
                    a[k] = bad
                    raises(ValueError, lambda: getattr(h.step, "update_" + q)(a.reshape(model[q].shape)), f"{h.what}: update_{q} with {bad} at entry {k}")
                    got = getattr(h.step, q)()
                    require(np.array_equal(got, model[q]), f"{h.what}: {kind} step after {done}: the values rejected because of {bad} at entry {k} have changed {q} to {got.tolist()}")
                    ch.evals()
        elif op[0] == "load":
            (h.step.update_boundary_traction if kind == "mechanical" else h.step.update_external_temperature)(op[1])
        else:
            h.next_seed = depth
            h.solves += 1
            h.step.solve()
            p = h.env.problems[-1]
            got = getattr(h.step, current)()
            require(got.shape == model[current].shape, f"{h.what}: {kind} step after {done}: {current} has shape {got.shape}")
            at = steps.locate(p.answer, got, f"{h.what}: {kind} step after {done}: {current}")
            fixed = {2 * v + d for v in h.dirichlet for d in range(2)} if kind == "mechanical" and h.space.dofs == 1 else set()
            if kind == "mechanical" and h.space.dofs == 6:
                fixed = set(range(model["y"].size)) - set(at.tolist())
            require(set(at.tolist()) == set(range(model[current].size)) - fixed, f"{h.what}: {kind} step after {done}: unknowns are {sorted(at.tolist())}")
            new = model[current].reshape(-1).copy()
            new[at] = p.answer
            model[current] = new.reshape(model[current].shape)
        compare()
    ch.validated()


def order(cfg, ch):
    """Vertex order: the answers for the unknowns are those whose bounds surround the data of the same vertex and parameter."""
    for kind in ("mechanical", "thermal"):
        h = (steps.Mechanical if kind == "mechanical" else steps.Thermal)(cfg)
        h.evaluating = False
        current = "y" if kind == "mechanical" else "theta"
        getter = getattr(h.step, "prev_" + current)
        size = getter().shape
        a = 10 + np.arange(int(np.prod(size)), dtype=float).reshape(size)
        getattr(h.step, "update_prev_" + current)(a)
        h.step.solve()
        p = h.env.problems[-1]
        flat = getattr(h.step, current)().reshape(-1)
        at = steps.locate(p.answer, flat, h.what)
        for k, j in enumerate(at):
            require(p.start[k] == a.reshape(-1)[j], f"{h.what}: {kind} step: unknown with start {p.start[k]} is read back at position {j}, whose previous value is {a.reshape(-1)[j]}")
            ch.evals()
        ch.state((repr(cfg), kind))
        ch.transition()
        ch.validated()


def parts():
    deep = 4 if THOROUGH else 3
    cfgs = []
    for kind in ("mechanical", "thermal"):
        for c, n in ((dict(nx=1, ny=1, fix=["left"], depth=deep + 1, values=1), 8), (dict(nx=1, ny=1, fix=["right"], depth=deep, values=2), 11), (dict(nx=2, ny=1, fix=[], depth=deep, values=1, scale="1/2"), 8),
                     (dict(nx=2, ny=2, fix=["lower", "right"], depth=deep - 1, values=2), 11),
                     (dict(nx=1, ny=1, fix=["left"], depth=2, values=2, reg=0.3, factor=1), 10), (dict(nx=2, ny=1, fix=[], depth=1, values=2, reg=0.0, factor=2), 10)):
            cfgs += [dict(c, step=kind, first=k) for k in range(n + 1)]
        for c, d in ((dict(nx=1, ny=1, fix=["left"]), 3 if THOROUGH else 2), (dict(nx=2, ny=1, fix=[], reg=0.3, factor=1), 2)):
            cfgs += [dict(c, step=kind, depth=d, values=0, special=True, first=k) for k in range(27)]
    wide = [dict(nx=nx, ny=ny, fix=f) for nx, ny in ((1, 1), (2, 1), (3, 2), (1, 4)) for f in ([], ["left"], ["upper", "right"])]
    wide += [dict(nx=4, ny=3, fix=["lower"]), dict(nx=10, ny=10, fix=["left"]), dict(nx=5, ny=1, fix=["right"], reg=0.3, factor=1), dict(nx=2, ny=3, fix=[], reg=0.3, factor=2)]
    wide += [dict(nx=1, ny=1, fix=["left"], reg=0.3, factor=1), dict(nx=2, ny=1, fix=[], reg=0.3, factor=2)]
    return [("sequences", body, cfgs), ("order", order, wide)]
