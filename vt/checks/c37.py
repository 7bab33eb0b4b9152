"""C37: a step made from data shows exactly that data."""

import numpy as np

from vt import dom, env, grids, shapes, steps
from vt.checks import c23, c30
from vt.core import THOROUGH, close, raises, require
from vt.ref import fem, mesh

LEVEL = "model_checking"
RULE = (
    "a state is a list of steps made from data of an alphabet (unusual types, values and orders of memory) on one grid; in every"
    " state steps are evaluated between the vertices, read back, printed and drawn in a chosen order"
)
ASSUMPTIONS = ["positions of a lattice in every triangle, relative tolerance 1e-9",
               "figures are inspected through matplotlib's artists"]


def alphabet(space, scale, size):
    """(name, y, theta): legal data of the shapes of the setting."""
    y = space.identity()
    u = steps.unit(space, scale)
    n, m = y.size, space.m
    generic = lambda k: env.pattern(1, n, k)[0].reshape(y.shape)
    warm = lambda k: np.abs(env.pattern(1, m, k)[0]) + 0.05
    # a temperature is a function like any other; recorded ones are not negative
    out = [("identity", y.copy(), np.full(m, 0.3)),
           ("generic", y + 0.3 * u * generic(5), warm(6)),
           ("anywhere", 20 * u * generic(7), 30 * warm(8)),
           ("column order", np.asfortranarray(y + 0.2 * u * generic(9)), warm(10)[::-1]),
           ("whole numbers", np.arange(n).reshape(y.shape) % 7 - 2, np.arange(m) % 4),
           ("single precision", (u * generic(11)).astype(np.float32), warm(12).astype(np.float32)),
           ("whole deformation", np.arange(n).reshape(y.shape) % 5 - 2, warm(13)),
           ("whole temperature", y + 0.1 * u * generic(14), (np.arange(m) + 1) % 3),
           ("single deformation", (u * generic(15)).astype(np.float32), warm(16)),
           ("cold", y - 0.2 * u * generic(17), -warm(18)),
           ("part of an array", np.repeat(y + 0.2 * u * generic(19), 2, axis=0)[::2], np.repeat(warm(20), 3)[1::3]),
           ("backwards", (y + 0.2 * u * generic(21))[::-1], warm(22)[::-1]),
           ("far apart", u * generic(23) * 10.0 ** (np.arange(n).reshape(y.shape) % 4), warm(24) * 10.0 ** (np.arange(m) % 5 - 2)),
           ("zero", np.zeros(y.shape), np.zeros(m)),
           ("equal", np.full(y.shape, 0.7), np.full(m, 1e-9))]
    if size == "all":
        for k in range(n):
            e = np.zeros(n)
            e[k] = 1
            t = np.zeros(m)
            t[k % m] = 1
            out.append((f"entry {k}", e.reshape(y.shape) * u, t))
        for k in range(n, m):
            t = np.zeros(m)
            t[k] = 1
            out.append((f"temperature {k}", y.copy(), t))
    return out


def make(cfg, y, theta):
    from tvemoves_rufbad.simulation import RegularizedStep, Step

    domain, grid, refined, *_ = steps.setting_of(cfg)
    if refined is None:
        return Step(y, theta, domain, grid)
    return RegularizedStep(y, theta, domain, grid, refined)


def evaluate(cfg, step, y, theta, ch, what, order):
    _, grid, refined, space, scale, _ = steps.setting_of(cfg)
    fine = refined or grid
    y, theta = np.asarray(y, float), np.asarray(theta, float)
    size = np.abs(y / steps.unit(space, scale)).max() + 1
    for t in grid.triangles:
        c = fem.corners_of(grid.points, t)
        d = np.linalg.norm(np.array(c[1]) - np.array(c[0])) / scale  # triangles may be small and oblique
        b = fem.bell(c) if space.dofs == 6 else fem.affine(c)
        for w in grids.weights(order) + [(0.6, 0.3, 0.1)]:
            p = grids.at(c, w)
            v, g = step.y(*p), step.y.strain(*p)
            inside = min(w) > 1e-9
            for i in range(2):
                data = np.concatenate([y[v_, i] for v_ in t]) if space.dofs == 6 else np.array([y[v_, i] for v_ in t])
                m = f"{what}: component {i} at {p}"
                close(v[i], b.value(data, [p])[0], 1e-9 * size * scale, f"{m}: value")
                close(step.y[i](*p), b.value(data, [p])[0], 1e-9 * size * scale, f"{m}: value of the component")
                if inside or space.dofs == 6:
                    want = b.gradient(data, [p])[0]
                    for j in range(2):
                        close(g[i, j], want[j], 1e-8 * size / min(d, 1) ** 2, f"{m}: strain {j}")
                if inside and space.dofs == 6:
                    want, h = b.hessian(data, [p])[0], step.y.hyper_strain(*p)
                    want = np.asarray(want, float)
                    for j in range(2):
                        for k in range(2):
                            close(h[i, j, k], want[j, k], 1e-7 * size / scale / min(d, 1) ** 3, f"{m}: second derivatives {j} {k}")
            ch.evals()
    hot = 1 + np.abs(theta).max()
    for t in fine.triangles:
        c = fem.corners_of(fine.points, t)
        b = fem.affine(c)
        for w in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (0.2, 0.5, 0.3)):
            p = grids.at(c, w)
            close(step.theta(*p), sum(l * theta[v] for l, v in zip(w, t)), 1e-9 * hot, f"{what}: temperature at {p}")
            if min(w) > 0:
                got, want = step.theta.gradient(*p), b.gradient([theta[v] for v in t], [p])[0]
                for j in range(2):
                    close(got[j], want[j], 1e-7 * hot * np.linalg.norm(np.linalg.pinv(np.array([np.subtract(c[1], c[0]), np.subtract(c[2], c[0])]))), f"{what}: gradient {j} of the temperature at {p}")
            ch.evals()


def readback(step, y, theta, what):
    a, b = step.data()
    require(np.array_equal(np.asarray(a), y) and np.asarray(a).shape == y.shape, f"{what}: data() returns another deformation")
    require(np.array_equal(np.asarray(b), theta) and np.asarray(b).shape == theta.shape, f"{what}: data() returns another temperature")


def single(cfg, ch):
    """Every member of the alphabet, evaluated everywhere."""
    _, _, _, space, scale, _ = steps.setting_of(cfg)
    name, y, theta = ch.pick("data", alphabet(space, scale, cfg["data"]))
    what = f"{dom.describe(cfg)}: step made from data '{name}'"
    given = y.copy(order="K"), theta.copy(order="K")
    step = make(cfg, *given)
    evaluate(cfg, step, y, theta, ch, what, cfg["order"])
    readback(step, y, theta, what)
    require(np.array_equal(given[0], y) and np.array_equal(given[1], theta), f"{what}: the data was changed")
    ch.state((dom.describe(cfg), name))
    ch.transition()
    ch.validated()


def many(cfg, ch):
    """Steps made, drawn, printed and read in any order do not disturb each other."""
    from matplotlib import pyplot as plt

    _, grid, refined, space, scale, _ = steps.setting_of(cfg)
    base = {k: v for k, v in cfg.items() if k != "depth"}
    model = c30.Model(base)
    model.low, model.high = np.zeros(2), np.full(2, 20 * scale)  # size for tolerances
    menu = [a for a in alphabet(space, scale, "few") if a[0] in ("identity", "generic", "column order")]
    made, done = [], []
    plt.close("all")
    fig, axes = plt.subplots(1, 2)
    try:
        for k in range(cfg["depth"]):
            ops = [("make", i) for i in range(len(menu))] + [(o, i) for o in ("plot", "print", "read") for i in range(len(made))]
            op, i = ch.pick("op", ops)
            done.append((op, i))
            what = f"{dom.describe(base)}: {done}"
            ch.transition()
            if op == "make":
                name, y, theta = menu[i]
                made.append((make(base, y.copy(order="K"), theta.copy(order="K")), y, theta))
                model.record(made[-1][0])
            elif op == "print":
                str(made[i][0]), repr(made[i][0])
            elif op == "read":
                readback(made[i][0], *made[i][1:], what)
            else:
                ax, hot = axes[k % 2], (0.9, 2.5)[i % 2]
                ax.clear()
                others = len(axes[1 - k % 2].collections)
                made[i][0].plot(ax, hot)
                c30.check_axes(model, i, ax, f"{what}: drawing step {i}", hottest=hot, window=False)
                require(len(axes[1 - k % 2].collections) == others and len(plt.get_fignums()) == 1, f"{what}: drawn elsewhere")
            ch.state((dom.describe(base), tuple(done)))
        for k, (s, y, theta) in enumerate(made):
            readback(s, y, theta, f"{dom.describe(base)}: {done}: step {k}")
            t = grid.triangles[-1]
            p = grids.at(fem.corners_of(grid.points, t), (0.3, 0.3, 0.4))
            if space.dofs == 1:
                for d in range(2):
                    close(s.y(*p)[d], sum(l * float(y[v, d]) for l, v in zip((0.3, 0.3, 0.4), t)), 1e-8 * (1 + np.abs(y).max()), f"{dom.describe(base)}: {done}: step {k} at {p}")
        ch.validated()
    finally:
        plt.close("all")


def invalid(cfg, ch):
    from tvemoves_rufbad.simulation import RegularizedStep

    domain, grid, refined, space, scale, _ = steps.setting_of(cfg)
    y, theta = space.identity(), np.full(space.m, 0.3)
    make(cfg, y, theta)
    what = dom.describe(cfg)
    for s in c23.shapes(y.shape):
        raises(ValueError, lambda: make(cfg, np.full(s, 0.5), theta), f"{what}: step with a deformation of shape {s}")
        ch.case((what, "y", s))
    for s in c23.shapes(theta.shape):
        raises(ValueError, lambda: make(cfg, y, np.full(s, 0.5)), f"{what}: step with a temperature of shape {s}")
        ch.case((what, "theta", s))
    if refined is not None:
        raises(ValueError, lambda: RegularizedStep(y, theta, domain, grid, None), f"{what}: regularised step without a refined grid")
        if space.n != space.m:
            raises(ValueError, lambda: make(cfg, y, np.full(space.n, 0.3)), f"{what}: a temperature for every coarse vertex")
        ch.case((what, "refined"))


def parts():
    A, M, I = [], [], []
    for k, (nx, ny) in enumerate(((1, 1), (2, 1), (2, 2), (3, 2)) + (((4, 4), (1, 7)) if THOROUGH else ())):
        for s in ("1", "1/10", "50"):
            A.append(dict(nx=nx, ny=ny, scale=s, fix=["left"], data="all" if nx * ny < 3 else "few", order=3))
    for nx, ny, f, s in ((1, 1, 1, "1"), (1, 1, 2, "1/2"), (2, 1, 1, "3"), (1, 2, 2, "1/10")):
        A.append(dict(nx=nx, ny=ny, scale=s, fix=[], factor=f, reg=0.2, data="all" if f == 1 and nx == 1 or THOROUGH else "few", order=2))
    for k, name in enumerate(shapes.NAMES):
        A.append(dict(shape=name, turn=k % 3, scale=("1", "1/20", "9")[k % 3], fix=[], data="few", order=2))
        if len(shapes.RAW[name][1]) < 5:
            A.append(dict(shape=name, turn=(k + 1) % 3, scale=("1", "1/20", "9")[k % 3], fix=[], factor=1 + k % 2, reg=0.1, data="few", order=1))
    M = [dict(nx=1, ny=1, scale="1", fix=[], depth=4), dict(nx=2, ny=1, scale="1/2", fix=[], depth=3), dict(shape="ell", turn=1, scale="1", fix=[], depth=3),
         dict(nx=1, ny=1, scale="1", fix=[], factor=1, reg=0.1, depth=3 if THOROUGH else 2), dict(shape="bow", turn=1, scale="1", fix=[], factor=1, reg=0.1, depth=2)]
    for nx, ny, f in ((1, 1, None), (2, 1, None), (2, 3, None), (1, 1, 1), (1, 1, 2), (2, 1, 1)):
        I.append(dict(nx=nx, ny=ny, scale="1", fix=[], **({} if f is None else dict(factor=f, reg=0.3))))
    A.sort(key=lambda c: "reg" not in c)
    return [("data", single, A), ("many", many, M), ("invalid", invalid, I)]
