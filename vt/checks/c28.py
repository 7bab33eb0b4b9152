"""C28: simulations and grids do not influence each other."""

import multiprocessing as mp
from fractions import Fraction

import numpy as np

from vt import dom, env, grids, sims, steps
from vt.core import THOROUGH, Violation, close, require
from vt.ref import fem, mesh

LEVEL = "model_checking"
RULE = (
    "a state is a prefix of one interleaving of the operations of two or three objects; every interleaving is executed in a"
    " process of its own, and each object's observations are compared with those it has alone in a fresh process"
)
ASSUMPTIONS = ["objects and operations from finite alphabets; all interleavings of their operations",
               "answers of the solver are a function of the problem it is given; steps are compared at the vertices, relative tolerance 1e-9"]


def isolated(f, *args):
    """f(*args) in a forked process that ran nothing of the library before."""
    ctx = mp.get_context("fork")
    a, b = ctx.Pipe(False)

    def run():
        try:
            b.send(("ok", f(*args)))
        except BaseException as e:
            b.send(("error", f"{type(e).__name__}: {e}"))
        b.close()

    p = ctx.Process(target=run)
    p.start()
    try:
        kind, out = a.recv()
    except EOFError:
        kind, out = "error", "the process ended"
    p.join()
    return kind, out


# -- simulations ------------------------------------------------------------------------------------------

SIMS = {
    "A": dict(nx=1, ny=1, fix=["left"], theta0=0.4, fps=3),
    "A'": dict(nx=1, ny=1, fix=["left"], theta0=0.1, fps=2, radius=0.1),  # same grid, other parameters
    "B": dict(nx=2, ny=1, fix=["upper"], theta0=0.3, fps=1, scale="1/2"),
    "C": dict(nx=1, ny=2, fix=["upper"], theta0=0.3, fps=1, scale="2"),  # as many vertices as B
    "D": dict(nx=1, ny=1, fix=["right"], theta0=0.4, fps=3),
    "R": dict(nx=1, ny=1, fix=["left"], theta0=0.4, fps=3, reg=0.3, factor=1),
    "S": dict(nx=1, ny=1, fix=["left"], theta0=0.4, fps=3, reg=0.0, factor=2),
    "T": dict(nx=1, ny=1, fix=["left"], theta0=0.4, fps=3, reg=0.3, factor=1, scale="1/2"),  # R, smaller
}

for _cfg in SIMS.values():
    _cfg.setdefault("scale", "1")


def loads(name):
    k = 1 + sorted(SIMS).index(name)
    return (lambda t, x, y: [0.2 * k + x * t, 0.1 * k * y - t]), (lambda t: 0.1 * k + 0.3 * t)


def operate(objects, shared, name, op, responsive):
    """One operation on one simulation."""
    cfg = SIMS[name]
    if op == "new":
        if shared == "defaults":  # default loads
            kw = {}
        else:
            tr, ext = loads(name)
            kw = dict(boundary_traction=tr, external_temperature=ext)
        domain = params = None
        if shared == "domain and parameters":
            first = objects.setdefault("shared", (dom.make(cfg)[0], sims.params(cfg)))
            domain, params = first
        if shared == "parameters, changed in between":  # as in a sweep over parameters
            params = objects.setdefault("shared parameters", sims.params(cfg))
            for key, value in vars(sims.params(cfg)).items():
                setattr(params, key, value)
        if shared == "domain":
            domain = objects.setdefault("shared domain", dom.make(cfg)[0])
        from tvemoves_rufbad.simulation import Simulation

        env.install(env.Environment(responsive, record=False))
        return Simulation(domain or dom.make(cfg)[0], params or sims.params(cfg), **kw)
    raise ValueError(op)


def interleaved(names, shared, schedule):
    """Run the schedule (sequence of object numbers); returns the histories."""
    sims_ = [None] * len(names)
    objects = {}
    count = [0] * len(names)
    for who in schedule:
        name = names[who]
        answer = sims.responsive(steps.setting_of(SIMS[name])[4])
        if count[who] == 0:
            sims_[who] = operate(objects, shared, name, "new", answer)
        else:
            sims_[who].run(1)
        count[who] += 1
    return [None if s is None else (sims.history(s, SIMS[n]), s.max_temp(), drawing(s)) for s, n in zip(sims_, names)]


def drawing(sim):
    """What the last recorded step draws: window, number of artists, corners of the triangles."""
    import matplotlib

    matplotlib.use("Agg")
    from matplotlib import pyplot as plt

    fig, ax = plt.subplots()
    try:
        sim.steps[-1].plot(ax, 1.0)
        corners = [p.vertices for c in ax.collections for p in c.get_paths()]
        corners = np.concatenate(corners) if corners else np.zeros((0, 2))
        values = np.concatenate([np.asarray(c.get_array(), float).reshape(-1) for c in ax.collections if c.get_array() is not None] + [np.zeros(0)])
        return np.concatenate([[len(corners), len(values)], corners.sum(axis=0), corners.max(axis=0), corners.min(axis=0), [values.sum()]])
    finally:
        plt.close("all")


def schedules(counts):
    """All interleavings of counts[k] operations of object k."""
    if not any(counts):
        return [()]
    out = []
    for k, c in enumerate(counts):
        if c:
            out += [(k,) + rest for rest in schedules(counts[:k] + [c - 1] + counts[k + 1 :])]
    return out


def simulations(cfg, ch):
    schedule = tuple(cfg["schedule"])
    what = f"simulations {cfg['names']} sharing {cfg['shared'] or 'nothing'}, operations in the order {schedule}"
    kind, out = isolated(interleaved, cfg["names"], cfg["shared"], schedule)
    if kind != "ok":
        raise Violation(f"{what}: {out}")
    for who, name in enumerate(cfg["names"]):
        kind, alone = isolated(interleaved, [name], cfg["shared"], (0,) * schedule.count(who))
        require(kind == "ok", f"{what}: simulation {who} alone: {alone}")
        sims.same(out[who][0], alone[0][0], f"{what}: history of simulation {who} compared with that alone", tol=1e-9)
        close(out[who][1], alone[0][1], 1e-9 * (1 + alone[0][1]), f"{what}: largest temperature of simulation {who}")
        require(np.allclose(out[who][2], alone[0][2], rtol=1e-7, atol=1e-7), f"{what}: the last step of simulation {who} is drawn differently: {out[who][2].tolist()}, alone {alone[0][2].tolist()}")
        ch.evals()
    for k in range(len(schedule)):
        ch.state((tuple(cfg["names"]), cfg["shared"], schedule[: k + 1]))
        ch.transition()
    ch.outcome(repr([[h[-1][1].round(8).tolist() for h in [o[0]]] for o in out]))
    ch.validated()


def one_after_the_other(names, clear=False):
    """Simulations that are given up (or whose recorded steps are thrown away) before the next is made; returns their histories."""
    import gc

    out, kept = [], []
    for name in names:
        answer = sims.responsive(steps.setting_of(SIMS[name])[4])
        sim = operate({}, None, name, "new", answer)
        sim.run(1)
        out.append((sims.history(sim, SIMS[name]), sim.max_temp()))
        require(all(len(k.steps) == 0 for k in kept), "steps appear in a history that was thrown away")
        if clear:
            kept.append(sim)
            del sim.steps[:]
        del sim
        gc.collect()
    return out


def given_up(cfg, ch):
    """Nothing of an object that is gone reaches a later one (which may take its place in memory)."""
    names = cfg["names"]
    clear = cfg.get("clear", False)
    what = f"simulations {names}, " + ("the recorded steps of each thrown away" if clear else "each given up") + " before the next is made"
    kind, out = isolated(one_after_the_other, names, clear)
    require(kind == "ok", f"{what}: {out}")
    for who, name in enumerate(names):
        kind, alone = isolated(one_after_the_other, [name])
        require(kind == "ok", f"{what}: simulation {who} alone: {alone}")
        sims.same(out[who][0], alone[0][0], f"{what}: history of simulation {who} compared with that alone", tol=1e-9)
        close(out[who][1], alone[0][1], 1e-9 * (1 + alone[0][1]), f"{what}: largest temperature of simulation {who}")
        ch.state((tuple(names[: who + 1]), "given up"))
        ch.transition()
    ch.validated()


# -- grids and interpolations -----------------------------------------------------------------------------

GRIDS = {
    "2x3": dict(nx=2, ny=3, scale="1", fix=["left"]),
    "3x2": dict(nx=3, ny=2, scale="1", fix=["left"]),  # as many vertices
    "2x3 small": dict(nx=2, ny=3, scale="1/4", fix=["left"]),  # same connectivity
    "2x3 free": dict(nx=2, ny=3, scale="1", fix=["upper", "right"]),  # same points
    "1x1": dict(nx=1, ny=1, scale="1", fix=["left"]),
    "sheared": dict(nx=2, ny=3, scale="1", fix=["left"], kind="sheared"),
    "1x1 in 3": dict(nx=1, ny=1, scale="1", fix=["left"], factor=3),
    "1x1 in 2": dict(nx=1, ny=1, scale="2", fix=["left"], factor=2),
    "1x2 in 1": dict(nx=1, ny=2, scale="1", fix=[], factor=1),
}


def verify(name, obj, stage):
    """Everything about a grid or interpolations on it against the references."""
    cfg = GRIDS[name]
    grid, scale, shape = obj["grid"], obj["scale"], obj["shape"]
    what = f"{name}"
    if cfg.get("kind") is None:
        mesh.check_grid(grid, shape, what)
    if obj.get("snapshot") is None:
        obj["snapshot"] = mesh.snapshot(grid)
    require(mesh.snapshot(grid) == obj["snapshot"], f"{what}: the grid changed")
    from tvemoves_rufbad.integrators import BoundaryIntegrator, Integrator
    from tvemoves_rufbad.quadrature_rules import DUNAVANT2

    if cfg.get("kind") is None:  # areas, lengths and moments
        s = shape.scale
        lx, ly = shape.nx * s, shape.ny * s
        pts = grid.points
        area = Integrator(DUNAVANT2, grid.triangles, pts)
        close(area(lambda t, b: 1), lx * ly, 1e-10 * lx * ly, f"{what}: area")
        close(area(lambda t, b: sum(w * pts[v][0] ** 2 for w, v in zip((b.l1, b.l2, b.l3), t))), sum(
            (s * s / 2) * (sum(p * p for p in c) / 3) for t in shape.triangles() for c in [[s * q[0] for q in t]]), 1e-9 * lx**3 * ly, f"{what}: second moment")
        for part, edges in ((grid.boundary, shape.boundary_edges()), (grid.dirichlet_boundary, shape.dirichlet_edges()), (grid.neumann_boundary, shape.neumann_edges())):
            close(BoundaryIntegrator(2, part.edges, pts)(lambda e, t: 1), s * len(edges), 1e-10 * (lx + ly), f"{what}: length of a part of the boundary")
            close(BoundaryIntegrator(2, part.edges, pts)(lambda e, t: pts[e[0]][0] * t + pts[e[1]][0] * (1 - t)),
                  sum(s * s * (a[0] + b[0]) / 2 for a, b in edges), 1e-10 * (lx + ly) ** 2, f"{what}: first moment of a part of the boundary")
    if stage == 0:
        return
    from tvemoves_rufbad.interpolation import C1Interpolation, EuclideanInterpolation, P1Interpolation, RefinedInterpolation
    from tvemoves_rufbad.tensors import BarycentricCoordinates

    if "p1" not in obj:
        n = len(grid.vertices)
        obj["p1 data"] = grids.p1_families(n)[0][1]
        obj["c1 data"] = grids.c1_families(n, scale, full=False)[0][1]
        obj["p1"], obj["c1"] = P1Interpolation(grid, list(obj["p1 data"])), C1Interpolation(grid, [list(p) for p in obj["c1 data"]])
        obj["e1"] = EuclideanInterpolation(obj["c1"])
        if obj.get("coarse") is not None:
            m = len(obj["coarse"].vertices)
            obj["rc data"] = grids.c1_families(m, scale * cfg["factor"], full=False)[0][1]
            obj["rc"] = RefinedInterpolation(C1Interpolation(obj["coarse"], [list(p) for p in obj["rc data"]]), grid)
    for t in grid.triangles:
        c = fem.corners_of(grid.points, t)
        w = (0.2, 0.5, 0.3)
        p = grids.at(c, w)
        bc = BarycentricCoordinates(w[0], w[1])
        u = sum(a * obj["p1 data"][v] for a, v in zip(w, t))
        close(obj["p1"](t, bc), u, 1e-10 * 20, f"{what}: affine interpolation in {t}")
        data = np.concatenate([obj["c1 data"][v] for v in t])
        ref = fem.bell(c)
        size = 1 + np.abs(data * ref.scale).max()
        close(obj["c1"](t, bc), ref.value(data, [p])[0], 1e-8 * size, f"{what}: C1 interpolation in {t}")
        g = obj["c1"].gradient(t, bc)
        h = obj["c1"].hessian(t, bc)
        for d in range(2):
            close(g[d], ref.gradient(data, [p])[0][d], 1e-7 * size / scale, f"{what}: gradient in {t}")
            close(h[d, d], ref.hessian(data, [p])[0][d, d], 1e-6 * size / scale**2, f"{what}: second derivatives in {t}")
        if cfg.get("kind") is None:
            close(obj["e1"](*p), ref.value(data, [p])[0], 1e-8 * size, f"{what}: Euclidean evaluation at {p}")
        if "rc" in obj:
            ct = next(T for T in obj["coarse"].triangles if all(l > -1e-9 for l in weights(fem.corners_of(obj["coarse"].points, T), np.mean(c, axis=0))))
            cc = fem.corners_of(obj["coarse"].points, ct)
            cd = np.concatenate([obj["rc data"][v] for v in ct])
            close(obj["rc"](t, bc), fem.bell(cc).value(cd, [p])[0], 1e-8 * (1 + np.abs(cd * fem.bell(cc).scale).max()), f"{what}: refined interpolation in {t}")


def weights(c, p):
    return np.linalg.solve(np.vstack([np.array(c).T, np.ones(3)]), [p[0], p[1], 1])


def build(name):
    cfg = GRIDS[name]
    domain, scale, shape = dom.make({k: v for k, v in cfg.items() if k not in ("kind", "factor")})
    grid = domain.grid(scale)
    coarse = None
    if cfg.get("factor"):
        coarse, grid = grid, domain.refine(grid, cfg["factor"])
        scale, shape = scale / cfg["factor"], shape.finer(cfg["factor"])
    if cfg.get("kind"):
        grid = grids.general(grid, cfg["kind"], scale)
    return dict(grid=grid, scale=scale, shape=shape, coarse=coarse)


def build_and_verify(names, schedule):
    objs = [None] * len(names)
    count = [0] * len(names)
    for who in schedule:
        try:
            if count[who] == 0:
                objs[who] = build(names[who])
            verify(names[who], objs[who], count[who])
            count[who] += 1
        except Violation as e:
            return f"object {who}: {e}"
    for who, name in enumerate(names):  # all of them again at the end
        try:
            verify(name, objs[who], 1)
        except Violation as e:
            return f"object {who} in the end: {e}"
    return None


def verify_and_forget(names):
    import gc

    for who, name in enumerate(names):
        try:
            obj = build(name)
            verify(name, obj, 0)
            verify(name, obj, 1)
        except Violation as e:
            return f"object {who}: {e}"
        del obj
        gc.collect()
    return None


def forgotten(cfg, ch):
    names = cfg["names"]
    what = f"grids {names}, each given up before the next is made"
    kind, out = isolated(verify_and_forget, names)
    require(kind == "ok", f"{what}: {out}")
    if out is not None:
        for name in names:
            k, alone = isolated(verify_and_forget, [name])
            if k != "ok" or alone is not None:
                ch.count("objects that fail alone")
                return
        raise Violation(f"{what}: {out}, but each of them alone is as it should be")
    for k in range(len(names)):
        ch.state((tuple(names[: k + 1]), "given up"))
        ch.transition()
    ch.validated()


def meshes(cfg, ch):
    names, schedule = cfg["names"], tuple(cfg["schedule"])
    what = f"grids {names}, operations in the order {schedule}"
    kind, out = isolated(build_and_verify, names, schedule)
    require(kind == "ok", f"{what}: {out}")
    if out is not None:
        # a failure that each object has on its own is not an influence of one on the other
        for who, name in enumerate(names):
            k, alone = isolated(build_and_verify, [name], (0,) * schedule.count(who))
            if k != "ok" or alone is not None:
                ch.count("objects that fail alone")
                return
        raise Violation(f"{what}: {out}, but each of them alone is as it should be")
    for k in range(len(schedule)):
        ch.state((tuple(names), schedule[: k + 1]))
        ch.transition()
    ch.validated()


# -- grids of one domain ------------------------------------------------------------------------------------

# rectangle 12 x 8 units; grids of scale unit * number (those not dividing the sides leave a rest)
UNIT = {"1": (12, 8), "1/1000": (12, 8), "1/3": (12, 8)}
DOMAIN_OPS = [("grid", "4"), ("grid", "2"), ("grid", "2.001"), ("grid", "4.0000001"), ("refine", 2), ("refine", 1), ("curves", 0), ("plot", 0)]


def of_one_domain(cfg, ch):
    """All sequences of grids, refinements and other uses of one domain object; every grid is what a new domain gives."""
    from tvemoves_rufbad.domain import RectangleDomain

    unit = float(Fraction(cfg["unit"]))
    domain = RectangleDomain(12 * unit, 8 * unit, fix=cfg["fix"])
    what = f"domain 12 x 8 units of {cfg['unit']}, fixed {cfg['fix']}"
    made, done = [], []
    for k in range(cfg["depth"]):
        op = tuple(cfg["first"]) if k == 0 else ch.pick("operation", [o for o in DOMAIN_OPS if o[0] != "refine" or any(m[1].nx * m[1].ny <= 24 for m in made)])
        done.append(op)
        w = f"{what}: after {done}"
        if op[0] == "grid":
            s = Fraction(op[1])
            shape = mesh.Shape(int(12 / s), int(8 / s), float(s) * unit, cfg["fix"])
            made.append([domain.grid(shape.scale), shape, None])
        elif op[0] == "refine":
            grid, shape, _ = next(m for m in reversed(made) if m[1].nx * m[1].ny <= 24)
            made.append([domain.refine(grid, op[1]), shape.finer(op[1]), None])
        elif op[0] == "curves":
            domain.curves(3, 1)
        elif op[0] == "plot":
            from matplotlib import pyplot as plt

            domain.plot()
            plt.close("all")
        for m in made:
            mesh.check_grid(m[0], m[1], w, rel=1e-8)
            snap = mesh.snapshot(m[0])
            require(m[2] is None or m[2] == snap, f"{w}: a grid made before changed")
            m[2] = snap
        ch.state((what, tuple(done)))
        ch.transition()
    ch.validated()


def parts():
    out = []
    for names, shared, counts in (
        (["A", "A'"], None, [3, 3]), (["A", "A"], "domain and parameters", [3, 3]), (["A", "A'"], "domain", [3, 3]), (["B", "C"], None, [3, 3]),
        (["A", "D"], None, [2, 3]), (["A", "A'"], "defaults", [2, 2]), (["A", "B", "C"], None, [2, 1, 2]), (["A", "R"], "domain", [2, 2]), (["R", "S"], "domain", [1, 2]), (["R", "T"], None, [1, 2]),
        (["A", "A'"], "parameters, changed in between", [3, 2]), (["B", "C"], "parameters, changed in between", [2, 2]),
        (["R", "A"], "parameters, changed in between", [2, 1]), (["A", "R"], "parameters, changed in between", [3, 1]), (["R", "S"], "parameters, changed in between", [2, 1]),
    ):
        if THOROUGH and "R" not in names:
            counts = [c + 1 for c in counts]
        out += [dict(names=names, shared=shared, schedule=s) for s in schedules(counts)]
    g = []
    for a in GRIDS:
        for b in GRIDS:
            g += [dict(names=[a, b], schedule=s) for s in schedules([2, 2]) if s[0] == 0]
    if THOROUGH:
        for a in GRIDS:
            for b in GRIDS:
                for c in GRIDS:
                    g += [dict(names=[a, b, c], schedule=s) for s in schedules([2, 2, 2]) if s[0] == 0 and s.index(1) < s.index(2)]
    d = [dict(unit=u, fix=f, first=list(o), depth=3 if not THOROUGH else 5)
         for u in UNIT for f in ([], ["left", "upper"]) for o in DOMAIN_OPS if o[0] == "grid"]
    names = list(SIMS)
    gone = [dict(names=[a, b, a]) for a in names for b in names if a != b and (not {"R", "S", "T"} & {a, b} or THOROUGH)]
    gone += [dict(names=[a, b]) for a, b in (("R", "S"), ("S", "R"), ("A", "R"), ("R", "T"))]
    gone += [dict(names=[a, b, a], clear=True) for a in ("A", "B", "C") for b in ("A", "A'", "D")] + [dict(names=["R", "R"], clear=True)]
    gone_grids = [dict(names=[a, b, a, b]) for a in GRIDS for b in GRIDS if a != b]
    return [("simulations", simulations, out), ("grids", meshes, g), ("one domain", of_one_domain, d), ("given up", given_up, gone), ("grids given up", forgotten, gone_grids)]
