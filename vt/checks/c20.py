"""C20: fixed sides stay at the identity and nothing else is clamped."""

import numpy as np

from vt import dom, env, sims, steps
from vt.core import THOROUGH, close, require
from vt.ref import fem, mesh

LEVEL = "model_checking"
RULE = (
    "a state is the deformation before a solve of the mechanical step for one choice of fixed sides; in every such state the"
    " unknowns and constraints handed to the solver are compared with the identity on the fixed sides"
)
ASSUMPTIONS = ["the constraints are affine (checked); equality of solution spaces is decided by ranks with tolerance 1e-8",
               "deformations between solves from a finite alphabet of feasible answers"]


def reference(space, grid, h):
    """Rows and right hand sides of 'the deformation is the identity on the fixed edges', in scaled parameters (N, 2, 6)."""
    unit = np.array([1, h, h, h * h, h * h, h * h])
    rows, rhs = [], []
    for i, j in grid.dirichlet_boundary.edges:
        t = next(t for t in grid.triangles if i in t and j in t)
        b = fem.bell(fem.corners_of(grid.points, t))
        C = b.inverse * b.scale[None, :]
        P, Q = space.points[i], space.points[j]
        for s in np.linspace(0, 1, 6):
            p = (1 - s) * P + s * Q
            q = b.local([p])
            phi = (fem._mono(q[:, 0], q[:, 1]) @ C)[0]
            for d in range(2):
                row = np.zeros((space.n, 2, 6))
                for k, v in enumerate(t):
                    row[v, d] = phi[6 * k : 6 * k + 6] / unit
                rows.append(row.reshape(-1))
                rhs.append(p[d] / h)
    return np.array(rows).reshape(-1, space.n * 12), np.array(rhs)


def rank(A):
    if A.size == 0:
        return 0
    s = np.linalg.svd(A, compute_uv=False)
    return int(np.sum(s > 1e-8 * max(1.0, s[0])))


def check_problem(h, ch):
    """The problem of the last solve of a harness, with unknowns located."""
    p, what = h.problem, h.say()
    require(bool(np.all(p.lower < p.upper)), f"{what}: an unknown is clamped by its bounds")
    free = set(h.index.tolist())
    if h.regularization is None:
        fixed = {2 * v + d for v in h.shape_fixed for d in range(2)}
        require(free == set(range(2 * h.space.n)) - fixed,
                f"{what}: unknowns {sorted(free)} are not the components of the vertices off the fixed sides {sorted(h.shape_fixed)}")
        require(p.number_of_constraints == 0, f"{what}: {p.number_of_constraints} constraints")
        got = h.step.y()
        for v in h.shape_fixed:
            for d in range(2):
                close(got[v, d], h.space.points[v, d], 1e-12 * (1 + abs(h.space.points[v, d])), f"{what}: position of the fixed vertex {v}")
        return
    n = h.space.n * 12
    scale = h.scale
    unit = np.tile(np.array([1, scale, scale, scale**2, scale**2, scale**2]), 2 * h.space.n) / scale  # natural size 1 each
    A0, b0 = p.linear_constraints()
    A = np.zeros((len(A0), n))
    A[:, h.index] = A0
    rows, rhs = [], []
    y = h.y.reshape(-1)
    for k in range(n):
        if k not in free:
            e = np.zeros(n)
            e[k] = 1
            rows.append(e)
            rhs.append(y[k])
    # b0 belongs to the free unknowns with the fixed ones substituted: the constraints involve them through their values only
    A = A / unit[None, :]
    norms = np.linalg.norm(A, axis=1) if len(A) else np.zeros(0)
    keep = norms > 1e-12
    require(bool(np.all(np.abs(b0[~keep]) < 1e-9 * (1 + scale * 10))), f"{what}: constraint without unknowns that does not hold")
    A, b = A[keep] / norms[keep, None], b0[keep] / norms[keep]
    E, e = (np.array(rows).reshape(-1, n), np.array(rhs))
    b_e = e * unit[[int(np.argmax(r)) for r in E]] if len(E) else e
    A, b = np.vstack([A, E]), np.concatenate([b, b_e])
    B, c = reference(h.space, h.grid, h.scale)
    ra, rb, rab = rank(A), rank(B), rank(np.vstack([A, B]))
    require(rab == ra, f"{what}: candidates that satisfy the constraints are not the identity on the fixed sides ({rab - ra} conditions missing)")
    require(rab == rb, f"{what}: the constraints exclude candidates that are the identity on the fixed sides ({rab - rb} conditions too many)")
    x = h.space.identity().reshape(-1) * unit
    for M, r, name in ((A, b, "constraints"), (B, c, "reference")):
        if len(M):
            require(np.abs(M @ x - r).max() < 1e-9 * (1 + np.abs(r).max()), f"{what}: the identity violates the {name}")


def problems(cfg, ch):
    h = steps.Mechanical(cfg)
    h.evaluating = False
    want = {p for e in h.shape.dirichlet_edges() for p in e}
    pos = mesh.lattice(h.grid, h.shape)
    h.shape_fixed = {v for v in pos if pos[v] in want}
    h.dirichlet = list(h.shape_fixed)
    ops = [("prev_y", 0), ("prev_theta", 0), ("solve", 1)] + ([("load", 1.0)] if cfg.get("reg") is None else [])
    done = ()
    for _ in range(cfg["depth"]):
        op = ch.pick("op", ops)
        h.do(op)
        done += (op,)
        ch.transition()
        if op[0] == "solve":
            check_problem(h, ch)
    h.do(("solve", 3))
    ch.transition()
    check_problem(h, ch)
    ch.state((repr(cfg), h.before.tolist()))
    ch.evals()
    ch.validated()


def null_space(A):
    if not len(A):
        return np.eye(A.shape[1])
    _, s, vt = np.linalg.svd(A)
    r = int(np.sum(s > 1e-10 * max(1, s[0])))
    return vt[r:].T


def recorded(cfg, ch):
    """Recorded steps keep the fixed sides in place, for all sequences of (feasible) answers."""
    domain, grid, refined, space, scale, shape = steps.setting_of(cfg)
    reg = cfg.get("reg")
    seeds = []

    def answer(index, problem):
        n = len(problem.free)
        k = ch.pick("answer", range(cfg["answers"])) if index % 2 == 0 else 0
        seeds.append(k)
        d = cfg.get("spread", 0.05) * min(scale, 1.0) * env.pattern(1, n, 10 * k + index)[0] if n else np.zeros(0)
        if index % 2 == 1:
            return np.abs(problem.start + d)
        if reg is not None:
            A, b = problem.linear_constraints()
            if n and len(A):
                Z = null_space(A)
                d = Z @ (Z.T @ d)
                require(np.abs(A @ problem.start - b).max() < 1e-8 * (1 + np.abs(b).max()),
                        f"{dom.describe(cfg)}: the starting values of solve {index} violate the constraints")
        return problem.start + d

    sim = sims.build(cfg, env.Environment(answer))
    for _ in range(cfg["steps"] - 2):
        sim.run(1)
    require(len(sim.steps) == cfg["steps"], f"{dom.describe(cfg)}: {len(sim.steps)} steps")
    for k, step in enumerate(sim.steps):
        for side in shape.fixed:
            for (a, b) in (tuple(sorted(e)) for e in shape.side_edges(side)):
                for s in (0, 0.25, 0.5, 0.8, 1):
                    x, y = ((1 - s) * a[d] * scale + s * b[d] * scale for d in range(2))
                    q = step.y(x, y)
                    w = f"{dom.describe(cfg)}: step {k} (answers {seeds}) at ({x}, {y}) on the fixed side {side}"
                    close(q[0], x, 1e-9 * scale * (1 + shape.nx), w)
                    close(q[1], y, 1e-9 * scale * (1 + shape.ny), w)
                    ch.evals()
        ch.state((repr(cfg), k, repr(step.y(scale * shape.nx / 2, scale * shape.ny / 2)), tuple(seeds[: 2 * k])))
        ch.transition()
    ch.validated()


def parts():
    subsets = mesh.fix_subsets()
    P, R = [], []
    for nx, ny in ((1, 1), (2, 1), (1, 3), (2, 2), (3, 2)) + (((5, 4), (1, 9), (9, 1)) if THOROUGH else ()):
        for k, f in enumerate(subsets):
            P.append(dict(nx=nx, ny=ny, fix=f, depth=2, scale=("1", "1/10", "1000")[k % 3]))
    for nx, ny in ((1, 1), (2, 1)) + (((1, 2), (2, 2), (3, 2)) if THOROUGH else ()):
        for k, f in enumerate(subsets):
            P.append(dict(nx=nx, ny=ny, fix=f, depth=1, scale=("1", "1/10", "5")[k % 3], reg=0.4, factor=1))
    P += [dict(nx=nx, ny=ny, fix=f, depth=0, scale="1", reg=0.4, factor=fac) for nx, ny, fac in ((1, 2, 1), (2, 2, 1), (1, 1, 2))
          for f in (["left"], ["lower", "right"], ["left", "right"], ["upper"])]
    for k, f in enumerate(subsets):
        for nx, ny in ((1, 1), (2, 1), (2, 2)):
            R.append(dict(nx=nx, ny=ny, fix=f, scale=("1", "1/10")[k % 2], answers=3, steps=4))
        R.append(dict(nx=1, ny=1, fix=f, scale=("1", "1/2")[k % 2], answers=2, steps=2 if not THOROUGH else 3, reg=0.2, factor=1))
    return [("problems", problems, P), ("recorded", recorded, R)]
