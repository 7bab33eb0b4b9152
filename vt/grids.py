"""Grids for interpolation checks: rectangles, refined ones and general (mapped, reoriented) triangulations."""

import numpy as np

from vt import dom, shapes
from vt.ref import mesh


def general(grid, kind, scale):
    """A Grid with the connectivity of a rectangle grid but moved points or other orientations."""
    from tvemoves_rufbad.domain import Boundary, Grid
    from tvemoves_rufbad.tensors import Vector

    def move(v, p):
        x, y = p[0] / scale, p[1] / scale
        if kind == "sheared":
            x, y = x + 0.4 * y + 1.5, 0.7 * y - 0.2 * x - 2
        elif kind == "perturbed":
            x, y = x + 0.13 * ((3 * v) % 5 - 2) / 2, y + 0.11 * ((5 * v + 1) % 7 - 3) / 3
        elif kind == "stretched":
            x, y = 3 * x, 0.5 * y
        return Vector([scale * x, scale * y])

    def part(b):
        return Boundary(list(b.vertices), list(b.edges))

    triangles = list(grid.triangles)
    edges = list(grid.edges)
    if kind == "clockwise":
        triangles = [(b, a, c) for a, b, c in triangles]
    if kind == "mixed":
        triangles = [((a, b, c), (b, c, a), (c, a, b), (b, a, c))[k % 4] for k, (a, b, c) in enumerate(triangles)]
        edges = [(b, a) if k % 2 else (a, b) for k, (a, b) in enumerate(edges)]
    return Grid(list(grid.vertices), edges, triangles, part(grid.boundary), part(grid.dirichlet_boundary),
                part(grid.neumann_boundary), [move(v, p) for v, p in enumerate(grid.points)])


KINDS = ["plain", "sheared", "perturbed", "stretched", "clockwise", "mixed"]


def make(cfg):
    if "shape" in cfg:
        scale = mesh.num(cfg["scale"])
        grid = shapes.grid(cfg["shape"], scale, cfg["turn"], cfg.get("fix") or ())
        if cfg.get("factor"):
            grid, scale = shapes.refine(grid, cfg["factor"]), scale / cfg["factor"]
        return grid, scale
    domain, scale, shape = dom.make(cfg)
    grid = domain.grid(scale)
    if cfg.get("factor"):
        grid = domain.refine(grid, cfg["factor"])
        scale /= cfg["factor"]
    if cfg.get("kind", "plain") != "plain":
        grid = general(grid, cfg["kind"], scale)
    return grid, scale


def c1_families(n, scale, full=True):
    """(name, parameters): mixed parameters and the basis, scaled to functions of order one."""
    unit = np.array([1, 1 / scale, 1 / scale, scale**-2, scale**-2, scale**-2])
    out = [("all parameters nonzero", [[float(((5 * v + 3 * j + v * j) % 13 - 6) * unit[j]) for j in range(6)] for v in range(n)])]
    if full:
        for v in range(n):
            for j in range(6):
                p = [[0.0] * 6 for _ in range(n)]
                p[v][j] = float(unit[j])
                out.append((f"parameter {j} of vertex {v}", p))
    return out


def p1_families(n):
    out = [("all parameters nonzero", [float((7 * v) % 11 - 4.5) for v in range(n)])]
    for v in range(n):
        out.append((f"parameter of vertex {v}", [1.0 if w == v else 0.0 for w in range(n)]))
    return out


def at(corners, weights):
    return tuple(sum(l * q[d] for l, q in zip(weights, corners)) for d in range(2))


def weights(n):
    return [(i / n, j / n, (n - i - j) / n) for i in range(n + 1) for j in range(n + 1 - i)]
