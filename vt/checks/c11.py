"""C11: piecewise affine interpolation reproduces affine functions."""

import numpy as np

from vt import dom, grids, shapes
from vt.core import THOROUGH, close, raises, require
from vt.ref import fem, mesh

LEVEL = "exploration"
RULE = (
    "a case is one grid (rectangles, refined, mapped and reoriented triangulations), one vector of parameters (basis,"
    " independent values, three affine functions), one triangle or edge and one lattice position"
)
ASSUMPTIONS = ["positions on barycentric lattices; affine functions decided on the basis 1, x, y and one mixture",
               "relative tolerance 1e-9"]


def body(cfg, ch):
    from tvemoves_rufbad.interpolation import P1BoundaryInterpolation, P1Interpolation
    from tvemoves_rufbad.tensors import BarycentricCoordinates

    grid, scale = grids.make(cfg)
    what = dom.describe(cfg)
    n = len(grid.vertices)
    snap = mesh.snapshot(grid)
    families = [(name, p, None) for name, p in grids.p1_families(n)]
    for a, b, c in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (0.3, -2, 1.7)):
        b, c = b / scale, c / scale
        families.append((f"{a} + {b} x + {c} y", [a + b * p[0] + c * p[1] for p in grid.points], (a, b, c)))
    kept = []
    for name, params, function in families:
        given = list(params)
        f = P1Interpolation(grid, params)
        size = max(1.0, max(map(abs, params)))
        for t in grid.triangles:
            corners = fem.corners_of(grid.points, t)
            ref = fem.affine(corners)
            for w in grids.weights(cfg["order"]):
                p = grids.at(corners, w)
                bc = BarycentricCoordinates(w[0], w[1])
                u, g = f(t, bc), f.gradient(t, bc)
                data = [params[v] for v in t]
                m = f"{what}: {name}, triangle {t}, weights {w}"
                close(u, ref.value(data, [p])[0], 1e-9 * size, f"{m}: value")
                require(len(g) == 2, f"{m}: gradient {g}")
                for d in range(2):
                    close(g[d], ref.gradient(data, [p])[0][d], 1e-8 * size / scale, f"{m}: gradient {d}")
                if function:
                    a, b, c = function
                    close(u, a + b * p[0] + c * p[1], 1e-9 * size, f"{m}: value of the affine function")
                    close(g[0], b, 1e-8 * size / scale, f"{m}: gradient of the affine function")
                    close(g[1], c, 1e-8 * size / scale, f"{m}: gradient of the affine function")
                ch.case((what, name, t, w))
            # corners, and the same triangle in another cyclic order
            for k in range(3):
                e = tuple(float(i == k) for i in range(3))
                close(f(t, BarycentricCoordinates(e[0], e[1])), params[t[k]], 1e-12 * size, f"{what}: {name}, vertex {t[k]}")
            raises(NotImplementedError, lambda: f.hessian(t, BarycentricCoordinates(0.25, 0.5)), f"{what}: second derivatives")
        for e in list(grid.edges) + [(j, i) for i, j in grid.edges]:
            for k in range(cfg["order"] + 1):
                t = k / cfg["order"]
                close(f.on_edge(e, t), t * params[e[0]] + (1 - t) * params[e[1]], 1e-12 * size,
                      f"{what}: {name}, edge {e}, parameter {t}")
                ch.evals()
        # interpolation on boundary parts, with the parameters of their vertices only
        for part_name, part in (("boundary", grid.boundary), ("fixed part", grid.dirichlet_boundary), ("free part", grid.neumann_boundary)):
            g = P1BoundaryInterpolation(part, {v: params[v] for v in part.vertices})
            for e in list(part.edges) + [(j, i) for i, j in part.edges]:
                for k in range(cfg["order"] + 1):
                    t = k / cfg["order"]
                    close(g(e, t), t * params[e[0]] + (1 - t) * params[e[1]], 1e-12 * size,
                          f"{what}: {name}, {part_name}, edge {e}, parameter {t}")
                    close(g(e, t), f.on_edge(e, t), 1e-12 * size, f"{what}: {name}, {part_name}, edge {e}, parameter {t}")
                    ch.case((what, name, part_name, e, t))
        require(params == given, f"{what}: the parameters were changed")
        kept.append((f, params))
    # interpolations made earlier still are what they were
    for f, params in kept:
        for t in grid.triangles:
            close(f(t, BarycentricCoordinates(0.25, 0.5)), sum(w * params[v] for w, v in zip((0.25, 0.5, 0.25), t)),
                  1e-9 * max(1.0, max(map(abs, params))), f"{what}: interpolation evaluated again")
            ch.evals()
    require(mesh.snapshot(grid) == snap, f"{what}: the grid was changed")


def invalid(cfg, ch):
    from tvemoves_rufbad.interpolation import P1BoundaryInterpolation, P1Interpolation

    grid, _ = grids.make(cfg)
    n = len(grid.vertices)
    for m in range(0, n + 5):
        if m == n:
            P1Interpolation(grid, [1.0] * m)
        else:
            raises(ValueError, lambda: P1Interpolation(grid, [1.0] * m), f"{m} parameters for {n} vertices")
        ch.case((dom.describe(cfg), m))
    for name, part in (("boundary", grid.boundary), ("fixed part", grid.dirichlet_boundary), ("free part", grid.neumann_boundary)):
        k = len(part.vertices)
        for m in range(0, k + 4):
            params = {v: 1.0 for v in (list(part.vertices) + [1000, 1001, 1002, 1003])[:m]}
            if m == k:
                P1BoundaryInterpolation(part, params)
            else:
                raises(ValueError, lambda: P1BoundaryInterpolation(part, params), f"{m} parameters for the {k} vertices of the {name}")
            ch.case((dom.describe(cfg), name, m))


def parts():
    cfgs = []
    fixes = [None, ["lower"], ["left", "right"], ["upper", "right"]]
    k = 0
    for nx, ny in ((1, 1), (2, 1), (2, 2), (3, 2)) + (((5, 5), (1, 9)) if THOROUGH else ()):
        for scale in ("1", "1/10", "1000") + (("1/1000", "1/3") if THOROUGH else ()):
            for kind in grids.KINDS:
                cfgs.append(dict(nx=nx, ny=ny, scale=scale, fix=fixes[k % 4], kind=kind, order=4))
                k += 1
    cfgs += [dict(nx=2, ny=1, scale=s, fix=fixes[1], kind=kind, order=2) for s in ("1/1000000", "1000000", "1/10000") for kind in grids.KINDS]
    cfgs += [dict(nx=6, ny=3, scale="1/7", fix=fixes[2], kind=grids.KINDS[0], order=2)]
    cfgs += [dict(nx=nx, ny=1, scale="1", fix=["left"], factor=f, order=3) for nx in (1, 2) for f in (1, 2, 3)]
    cfgs += [dict(shape=name, turn=turn, scale=("1", "1/100", "30")[turn], fix=[k % 3, 3], order=3) for k, name in enumerate(shapes.NAMES) for turn in (0, 1, 2)]
    inv = [dict(nx=nx, ny=ny, scale="1", fix=f) for nx, ny in ((1, 1), (2, 2)) for f in fixes] + [dict(nx=1, ny=1, scale="1", factor=2)]
    return [("interpolation", body, cfgs), ("invalid", invalid, inv)]
