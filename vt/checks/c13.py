"""C13: the C1 interpolation is continuously differentiable across edges."""

import numpy as np

from vt import dom, grids, shapes
from vt.core import THOROUGH, require
from vt.ref import fem, mesh

LEVEL = "exploration"
RULE = (
    "a case is one grid (rectangles, refined, mapped and reoriented triangulations), one vector of parameters (every basis"
    " vector, independent values), one vertex or edge and one of 6 positions along it (a polynomial of degree 5 in the edge"
    " parameter is determined by them), compared between the adjacent triangles, the edge restriction and the reference"
)
ASSUMPTIONS = ["relative tolerance 1e-9"]


def body(cfg, ch):
    from tvemoves_rufbad.interpolation import C1Interpolation
    from tvemoves_rufbad.tensors import BarycentricCoordinates

    grid, scale = grids.make(cfg)
    what = dom.describe(cfg)
    n = len(grid.vertices)
    snap = mesh.snapshot(grid)
    by_edge = {}
    for t in grid.triangles:
        for k in range(3):
            by_edge.setdefault(frozenset((t[k], t[(k + 1) % 3])), []).append(t)
    tol = 1e-9

    def inside(f, t, e, s):
        """Value, gradient on the edge (parameter s at e[0]) computed in triangle t."""
        w = [s if v == e[0] else 1 - s if v == e[1] else 0.0 for v in t]
        bc = BarycentricCoordinates(w[0], w[1])
        g = f.gradient(t, bc)
        return float(f(t, bc)), np.array([float(g[0]), float(g[1])])

    for name, params in grids.c1_families(n, scale, cfg["full"]):
        f = C1Interpolation(grid, params)
        active = {v for v in range(n) if any(params[v])}
        if name.startswith("parameter"):
            edges = [e for e in grid.edges if any(v in active for t in by_edge[frozenset(e)] for v in t)]
        else:
            edges = list(grid.edges)
        for i, j in edges:
            for e in ((i, j), (j, i)):
                for k in range(6):
                    s = k / 5
                    m = f"{what}: {name}, edge {e}, parameter {s}"
                    u = float(f.on_edge(e, s))
                    ts = by_edge[frozenset(e)]
                    vals = [inside(f, t, e, s) for t in ts]
                    for t, (v, g) in zip(ts, vals):
                        require(abs(u - v) <= tol, f"{m}: restriction {u}, value {v} in triangle {t}")
                        d = np.abs(g - vals[0][1]).max()
                        require(d * scale <= tol, f"{m}: gradients {g} in {t} and {vals[0][1]} in {ts[0]} differ")
                    p = [s * a + (1 - s) * b for a, b in zip(grid.points[e[0]], grid.points[e[1]])]
                    c = fem.bell(fem.corners_of(grid.points, ts[0]))
                    r = c.value([x for v in ts[0] for x in params[v]], [p])[0]
                    require(abs(u - r) <= tol, f"{m}: restriction {u}, expected {r}")
                    ch.case((what, name, e, s))
            for v, s in ((i, 1.0), (j, 0.0)):
                u = float(f.on_edge((i, j), s))
                require(abs(u - params[v][0]) <= tol, f"{what}: {name}, edge {(i, j)}: value {u} at vertex {v}, expected {params[v][0]}")
        for t in grid.triangles:
            for k, v in enumerate(t):
                w = [float(k == 0), float(k == 1)]
                bc = BarycentricCoordinates(*w)
                g, h = f.gradient(t, bc), f.hessian(t, bc)
                got = [float(f(t, bc)), float(g[0]), float(g[1]), float(h[0, 0]), float(h[0, 1]), float(h[1, 1])]
                for q, (a, b) in enumerate(zip(got, params[v])):
                    unit = scale ** [0, 1, 1, 2, 2, 2][q]
                    require(abs(a - b) * unit <= tol, f"{what}: {name}: parameter {q} at vertex {v} is {a} in triangle {t} instead of {b}")
                require(abs(h[0, 1] - h[1, 0]) * scale**2 <= tol, f"{what}: second derivatives {h} are not symmetric")
                ch.case((what, name, t, v))
    require(mesh.snapshot(grid) == snap, f"{what}: the grid was changed")


def parts():
    cfgs = []
    for nx, ny in ((1, 1), (2, 1), (2, 2)) + (((3, 3), (1, 5)) if THOROUGH else ()):
        for scale in ("1", "1/10") + (("100", "1/3") if THOROUGH else ()):
            for kind in grids.KINDS:
                cfgs.append(dict(nx=nx, ny=ny, scale=scale, kind=kind, full=True))
    cfgs += [dict(nx=1, ny=1, scale="1", factor=f, full=True) for f in (2, 3)]
    cfgs += [dict(nx=1, ny=1, scale=s, kind=k, full=False) for s in ("1/10000", "10000") for k in grids.KINDS]
    cfgs += [dict(nx=nx, ny=ny, scale=s, kind=k, full=False) for nx, ny in ((3, 2), (1, 6)) for s in ("1/3", "5/2") for k in grids.KINDS]
    cfgs.sort(key=lambda c: -c["nx"] * c["ny"] * c.get("factor", 1) * c["full"])
    cfgs += [dict(shape=name, turn=turn, scale=("1", "1/100", "30")[turn], full=THOROUGH) for name in shapes.NAMES for turn in (0, 1, 2)]
    return [("continuity", body, cfgs)]
