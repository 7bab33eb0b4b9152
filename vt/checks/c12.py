"""C12: the Bell element is the quintic Hermite interpolation of its vertex data."""

from itertools import permutations, product

import numpy as np

from vt import dom
from vt.core import THOROUGH, raises, require
from vt.ref import fem

LEVEL = "exploration"
RULE = (
    "a case is one triangle (all orders of its corners), one of the 18 basis vectors of vertex data (the interpolation is"
    " linear in the data, which is checked too) or one monomial of degree at most 4, and one of the 21 positions that"
    " determine a polynomial of degree 5; value, gradient and second derivatives are compared with an independent solution"
    " of the Hermite conditions"
)
ASSUMPTIONS = ["triangles of the listed family, scaled from 1e-4 to 1e4", "relative tolerance 1e-8"]

BASE = [
    ((0, 0), (1, 0), (1, 1)), ((1, 1), (0, 1), (0, 0)), ((0, 0), (1, 0), (0, 1)), ((0, 0), (2, 0), (0.5, 1.5)),
    ((-1, 0.3), (0.7, -0.4), (0.2, 0.9)), ((0, 0), (1, 0.2), (1.5, 1.1)), ((0, 0), (3, 0.1), (1.2, 0.8)),
]


def corners(cfg):
    s, (ox, oy) = cfg["scale"], cfg["offset"]
    return [(s * (x + ox), s * (y + oy)) for x, y in BASE[cfg["base"]]]


def impl(tri, l1, l2, params):
    from tvemoves_rufbad.bell_finite_element import (
        bell_interpolation, bell_interpolation_gradient, bell_interpolation_hessian)
    from tvemoves_rufbad.tensors import BarycentricCoordinates, Vector

    vs = tuple(Vector(list(p)) for p in tri)
    b = BarycentricCoordinates(l1, l2)
    u = bell_interpolation(vs, b, Vector(list(params)))
    g = bell_interpolation_gradient(vs, b, Vector(list(params)))
    h = bell_interpolation_hessian(vs, b, Vector(list(params)))
    require(len(g) == 2 and h.shape == (2, 2), f"shapes of gradient {g} and second derivatives {h}")
    return float(u), np.array([float(x) for x in g]), np.array(h.data, float)


def scaled_basis(h):
    """Basis vectors scaled to give functions of order 1 on a triangle of size h."""
    out = []
    for k in range(18):
        v = np.zeros(18)
        v[k] = h ** -[0, 1, 1, 2, 2, 2][k % 6]
        out.append(v)
    return out


def compare(what, got, u, g, h, size, tol):
    e = (abs(got[0] - u), np.abs(got[1] - g).max() * size, np.abs(got[2] - h).max() * size**2)
    require(
        all(x <= tol for x in e),
        f"{what}: value {got[0]}, gradient {got[1].tolist()}, second derivatives {got[2].tolist()}; expected {u},"
        f" {g.tolist()}, {h.tolist()}",
    )


def element(cfg, ch):
    base = corners(cfg)
    for perm in permutations(range(3)):
        tri = tuple(base[k] for k in perm)
        ref = fem.bell(tri)
        tol = 1e-8 * (1 if cfg["offset"] == (0, 0) else 100)
        pts = [tuple(sum(l * p[d] for l, p in zip((a, b, 1 - a - b), tri)) for d in range(2)) for a, b in fem.LATTICE5]
        for k, params in enumerate(scaled_basis(ref.h)):
            U, G, H = ref.value(params, pts), ref.gradient(params, pts), ref.hessian(params, pts)
            for (a, b), u, g, h in zip(fem.LATTICE5, U, G, H):
                what = f"triangle {tri}, parameter {k} = {params[k]:g}, others 0, at weights {(a, b)}"
                compare(what, impl(tri, a, b, params), u, g, h, ref.h, tol)
                ch.case((tri, k, a, b))
        # monomials of degree at most 4 are reproduced
        for m, n in ((m, d - m) for d in range(5) for m in range(d + 1)):
            o = tuple(ref.center)
            params = [x for p in tri for x in fem.monomial_params(m, n, p, o, ref.h)]
            for (a, b), p in zip(fem.LATTICE5, pts):
                u, gx, gy, xx, xy, yy = fem.monomial_params(m, n, p, o, ref.h)
                what = f"triangle {tri}, data of (x-xc)^{m} (y-yc)^{n}, at weights {(a, b)}"
                compare(what, impl(tri, a, b, params), u, np.array([gx, gy]), np.array([[xx, xy], [xy, yy]]), ref.h, tol)
                ch.case((tri, "monomial", m, n, a, b))
        # linear in the data
        p1 = [((7 * k) % 11 - 5) * s.sum() for k, s in enumerate(scaled_basis(ref.h))]
        for a, b in fem.LATTICE5 + [(0.123, 0.456), (1e-3, 0.5)]:
            p = tuple(sum(l * q[d] for l, q in zip((a, b, 1 - a - b), tri)) for d in range(2))
            what = f"triangle {tri}, all parameters nonzero, at weights {(a, b)}"
            compare(what, impl(tri, a, b, p1), ref.value(p1, [p])[0], ref.gradient(p1, [p])[0], ref.hessian(p1, [p])[0],
                    ref.h, 10 * tol)
            ch.case((tri, "mixed", a, b))


def on_grid(cfg, ch):
    """C1Interpolation takes the data of the right vertices."""
    from tvemoves_rufbad.interpolation import C1Interpolation
    from tvemoves_rufbad.tensors import BarycentricCoordinates

    domain, scale, shape = dom.make(cfg)
    grid = domain.grid(scale)
    n = len(grid.vertices)
    unit = [h for h in (1, 1 / scale, 1 / scale, scale**-2, scale**-2, scale**-2)]
    mixed = [[((5 * v + 3 * j + v * j) % 13 - 6) * unit[j] for j in range(6)] for v in range(n)]
    families = [("all parameters nonzero", mixed)]
    for v in range(n):
        for j in range(6):
            p = [[0.0] * 6 for _ in range(n)]
            p[v][j] = unit[j]
            families.append((f"parameter {j} of vertex {v}", p))
    for name, params in families:
        given = [list(p) for p in params]
        f = C1Interpolation(grid, params)
        for t in grid.triangles:
            c = fem.corners_of(grid.points, t)
            ref = fem.bell(c)
            data = [x for v in t for x in params[v]]
            for a, b in ((1, 0), (0, 1), (0, 0), (0.2, 0.3), (0.5, 0.5)):
                p = tuple(sum(l * q[d] for l, q in zip((a, b, 1 - a - b), c)) for d in range(2))
                bc = BarycentricCoordinates(a, b)
                got = (float(f(t, bc)), np.array([float(x) for x in f.gradient(t, bc)]), np.array(f.hessian(t, bc).data, float))
                compare(f"{dom.describe(cfg)}: {name}, triangle {t}, weights {(a, b)}", got, ref.value(data, [p])[0],
                        ref.gradient(data, [p])[0], ref.hessian(data, [p])[0], scale, 1e-6)
                ch.case((dom.describe(cfg), name, t, a, b))
        require(params == given, f"{dom.describe(cfg)}: the parameters were changed")


def invalid(cfg, ch):
    from tvemoves_rufbad import bell_finite_element as bell
    from tvemoves_rufbad.interpolation import C1Interpolation
    from tvemoves_rufbad.tensors import BarycentricCoordinates, Vector

    vs = tuple(Vector(list(p)) for p in BASE[0])
    b = BarycentricCoordinates(0.25, 0.5)
    for k in range(0, 40):
        for f in (bell.bell_interpolation, bell.bell_interpolation_gradient, bell.bell_interpolation_hessian):
            if k != 18:
                raises(ValueError, lambda: f(vs, b, Vector([1.0] * k)), f"{f.__name__} with {k} parameters")
            else:
                f(vs, b, Vector([1.0] * k))
            ch.case((f.__name__, k))
        if k != 12:
            raises(ValueError, lambda: bell.bell_interpolation_on_edge(vs[:2], 0.5, Vector([1.0] * k)),
                   f"bell_interpolation_on_edge with {k} parameters")
    for nx, ny in ((1, 1), (2, 1), (2, 2)):
        domain, scale, _ = dom.make(dict(nx=nx, ny=ny, scale="1"))
        grid = domain.grid(scale)
        n = len(grid.vertices)
        for m in range(0, n + 4):
            params = [[1.0] * 6 for _ in range(m)]
            if m == n:
                C1Interpolation(grid, params)
            else:
                raises(ValueError, lambda: C1Interpolation(grid, params), f"{m} parameters for {n} vertices")
            ch.case((nx, ny, m))
        for v, k in product(range(n), (0, 1, 3, 5, 7, 12, 18)):
            params = [[1.0] * (k if w == v else 6) for w in range(n)]
            raises(ValueError, lambda: C1Interpolation(grid, params), f"{k} values at vertex {v} of {n}")
            ch.case((nx, ny, v, k))


def parts():
    cfgs = [dict(base=k, scale=s, offset=(0, 0)) for k in range(len(BASE)) for s in (1.0, 1e-2, 100.0)]
    cfgs += [dict(base=k, scale=1.0, offset=o) for k in range(len(BASE)) for o in ((5, 3), (-2, 7))]
    cfgs += [dict(base=k, scale=s, offset=(0, 0)) for k, s in ((0, 1e-4), (0, 1e4), (4, 1e-5), (3, 1e5))]
    if THOROUGH:
        cfgs += [dict(base=k, scale=s, offset=(0, 0)) for k in range(len(BASE)) for s in (1e-4, 1e4, 0.1, 10.0, 0.5)]
    grids = [dict(nx=nx, ny=ny, scale=s) for nx, ny in ((1, 1), (2, 1), (2, 2)) for s in ("1", "1/2", "1/10", "5/2")]
    if THOROUGH:
        grids += [dict(nx=nx, ny=ny, scale=s) for nx, ny in ((3, 3), (1, 6), (5, 2)) for s in ("1/3", "7/10")]
    return [("element", element, cfgs), ("grid", on_grid, grids), ("invalid", invalid, [dict()])]
