"""Reference finite elements: affine functions and the Bell element, by solving for polynomial coefficients.

Nothing here uses barycentric shape functions: the Bell element of a triangle is the polynomial of degree 5 in shifted and
scaled Cartesian coordinates that satisfies 18 nodal conditions and 3 conditions on the normal derivative (its quartic
coefficient along each edge vanishes).
"""

from functools import lru_cache

import numpy as np

EXPONENTS = [(m, n) for d in range(6) for m in range(d, -1, -1) for n in [d - m]]  # 21 monomials
POW_M = np.array([m for m, _ in EXPONENTS])
POW_N = np.array([n for _, n in EXPONENTS])


def _mono(x, y, dx=0, dy=0):
    """Derivatives of all monomials at points: array (points, 21)."""
    x, y = np.atleast_1d(np.asarray(x, float)), np.atleast_1d(np.asarray(y, float))
    cm, cn = np.ones(21), np.ones(21)
    m, n = POW_M.copy(), POW_N.copy()
    for _ in range(dx):
        cm, m = cm * m, m - 1
    for _ in range(dy):
        cn, n = cn * n, n - 1
    ok = (m >= 0) & (n >= 0)
    m, n = np.maximum(m, 0), np.maximum(n, 0)
    return np.where(ok, cm * cn, 0.0) * x[:, None] ** m * y[:, None] ** n


class Bell:
    """Bell element of one triangle; params: 18 values (u, u_x, u_y, u_xx, u_xy, u_yy per vertex)."""

    def __init__(self, corners):
        P = np.array(corners, float)
        self.center = P.mean(axis=0)
        self.h = max(np.linalg.norm(P[i] - P[j]) for i in range(3) for j in range(3))
        Q = (P - self.center) / self.h
        rows = []
        scale = []
        for q in Q:
            for dx, dy in ((0, 0), (1, 0), (0, 1), (2, 0), (1, 1), (0, 2)):
                rows.append(_mono(q[0], q[1], dx, dy)[0])
                scale.append(self.h ** (dx + dy))
        s = np.linspace(-1, 1, 5)
        quartic = np.linalg.inv(np.vander(s))[0]  # coefficient of s^4 of the interpolating quartic
        for i in range(3):
            a, b = Q[i], Q[(i + 1) % 3]
            n = np.array([a[1] - b[1], b[0] - a[0]])
            pts = np.outer((1 - s) / 2, a) + np.outer((1 + s) / 2, b)
            d = n[0] * _mono(pts[:, 0], pts[:, 1], 1, 0) + n[1] * _mono(pts[:, 0], pts[:, 1], 0, 1)
            rows.append(quartic @ d)
        A = np.array(rows)
        self.scale = np.array(scale)
        self.inverse = np.linalg.inv(A)[:, :18]

    def local(self, pts):
        return (np.atleast_2d(np.asarray(pts, float)) - self.center) / self.h

    def coefficients(self, params):
        return self.inverse @ (np.asarray(params, float) * self.scale)

    def value(self, params, pts):
        q = self.local(pts)
        return _mono(q[:, 0], q[:, 1]) @ self.coefficients(params)

    def gradient(self, params, pts):
        q, c = self.local(pts), self.coefficients(params)
        return np.stack([_mono(q[:, 0], q[:, 1], *d) @ c for d in ((1, 0), (0, 1))], axis=1) / self.h

    def hessian(self, params, pts):
        q, c = self.local(pts), self.coefficients(params)
        xx, xy, yy = (_mono(q[:, 0], q[:, 1], *d) @ c / self.h**2 for d in ((2, 0), (1, 1), (0, 2)))
        return np.stack([np.stack([xx, xy], 1), np.stack([xy, yy], 1)], axis=1)


@lru_cache(maxsize=None)
def bell(corners):
    return Bell(corners)


class Affine:
    """Affine function on one triangle with values at the corners."""

    def __init__(self, corners):
        P = np.array(corners, float)
        self.center = P.mean(axis=0)
        self.h = max(np.linalg.norm(P[i] - P[j]) for i in range(3) for j in range(3))
        self.inverse = np.linalg.inv(np.hstack([np.ones((3, 1)), (P - self.center) / self.h]))

    def value(self, params, pts):
        q = (np.atleast_2d(np.asarray(pts, float)) - self.center) / self.h
        return np.hstack([np.ones((len(q), 1)), q]) @ (self.inverse @ np.asarray(params, float))

    def gradient(self, params, pts):
        c = self.inverse @ np.asarray(params, float)
        return np.tile(c[1:] / self.h, (len(np.atleast_2d(pts)), 1))


@lru_cache(maxsize=None)
def affine(corners):
    return Affine(corners)


def corners_of(points, triangle):
    return tuple((float(points[v][0]), float(points[v][1])) for v in triangle)


LATTICE5 = [(i / 5, j / 5) for i in range(6) for j in range(6 - i)]  # 21 points, unisolvent for degree 5


def monomial_params(m, n, p, origin=(0.0, 0.0), h=1.0):
    """Vertex data of ((x-ox)/h)^m ((y-oy)/h)^n at p."""
    x, y = (p[0] - origin[0]) / h, (p[1] - origin[1]) / h

    def d(k, e, t):
        c = 1.0
        for i in range(k):
            c *= e - i
        return c * t ** (e - k) if e >= k else 0.0

    return [d(a, m, x) * d(b, n, y) / h ** (a + b) for a, b in ((0, 0), (1, 0), (0, 1), (2, 0), (1, 1), (0, 2))]
