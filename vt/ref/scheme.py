"""Reference functionals of the scheme (numpy, independent of the library's elements, rules and potentials).

Arrays have the shapes of the library's data: y (N, 2) and theta (N,) without regularisation, y (N, 2, 6) and theta (N_refined,)
with regularisation. A leading axis of candidates is allowed where stated.
"""

import numpy as np

from vt.ref import energy, fem

# integration rules on triangles: barycentric points and weights (sum 1)
_A5, _B5 = 0.470142064105115, 0.101286507323456
_W5 = (0.225, 0.132394152788506, 0.125939180544827)


def _perm(a):
    return [(1 - 2 * a, a, a), (a, 1 - 2 * a, a), (a, a, 1 - 2 * a)]


DEGREE2 = [(p, 1 / 3) for p in _perm(1 / 6)]
DEGREE5 = [((1 / 3, 1 / 3, 1 / 3), _W5[0])] + [(p, _W5[1]) for p in _perm(_A5)] + [(p, _W5[2]) for p in _perm(_B5)]


def _area(c):
    (ax, ay), (bx, by), (cx, cy) = c
    return abs((bx - ax) * (cy - ay) - (cx - ax) * (by - ay)) / 2


class Space:
    """Integration points of a grid with the linear maps from data to strains, second derivatives and temperatures."""

    def __init__(self, grid, refined=None):
        self.grid, self.refined = grid, refined
        self.n = len(grid.vertices)
        fine = grid if refined is None else refined
        self.m = len(fine.vertices)
        self.points = np.array([[float(p[0]), float(p[1])] for p in grid.points])
        self.fine_points = np.array([[float(p[0]), float(p[1])] for p in fine.points])
        rule = DEGREE2 if refined is None else DEGREE5
        dofs = 1 if refined is None else 6
        W, G, H, TH, DT = [], [], [], [], []
        for t in fine.triangles:
            c = fem.corners_of(fine.points, t)
            area = _area(c)
            aff = fem.affine(c)
            dphi = np.array([aff.gradient(e, [c[0]])[0] for e in np.eye(3)]).T  # (2, 3)
            if refined is not None:
                ct = self._coarse_triangle(np.mean(c, axis=0))
                b = fem.bell(fem.corners_of(grid.points, ct))
                C = b.inverse * b.scale[None, :]  # (21, 18)
            for lam, w in rule:
                W.append(area * w)
                th, dt = np.zeros(self.m), np.zeros((2, self.m))
                for k, v in enumerate(t):
                    th[v] += lam[k]
                    dt[:, v] += dphi[:, k]
                TH.append(th)
                DT.append(dt)
                g, h = np.zeros((2, self.n, dofs)), np.zeros((2, 2, self.n, dofs))
                if refined is None:
                    for k, v in enumerate(t):
                        g[:, v, 0] += dphi[:, k]
                else:
                    q = b.local([np.array(lam) @ np.array(c)])
                    for i, d in enumerate(((1, 0), (0, 1))):
                        r = (fem._mono(q[:, 0], q[:, 1], *d) @ C / b.h)[0]
                        for k, v in enumerate(ct):
                            g[i, v] += r[6 * k : 6 * k + 6]
                    for (i, j), d in (((0, 0), (2, 0)), ((0, 1), (1, 1)), ((1, 0), (1, 1)), ((1, 1), (0, 2))):
                        r = (fem._mono(q[:, 0], q[:, 1], *d) @ C / b.h**2)[0]
                        for k, v in enumerate(ct):
                            h[i, j, v] += r[6 * k : 6 * k + 6]
                G.append(g)
                H.append(h)
        self.W, self.G, self.H, self.TH, self.DT = map(np.array, (W, G, H, TH, DT))
        self.dofs = dofs

    def _coarse_triangle(self, p):
        best = None
        for t in self.grid.triangles:
            c = fem.corners_of(self.grid.points, t)
            lam = np.linalg.solve(np.vstack([np.array(c).T, np.ones(3)]), [p[0], p[1], 1])
            if best is None or lam.min() > best[0]:
                best = (lam.min(), t)
        return best[1]

    # -- fields at integration points ------------------------------------------------------------------
    def strain(self, y):
        """y (..., N, 2[, 6]) -> (..., Q, 2, 2)."""
        y = np.asarray(y, float)
        if self.dofs == 1:
            y = y[..., None]
        return np.einsum("qjvd,...vid->...qij", self.G, y, optimize=True)

    def hyper_strain_norm(self, y):
        h = np.einsum("qjkvd,...vid->...qijk", self.H, np.asarray(y, float), optimize=True)
        return np.sqrt(np.sum(h * h, axis=(-3, -2, -1)))

    def temperature(self, theta):
        return np.asarray(theta, float) @ self.TH.T

    def temperature_gradient(self, theta):
        return np.einsum("qjv,...v->...qj", self.DT, np.asarray(theta, float), optimize=True)

    def identity(self):
        if self.dofs == 1:
            return self.points.copy()
        y = np.zeros((self.n, 2, 6))
        y[:, :, 0] = self.points
        y[:, 0, 1] = y[:, 1, 2] = 1
        return y

    # -- functionals ----------------------------------------------------------------------------------
    def mechanical(self, y, prev_y, prev_theta, fps, traction=None, regularization=None):
        """Incremental energy of candidates y (K, ...). traction: dict vertex -> (g1, g2) on the free boundary."""
        F, P, th = self.strain(y), self.strain(prev_y), self.temperature(prev_theta)
        out = energy.elastic(F, th) @ self.W + fps * (energy.dissipation(P, F) @ self.W)
        if regularization is not None:
            out = out + regularization * (self.hyper_strain_norm(y) ** 3 @ self.W)
        if traction is not None:
            y = np.asarray(y, float)
            for i, j in self.grid.neumann_boundary.edges:
                length = np.linalg.norm(self.points[i] - self.points[j])
                g = (np.array(traction[i]) + np.array(traction[j])) / 2
                out = out - length * ((y[..., i, :] + y[..., j, :]) / 2) @ g
        return out

    def mechanical_size(self, y, prev_y, prev_theta, fps, traction=None, regularization=None):
        """Size of the terms, for tolerances."""
        F, P = self.strain(y), self.strain(prev_y)
        out = (energy.magnitude(F) + fps * (1 + energy.sqr(F) + energy.sqr(P)) ** 2) @ self.W
        if regularization:
            out = out + regularization * (self.hyper_strain_norm(y) ** 3 @ self.W)
        if traction:
            out = out + np.abs(np.array(list(traction.values()))).max() * np.abs(y).max() * 4
        return out

    def thermal(self, theta, prev_y, y, prev_theta, fps, external=None):
        """Heat functional of candidates theta (K, M)."""
        P, F = self.strain(prev_y), self.strain(y)
        tp, t, dt = self.temperature(prev_theta), self.temperature(theta), self.temperature_gradient(theta)
        K = energy.conductivity(P)
        conduction = np.einsum("kqi,qij,kqj->kq", dt, K, dt)
        rate = (F - P) * fps
        coupling = energy.share(tp) * np.sum((energy.d_austenite(P) - energy.d_martensite(P)) * rate, axis=(-2, -1))
        source = (2 * fps**2 * energy.dissipation(P, F) + coupling) * t
        gap = lambda G: energy.austenite(G) - energy.martensite(G)
        inner = 5 * (t - tp) ** 2 + energy.antider_weight(t) * gap(F) - energy.weight(tp) * gap(P) * t
        out = (conduction - source + fps * inner) @ self.W
        if external is not None:
            theta = np.asarray(theta, float)
            for i, j in self.grid.boundary.edges:
                length = np.linalg.norm(self.points[i] - self.points[j])
                out = out + length * 0.25 * ((theta[..., i] + theta[..., j]) / 2 - external) ** 2
        return out

    def thermal_size(self, theta, prev_y, y, prev_theta, fps, external=None):
        P, F = self.strain(prev_y), self.strain(y)
        t = 1 + np.abs(self.temperature(theta)) + np.abs(self.temperature(prev_theta))
        J = energy.det(P)
        d = energy.magnitude(P) * (1 + 1 / J) ** 3 * (1 + np.sqrt(energy.sqr(F - P)))
        out = ((1 + fps) ** 2 * (d + energy.magnitude(F)) * t**2) @ self.W
        dt = self.temperature_gradient(theta)
        out = out + (np.sum(dt * dt, axis=-1) * energy.sqr(P) / J) @ self.W
        if external is not None:
            out = out + (t.max() + abs(external)) ** 2
        return out
