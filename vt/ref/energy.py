"""Closed forms of the energies (numpy, vectorised over leading axes; strains have shape (..., 2, 2))."""

import numpy as np

K_REFERENCE = np.eye(2)


def det(F):
    return F[..., 0, 0] * F[..., 1, 1] - F[..., 0, 1] * F[..., 1, 0]


def cof(F):
    """Derivative of det."""
    G = np.empty_like(F)
    G[..., 0, 0], G[..., 0, 1], G[..., 1, 0], G[..., 1, 1] = F[..., 1, 1], -F[..., 1, 0], -F[..., 0, 1], F[..., 0, 0]
    return G


def sqr(F):
    return np.sum(F * F, axis=(-2, -1))


def T(F):
    return np.swapaxes(F, -1, -2)


def _m(x):
    return np.asarray(x)[..., None, None]


def austenite(F):
    J = det(F)
    return sqr(F) - 2 - 2 * np.log(J) + (J - 1) ** 2


def martensite(F):
    J = det(F)
    return (sqr(F) / J - 2.25) ** 2 + (J**2 + J**-2 - 2) ** 2


def d_austenite(F):
    J = det(F)
    return 2 * F + _m(2 * (J - 1) - 2 / J) * cof(F)


def d_martensite(F):
    J, n = det(F), sqr(F)
    return _m(2 * (n / J - 2.25)) * (_m(2 / J) * F - _m(n / J**2) * cof(F)) + _m(
        2 * (J**2 + J**-2 - 2) * (2 * J - 2 * J**-3)
    ) * cof(F)


def magnitude(F):
    """Size of the largest intermediate terms, for tolerances."""
    J = det(F)
    return 5 + sqr(F) + J**2 + (sqr(F) / J) ** 2 + (J**2 + J**-2) ** 2


def share(theta):
    return 1 - np.exp(-5 * theta)


def weight(theta):
    return 1 - np.exp(-5 * theta) * (1 + 5 * theta)


def antider_weight(theta):
    return theta - 0.4 * (1 - np.exp(-5 * theta)) + theta * np.exp(-5 * theta)


def elastic(F, theta):
    a = share(theta)
    return a * austenite(F) + (1 - a) * martensite(F)


def dissipation(P, F):
    D = F - P
    return sqr(T(D) @ P + T(P) @ D) / 2


def conductivity(F):
    G = T(cof(F)) / _m(det(F))  # inverse
    return _m(det(F)) * (G @ K_REFERENCE @ T(G))


def rotation(phi):
    return np.array([[np.cos(phi), -np.sin(phi)], [np.sin(phi), np.cos(phi)]])
