"""Alphabets of strains, temperatures and rotations."""

import itertools

import numpy as np

from vt.core import THOROUGH
from vt.ref import energy

ENTRIES = [-1.5, -1.0, -0.4, 0.0, 0.3, 1.0, 1.4] if not THOROUGH else [-3.0, -1.5, -1.0, -0.7, -0.4, 0.0, 0.3, 0.6, 1.0, 1.4, 2.5]
ANGLES = [0.0, 0.3, np.pi / 2, 2.0, np.pi, -2.5, -np.pi / 2] + ([0.05 * k for k in range(1, 120)] if THOROUGH else [])
STRETCHES = [0.3, 0.8, 1.0, 1.25, 2.0] + ([0.1, 0.5, 0.99, 1.01, 4.0] if THOROUGH else [])
THETAS = [0.0, 1e-6, 0.01, 0.1, 0.2, 0.37, 0.5, 1.0, 2.0, 5.0, 30.0, 250.0, 1e4] + ([0.03 * k for k in range(1, 100)] if THOROUGH else [])


def lattice(first):
    """All matrices with positive determinant and given first entry."""
    out = []
    for b, c, d in itertools.product(ENTRIES, repeat=3):
        if first * d - b * c > 0.05:
            out.append(((first, b), (c, d)))
    return out


def stretched(phi):
    """All R(phi) diag(s) R(psi)."""
    out = []
    for psi in ANGLES:
        for s in itertools.product(STRETCHES, repeat=2):
            F = energy.rotation(phi) @ np.diag(s) @ energy.rotation(psi)
            out.append(tuple(map(tuple, F.tolist())))
    return out


def matrices(cfg):
    kind, x = cfg["family"]
    if kind == "scaled":  # very small and very large
        return [tuple(tuple(x * e for e in row) for row in f) for f in lattice(1.0)[::2] + stretched(0.3)]
    return lattice(x) if kind == "lattice" else stretched(x)


def families():
    return [("lattice", a) for a in ENTRIES] + [("stretched", p) for p in ANGLES] + [("scaled", s) for s in (0.05, 0.2, 5.0, 30.0)]
