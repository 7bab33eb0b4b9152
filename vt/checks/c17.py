"""C17: dissipation, hyper-elasticity and heat conduction are frame indifferent."""

import itertools

import numpy as np

from vt import strains
from vt.core import THOROUGH, close, require
from vt.ref import energy

LEVEL = "exploration"
RULE = (
    "a case is one pair of strains and frame rate or rotation (dissipation), one array of second derivatives"
    " (hyper-elasticity), or one strain and rotation (conduction); equal cases are counted once"
)
ASSUMPTIONS = ["strains, rotations, frame rates and second derivatives from finite alphabets, relative tolerance 1e-11"]
EPS = 1e-11


def mat(f):
    from tvemoves_rufbad.tensors import Matrix

    return Matrix([[float(x) for x in row] for row in f])


def dissipation(cfg, ch):
    from tvemoves_rufbad import helpers as h

    prevs = strains.matrices(cfg)[:: cfg["step"]]
    nexts = [f for fam in strains.families() for f in strains.matrices(dict(family=fam))]
    nexts = nexts[:: cfg["other"]]
    for a, p in enumerate(prevs):
        P, Pn = mat(p), np.array(p)
        size = 1 + energy.sqr(Pn) ** 2
        close(h.dissipation_potential(P, mat(p)), 0, EPS * size, f"dissipation_potential({p}, {p})")
        close(h.dissipation_rate(P, mat(p), 7), 0, EPS * size, f"dissipation_rate({p}, {p}, 7)")
        for b, f in enumerate(nexts):
            F, Fn = mat(f), np.array(f)
            size = 1 + (energy.sqr(Pn) + energy.sqr(Fn)) ** 2
            want = energy.dissipation(Pn, Fn)
            u = h.dissipation_potential(P, F)
            close(u, want, EPS * size, f"dissipation_potential({p}, {f})")
            require(u >= 0, f"dissipation_potential({p}, {f}) = {u}")
            for fps in ((0.5, 3), (1, 10), (24, 0.1))[(a + b) % 3]:
                close(h.dissipation_rate(P, F, fps), 2 * fps**2 * want, EPS * size * (1 + fps**2), f"dissipation_rate({p}, {f}, {fps})")
            phi = strains.ANGLES[1 + (a + b) % 6]
            R = energy.rotation(phi)
            close(h.dissipation_potential(mat(R @ Pn), mat(R @ Fn)), want, 10 * EPS * size, f"dissipation_potential of {p}, {f} rotated by {phi}")
            ch.case((p, f), 4)
        require(P == mat(p), f"the strain {p} was changed")


def hyper(cfg, ch):
    from tvemoves_rufbad import helpers as h
    from tvemoves_rufbad.tensors import Tensor3D

    for rest in itertools.product(cfg["alphabet"], repeat=6):
        e = list(cfg["first"]) + list(rest)
        T = Tensor3D([[[e[4 * i + 2 * j + k] for k in range(2)] for j in range(2)] for i in range(2)])
        n = sum(x * x for x in e)
        close(h.hyper_elastic_potential(T), n**1.5, 1e-12 * (1 + n**1.5), f"hyper_elastic_potential({e})")
        ch.case(tuple(e))


def conduction(cfg, ch):
    from tvemoves_rufbad import helpers as h

    seen = []
    for f in strains.matrices(cfg):
        F, Fn = mat(f), np.array(f)
        want = energy.conductivity(Fn)
        size = 1 + energy.sqr(Fn) / energy.det(Fn)
        K = h.heat_conductivity_reference(F)
        require(K.shape == (2, 2), f"heat_conductivity_reference({f}) has shape {K.shape}")
        for i in range(2):
            for j in range(2):
                close(K[i, j], want[i, j], 100 * EPS * size, f"heat_conductivity_reference({f})[{i},{j}]")
        close(K[0, 1], K[1, 0], 100 * EPS * size, f"symmetry of heat_conductivity_reference({f})")
        require(K[0, 0] > 0 and K.det() > 0, f"heat_conductivity_reference({f}) is not positive definite")
        for phi in strains.ANGLES[1:7]:
            G = h.heat_conductivity_reference(mat(energy.rotation(phi) @ Fn))
            for i in range(2):
                for j in range(2):
                    close(G[i, j], K[i, j], 1000 * EPS * size, f"heat_conductivity_reference of {f} rotated by {phi} [{i},{j}]")
            ch.case((f, phi))
        require(F == mat(f), f"the strain {f} was changed")
        ch.case(f, 3)
        seen.append((F, [[K[i, j] for j in range(2)] for i in range(2)]))
    for F, k in seen:
        K = h.heat_conductivity_reference(F)
        require([[K[i, j] for j in range(2)] for i in range(2)] == k, f"conductivity of {F} is not {k} any more")


def expressions(cfg, ch):
    import pyomo.environ as pyo
    from tvemoves_rufbad import helpers as h
    from tvemoves_rufbad.tensors import Matrix

    m = pyo.ConcreteModel()
    m.p = pyo.Param(range(4), initialize=1.0, mutable=True)
    m.f = pyo.Var(range(4), initialize=1.0)
    P, F = (Matrix([[x[0], x[1]], [x[2], x[3]]]) for x in (m.p, m.f))
    R, rate, K = h.dissipation_potential(P, F), h.dissipation_rate(P, F, 3), h.heat_conductivity_reference(P)
    fs = strains.matrices(cfg)[::11]
    for p in fs:
        for f in fs:
            for k in range(4):
                m.p[k], m.f[k] = p[k // 2][k % 2], f[k // 2][k % 2]
            Pn, Fn = np.array(p), np.array(f)
            size = 1 + (energy.sqr(Pn) + energy.sqr(Fn)) ** 2 + energy.sqr(Pn) / energy.det(Pn)
            close(pyo.value(R), energy.dissipation(Pn, Fn), EPS * size, f"expression of the dissipation at {p}, {f}")
            close(pyo.value(rate), 18 * energy.dissipation(Pn, Fn), 20 * EPS * size, f"expression of the dissipation rate at {p}, {f}")
            for i in range(2):
                for j in range(2):
                    close(pyo.value(K[i, j]), energy.conductivity(Pn)[i, j], 100 * EPS * size, f"expression of the conductivity at {p}")
            ch.case(("expression", p, f), 3)


def parts():
    fam = [dict(family=f) for f in strains.families()]
    alphabet = [-1.0, 0.0, 0.5, 2.0] if not THOROUGH else [-1.0, 0.0, 0.5, 2.0, -3.0]
    return [
        ("dissipation", dissipation, [dict(c, step=7 if not THOROUGH else 5, other=29 if not THOROUGH else 11) for c in fam]),
        ("hyper-elasticity", hyper, [dict(alphabet=alphabet, first=f) for f in itertools.product(alphabet, repeat=2)]),
        ("conduction", conduction, fam),
        ("expressions", expressions, fam),
    ]
