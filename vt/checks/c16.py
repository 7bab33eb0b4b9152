"""C16: internal energy and heat terms are consistent with the free energy."""

import math

import numpy as np

from vt import strains
from vt.core import close, require
from vt.ref import energy

LEVEL = "exploration"
RULE = "a case is one function, one deformation gradient with positive determinant and one temperature; equal cases are counted once"
ASSUMPTIONS = ["deformation gradients and temperatures from finite alphabets, relative tolerance 1e-10 (1e-6 for difference quotients)"]
EPS = 1e-10


def closed(cfg, ch):
    from tvemoves_rufbad import helpers as h
    from tvemoves_rufbad.tensors import Matrix

    fs = strains.matrices(cfg)[:: cfg["step"]]
    arr = np.array(fs)
    gap = energy.austenite(arr) - energy.martensite(arr)
    dgap = energy.d_austenite(arr) - energy.d_martensite(arr)
    sizes = energy.magnitude(arr)
    dsizes = sizes * (1 + 1 / energy.det(arr)) ** 3
    for theta in strains.THETAS + [5e-4, 9e-4, 4e-3, 0.03, 1.3, 2.7, 3.5, 4.2, 5.5, 7.0]:
        for k, f in enumerate(fs):
            F = Matrix([list(f[0]), list(f[1])])
            tol = EPS * sizes[k] * (1 + theta)
            cold = sizes[k] * (EPS * energy.weight(theta) + 1e-13 * (1 + theta))  # small where the terms are small
            m = f"({f}, {theta})"
            u = h.internal_energy_no_entropy(F, theta)
            close(u, energy.weight(theta) * gap[k], cold, f"internal_energy_no_entropy{m}")
            close(h.internal_energy(F, theta), energy.weight(theta) * gap[k] + 10 * theta, tol, f"internal_energy{m}")
            close(h.temp_antrider_internal_energy_no_entropy(F, theta), energy.antider_weight(theta) * gap[k], cold, f"antiderivative of the internal energy{m}")
            d = h.strain_derivative_coupling_potential(F, theta)
            require(d.shape == (2, 2), f"strain_derivative_coupling_potential{m} has shape {d.shape}")
            for i in range(2):
                for j in range(2):
                    close(d[i, j], energy.share(theta) * dgap[k, i, j], EPS * dsizes[k], f"strain_derivative_coupling_potential{m}[{i},{j}]")
            # W - theta dW/dtheta with the share the library offers
            e = 1e-5
            da = (h.austenite_percentage(theta + e) - h.austenite_percentage(theta - e)) / (2 * e)
            w = h.austenite_percentage(theta) - theta * da
            close(u, w * (h.austenite_potential(F) - h.martensite_potential(F)), 1e-7 * sizes[k] * (1 + theta), f"W - theta dW/dtheta{m}")
            # derivative of the antiderivative
            q = [h.temp_antrider_internal_energy_no_entropy(F, theta + s) for s in (e, -e)]
            close((q[0] - q[1]) / (2 * e), u, 1e-7 * sizes[k] * (1 + theta), f"temperature derivative of the antiderivative{m}")
            if theta == 0:
                close(h.temp_antrider_internal_energy_no_entropy(F, 0), 0, 1e-12 * sizes[k], f"antiderivative at temperature zero, {f}")
                close(h.internal_energy(F, 0), 0, 1e-12 * sizes[k], f"internal energy at temperature zero, {f}")
            require(F == Matrix([list(f[0]), list(f[1])]), f"the argument {f} was changed")
            ch.case((f, theta), 6)


def share(cfg, ch):
    from tvemoves_rufbad import helpers as h

    step = cfg["step"]
    last = None
    for k in range(cfg["n"]):
        theta = k * step
        a = h.austenite_percentage(theta)
        close(a, -math.expm1(-5 * theta), 1e-12, f"austenite_percentage({theta})")
        require(0 <= a <= 1, f"austenite_percentage({theta}) = {a}")
        require(last is None or a > last or a > 1 - 1e-12, f"austenite_percentage does not rise at {theta}")
        last = a
        ch.case(theta)
    require(h.austenite_percentage(0) == 0, f"austenite_percentage(0) = {h.austenite_percentage(0)}")
    require(h.austenite_percentage(100) > 1 - 1e-12, "austenite_percentage does not tend to 1")


def expressions(cfg, ch):
    import pyomo.environ as pyo
    from tvemoves_rufbad import helpers as h
    from tvemoves_rufbad.tensors import Matrix

    m = pyo.ConcreteModel()
    m.x = pyo.Param(range(4), initialize=1.0, mutable=True)
    m.t = pyo.Var(initialize=0.5)
    F = Matrix([[m.x[0], m.x[1]], [m.x[2], m.x[3]]])
    ie, ft, an = h.internal_energy_no_entropy(F, m.t), h.internal_energy(F, m.t), h.temp_antrider_internal_energy_no_entropy(F, m.t)
    d = h.strain_derivative_coupling_potential(F, m.t)
    for f in strains.matrices(cfg)[:: 7]:
        a = np.array(f)
        for k in range(4):
            m.x[k] = f[k // 2][k % 2]
        gap = energy.austenite(a) - energy.martensite(a)
        dgap = energy.d_austenite(a) - energy.d_martensite(a)
        size = energy.magnitude(a) * (1 + 1 / energy.det(a)) ** 3
        for theta in (0.0, 0.1, 0.7, 3.0):
            m.t.set_value(theta)
            w = f"expression at {f}, {theta}: "
            close(pyo.value(ie), energy.weight(theta) * gap, EPS * size, w + "internal energy")
            close(pyo.value(ft), energy.weight(theta) * gap + 10 * theta, EPS * size, w + "internal energy with entropy")
            close(pyo.value(an), energy.antider_weight(theta) * gap, EPS * size * (1 + theta), w + "antiderivative")
            for i in range(2):
                for j in range(2):
                    close(pyo.value(d[i, j]), energy.share(theta) * dgap[i, j], EPS * size, w + f"coupling derivative [{i},{j}]")
            ch.case(("expression", f, theta), 7)


def parts():
    fam = [dict(family=f, step=2) for f in strains.families()]
    return [
        ("closed forms", closed, fam),
        ("share", share, [dict(step=0.001, n=2000), dict(step=0.05, n=1000), dict(step=1, n=100)]),
        ("expressions", expressions, fam),
    ]
