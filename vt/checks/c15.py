"""C15: the elastic energies have the right wells, symmetry and derivatives."""

import math

import numpy as np

from vt import strains
from vt.core import close, require
from vt.ref import energy

LEVEL = "exploration"
RULE = (
    "a case is one function, one deformation gradient with positive determinant (lattice of entries; all products rotation"
    " x stretch x rotation; wells) and, where there is one, a rotation or temperature; equal cases are counted once"
)
ASSUMPTIONS = ["deformation gradients and temperatures from finite alphabets, relative tolerance 1e-10 (1e-6 for difference quotients)"]
EPS = 1e-10


def fns():
    from tvemoves_rufbad import helpers as h

    return [
        ("austenite", h.austenite_potential, h.derivative_austenite_potential, energy.austenite, energy.d_austenite),
        ("martensite", h.martensite_potential, h.derivative_martensite_potential, energy.martensite, energy.d_martensite),
    ]


def closed(cfg, ch):
    from tvemoves_rufbad import helpers as h
    from tvemoves_rufbad.tensors import Matrix

    fs = strains.matrices(cfg)
    arr = np.array(fs)
    sizes = energy.magnitude(arr)
    seen = []
    for name, w, dw, ref, dref in fns():
        want, dwant = ref(arr), dref(arr)
        for k, f in enumerate(fs):
            F = Matrix([list(f[0]), list(f[1])])
            size = sizes[k]
            u = w(F)
            close(u, want[k], EPS * size, f"{name}_potential({f})")
            require(u >= -EPS * size, f"{name}_potential({f}) = {u} is negative")
            if name == "austenite":
                off = np.abs(arr[k].T @ arr[k] - np.eye(2)).max()
                require(off < 1e-9 or u > 1e-3 * min(1, off) ** 2, f"austenite_potential({f}) = {u} vanishes off the rotations")
            J = energy.det(arr[k])
            d = dw(F)
            require(d.shape == (2, 2), f"derivative_{name}_potential({f}) has shape {d.shape}")
            for i in range(2):
                for j in range(2):
                    close(d[i, j], dwant[k, i, j], EPS * size * (1 + 1 / J) ** 3, f"derivative_{name}_potential({f})[{i},{j}]")
            require(F == Matrix([list(f[0]), list(f[1])]), f"{name}_potential changed its argument {f}")
            ch.case((name, f), 2)
            seen.append((w, f, u))
        for k in range(0, len(fs), 3):  # derivatives against difference quotients of the offered energy
            J = energy.det(arr[k])
            e = 1e-5 * min(1, J)
            d = dw(Matrix([list(fs[k][0]), list(fs[k][1])]))
            for i in range(2):
                for j in range(2):
                    v = []
                    for s in (e, -e):
                        G = [list(fs[k][0]), list(fs[k][1])]
                        G[i][j] += s
                        v.append(w(Matrix(G)))
                    close((v[0] - v[1]) / (2 * e), d[i, j], 1e-6 * sizes[k] * (1 + 1 / J) ** 5,
                          f"difference quotient of {name}_potential({fs[k]}) in [{i},{j}]")
                    ch.case((name, "quotient", fs[k], i, j))
    for w, f, u in reversed(seen):  # again, in another order
        require(w(Matrix([list(f[0]), list(f[1])])) == u, f"energy of {f} is not {u} any more")
        ch.evals()
    # the mixture
    wa, wm = energy.austenite(arr), energy.martensite(arr)
    for theta in strains.THETAS:
        a = 1 - math.exp(-5 * theta)
        close(h.austenite_percentage(theta), a, 1e-12, f"austenite_percentage({theta})")
        for k in range(0, len(fs), 2):
            u = h.total_elastic_potential(Matrix([list(fs[k][0]), list(fs[k][1])]), theta)
            close(u, a * wa[k] + (1 - a) * wm[k], EPS * sizes[k], f"total_elastic_potential({fs[k]}, {theta})")
            ch.case(("total", fs[k], theta))


def invariance(cfg, ch):
    from tvemoves_rufbad import helpers as h
    from tvemoves_rufbad.tensors import Matrix

    fs = strains.matrices(cfg)
    for k, f in enumerate(fs):
        F = np.array(f)
        size = energy.magnitude(F)
        us = [w(Matrix([list(f[0]), list(f[1])])) for _, w, _, _, _ in fns()]
        for phi in strains.ANGLES[1:7] if k % 2 == 0 else strains.ANGLES[1 + k % 5 : 3 + k % 5]:
            G = Matrix((energy.rotation(phi) @ F).tolist())
            for (name, w, _, _, _), u in zip(fns(), us):
                close(w(G), u, EPS * size, f"{name}_potential of {f} rotated by {phi}")
                ch.case((name, f, phi))
            close(h.total_elastic_potential(G, 0.2), h.total_elastic_potential(Matrix([list(f[0]), list(f[1])]), 0.2), EPS * size,
                  f"total_elastic_potential of {f} rotated by {phi}")
            ch.evals()


def wells(cfg, ch):
    from tvemoves_rufbad import helpers as h
    from tvemoves_rufbad.tensors import Matrix

    R = energy.rotation(cfg["angle"])
    zero = np.zeros((2, 2))
    rot = Matrix(R.tolist())
    close(h.austenite_potential(rot), 0, 1e-12, f"austenite_potential at the rotation {cfg}")
    close(h.martensite_potential(rot), 1 / 16, 1e-12, f"martensite_potential at the rotation {cfg}")
    for i in range(2):
        for j in range(2):
            close(h.derivative_austenite_potential(rot)[i, j], 0, 1e-11, f"derivative of austenite at the rotation {cfg}")
    for s in (0.5, -0.5):
        F = Matrix((R @ np.array([[1, s], [0, 1]])).tolist())
        close(h.martensite_potential(F), 0, 1e-12, f"martensite_potential at the shear {s} rotated by {cfg}")
        require(h.austenite_potential(F) > 0.2, f"austenite_potential at the shear {s} rotated by {cfg}")
        for i in range(2):
            for j in range(2):
                close(h.derivative_martensite_potential(F)[i, j], 0, 1e-11, f"derivative of martensite at a well {s} {cfg}")
        ch.case(("well", s, cfg["angle"]), 3)
    for s in (-0.9, -0.3, 0.1, 0.45, 0.55, 1.0):
        F = Matrix((R @ np.array([[1, s], [0, 1]])).tolist())
        close(h.martensite_potential(F), (s * s - 0.25) ** 2, 1e-11, f"martensite_potential at the shear {s} rotated by {cfg}")
        ch.case(("shear", s, cfg["angle"]))


def expressions(cfg, ch):
    """The same functions on solver expressions, re-evaluated after the variables changed."""
    import pyomo.environ as pyo
    from tvemoves_rufbad import helpers as h
    from tvemoves_rufbad.tensors import Matrix

    m = pyo.ConcreteModel()
    m.x = pyo.Var(range(4), initialize=1.0)
    m.t = pyo.Param(initialize=0.5, mutable=True)
    F = Matrix([[m.x[0], m.x[1]], [m.x[2], m.x[3]]])
    exprs = []
    for name, w, dw, ref, dref in fns():
        d = dw(F)
        exprs.append((name, w(F), lambda a, ref=ref: ref(a)))
        for i in range(2):
            for j in range(2):
                exprs.append((f"derivative of {name} [{i},{j}]", d[i, j], lambda a, dref=dref, i=i, j=j: dref(a)[i, j]))
    total = h.total_elastic_potential(F, m.t)
    for f in strains.matrices(cfg)[:: 5]:
        a = np.array(f)
        for k in range(4):
            m.x[k].set_value(f[k // 2][k % 2])
        size = energy.magnitude(a) * (1 + 1 / energy.det(a)) ** 3
        for name, e, ref in exprs:
            close(pyo.value(e), ref(a), EPS * size, f"expression of {name} at {f}")
            ch.case(("expression", name, f))
        for theta in (0.0, 0.2, 1.0):
            m.t.set_value(theta)
            close(pyo.value(total), energy.elastic(a, theta), EPS * size, f"expression of the elastic energy at {f}, {theta}")
            ch.case(("expression", "total", f, theta))


def finite(f):
    """The value of f() if it is an ordinary number, otherwise None (an arithmetic error counts as no value)."""
    try:
        v = f()
    except (ValueError, ArithmeticError):
        return None
    return v if not isinstance(v, complex) and np.isfinite(v) else None


def inverted(cfg, ch):
    """Deformation gradients that turn the material inside out or collapse it have no finite energy."""
    import pyomo.environ as pyo
    from tvemoves_rufbad import helpers as h
    from tvemoves_rufbad.tensors import Matrix

    m = pyo.ConcreteModel()
    m.x = pyo.Var(range(4), initialize=1.0)
    m.t = pyo.Param(initialize=0.5, mutable=True)
    F = Matrix([[m.x[0], m.x[1]], [m.x[2], m.x[3]]])
    exprs = h.austenite_potential(F), h.total_elastic_potential(F, m.t)
    fs = [(f[1], f[0]) for f in strains.matrices(cfg)] + [((a, b), (k * a, k * b)) for a in (0.0, 1.0, 0.5) for b in (0.0, 1.0, -2.0) for k in (0, 1, -2)]
    for n, f in enumerate(fs):
        M = Matrix([list(f[0]), list(f[1])])
        v = finite(lambda: h.austenite_potential(M))
        require(v is None, f"austenite_potential({f}) = {v} is finite, the determinant is not positive")
        for theta in (0.1, 1.0):
            v = finite(lambda: h.total_elastic_potential(M, theta))
            require(v is None, f"total_elastic_potential({f}, {theta}) = {v} is finite, the determinant is not positive")
        if n % 5 == 0:
            for k in range(4):
                m.x[k].set_value(f[k // 2][k % 2])
            for name, e in zip(("austenite_potential", "total_elastic_potential"), exprs):
                v = finite(lambda: pyo.value(e))
                require(v is None, f"expression of {name} at {f} is {v}, the determinant is not positive")
        ch.case(("inverted", f), 3)


def parts():
    fam = [dict(family=f) for f in strains.families()]
    return [
        ("closed forms", closed, fam),
        ("invariance", invariance, fam),
        ("wells", wells, [dict(angle=0.05 * k) for k in range(0, 126)]),
        ("expressions", expressions, fam),
        ("inverted", inverted, fam),
    ]
