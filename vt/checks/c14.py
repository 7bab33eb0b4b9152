"""C14: refined and Euclidean views and deformations show the same function."""

import numpy as np

from vt import dom, grids
from vt.core import THOROUGH, Violation, raises, require
from vt.ref import fem, mesh

LEVEL = "exploration"
RULE = (
    "a case is one view (refined, refined twice, Euclidean, deformation, Euclidean deformation) of one affine or C1"
    " interpolation with one vector of parameters (basis, independent values), evaluated at one lattice position of one"
    " triangle, edge or point and compared with the reference function of the coarse triangle there"
)
ASSUMPTIONS = [
    "positions on barycentric lattices; relative tolerance 1e-9",
    "on edges, where derivatives of the function jump, the Euclidean view may answer for any adjacent triangle",
]


class Ref:
    """Reference function given by parameters on a grid."""

    def __init__(self, grid, kind, params, scale):
        self.grid, self.kind, self.params, self.scale = grid, kind, params, scale
        self.corners = {t: fem.corners_of(grid.points, t) for t in grid.triangles}

    def containing(self, p):
        out = []
        for t, (a, b, c) in self.corners.items():
            d = (b[0] - a[0]) * (c[1] - a[1]) - (c[0] - a[0]) * (b[1] - a[1])
            l2 = ((p[0] - a[0]) * (c[1] - a[1]) - (c[0] - a[0]) * (p[1] - a[1])) / d
            l3 = ((b[0] - a[0]) * (p[1] - a[1]) - (p[0] - a[0]) * (b[1] - a[1])) / d
            if min(l2, l3, 1 - l2 - l3) >= -1e-6:
                out.append(t)
        return out

    def element(self, t):
        c = self.corners[t]
        if self.kind == "P1":
            return fem.affine(c), [self.params[v] for v in t]
        return fem.bell(c), [x for v in t for x in self.params[v]]

    def value(self, t, p):
        e, d = self.element(t)
        return e.value(d, [p])[0]

    def gradient(self, t, p):
        e, d = self.element(t)
        return e.gradient(d, [p])[0]

    def hessian(self, t, p):
        e, d = self.element(t)
        return e.hessian(d, [p])[0]


TOL = 1e-9


def close(got, want, unit, what):
    g, w = np.array(got, float), np.array(want, float)
    require(g.shape == w.shape and np.abs(g - w).max() * unit <= TOL, f"{what}: {g.tolist()} instead of {w.tolist()}")


def any_close(got, wants, unit, what):
    g = np.array(got, float)
    if not any(g.shape == np.shape(w) and np.abs(g - w).max() * unit <= TOL for w in wants):
        raise Violation(f"{what}: {g.tolist()} instead of {[np.array(w).tolist() for w in wants]}")


def vector(v):
    return [float(x) for x in v]


def body(cfg, ch):
    from tvemoves_rufbad.interpolation import (
        C1Interpolation, Deformation, EuclideanDeformation, EuclideanInterpolation, P1Interpolation, RefinedInterpolation)
    from tvemoves_rufbad.tensors import BarycentricCoordinates

    domain, scale, shape = dom.make(cfg)
    what = f"{cfg['kind']} on {dom.describe({k: v for k, v in cfg.items() if k != 'kind'})}"
    grid = domain.grid(scale)
    fines = []
    g = grid
    for factor in cfg["chain"]:
        g = domain.refine(g, factor)
        fines.append(g)
    n = len(grid.vertices)
    kind = cfg["kind"]
    make = P1Interpolation if kind == "P1" else C1Interpolation
    families = grids.p1_families(n) if kind == "P1" else grids.c1_families(n, scale, cfg["full"])
    pairs = [(families[k], families[(k * 3 + 1) % len(families)]) for k in range(len(families))]
    weights = grids.weights(cfg["order"]) + [(0.2, 0.7, 0.1), (0.15, 0.25, 0.6)]
    second = kind == "C1"
    factor = int(np.prod(cfg["chain"])) if cfg["chain"] else 1
    fshape = shape.finer(factor)
    for (n1, p1), (n2, p2) in pairs:
        refs = [Ref(grid, kind, p1, scale), Ref(grid, kind, p2, scale)]
        plain = [make(grid, p1), make(grid, p2)]
        fine = list(plain)
        for f in fines:
            fine = [RefinedInterpolation(i, f) for i in fine]
        top = fines[-1] if fines else grid
        deform = Deformation(*fine)
        euclid = EuclideanDeformation(*fine)
        single = EuclideanInterpolation(fine[0])
        name = f"{what}: ({n1}, {n2})"
        for i in range(2):
            require(fine[i].grid is top or mesh.snapshot(fine[i].grid) == mesh.snapshot(top), f"{name}: grid of the view")
        pos = mesh.lattice(top, fshape, what=what)
        for t in top.triangles:
            corners = fem.corners_of(top.points, t)
            mid = grids.at(corners, (1 / 3, 1 / 3, 1 / 3))
            coarse = refs[0].containing(mid)[0]
            for k in range(3 if fines else 1):
                r = t[k:] + t[:k]
                c = corners[k:] + corners[:k]
                for w in weights:
                    p = grids.at(c, w)
                    bc = BarycentricCoordinates(w[0], w[1])
                    m = f"{name}, triangle {r}, weights {w}"
                    val = [ref.value(coarse, p) for ref in refs]
                    grad = [ref.gradient(coarse, p) for ref in refs]
                    close(vector(deform(r, bc)), val, 1, f"{m}: deformation")
                    s = deform.strain(r, bc)
                    require(s.shape == (2, 2), f"{m}: shape of the strain {s.shape}")
                    close(s.data, grad, scale, f"{m}: strain")
                    for i in range(2):
                        close(deform[i](r, bc), val[i], 1, f"{m}: component {i}")
                        close(vector(deform[i].gradient(r, bc)), grad[i], scale, f"{m}: gradient of component {i}")
                        if second:
                            close(deform[i].hessian(r, bc).data, refs[i].hessian(coarse, p), scale**2,
                                  f"{m}: second derivatives of component {i}")
                    if second:
                        h = deform.hyper_strain(r, bc)
                        require(h.shape == (2, 2, 2), f"{m}: shape of the hyper-strain {h.shape}")
                        close(h.data, [ref.hessian(coarse, p) for ref in refs], scale**2, f"{m}: hyper-strain")
                    ch.case((name, r, w))
            if cfg["euclid"]:
                for w in weights:
                    p = grids.at(corners, w)
                    m = f"{name}, point {p}"
                    inside = min(w) > 1e-3
                    ts = [coarse] if inside else refs[0].containing(p)
                    val = [ref.value(ts[0], p) for ref in refs]
                    grads = [[ref.gradient(q, p) for ref in refs] for q in ts]
                    close(vector(euclid(*p)), val, 1, f"{m}: Euclidean deformation")
                    close(single(*p), val[0], 1, f"{m}: Euclidean interpolation")
                    close([euclid[0](*p), euclid[1](*p)], val, 1, f"{m}: Euclidean components")
                    any_close(euclid.strain(*p).data, grads, scale, f"{m}: Euclidean strain")
                    any_close(vector(single.gradient(*p)), [g[0] for g in grads], scale, f"{m}: Euclidean gradient")
                    if second:
                        hs = [[ref.hessian(q, p) for ref in refs] for q in ts]
                        any_close(euclid.hyper_strain(*p).data, hs, scale**2, f"{m}: Euclidean hyper-strain")
                        any_close(single.hessian(*p).data, [h[0] for h in hs], scale**2, f"{m}: Euclidean second derivatives")
                    ch.case((name, "euclid", t, w))
        for e in top.edges:
            (a, b), (c, d) = pos[e[0]], pos[e[1]]
            on = b % factor == 0 if b == d else a % factor == 0 if a == c else (a - b) % factor == 0
            if fines and not on:
                raises(ValueError, lambda: deform.on_edge(e, 0.5), f"{name}: deformation on edge {e}, not on a coarse edge")
                raises(ValueError, lambda: fine[0].on_edge(e, 0.25), f"{name}: restriction to edge {e}, not on a coarse edge")
                ch.case((name, "no edge", e))
                continue
            for k in range(6):
                s = k / 5
                p = [s * x + (1 - s) * y for x, y in zip(top.points[e[0]], top.points[e[1]])]
                q = refs[0].containing(p)[0]
                val = [ref.value(q, p) for ref in refs]
                m = f"{name}, edge {e}, parameter {s}"
                close(vector(deform.on_edge(e, s)), val, 1, f"{m}: deformation")
                close([fine[0].on_edge(e, s), deform[1].on_edge(e, s)], val, 1, f"{m}: components")
                ch.case((name, e, s))
        size = max(shape.nx, shape.ny) * scale
        for p in ((-0.1 * size, 0.0), (1.1 * size, 0.5 * size), (0.0, -1e-3 * size), (2 * size, 2 * size), (-size, 3 * size)):
            calls = [("value", euclid), ("strain", euclid.strain), ("component", euclid[1]), ("value", single),
                     ("gradient", single.gradient)]
            if second:
                calls += [("hyper-strain", euclid.hyper_strain), ("second derivatives", single.hessian)]
            for c, f in calls:
                raises(ValueError, lambda: f(*p), f"{name}: {c} at {p}, outside of the grid")
            ch.case((name, "outside", p))


def mixed(cfg, ch):
    """Euclidean deformations whose components live on different grids."""
    from tvemoves_rufbad.interpolation import C1Interpolation, EuclideanDeformation, P1Interpolation, RefinedInterpolation

    base = dict(nx=2, ny=2, scale=cfg["scale"], fix=["left"])
    domain, scale, shape = dom.make(base)
    made = []
    for component, name in enumerate(cfg["components"]):
        kind, cells, factor = name
        s = scale * 2 / cells
        grid = domain.grid(s)
        n = len(grid.vertices)
        if kind == "P1":
            data = grids.p1_families(n)[component][1]
            f = P1Interpolation(grid, data)
        else:
            data = grids.c1_families(n, s, full=False)[0][1]
            f = C1Interpolation(grid, data)
        ref = Ref(grid, kind, data, s)
        if factor:
            f = RefinedInterpolation(f, domain.refine(grid, factor))
        made.append((f, ref, s))
    what = f"components {cfg['components']} on {dom.describe(base)}"
    y = EuclideanDeformation(made[0][0], made[1][0])
    size = 2 * scale
    n = cfg["points"]
    for i in range(n + 1):
        for j in range(n + 1):
            p = (size * (i + 0.31) / (n + 0.7), size * (j + 0.17) / (n + 0.5))
            m = f"{what}: point {p}"
            got, strain = vector(y(*p)), y.strain(*p)
            hyper = y.hyper_strain(*p) if all(c[0] == "C1" for c in cfg["components"]) else None
            for k, (_, ref, s) in enumerate(made):
                ts = ref.containing(p)
                close(got[k], ref.value(ts[0], p), 1, f"{m}: component {k} of the value")
                close(y[k](*p), ref.value(ts[0], p), 1, f"{m}: component {k}")
                any_close([strain[k, 0], strain[k, 1]], [ref.gradient(t, p) for t in ts], s, f"{m}: row {k} of the strain")
                if hyper is not None:
                    any_close(hyper.data[k], [ref.hessian(t, p) for t in ts], s * s, f"{m}: slice {k} of the hyper-strain")
            ch.case((what, p))


def parts():
    cfgs = []
    for kind in ("P1", "C1"):
        for nx, ny, scale in ((1, 1, "1"), (1, 1, "1/10"), (2, 1, "1/2")):
            for chain in ([], [1], [2], [3], [2, 2]) + (([4], [5], [2, 3], [3, 2], [1, 2]) if THOROUGH else ()):
                f = int(np.prod(chain)) if chain else 1
                if kind == "C1" and nx * f > 4 and not THOROUGH:
                    continue
                cfgs.append(dict(kind=kind, nx=nx, ny=ny, scale=scale, fix=["left"], chain=chain,
                                 order=2 if kind == "C1" and f > 1 else 3, euclid=True, full=(nx * f <= 2) or THOROUGH))
        for scale in ("1/10000", "10000"):
            cfgs.append(dict(kind=kind, nx=1, ny=1, scale=scale, fix=["left"], chain=[2], order=2, euclid=True, full=False))
    for kind in ("P1", "C1"):
        for chain in ([1, 2, 1], [2, 1, 1], [1, 1, 1, 2]) + (([2, 2, 2],) if kind == "P1" or THOROUGH else ()):
            cfgs.append(dict(kind=kind, nx=1, ny=1, scale="1", fix=["left"], chain=chain, order=2, euclid=False, full=False))
    for kind in ("P1", "C1"):
        for nx, ny, chain in ((2, 2, [2]), (3, 1, [2]), (1, 3, []), (3, 3, [])):
            cfgs.append(dict(kind=kind, nx=nx, ny=ny, scale="7/10", fix=None, chain=chain, order=2, euclid=True, full=False))
    cfgs.sort(key=lambda c: (c["kind"] == "P1", -c["nx"] * c["ny"] * (np.prod(c["chain"]) if c["chain"] else 1) ** 2))
    kinds = [("P1", 1, 0), ("P1", 2, 0), ("P1", 3, 0), ("P1", 1, 2), ("C1", 1, 0), ("C1", 2, 0), ("C1", 1, 2)]
    both = [dict(components=[a, b], scale=s, points=5 if not THOROUGH else 12) for a in kinds for b in kinds if a != b for s in ("1/2", "3")]
    return [("views", body, cfgs), ("mixed", mixed, both)]
