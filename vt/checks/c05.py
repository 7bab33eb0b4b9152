"""C05: fine positions translate to the same physical point of the coarse grid."""

from itertools import permutations

from vt import dom
from vt.core import THOROUGH, raises, require
from vt.ref import mesh

LEVEL = "exploration"
RULE = (
    "a case is one position (barycentric lattice) in one fine triangle in one cyclic order, or one position on one fine"
    " edge, or one triangle or edge that has to be rejected; distinct cases differ in grid, triangle/edge or position"
)
ASSUMPTIONS = [
    "refined grids up to the listed shapes, factors and chains; positions on lattices",
    "weights may exceed [0, 1] by 1e-9",
]


def body(cfg, ch):
    from tvemoves_rufbad.domain import BarycentricPoint
    from tvemoves_rufbad.tensors import BarycentricCoordinates

    domain, scale, shape = dom.make(cfg)
    what = dom.describe(cfg)
    fine = domain.grid(scale)
    grids = []
    for factor in cfg["chain"]:
        coarse, fine = fine, domain.refine(fine, factor)
        grids.append((coarse, fine, factor, shape))
        shape = shape.finer(factor)
    if not cfg.get("all"):
        grids = grids[-1:]
    n = cfg["order"]
    lattice = [(i / n, j / n) for i in range(n + 1) for j in range(n + 1 - i)] + [(0.123, 0.456), (1e-3, 0.998)]
    for coarse, fine, factor, cshape in grids:
        cpos = mesh.lattice(coarse, cshape, what=what)
        fshape = cshape.finer(factor)
        fpos = mesh.lattice(fine, fshape, what=what)
        tol = 1e-9 * fshape.scale * max(1, fshape.nx, fshape.ny)
        require(fine.coarse() == coarse and list(fine.coarse().triangles) == list(coarse.triangles) and list(fine.coarse().edges) == list(coarse.edges),
                f"{what}: coarse() is not the grid that was refined")
        coarse_triangles = set(coarse.triangles)
        for t in fine.triangles:
            for k in range(3):
                r = t[k:] + t[:k]
                ps = [fine.points[v] for v in r]
                for l1, l2 in lattice:
                    bc = BarycentricCoordinates(l1, l2)
                    w = (bc.l1, bc.l2, bc.l3)
                    bp = fine.to_coarse_barycentric_point(BarycentricPoint(r, bc))
                    require(
                        bp.triangle in coarse_triangles,
                        f"{what}: triangle {r} is translated to {bp.triangle}, not a coarse triangle",
                    )
                    c = bp.coordinates
                    cw = (c.l1, c.l2, c.l3)
                    require(
                        all(-1e-9 <= x <= 1 + 1e-9 for x in cw) and abs(sum(cw) - 1) <= 1e-12,
                        f"{what}: weights {w} in triangle {r} are translated to {cw}",
                    )
                    qs = [coarse.points[v] for v in bp.triangle]
                    for d in range(2):
                        x = sum(a * p[d] for a, p in zip(w, ps))
                        y = sum(a * q[d] for a, q in zip(cw, qs))
                        require(
                            abs(x - y) <= tol,
                            f"{what}: weights {w} in triangle {r} are translated to {cw} in {bp.triangle},"
                            f" coordinate {d} is {y} instead of {x}",
                        )
                    require((bc.l1, bc.l2, bc.l3) == w, f"{what}: the position was changed")
                    ch.case((what, len(cfg["chain"]), r, l1, l2))
        # triangles that are not in the grid
        listed = {mesh.cyclic(list(t)) for t in fine.triangles}
        m = min(len(fine.vertices), cfg.get("triples", 8))
        for t in permutations(range(m), 3):
            if mesh.cyclic(list(t)) in listed:
                continue
            raises(
                ValueError,
                lambda t=t: fine.to_coarse_barycentric_point(BarycentricPoint(t, BarycentricCoordinates(0.25, 0.5))),
                f"{what}: translation of a position in triangle {t}, which is not listed",
            )
            ch.case((what, "no triangle", t))
        for i, j, k in list(fine.triangles):
            raises(
                ValueError,
                lambda t=(j, i, k): fine.to_coarse_barycentric_point(BarycentricPoint(t, BarycentricCoordinates(0.5, 0.5))),
                f"{what}: translation of a position in the reversed triangle {(j, i, k)}",
            )
            ch.evals()
        # pairs of vertices that are no edges
        listed = {frozenset(e) for e in fine.edges}
        far = len(fine.vertices)
        for a in range(far if far <= 40 else 12):
            for b in list(range(far)) + [far, far + 7, -1]:
                if a != b and frozenset((a, b)) not in listed and not (b < 0 and frozenset((a, b + far)) in listed):
                    for e in ((a, b), (b, a)):
                        raises(ValueError, lambda: fine.to_coarse_edge_point(e, 0.25), f"{what}: translation of the pair of vertices {e}, which is no edge")
                    ch.case((what, "pair", a, b), 2)
        # edges
        coarse_edges = set(coarse.edges)
        for e in fine.edges:
            (a, b), (c, d) = fpos[e[0]], fpos[e[1]]
            if b == d:
                on = b % factor == 0
            elif a == c:
                on = a % factor == 0
            else:
                on = (a - b) % factor == 0
            for k in range(n + 1) if on else (0, 1):
                t = k / n
                if not on:
                    raises(ValueError, lambda: fine.to_coarse_edge_point(e, t),
                           f"{what}: translation of edge {e}, which does not lie on a coarse edge")
                    ch.case((what, "no edge", e, t))
                    continue
                ce, ct = fine.to_coarse_edge_point(e, t)
                require(ce in coarse_edges, f"{what}: edge {e} is translated to {ce}, not a coarse edge")
                require(-1e-9 <= ct <= 1 + 1e-9, f"{what}: parameter {t} on edge {e} is translated to {ct} on {ce}")
                for x in range(2):
                    u = t * fine.points[e[0]][x] + (1 - t) * fine.points[e[1]][x]
                    v = ct * coarse.points[ce[0]][x] + (1 - ct) * coarse.points[ce[1]][x]
                    require(
                        abs(u - v) <= tol,
                        f"{what}: parameter {t} on edge {e} is translated to {ct} on {ce}: coordinate {x} is {v}"
                        f" instead of {u}",
                    )
                ch.case((what, "edge", e, t))


def parts():
    cfgs = []
    chains = [[k] for k in range(1, 7)] + [[2, 2], [1, 3], [3, 1], [2, 3], [3, 2], [1, 1, 2], [2, 1, 2]]
    if THOROUGH:
        chains += [[7], [8], [9], [10], [2, 2, 2], [3, 3], [4, 2], [2, 4], [1, 2, 3]]
    shapes = [(1, 1), (2, 1), (1, 2), (2, 2)] + ([(3, 2), (1, 4), (5, 1)] if THOROUGH else [(1, 5)])
    for nx, ny in shapes:
        for scale in ("1", "3/10", "1000"):
            for chain in chains:
                f = 1
                for x in chain:
                    f *= x
                if nx * ny * f * f > (80 if not THOROUGH else 200):
                    continue
                cfgs.append(dict(nx=nx, ny=ny, scale=scale, fix=["left", "upper"], chain=chain, order=4))
    cfgs += [dict(nx=1, ny=1, scale=("1", "1/10")[k % 2], fix=["lower"], chain=[k], order=2) for k in range(7, 13)]
    cfgs += [
        dict(nx=1, ny=1, scale="1", fix=None, chain=[2, 3], order=3, all=True, triples=14),
        dict(nx=2, ny=1, scale="1/1000000", fix=["lower"], chain=[2], order=4, triples=12),
        dict(nx=1, ny=2, scale="1000000", fix=["lower"], chain=[3], order=4, triples=12),
        dict(nx=12, ny=1, scale="1/3", fix=None, chain=[2], order=2),
        dict(nx=1, ny=12, scale="1/3", fix=None, chain=[2], order=2, slack=("1/2", "1/4")),
    ]
    return [("translate", body, cfgs)]
