"""C04: refining a grid by n gives the uniform grid with n times finer scale."""

from vt import dom
from vt.core import THOROUGH, raises, require
from vt.ref import mesh

LEVEL = "exploration"
RULE = (
    "a case is a rectangle, scale, choice of fixed sides and chain of refinement factors; after every refinement of the"
    " chain the result is compared completely with the lattice triangulation of the finer scale and all grids made"
    " before are compared with their snapshots; distinct cases differ in one of these"
)
ASSUMPTIONS = ["shapes, factors and chains up to the listed ones", "positions up to 1e-9 of the fine scale"]


def body(cfg, ch):
    domain, scale, shape = dom.make(cfg)
    what = dom.describe(cfg)
    grid = domain.grid(scale)
    base = grid
    made = [(grid, mesh.snapshot(grid))]
    done = []
    for factor in cfg["chain"]:
        done.append(factor)
        w = f"{what}, refined by {done}"
        fine = domain.refine(grid, factor)
        shape = shape.finer(factor)
        mesh.check_grid(fine, shape, w)
        for v in range(len(grid.points)):
            p, q = grid.points[v], fine.points[v]
            require(
                abs(p[0] - q[0]) <= 1e-12 * shape.scale and abs(p[1] - q[1]) <= 1e-12 * shape.scale,
                f"{w}: coarse vertex {v} at {p} is at {q} in the refined grid",
            )
        require(mesh.snapshot(fine.coarse()) == made[-1][1], f"{w}: coarse() is not the grid that was refined")
        for g, snap in made:
            require(mesh.snapshot(g) == snap, f"{w}: a grid made before was changed")
        made.append((fine, mesh.snapshot(fine)))
        ch.case((what, tuple(done)))
        for bad in (0, -1, -3, 0.5):
            raises(ValueError, lambda bad=bad: domain.refine(fine, bad), f"{w}: refinement by {bad}")
        grid = fine
    if cfg.get("compare"):
        other = domain.grid(shape.scale)
        require(grid == other and other == grid, f"{what}: refined grid and grid of the finer scale are not equal")
        ch.evals(2)
    if cfg.get("again"):
        # refining the same grid again, with another factor, is independent of the refinements before
        for factor in cfg["again"]:
            s2 = dom.make(cfg)[2].finer(factor)
            g2 = domain.refine(base, factor)
            mesh.check_grid(g2, s2, f"{what}: refined by {factor} after {cfg['chain']}")
            for g, snap in made:
                require(mesh.snapshot(g) == snap, f"{what}: refining by {factor} changed a grid made before")
            made.append((g2, mesh.snapshot(g2)))
            ch.case((what, "again", factor))


def parts():
    cfgs = []
    # all choices of fixed sides
    for fix in mesh.fix_subsets():
        for nx, ny in ((1, 1), (2, 1), (1, 2), (2, 2)):
            for chain in ([1], [2], [3]):
                cfgs.append(dict(nx=nx, ny=ny, scale="1", fix=fix, chain=chain, compare=True, again=[2, 1]))
    # factors and chains
    some = [None, ["lower"], ["right", "upper"], ["left", "upper", "lower"]]
    shapes = [(1, 1), (2, 1), (1, 3)] + ([(3, 3), (4, 2)] if THOROUGH else [])
    chains = [[k] for k in range(1, 7)] + [[2, 2], [1, 3], [3, 1], [2, 3], [3, 2], [1, 1, 2], [2, 1, 2]]
    if THOROUGH:
        chains += [[7], [8], [9], [10], [11], [2, 2, 2], [3, 3], [4, 2], [2, 4], [5, 2], [1, 2, 3], [3, 2, 1]]
    k = 0
    for nx, ny in shapes:
        for scale in ("1", "1/10", "1/3", "7/10", "1000", "1/1000", "1/1000000", "1000000", "1/100000000", "1/1000000000000", "1000000000"):
            for chain in chains:
                f = 1
                for x in chain:
                    f *= x
                if nx * ny * f * f > (80 if not THOROUGH else 260):
                    continue
                cfgs.append(dict(nx=nx, ny=ny, scale=scale, fix=some[k % 4], chain=chain, compare=True))
                k += 1
    # many cells, long rectangles and remainders
    for nx, ny, scale in ((12, 1, "1"), (1, 12, "1/10"), (7, 3, "1/3"), (3, 7, "1000"), (25, 1, "1"), (1, 40, "5/2"),
                          (6, 5, "7/10"), (16, 2, "1/1000")):
        for chain in ([2], [3]) if nx * ny < 30 or THOROUGH else ([2],):
            cfgs.append(dict(nx=nx, ny=ny, scale=scale, fix=some[k % 4], chain=chain))
            cfgs.append(dict(nx=nx, ny=ny, scale=scale, fix=some[k % 4], chain=chain, slack=("1/3", "3/4")))
            k += 1
    for k, factor in enumerate(range(7, 21 if not THOROUGH else 33)):
        cfgs.append(dict(nx=1, ny=1, scale=("1", "1/10", "1000", "1/3")[k % 4], fix=some[k % 4], chain=[factor], compare=factor < 12))
    return [("refine", body, cfgs)]
