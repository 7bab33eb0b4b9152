"""C01: the grid of a rectangle is a conforming triangulation of it."""

from itertools import combinations

from vt import dom
from vt.core import THOROUGH, Violation, raises, require
from vt.ref import mesh

LEVEL = "exploration"
RULE = (
    "a case is a rectangle (cells per side, scale, remainder per side, way of rounding the lengths, fixed sides), its"
    " grid compared completely with the lattice triangulation, plus every lookup of a triple, pair or point in it;"
    " distinct cases are different rectangles or different lookups"
)
ASSUMPTIONS = [
    "numbers of cells per side up to the listed shapes; scales from 1e-6 to 1e6",
    "positions are compared up to 1e-9 of the scale",
]


def body(cfg, ch):
    domain, scale, shape = dom.make(cfg)
    what = f"grid of {dom.describe(cfg)}"
    grid = domain.grid(scale)
    pos = mesh.check_triangulation(grid, shape, what)
    ch.case(("grid", dom.describe(cfg)))
    lookups(cfg, ch, grid, pos, what)
    # a second grid of the same domain is the same and does not disturb the first
    before = mesh.snapshot(grid)
    again = domain.grid(scale)
    mesh.check_triangulation(again, shape, what + " (second call)")
    require(mesh.snapshot(grid) == before, f"{what}: the first grid changed when a second one was made")


def lookups(cfg, ch, grid, pos, what):
    from tvemoves_rufbad.tensors import Vector

    s = mesh.num(cfg["scale"])
    for t in grid.triangles:
        ps = grid.triangle_vertices(t)
        for v, p in zip(t, ps):
            require(len(ps) == 3 and p == grid.points[v], f"{what}: corners of triangle {t}: {ps}")
        a, b, c = t
        for bad in ((b, a, c), (a, c, b), (c, b, a)):  # clockwise
            raises(ValueError, lambda bad=bad: grid.triangle_vertices(bad), f"{what}: corners of {bad}, where only {t} is a triangle")
    for e in grid.edges:
        ps = grid.edge_vertices(e)
        for v, p in zip(e, ps):
            require(len(ps) == 2 and p == grid.points[v], f"{what}: end points of edge {e}: {ps}")
    ch.evals(len(grid.triangles) + len(grid.edges))
    for v, p in enumerate(grid.points):
        for dx, dy in ((0, 0), (1e-9, 0), (0, -1e-9)):
            got = grid.point_to_vertex(Vector([p[0] + dx * s, p[1] + dy * s]))
            require(got == v, f"{what}: vertex {v} at {p} (moved by {dx}, {dy} scales) is looked up as {got}")
            ch.evals()
    nx, ny = cfg["nx"], cfg["ny"]
    for i in range(-1, nx + 1):
        for j in range(-1, ny + 1):
            for dx, dy in ((0.5, 0.0), (0.0, 0.5), (0.5, 0.5), (1 / 3, 0.25), (1e-3, 0.0), (0.0, 0.999), (0.99, 1e-3)):
                q = Vector([(i + dx) * s, (j + dy) * s])
                got = grid.point_to_vertex(q)
                require(got is None, f"{what}: {q} is no vertex, but is looked up as {got}")
                ch.evals()
    for q in ([-s, -s], [-s, 0.0], [(nx + 1) * s, 0.0], [0.0, (ny + 1) * s], [-1e-3 * s, 0.0]):
        require(grid.point_to_vertex(Vector(q)) is None, f"{what}: {q} is no vertex, but is looked up as one")
    n = len(grid.vertices)
    if n <= (16 if not THOROUGH else 25):
        triangles = {frozenset(t) for t in grid.triangles}
        edges = {frozenset(e) for e in grid.edges}
        for t in combinations(range(n + 1), 3):
            if frozenset(t) not in triangles:
                raises(ValueError, lambda t=t: grid.triangle_vertices(t), f"{what}: corners of {t}, not a triangle")
                ch.evals()
        for e in combinations(range(n + 1), 2):
            if frozenset(e) not in edges:
                raises(ValueError, lambda e=e: grid.edge_vertices(e), f"{what}: end points of {e}, not an edge")
                ch.evals()
    for v in range(min(n, 4)):
        raises(ValueError, lambda v=v: grid.triangle_vertices((v, v, v)), f"{what}: corners of {(v, v, v)}")
        raises(ValueError, lambda v=v: grid.edge_vertices((v, v)), f"{what}: end points of {(v, v)}")


def configs():
    out = []
    fixes = [None, ["lower"], ["right", "upper"], ["lower", "right", "upper", "left"]]
    k = 0
    for shapes, slacks in (
        (dom.SMALL, ("0", "1/4", "9/10")),
        (dom.LONG, ("0", "1/2")),
    ):
        for nx, ny in shapes:
            for scale in dom.SCALES:
                for sx in slacks:
                    for sy in slacks:
                        styles = ("exact", "product", "sum") if sx == sy == "0" else ("product",)
                        for style in styles:
                            if nx * ny > 60 and (k % 3 and not THOROUGH):
                                k += 1
                                continue
                            out.append(
                                dict(nx=nx, ny=ny, scale=scale, slack=(sx, sy), style=style, fix=fixes[k % 4])
                            )
                            k += 1
    return out


def whole(cfg, ch):
    """Many whole numbers of cells: rounding of the quotient must not lose or add cells."""
    from tvemoves_rufbad.domain import RectangleDomain

    s = mesh.num(cfg["scale"])
    for n in range(1, cfg["upto"] + 1):
        for style in ("exact", "product", "sum"):
            for nx, ny in ((n, 1), (1, n)):
                d = RectangleDomain(dom.length(nx, cfg["scale"], "0", style), dom.length(ny, cfg["scale"], "0", style))
                grid = d.grid(s)
                want = 2 * (n + 1)
                require(
                    len(grid.vertices) == len(grid.points) == want and len(grid.triangles) == 2 * n,
                    f"{nx} x {ny} cells of size {cfg['scale']} ({style} lengths {d.width!r}, {d.height!r}):"
                    f" {len(grid.points)} points (expected {want}), {len(grid.triangles)} triangles",
                )
                far = max(p[0] + p[1] for p in grid.points)
                require(abs(far - (nx + ny) * s) <= 1e-9 * s * n, f"{nx} x {ny} cells: farthest corner {far}")
                ch.case((cfg["scale"], nx, ny, style))


def parts():
    upto = 60 if not THOROUGH else 400
    scales = dom.SCALES + ["1/6", "1/9", "1/20", "3/100", "11/10", "1/49", "1/100", "9/1000"]
    return [
        ("grid", body, configs()),
        ("whole", whole, [dict(scale=s, upto=upto if s not in ("1", "1/10") else max(upto, 150)) for s in scales]),
    ]
