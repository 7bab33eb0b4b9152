"""Reference triangulations of rectangles on an integer lattice.

The vertices of a (refined) grid are matched with lattice points (i, j) by their positions; everything else is compared
exactly on the lattice, with cyclic triangles and unordered edges.
"""

from fractions import Fraction

from vt.core import Violation, require

SIDES = ("lower", "right", "upper", "left")


def num(x):
    """The float nearest to a number given as text, e.g. "1/3" or "0.1"."""
    return float(Fraction(x))


class Shape:
    """nx times ny cells of size scale with a set of fixed sides."""

    def __init__(self, nx, ny, scale, fixed=()):
        self.nx, self.ny, self.scale, self.fixed = nx, ny, scale, frozenset(fixed)

    def finer(self, n):
        return Shape(self.nx * n, self.ny * n, self.scale / n, self.fixed)

    def points(self):
        return [(i, j) for j in range(self.ny + 1) for i in range(self.nx + 1)]

    def triangles(self):
        for j in range(self.ny):
            for i in range(self.nx):
                yield ((i, j), (i + 1, j), (i + 1, j + 1))
                yield ((i + 1, j + 1), (i, j + 1), (i, j))

    def edges(self):
        for t in self.triangles():
            for k in range(3):
                yield frozenset((t[k], t[(k + 1) % 3]))

    def side_edges(self, side):
        if side in ("lower", "upper"):
            j = 0 if side == "lower" else self.ny
            return {frozenset(((i, j), (i + 1, j))) for i in range(self.nx)}
        i = 0 if side == "left" else self.nx
        return {frozenset(((i, j), (i, j + 1))) for j in range(self.ny)}

    def boundary_edges(self):
        return set().union(*(self.side_edges(s) for s in SIDES))

    def dirichlet_edges(self):
        return set().union(*(self.side_edges(s) for s in self.fixed))

    def neumann_edges(self):
        return self.boundary_edges() - self.dirichlet_edges()


def cyclic(t):
    """Canonical form of an oriented triangle."""
    k = t.index(min(t))
    return tuple(t[k:]) + tuple(t[:k])


def unique(items, what):
    items = list(items)
    s = set(items)
    if len(s) != len(items):
        seen = set()
        dup = next(x for x in items if x in seen or seen.add(x))
        raise Violation(f"{what}: {show(dup)} is listed more than once")
    return s


def show(x):
    if isinstance(x, frozenset):
        return sorted(x)
    return x


def same_set(got, want, what):
    if got != want:
        missing = sorted(map(show, want - got), key=repr)[:4]
        extra = sorted(map(show, got - want), key=repr)[:4]
        raise Violation(f"{what}: missing {missing}, superfluous {extra} (of {len(want)} expected)")


def lattice(grid, shape, rel=1e-9, what="grid"):
    """Map from vertices to lattice points; checks numbering and positions."""
    s = shape.scale
    n = (shape.nx + 1) * (shape.ny + 1)
    require(
        sorted(grid.vertices) == list(range(n)),
        f"{what}: vertices are not numbered 0..{n - 1}: {len(grid.vertices)} vertices {list(grid.vertices)[:8]}...",
    )
    require(len(grid.points) == n, f"{what}: {len(grid.points)} points for {n} vertices")
    # positions are computed from coordinates of the size of the rectangle
    tol = rel * s + 1e-13 * s * max(shape.nx, shape.ny)
    pos = {}
    for v in range(n):
        p = grid.points[v]
        require(len(p) == 2, f"{what}: point of vertex {v} is not planar: {p}")
        i, j = round(p[0] / s), round(p[1] / s)
        require(
            abs(p[0] - i * s) <= tol and abs(p[1] - j * s) <= tol,
            f"{what}: vertex {v} at {p} is not at a multiple of {s}",
        )
        pos[v] = (i, j)
    got = unique(pos.values(), f"{what}: lattice position of vertices")
    same_set(got, set(shape.points()), f"{what}: vertex positions")
    return pos


def edges_of(edges, pos, what):
    out = []
    for e in edges:
        require(len(e) == 2 and e[0] != e[1] and e[0] in pos and e[1] in pos, f"{what}: {e} is not an edge")
        out.append(frozenset((pos[e[0]], pos[e[1]])))
    return unique(out, what)


def check_triangulation(grid, shape, what="grid", rel=1e-9):
    pos = lattice(grid, shape, rel, what)
    tri = []
    for t in grid.triangles:
        require(len(t) == 3 and all(v in pos for v in t), f"{what}: {t} is not a triangle of vertices")
        tri.append(cyclic([pos[v] for v in t]))
    got = unique(tri, f"{what}: triangles")
    same_set(got, {cyclic(list(t)) for t in shape.triangles()}, f"{what}: counter-clockwise triangles")
    same_set(edges_of(grid.edges, pos, f"{what}: edges"), set(shape.edges()), f"{what}: edges")
    return pos


def check_boundary(grid, shape, pos, what="grid"):
    for name, part, want in (
        ("boundary", grid.boundary, shape.boundary_edges()),
        ("fixed part", grid.dirichlet_boundary, shape.dirichlet_edges()),
        ("free part", grid.neumann_boundary, shape.neumann_edges()),
    ):
        w = f"{what}: {name} edges (fixed sides {sorted(shape.fixed)})"
        same_set(edges_of(part.edges, pos, w), want, w)
        w = f"{what}: {name} vertices (fixed sides {sorted(shape.fixed)})"
        got = unique(part.vertices, w)
        require(got <= set(pos), f"{w}: unknown vertices {sorted(got - set(pos))[:4]}")
        same_set({pos[v] for v in got}, {p for e in want for p in e}, w)
    # every listed boundary edge is a listed edge of the grid, in this very form
    listed = set(grid.edges)
    for part in (grid.boundary, grid.dirichlet_boundary, grid.neumann_boundary):
        for e in part.edges:
            require(e in listed, f"{what}: boundary edge {e} is not among the edges of the grid")


def check_grid(grid, shape, what="grid", rel=1e-9):
    pos = check_triangulation(grid, shape, what, rel)
    check_boundary(grid, shape, pos, what)
    return pos


def snapshot(grid):
    """Everything observable about a grid, to detect changes."""

    def part(b):
        return (tuple(b.vertices), tuple(map(tuple, b.edges)))

    return (
        tuple(grid.vertices),
        tuple(map(tuple, grid.edges)),
        tuple(map(tuple, grid.triangles)),
        part(grid.boundary),
        part(grid.dirichlet_boundary),
        part(grid.neumann_boundary),
        tuple((p[0], p[1]) for p in grid.points),
    )


def fix_subsets():
    return [[s for k, s in enumerate(SIDES) if m >> k & 1] for m in range(16)]
