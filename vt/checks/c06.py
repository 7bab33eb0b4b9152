"""C06: grid equality means same triangulation, whatever the numbering."""

from itertools import combinations, permutations

from vt import dom
from vt.core import THOROUGH, require
from vt.ref import mesh

LEVEL = "exploration"
RULE = (
    "a case is an ordered pair of grids compared with == and !=: a grid with every renumbering of its vertices combined"
    " with reordered lists, turned edges and rotated triangles; with every single change (point moved, edge, triangle or"
    " entry of a boundary part missing, replaced or reversed); and all pairs of a family of changed grids; distinct cases"
    " are different pairs"
)
ASSUMPTIONS = [
    "compared grids list no vertex, edge or triangle twice and have no two vertices at one position",
    "points differ by at most 1e-9 or at least 1e-4 of the scale",
]


class G:
    """Plain description of a grid."""

    def __init__(self, points, edges, triangles, boundary, dirichlet, neumann, scale):
        self.points = list(points)
        self.edges = list(edges)
        self.triangles = list(triangles)
        self.parts = [(list(v), list(e)) for v, e in (boundary, dirichlet, neumann)]
        self.scale = scale

    def copy(self):
        return G(self.points, self.edges, self.triangles, *self.parts, self.scale)

    def build(self):
        from tvemoves_rufbad.domain import Boundary, Grid
        from tvemoves_rufbad.tensors import Vector

        return Grid(
            list(range(len(self.points))), list(self.edges), list(self.triangles),
            *(Boundary(list(v), list(e)) for v, e in self.parts),
            [Vector(list(p)) for p in self.points],
        )

    def renumbered(self, perm, flip=0, rotate=0, reverse=False):
        """perm[old] = new number."""
        g = self.copy()
        g.points = [None] * len(perm)
        for old, new in enumerate(perm):
            g.points[new] = self.points[old]

        def order(xs):
            return list(reversed(xs)) if reverse else xs

        def edge(k, e):
            e = (perm[e[0]], perm[e[1]])
            return e if not flip or (flip == 1 and k % 2) else (e[1], e[0])

        def tri(k, t):
            t = tuple(perm[v] for v in t)
            r = (rotate + k) % 3 if rotate else 0
            return t[r:] + t[:r]

        g.edges = order([edge(k, e) for k, e in enumerate(self.edges)])
        g.triangles = order([tri(k, t) for k, t in enumerate(self.triangles)])
        g.parts = [(order([perm[v] for v in vs]), order([edge(k, e) for k, e in enumerate(es)])) for vs, es in self.parts]
        return g


def describe(grid, scale):
    return G(
        [(p[0], p[1]) for p in grid.points], grid.edges, grid.triangles,
        *((b.vertices, b.edges) for b in (grid.boundary, grid.dirichlet_boundary, grid.neumann_boundary)), scale,
    )


def same(a, b):
    """Reference: some renumbering maps b onto a."""
    if len(a.points) != len(b.points):
        return False
    tol = 1e-7 * max(a.scale, b.scale) / 3
    to = {}
    for w, q in enumerate(b.points):
        near = [v for v, p in enumerate(a.points) if abs(p[0] - q[0]) <= tol and abs(p[1] - q[1]) <= tol]
        if len(near) != 1:
            return False
        to[w] = near[0]
    if len(set(to.values())) != len(to):
        return False
    if {frozenset(e) for e in a.edges} != {frozenset(to[v] for v in e) for e in b.edges}:
        return False
    if {mesh.cyclic(list(t)) for t in a.triangles} != {mesh.cyclic([to[v] for v in t]) for t in b.triangles}:
        return False
    for (v1, e1), (v2, e2) in zip(a.parts, b.parts):
        if set(v1) != {to[v] for v in v2} or {frozenset(e) for e in e1} != {frozenset(to[v] for v in e) for e in e2}:
            return False
    return True


def changes(g):
    """(name, changed copy): every single change of the listed kinds."""
    s = g.scale
    n = len(g.points)
    for v in range(n):
        for dx, dy in ((0.3, 0), (0, -0.25), (1e-4, 0), (0, -1e-4), (1e-9, -1e-9)):
            c = g.copy()
            c.points[v] = (c.points[v][0] + dx * s, c.points[v][1] + dy * s)
            yield f"point {v} moved by {(dx, dy)}", c
    for v, w in combinations(range(n), 2):
        c = g.copy()
        c.points[v], c.points[w] = c.points[w], c.points[v]
        yield f"points {v} and {w} exchanged", c
    c = g.copy()
    c.points.append((g.points[-1][0] + s, g.points[-1][1]))
    yield "additional vertex", c
    edges = {frozenset(e) for e in g.edges}
    non_edges = [e for e in combinations(range(n), 2) if frozenset(e) not in edges]
    for k in range(len(g.edges)):
        c = g.copy()
        del c.edges[k]
        yield f"edge {k} missing", c
        for e in non_edges[:3]:
            c = g.copy()
            c.edges[k] = e
            yield f"edge {k} replaced by {e}", c
    for e in non_edges[:2]:
        c = g.copy()
        c.edges.append(e)
        yield f"edge {e} added", c
    listed = {frozenset(t) for t in g.triangles}
    others = [t for t in combinations(range(n), 3) if frozenset(t) not in listed]
    for k, (a, b, d) in enumerate(g.triangles):
        for name, t in (("reversed", (b, a, d)), ("reversed and turned", (a, d, b)), ("rotated", (b, d, a))):
            c = g.copy()
            c.triangles[k] = t
            yield f"triangle {k} {name}", c
        c = g.copy()
        del c.triangles[k]
        yield f"triangle {k} missing", c
        for t in others[:3]:
            c = g.copy()
            c.triangles[k] = t
            yield f"triangle {k} replaced by {t}", c
    for t in others[:1]:
        c = g.copy()
        c.triangles.append(t)
        yield f"triangle {t} added", c
    for p, name in enumerate(("boundary", "fixed part", "free part")):
        vs, es = g.parts[p]
        for k in range(len(es)):
            c = g.copy()
            del c.parts[p][1][k]
            yield f"edge {k} of the {name} missing", c
            rest = [e for e in g.edges if e not in es and (e[1], e[0]) not in es]
            for e in rest[:2]:
                c = g.copy()
                c.parts[p][1][k] = e
                yield f"edge {k} of the {name} replaced by {e}", c
        for k in range(len(vs)):
            c = g.copy()
            del c.parts[p][0][k]
            yield f"vertex {k} of the {name} missing", c
            for v in [v for v in range(n) if v not in vs][:2]:
                c = g.copy()
                c.parts[p][0][k] = v
                yield f"vertex {k} of the {name} replaced by {v}", c
        rest = [v for v in range(n) if v not in vs]
        if rest:
            c = g.copy()
            c.parts[p][0].append(rest[0])
            yield f"vertex {rest[0]} of the {name} added", c
    for p, q in ((1, 2), (0, 1), (0, 2)):
        c = g.copy()
        c.parts[p], c.parts[q] = c.parts[q], c.parts[p]
        yield f"boundary parts {p} and {q} exchanged", c
    c = g.copy()
    c.points = [(2 * x, 2 * y) for x, y in c.points]
    c.scale *= 2
    yield "scaled by 2", c
    c = g.copy()
    c.points = [(x + s, y) for x, y in c.points]
    yield "shifted by one cell", c


def equal(x, y, want, what):
    got = x == y
    require(bool(got) == want, f"{what}: == gives {got!r}, expected {want}")
    got = x != y
    require(bool(got) == (not want), f"{what}: != gives {got!r}, expected {not want}")


def base(cfg):
    domain, scale, _ = dom.make(cfg)
    grid = domain.grid(scale)
    if cfg.get("factor"):
        grid = domain.refine(grid, cfg["factor"])
        scale /= cfg["factor"]
    return grid, describe(grid, scale)


def renumber(cfg, ch):
    grid, g = base(cfg)
    what = dom.describe(cfg)
    n = len(g.points)
    perms = permutations(range(n)) if cfg["perms"] == "all" else some_permutations(n)
    before = mesh.snapshot(grid)
    for perm in perms:
        for flip, rotate, reverse in ((0, 0, False), (1, 1, True), (2, 2, False)):
            h = g.renumbered(perm, flip, rotate, reverse)
            b = h.build()
            w = f"{what}: renumbered by {perm} (edges turned {flip}, triangles rotated {rotate}, reversed lists {reverse})"
            equal(grid, b, True, w)
            equal(b, grid, True, w + ", exchanged")
            ch.case((what, perm, flip))
            # a single change in the renumbered grid is noticed
            for name, c in one_of_each(h):
                want = same(g, c)
                d = c.build()
                equal(grid, d, want, f"{w}, {name}")
                equal(d, grid, want, f"{w}, {name}, exchanged")
                ch.evals(2)
    require(mesh.snapshot(grid) == before, f"{what}: comparing changed the grid")


def one_of_each(h):
    """One change of each kind."""
    c = h.copy()
    c.triangles[0] = (h.triangles[0][1], h.triangles[0][0], h.triangles[0][2])
    yield "triangle 0 reversed", c
    c = h.copy()
    c.points[0] = (h.points[0][0] + 1e-4 * h.scale, h.points[0][1])
    yield "point 0 moved", c
    c = h.copy()
    del c.edges[-1]
    yield "last edge missing", c
    c = h.copy()
    c.parts[1], c.parts[2] = c.parts[2], c.parts[1]
    yield "fixed and free part exchanged", c


def some_permutations(n):
    yield tuple(range(n))
    yield tuple(reversed(range(n)))
    for k in range(1, n):
        yield tuple((v + k) % n for v in range(n))
    for i, j in combinations(range(n), 2):
        p = list(range(n))
        p[i], p[j] = p[j], p[i]
        yield tuple(p)


def pairs(cfg, ch):
    """All ordered pairs of the changed grids of one grid."""
    grid, g = base(cfg)
    what = dom.describe(cfg)
    family = [("unchanged", g)] + list(changes(g))
    n = len(g.points)
    built = [(name, c, c.build()) for name, c in family]
    turned = []
    for name, c in family:
        perm = tuple((2 * v + 1) % len(c.points) if len(c.points) % 2 else (v + 1) % len(c.points) for v in range(len(c.points)))
        r = c.renumbered(perm, 1, 1, True)
        turned.append((name + ", renumbered", r, r.build()))
    k = cfg["part"]
    for i, (n1, c1, b1) in enumerate(built):
        if i % cfg["of"] != k:
            continue
        for n2, c2, b2 in built + turned:
            equal(b1, b2, same(c1, c2), f"{what}: [{n1}] and [{n2}]")
            ch.case((what, n1, n2))
        for x in (None, 0, "grid", [], (), g, object(), mesh.snapshot(b1)):
            equal(b1, x, False, f"{what}: [{n1}] and {x!r}, which is not a grid")
            ch.evals()


def domains(cfg, ch):
    """Grids of different rectangles, scales, fixed sides; refined and plain grids."""
    family = []
    for nx, ny in ((1, 1), (2, 1), (1, 2), (2, 2), (4, 1)):
        for scale in ("1", "1/2"):
            for fix in (None, ["lower"], ["left"], ["lower", "left"], ["lower", "right", "upper", "left"]):
                for factor in (0, 1, 2):
                    c = dict(nx=nx, ny=ny, scale=scale, fix=fix, factor=factor)
                    family.append((c, *base(c)))
    a = family[cfg["index"]]
    for b in family:
        want = same(a[2], b[2])
        equal(a[1], b[1], want, f"{dom.describe(a[0])} and {dom.describe(b[0])}")
        ch.case((dom.describe(a[0]), dom.describe(b[0])))


def large(cfg, ch):
    """A larger grid, and single changes anywhere in it."""
    grid, g = base(cfg)
    what = dom.describe(cfg)
    n = len(g.points)
    perm = tuple(reversed(range(n)))
    for r in (g, g.renumbered(perm, 1, 1, True)):
        equal(grid, r.build(), True, what)
        equal(r.build(), grid, True, what)
    step = cfg["step"]
    some = []
    for k in sorted(set(range(0, len(g.edges), step)) | {len(g.edges) - 1}):
        i, j = g.edges[k]
        c = g.copy()
        c.edges[k] = next((i, v) for v in range(n) if v != i and (i, v) not in g.edges and (v, i) not in g.edges)
        some.append((f"edge {k} replaced by {c.edges[k]}", c))
    for k in sorted(set(range(0, len(g.triangles), step)) | {len(g.triangles) - 1}):
        a, b, d = g.triangles[k]
        c = g.copy()
        c.triangles[k] = (b, a, d)
        some.append((f"triangle {k} reversed", c))
    for p, name in enumerate(("boundary", "fixed part", "free part")):
        vs, es = g.parts[p]
        inner = next(e for e in g.edges if e not in es and (e[1], e[0]) not in es)
        for k in sorted(set(range(0, len(es), step)) | {len(es) - 1}):
            c = g.copy()
            c.parts[p][1][k] = inner
            some.append((f"edge {k} of the {name} replaced by {inner}", c))
        other = next((v for v in range(n) if v not in vs), None)
        for k in sorted(set(range(0, len(vs), step)) | {len(vs) - 1}) if other is not None else ():
            c = g.copy()
            c.parts[p][0][k] = other
            some.append((f"vertex {k} of the {name} replaced by {other}", c))
    for v in sorted(set(range(0, n, step)) | {n - 1}):
        c = g.copy()
        c.points[v] = (c.points[v][0] + 1e-3 * g.scale, c.points[v][1])
        some.append((f"point {v} moved", c))
    for name, c in some:
        for r in (c, c.renumbered(perm, 1, 1, True)):
            b = r.build()
            equal(grid, b, False, f"{what}: {name}")
            equal(b, grid, False, f"{what}: {name}, exchanged")
        ch.case((what, name))


def parts():
    fixes = [None, ["lower"], ["right", "upper"], ["left", "right"]]
    ren = [dict(nx=1, ny=1, scale=s, fix=f, perms="all") for s in ("1", "1/10", "1000000", "1/1000000") for f in fixes]
    ren += [dict(nx=2, ny=1, scale="1/3", fix=f, perms="all") for f in fixes[: 4 if THOROUGH else 2]]
    ren += [dict(nx=nx, ny=ny, scale="7/10", fix=["left", "upper"], perms="some") for nx, ny in ((2, 2), (3, 2), (1, 4), (4, 4))]
    ren += [dict(nx=1, ny=1, scale="1", fix=["lower"], factor=k, perms="some") for k in (2, 3)]
    of = 8
    pr = [dict(nx=nx, ny=ny, scale=s, fix=f, part=k, of=of) for nx, ny, s, f in (
        (1, 1, "1", ["lower"]), (2, 1, "1/2", ["left", "upper"])) for k in range(of)]
    if THOROUGH:
        pr += [dict(nx=2, ny=2, scale="1000", fix=["left"], part=k, of=24) for k in range(24)]
    return [("renumber", renumber, ren), ("pairs", pairs, pr), ("large", large, [dict(nx=8, ny=8, scale="1/2", fix=["left", "upper"], step=9), dict(nx=30, ny=1, scale="3", fix=["lower"], step=8), dict(nx=2, ny=17, scale="1", fix=["right"], step=8)]), ("domains", domains, [dict(index=k) for k in range(150)])]
