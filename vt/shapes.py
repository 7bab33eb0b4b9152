"""Triangulations that do not come from a rectangle, and domains made of them.

Everything is built here from points and triangles alone: edges, boundary parts and refinements are independent of the
construction in the library.
"""

from math import cos, pi, sin

import numpy as np

# name -> (points, triangles, walls): walls is a list of (name, test of the midpoint of a boundary edge)
_QUAD = [(0, 0), (1, 0), (1, 1), (0, 1)]


def _ring():
    outer = [(2 * cos(k * pi / 3 + 0.2), 2 * sin(k * pi / 3 + 0.2)) for k in range(6)]
    inner = [(0.8 * cos(k * pi / 3 + 0.5), 0.8 * sin(k * pi / 3 + 0.5)) for k in range(6)]
    tris = []
    for k in range(6):
        j = (k + 1) % 6
        tris += [(k, j, 6 + k), (6 + k, j, 6 + j)]
    return outer + inner, tris


def _hexagon():
    pts = [(0.1, -0.05)] + [((1 + 0.2 * (k % 2)) * cos(k * pi / 3), (1 + 0.1 * (k % 3)) * sin(k * pi / 3)) for k in range(6)]
    return pts, [(0, 1 + k, 1 + (k + 1) % 6) for k in range(6)]


RAW = {
    # one triangle without any right angle or parallel to an axis
    "triangle": ([(0.2, 0.1), (1.3, 0.4), (0.6, 1.2)], [(0, 1, 2)]),
    # the other diagonal
    "falling": (_QUAD, [(0, 1, 3), (1, 2, 3)]),
    # a rectangle turned by 30 degrees, away from the origin
    "turned": ([(3 + x * cos(pi / 6) - y * sin(pi / 6), -2 + x * sin(pi / 6) + y * cos(pi / 6)) for x, y in _QUAD], [(0, 1, 2), (2, 3, 0)]),
    # a triangle listed clockwise next to one listed counter-clockwise
    "clockwise": ([(0, 0), (1.1, 0.2), (0.9, 1.2), (-0.3, 0.8)], [(1, 0, 2), (2, 3, 0)]),
    "skewed": ([(0, 0), (1, 0.1), (1.6, 1), (0.6, 0.9)], [(2, 0, 1), (3, 0, 2)]),
    # unequal sizes
    "graded": ([(0, 0), (1, 0), (0, 1), (0.25, 0), (0.2, 0.25), (0, 0.3)], [(0, 3, 5), (3, 4, 5), (3, 1, 4), (1, 2, 4), (2, 5, 4)]),
    "hexagon": _hexagon(),
    # not convex
    "ell": ([(0, 0), (1, 0), (2, 0), (0, 1), (1, 1), (2, 1), (0, 2), (1, 2)],
            [(0, 1, 4), (0, 4, 3), (1, 2, 5), (1, 5, 4), (3, 4, 7), (3, 7, 6)]),
    # a hole
    "ring": _ring(),
    # two pieces that do not touch
    "pieces": ([(0, 0), (1, 0), (0.2, 0.9), (2.5, 0.3), (3.3, 0.1), (3.4, 1.4)], [(0, 1, 2), (3, 4, 5)]),
    # two pieces that touch in a corner
    "bow": ([(0, 0), (1, 0.2), (1.1, 1), (2, 1.9), (2.1, 0.9)], [(0, 1, 2), (2, 4, 3)]),
}
NAMES = list(RAW)


def order(n, turn):
    """A permutation of range(n): position k gets number order[k]."""
    if turn == 0:
        return list(range(n))
    if turn == 1:
        return list(range(n - 1, -1, -1))
    step = next(s for s in range(n // 2 + 1, 2 * n + 2) if np.gcd(s, n) == 1)
    return [(k * step + turn) % n for k in range(n)]


def boundary_of(triangles):
    count = {}
    for t in triangles:
        for k in range(3):
            e = frozenset((t[k], t[(k + 1) % 3]))
            count[e] = count.get(e, 0) + 1
    return count


def parts(edges, fixed):
    """Lists of a Boundary: vertices and edges."""
    chosen = [e for e in edges if fixed(e)]
    vertices = sorted({v for e in chosen for v in e})
    return vertices, chosen


def plain(name, scale=1.0, turn=0, fix=()):
    """(points, edges, triangles, boundary edges, fixed edges) with numbering `turn`; fix: numbers of boundary edges."""
    raw, tris = RAW[name]
    n = len(raw)
    number = order(n, turn)
    points = [None] * n
    for k, (x, y) in enumerate(raw):
        points[number[k]] = (float(x) * scale, float(y) * scale)
    triangles = [tuple(number[v] for v in t) for t in tris]
    if turn:
        triangles = [t[k % 3:] + t[: k % 3] for k, t in enumerate(reversed(triangles))]
    count = {}
    for t in tris:
        for k in range(3):
            count.setdefault(frozenset((t[k], t[(k + 1) % 3])), []).append(t)
    listed = sorted(tuple(sorted(e)) for e in count)
    outline = [e for e in listed if len(count[frozenset(e)]) == 1]
    fixed = [outline[k % len(outline)] for k in dict.fromkeys(k % len(outline) for k in fix)]

    def renumbered(edges):
        out = [(number[a], number[b]) for a, b in edges]
        if turn:
            out = [(b, a) if k % 2 else (a, b) for k, (a, b) in enumerate(out)][::-1]
        return out

    edges = renumbered(listed)
    # an edge is listed in the same direction everywhere
    same = {frozenset(e): e for e in edges}
    pick = lambda some: [same[frozenset((number[a], number[b]))] for a, b in some]
    return points, edges, triangles, pick(outline), pick(fixed)


def grid(name, scale=1.0, turn=0, fix=()):
    from tvemoves_rufbad.domain import Boundary, Grid
    from tvemoves_rufbad.tensors import Vector

    points, edges, triangles, outline, fixed = plain(name, scale, turn, fix)
    b = Boundary(*parts(outline, lambda e: True))
    d = Boundary(*parts(outline, lambda e: e in fixed))
    f = Boundary(*parts(outline, lambda e: e not in fixed))
    return Grid(list(range(len(points))), edges, triangles, b, d, f, [Vector([x, y]) for x, y in points])


def refine(coarse, n):
    """Every triangle is split into n * n triangles of its shape."""
    from tvemoves_rufbad.domain import Boundary, RefinedGrid
    from tvemoves_rufbad.tensors import BarycentricCoordinates, Vector

    points = [(float(p[0]), float(p[1])) for p in coarse.points]
    ids = {frozenset({(v, n)}): v for v in range(len(points))}

    def vertex(weights):
        """weights: dict coarse vertex -> integer weight, total n."""
        key = frozenset((v, w) for v, w in weights.items() if w)
        if key not in ids:
            ids[key] = len(points)
            points.append(tuple(sum(w * float(coarse.points[v][d]) for v, w in sorted(key)) / n for d in range(2)))
        return ids[key]

    triangles, parent, weights_of = [], {}, {}
    edges, on_coarse, relative = [], {}, {}
    directed = {frozenset(e): e for e in coarse.edges}

    def add(t, ijs):
        corners = tuple(vertex({t[0]: n - i - j, t[1]: i, t[2]: j}) for i, j in ijs)
        triangles.append(corners)
        parent[corners] = t
        weights_of[corners] = tuple(BarycentricCoordinates((n - i - j) / n, i / n) for i, j in ijs)

    for t in coarse.triangles:
        for j in range(n):
            for i in range(n - j):
                add(t, ((i, j), (i + 1, j), (i, j + 1)))
                if i + j < n - 1:
                    add(t, ((i + 1, j), (i + 1, j + 1), (i, j + 1)))
    pieces = {}
    for e in coarse.edges:
        chain = [vertex({e[0]: n - k, e[1]: k}) for k in range(n + 1)]
        pieces[e] = list(zip(chain, chain[1:]))
        for k, fine in enumerate(pieces[e]):
            edges.append(fine)
            on_coarse[fine] = e
            relative[fine] = (1 - k / n, 1 - (k + 1) / n)
    seen = {frozenset(e) for e in edges}
    for t in triangles:
        for k in range(3):
            e = (t[k], t[(k + 1) % 3])
            if frozenset(e) not in seen:
                seen.add(frozenset(e))
                edges.append(e)

    def fine(b):
        es = [f for e in b.edges for f in pieces[directed[frozenset(e)]]]
        return Boundary(*parts(es, lambda e: True))

    return RefinedGrid(list(range(len(points))), edges, triangles, fine(coarse.boundary), fine(coarse.dirichlet_boundary), fine(coarse.neumann_boundary),
                       [Vector([x, y]) for x, y in points], coarse, parent, weights_of, on_coarse, relative)


def _height(corners):
    a, b, c = (np.array(p, float) for p in corners)
    area2 = abs((b - a)[0] * (c - a)[1] - (b - a)[1] * (c - a)[0])
    return float(area2 / max(np.linalg.norm(b - a), np.linalg.norm(c - b), np.linalg.norm(a - c)))


class Shape:
    """What the checks ask of a shape."""

    def __init__(self, name, scale):
        raw, triangles = RAW[name]
        # the smallest height of a triangle limits the displacements that keep its orientation
        self.height = scale * min(_height([raw[v] for v in t]) for t in triangles)
        self.nx = self.ny = max(2, int(np.ceil(np.abs(np.array(raw)).max())))
        self.scale, self.fixed, self.name = scale, frozenset(), name


class Custom:
    """A domain as a user writes it (see the protocol Domain)."""

    def __init__(self, name, turn=0, fix=()):
        self.name, self.turn, self.fix = name, turn, tuple(fix)

    def grid(self, scale):
        return grid(self.name, scale, self.turn, self.fix)

    def refine(self, grid, refinement_factor):
        return refine(grid, refinement_factor)

    def curves(self, num_points_per_curve, num_horizontal_curves=0, num_vertical_curves=None):
        return []

    def plot(self, ax=None):
        return ax
