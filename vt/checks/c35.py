"""C35: a grid can be built edge by edge."""

from math import cos, sin

from vt import dom
from vt.core import THOROUGH, raises, require

LEVEL = "model_checking"
RULE = (
    "a state is the list of edges of a grid after a sequence of added edges (all directed edges between its vertices, repeated or"
    " not); in every state the grid is compared with the one constructed with these edges at once"
)
ASSUMPTIONS = ["grids of up to five vertices at unequal distances, sequences up to the stated depth",
               "points closer to a vertex than the tolerance of the lookup by less than 5 percent are not judged"]

# distances between the vertices are all different, by up to a factor of 1000
PLACES = {
    "even": [(0.0, 0.0), (1.0, 0.0), (1.1, 1.2), (-0.2, 0.9), (2.3, 0.4)],
    "uneven": [(0.0, 0.0), (0.003, 0.001), (1.0, 0.2), (1.0, 3.7), (-2.0, 0.5)],
}


def grid(points, edges):
    from tvemoves_rufbad.domain import Boundary, Grid
    from tvemoves_rufbad.tensors import Vector

    return Grid(list(range(len(points))), list(edges), [], Boundary([], []), Boundary([], []), Boundary([], []), [Vector(list(p)) for p in points])


def observe(g, points, edges, tolerance):
    """What can be asked about edges and vertices."""
    from tvemoves_rufbad.tensors import Vector

    found = []
    for v, p in enumerate(points):
        for k, d in enumerate((0.0, 0.01, 0.5, 0.95, 1.05, 2.0, 100.0)):
            q = Vector([p[0] + d * tolerance * cos(k + v), p[1] + d * tolerance * sin(k + v)])
            found.append(g.point_to_vertex(q))
    return found


def body(cfg, ch):
    scale = cfg["scale"]
    points = [(x * scale, y * scale) for x, y in PLACES[cfg["places"]][: cfg["n"]]]
    n = len(points)
    directed = [(i, j) for i in range(n) for j in range(n) if i != j]
    start = [tuple(e) for e in cfg["start"]]
    g = grid(points, start)
    want = list(start)
    done = []
    what = f"{dom.describe({k: v for k, v in cfg.items() if k != 'first'})}"
    for k in range(cfg["depth"]):
        e = ch.pick("edge", [tuple(cfg["first"])] if k == 0 and "first" in cfg else directed)
        r = g.append_edge(e)
        done.append(e)
        if e not in want and e[::-1] not in want:
            want.append(e)
        ch.transition()
        w = f"{what}: after adding {done}"
        require(list(g.edges) == want, f"{w}: edges {g.edges} instead of {want}")
        if ch.state((what, tuple(want))) or k == cfg["depth"] - 1:
            compare(g, points, want, ch, w)
    ch.case((what, tuple(done)))
    ch.validated()


def compare(g, points, want, ch, w):
    other = grid(points, want)
    mean = sum(((points[i][0] - points[j][0]) ** 2 + (points[i][1] - points[j][1]) ** 2) ** 0.5 for i, j in want) / len(want)
    a, b = observe(g, points, want, mean / 1e7), observe(other, points, want, mean / 1e7)
    require(a == b, f"{w}: points next to vertices are looked up as {a}, by a grid constructed with these edges as {b}")
    require(g == other and other == g, f"{w}: the grid is not equal to the grid constructed with these edges")
    turned = grid(points, [(j, i) for i, j in reversed(want)])
    require(g == turned and turned == g, f"{w}: the grid is not equal to the grid constructed with these edges in the other order")
    for i, j in want:
        p, q = g.edge_vertices((i, j))
        require((p[0], p[1]) == points[i] and (q[0], q[1]) == points[j], f"{w}: end points of {(i, j)}: {p}, {q}")
    present = {frozenset(e) for e in want}
    for i in range(len(points)):
        for j in range(i):
            if frozenset((i, j)) not in present:
                raises(ValueError, lambda: g.edge_vertices((i, j)), f"{w}: end points of {(i, j)}, which is no edge")
                more = grid(points, want + [(i, j)])
                require(not (g == more) and not (more == g), f"{w}: the grid is equal to one with the further edge {(i, j)}")
                # another edge instead of the last one
                swapped = grid(points, want[:-1] + [(i, j)])
                require(not (g == swapped) and not (swapped == g), f"{w}: the grid is equal to one with {(i, j)} instead of {want[-1]}")
    ch.evals(3)


def many(cfg, ch):
    """Many edges between vertices at very different distances."""
    n, scale = cfg["n"], cfg["scale"]
    points = [(scale * (k * 1e-3 if k < n // 2 else 10.0 ** (cfg["growth"] * (k - n // 2) / n) * (1 + k)), scale * 0.1 * ((k * k) % 17)) for k in range(n)]
    g = grid(points, [])
    want = []
    what = dom.describe(cfg)
    for hop in cfg["hops"]:
        for i in range(n - hop):
            e = (i, i + hop) if i % 3 else (i + hop, i)
            g.append_edge(e)
            g.append_edge(e[::-1] if i % 2 else e)
            want.append(e)
            ch.transition()
            if len(want) % cfg["every"] == 0 or hop == cfg["hops"][-1] and i == n - hop - 1:
                w = f"{what}: after adding {len(want)} edges"
                require(list(g.edges) == want, f"{w}: other edges")
                other = grid(points, want)
                mean = sum(((points[i][0] - points[j][0]) ** 2 + (points[i][1] - points[j][1]) ** 2) ** 0.5 for i, j in want) / len(want)
                a, b = observe(g, points, want, mean / 1e7), observe(other, points, want, mean / 1e7)
                require(a == b, f"{w}: points next to vertices are looked up as {a}, by a grid constructed with these edges as {b}")
                ch.state((what, len(want)))
                ch.evals()
    ch.case((what, len(want)))
    ch.validated()


def split(cfg):
    n = cfg["n"]
    return [dict(cfg, first=[i, j]) for i in range(n) for j in range(n) if i != j]


def parts():
    deep = 4 if not THOROUGH else 5
    cfgs = []
    for places in PLACES:
        for scale in (1.0, 1e-6, 1e6):
            cfgs += split(dict(places=places, scale=scale, n=3, start=[], depth=deep))
            cfgs += split(dict(places=places, scale=scale, n=4, start=[], depth=deep - 1))
            cfgs += split(dict(places=places, scale=scale, n=4, start=[[0, 1]], depth=deep - 1))
            cfgs += split(dict(places=places, scale=scale, n=5, start=[[1, 0], [1, 2], [2, 3], [0, 3]], depth=deep - 2))
    return [("added", body, cfgs), ("many", many, [dict(n=n, scale=s, growth=g, hops=h, every=29) for n, s, g, h in ((40, 1.0, 6, [1]), (150, 1e-3, 5, [1]), (90, 10.0, 2, [1, 2, 7]))])]
