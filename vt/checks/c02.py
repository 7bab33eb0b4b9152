"""C02: the boundary is split exactly into a fixed and a free part."""

from itertools import permutations, product

from vt import dom
from vt.core import THOROUGH, require
from vt.ref import mesh

LEVEL = "exploration"
RULE = (
    "a case is a rectangle with one way of naming fixed sides (string, every ordered list of distinct sides, every list"
    " with repetitions up to a length, none, empty list), and its boundary parts are compared with the lattice; distinct"
    " cases differ in rectangle or in the way of naming"
)
ASSUMPTIONS = ["cells per side up to the listed shapes", "fixed sides are among the four documented names"]


def fixes():
    out = [None, []] + list(mesh.SIDES)
    for k in range(1, 5):
        out += [list(p) for p in permutations(mesh.SIDES, k)]
    for k in range(2, 4 if not THOROUGH else 5):
        out += [list(p) for p in product(mesh.SIDES, repeat=k) if len(set(p)) < k]
    out.append(["left", "upper", "right", "lower", "left", "upper", "right", "lower"])
    return out


def body(cfg, ch):
    """All ways of naming fixed sides for one rectangle."""
    results = {}
    for fix in fixes():
        c = dict(cfg, fix=fix)
        given = list(fix) if isinstance(fix, list) else fix
        domain, scale, shape = dom.make(c)
        what = f"grid of {dom.describe(c)}"
        grid = domain.grid(scale)
        pos = mesh.lattice(grid, shape, what=what)
        mesh.check_boundary(grid, shape, pos, what)
        require(fix == given, f"{what}: the list of fixed sides given by the user was changed to {fix}")
        # boundary edges are those of one triangle only, judged by the triangles of the very grid
        count = {}
        for t in grid.triangles:
            for k in range(3):
                e = frozenset((t[k], t[(k + 1) % 3]))
                count[e] = count.get(e, 0) + 1
        outer = {e for e, n in count.items() if n == 1}
        mesh.same_set({frozenset(e) for e in grid.boundary.edges}, outer, f"{what}: edges of one triangle only")
        d = {frozenset(e) for e in grid.dirichlet_boundary.edges}
        n = {frozenset(e) for e in grid.neumann_boundary.edges}
        require(not (d & n) and d | n == outer, f"{what}: the parts do not partition the boundary edges")
        key = shape.fixed
        parts = (
            frozenset(d), frozenset(n),
            frozenset(grid.dirichlet_boundary.vertices), frozenset(grid.neumann_boundary.vertices),
        )
        require(results.setdefault(key, parts) == parts, f"{what}: another result than for the same sides before")
        ch.case((dom.describe(cfg), repr(fix)))
        # the same grid object once more, after the domain was used again
        mesh.check_boundary(domain.grid(scale), shape, pos, what + " (second call)")
        mesh.check_boundary(grid, shape, pos, what + " (after a second call)")
        ch.evals(2)


def changed(cfg, ch):
    """The sides named by the user at the time of the call count: reassigning fix takes effect in the next grid."""
    a, b = ch.pick("first", cfg["fixes"]), ch.pick("second", cfg["fixes"])
    domain, scale, shape = dom.make(dict(cfg, fix=list(a)))
    first = domain.grid(scale)
    domain2, _, shape2 = dom.make(dict(cfg, fix=list(b)))
    second = domain2.grid(scale)
    for g, s, w in ((first, shape, "first"), (second, shape2, "second"), (domain.grid(scale), shape, "first again")):
        pos = mesh.lattice(g, s)
        mesh.check_boundary(g, s, pos, f"{w} of two grids with fixed sides {a}, {b}")
    ch.case((dom.describe(cfg), tuple(a), tuple(b)))


def parts():
    shapes = dom.SMALL + dom.LONG[:6]
    cfgs = [dict(nx=nx, ny=ny, scale=s, slack=sl) for nx, ny in shapes
            for s, sl in (("1", ("0", "0")), ("1/10", ("0", "1/4")), ("7/10", ("3/4", "0")), ("1000", ("1/2", "1/3")))]
    small = [dict(nx=nx, ny=ny, scale="1/2", fixes=mesh.fix_subsets()) for nx, ny in ((1, 1), (2, 1), (2, 2), (3, 2))]
    return [("sides", body, cfgs), ("two", changed, small)]
