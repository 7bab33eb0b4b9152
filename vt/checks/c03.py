"""C03: every point is located in a triangle that contains it, others in none."""

from vt import dom, shapes
from vt.core import THOROUGH, Violation, raises, require
from vt.ref import mesh

LEVEL = "exploration"
RULE = (
    "a case is a point (all barycentric lattice points of every triangle, points of the outline, its corners, points"
    " outside at distances from 1e-6 to 100 scales, computed in several roundings) located in one (refined) grid, or one sequence of"
    " such lookups in a fresh grid;"
    " distinct cases differ in grid or point"
)
ASSUMPTIONS = [
    "scales from 1e-6 to 1e6 times the unit; points up to 100 scales away",
    "points outside closer than 1e-6 scales are not judged (rounding)",
    "weights may exceed [0, 1] by 1e-6",
]


def contained(grid, shape, p, ch, what):
    """p = (x, y) is located in a listed triangle containing it."""
    from tvemoves_rufbad.tensors import Vector

    s = shape.scale
    q = Vector([p[0], p[1]])
    bp = grid.to_barycentric_point(q)
    require(bp is not None, f"{what}: point {p} of the region is located in no triangle")
    require(bp.triangle in grid.triangles, f"{what}: point {p} is located in {bp.triangle}, which is not listed")
    c = bp.coordinates
    w = (c.l1, c.l2, c.l3)
    require(
        all(-1e-6 <= x <= 1 + 1e-6 for x in w) and abs(sum(w) - 1) <= 1e-9,
        f"{what}: point {p} is located in {bp.triangle} with weights {w}",
    )
    ps = [grid.points[v] for v in bp.triangle]
    x, y = (sum(l * a[k] for l, a in zip(w, ps)) for k in range(2))
    tol = 1e-9 * s
    require(
        abs(x - p[0]) <= tol and abs(y - p[1]) <= tol,
        f"{what}: point {p} is located in {bp.triangle} with weights {w}, which is ({x}, {y})",
    )
    require((q[0], q[1]) == (p[0], p[1]), f"{what}: the point was changed")
    ch.case((what, p))


def body(cfg, ch):
    from tvemoves_rufbad.interpolation import EuclideanInterpolation, P1Interpolation
    from tvemoves_rufbad.tensors import Vector

    domain, scale, shape = dom.make(cfg)
    what = f"{dom.describe(cfg)}"
    grid = domain.grid(scale)
    if cfg.get("factor"):
        grid = domain.refine(grid, cfg["factor"])
        shape = shape.finer(cfg["factor"])
    s = shape.scale
    W, H = shape.nx * s, shape.ny * s
    n = cfg["order"]
    # interior points, edges and vertices of every triangle
    for t in grid.triangles:
        a, b, c = (grid.points[v] for v in t)
        for i in range(n + 1):
            for j in range(n + 1 - i):
                l = (i / n, j / n, (n - i - j) / n)
                p = (l[0] * a[0] + l[1] * b[0] + l[2] * c[0], l[0] * a[1] + l[1] * b[1] + l[2] * c[1])
                contained(grid, shape, p, ch, what)
        # close to the corners and edges
        for l in ((1 - 2e-9, 1e-9, 1e-9), (1e-9, 0.5, 0.5 - 1e-9), (0.3, 0.7 - 1e-7, 1e-7), (1 / 3, 1 / 3, 1 / 3)):
            p = (l[0] * a[0] + l[1] * b[0] + l[2] * c[0], l[0] * a[1] + l[1] * b[1] + l[2] * c[1])
            contained(grid, shape, p, ch, what)
    # the outline as a user computes it: from width and height of the rectangle
    m = 8
    xs = [k * W / m for k in range(m + 1)] + [k * (W / m) for k in range(m + 1)]
    ys = [k * H / m for k in range(m + 1)] + [k * (H / m) for k in range(m + 1)]
    exact = all(x == "0" for x in cfg.get("slack", ("0", "0")))
    rights = [W, domain.width] if exact else [W]
    uppers = [H, domain.height] if exact else [H]
    for x in xs + rights:
        for y in [0.0] + uppers:
            contained(grid, shape, (x, y), ch, what)
    for y in ys + uppers:
        for x in [0.0] + rights:
            contained(grid, shape, (x, y), ch, what)
    for v in range(len(grid.points)):
        contained(grid, shape, (grid.points[v][0], grid.points[v][1]), ch, what)
    # points outside
    euclid = EuclideanInterpolation(P1Interpolation(grid, [1.0] * len(grid.vertices)))
    along_x = sorted({0.0, W, W / 2, W / 3, 0.9 * W, s, s / 2} | {-s, W + s})
    along_y = sorted({0.0, H, H / 2, H / 3, 0.9 * H, s, s / 2} | {-s, H + s})
    for d in (1e-6, 1e-5, 1e-4, 1e-3, 1e-2, 0.1, 0.3, 0.5, 1.0, 1.5, 2.0, 10.0, 100.0):
        e = d * s
        points = [(x, y) for x in along_x for y in (-e, H + e)]
        points += [(x, y) for y in along_y for x in (-e, W + e)]
        points += [(-e, -e), (W + e, -e), (W + e, H + e), (-e, H + e)]
        # on the lines that extend diagonals
        points += [(W + e, W + e), (-e, e), (W - H - e, -e), (H + e, H + e)]
        for p in points:
            if 0 <= p[0] <= W and 0 <= p[1] <= H:
                continue
            if max(-p[0], p[0] - W, -p[1], p[1] - H) < 0.99e-6 * s:
                continue
            bp = grid.to_barycentric_point(Vector([p[0], p[1]]))
            require(bp is None, f"{what}: point {p} outside [0, {W}] x [0, {H}] is located in {bp}")
            try:
                value = euclid(*p)
            except ValueError:
                pass
            else:
                raise Violation(f"{what}: an interpolation has the value {value} at {p}, outside of the grid")
            for f in (euclid.gradient,):
                try:
                    value = f(*p)
                except ValueError:
                    pass
                else:
                    raise Violation(f"{what}: an interpolation has the gradient {value} at {p}, outside of the grid")
            ch.case((what, p))


def histories(cfg, ch):
    """Lookups one after the other in a fresh grid: each answers as if it were the first."""
    from tvemoves_rufbad.tensors import Vector

    domain, scale, shape = dom.make(cfg)
    grid = domain.grid(scale)
    grids = [(grid, shape)]
    if cfg.get("factor"):
        grids.append((domain.refine(grid, cfg["factor"]), shape.finer(cfg["factor"])))
    s = shape.scale
    W, H = shape.nx * s, shape.ny * s
    points = [(-0.1 * s, 0.2 * s), (W + 0.5 * s, H / 2)]
    for t in grid.triangles:
        a, b, c = (grid.points[v] for v in t)
        for l in ((1 / 3, 1 / 3, 1 / 3), (0.8, 0.15, 0.05), (0.1, 0.2, 0.7), (0.5, 0.5, 0.0)):
            points.append(tuple(l[0] * a[k] + l[1] * b[k] + l[2] * c[k] for k in range(2)))
    points += [(p[0], p[1]) for p in grid.points]
    done = []
    for _ in range(cfg["depth"]):
        p = ch.pick("point", points)
        which = ch.pick("grid", range(len(grids)))
        done.append((p, which))
        what = f"{dom.describe(cfg)}: lookups {done}"
        if 0 <= p[0] <= W and 0 <= p[1] <= H:
            contained(*grids[which], p, ch, what)
        else:
            bp = grids[which][0].to_barycentric_point(Vector([p[0], p[1]]))
            require(bp is None, f"{what}: point {p} outside [0, {W}] x [0, {H}] is located in {bp}")
            ch.case((what, p))


def general(cfg, ch):
    """Triangulations that are no rectangle grids: not convex, with a hole, in pieces, numbered in any way."""
    from tvemoves_rufbad.interpolation import EuclideanInterpolation, P1Interpolation
    from tvemoves_rufbad.tensors import Vector

    s = mesh.num(cfg["scale"])
    grid = shapes.grid(cfg["shape"], s, cfg["turn"])
    shape = shapes.Shape(cfg["shape"], s)
    if cfg.get("factor"):
        grid = shapes.refine(grid, cfg["factor"])
    what = dom.describe(cfg)
    corners = [[(float(grid.points[v][0]), float(grid.points[v][1])) for v in t] for t in grid.triangles]
    n = cfg["order"]
    for c in corners:
        for i in range(n + 1):
            for j in range(n + 1 - i):
                l = (i / n, j / n, (n - i - j) / n)
                contained(grid, shape, tuple(sum(w * q[d] for w, q in zip(l, c)) for d in range(2)), ch, what)
    euclid = EuclideanInterpolation(P1Interpolation(grid, [1.0] * len(grid.vertices)))
    lo = [min(c[d] for t in corners for c in t) - 0.7 * s for d in range(2)]
    hi = [max(c[d] for t in corners for c in t) + 0.7 * s for d in range(2)]
    m = cfg["lattice"]
    for i in range(m + 1):
        for j in range(m + 1):
            p = (lo[0] + (hi[0] - lo[0]) * i / m, lo[1] + (hi[1] - lo[1]) * j / m)
            d = min(distance(p, c) for c in corners)
            if d <= 0:
                contained(grid, shape, p, ch, what)
            elif d > 1e-6 * s:
                bp = grid.to_barycentric_point(Vector(list(p)))
                require(bp is None, f"{what}: point {p}, {d} away from every triangle, is located in {bp}")
                raises(ValueError, lambda: euclid(*p), f"{what}: value of an interpolation at {p}, {d} away from every triangle")
                ch.case((what, p))


def distance(p, corners):
    """Lower bound of the distance of a point from a triangle; negative inside."""
    a, b, c = corners
    if (b[0] - a[0]) * (c[1] - a[1]) < (c[0] - a[0]) * (b[1] - a[1]):
        b, c = c, b
    out = -float("inf")
    for q, r in ((a, b), (b, c), (c, a)):
        dx, dy = r[0] - q[0], r[1] - q[1]
        out = max(out, (dy * (p[0] - q[0]) - dx * (p[1] - q[1])) / (dx * dx + dy * dy) ** 0.5)
    return out


def parts():
    cfgs = []
    k = 0
    for nx, ny in [(1, 1), (2, 1), (1, 3), (2, 2), (3, 2)] + ([(4, 4), (1, 7), (8, 1), (5, 3)] if THOROUGH else [(1, 6)]):
        for scale in dom.SCALES:
            for style, slack in (("exact", ("0", "0")), ("product", ("0", "0")), ("product", ("1/4", "9/10"))):
                if style == "product" and slack == ("0", "0") and not THOROUGH and k % 2:
                    k += 1
                    continue
                k += 1
                cfgs.append(dict(nx=nx, ny=ny, scale=scale, style=style, slack=slack, order=6 if THOROUGH else 4))
    refined = []
    for nx, ny in [(1, 1), (2, 1)] + ([(2, 2), (1, 3)] if THOROUGH else []):
        for scale in ("1", "1/10", "1/3", "1/1000", "1000") if not THOROUGH else dom.SCALES:
            for factor in (2, 3) + ((4, 5) if THOROUGH else ()):
                refined.append(dict(nx=nx, ny=ny, scale=scale, factor=factor, order=3))
    cfgs += [dict(nx=nx, ny=ny, scale=s, style="exact", slack=("0", "0"), order=1) for nx, ny, s in ((60, 1, "1"), (1, 60, "1/10"), (25, 9, "1000"), (90, 2, "1/1000"))]
    sequences = [dict(nx=nx, ny=ny, scale=s, depth=d, factor=f) for nx, ny, s, d, f in (
        (1, 1, "1", 3, None), (1, 1, "1/10", 2, 2), (2, 1, "1/2", 2, None), (2, 2, "1", 2, None), (1, 2, "3", 2, 3), (3, 2, "1/1000", 2, None))]
    if THOROUGH:
        sequences += [dict(nx=1, ny=1, scale="1/3", depth=4, factor=None), dict(nx=2, ny=2, scale="1/10", depth=3, factor=None), dict(nx=2, ny=1, scale="1", depth=3, factor=2)]
    other = [dict(shape=name, turn=turn, scale=scale, factor=f, order=4 if f is None else 2, lattice=23 if not THOROUGH else 61)
             for name in shapes.NAMES for turn in (0, 1, 2) for scale, f in (("1", None), ("1/1000", None), ("1000", 2))]
    return [("grid", body, cfgs), ("refined", body, refined), ("histories", histories, sequences), ("general", general, other)]
