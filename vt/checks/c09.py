"""C09: integrals over grids and boundaries are exact, additive and repeatable."""

from fractions import Fraction
from itertools import combinations, permutations, product
from math import factorial, sqrt

from vt import dom
from vt.core import THOROUGH, require
from vt.ref import mesh

LEVEL = "exploration"
RULE = (
    "a case is an integrator over one list of triangles or edges (all sub-lists, orders, rotations and orientations of"
    " small grids, all of larger ones) with one rule and one monomial integrand; distinct cases differ in one of these;"
    " for every use the calls made to the integrand are recorded"
)
ASSUMPTIONS = [
    "integrands are decided on monomials of degree up to that of the rule, piecewise ones on indicator functions",
    "relative tolerance 1e-10 of the integral of the absolute value",
]


def triangle_mean(ps, m, n):
    """Mean of x^m y^n over a triangle (rational arithmetic)."""
    poly = {(0, 0, 0): Fraction(1)}
    for axis, k in ((0, m), (1, n)):
        for _ in range(k):
            new = {}
            for e, c in poly.items():
                for i in range(3):
                    f = tuple(x + (i == j) for j, x in enumerate(e))
                    new[f] = new.get(f, 0) + c * ps[i][axis]
            poly = new
    d = m + n
    return sum(c * Fraction(2 * factorial(a) * factorial(b) * factorial(g), factorial(d + 2)) for (a, b, g), c in poly.items())


def exact_points(shape, pos, scale):
    s = Fraction(scale)
    return {v: (i * s, j * s) for v, (i, j) in pos.items()}


def rules():
    import tvemoves_rufbad.quadrature_rules as q

    return [("VERTEX", q.VERTEX, 1)] + [(f"degree {d}", q.DUNAVANT_QUADRATURE_RULES[d - 1], d) for d in range(1, 6)]


def use(integrator, triangles, rule, points, m, n, piece=None):
    """One use of the integrator: (result, calls)."""
    calls = []

    def integrand(t, p):
        calls.append((t, (p.l1, p.l2, p.l3)))
        i, j, k = t
        x, y = (p.l1 * points[i][a] + p.l2 * points[j][a] + p.l3 * points[k][a] for a in range(2))
        return (piece[t] if piece else 1) * x**m * y**n

    return integrator(integrand), calls


def variants(triangles, exhaustive):
    """Lists of triangles: sub-lists in all orders, with rotated and reversed triangles."""
    out = []
    if exhaustive:
        for r in range(len(triangles) + 1):
            for sub in combinations(triangles, r):
                for p in permutations(sub) if r <= 3 else [sub, sub[::-1], sub[1:] + sub[:1]]:
                    out.append(list(p))
        for t in triangles:
            for q in permutations(t):
                out.append([q])
                out.append([q, triangles[0]] if t != triangles[0] else [q])
    else:
        out = [list(triangles), list(reversed(triangles)), triangles[::2], triangles[1:]]
        out.append([t[k % 3:] + t[:k % 3] for k, t in enumerate(triangles)])
        out.append([(t[1], t[0], t[2]) if k % 2 else t for k, t in enumerate(triangles)])
    return out


def area(cfg, ch):
    from tvemoves_rufbad.integrators import Integrator

    domain, scale, shape = dom.make(cfg)
    what = dom.describe(cfg)
    grid = domain.grid(scale)
    if cfg.get("factor"):
        grid = domain.refine(grid, cfg["factor"])
        shape = shape.finer(cfg["factor"])
    pos = mesh.lattice(grid, shape, what=what)
    exact = exact_points(shape, pos, Fraction(cfg["scale"]) / cfg.get("factor", 1))
    s = float(Fraction(cfg["scale"]) / cfg.get("factor", 1))
    size = max(shape.nx, shape.ny) * s
    before = mesh.snapshot(grid)
    cell = Fraction(cfg["scale"]) ** 2 / 2 / cfg.get("factor", 1) ** 2
    for triangles in variants(list(grid.triangles), cfg["exhaustive"]):
        given = list(triangles)
        for name, rule, degree in rules():
            integrator = Integrator(rule, triangles, grid.points)
            monomials = [(m, n) for m in range(degree + 1) for n in range(degree + 1 - m)]
            if not cfg["exhaustive"]:
                monomials = [mn for mn in monomials if sum(mn) in (0, 1, degree)]
            for m, n in monomials + monomials[:1]:
                want = sum((cell * triangle_mean([exact[v] for v in t], m, n) for t in given), Fraction(0))
                got, calls = use(integrator, triangles, rule, grid.points, m, n)
                w = f"{what}: x^{m} y^{n} over {len(given)} triangles {given[:3]}... with the rule of {name}"
                tol = 1e-10 * float(cell) * max(1, len(given)) * size ** (m + n)
                require(abs(got - float(want)) <= tol, f"{w}: {got} instead of {float(want)}")
                expected = sorted((t, (p.l1, p.l2, p.l3)) for t in given for p in rule.points)
                require(sorted(calls) == expected, f"{w}: the integrand is not evaluated once per triangle and position")
                ch.case((what, tuple(given), name, m, n))
            # piecewise constant: the sum over the parts, each counted with its area
            piece = {t: float(k + 1) for k, t in enumerate(given)}
            got, _ = use(integrator, triangles, rule, grid.points, 0, 0, piece)
            want = float(cell) * sum(piece[t] for t in given)
            require(abs(got - want) <= 1e-10 * float(cell) * max(1, sum(piece.values())), f"{what}: piecewise constant: {got}, not {want}")
            parts_sum = sum(
                use(Integrator(rule, [t], grid.points), [t], rule, grid.points, 1, 0)[0] for t in given
            )
            whole = use(integrator, triangles, rule, grid.points, 1, 0)[0]
            tol = 1e-10 * float(cell) * max(1, len(given)) * size
            require(abs(parts_sum - whole) <= tol, f"{what}: the sum over the triangles is {parts_sum}, the whole {whole}")
            ch.evals(2)
        require(triangles == given, f"{what}: the list of triangles was changed")
    require(mesh.snapshot(grid) == before, f"{what}: integrating changed the grid")


def general(cfg, ch):
    """Triangles of any shape."""
    from tvemoves_rufbad.integrators import BoundaryIntegrator, Integrator
    from tvemoves_rufbad.tensors import Vector

    pts = [(0, 0), (1, 0), (0, 1), (3, 1), (Fraction(1, 2), 2), (-2, Fraction(3, 2))]
    points = [Vector([float(x), float(y)]) for x, y in pts]
    for t in permutations(range(len(pts)), 3):
        a, b, c = (pts[v] for v in t)
        double = (b[0] - a[0]) * (c[1] - a[1]) - (c[0] - a[0]) * (b[1] - a[1])
        ar = abs(Fraction(double)) / 2
        for name, rule, degree in rules():
            integrator = Integrator(rule, [t], points)
            for m, n in ((0, 0), (1, 0), (0, 1), (degree, 0), (degree - 1, 1)):
                want = ar * triangle_mean([tuple(map(Fraction, pts[v])) for v in t], m, n)
                got, _ = use(integrator, [t], rule, points, m, n)
                require(abs(got - float(want)) <= 1e-10 * max(1.0, float(ar)) * 3.0 ** (m + n),
                        f"x^{m} y^{n} over {[pts[v] for v in t]} with the rule of {name}: {got} instead of {float(want)}")
                ch.case((t, name, m, n))
    for e in permutations(range(len(pts)), 2):
        for degree in range(1, 5):
            integrator = BoundaryIntegrator(degree, [e], points)
            for m, n in product(range(2 * degree), repeat=2):
                if m + n >= 2 * degree:
                    continue
                check_edges(ch, integrator, [e], degree, pts, points, m, n, f"edge {[pts[v] for v in e]}", 3.0)


def unequal(cfg, ch):
    """Lists of triangles and edges of very different sizes: each counts with its own area or length."""
    from tvemoves_rufbad.integrators import BoundaryIntegrator, Integrator
    from tvemoves_rufbad.tensors import Vector

    sizes = [10.0**k for k in cfg["exponents"]]
    points, triangles, edges = [], [], []
    for k, s in enumerate(sizes):
        n = len(points)
        points += [Vector([100.0 * k, 0.0]), Vector([100.0 * k + s, 0.0]), Vector([100.0 * k, s])]
        triangles.append((n, n + 1, n + 2))
        edges.append((n, n + 2))
    for sub in (s for r in range(1, len(sizes) + 1) for s in combinations(range(len(sizes)), r)):
        for name, rule, _ in rules():
            integrator = Integrator(rule, [triangles[k] for k in sub], points)
            for only in sub:
                got = integrator(lambda t, b: 1.0 if t == triangles[only] else 0.0)
                # the corners are computed from the coordinates, which are rounded
                real = abs((points[3 * only + 1][0] - points[3 * only][0]) * points[3 * only + 2][1]) / 2
                require(abs(got - real) <= 1e-10 * real, f"triangles of sizes {[sizes[k] for k in sub]} with the rule of {name}: the one of size {sizes[only]} counts {got} instead of {real}")
                ch.case((tuple(cfg["exponents"]), sub, only, name))
        for degree in range(1, 5):
            integrator = BoundaryIntegrator(degree, [edges[k] for k in sub], points)
            for only in sub:
                got = integrator(lambda e, t: 1.0 if e == edges[only] else 0.0)
                require(abs(got - sizes[only]) <= 1e-10 * sizes[only], f"edges of lengths {[sizes[k] for k in sub]} with {degree} positions: the one of length {sizes[only]} counts {got}")
                ch.case((tuple(cfg["exponents"]), sub, only, degree))


def edge_integral(e, pts, m, n):
    (x1, y1), (x0, y0) = (tuple(map(Fraction, pts[v])) for v in e)
    poly = [Fraction(1)]  # coefficients in t
    for u1, u0, k in ((x1, x0, m), (y1, y0, n)):
        for _ in range(k):
            new = [Fraction(0)] * (len(poly) + 1)
            for d, c in enumerate(poly):
                new[d] += c * u0
                new[d + 1] += c * (u1 - u0)
            poly = new
    length = sqrt(float((x1 - x0) ** 2 + (y1 - y0) ** 2))
    return length * float(sum(c / (d + 1) for d, c in enumerate(poly))), length


def check_edges(ch, integrator, edges, degree, pts, points, m, n, what, size):
    calls = []

    def integrand(e, t):
        calls.append((e, float(t)))
        i, j = e
        return (t * points[i][0] + (1 - t) * points[j][0]) ** m * (t * points[i][1] + (1 - t) * points[j][1]) ** n

    got = integrator(integrand)
    vals = [edge_integral(e, pts, m, n) for e in edges]
    want = sum(v for v, _ in vals)
    tol = 1e-10 * max(sum(l for _, l in vals), 1e-30) * size ** (m + n)
    require(abs(got - want) <= tol, f"{what}: x^{m} y^{n} with {degree} positions per edge: {got} instead of {want}")
    from tvemoves_rufbad.quadrature_rules import GaussQuadratureRule

    expected = sorted((e, float(p)) for e in edges for _, p in GaussQuadratureRule(degree))
    require(sorted(calls) == expected, f"{what}: the integrand is not evaluated once per edge and position")
    ch.case((what, tuple(edges), degree, m, n))


def boundary(cfg, ch):
    from tvemoves_rufbad.integrators import BoundaryIntegrator

    domain, scale, shape = dom.make(cfg)
    what = dom.describe(cfg)
    grid = domain.grid(scale)
    if cfg.get("factor"):
        grid = domain.refine(grid, cfg["factor"])
        shape = shape.finer(cfg["factor"])
    pos = mesh.lattice(grid, shape, what=what)
    pts = exact_points(shape, pos, Fraction(cfg["scale"]) / cfg.get("factor", 1))
    size = max(shape.nx, shape.ny) * shape.scale
    before = mesh.snapshot(grid)
    lists = {
        "boundary": list(grid.boundary.edges), "fixed part": list(grid.dirichlet_boundary.edges),
        "free part": list(grid.neumann_boundary.edges), "all edges": list(grid.edges), "no edges": [],
    }
    if cfg["exhaustive"]:
        edges = list(grid.edges)
        for r in range(1, 4):
            for sub in combinations(edges, r):
                lists[f"edges {sub}"] = list(sub)
                lists[f"turned edges {sub}"] = [(j, i) for i, j in reversed(sub)]
    for name, edges in lists.items():
        for degree in range(1, 5 if len(edges) < 8 else 4):
            integrator = BoundaryIntegrator(degree, edges, grid.points)
            for m in range(2 * degree):
                for n in range(2 * degree - m):
                    if len(lists) > 20 and m + n not in (0, 1, 2 * degree - 1):
                        continue
                    check_edges(ch, integrator, edges, degree, pts, grid.points, m, n, f"{what}: {name}", size)
            check_edges(ch, integrator, edges, degree, pts, grid.points, 0, 0, f"{what}: {name} (again)", size)
            whole = integrator(lambda e, t: (e[0] + 1) * t + e[1])
            by_edge = sum(BoundaryIntegrator(degree, [e], grid.points)(lambda e, t: (e[0] + 1) * t + e[1]) for e in edges)
            require(abs(whole - by_edge) <= 1e-10 * max(1e-30, abs(whole)), f"{what}: {name}: not the sum over the edges")
            ch.evals()
    require(mesh.snapshot(grid) == before, f"{what}: integrating changed the grid")


def many(cfg, ch):
    """Large grids: every triangle and every edge counts exactly once."""
    from tvemoves_rufbad.integrators import BoundaryIntegrator, Integrator

    domain, scale, shape = dom.make(cfg)
    what = dom.describe(cfg)
    grid = domain.grid(scale)
    import tvemoves_rufbad.quadrature_rules as q

    for rule in (q.CENTROID, q.DUNAVANT2):
        seen = {}

        def piece(t, p):
            seen[t] = seen.get(t, 0) + 1
            return 1.0 + (t[0] * 7 + t[1]) % 13

        got = Integrator(rule, grid.triangles, grid.points)(piece)
        want = sum(scale * scale / 2 * (1.0 + (t[0] * 7 + t[1]) % 13) for t in grid.triangles)
        require(abs(got - want) <= 1e-9 * want, f"{what}: a piecewise constant function over {len(grid.triangles)} triangles: {got} instead of {want}")
        require(seen == {t: len(list(rule)) for t in grid.triangles}, f"{what}: {len(seen)} of {len(grid.triangles)} triangles are visited")
        ch.case((what, "triangles", len(list(rule))))
    for edges in (grid.edges, grid.boundary.edges):
        seen = {}

        def along(e, t):
            seen[e] = seen.get(e, 0) + 1
            return 1.0 + (e[0] * 5 + e[1]) % 11

        got = BoundaryIntegrator(2, edges, grid.points)(along)
        length = lambda e: ((grid.points[e[0]][0] - grid.points[e[1]][0]) ** 2 + (grid.points[e[0]][1] - grid.points[e[1]][1]) ** 2) ** 0.5
        want = sum(length(e) * (1.0 + (e[0] * 5 + e[1]) % 11) for e in edges)
        require(abs(got - want) <= 1e-9 * want, f"{what}: a piecewise constant function over {len(edges)} edges: {got} instead of {want}")
        require(seen == {e: 2 for e in edges}, f"{what}: {len(seen)} of {len(edges)} edges are visited")
        ch.case((what, "edges", len(edges)))


def compose(cfg, ch):
    """compose_to_integrand evaluates every inner integrand once, at the same position, in order."""
    from tvemoves_rufbad.helpers import compose_to_integrand

    for k in range(1, 6):
        log = []

        def inner(i):
            def f(*args):
                log.append((i, args))
                return (i, *args)

            return f

        for args in (((0, 1, 2), "p"), ((1, 2), 0.5), (3,), (1, 2, 3)):
            f = compose_to_integrand(lambda *xs: xs, *(inner(i) for i in range(k)))
            for _ in range(2):
                log.clear()
                got = f(*args)
                require(got == tuple((i, *args) for i in range(k)), f"composition of {k} integrands at {args}: {got}")
                require(sorted(log) == [(i, args) for i in range(k)], f"composition of {k} integrands: calls {log}")
                ch.case((k, args))
        g = compose_to_integrand(lambda a: a, inner(7))
        require(g(1, 2) == (7, 1, 2) and f(1, 2) == tuple((i, 1, 2) for i in range(k)), "two compositions influence each other")


def parts():
    small = [dict(nx=1, ny=1, scale=s, fix=["lower"], exhaustive=True) for s in ("1", "1/10", "1000")]
    small += [dict(nx=2, ny=1, scale=s, fix=["left", "upper"], exhaustive=True) for s in ("1/3", "1")]
    large = [dict(nx=nx, ny=ny, scale=s, fix=["left"], exhaustive=False) for nx, ny in ((2, 2), (3, 2), (1, 6), (4, 4))
             for s in ("1", "7/10", "1/1000", "1000")]
    large += [dict(nx=nx, ny=ny, scale=s, fix=["left"], exhaustive=False) for nx, ny in ((1, 1), (2, 1)) for s in ("1/1000000000", "1/10000000", "1000000000")]
    large += [dict(nx=nx, ny=1, scale="1/2", fix=["left"], factor=f, exhaustive=False) for nx in (1, 2) for f in (2, 3)]
    if THOROUGH:
        large += [dict(nx=nx, ny=ny, scale=s, fix=["left"], exhaustive=False) for nx, ny in ((8, 3), (1, 20), (6, 6))
                  for s in ("1/3", "1000000", "1/1000000")]
    return [("area", area, small + large), ("boundary", boundary, small + large), ("general", general, [dict()]), ("unequal", unequal, [dict(exponents=e) for e in ([0, -4, 3, -7], [1, 0, -1, -2, -3], [-6, -5, 6])]),
            ("compose", compose, [dict()]), ("many", many, [dict(nx=nx, ny=ny, scale=s, fix=["left"]) for nx, ny, s in ((9, 8, "1"), (20, 20, "1/20"), (60, 55, "1/3"), (1, 700, "2"), (1500, 2, "1/10"))])]
