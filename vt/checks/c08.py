"""C08: quadrature rules are exact to their stated degree."""

from fractions import Fraction
from itertools import product
from math import factorial

from vt.core import THOROUGH, Violation, raises, require

LEVEL = "exploration"
RULE = (
    "a case is a rule with one monomial of the barycentric weights (a basis of the polynomials up to the degree, so"
    " exactness for all follows by linearity), or a list of weights and positions offered to the constructor"
)
ASSUMPTIONS = [
    "exactness up to 1e-11 relative to the integral of the absolute value (published weights have 15 digits)",
    "segment rules up to the listed number of points",
]


def triangle(cfg, ch):
    import tvemoves_rufbad.quadrature_rules as q

    name, degree = cfg["rule"], cfg["degree"]
    rule = q.DUNAVANT_QUADRATURE_RULES[int(name)] if name.isdigit() else getattr(q, name)
    for use in range(2):  # a rule can be iterated any number of times
        pairs = list(rule)
        w = [a for a, _ in pairs]
        pts = [(p.l1, p.l2, p.l3) for _, p in pairs]
        require(len(pairs) == len(rule.weights) == len(rule.points), f"{name}: iteration gives {len(pairs)} pairs")
        require(
            w == list(rule.weights) and pts == [(p.l1, p.l2, p.l3) for p in rule.points],
            f"{name}: iteration does not give the weights and positions",
        )
        require(abs(sum(w) - 1) <= 1e-12, f"{name}: weights add up to {sum(w)}")
        for p in pts:
            require(all(-1e-12 <= x <= 1 + 1e-12 for x in p), f"{name}: position {p} is outside of the triangle")
            require(abs(sum(p) - 1) <= 1e-12, f"{name}: position {p} is not barycentric")
        # int L1^a L2^b L3^c = 2 |T| a! b! c! / (a+b+c+2)!; homogeneous monomials of degree d span all of degree <= d
        for d in range(degree + 1):
            for a in range(d + 1):
                for b in range(d + 1 - a):
                    c = d - a - b
                    exact = float(Fraction(2 * factorial(a) * factorial(b) * factorial(c), factorial(d + 2)))
                    got = sum(x * p[0] ** a * p[1] ** b * p[2] ** c for x, p in zip(w, pts))
                    require(
                        abs(got - exact) <= 1e-11 * max(exact, 1e-3),
                        f"{name}: L1^{a} L2^{b} L3^{c} is integrated to {got} instead of {exact}",
                    )
                    ch.case((name, a, b, c))
        ch.evals()


def points(cfg, ch):
    """Cartesian monomials on actual triangles of all kinds."""
    import tvemoves_rufbad.quadrature_rules as q

    name, degree = cfg["rule"], cfg["degree"]
    rule = q.DUNAVANT_QUADRATURE_RULES[int(name)] if name.isdigit() else getattr(q, name)
    triangles = [
        ((0, 0), (1, 0), (0, 1)), ((0, 0), (1, 0), (1, 1)), ((1, 1), (0, 1), (0, 0)),
        ((-1, 2), (3, -1), (Fraction(1, 2), 5)), ((0, 0), (0, 1), (4, 0)), ((2, 2), (Fraction(21, 10), 2), (0, -3)),
    ]
    for t in triangles:
        (x1, y1), (x2, y2), (x3, y3) = t
        for m in range(degree + 1):
            for n in range(degree + 1 - m):
                exact, scale = integral(t, m, n)
                got = sum(
                    w * float(p.l1 * float(x1) + p.l2 * float(x2) + p.l3 * float(x3)) ** m
                    * float(p.l1 * float(y1) + p.l2 * float(y2) + p.l3 * float(y3)) ** n
                    for w, p in rule
                )
                require(
                    abs(got - float(exact)) <= 1e-11 * float(scale),
                    f"{name}: mean of x^{m} y^{n} over {t} is {got} instead of {float(exact)}",
                )
                ch.case((name, repr(t), m, n))


def integral(t, m, n):
    """Mean of x^m y^n over the triangle (exact), and a bound of its size."""
    # expand (sum l_i x_i)^m (sum l_i y_i)^n into monomials of the weights
    poly = {(0, 0, 0): Fraction(1)}
    for coords, k in (([Fraction(p[0]) for p in t], m), ([Fraction(p[1]) for p in t], n)):
        for _ in range(k):
            new = {}
            for e, c in poly.items():
                for i in range(3):
                    f = tuple(x + (i == j) for j, x in enumerate(e))
                    new[f] = new.get(f, 0) + c * coords[i]
            poly = new
    d = m + n
    total = sum(c * Fraction(2 * factorial(a) * factorial(b) * factorial(g), factorial(d + 2)) for (a, b, g), c in poly.items())
    size = max(abs(Fraction(x)) for p in t for x in p)
    return total, max(Fraction(1), size) ** d


def segment(cfg, ch):
    from tvemoves_rufbad.quadrature_rules import GaussQuadratureRule

    n = cfg["n"]
    rule = GaussQuadratureRule(n)
    for use in range(2):
        pairs = list(rule)
        require(len(pairs) == n, f"segment rule of {n} points: {len(pairs)} pairs")
        require(
            [float(w) for w, _ in pairs] == [float(w) for w in rule.weights]
            and [float(p) for _, p in pairs] == [float(p) for p in rule.points],
            f"segment rule of {n} points: iteration does not give the weights and positions",
        )
        require(abs(sum(w for w, _ in pairs) - 1) <= 1e-12, f"segment rule of {n} points: weights do not add up to 1")
        for _, p in pairs:
            require(-1e-12 <= p <= 1 + 1e-12, f"segment rule of {n} points: position {p}")
        for k in range(2 * n):
            for name, f, exact in (
                ("t", lambda t: t**k, 1 / (k + 1)),
                ("1-t", lambda t: (1 - t) ** k, 1 / (k + 1)),
                ("2t-1", lambda t: (2 * t - 1) ** k, 0 if k % 2 else 1 / (k + 1)),
            ):
                got = sum(w * f(p) for w, p in pairs)
                require(
                    abs(got - exact) <= 1e-12,
                    f"segment rule of {n} points: ({name})^{k} is integrated to {got} instead of {exact}",
                )
                ch.case((n, name, k))
    # rules do not share state
    other = GaussQuadratureRule(n + 1)
    require(len(list(other)) == n + 1 and len(list(rule)) == n, "two segment rules influence each other")


def invalid(cfg, ch):
    """All small lists of weights and positions from an alphabet: accepted exactly if valid."""
    from tvemoves_rufbad.quadrature_rules import TriangleQuadratureRule

    xs = [-0.25, -1e-3, 0.0, 0.25, 0.5, 1.0, 1.001, 1.25]
    pts = [(x, y) for x in xs for y in xs]
    ws = [-1.0, -0.5, 0.0, 0.5, 0.999, 1.0, 1.001, 2.0]

    def inside(p):
        return p[0] >= 0 and p[1] >= 0 and p[0] + p[1] <= 1

    def attempt(weights, points):
        ok = all(inside(p) for p in points) and abs(sum(weights) - 1) <= 1e-9
        given = (list(weights), list(points))
        try:
            r = TriangleQuadratureRule(list(weights), list(points))
        except ValueError:
            require(not ok, f"the valid rule with weights {weights} and positions {points} is rejected")
        else:
            require(ok, f"a rule with weights {weights} and positions {points} is accepted")
            got = [(w, p.l1, p.l2) for w, p in r]
            require(
                got == [(w, *p) for w, p in zip(*given)], f"rule with weights {weights} and positions {points}: {got}"
            )
        ch.case((repr(weights), repr(points)))

    for p in pts:
        for w in ws:
            attempt([w], [p])
    near = [(0.25, 0.25), (0.5, 0.5), (1.0, 0.0), (-0.25, 0.5), (0.5, 0.75), (0.25, -1e-3), (1.001, 0.0)]
    for p, q in product(pts if THOROUGH else near, near):
        for w, v in product(ws, ws):
            attempt([w, v], [p, q])
    for w in product([-0.5, 0.25, 0.5, 1.0], repeat=3):
        for bad in range(4):
            p = [(0.25, 0.25), (0.5, 0.5), (0.0, 1.0)]
            if bad < 3:
                p[bad] = (0.75, 0.5)
            attempt(list(w), p)


def parts():
    rules = [dict(rule=str(d - 1), degree=d) for d in range(1, 6)]
    rules += [dict(rule=r, degree=d) for r, d in (
        ("CENTROID", 1), ("VERTEX", 1), ("DUNAVANT2", 2), ("DUNAVANT3", 3), ("DUNAVANT4", 4), ("DUNAVANT5", 5))]
    return [
        ("triangle", triangle, rules),
        ("cartesian", points, rules),
        ("segment", segment, [dict(n=n) for n in range(1, 21 if not THOROUGH else 65)]),
        ("invalid", invalid, [dict()]),
    ]
