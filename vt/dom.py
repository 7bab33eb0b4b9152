"""Construction of domains with known numbers of cells."""

from fractions import Fraction

from vt.core import THOROUGH
from vt.ref.mesh import SIDES, Shape, num

SCALES = ["1", "1/2", "1/10", "1/5", "3/10", "7/10", "1/3", "1/7", "5/2", "1/1000", "1000", "1/1000000", "1000000", "1/1000000000"]


def length(n, scale, slack, style="exact"):
    """A side of n + slack cells, as a user would write it."""
    s = Fraction(scale)
    if style == "exact":  # the decimal nearest to the length
        return float(s * (n + Fraction(slack)))
    if style == "product":  # rounding of scale and of the product
        return (n + float(Fraction(slack))) * float(s)
    if style == "sum":  # rounding errors of an accumulated length
        x = 0.0
        for _ in range(n):
            x += float(s)
        return x + float(Fraction(slack)) * float(s)
    raise ValueError(style)


def make(cfg):
    """cfg: nx, ny, scale and optionally slack (x, y), style, fix -> (domain, scale, shape)."""
    from tvemoves_rufbad.domain import RectangleDomain

    nx, ny, scale = cfg["nx"], cfg["ny"], cfg["scale"]
    sx, sy = cfg.get("slack", ("0", "0"))
    style = cfg.get("style", "exact")
    fix = cfg.get("fix")
    domain = RectangleDomain(length(nx, scale, sx, style), length(ny, scale, sy, style), fix=fix)
    fixed = [] if fix is None else [fix] if isinstance(fix, str) else fix
    return domain, num(scale), Shape(nx, ny, num(scale), fixed)


def describe(cfg):
    return " ".join(f"{k}={v}" for k, v in cfg.items())


SMALL = [(nx, ny) for nx in range(1, 5) for ny in range(1, 5)]
LONG = [(1, 12), (12, 1), (7, 6), (6, 7), (30, 2), (2, 30), (3, 19), (17, 17)]
if THOROUGH:
    SMALL = [(nx, ny) for nx in range(1, 9) for ny in range(1, 9)]
    LONG = LONG + [(1, 100), (100, 1), (40, 40), (23, 29), (49, 3), (3, 49), (64, 5)]
