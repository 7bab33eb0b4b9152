"""C07: curves cover the rectangle evenly."""

from vt.core import THOROUGH, require

LEVEL = "exploration"
RULE = "a case is a rectangle with numbers of points and curves; distinct cases differ in one of them; every point of every curve is compared"
ASSUMPTIONS = ["numbers of points and curves up to the listed ones", "positions up to 1e-12 of the sides"]


def body(cfg, ch):
    from tvemoves_rufbad.domain import RectangleDomain

    W, H = cfg["size"]
    d = RectangleDomain(W, H, fix=cfg.get("fix"))
    if cfg.get("many"):
        points, curves = cfg["points"], cfg["curves"]
    else:
        points, curves = range(2, cfg["points"] + 1), range(cfg["curves"] + 1)
    for p in points:
        for h in curves:
            for v in [None, "missing"] + list(curves):
                args = (p, h) if v == "missing" else (p, h, v)
                check(d.curves(*args), W, H, p, h, v, f"curves{args} of {W} x {H}")
                if v not in (None, "missing"):
                    kw = d.curves(num_points_per_curve=p, num_horizontal_curves=h, num_vertical_curves=v)
                    check(kw, W, H, p, h, v, f"curves{args} of {W} x {H} by keyword")
                ch.case((W, H, p, h, v))
        check(d.curves(p), W, H, p, 0, None, f"curves({p}) of {W} x {H}")
    require((d.width, d.height) == (W, H), "the rectangle was changed")


def check(curves, W, H, p, h, v, what):
    if v in (None, "missing"):
        v = h
    nh, nv = h + 2, v + 2
    require(len(curves) == nh + nv, f"{what}: {len(curves)} curves instead of {nh} + {nv}")
    tx, ty = 1e-12 * W, 1e-12 * H
    for j, curve in enumerate(curves):
        require(len(curve) == p, f"{what}: curve {j} has {len(curve)} points instead of {p}")
        for i, q in enumerate(curve):
            if j < nh:
                x, y = i * W / (p - 1), j * H / (nh - 1)
            else:
                x, y = (j - nh) * W / (nv - 1), i * H / (p - 1)
            require(
                len(q) == 2 and abs(q[0] - x) <= tx and abs(q[1] - y) <= ty,
                f"{what}: point {i} of curve {j} is {q} instead of ({x}, {y})",
            )


def parts():
    sizes = [(1.0, 1.0), (3, 2), (0.1, 0.7), (1e-6, 2e-6), (1e6, 3.0), (2.5, 1 / 3)]
    if THOROUGH:
        sizes += [(a, b) for a in (0.3, 7, 11.1, 1e3) for b in (0.2, 5, 1e-3)]
    n = 9 if not THOROUGH else 25
    m = 6 if not THOROUGH else 9
    many = [dict(size=s, points=[2, 10, 20, 29, 50, 64, 101, 200], curves=[0, 7, 10, 19, 48], many=True) for s in sizes]
    many += [dict(size=s, points=[257, 513, 1025, 2049, 4097], curves=[1], many=True) for s in sizes[:3]]
    return [("curves", body, [dict(size=s, points=n, curves=m) for s in sizes]), ("many", body, many)]
