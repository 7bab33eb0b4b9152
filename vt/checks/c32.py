"""C32: drawing a grid or domain shows all of it."""

import numpy as np

from vt import dom, grids, shapes
from vt.core import THOROUGH, Violation, require
from vt.ref import mesh

LEVEL = "exploration"
RULE = (
    "a case is a sequence of drawings of grids, refined grids and domains on one axis (new or given, with some limits); after every"
    " drawing the new artists and the limits of the axis are compared with the object drawn; non-trivial: something is drawn"
)
ASSUMPTIONS = ["the axis is inspected through matplotlib's artists; collections of points are markers, lines and line collections are segments",
               "coordinates are compared with relative tolerance 1e-9"]

AXES = [None, "fresh", (0.0, 1.0, 0.0, 1.0), (-3.0, 7.0, -2.0, 9.0), (0.3, 0.4, 0.1, 0.2), (5.0, 6.0, 5.0, 6.0), (-6.0, -5.0, -6.0, -5.0), (-3.0, 0.1, 0.2, 50.0)]


def objects(cfg):
    """The things to draw: (name, object, bounding box, points, edges); points and edges None for domains."""
    if "shapes" in cfg:
        return [(f"{name} {turn}", shapes.grid(name, mesh.num(cfg["scale"]), turn)) for name in cfg["shapes"] for turn in (0, 2)]
    domain, scale, shape = dom.make(cfg)
    grid = domain.grid(scale)
    out = [("domain", domain), ("grid", grid)]
    for f in cfg.get("factors", (1, 2)):
        out.append((f"refined {f}", domain.refine(grid, f)))
    for kind in cfg.get("kinds", ()):
        out.append((kind, grids.general(grid, kind, scale)))
    return out


class Seen:
    """What is on an axis: markers, segments and rectangles."""

    def __init__(self, ax):
        from matplotlib import collections, lines, patches

        self.markers, self.segments, self.boxes = [], [], []
        for c in ax.collections:
            if isinstance(c, collections.PathCollection):
                self.markers += [tuple(p) for p in np.ma.filled(c.get_offsets(), np.nan).tolist()]
            elif isinstance(c, collections.LineCollection):
                for s in c.get_segments():
                    self.line(np.asarray(s, float))
        for l in ax.lines:
            xy = np.column_stack([np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)])
            if l.get_linestyle() not in ("None", "none", "", " "):
                self.line(xy)
            if l.get_marker() not in ("None", "none", "", " ", None):
                self.markers += [tuple(p) for p in xy.tolist()]
        for p in ax.patches:
            v = p.get_path().transformed(p.get_patch_transform()).vertices
            self.boxes.append((*v.min(axis=0).tolist(), *v.max(axis=0).tolist()))

    def line(self, xy):
        for a, b in zip(xy[:-1].tolist(), xy[1:].tolist()):
            if np.isfinite(a).all() and np.isfinite(b).all():
                self.segments.append((tuple(a), tuple(b)))


def keyed(points, size):
    return [tuple(int(round(x / (1e-7 * size))) for x in p) for p in points]


def new_items(before, after):
    """Items of after that are not in before, with multiplicity."""
    from collections import Counter

    c = Counter(after)
    c.subtract(Counter(before))
    require(all(v >= 0 for v in c.values()), "something drawn before is gone")
    return sorted(x for x, v in c.items() for _ in range(v))


def check(name, obj, ax, before, after, limits, what):
    try:
        if hasattr(obj, "points"):
            pts = [(float(p[0]), float(p[1])) for p in obj.points]
            segments = [(pts[i], pts[j]) for i, j in obj.edges]
            box = (min(p[0] for p in pts), min(p[1] for p in pts), max(p[0] for p in pts), max(p[1] for p in pts))
        else:
            pts, segments, box = [], [], (0.0, 0.0, obj.width, obj.height)
        size = min([max(abs(a[0] - b[0]), abs(a[1] - b[1])) for a, b in segments] or [1.0])
        key = lambda s: tuple(sorted(keyed(s, size)))
        if hasattr(obj, "points"):
            got = new_items(keyed(before.markers, size), keyed(after.markers, size))
            require(got == sorted(keyed(pts, size)), f"{len(got)} markers for {len(pts)} vertices, or at other places")
            got = new_items(map(key, before.segments), map(key, after.segments))
            require(got == sorted(map(key, segments)), f"{len(got)} segments for {len(segments)} edges, or between other points")
        else:
            big = max(box[2], box[3])
            got = new_items(keyed(before.boxes, big), keyed(after.boxes, big))
            require(len(got) == 1 and got == keyed([box], big), f"the rectangles drawn are {sorted(set(after.boxes) - set(before.boxes))}")
        new = (*ax.get_xlim(), *ax.get_ylim())
        tol = 1e-9 * (1 + max(map(abs, new)))
        require(new[0] <= new[1] and new[2] <= new[3], f"limits {new}")
        if hasattr(obj, "points") or limits is None:
            require(new[0] <= box[0] + tol and new[1] >= box[2] - tol and new[2] <= box[1] + tol and new[3] >= box[3] - tol, f"the window {new} does not contain {box}")
        if limits is not None:
            require(new[0] <= limits[0] + tol and new[1] >= limits[1] - tol and new[2] <= limits[2] + tol and new[3] >= limits[3] - tol, f"the window {limits} shrinks to {new}")
    except Violation as e:
        raise Violation(f"{what}: {e}")


def body(cfg, ch):
    from matplotlib import pyplot as plt

    base = {k: v for k, v in cfg.items() if k not in ("depth",)}
    menu = objects(base)
    snap = lambda o: mesh.snapshot(o) if hasattr(o, "points") else (o.width, o.height, repr(o.fix))
    snaps = [snap(o) for _, o in menu]
    limits = ch.pick("axis", AXES)
    plt.close("all")
    ax = other = None
    done = []
    try:
        if limits is not None:
            fig, (other, ax) = plt.subplots(1, 2)
            if limits != "fresh":
                ax.set_xlim(limits[0], limits[1])
                ax.set_ylim(limits[2], limits[3])
            if ch.pick("current axis", [0, 1]):
                plt.sca(other)
        for k in range(cfg["depth"]):
            name, obj = ch.pick("object", menu)
            done.append(name)
            what = f"{dom.describe(base)}: {done} on axis {limits}"
            old = None if ax is None else (*ax.get_xlim(), *ax.get_ylim())
            before = Seen(ax) if ax is not None else Seen(plt.figure().add_subplot())
            if ax is None:
                plt.close("all")
                r = obj.plot()
                figures = plt.get_fignums()
                require(len(figures) == 1, f"{what}: {len(figures)} figures")
                axes = plt.figure(figures[0]).axes
                require(len(axes) == 1, f"{what}: {len(axes)} axes")
                require(r is None or r is axes[0], f"{what}: another axis is returned")
                ax = axes[0]
            else:
                figures = plt.get_fignums()
                r = obj.plot(ax) if k % 2 else obj.plot(ax=ax)
                require(r is None or r is ax, f"{what}: another axis is returned")
                require(plt.get_fignums() == figures, f"{what}: a figure was made")
                if other is not None:
                    require(not other.collections and not other.lines and not other.patches and other.get_xlim() == (0.0, 1.0), f"{what}: drawn on another axis")
            check(name, obj, ax, before, Seen(ax), old, what)
            require([snap(o) for _, o in menu] == snaps, f"{what}: drawing changed the objects")
            ch.evals()
        ch.case((dom.describe(base), repr(limits), tuple(done)))
        ch.outcome((len(ax.lines), len(ax.collections), len(ax.patches)))
    finally:
        plt.close("all")


def parts():
    out = [
        dict(nx=1, ny=1, scale="1", fix=["left"], depth=2, kinds=("sheared",)),
        dict(nx=2, ny=1, scale="1/2", fix=["upper", "left"], depth=2),
        dict(nx=1, ny=3, scale="1/10", fix=[], depth=2, factors=(3,)),
        dict(nx=2, ny=2, scale="1/1000", fix=["left"], depth=1, factors=(2, 4), kinds=("perturbed", "stretched")),
        dict(nx=3, ny=2, scale="100", fix=["left"], depth=1, factors=(1, 3), kinds=("sheared", "mixed", "clockwise")),
        dict(nx=2, ny=3, scale="1", fix=["left"], depth=1, slack=("1/2", "1/4")),
        dict(nx=3, ny=3, scale="1/3", fix=["right"], depth=1, factors=(2, 3), kinds=("sheared", "stretched")),
        dict(nx=5, ny=1, scale="1/5", fix=None, depth=1, factors=(5,)),
    ]
    out += [dict(nx=12, ny=9, scale="1/4", fix=["left"], depth=1, factors=(1,)), dict(nx=1, ny=40, scale="3", fix=[], depth=1, factors=(1,)), dict(nx=26, ny=16, scale="1/4", fix=["left"], depth=1, factors=()), dict(nx=1, ny=1, scale="1", fix=[], depth=1, factors=(10,))]
    out += [dict(shapes=shapes.NAMES[k : k + 3], scale=("1", "1/50", "7")[k // 3 % 3], depth=1) for k in range(0, len(shapes.NAMES), 3)]
    if THOROUGH:
        out = [dict(c, depth=c["depth"] + 1) for c in out]
        out += [dict(nx=nx, ny=ny, scale=s, fix=None, depth=1, factors=(1, 2, 3)) for nx in range(1, 5) for ny in range(1, 5) for s in ("1", "1/7", "1000")]
    return [("drawings", body, out)]
