"""C29: simulation parameters are accepted exactly if they are meaningful."""

from vt.core import THOROUGH, Violation, raises, require

LEVEL = "exploration"
RULE = "a case is one combination of values of all six fields; every combination is non-trivial (either rejected or checked field by field)"
ASSUMPTIONS = ["values from finite alphabets around the limits; no NaN"]

TEMPERATURES = [-1, -1e-9, 0, 0.0, 0.5, 3]
RADII = [-0.1, 0, 1e-9, 0.2]
RATES = [-1, 0, 0.5, 10]
SCALES = [-1, 0, 0.1, 2]
REGULARIZATIONS = [None, -1, -1e-12, 0, 0.0, 0.5]
FACTORS = [None, -1, 0, 1, 3]
MORE = dict(t=[-1e-300, 1e-300, 1e6], r=[-1e-300, 1e-300, 50], f=[-1e-12, 1e-12, 1000], s=[-1e-12, 1e-12, 1e6], g=[1e-300, -1e-300, 7], n=[2, -3, 100])


def meaningful(t, r, f, s, g, n):
    return t >= 0 and r > 0 and f > 0 and s > 0 and (g is None or g >= 0) and (n is None or n > 0) and not (g is not None and n is None)


FAR = [-(10.0 ** k) for k in (-300, -20, 0, 20, 300)] + [10.0 ** k for k in range(-300, 301, 20)] + [k * 10.0**e for e in range(-9, 10) for k in (1, 2.5, 7)]


def far(cfg, ch):
    """One field far away, the others in the middle: whole numbers to 300, powers of ten."""
    name = cfg["field"]
    names = ["initial_temperature", "search_radius", "fps", "scale", "regularization", "refinement_factor"]
    k = names.index(name)
    for base in ([0.4, 0.2, 3, 0.5, None, None], [0.0, 2, 0.5, 1, 0.0, 1], [1.5, 1e-3, 60, 7, 0.3, 4]):
        for v in (FAR if name != "refinement_factor" else []) + list(range(-20, 301)):
            one(ch, tuple(base[:k] + [v] + base[k + 1:]))


def arrays(cfg, ch):
    """Values that come from arrays are as good as others."""
    import numpy as np

    for t in (np.float64(0.4), np.float32(0.5), np.int64(1), np.float64(-0.1)):
        for r in (np.float64(0.2), np.int64(2), np.float64(0.0)):
            for f in (np.float64(0.5), np.int64(3), np.int32(-1)):
                for s in (np.float64(0.25), np.int64(1), np.float64(-1.0)):
                    for g in (None, np.float64(0.0), np.float64(0.3), np.int64(2), np.float64(-0.3)):
                        for n in (None, np.int64(1), np.int32(3), np.int64(0)):
                            one(ch, (t, r, f, s, g, n))


def same(a, b):
    return a is b or (a is not None and b is not None and a == b)


def body(cfg, ch):
    more = MORE if THOROUGH else {k: [] for k in MORE}
    t = cfg["t"]
    g = cfg["g"]
    for r in RADII + more["r"]:
        for f in RATES + more["f"]:
            for s in SCALES + more["s"]:
                for n in FACTORS + more["n"]:
                    one(ch, (t, r, f, s, g, n))


def one(ch, given):
    from tvemoves_rufbad.simulation import SimulationParams

    t, r, f, s, g, n = given
    what = f"SimulationParams(initial_temperature={t}, search_radius={r}, fps={f}, scale={s}, regularization={g}, refinement_factor={n})"
    ch.case(given)
    if not meaningful(*given):
        raises(ValueError, lambda: SimulationParams(*given), what)
        ch.count("rejected")
        return
    ch.count("accepted")
    ways = [lambda: SimulationParams(*given), lambda: SimulationParams(
        initial_temperature=t, search_radius=r, fps=f, scale=s, regularization=g, refinement_factor=n)]
    if n is None:
        ways.append(lambda: SimulationParams(t, r, f, s, g))
        if g is None:
            ways.append(lambda: SimulationParams(t, r, f, s))
    for way in ways:
        try:
            p = way()
        except Exception as e:
            raise Violation(f"{what}: rejected with {type(e).__name__}: {e}")
        for again in range(2):  # passing on changes nothing
            kept = dict(initial_temperature=t, search_radius=r, fps=f, scale=s, regularization=g, refinement_factor=n if g is not None else None)
            check(p, kept, what)
            check(p.mechanical_step_params(), {k: kept[k] for k in ("initial_temperature", "search_radius", "fps", "regularization")}, f"{what}: mechanical step")
            check(p.thermal_step_params(), {k: kept[k] for k in ("search_radius", "fps", "regularization")}, f"{what}: thermal step")


def check(p, values, what):
    for name, v in values.items():
        require(hasattr(p, name), f"{what}: there is no {name}")
        require(same(getattr(p, name), v), f"{what}: {name} is {getattr(p, name)!r} instead of {v!r}")


def used(cfg, ch):
    """The parameters of a simulation: the recorded scale, refinement and initial temperature, and the bounds and start of the problems."""
    import numpy as np

    from vt import env, sims, steps

    base = dict(cfg)
    n = base.get("factor")
    e = env.Environment(sims.responsive(steps.setting_of(base)[4]))
    sim = sims.build(base, e)
    what = f"simulation with {cfg}"
    _, grid, refined, space, scale, _ = steps.setting_of(base)
    y, theta = sims.data(sim.steps[0], base)
    require(len(sim.steps) == 2, f"{what}: {len(sim.steps)} steps")
    require(theta.shape == (len((refined or grid).vertices),), f"{what}: {theta.shape} temperatures")
    require(np.allclose(theta, base["theta0"], rtol=1e-12, atol=1e-12), f"{what}: initial temperature")
    p = e.problems[0]
    if len(p.free):
        width = np.minimum(p.upper, 1e9) - np.maximum(p.lower, -1e9)
        require(np.isfinite(width).all() and np.allclose(width, 2 * base["radius"], rtol=1e-9), f"{what}: search boxes of the widths {sorted(set(width.round(12)))[:4]}")
    ch.case(("used", repr(cfg)))
    ch.count("simulations")


def parts():
    ts = TEMPERATURES + (MORE["t"] if THOROUGH else [])
    gs = REGULARIZATIONS + (MORE["g"] if THOROUGH else [])
    sim = [dict(nx=2, ny=1, scale=s, fix=fix, theta0=t, radius=r, fps=f, **k)
           for s, fix, t, r, f in (("1", ["left"], 0.4, 0.2, 3), ("1/2", [], 0.0, 0.05, 0.5), ("1/4", ["upper"], 2, 1.5, 10), ("2", ["left", "lower"], 1, 1, 1))
           for k in ({}, dict(reg=0.0, factor=1), dict(reg=0.5, factor=2))]
    return [("fields", body, [dict(t=t, g=g) for t in ts for g in gs]), ("far", far, [dict(field=x) for x in ("initial_temperature", "search_radius", "fps", "scale", "regularization", "refinement_factor")]), ("used", used, sim), ("numbers from arrays", arrays, [{}])]
