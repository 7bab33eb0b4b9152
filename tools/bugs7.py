"""Planted bugs, seventh batch (python3 tools/seed.py tools/bugs7.py)."""

import pathlib

_first = {}
exec((pathlib.Path("/verif/tools/bugs1.py")).read_text(), _first)
SIM = _first["SIM"]

REJECTED = '''
fail = None
try:
    S = Simulation(RectangleDomain(1, 1, fix="left"), SimulationParams(0.1, 0.5, 1, 1), %s)
    S.run(%d)
except ValueError as e:
    fail = e
assert fail is not None
'''

BUGS = [
    dict(
        id="b25-room", property="C25",
        edits=[("simulation.py", "        external_temperature: Callable[[float], float] = lambda t: 0.0,", "        external_temperature: Callable[[float], float] = lambda t: 0.293,")],
        demo=SIM + '''
ext = []
def hook(m, n):
    if n % 2 == 0:
        ext.append(pyo.value(m.external_temperature))
S = Simulation(RectangleDomain(1, 1), SimulationParams(0.1, 0.5, 1, 1))
S.run(2)
assert ext == [0.0] * 3, ext
''',
        needs="a simulation without an external temperature", breaks="the surroundings are not at temperature zero"),
    dict(
        id="b25-gravity", property="C25",
        edits=[("simulation.py", "        boundary_traction: Callable[[float, float, float], list[float]] = lambda t, x, y: [\n            0.0,\n            0.0,\n        ],\n    ):\n        self._domain = domain\n", "        boundary_traction: Callable[[float, float, float], list[float]] = None,\n    ):\n        if boundary_traction is None:\n            load = domain.width * domain.height\n            boundary_traction = lambda t, x, y: [0.0, min(0.0, 1e-6 - load)]\n        self._domain = domain\n")],
        demo=SIM + '''
vals = [[], []]
def hook(m, n):
    if n % 2:
        for v in m.y2.values():
            v.set_value(v.value * 1.1)
        vals[k].append(objective(m))
for k, kw in enumerate(({}, dict(boundary_traction=lambda t, x, y: [0.0, 0.0]))):
    calls[0] = 0
    Simulation(RectangleDomain(1, 1, fix="left"), SimulationParams(0.1, 0.5, 1, 1), **kw).run(1)
assert max(abs(a - b) for a, b in zip(*vals)) < 1e-12, vals
''',
        needs="a simulation without a boundary traction", breaks="the body is loaded by its weight"),
    dict(
        id="b26-number", property="C26",
        edits=[("simulation.py", "    def run(self, num_steps: int = 1) -> None:", "    def run(self, num_steps: int | None = None) -> None:"),
               ("simulation.py", "        if num_steps <= 0:", "        if num_steps is None:\n            num_steps = max(1, int(self._fps) // 2)\n\n        if num_steps <= 0:")],
        demo=SIM + '''
S = Simulation(RectangleDomain(1, 1), SimulationParams(0.1, 0.5, 6, 1))
S.run()
assert len(S.steps) == 3, len(S.steps)
''',
        needs="a run without a number of steps at a frame rate of four or more", breaks="it runs for half a second instead of one step"),
    dict(
        id="b38-reals", property="C38",
        edits=[("thermal_step.py", "        within=pyo.NonNegativeReals, initialize=external_temperature, mutable=True\n", "        within=pyo.Reals, initialize=external_temperature, mutable=True\n")],
        demo=SIM + REJECTED % ("external_temperature=lambda t: 0.5 - t", 3),
        needs="an external temperature that falls below zero at a later step", breaks="it is accepted"),
    dict(
        id="b38-clamped", property="C38",
        edits=[("thermal_step.py", "        self._model.external_temperature = self._external_temperature(current_time)", "        self._model.external_temperature = max(0.0, self._external_temperature(current_time))")],
        demo=SIM + REJECTED % ("external_temperature=lambda t: 0.5 - t", 3),
        needs="an external temperature that falls below zero after the first step", breaks="it is silently taken for zero"),
    dict(
        id="b38-any", property="C38",
        edits=[("mechanical_step.py", "        within=pyo.Reals,\n        initialize=lambda _, i: boundary_traction(*grid.points[i])[1],", "        within=pyo.Any,\n        initialize=lambda _, i: boundary_traction(*grid.points[i])[1],")],
        demo=SIM + REJECTED % ("boundary_traction=lambda t, x, y: [0.0, float('nan') if t > 0 else 0.0]", 3),
        needs="a traction whose second component becomes undefined", breaks="the problem with it is solved"),
    dict(
        id="b38-held", property="C38",
        edits=[("mechanical_step.py", "            m.g1[i], m.g2[i] = self._boundary_traction(current_time, *self._grid.points[i])", "            g1, g2 = self._boundary_traction(current_time, *self._grid.points[i])\n            if g1 == g1 and g2 == g2:\n                m.g1[i], m.g2[i] = g1, g2")],
        demo=SIM + REJECTED % ("boundary_traction=lambda t, x, y: [float('nan') if t > 0 and x == y == 1 else 0.0, 0.0]", 3),
        needs="a traction that becomes undefined at a corner of the body", breaks="the value of the step before is used there"),
]
