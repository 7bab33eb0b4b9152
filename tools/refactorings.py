"""Behaviour-preserving edits: python3 tools/refactorings.py OUT [ID ...] writes OUT/<id>/{patch.diff,checks}.

Then: python3 tools/try_all.py -r OUT [ID ...]. The checks have to stay quiet on all of them.
"""

import pathlib
import shutil
import subprocess
import sys
import tempfile

GEOMETRY = "C01 C02 C03 C04 C05 C06 C07 C32"
NUMERICS = "C08 C09 C10 C11 C12 C13 C14"
POTENTIALS = "C15 C16 C17 C18 C19 C21 C33"
STEPS = "C18 C19 C20 C21 C22 C23 C24 C25 C31 C33"
SIM = "C24 C25 C26 C27 C28 C29 C30 C31 C33 C34"

R = [
    dict(id="sides", checks=GEOMETRY + " C20 C25", file="domain.py", edits=[
        ("""                match fix:
                    case "lower":
                        for i in lower_boundary_vertices:
                            boundary_vertices_tags[i] -= 1
                        dirichlet_edges.update(lower_boundary_edges)
                        neumann_edges.difference_update(lower_boundary_edges)
                    case "right":
                        for i in right_boundary_vertices:
                            boundary_vertices_tags[i] -= 1
                        dirichlet_edges.update(right_boundary_edges)
                        neumann_edges.difference_update(right_boundary_edges)
                    case "upper":
                        for i in upper_boundary_vertices:
                            boundary_vertices_tags[i] -= 1
                        dirichlet_edges.update(upper_boundary_edges)
                        neumann_edges.difference_update(upper_boundary_edges)
                    case "left":
                        for i in left_boundary_vertices:
                            boundary_vertices_tags[i] -= 1
                        dirichlet_edges.update(left_boundary_edges)
                        neumann_edges.difference_update(left_boundary_edges)
""", """                side_edges = sides.get(fix, [])
                dirichlet_edges.update(side_edges)
                neumann_edges.difference_update(side_edges)
"""),
        ("        if self.fix is not None:\n", """        sides = {
            "lower": lower_boundary_edges,
            "right": right_boundary_edges,
            "upper": upper_boundary_edges,
            "left": left_boundary_edges,
        }
        if self.fix is not None:
"""),
        ("        boundary_vertices_tags = {i: 1 for i in boundary_vertices}\n", ""),
        ("""        dirichlet_vertices = []
        neumann_vertices = []
""", ""),
        ("""        neumann_edge_vertices = {i for edge in neumann_edges for i in edge}
        for i, tag in boundary_vertices_tags.items():
            if i in neumann_edge_vertices:
                neumann_vertices.append(i)
            if tag <= 0:
                dirichlet_vertices.append(i)
        dirichlet_boundary = Boundary(dirichlet_vertices, list(dirichlet_edges))
        neumann_boundary = Boundary(neumann_vertices, list(neumann_edges))
""", """        neumann_vertices = sorted({i for edge in neumann_edges for i in edge}, reverse=True)
        dirichlet_vertices = sorted({i for edge in dirichlet_edges for i in edge}, reverse=True)
        dirichlet_boundary = Boundary(dirichlet_vertices, sorted(dirichlet_edges))
        neumann_boundary = Boundary(neumann_vertices, sorted(neumann_edges, reverse=True))
"""),
    ]),
    dict(id="cells", checks=GEOMETRY + " C26 C30", file="domain.py", edits=[
        ("""        lower_triangles = [
            (
                pair_to_vertex(i, j),
                pair_to_vertex(i + 1, j),
                pair_to_vertex(i + 1, j + 1),
            )
            for i in range(num_horizontal_vertices - 1)
            for j in range(num_vertical_vertices - 1)
        ]
        upper_triangles = [
            (
                pair_to_vertex(i + 1, j + 1),
                pair_to_vertex(i, j + 1),
                pair_to_vertex(i, j),
            )
            for i in range(num_horizontal_vertices - 1)
            for j in range(num_vertical_vertices - 1)
        ]
        triangles = lower_triangles + upper_triangles
""", """        triangles = []
        for j in range(num_vertical_vertices - 1):
            for i in range(num_horizontal_vertices - 1):
                corner, opposite = pair_to_vertex(i, j), pair_to_vertex(i + 1, j + 1)
                triangles.append((corner, pair_to_vertex(i + 1, j), opposite))
                triangles.append((opposite, pair_to_vertex(i, j + 1), corner))
"""),
        ("        edges = horizontal_edges + vertical_edges + diagonal_edges\n", "        edges = diagonal_edges + vertical_edges + horizontal_edges\n"),
        ("""            Vector([
                v % num_horizontal_vertices * scale,
                v // num_horizontal_vertices * scale,
            ])
            for v in vertices
""", """            Vector([i * scale, j * scale])
            for j in range(num_vertical_vertices)
            for i in range(num_horizontal_vertices)
"""),
    ]),
    dict(id="location", checks="C03 C05 C14 C24 C26 C30 C34", file="domain.py", edits=[
        ("""    d1 = _sign((p, p1, p2))
    d2 = _sign((p, p2, p3))
    d3 = _sign((p, p3, p1))

    has_neg = (d1 < -eps) or (d2 < -eps) or (d3 < -eps)
    has_pos = (d1 > eps) or (d2 > eps) or (d3 > eps)

    return not (has_neg and has_pos)
""", """    areas = [_sign(side) for side in ((p, p1, p2), (p, p2, p3), (p, p3, p1))]
    return all(area >= -eps for area in areas) or all(area <= eps for area in areas)
"""),
        ("""        for triangle in self.triangles:
            i1, i2, i3 = triangle
            triangle_vertices = (self.points[i1], self.points[i2], self.points[i3])
            if _triangle_contains_point(triangle_vertices, p):
                return BarycentricPoint(triangle, _to_barycentric_coordinates(triangle_vertices, p))
        return None
""", """        for triangle in reversed(self.triangles):
            corners = self.triangle_vertices(triangle)
            if not _triangle_contains_point(corners, p):
                continue
            return BarycentricPoint(triangle, _to_barycentric_coordinates(corners, p))
        return None
"""),
    ]),
    dict(id="equality", checks="C06", file="domain.py", edits=[
        ("""        if any(
            not self._contains_edge((other_to_self_vertex[i1], other_to_self_vertex[i2]))
            for (i1, i2) in other.edges
        ):
            return False
""", """        own_edges = {frozenset(edge) for edge in self.edges}
        if own_edges != {frozenset(other_to_self_vertex[i] for i in edge) for edge in other.edges}:
            return False
"""),
        ("""        if sorted(self.vertices) != sorted(other.vertices):
            return False

        if len(self.points) != len(other.points):
            return False
""", """        if set(self.vertices) != set(other.vertices) or len(self.points) != len(other.points):
            return False
"""),
    ]),
    dict(id="curves", checks="C07 C30", file="domain.py", edits=[
        ("""                    i * self.width / (num_points_per_curve - 1),
                    j * self.height / (num_all_horizontal_curves - 1),
""", """                    self.width * (i / (num_points_per_curve - 1)),
                    self.height * (j / (num_all_horizontal_curves - 1)),
"""),
    ]),
    dict(id="drawing", checks="C30 C32 C34", file="domain.py", edits=[
        ("""        ax.scatter(x, y, color="black", s=PLOT_VERTEX_SIZE)
""", """        ax.plot(x, y, "o", color="black", markersize=PLOT_VERTEX_SIZE**0.5)
"""),
        ("""        for edge in self.edges:
            i, j = edge
            p, q = self.points[i], self.points[j]
            ax.plot([p[0], q[0]], [p[1], q[1]], color="black", linewidth=PLOT_LINEWIDTH)
""", """        segments = [[tuple(self.points[i]) for i in edge] for edge in self.edges]
        ax.add_collection(LineCollection(segments, colors="black", linewidths=PLOT_LINEWIDTH))
"""),
        ("from matplotlib import patches\n", "from matplotlib import patches\nfrom matplotlib.collections import LineCollection\n"),
    ]),
    dict(id="refinement", checks="C04 C05 C14 C20 C30", file="domain.py", edits=[
        ("""    # Add lower triangles
    # Refined triangles are unique for each refinement step!
    for l in range(refinement_factor):
        for k in range(refinement_factor - l):
            next_triangle = (
                triangle_vertices[(k, l)],
                triangle_vertices[(k + 1, l)],
                triangle_vertices[(k, l + 1)],
            )
            p1 = intermediate_grid.points[triangle_vertices[(k, l)]]
            p2 = intermediate_grid.points[triangle_vertices[(k + 1, l)]]
            intermediate_grid.triangles.append(next_triangle)
            coarse_triangle[next_triangle] = triangle
            coarse_barycentric_coordinates[next_triangle] = (
                BarycentricCoordinates(
                    1 - k / refinement_factor - l / refinement_factor, k / refinement_factor
                ),
                BarycentricCoordinates(
                    1 - (k + 1) / refinement_factor - l / refinement_factor,
                    (k + 1) / refinement_factor,
                ),
                BarycentricCoordinates(
                    1 - k / refinement_factor - (l + 1) / refinement_factor, k / refinement_factor
                ),
            )
""", """    def weights(k, l):
        return BarycentricCoordinates(
            (refinement_factor - k - l) / refinement_factor, k / refinement_factor
        )

    # Add lower triangles
    # Refined triangles are unique for each refinement step!
    for k in range(refinement_factor):
        for l in range(refinement_factor - k):
            corners = [(k, l), (k + 1, l), (k, l + 1)]
            next_triangle = tuple(triangle_vertices[c] for c in corners)
            intermediate_grid.triangles.append(next_triangle)
            coarse_triangle[next_triangle] = triangle
            coarse_barycentric_coordinates[next_triangle] = tuple(weights(*c) for c in corners)
"""),
    ]),
    dict(id="tensors", checks=NUMERICS + " C15 C17 C18 C19 C33", file="tensors.py", edits=[
        ("""        res = 0
        for p in permutations(range(self.shape[0])):
            prod = 1
            for i in range(self.shape[0]):
                prod *= self.data[i][p[i]]
            res += sign(p) * prod

        return res
""", """        if self.shape[0] == 2:
            return self.data[0][0] * self.data[1][1] - self.data[0][1] * self.data[1][0]

        res = 0
        for p in permutations(range(self.shape[0])):
            prod = sign(p)
            for row, j in zip(self.data, p):
                prod = prod * row[j]
            res = res + prod

        return res
"""),
        ("""        return sum(x**2 for row in self.data for x in row)

    def norm(self):
        \"\"\"Compute the the Frob""", """        return sum(x * x for row in self.data for x in row)

    def norm(self):
        \"\"\"Compute the the Frob"""),
    ]),
    dict(id="potentials", checks=POTENTIALS, file="helpers.py", edits=[
        ("""    return austenite_percentage(theta) * austenite_potential(strain) + (
        1 - austenite_percentage(theta)
    ) * martensite_potential(strain)
""", """    martensite = martensite_potential(strain)
    return martensite + austenite_percentage(theta) * (austenite_potential(strain) - martensite)
"""),
        ("""    strain_delta = strain - prev_strain
    return strain_delta.transpose() @ prev_strain + prev_strain.transpose() @ strain_delta
""", """    product = prev_strain.transpose() @ (strain - prev_strain)
    return product + product.transpose()
"""),
        ("""    return strain.det() * strain_inverse @ HEAT_CONDUCTIVITY @ strain_inverse.transpose()
""", """    conductivity = strain_inverse @ HEAT_CONDUCTIVITY @ strain_inverse.transpose()
    return strain.det() * conductivity
"""),
        ("    return dissipation_potential(prev_strain, strain) * 2 * fps**2\n", "    return symmetrized_strain_delta(prev_strain, strain).normsqr() * fps**2\n"),
        ("_austenite_potential_symbolic = _I1 - 2 - 2 * sp.log(_J) + (_J - 1) ** 2\n", "_austenite_potential_symbolic = sp.expand(_I1 - 2 + (1 - _J) ** 2) - 2 * sp.log(_J)\n"),
    ]),
    dict(id="mechanical", checks="C18 C20 C22 C23 C24 C25 C26 C27 C31 C33", file="mechanical_step.py", edits=[
        ("""    m.y1 = pyo.Var(m.vertices, within=pyo.Reals)
    m.y2 = pyo.Var(m.vertices, within=pyo.Reals)
    for v in m.vertices:
""", """    m.y2 = pyo.Var(m.vertices, within=pyo.Reals)
    m.y1 = pyo.Var(m.vertices, within=pyo.Reals)
    for v in reversed(grid.vertices):
"""),
        ("        expr=m.total_elastic_energy - m.boundary_traction_energy + fps * m.dissipation\n", "        expr=fps * m.dissipation + (m.total_elastic_energy - m.boundary_traction_energy),\n        sense=pyo.minimize,\n"),
        ("""            m.y1[i] = new_prev_y1[i]
            m.y1[i].bounds = (
                new_prev_y1[i] - self._search_radius,
                new_prev_y1[i] + self._search_radius,
            )
            m.y2[i] = new_prev_y2[i]
            m.y2[i].bounds = (
                new_prev_y2[i] - self._search_radius,
                new_prev_y2[i] + self._search_radius,
            )

    def update_prev_theta""", """            for var, value in ((m.y1[i], new_prev_y1[i]), (m.y2[i], new_prev_y2[i])):
                var.set_value(value)
                var.setlb(value - self._search_radius)
                var.setub(value + self._search_radius)

    def update_prev_theta"""),
        ("        self._num_vertices = len(grid.vertices)\n        self._search_radius = search_radius\n        self._model = _model(\n", "        self._search_radius, self._num_vertices = search_radius, len(grid.points)\n        self._model = _model(\n"),
        ("            m.g1[i], m.g2[i] = self._boundary_traction(current_time, *self._grid.points[i])\n", "            x, y = self._grid.points[i]\n            traction = self._boundary_traction(current_time, x, y)\n            m.g1[i].set_value(traction[0])\n            m.g2[i].set_value(traction[1])\n"),
    ]),
    dict(id="renamed", checks="C19 C20 C22 C23 C24 C31 C33", file="mechanical_step.py", sub=[("y1_constraints", "fixed_first"), ("y2_constraints", "fixed_second")], edits=[
        ("        case 2:\n            return y[i, 2] * d[0] + y[i, 3] * d[1] == d[y_component]\n", "        case 2:\n            length = d.norm()\n            return (y[i, 2] * d[0] + y[i, 3] * d[1]) / length == d[y_component] / length\n"),
        ("    integrator = Integrator(DUNAVANT5, refined_grid.triangles, refined_grid.points)\n\n    m.total", "    m.dirichlet_edge_count = len(grid.dirichlet_boundary.edges)\n    integrator = Integrator(DUNAVANT5, list(reversed(refined_grid.triangles)), refined_grid.points)\n\n    m.total"),
    ]),
    dict(id="thermal", checks="C21 C22 C23 C24 C25 C26 C27 C31 C33", file="thermal_step.py", edits=[
        ("""    l2_dissipation = ENTROPY_CONSTANT / 2 * (temp - prev_temp) ** 2
    internal_energy_dissipation = (
        temp_antrider_internal_energy_no_entropy(strain, temp)
        - internal_energy_no_entropy(prev_strain, prev_temp) * temp
    )

    return l2_dissipation + internal_energy_dissipation
""", """    change = temp - prev_temp
    prev_energy = internal_energy_no_entropy(prev_strain, prev_temp)
    return (
        temp_antrider_internal_energy_no_entropy(strain, temp)
        - prev_energy * temp
        + ENTROPY_CONSTANT * change**2 / 2
    )
"""),
        ("    m.objective = pyo.Objective(expr=m.energy + m.boundary_heat_transfer + fps * m.dissipation)\n", "    m.objective = pyo.Objective(expr=fps * m.dissipation + m.boundary_heat_transfer + m.energy)\n"),
        ("    m.theta = pyo.Var(m.vertices, within=pyo.NonNegativeReals)\n    for v in m.vertices:\n", "    m.theta = pyo.Var(list(reversed(grid.vertices)), domain=pyo.NonNegativeReals)\n    for v in m.theta:\n"),
    ]),
    dict(id="simulation", checks=SIM, file="simulation.py", edits=[
        ("""        if num_steps == 1:
            self._run_single_step()
            return

        for _ in tqdm(range(num_steps)):
            self._run_single_step()""", """        steps = range(num_steps)
        for _ in steps if num_steps == 1 else tqdm(steps):
            self._run_single_step()"""),
        ("""    def _run_single_step(self):
        self._update_mechanical_step()
        self._mechanical_step.solve()
        self._update_thermal_step()
        self._thermal_step.solve()
        self._append_step(self._thermal_step.y(), self._thermal_step.theta())
""", """    def _solve_mechanical_step(self):
        self._update_mechanical_step()
        self._mechanical_step.solve()

    def _solve_thermal_step(self):
        self._update_thermal_step()
        self._thermal_step.solve()

    def _run_single_step(self):
        self._solve_mechanical_step()
        self._solve_thermal_step()
        y_data, theta_data = self._thermal_step.y(), self._thermal_step.theta()
        self._append_step(y_data, theta_data)
"""),
        ("""        self._mechanical_step.update_prev_y(y_data)
        self._mechanical_step.update_prev_theta(theta_data)
        self._mechanical_step.update_boundary_traction(self._current_time)
""", """        step = self._mechanical_step
        step.update_boundary_traction(self._current_time)
        step.update_prev_theta(theta_data)
        step.update_prev_y(y_data)
"""),
        ("""        self._thermal_step.update_prev_y(self._mechanical_step.prev_y())
        self._thermal_step.update_prev_theta(self._mechanical_step.prev_theta())
        self._thermal_step.update_y(self._mechanical_step.y())
        self._thermal_step.update_external_temperature(self._current_time)
""", """        self._thermal_step.update_external_temperature(self._current_time)
        self._thermal_step.update_y(self._mechanical_step.y())
        self._thermal_step.update_prev_y(self._mechanical_step.prev_y())
        self._thermal_step.update_prev_theta(self._mechanical_step.prev_theta())
"""),
        ("        self._max_temp = max(self._max_temp, np.max(theta_data))\n", "        self._max_temp = float(max(self._max_temp, *theta_data))\n"),
        ("""        if i < -len(self.steps) or i >= len(self.steps):
            return None
""", """        if not -len(self.steps) <= i < len(self.steps):
            return None
"""),
        ("        anim = animation.FuncAnimation(fig, animate_frame, frames=len(self.steps))\n", "        frames = list(range(len(self.steps)))\n        anim = animation.FuncAnimation(\n            fig, animate_frame, frames=frames, save_count=len(frames), repeat=False\n        )\n"),
        ("            step_index = i if i >= 0 else len(self.steps) + i\n            fig.savefig(\n                f\"{path}_{step_index}.png\",\n", "            filename = \"{}_{}.png\".format(path, i % len(self.steps))\n            fig.savefig(\n                filename,\n"),
    ]),
    dict(id="params", checks="C24 C28 C29", file="simulation.py", edits=[
        ("""        if self.search_radius <= 0:
            raise ValueError(
                f"search radius must be positive but {self.search_radius} was provided"
            )

        if self.fps <= 0:
            raise ValueError(f"fps must be positive but {self.fps} was provided")

        if self.regularization is not None and self.regularization < 0:
            raise ValueError(
                f"regularization must be non-negative but {self.regularization} was provided"
            )

        if self.scale <= 0:
            raise ValueError(f"scale must be positive but {self.scale} was provided")
""", """        for name in ("search_radius", "fps", "scale"):
            value = getattr(self, name)
            if value <= 0:
                raise ValueError(f"{name} must be positive but {value} was provided")

        if self.regularization is not None and self.regularization < 0:
            raise ValueError(
                f"regularization must be non-negative but {self.regularization} was provided"
            )
"""),
    ]),
    dict(id="records", checks="C24 C26 C27 C28 C30 C31 C34", file="simulation.py", edits=[
        ("""        self._xlims = (min(self._xlims[0], np.min(x_coords)), max(self._xlims[1], np.max(x_coords)))
        self._ylims = (min(self._ylims[0], np.min(y_coords)), max(self._ylims[1], np.max(y_coords)))
""", """        self._xlims = self._extended(self._xlims, x_coords)
        self._ylims = self._extended(self._ylims, y_coords)
"""),
        ("""    def _append_step(self, y_data""", """    @staticmethod
    def _extended(limits, values):
        lower, upper = limits
        return (min(lower, *values), max(upper, *values))

    def _append_step(self, y_data"""),
        ("""            y,
            c,
            triangles=self._grid.triangles,
            vmin=0.0,
            vmax=max_temp,
            cmap="plasma",
""", """            y,
            facecolors=[sum(c[i] for i in triangle) / 3 for triangle in self._grid.triangles],
            triangles=self._grid.triangles,
            vmin=0.0,
            vmax=max_temp,
            cmap="plasma",
"""),
    ]),
    dict(id="integration", checks="C09 C18 C19 C21 C33", file="integrators.py", edits=[
        ("            abs(first.stack(second).det() / 2) for", "            abs(first[0] * second[1] - first[1] * second[0]) / 2 for"),
    ]),
    # smaller edits near places that matter
    dict(id="record-first", checks="C24 C26 C27 C28 C30 C31 C34", file="simulation.py", edits=[
        ("""        # Update variables required for plotting
        self._max_temp = max(self._max_temp, np.max(theta_data))
        # In the reg""", """        # In the reg"""),
        ("""        self._xlims = (min(self._xlims[0], np.min(x_coords)), max(self._xlims[1], np.max(x_coords)))
        self._ylims = (min(self._ylims[0], np.min(y_coords)), max(self._ylims[1], np.max(y_coords)))

""", ""),
        ("""        self.steps.append(step)

    @property""", """        self.steps.append(step)

        # Update variables required for plotting
        self._ylims = (min(self._ylims[0], y_coords.min()), max(self._ylims[1], y_coords.max()))
        self._xlims = (min(self._xlims[0], x_coords.min()), max(self._xlims[1], x_coords.max()))
        self._max_temp = max(self._max_temp, theta_data.max())

    @property"""),
    ]),
    dict(id="reordered", checks=SIM + " C36", file="simulation.py", edits=[
        ("""        y_data, theta_data = self.steps[-1].data()
        self._mechanical_step.update_prev_y(y_data)
        self._mechanical_step.update_prev_theta(theta_data)
        self._mechanical_step.update_boundary_traction(self._current_time)
""", """        step, last = self._mechanical_step, self.steps[-1]
        step.update_boundary_traction(self._current_time)
        new_y, new_theta = last.data()
        step.update_prev_theta(new_theta)
        step.update_prev_y(new_y)
"""),
        ("""        self._thermal_step.update_prev_y(self._mechanical_step.prev_y())
        self._thermal_step.update_prev_theta(self._mechanical_step.prev_theta())
        self._thermal_step.update_y(self._mechanical_step.y())
        self._thermal_step.update_external_temperature(self._current_time)
""", """        mechanical, thermal = self._mechanical_step, self._thermal_step
        thermal.update_external_temperature(self._current_time)
        thermal.update_y(mechanical.y())
        thermal.update_prev_theta(mechanical.prev_theta())
        thermal.update_prev_y(mechanical.prev_y())
"""),
        ("""        if num_steps <= 0:
            raise ValueError("Invalid number of steps.")

        if num_steps == 1:
            self._run_single_step()
            return

        for _ in tqdm(range(num_steps)):
            self._run_single_step()
""", """        if num_steps < 1:
            raise ValueError(f"Invalid number of steps: {num_steps}.")

        steps = tqdm(range(num_steps)) if num_steps > 1 else range(num_steps)
        for _ in steps:
            self._run_single_step()
"""),
        ("        return (len(self.steps) - 1) / self._fps\n", "        completed = len(self.steps) - 1\n        return completed / self._fps\n"),
    ]),
    dict(id="histories", checks=SIM + " C36", file="simulation.py", edits=[
        ("""        self._thermal_step.solve()
        self._append_step(self._thermal_step.y(), self._thermal_step.theta())

    def max_temp(self):
        return self._max_temp
""", """        self._solve_thermal_step()

    def _solve_thermal_step(self):
        thermal = self._thermal_step
        thermal.solve()
        y_data, theta_data = thermal.y(), thermal.theta()
        self._append_step(y_data, theta_data)

    def max_temp(self):
        return self._max_temp

    def _index(self, i: int) -> int | None:
        num_steps = len(self.steps)
        if not -num_steps <= i < num_steps:
            return None
        return i % num_steps
"""),
        ("""        self._thermal_step.solve()
        self._append_step(self._thermal_step.y(), self._thermal_step.theta())

    def run(""", """        self._solve_thermal_step()

    def run("""),
        ("""        if i < -len(self.steps) or i >= len(self.steps):
            return None
        fig, ax = fig_axis(self._xlims, self._ylims)
        self.steps[i].plot(
            ax,
            self.max_temp(),
        )
        return fig
""", """        index = self._index(i)
        if index is None:
            return None
        fig, ax = fig_axis(self._xlims, self._ylims)
        self.steps[index].plot(ax, self._max_temp)
        return fig
"""),
        ("""            step_index = i if i >= 0 else len(self.steps) + i
            fig.savefig(
                f"{path}_{step_index}.png",
""", """            fig.savefig(
                path + "_" + str(self._index(i)) + ".png",
"""),
        ("        anim = animation.FuncAnimation(fig, animate_frame, frames=len(self.steps))\n        anim.save(filename + \".mp4\", fps=30, dpi=300, extra_args=[\"-vcodec\", \"libx264\"])\n", "        frames = range(len(self.steps))\n        anim = animation.FuncAnimation(fig, animate_frame, frames)\n        writer = animation.FFMpegWriter(fps=30, extra_args=[\"-vcodec\", \"libx264\"])\n        anim.save(f\"{filename}.mp4\", writer=writer, dpi=300)\n"),
    ]),
    dict(id="step-data", checks="C23 C24 C26 C30 C37", file="simulation.py", edits=[
        ("""        y1_params = y_data[:, 0].tolist()
        y1_interpolation = P1Interpolation(grid, y1_params)
        y2_params = y_data[:, 1].tolist()
        y2_interpolation = P1Interpolation(grid, y2_params)
        y = EuclideanDeformation(y1_interpolation, y2_interpolation)
""", """        y1_interpolation, y2_interpolation = (
            P1Interpolation(grid, component.tolist()) for component in y_data.transpose()
        )
        y = EuclideanDeformation(y1_interpolation, y2_interpolation)
"""),
        ("        self._y_data = y_data\n        self._theta_data = theta_deta\n", "        self._y_data = y_data.copy()\n        self._theta_data = theta_deta.copy()\n"),
        ("        return self._y_data, self._theta_data\n", "        return self._y_data.copy(), self._theta_data.copy()\n"),
        ("        c = [self.theta(*p) for p in self._grid.points]\n", "        c = np.array([self.theta(px, py) for px, py in self._grid.points])\n"),
    ]),
    dict(id="updates", checks="C18 C22 C23 C24 C25 C26 C27 C31 C36", file="mechanical_step.py", edits=[
        ("""        new_prev_y1 = new_prev_y[:, 0]
        new_prev_y2 = new_prev_y[:, 1]
        m = self._model
        for i in m.vertices:
            m.prev_y1[i] = new_prev_y1[i]
            m.prev_y2[i] = new_prev_y2[i]

            m.y1[i] = new_prev_y1[i]
            m.y1[i].bounds = (
                new_prev_y1[i] - self._search_radius,
                new_prev_y1[i] + self._search_radius,
            )
            m.y2[i] = new_prev_y2[i]
            m.y2[i].bounds = (
                new_prev_y2[i] - self._search_radius,
                new_prev_y2[i] + self._search_radius,
            )
""", """        m = self._model
        for i in m.vertices:
            self._reset(m.prev_y1, m.y1, i, new_prev_y[i, 0])
        for i in m.vertices:
            self._reset(m.prev_y2, m.y2, i, new_prev_y[i, 1])

    def _reset(self, prev, current, i, value):
        prev[i] = value
        current[i].bounds = (value - self._search_radius, value + self._search_radius)
        current[i].value = value
"""),
        ("        return np.array([[m.prev_y1[i].value, m.prev_y2[i].value] for i in m.vertices])\n", "        result = np.empty((self._num_vertices, 2))\n        for row, i in enumerate(m.vertices):\n            result[row] = m.prev_y1[i].value, m.prev_y2[i].value\n        return result\n"),
        ("        return np.array([[m.y1[i].value, m.y2[i].value] for i in m.vertices])\n", "        components = [[pyo.value(var[i]) for i in m.vertices] for var in (m.y1, m.y2)]\n        return np.array(components).T\n"),
        ("""        for i in m.neumann_vertices:
            m.g1[i], m.g2[i] = self._boundary_traction(current_time, *self._grid.points[i])
""", """        traction = {i: self._boundary_traction(current_time, *self._grid.points[i]) for i in m.neumann_vertices}
        for i, g in traction.items():
            m.g1[i] = g[0]
            m.g2[i] = g[1]
"""),
    ]),
    dict(id="updates-regularized", checks="C19 C20 C22 C23 C24 C31 C36", file="mechanical_step.py", edits=[
        ("""        new_prev_y1 = new_prev_y[:, 0, :]
        new_prev_y2 = new_prev_y[:, 1, :]
        for i in vertices:
            for j in c1_indices:
                m.prev_y1[i, j] = new_prev_y1[i - 1, j - 1]
                m.prev_y2[i, j] = new_prev_y2[i - 1, j - 1]

                m.y1[i, j] = new_prev_y1[i - 1, j - 1]
                m.y1[i, j].bounds = (
                    new_prev_y1[i - 1, j - 1] - self._search_radius,
                    new_prev_y1[i - 1, j - 1] + self._search_radius,
                )
                m.y2[i, j] = new_prev_y2[i - 1, j - 1]
                m.y2[i, j].bounds = (
                    new_prev_y2[i - 1, j - 1] - self._search_radius,
                    new_prev_y2[i - 1, j - 1] + self._search_radius,
                )
""", """        radius = self._search_radius
        for component, (prev, current) in enumerate(((m.prev_y1, m.y1), (m.prev_y2, m.y2))):
            for (i, j), variable in current.items():
                value = float(new_prev_y[i - 1, component, j - 1])
                variable.bounds = (value - radius, value + radius)
                variable.value = value
                prev[i, j] = value
"""),
        ("""            return y[i, 2] * d[0] + y[i, 3] * d[1] == d[y_component]
        case 3:""", """            return d[0] * y[i, 2] + d[1] * y[i, 3] - d[y_component] == 0
        case 3:"""),
        ("""            return y[j, 4] * d[0] ** 2 + 2 * y[j, 5] * d[0] * d[1] + y[j, 6] * d[1] ** 2 == 0
""", """            along = d[0] * (y[j, 4] * d[0] + y[j, 5] * d[1]) + d[1] * (y[j, 5] * d[0] + y[j, 6] * d[1])
            return along == 0
"""),
        ("    for v in grid.dirichlet_boundary.vertices:\n        m.y1[v + 1, 1].fix()\n        m.y2[v + 1, 1].fix()\n", "    for v in sorted(grid.dirichlet_boundary.vertices, reverse=True):\n        for var in (m.y2, m.y1):\n            var[v + 1, 1].fixed = True\n"),
    ]),
    dict(id="elimination", checks="C18 C20 C22 C23 C24 C31 C33 C36", file="mechanical_step.py", edits=[
        ("""    for v in m.dirichlet_vertices:
        m.y1[v].fix()
        m.y2[v].fix()
""", """    for v in m.dirichlet_vertices:
        x, y = grid.points[v]
        m.y1[v].fix(x)
        m.y2[v].fix(y)
"""),
        ("""    m.total_elastic_energy = integrator(
        compose_to_integrand(total_elastic_potential, m.deform.strain, m.prev_temp)
    )
    m.dissipation = integrator_for_piecewise_constant(
        compose_to_integrand(dissipation_potential, m.prev_deform.strain, m.deform.strain)
    )
    m.boundary_traction_energy = neumann""", """    m.total_elastic_energy = pyo.Expression(
        expr=integrator(compose_to_integrand(total_elastic_potential, m.deform.strain, m.prev_temp))
    )
    m.dissipation = pyo.Expression(
        expr=integrator_for_piecewise_constant(
            compose_to_integrand(dissipation_potential, m.prev_deform.strain, m.deform.strain)
        )
    )
    m.boundary_traction_energy = neumann"""),
        ("        expr=m.total_elastic_energy - m.boundary_traction_energy + fps * m.dissipation\n", "        expr=sum([m.total_elastic_energy, -m.boundary_traction_energy, fps * m.dissipation])\n"),
    ]),
    dict(id="thermal-model", checks="C21 C22 C23 C24 C25 C26 C27 C31 C33 C36", file="thermal_step.py", edits=[
        ("""    m.theta = pyo.Var(m.vertices, within=pyo.NonNegativeReals)
    for v in m.vertices:
        m.theta[v] = m.prev_theta[v]
        m.theta[v].bounds = (
            m.prev_theta[v] - search_radius,
            m.prev_theta[v] + search_radius,
        )
""", """    m.theta = pyo.Var(
        m.vertices,
        within=pyo.NonNegativeReals,
        initialize=lambda _, v: prev_theta[v],
        bounds=lambda _, v: (prev_theta[v] - search_radius, prev_theta[v] + search_radius),
    )
"""),
        ("""        for i in m.vertices:
            m.prev_theta[i] = new_prev_theta[i]
            m.theta[i] = new_prev_theta[i]
            m.theta[i].bounds = (
                new_prev_theta[i] - self._search_radius,
                new_prev_theta[i] + self._search_radius,
            )
""", """        radius = self._search_radius
        for i, value in enumerate(new_prev_theta.tolist()):
            m.theta[i].bounds = (value - radius, value + radius)
            m.theta[i] = value
            m.prev_theta[i] = value
"""),
        ("""    m.boundary_heat_transfer = 0.0
    if boundary_integrator is not None:
        m.boundary_heat_transfer = boundary_integrator(
            compose_to_integrand(
                _boundary_potential(HEAT_TRANSFER_COEFFICIENT, m.external_temperature), temp.on_edge
            )
        )

    m.objective = pyo.Objective(expr=m.energy + m.boundary_heat_transfer + fps * m.dissipation)
""", """    objective = fps * m.dissipation + m.energy
    if boundary_integrator is not None:
        potential = _boundary_potential(HEAT_TRANSFER_COEFFICIENT, m.external_temperature)
        m.boundary_heat_transfer = boundary_integrator(compose_to_integrand(potential, temp.on_edge))
        objective += m.boundary_heat_transfer

    m.objective = pyo.Objective(expr=objective)
"""),
        ("        self._model.external_temperature = self._external_temperature(current_time)\n", "        external_temperature = self._external_temperature(current_time)\n        self._model.external_temperature.set_value(external_temperature)\n"),
        ("    return np.maximum(theta, 0.0)\n", "    theta[theta < 0] = 0.0\n    return theta\n"),
    ]),
    dict(id="energies", checks=POTENTIALS + " C36", file="thermal_step.py", edits=[
        ("""        diffusion = temp_gradient.dot(heat_conductivity_reference(prev_strain).dot(temp_gradient))

        strain_rate = (strain - prev_strain) * fps
        heat_source_sink = (
            -(
                dissipation_rate(prev_strain, strain, fps)
                + strain_derivative_coupling_potential(prev_strain, prev_temp).scalar_product(
                    strain_rate
                )
            )
            * temp
        )

        return diffusion + heat_source_sink
""", """        flux = heat_conductivity_reference(prev_strain).dot(temp_gradient)
        coupling = strain_derivative_coupling_potential(prev_strain, prev_temp)
        source = dissipation_rate(prev_strain, strain, fps) + fps * coupling.scalar_product(
            strain - prev_strain
        )
        return flux.dot(temp_gradient) - temp * source
"""),
        ("    l2_dissipation = ENTROPY_CONSTANT / 2 * (temp - prev_temp) ** 2\n", "    change = temp - prev_temp\n    l2_dissipation = 0.5 * ENTROPY_CONSTANT * change * change\n"),
    ]),
    dict(id="location-numbers", checks="C03 C05 C14 C24 C30 C35 C37", file="domain.py", edits=[
        ("""    p1, p2, p3 = triangle_vertices

    v1 = p2 - p1
    v2 = p3 - p1
    v3 = p - p1

    d11 = v1.dot(v1)
    d12 = v1.dot(v2)
    d22 = v2.dot(v2)
    d31 = v3.dot(v1)
    d32 = v3.dot(v2)

    denom = d11 * d22 - d12 * d12
    v = (d22 * d31 - d12 * d32) / denom
    w = (d11 * d32 - d12 * d31) / denom
    u = 1 - v - w

    return BarycentricCoordinates(u, v)
""", """    p1, p2, p3 = triangle_vertices
    area = _sign(triangle_vertices)
    v = _sign((p1, p, p3)) / area
    w = _sign((p1, p2, p)) / area

    return BarycentricCoordinates(1 - v - w, v)
"""),
        ("""        for triangle in self.triangles:
            i1, i2, i3 = triangle
            triangle_vertices = (self.points[i1], self.points[i2], self.points[i3])
            if _triangle_contains_point(triangle_vertices, p):
                return BarycentricPoint(triangle, _to_barycentric_coordinates(triangle_vertices, p))
        return None
""", """        corners = ((t, tuple(self.points[i] for i in t)) for t in reversed(self.triangles))
        containing = next((c for c in corners if _triangle_contains_point(c[1], p)), None)
        if containing is None:
            return None
        triangle, triangle_vertices = containing
        return BarycentricPoint(triangle, _to_barycentric_coordinates(triangle_vertices, p))
"""),
    ]),
    dict(id="vertices", checks="C01 C04 C05 C06 C20 C35 C36", file="domain.py", edits=[
        ("""        return next(
            (
                i
                for i, grid_point in enumerate(self.points)
                if self._points_coincide(point, grid_point)
            ),
            None,
        )
""", """        for i, grid_point in enumerate(self.points):
            if self._points_coincide(point, grid_point):
                return i
        return None
"""),
        ("""        if edge not in self.edges and (edge[1], edge[0]) not in self.edges:
            # Update mean""", """        if not self._contains_edge(edge):
            # Update mean"""),
        ("""                self._mean_edge_length = self._mean_edge_length * num_edges_old / (
                    num_edges_old + 1
                ) + new_edge_length / (num_edges_old + 1)
""", """                total = self._mean_edge_length * num_edges_old + new_edge_length
                self._mean_edge_length = total / (num_edges_old + 1)
"""),
        ("""        return (p1 - p2).norm() < eps
""", """        return (p2 - p1).normsqr() < eps * eps
"""),
    ]),
    dict(id="views", checks="C11 C12 C13 C14 C18 C19 C21 C30 C36 C37", file="interpolation.py", edits=[
        ("""        barycentric_gradient = Vector([self._params[i1], self._params[i2], self._params[i3]])
        return transform_gradient(self.grid.triangle_vertices(triangle), barycentric_gradient)
""", """        p1, p2, p3 = self.grid.triangle_vertices(triangle)
        u, v = p2 - p1, p3 - p1
        det = u[0] * v[1] - u[1] * v[0]
        du, dv = self._params[i2] - self._params[i1], self._params[i3] - self._params[i1]
        return Vector([(du * v[1] - dv * u[1]) / det, (dv * u[0] - du * v[0]) / det])
"""),
        ("""        params_vec1 = Vector(self._params[i1])
        params_vec2 = Vector(self._params[i2])
        params_vec3 = Vector(self._params[i3])
        return params_vec1.extend(params_vec2).extend(params_vec3)
""", """        return Vector([*self._params[i1], *self._params[i2], *self._params[i3]])
"""),
        ("""        return (
            self._y[0]
            .gradient(triangle, barycentric_coordinates)
            .stack(self._y[1].gradient(triangle, barycentric_coordinates))
        )
""", """        first, second = (y.gradient(triangle, barycentric_coordinates) for y in self._y)
        return first.stack(second)
"""),
        ("""        return Vector([
            self._y[0](x, y),
            self._y[1](x, y),
        ])
""", """        return Vector([component(x, y) for component in self._y])
"""),
    ]),
    dict(id="rules", checks="C08 C09 C18 C19 C21", file="quadrature_rules.py", edits=[
        ("""        for p in points:
            x, y = p
            if x < 0 or y < 0 or x + y > 1:
                raise ValueError(
                    "quadrature points not all contained in an equalteral unit triangle"
                )
""", """        if any(x < 0 or y < 0 or x + y > 1 for x, y in points):
            raise ValueError("quadrature points not all contained in an equalteral unit triangle")
"""),
        ("""        points = (1 + points) / 2
        weights /= 2
        self.points = list(points)
        self.weights = list(weights)
""", """        self.points = [0.5 + 0.5 * x for x in points.tolist()]
        self.weights = [0.5 * w for w in weights.tolist()]
"""),
    ]),
    dict(id="sums", checks="C09 C18 C19 C21 C24 C33 C36", file="integrators.py", edits=[
        ("""        return sum(
            triangle_area
            * sum(
                weight * integrand(triangle, point)
                for point, weight in zip(self._quadrature.points, self._quadrature.weights)
            )
            for (triangle_area, triangle) in zip(self._triangle_areas, self._triangles)
        )
""", """        total = 0
        for triangle_area, triangle in zip(self._triangle_areas, self._triangles):
            for weight, point in self._quadrature:
                total = total + triangle_area * weight * integrand(triangle, point)
        return total
"""),
        ("        self._edges = edges\n", "        self._edges = tuple(edges)\n"),
        ("pyo.sqrt((points[i] - points[j]).normsqr()) for (i, j) in edges]", "(points[j] - points[i]).norm() for (i, j) in edges]"),
    ]),
    dict(id="drawing-order", checks="C30 C32 C34", file="domain.py", edits=[
        ("        self._plot_vertices(ax)\n        self._plot_edges(ax)\n", "        self._plot_edges(ax)\n        self._plot_vertices(ax)\n"),
        ("            ax.plot([p[0], q[0]], [p[1], q[1]], color=\"black\", linewidth=PLOT_LINEWIDTH)\n", "            ax.plot(*zip(p, q), linewidth=PLOT_LINEWIDTH, color=\"black\")\n"),
        ("        ax.scatter(x, y, color=\"black\", s=PLOT_VERTEX_SIZE)\n", "        ax.plot(x, y, \"o\", color=\"black\", markersize=PLOT_VERTEX_SIZE**0.5)\n"),
        ("        rectangle = patches.Rectangle(\n            (0, 0),\n            self.width,\n            self.height,\n", "        rectangle = patches.Polygon(\n            [(0, 0), (self.width, 0), (self.width, self.height), (0, self.height)],\n            closed=True,\n"),
    ]),
]


def main():
    out = pathlib.Path(sys.argv[1])
    for r in R:
        if (sys.argv[2:] and r["id"] not in sys.argv[2:]) or not r["edits"]:
            continue
        tmp = pathlib.Path(tempfile.mkdtemp(prefix="ref-"))
        subprocess.run(["git", "clone", "-q", "/repo", str(tmp / "repo")], check=True)
        p = tmp / "repo/src/tvemoves_rufbad" / r["file"]
        s = p.read_text()
        for old, new in r["edits"]:
            assert s.count(old) == 1, (r["id"], s.count(old), old)
            s = s.replace(old, new)
        for old, new in r.get("sub", ()):
            s = s.replace(old, new)
        p.write_text(s)
        d = out / r["id"]
        d.mkdir(parents=True, exist_ok=True)
        (d / "patch.diff").write_text(subprocess.run(["git", "-C", str(tmp / "repo"), "diff"], stdout=subprocess.PIPE, text=True).stdout)
        (d / "checks").write_text(r["checks"] + "\n")
        shutil.rmtree(tmp)


main()
