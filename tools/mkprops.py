"""Writes /verif/properties.jsonl (one place where the texts of the properties are kept)."""
import json, pathlib

D = "src/tvemoves_rufbad/domain.py"
T = "src/tvemoves_rufbad/tensors.py"
H = "src/tvemoves_rufbad/helpers.py"
I = "src/tvemoves_rufbad/integrators.py"
Q = "src/tvemoves_rufbad/quadrature_rules.py"
N = "src/tvemoves_rufbad/interpolation.py"
B = "src/tvemoves_rufbad/bell_finite_element.py"
M = "src/tvemoves_rufbad/mechanical_step.py"
TH = "src/tvemoves_rufbad/thermal_step.py"
S = "src/tvemoves_rufbad/simulation.py"

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": list(files),
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })


prop("C01", "The grid of a rectangle is a conforming triangulation of it",
     "For every rectangle and every scale not larger than its sides, the grid has one vertex at each multiple of the scale that fits into the rectangle (a side that is a whole number of scales long is covered completely), numbered consecutively from zero. Every square cell is split by its rising diagonal into exactly two counter-clockwise triangles, nothing else is a triangle, and the edges are exactly the sides of the triangles, each listed once. Looking up the corner points of a listed triangle or edge, or the vertex at a point, answers according to that triangulation and rejects triangles, edges and points that do not belong to it.",
     ["inputs", "configurations"], "all rectangle sizes and scales (evenly dividing or not)",
     "test_rectangle_domain_grid builds one 3x2 rectangle with one scale that does not divide the sides and mostly compares counts computed with the same formula.",
     [D], [("RectangleDomain.grid", f"{D}: class RectangleDomain"), ("Grid.triangle_vertices / edge_vertices / point_to_vertex", f"{D}: class Grid")],
     [("grid.points / edges / triangles", "the triangulation", f"{D}: class Grid")], ["Domain.grid(scale)"])

prop("C02", "The boundary is split exactly into a fixed and a free part",
     "The boundary edges of a grid are exactly the edges that belong to one triangle only. The fixed (Dirichlet) edges are exactly the boundary edges on the sides named by the user, the free (Neumann) edges are exactly all other boundary edges, and the vertices listed for the boundary or for either part are exactly the end points of its edges, each once. The result does not depend on whether a side is given as a string or in a list, on the order of the list, or on repetitions in it.",
     ["inputs", "configurations"], "all grids and all choices, orders and repetitions of fixed sides",
     "The tests fix one side at a time on one grid and only check that fixed vertices lie on that side; no test combines sides or looks at the free part of a partly fixed grid in a passing test.",
     [D], [("RectangleDomain.grid, tags of boundary vertices", f"{D}: class RectangleDomain")],
     [("boundary / dirichlet_boundary / neumann_boundary", "vertex and edge lists of the parts", f"{D}: class Boundary")], ["Domain.grid(scale)"])

prop("C03", "Every point is located in a triangle that contains it, others in none",
     "Every point of the region covered by a grid or refined grid (interior points, points on edges and on the outline, vertices) is located in a listed triangle that contains it, with three weights between 0 and 1 that add up to 1 and reproduce the point. Every point outside the region (beyond rounding) is located in no triangle, and evaluating an interpolation there in Euclidean coordinates is rejected with a ValueError. This holds at every length scale of the rectangle.",
     ["inputs", "configurations"], "all points of the plane, all grids, all length scales",
     "test_to_barycentric_point looks up eight outline points of the unit square on one grid; no outside point, no interior point, no other length scale.",
     [D, N], [("Grid.to_barycentric_point", f"{D}: class Grid"), ("_triangle_contains_point, _to_barycentric_coordinates", D), ("EuclideanInterpolation", f"{N}: class EuclideanInterpolation")],
     (), ["Grid.to_barycentric_point", "EuclideanInterpolation.__call__"])

prop("C04", "Refining a grid by n gives the uniform grid with n times finer scale",
     "Refining a grid by a factor n >= 1 gives the same triangulation (points, edges, counter-clockwise triangles, boundary, fixed and free part with their vertices) as a grid of the same region whose scale is n times finer, keeps the numbers and positions of the coarse vertices, and remembers the coarse grid. The coarse grid itself is not changed, a refined grid can be refined again with the same guarantee, and factors below 1 are rejected with a ValueError. This holds for every rectangle size, scale and choice of fixed sides.",
     ["inputs", "configurations", "histories"], "all rectangles, scales, fixed sides, factors and chains of refinements",
     "The only test refines one square twice by 3 with one fixed side and fails at the pinned commit.",
     [D], [("RectangleDomain.refine, _refine_equilateral_triangle, _refine_boundary_edge, Grid.append_edge", D)],
     [("intermediate_grid", "grid under construction shared by the refinement of all triangles", f"{D}: RectangleDomain.refine")], ["Domain.refine(grid, factor)", "RefinedGrid.coarse()"])

prop("C05", "Fine positions translate to the same physical point of the coarse grid",
     "A position in a triangle of a refined grid, given in any cyclic order of the corners of the triangle, translates to a triangle of the coarse grid and weights between 0 and 1 that describe the same point of the plane; a triangle that is not in the refined grid is rejected with a ValueError. The coarse grid is the one that was refined, also if that was itself a refinement, and the refined grid hands it out unchanged. A position on a fine edge that lies on a coarse edge (horizontal, vertical or diagonal, inner or outer) translates to that coarse edge and a parameter between 0 and 1 describing the same point. Any other fine edge, and any pair of vertices that is not an edge of the refined grid, is rejected with a ValueError.",
     ["inputs", "configurations"], "all refined grids (also refinements of refinements), fine triangles, cyclic orders, edges and positions",
     "The test for this draws one random position per triangle and per outer edge, never rotates a triangle, never uses a diagonal edge, and fails at the pinned commit before reaching them.",
     [D], [("RefinedGrid.to_coarse_barycentric_point, RefinedGrid.to_coarse_edge_point", f"{D}: class RefinedGrid"), ("_refine_equilateral_triangle", D)],
     [("coarse triangle and edge tables", "fine triangle/edge -> coarse triangle/edge and coordinates", f"{D}: class RefinedGrid")], ["RefinedGrid.to_coarse_barycentric_point", "RefinedGrid.to_coarse_edge_point"])

prop("C06", "Grid equality means same triangulation, whatever the numbering",
     "Two grids compare equal exactly if some renumbering of the vertices maps the points (up to rounding), edges, oriented triangles and the three boundary parts of one onto those of the other; the order of the lists, the direction of edges and the cyclic order of triangle corners do not matter. In particular equality is symmetric, a renumbered or reordered grid is equal to the original, and a grid with a moved point, a missing or replaced edge, a missing or reversed triangle or a different boundary part is not. Anything that is not a grid is not equal to a grid.",
     ["inputs"], "all renumberings, reorderings and single changes of small grids",
     "Equality is only used once, inside a test that fails at the pinned commit; no renumbered grid is ever compared.",
     [D], [("Grid.__eq__, _boundaries_coincide", D)], (), ["Grid.__eq__"])

prop("C07", "Curves cover the rectangle evenly",
     "Asking a rectangle for curves with p >= 2 points, h inner horizontal and v inner vertical curves gives h+2 horizontal curves followed by v+2 vertical ones (v defaults to h), evenly spaced and including the outline. Each has exactly p evenly spaced points and runs from one side of the rectangle to the opposite one.",
     ["inputs"], "all rectangle sizes and curve counts",
     "One rectangle with one combination of counts is tested, and only the spacing within a curve and its ends are compared.",
     [D], [("RectangleDomain.curves", f"{D}: class RectangleDomain")], (), ["Domain.curves"])

prop("C08", "Quadrature rules are exact to their stated degree",
     "The triangle rule of degree d = 1..5 integrates every polynomial of degree at most d over every triangle exactly (up to rounding), as does the vertex rule for degree 1; the n-point segment rule integrates every polynomial of degree at most 2n-1 over the unit segment exactly. Every rule has positions inside its domain and weights adding up to 1, and iterating over it gives all (weight, position) pairs. Triangle rules with a position outside the triangle or with weights not adding up to 1 are rejected with a ValueError.",
     ["inputs"], "all polynomials up to the degree (decided on the monomial basis, by linearity)",
     "The tests integrate one random polynomial per rule, and segment rules only up to degree n instead of 2n-1 and n <= 5; the vertex rule and the rejections are not tested.",
     [Q], [("TriangleQuadratureRule, DUNAVANT_QUADRATURE_RULES, VERTEX, GaussQuadratureRule", Q)], (), ["quadrature rules"])

prop("C09", "Integrals over grids and boundaries are exact, additive and repeatable",
     "Integrating a piecewise polynomial integrand over a list of triangles (or edges) with a rule of sufficient degree gives the exact integral for every grid, whatever the order or orientation of the triangles or edges; each listed triangle or edge is visited with each quadrature position exactly once and counts with its area or length. The integral over a list is the sum of the integrals over its parts, and the same integrator can be used any number of times with the same result. Composing integrands evaluates each of them at the same position.",
     ["inputs", "configurations", "histories"], "all grids, sub-lists, orders, orientations and sequences of uses",
     "The integrators have no tests at all.",
     [I, H], [("Integrator, BoundaryIntegrator", I), ("compose_to_integrand", H)],
     [("triangle areas / edge lengths", "weights computed once at construction", I)], ["Integrator.__call__", "BoundaryIntegrator.__call__"])

prop("C10", "Vector, matrix, tensor and barycentric arithmetic is correct",
     "Every operation of the tensor types (sums, differences, scaling from either side, division, products, determinant, trace, transposition, norms, scalar products, stacking, reshaping, flattening, mapping, slicing, indexing, iteration, equality, conversion to numpy, the 2x2 inverse) agrees with its mathematical definition for all shapes and entries and leaves its operands unchanged. Operands of incompatible shapes and ragged data are rejected with a ValueError, indices outside the shape (negative ones included) with an IndexError. Barycentric coordinates consist of the two given weights and a third that makes the sum 1, and bounding them only moves weights that violate the bounds.",
     ["inputs"], "all shapes and entries (linear and multilinear operations decided on bases), all index values around the bounds",
     "The tests use one random shape per type and no invalid operand or index.",
     [T], [("Vector, Matrix, Tensor3D, BarycentricCoordinates, inverse_2x2", T)], (), ["tensor operations"])

prop("C11", "Piecewise affine interpolation reproduces affine functions",
     "The piecewise affine interpolation takes the given value at every vertex, is affine in every triangle and agrees on common edges, for all parameters; for parameters taken from an affine function it and its gradient reproduce the function everywhere. Its restriction to an edge, and the interpolation defined on a boundary only, agree with it, with parameter 1 at the first end point and 0 at the second. A number of parameters different from the number of vertices is rejected with a ValueError, and there is no second derivative.",
     ["inputs", "configurations"], "all grids, all parameters (decided on the basis), all points (decided on lattices)",
     "One random affine function on one grid is sampled once per triangle; edges, boundaries and non-affine parameters are not tested.",
     [N, B], [("P1Interpolation, P1BoundaryInterpolation", N), ("transform_gradient", B)], (), ["P1Interpolation", "P1BoundaryInterpolation"])

prop("C12", "The Bell element is the quintic Hermite interpolation of its vertex data",
     "In every non-degenerate triangle of either orientation the C1 interpolation is the quintic polynomial with the given value, gradient and second derivatives at the three vertices whose normal derivative along each edge is cubic; its gradient and second derivatives are the derivatives of that polynomial. In particular every quartic polynomial is reproduced exactly. Vertex data of wrong length or number is rejected with a ValueError.",
     ["inputs", "configurations"], "all triangles, parameters (decided on the 18 basis vectors) and positions (decided on the 21-point lattice)",
     "The tests sample one random quartic on one triangle and one grid; clockwise triangles, non-quartic data and the invalid inputs are not tested.",
     [B, N], [("shape functions, transform_gradient, transform_hessian, bell_interpolation*", B), ("C1Interpolation", N)], (), ["bell_interpolation*", "C1Interpolation"])

prop("C13", "The C1 interpolation is continuously differentiable across edges",
     "For all parameters on all grids, the value and the gradient of the C1 interpolation computed from the two triangles sharing an edge agree along the edge, and all triangles around a vertex give the same value, gradient and second derivatives there, namely the parameters of that vertex. The restriction of the interpolation to an edge agrees with its value in the adjacent triangles, in both directions of the edge, with parameter 1 at the first end point and 0 at the second.",
     ["inputs", "configurations"], "all grids, edges, parameters (basis) and positions along the edge (lattice)",
     "The tests only interpolate quartics, for which continuity is automatic, and restrict to one edge of one triangle.",
     [N, B], [("C1Interpolation, bell_interpolation_on_edge", f"{N}, {B}")], (), ["C1Interpolation"])

prop("C14", "Refined and Euclidean views and deformations show the same function",
     "Carrying an interpolation over to a refined grid or evaluating it in Euclidean coordinates does not change the function: value, gradient, second derivatives and edge restriction agree with the original at the same physical point. A deformation evaluates its two components; row i of its strain is the gradient of component i and slice i of its hyper-strain the second derivatives of component i, in triangle, edge and Euclidean coordinates. Edges that do not lie on coarse edges and points outside the grid are rejected with a ValueError.",
     ["inputs", "configurations"], "all grids, factors, parameters (basis), positions (lattice)",
     "RefinedInterpolation, EuclideanInterpolation, Deformation and EuclideanDeformation have no tests.",
     [N, D], [("RefinedInterpolation, EuclideanInterpolation, Deformation, EuclideanDeformation", N)], (), ["RefinedInterpolation", "EuclideanInterpolation", "Deformation", "EuclideanDeformation"])

prop("C15", "Elastic energies have the right wells, symmetry and derivatives",
     "For every deformation gradient with positive determinant J, the austenite energy is |F|^2 - 2 - 2 log J + (J-1)^2 and the martensite energy is (|F|^2/J - 9/4)^2 + (J^2 + 1/J^2 - 2)^2: both are non-negative and unchanged by rotations from the left, austenite vanishes exactly at rotations, martensite vanishes at all rotated shears [1 +-0.5; 0 1] and not at rotations. The derivatives offered for both are their true derivatives in F. The elastic energy at temperature theta is the mixture of the two with austenite share 1 - exp(-5 theta). A gradient with J <= 0 (material collapsed or turned inside out) has no finite austenite energy and, at theta > 0, no finite elastic energy.",
     ["inputs"], "all deformation gradients with positive determinant, all temperatures >= 0",
     "helpers.py has no tests.",
     [H], [("austenite_potential, martensite_potential, derivative_*, total_elastic_potential, austenite_percentage", H)], (), ["potentials in helpers.py"])

prop("C16", "Internal energy and heat terms are consistent with the free energy",
     "For every F with positive determinant and every temperature theta >= 0, the internal energy is W - theta dW/dtheta of the coupling part W = share(theta) (austenite - martensite) plus 10 theta; the antiderivative offered is zero at theta = 0 and its temperature derivative is the coupling part of the internal energy; the offered F-derivative of the coupling part is its true derivative. The austenite share rises from 0 at theta = 0 towards 1.",
     ["inputs"], "all deformation gradients with positive determinant, all temperatures >= 0",
     "helpers.py has no tests.",
     [H], [("internal_energy*, antider_internal_energy_weight, temp_antrider_internal_energy_no_entropy, strain_derivative_coupling_potential", H)], (), ["potentials in helpers.py"])

prop("C17", "Dissipation, hyper-elasticity and heat conduction are frame indifferent",
     "The dissipation potential of two consecutive strains is half the squared norm of D^T P + P^T D (P the previous strain, D the difference): non-negative, zero without change of strain, and unchanged when both strains are rotated alike; the dissipation rate is twice the potential times the square of the frame rate. The hyper-elastic energy is the third power of the norm of the second derivatives. Heat conduction in the reference configuration is det(F) F^-1 K F^-T: symmetric, positive definite and unchanged by rotations of F.",
     ["inputs"], "all pairs of strains with positive determinant, rotations, frame rates, second-derivative tensors",
     "helpers.py has no tests.",
     [H, T], [("dissipation_potential, dissipation_rate, symmetrized_strain_delta, hyper_elastic_potential, heat_conductivity_reference", H)], (), ["potentials in helpers.py"])

prop("C18", "The mechanical step minimises the incremental energy of its current data",
     "The problem handed to the solver by an unregularised mechanical step is, for every candidate deformation, the elastic energy at the previous temperature plus frame rate times the dissipation from the previous deformation minus the work of the boundary traction on the free boundary edges, over the affine elements of the grid. It depends on the previous deformation, the previous temperature and the traction last given to the step (at its construction the identity, the initial temperature and time 0), after any sequence of updates and solves. It has no constraints besides the search box and the fixed boundary.",
     ["histories", "configurations", "inputs"], "all grids, fixed sides, parameters, update sequences, and candidate deformations",
     "mechanical_step.py has no tests, and no solver is installed.",
     [M], [("_model, _MechanicalStep", M)], [("prev_y1, prev_y2, prev_theta, g1, g2", "mutable parameters of the model", M)], ["solver.solve(model): objective as function of the unknowns"])

prop("C19", "The regularised mechanical step minimises its incremental energy",
     "The problem handed to the solver by a regularised mechanical step is, for every candidate, the elastic energy at the previous temperature plus the regularisation parameter times the hyper-elastic energy plus frame rate times the dissipation from the previous deformation, where deformations are C1 elements on the coarse grid, the temperature is affine on the refined grid, and integrals run over the refined triangles. It depends on the previous deformation and temperature last given to the step, after any sequence of updates and solves. Asking for a regularised step without a refined grid is rejected with a ValueError.",
     ["histories", "configurations", "inputs"], "all grids, refinement factors, parameters, update sequences, and candidates",
     "mechanical_step.py has no tests, and no solver is installed.",
     [M], [("_model_regularized, _MechanicalStepRegularized", M)], [("prev_y1, prev_y2, prev_theta", "mutable parameters of the model", M)], ["solver.solve(model)"])

prop("C20", "Fixed sides stay at the identity and nothing else is clamped",
     "In the unregularised setting exactly the vertices on the fixed sides are excluded from the unknowns, and they keep their reference position in every step whatever the solver answers. In the regularised setting a candidate satisfies the constraints handed to the solver if and only if the C1 deformation is the identity at every point of every fixed side, so that every recorded step with feasible answers keeps the fixed sides in place pointwise. This holds for every choice of fixed sides and after any number of steps.",
     ["configurations", "histories"], "all choices of fixed sides, grids, solver answers and numbers of steps",
     "mechanical_step.py and simulation.py have no tests.",
     [M, D, S], [("_model (fix), _model_regularized, _dirichlet_constraint_regularized", M)], (), ["solver.solve(model): fixed variables and constraints", "Simulation.steps"])

prop("C21", "The thermal step minimises the heat functional of its current data",
     "The problem handed to the solver by a thermal step is, for every candidate temperature, conduction (gradient, reference conductivity at the previous strain, gradient) minus (dissipation rate plus coupling power) times temperature, plus frame rate times (5 (theta - previous theta)^2 + antiderivative of the coupling internal energy at the new strain - coupling internal energy at the previous state times theta), plus, in the unregularised setting, a quarter of the squared difference to the external temperature along the whole boundary. It depends on the deformations, previous temperature and external temperature last given to the step, after any sequence of updates and solves, in both settings. Initial data of wrong shape, or a regularised step without a refined grid, is rejected with a ValueError.",
     ["histories", "configurations", "inputs"], "all grids, settings, parameters, update sequences and candidate temperatures",
     "thermal_step.py has no tests, and no solver is installed.",
     [TH], [("_model, _model_regularized, _add_objective, _energy_potential, _dissipation_potential, _boundary_potential", TH)], [("prev_y1.. y2, prev_theta, external_temperature", "mutable parameters of the model", TH)], ["solver.solve(model)"])

prop("C22", "Every solve starts at the previous state with the search box around it",
     "Whenever a problem is handed to the solver, every free unknown is bounded to its value in the previous state of that step plus or minus the search radius, for deformations in both settings and all their parameters; temperatures are in addition bounded below by zero. The unknowns start at their previous values in every solve of a simulation, and in the first solve of a step after its construction or after its previous state was updated. This holds for any sequence of updates, rejected updates and solves, whatever the solver answered before.",
     ["histories", "configurations"], "all grids, settings, radii, and sequences of updates and solver answers",
     "The steps have no tests.",
     [M, TH], [("bounds and start values in _model*, update_prev_y, update_prev_theta", f"{M}, {TH}")], (), ["solver.solve(model): start values and bounds"])

prop("C23", "Step data reads back exactly and bad updates change nothing",
     "After any sequence of updates and solves, reading a step back gives exactly the data last written or solved for: previous deformation, deformation, previous temperature and temperature, in the documented shapes and vertex order. Updating one quantity changes no other, except that the current unknown is reset along with its previous value (deformation in the mechanical step, temperature in the thermal step); an array of wrong shape, deformations that are not finite and temperatures that are negative or not finite at any vertex, are rejected with a ValueError and change nothing. The arrays handed out and taken in are not shared with the step.",
     ["histories"], "all sequences of updates, rejected updates and solves up to a depth, in all four kinds of steps",
     "The steps have no tests.",
     [M, TH], [("prev_y, y, prev_theta, theta, update_*", f"{M}, {TH}")], (), ["AbstractMechanicalStep / AbstractThermalStep methods"])

prop("C24", "The simulation follows the staggered scheme step by step",
     "Step 0 records the undeformed grid at the initial temperature. Every later recorded step k+1 consists of exactly one mechanical solve whose previous deformation and temperature are those recorded in step k (the initial state for the first), followed by exactly one thermal solve using the deformation of step k, the deformation just solved for and the temperature of step k, and records exactly the deformation and temperature the solver answered, at every vertex and in between. The first such step is taken by the constructor; this holds in both settings and for all solver answers.",
     ["histories", "configurations"], "all sequences of solver answers from an alphabet up to a depth, all settings",
     "simulation.py has no tests and the solver is not installed.",
     [S, M, TH], [("Simulation.__init__, _update_mechanical_step, _update_thermal_step, _append_step, _run_single_step", S)],
     [("steps, _mechanical_step, _thermal_step", "history and the two coupled models", S)], ["solver.solve(model)", "Simulation.steps"])

prop("C25", "Loads act at the right time and place",
     "In the solves of step k >= 1 the boundary traction is evaluated at time (k-1)/fps at the reference positions of the free boundary vertices, and the external temperature at time (k-1)/fps, so that step 1 uses time 0 and, however long the run, whole seconds are met exactly. The solves of that step see exactly these values (interpolated along the edges) and no values of other times, for every number of steps and every way of splitting them into runs. A load that is not given is zero at all times and places. This holds in the unregularised and in the regularised setting.",
     ["histories", "configurations", "inputs"], "all frame rates, fixed sides, load functions of time and place, run sequences",
     "simulation.py has no tests.",
     [S, M, TH], [("Simulation._current_time, update_boundary_traction, update_external_temperature", f"{S}, {M}, {TH}")], [("_current_time", "time of the next step", S)], ["solver.solve(model)", "user callbacks"])

prop("C26", "The history only grows, by the requested number of steps",
     "After construction there are two recorded steps; running n >= 1 steps (one if no number is given) appends exactly n, and n <= 0 is rejected with a ValueError without any effect. Splitting a run into several runs gives the same steps, and no operation (running, plotting, evaluating, printing, asking for the maximal temperature) changes a step recorded earlier or influences later ones.",
     ["histories"], "all ways of composing a number of steps from runs, interleaved with read-only operations",
     "simulation.py has no tests.",
     [S], [("Simulation.run, _append_step", S)], [("steps", "recorded history", S)], ["Simulation.steps", "Simulation.run"])

prop("C27", "A run that fails or is interrupted can be resumed without a trace",
     "If the solver or one of the user's load functions fails or is interrupted at any point of a run, the steps recorded so far remain as they were and no partial step is recorded. Running again continues from the last recorded step: the resulting history is the same as if the failure had never happened. This holds for failures at every call, also several of them, and also if the solver already changed some of the unknowns before it failed; and for an interruption at any other place in the code of the scheme.",
     ["fault_sequences", "histories"], "all single and double faults at the solver and callback calls of a run, of several kinds, and an interruption before every line executed during a run",
     "simulation.py has no tests; nothing injects failures.",
     [S], [("Simulation._update_mechanical_step, _run_single_step", S)], [("_thermal_step, _mechanical_step", "mutable models that survive a failure", S)], ["Simulation.steps after a failed run"])

prop("C28", "Simulations and grids do not influence each other",
     "Any interleaving of constructing and running several simulations, also sharing one domain or one parameter object and with different settings, gives each of them the history it has alone; changing the parameter object later, as in a sweep over parameters, does not affect simulations made before. Likewise grids, refined grids and interpolations built one after the other behave as if each were alone, also if their vertex numbers coincide.",
     ["schedules", "histories"], "all interleavings of the operations of two simulations up to a length, and of grid and interpolation operations",
     "Every test uses one object of each kind; there is no test with two simulations.",
     [S, D, N, M, TH], [("absence of shared mutable state in all modules", "src/tvemoves_rufbad")], (), ["Simulation.steps", "Grid", "interpolations"])

prop("C29", "Simulation parameters are accepted exactly if they are meaningful",
     "Parameters are accepted exactly if the initial temperature is non-negative, search radius, frame rate and scale are positive, the regularisation is absent or non-negative, the refinement factor is absent or positive, and a regularisation comes with a refinement factor; everything else is rejected with a ValueError. Accepted values are kept as given, except that a refinement factor without regularisation is dropped, and the parameters passed on to the mechanical and the thermal step are those values.",
     ["inputs"], "all combinations of the parameter fields around their limits",
     "SimulationParams has no tests.",
     [S], [("SimulationParams.__post_init__, mechanical_step_params, thermal_step_params", S)], (), ["SimulationParams"])

prop("C30", "Plots show the recorded steps in a common window and save under their index",
     "Plotting step i shows the deformed triangles of that step coloured by its temperature, in a window that is the same for all steps and spans exactly the deformed vertex positions recorded so far, on a colour scale from 0 to the largest temperature recorded so far, in both settings. Negative indices count from the end, and saving writes exactly one file whose name carries the non-negative index; an index outside the history plots and writes nothing.",
     ["histories", "inputs"], "all histories up to a length, all step indices around the bounds, both settings",
     "simulation.py has no tests.",
     [S, H], [("AbstractStep.plot, Simulation.plot_step, save_step, _append_step (limits)", S)], [("_max_temp, _xlims, _ylims", "running extremes", S)], ["matplotlib figure", "written files"])

prop("C31", "Recorded temperatures are never negative and runs survive solver rounding",
     "If the solver answers within its tolerance of the bounds (temperatures below zero by no more than the solver's bound relaxation, other unknowns outside the search box by as much), the simulation records non-negative temperatures that differ from the answer by no more than that, and can be continued for any number of steps. This holds for every subset of vertices at which the answer is slightly negative, in both settings.",
     ["histories", "fault_sequences", "inputs"], "all subsets of slightly negative vertices over all steps up to a depth, both settings",
     "simulation.py has no tests and the solver is not installed.",
     [TH, M, S], [("_ThermalStep.theta, _ThermalStepRegularized.theta, update_prev_theta", f"{TH}, {M}")], (), ["Simulation.steps", "Simulation.run"])

prop("C32", "Drawing a grid or domain shows all of it",
     "Drawing a grid draws every vertex at its position and every edge between its end points exactly once, with or without a given axis, in a window that contains them; drawing a domain draws its rectangle. Drawing onto an axis never shrinks what the axis already shows and changes neither grid nor domain.",
     ["inputs", "configurations"], "all grids and refined grids of a family, with and without axis, sequences of drawings",
     "Nothing is drawn in the tests.",
     [D, H], [("Grid.plot, _adjust_xlim, _adjust_ylim, RectangleDomain.plot, fig_axis", f"{D}, {H}")], (), ["matplotlib axes"])

prop("C33", "A gradient-based solver can read and start every problem",
     "Whenever the scheme hands a problem to the solver, the problem can be written in the input format of the solver (ipopt), and the written file describes it: one objective to be minimised, and the unknowns, their start and bounds, the constraints and the values of the objective agree with the model. There are no more equations than unknowns, the start is finite, the objective is finite there and in its neighbourhood, and it can be differentiated twice, operation by operation, at the start (no division by zero, no root or logarithm of zero; the hyper-elastic term at the undeformed state and problems without any unknown are excepted).",
     ["configurations", "histories"], "all settings, fixed sides and scales of a family, every solve of a history",
     "The tests never look at the file given to the solver, and the solver is not installed.",
     [M, TH, S, H], [("model construction in both steps", f"{M}, {TH}"), ("SolverFactory, solve calls", S)], (), ["problem handed to the solver"])

prop("C34", "An animation shows every recorded step once, in order, as plots do",
     "Saving an animation writes one film under the given name with one frame per recorded step, in the order of the steps. Every frame shows the deformed triangles of its step coloured by the temperature, in the window and on the colour scale that are common to all steps recorded so far, and nothing of the frames before. Animations can be made at any time, repeatedly and between runs, plots and saved pictures; they change neither the simulation nor later plots, and after further steps contain those too.",
     ["histories", "inputs"], "all sequences of runs, animations, plots and saves up to a length, both settings",
     "simulation.py has no tests and the program that encodes films is not installed.",
     [S, H], [("Simulation.save_animation, AbstractStep.plot, setup_axis", f"{S}, {H}")], [("_max_temp, _xlims, _ylims", "running extremes", S)], ["frames handed to the film writer", "written files"])

prop("C35", "A grid can be built edge by edge",
     "Appending an edge to a grid puts it at the end of its list of edges if the grid does not have it yet in either direction, and changes nothing otherwise. After any sequence of appended edges, in any order and direction and with any repetitions, the grid behaves like a grid constructed with these edges at once: it equals that grid and the grids listing the same edges in other orders and directions, and no grid with other edges; it finds the end points of its edges and rejects others with a ValueError; and it looks up the vertex at a point with the same tolerance.",
     ["histories", "inputs"], "all sequences of directed edges between the vertices of grids up to a depth, at several length scales",
     "append_edge is only used inside refine; no test appends an edge.",
     [D], [("Grid.append_edge, Grid._points_coincide, Grid.__eq__", f"{D}: class Grid")],
     [("edges and the mean edge length behind the tolerance of lookups", "updated edge by edge", f"{D}: Grid.append_edge")], ["Grid.append_edge", "Grid.point_to_vertex", "Grid.__eq__"])

prop("C36", "Steps and simulations work on every triangulation",
     "The mechanical and the thermal step, without regularisation and with it, accept every conforming triangulation: not convex, with holes or in several pieces, with triangles of any shape, size and orientation, numbered and listed in any order, and with any part of the boundary fixed, whatever its direction. On each of them, after any sequence of updates and solves, the problem handed to the solver is the same as for rectangles: it minimises the incremental energy (or the heat functional) of the current data on that triangulation with the loads at its free (or complete) boundary, starts at the previous state with the search box around it, and admits exactly the deformations that are the identity on the fixed edges. A simulation on a domain written by a user, which provides such grids and their refinements, follows the staggered scheme on them.",
     ["histories", "configurations", "inputs"], "all sequences of operations up to a depth on a family of triangulations, numberings and fixed parts; all answers of a simulation",
     "No test makes a step; all grids in the tests are rectangle grids, where edges are parallel to an axis or a diagonal and all triangles are alike.",
     [M, TH, S, N, I, D], [("_model, _model_regularized, _dirichlet_constraint_regularized", M), ("_model, _model_regularized, _add_objective", TH), ("Simulation", S), ("Domain protocol", D)],
     [("data of the steps", "previous deformation and temperature, loads, unknowns", f"{M}, {TH}")], ["problem handed to the solver", "Simulation.steps"])

prop("C37", "A step made from data shows exactly that data",
     "A simulation step made from arrays of deformation and temperature data on any grid (with regularisation: from the C1 parameters at the vertices and the temperatures at the vertices of the refined grid) represents exactly the functions given by that data, at the vertices and everywhere in between: deformation, its components, strain and (with regularisation) second derivatives, temperature and its gradient. It returns the data it was made from, can be drawn on any axis and printed at any time without changing, and does not depend on other steps; the type of the numbers and the order in memory do not matter. Data of a wrong shape, or a regularised step without a refined grid, is rejected with a ValueError.",
     ["inputs", "histories"], "a basis of the data and unusual members of it, on families of grids, and all orders of making, drawing, printing and reading steps",
     "simulation.py has no tests.",
     [S, N], [("Step, RegularizedStep, AbstractStep.data / plot", S), ("EuclideanDeformation, EuclideanInterpolation", N)], (), ["Step", "RegularizedStep"])

prop("C38", "Loads without meaning are rejected before they are solved with",
     "If the external temperature of a step is negative or undefined (NaN), or the boundary traction of a step is undefined at a vertex of the free boundary, then constructing the simulation (if it is the first step) or running it fails with a ValueError, the solver is never given a problem with that load, and no step is recorded for it. The steps recorded before stay as they were, every further attempt is rejected as well as long as the load has no meaning, and once it has one, running again gives the same history as if it always had one. (The regularised setting takes no loads so far, see the finding of C25.)",
     ["inputs", "histories"], "kinds of meaningless loads, all steps and vertices at which they occur, all fixed sides, orders of runs and repeated attempts",
     "simulation.py has no tests and the steps are only tested with fixed loads.",
     [S, M, TH], [("update_boundary_traction, update_external_temperature, domains of g1, g2 and external_temperature", f"{M}, {TH}")], [("external_temperature, g1, g2", "loads of the current step", f"{TH}, {M}")], ["Simulation", "Simulation.run", "user callbacks"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P))
