#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept as a script so that the statements stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=observe, hook_needed=hook)))

prop("C01", "Run schedule: output ticks, checkpoints and termination of a simulation run",
 "A run advances time strictly monotonically from its start time, takes no step once the final time is reached, and with final-time enforcement ends exactly at the final time (to rounding). Output ticks 0,1,2,... are emitted in order without gaps or repetition, tick k at the first step boundary at which simulation time has reached k times the output interval (at most one tick per step), and each enabled kind of output - solution, level sets, checkpoint, quantities, error comparison - is written at exactly the ticks that are multiples of its own multiplier.",
 ["histories", "configurations"],
 "every sequence of step sizes (including steps that jump over several ticks), every final time, output interval, multiplier and enable-flag combination, fresh or resumed run",
 "The regression runs use one granularity and one sequence of steps each, never run checkpoints, level sets, quantities and error output together with non-trivial multipliers, and compare end-of-run numbers rather than the schedule.",
 ["source/time_loop.template.h", "source/time_loop.h", "source/vtu_output.template.h"],
 [("main loop, timer tick and termination tests", "source/time_loop.template.h TimeLoop::run"),
  ("per-kind multiplier gating", "source/time_loop.template.h TimeLoop::output")],
 ["files written into the run directory", "state of the solution at each output", "terminal log"])

prop("C02", "Time stepping schemes: stage times, weights and order of consistency",
 "Each named explicit scheme performs a step that is algebraically the Runge-Kutta method it names: its stages are evaluated at the correct times and states, boundary and source data included, and the order conditions of its advertised order hold. Each Strang-split scheme is a hyperbolic step, a parabolic step over the whole doubled interval and a second hyperbolic step; the time interval reported equals the interval by which the state was advanced, and no step passes the requested final time.",
 ["configurations", "inputs"],
 "every scheme, every CFL number, every step size, every remaining time to the final time, every stage",
 "Regression runs pin a few schemes on a few flows with a 1e-6 tolerance; Strang schemes, the stage times seen by boundary data and the capping by the final time are not observed.",
 ["source/time_integrator.template.h", "source/time_integrator.h", "source/hyperbolic_module.template.h"],
 [("scheme step functions", "source/time_integrator.template.h step_*"),
  ("multi-stage high order update with weights", "source/hyperbolic_module.template.h step<stages>"),
  ("efficiency and final time cap", "source/time_integrator.template.h step")],
 ["time passed to boundary data", "source terms evaluated", "returned step size", "resulting state"])

prop("C03", "Recovery from invariant-domain violations never corrupts or loses a step",
 "With the CFL-recovery strategy, a step in which any stage on any process reports a violated bound is discarded completely and repeated from the unchanged previous state with the minimal CFL number, then the maximal CFL number is restored; a repeated step that still violates is accepted with a warning. With recovery disabled a violation is only counted as a warning. In every case the number of warnings and restarts reported equals the number that occurred, all processes take the same decision, and the state and time after the step equal those of a direct step at the CFL number that was finally used.",
 ["fault_sequences", "histories", "configurations"],
 "every pattern of violations over steps, stages and processes, every scheme and recovery strategy",
 "No regression run triggers a recovery; violations occur only for rare states at an unlucky stage.",
 ["source/time_integrator.template.h", "source/hyperbolic_module.template.h", "source/hyperbolic_module.h"],
 [("Restart exception and CFL switching", "source/time_integrator.template.h step"),
  ("restart flag reduction over ranks", "source/hyperbolic_module.template.h step")],
 ["returned step size", "state after the step", "warning and restart counters"])

prop("C04", "Every explicit update obeys the CFL condition of the graph viscosity method",
 "The step size chosen by the solver equals the CFL number times the minimum over all degrees of freedom of all processes of the lumped mass divided by twice the sum of the off-diagonal graph viscosities of its row, where the viscosity of an edge is symmetric and at least the maximal wave speed of the edge's Riemann problem in either orientation times the norm of the edge's discrete gradient vector. A step size handed in from outside is used unchanged, and a computed step size that is not a finite positive number (as it arises from a state that is not a number) is reported as an error and never used.",
 ["inputs", "configurations", "schedules"],
 "every state, mesh, dimension, finite element ansatz, number of processes and threads, and position of the limiting degree of freedom",
 "Regression runs see one limiting degree of freedom per flow and compare only aggregate norms.",
 ["source/hyperbolic_module.template.h", "source/hyperbolic_module.h"],
 [("d_ij computation, symmetrization, diagonal", "source/hyperbolic_module.template.h step, Step 1-2"),
  ("thread and MPI minimum of tau_max", "source/hyperbolic_module.template.h step, Step 2")],
 ["returned step size", "Riemann solver queries"])

prop("C05", "Discrete conservation of the hyperbolic update",
 "On a domain without boundary flux the mesh-integrated conserved quantities are unchanged, up to rounding, by every step of every scheme, for any limiter activity, and with boundary conditions the change of the total equals the discrete flux through the boundary degrees of freedom. Source terms change only the components they act on.",
 ["inputs", "configurations", "histories"],
 "every admissible initial state, equation, dimension, cell geometry, continuous and discontinuous ansatz, scheme, limiter setting and process count",
 "Regression runs compare error norms to stored values; a small loss of conservation in rarely active limiter or parallel paths stays below their tolerance or never occurs in them.",
 ["source/hyperbolic_module.template.h", "source/offline_data.template.h", "source/euler/limiter.template.h"],
 [("symmetric limiter coefficients and antisymmetric fluxes", "source/hyperbolic_module.template.h step, Step 4-7"),
  ("skew-symmetry of the gradient matrix", "source/offline_data.template.h assemble")],
 ["integral of the state before and after each step"])

prop("C06", "Invariant domain preservation of the hyperbolic update",
 "Starting from admissible states, every accepted step at a CFL number within the stable range of the scheme yields admissible states: positive density and internal energy (non-negative water depth) at every degree of freedom, and for scalar conservation laws no value outside the range of the previous values when bound relaxation is switched off. For the Euler equations without relaxation the specific entropy does not fall below its minimum over the previous states, and no update produces a non-finite value.",
 ["inputs", "configurations", "histories"],
 "every admissible initial state (strong shocks, near vacuum, dry beds), equation, equation of state, dimension, ansatz, scheme and limiter setting",
 "Regression runs use a handful of classical flows; violations need extreme states.",
 ["source/hyperbolic_module.template.h", "source/euler/limiter.h", "source/shallow_water/limiter.h", "source/scalar_conservation/limiter.h", "source/euler_aeos/limiter.h"],
 [("low-order update with guaranteed viscosity", "source/hyperbolic_module.template.h"),
  ("bounds and convex limiting", "source/*/limiter.h")],
 ["state after every step"])

prop("C07", "Convex limiter contract",
 "For any bounds, any state inside them and any update direction, the limiter returns a coefficient inside the allowed interval such that moving the state by that fraction of the update stays within the bounds (up to the documented relaxation), and it reports failure if and only if the starting state itself violates the bounds. It returns the full coefficient whenever the whole update stays inside the bounds, and combining two sets of bounds yields bounds that contain both.",
 ["inputs", "configurations"],
 "all bounds, states, directions, intervals, iteration limits and relaxation settings, for every equation and dimension",
 "Unit tests print the coefficient for three to five hand-picked states per equation.",
 ["source/euler/limiter.template.h", "source/euler/limiter.h", "source/euler_aeos/limiter.template.h", "source/shallow_water/limiter.template.h", "source/shallow_water/limiter.h", "source/scalar_conservation/limiter.template.h", "source/scalar_conservation/limiter.h", "source/newton.h"],
 [("line searches on the bounded quantities", "source/*/limiter.template.h limit"),
  ("union of bounds", "source/*/limiter.h combine_bounds")],
 ["returned coefficient and success flag", "bounds"])

prop("C08", "Approximate Riemann solvers bound the maximal wave speed from above",
 "For any two admissible states and any unit direction the wave speed estimate is finite, non-negative and at least the largest absolute signal speed of the exact solution of the projected Riemann problem (polytropic gas with an exponent up to 5/3, the surrogate gas of an arbitrary equation of state, shallow water, scalar fluxes that are convex between the states unless the greedy estimate is selected; the speed of the jump is bounded for every flux, and the averaged entropy option enforces its entropy inequality); it is invariant under exchanging the two sides together with the direction, and under rotations and reflections of the frame. It reduces to the exact characteristic speed for equal states and, with more iterations allowed, never increases.",
 ["inputs", "configurations"],
 "all pairs of admissible states including vacuum, dry and strong shock data, all directions, iteration limits and fluxes",
 "Unit tests print the estimate for about ten one-dimensional problems per equation and compare with earlier output.",
 ["source/euler/riemann_solver.template.h", "source/euler_aeos/riemann_solver.template.h", "source/shallow_water/riemann_solver.template.h", "source/scalar_conservation/riemann_solver.template.h", "source/newton.h"],
 [("two-rarefaction and failsafe pressure bounds", "source/euler/riemann_solver.template.h compute"),
  ("surrogate gamma bounds", "source/euler_aeos/riemann_solver.template.h"),
  ("water depth bound", "source/shallow_water/riemann_solver.template.h compute_h_star"),
  ("Roe average, entropy fix", "source/scalar_conservation/riemann_solver.template.h")],
 ["returned wave speed"])

prop("C09", "Results do not depend on the number of processes, threads or overlap mode",
 "For the same problem the computed solution, step sizes, step count and reported statistics are the same, up to floating point reassociation, for any number of MPI processes, any number of threads and with communication overlapped or not. Overlapped communication is started exactly once per exchange, only after all entries that it sends are final, and is complete before any ghost entry is read.",
 ["schedules", "configurations"],
 "every thread interleaving, process count, distribution of the mesh, equation and scheme",
 "Regression tests run a few problems at fixed process and thread counts without overlap; data races and missing ghost updates show up only under particular interleavings or partitions.",
 ["source/openmp.h", "source/hyperbolic_module.template.h", "source/offline_data.template.h", "source/local_index_handling.h", "source/sparse_matrix_simd.h"],
 [("synchronization dispatch", "source/openmp.h SynchronizationDispatch"),
  ("export indices first, ghost exchange", "source/offline_data.template.h, source/hyperbolic_module.template.h")],
 ["global solution", "step sizes"])

prop("C10", "Distributed sparse matrix and multi-component vector storage semantics",
 "An entry written to the distributed sparse matrix is read back unchanged through every access path - direct, transposed, tensor or component-wise - independent of the SIMD width, the number of interleaved rows and the process count, and after a ghost exchange every process sees the owner's current value in all couplings of its ghost rows to locally owned rows. Multi-component vectors store, add, extract and insert components of a node without touching any other node or component, and a ghost update delivers all components.",
 ["inputs", "histories", "configurations"],
 "every sparsity pattern, interleaving width, partition, component count and sequence of writes, exchanges and reads",
 "Unit tests print a small fixed pattern on at most a few ranks.",
 ["source/sparse_matrix_simd.h", "source/sparse_matrix_simd.template.h", "source/multicomponent_vector.h", "source/multicomponent_vector.cc"],
 [("interleaved storage and transposed index map", "source/sparse_matrix_simd.template.h reinit"),
  ("ghost row exchange", "source/sparse_matrix_simd.h update_ghost_rows_*"),
  ("component partitioner", "source/multicomponent_vector.cc")],
 ["values returned by the accessors on every rank"])

prop("C11", "Precomputed discrete operators, index layout and boundary map",
 "For every mesh the precomputed operators satisfy the identities the scheme rests on: lumped mass equals the row sums of the consistent mass and adds up to the measure of the domain, the gradient vectors of an edge are skew-symmetric up to boundary terms and every row of the gradient matrix annihilates constants, with boundary normals summing accordingly. Degrees of freedom are numbered so that on each process exported ones come first, vectorizable ones form a uniform-stride prefix, and the boundary map contains each boundary degree of freedom with a unit outward normal and its boundary type.",
 ["configurations", "inputs"],
 "every geometry, refinement level, dimension, ansatz, boundary type assignment, periodicity, adaptive refinement and process count",
 "The tests only exercise the operators indirectly through a few flows on few geometries.",
 ["source/offline_data.template.h", "source/offline_data.h", "source/local_index_handling.h", "source/discretization.template.h", "source/geometry_*.h"],
 [("index renumbering", "source/local_index_handling.h"),
  ("matrix assembly", "source/offline_data.template.h assemble"),
  ("boundary map", "source/offline_data.template.h construct_boundary_map")],
 ["public accessors of the offline data"])

prop("C12", "Checkpoint and restart are lossless and crash consistent",
 "A run that is checkpointed and resumed, on the same or a different number of processes, continues exactly as the uninterrupted run: same time, same output counter, same mesh, same state and same future output and mesh adaptation events. If a crash happens at any point while a checkpoint is written, either a complete older checkpoint (possibly under its backup name) or the complete new one is on disk, and a resume never silently starts from a mixture of the two.",
 ["crash_points", "histories", "configurations"],
 "every crash point inside a checkpoint, every time of checkpointing, number of earlier checkpoints, process counts before and after, and option combination",
 "No test writes or reads a checkpoint.",
 ["source/time_loop.template.h", "source/time_loop.h"],
 [("rename to backups, then mesh and state, metadata last", "source/time_loop.template.h write_checkpoint"),
  ("read_checkpoint", "source/time_loop.template.h read_checkpoint")],
 ["checkpoint files", "continuation of a resumed run"])

prop("C13", "Mesh adaptation happens when configured and transfers the state faithfully",
 "Adaptation takes place at the first step boundary at which simulation time reached one or more still pending configured times, once for all of them, and never otherwise, each time applying the configured marking strategy. After an adaptation the new state represents the old one on the new mesh: it equals the interpolant on refinement, stays constant for constant states, is admissible, and all mesh-dependent data, statistics and outputs use the new mesh.",
 ["histories", "configurations", "inputs"],
 "every list of adaptation times, sequence of step sizes, strategy, number of successive adaptations and process count",
 "One regression run adapts once or twice on one mesh.",
 ["source/mesh_adaptor.template.h", "source/mesh_adaptor.h", "source/time_loop.template.h", "source/solution_transfer.h"],
 [("pending time points", "source/mesh_adaptor.template.h prepare, analyze"),
  ("transfer of the state", "source/time_loop.template.h adapt_mesh_and_transfer_state_vector")],
 ["mesh and state at each output", "terminal log"])

prop("C14", "Point and boundary statistics are correct averages of the sampled solution",
 "Each configured manifold samples exactly the degrees of freedom on it, each once, with its lumped (interior or boundary) mass as weight. Instantaneous output equals the current primitive state and its square there, space averages are mass weighted means at the sampled time, and time averages are trapezoidal means over the recorded steps since the last reset; every requested file is written once per write-out with a fresh header for a fresh file and with all data accumulated since the previous write-out (or change of the mesh), independent of other manifolds.",
 ["histories", "configurations"],
 "every set of manifolds and options, sequence of step sizes and write-outs, resets, mesh adaptations and process count",
 "No regression run compares the files written for configured manifolds.",
 ["source/quantities.template.h", "source/quantities.h"],
 [("manifold extraction", "source/quantities.template.h prepare"),
  ("accumulation", "source/quantities.template.h accumulate, internal_accumulate"),
  ("write out", "source/quantities.template.h write_out")],
 ["written data files"])

prop("C15", "Boundary conditions impose exactly what their type promises",
 "On a slip boundary the state after boundary treatment has no normal momentum and unchanged other components, on a no-slip boundary no momentum at all, on a Dirichlet boundary it equals the boundary data at the correct position and stage time, with momentum-only Dirichlet only the momentum is replaced, and do-nothing and periodic boundaries leave the state unchanged. The dynamic boundary imposes the full boundary data for supersonic inflow, nothing for supersonic outflow, and in between exactly the incoming characteristic, and is a no-op when the state equals the boundary data.",
 ["inputs", "configurations"],
 "every admissible state, normal, boundary data, boundary type, equation, dimension, corner configuration and stage time",
 "Regression runs use constant inflow data and one or two boundary types; the sub- and supersonic cases of the dynamic boundary are not separated.",
 ["source/euler/hyperbolic_system.h", "source/euler_aeos/hyperbolic_system.h", "source/shallow_water/hyperbolic_system.h", "source/scalar_conservation/hyperbolic_system.h", "source/hyperbolic_module.template.h"],
 [("apply_boundary_conditions, prescribe_riemann_characteristic", "source/*/hyperbolic_system.h"),
  ("application over the boundary map", "source/hyperbolic_module.template.h prepare_state_vector")],
 ["state returned by the boundary treatment", "state after a prepared step"])

prop("C16", "Initial states: documented solutions, frame change and perturbation",
 "Every selectable initial state is admissible and, where it is an exact solution of its equation, satisfies that equation and its jump conditions at all times; evaluation at a time equals the corresponding evolved profile. Direction and position parameters act as a rotation and translation of the frame: evaluating a rotated configuration at a rotated point gives the rotated state, and interpolation assigns every degree of freedom its own nodal value with a perturbation bounded by the configured relative amplitude.",
 ["inputs", "configurations"],
 "every initial state, its parameters, points, times, directions and dimensions",
 "Regression runs evaluate initial states in one frame and judge exact solutions only through error norms.",
 ["source/initial_values.template.h", "source/initial_values.h", "source/euler/initial_state_*.h", "source/shallow_water/initial_state_*.h", "source/scalar_conservation/initial_state_*.h"],
 [("frame transformation and perturbation", "source/initial_values.template.h"),
  ("initial state formulas", "source/*/initial_state_*.h")],
 ["initial state function", "interpolated state vector"])

prop("C17", "Driver: parameter files select exactly one solver and invalid input is refused",
 "Running the program with a parameter file executes exactly one simulation, of the equation and dimension named in the file, and with the parameters of the file in effect; an unknown equation, unsupported dimension, unknown parameter or inconsistent setting is reported as an error with a non-zero exit and no simulation. A missing explicitly named file or surplus arguments are refused without creating anything, and without any file the program creates template parameter files that, given back unchanged, are parsed and dispatched to the equation and dimension that they name.",
 ["inputs", "configurations"],
 "every command line, presence or absence of files, equation name, dimension and parameter setting",
 "Tests call the program only with valid parameter files.",
 ["source/main.cc", "source/equation_dispatch.h", "source/equation_dispatch.cc", "source/time_loop.template.h", "source/time_integrator.template.h"],
 [("argument handling", "source/main.cc main"),
  ("dispatch over registered equations", "source/equation_dispatch.h")],
 ["exit code", "messages", "created files"])

prop("C18", "Physical state algebra: pressure, entropy, flux and conversions are consistent",
 "For every equation and equation of state, conserved and primitive representations convert into each other without loss, pressure, energy, temperature and speed of sound are mutually consistent (sound speed is the isentropic derivative of pressure), every coded derivative equals the derivative of the coded function, and fluxes are the physical fluxes, equivariant under rotation and Galilean shifts of the momentum frame. Entropies are conserved along smooth solutions: entropy flux compatibility holds.",
 ["inputs", "configurations"],
 "every admissible state, gas constant, equation of state parameter, dimension and user-supplied function expression",
 "Unit tests print values at one or two states.",
 ["source/euler/hyperbolic_system.h", "source/euler_aeos/hyperbolic_system.h", "source/euler_aeos/equation_of_state_*.h", "source/shallow_water/hyperbolic_system.h", "source/scalar_conservation/hyperbolic_system.h", "source/scalar_conservation/flux_*.h", "source/simd.template.h"],
 [("state functions", "source/*/hyperbolic_system.h"),
  ("equation of state implementations", "source/euler_aeos/equation_of_state_*.h")],
 ["values returned by the state functions"])

prop("C19", "Parabolic (viscous and heat conduction) update is conservative and stable",
 "The implicit viscous step leaves density unchanged, conserves momentum and total energy on a domain without boundary exchange, imposes no-slip, slip, Dirichlet and adiabatic conditions, and never lowers the minimum of the internal energy on meshes on which the discrete heat conduction is monotone, while a violation on any other mesh is reported as configured (warning or restart); the result solves the discretized equations to the requested tolerance independent of using the multigrid preconditioner. A zero-viscosity, zero-conductivity fluid is left unchanged.",
 ["inputs", "configurations"],
 "every admissible state, viscosities, conductivity, step size, boundary type, dimension, solver option and process count",
 "Only a few Navier-Stokes runs exist, with one boundary configuration each.",
 ["source/navier_stokes/parabolic_solver.template.h", "source/navier_stokes/parabolic_solver_gmg_operators.h", "source/parabolic_module.template.h"],
 [("velocity and internal energy solves", "source/navier_stokes/parabolic_solver.template.h")],
 ["state after the parabolic step"])

prop("C20", "Equilibria are preserved: uniform flow and lake at rest",
 "A uniform state with compatible boundary conditions is a fixed point of every scheme on every mesh, up to rounding, for every equation and equation of state. For the shallow water equations a lake at rest over arbitrary bathymetry, wet everywhere or partially dry, stays at rest, and friction never reverses or accelerates the flow.",
 ["inputs", "configurations", "histories"],
 "every uniform state, bathymetry, water level, mesh, dimension, ansatz, scheme and number of steps",
 "Only one or two equilibrium flows are among the regression runs.",
 ["source/hyperbolic_module.template.h", "source/shallow_water/hyperbolic_system.h", "source/shallow_water/limiter.h"],
 [("hydrostatic reconstruction", "source/shallow_water/hyperbolic_system.h star_state, flux_divergence"),
  ("row sums of the gradient matrix and boundary terms", "source/offline_data.template.h")],
 ["state after many steps"])

prop("C21", "Visualization output shows the solution and normalized derived quantities",
 "The output files of a tick contain exactly the selected conserved, primitive and precomputed fields with the values of the solution at that tick, for all cells of all processes, or - for level set output - exactly the cells that intersect a configured manifold. Derived schlieren and vorticity fields are computed from the discrete gradients, lie in the documented normalized range with monotone dependence on the gradient, and use bounds that are global over processes, taken over the nodes that carry a degree of freedom, and fixed between recomputations.",
 ["inputs", "configurations", "histories"],
 "every selection of fields and manifolds, solution, mesh, process count and output tick",
 "Tests never read the visualization files.",
 ["source/vtu_output.template.h", "source/vtu_output.h", "source/postprocessor.template.h", "source/postprocessor.h", "source/selected_components_extractor.h"],
 [("postprocessor", "source/postprocessor.template.h compute"),
  ("field selection", "source/selected_components_extractor.h"),
  ("cell selection", "source/vtu_output.template.h schedule_output")],
 ["written vtu files"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), max(len(p["title"]) for p in P))
