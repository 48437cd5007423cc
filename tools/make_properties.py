"""Writes properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append(d)

p("C01", "A time step is all or nothing",
  "Whenever a time step cannot be completed (the right-hand side, inflow data, CFL check or recording raises, or the new value is not finite), the solver's visible solution stays exactly the last accepted state: same time, same values, every recorded history still ending there. A state with a NaN or an infinity in it is never accepted or recorded, and accepted values are never altered afterwards.",
  ["fault_sequences", "inputs", "crash_points", "configurations"],
  "For every solver, mesh, benchmark, time integrator and every point inside a step (any stage, any boundary evaluation, the update itself) at which the step is made to fail.",
  "Tests only take successful steps; the failure point inside a multi-stage step and what is visible then is never exercised.",
  ["core/solver.py", "core/ode_solver.py", "core/discrete_solution.py", "finite_volume/shallow_water/solver/coarse.py"],
  [("finite check before assignment", "core/discrete_solution.py DiscreteSolution.update"),
   ("new value computed aside, then published", "core/ode_solver.py ExplicitRungeKuttaMethod.execute"),
   ("step order execute, check, update", "core/solver.py Solver._update")],
  [("solution", "last accepted time and values", "core/solver.py Solver.solution")],
  ["Solver.solution.time / .value / histories after Solver.solve raised"])

p("C02", "Histories are complete, append-only and aligned",
  "A solution that records its history contains exactly one entry per accepted state, in order, starting with the initial state and ending with the current one; times and values always have the same length and later steps, failures and queries never change earlier entries. Rewinding to a time keeps exactly the entries before that time plus the new state, and the coarse view of a fine computation shows at every entry the block averages of the fine state at that time.",
  ["histories", "fault_sequences", "configurations"],
  "For every sequence of steps, rewinds, reinitialisations, failed steps and failed allocations, for plain, coarse and data-generating solutions.",
  "Unit tests perform one or two updates on tiny vectors; long histories interleaved with failures and rewinds are not sampled.",
  ["core/discrete_solution.py", "core/vector_coarsener.py", "finite_volume/shallow_water/solver/coarse.py", "command/generate_data.py"],
  [("append on update, truncate on set_value", "core/discrete_solution.py DiscreteSolutionWithHistory"),
   ("coarsening on the way in", "core/discrete_solution.py CoarseSolutionWithHistory.update"),
   ("cell neighbourhood recording", "command/generate_data.py DiscreteSolutionWithInputData")],
  [("time_history/value_history", "recorded trajectory", "core/discrete_solution.py")],
  ["time_history, value_history, time_step_history"])

p("C03", "Time stepping reaches exactly the end time and always terminates",
  "Iterating the time stepping yields positive steps, none longer than the CFL number times the proposed step and none overshooting the end time, and it finishes with the clock exactly at the end time. If a proposed step is too small to make progress the iteration stops with the documented too-small signal (a solve prints a warning and stops) instead of looping; iterating again starts over from the start time.",
  ["inputs", "histories", "fault_sequences"],
  "For every start and end time, CFL number, constant or adaptive mode and every sequence of proposed step sizes, including zero, negative, tiny, huge and infinite proposals at any position.",
  "Tests use a few fixed step sizes; the guarantee is about every proposal sequence and every iteration history.",
  ["core/time_stepping.py", "core/solver.py"],
  [("clamp to the remaining time, snap to the end", "core/time_stepping.py TimeStepping._build_time_step"),
   ("too small check", "core/time_stepping.py TimeStepping._check_too_small_time_step"),
   ("reset on iteration", "core/time_stepping.py TimeStepping.__iter__")],
  [("time", "clock of the time stepping", "core/time_stepping.py TimeStepping.time")],
  ["the yielded steps, TimeStepping.time, Solver.solution.time, warnings"])

p("C04", "Every Runge-Kutta step evaluates the equation at its stage times and values",
  "One step of any time integrator evaluates the right-hand side exactly once per stage, at the stage time and stage value its tableau prescribes, combines these evaluations with its weights, and advances its time by the step. Time-dependent data such as inflow boundaries are therefore seen at the stage times, no matter which start time, step sequence or restart preceded the step, and the reported stage times and values are the ones that were used.",
  ["histories", "inputs", "configurations"],
  "For every integrator, every time-dependent (scalar or vector valued) right-hand side, every start time and every sequence of variable steps and reinitialisations.",
  "Tests integrate one autonomous problem with fixed steps; non-autonomous right-hand sides and variable step histories are not sampled.",
  ["core/ode_solver.py", "core/boundary.py", "finite_volume/numerical_flux.py"],
  [("generic explicit Runge-Kutta stage loop", "core/ode_solver.py ExplicitRungeKuttaMethod.execute"),
   ("inflow evaluated at the stage time", "core/boundary.py InflowCell"),
   ("tableaus", "core/ode_solver.py ForwardEuler, Heun, StrongStabilityPreservingRungeKutta3, RungeKutta8")],
  [("time, solution, stage_values, time_nodes", "state of the integrator", "core/ode_solver.py")],
  ["calls received by the right-hand side and inflow callbacks, solution, stage_values, time_nodes"])

p("C05", "A reinitialised solver behaves exactly like a fresh one",
  "After reinitialising a solver on a benchmark, solving gives exactly the trajectory, final state, recorded history and warnings that a newly built solver of the same configuration gives. This holds no matter what the solver did before: complete solves, partial or failed solves, solves of other initial data, or repeated reinitialisations.",
  ["histories", "fault_sequences", "configurations"],
  "For every solver and configuration and every prior history of solves, failures at any point and reinitialisations (same equation, domain, boundary conditions and end time).",
  "No test reuses a solver after a failed or partial run, and no test compares reuse with a fresh solver.",
  ["core/solver.py", "finite_volume/solver.py", "finite_element/solver.py", "finite_volume/shallow_water/solver/coarse.py", "core/discrete_solution.py", "core/ode_solver.py", "command/error_evolution.py", "command/generate_data.py"],
  [("reinitialize", "finite_volume/solver.py Solver.reinitialize, finite_element/solver.py, solver/coarse.py"),
   ("set_value truncation", "core/discrete_solution.py"),
   ("fresh iteration", "core/time_stepping.py TimeStepping.__iter__")],
  None, ["solution.time/value/histories, printed warnings"])

p("C06", "Solvers in one process do not influence each other",
  "Building, solving, failing or reinitialising any solver in a process never changes the result of another one: every solver's trajectory is exactly the one it produces alone in a new process. This holds even when their steps and right-hand side evaluations are interleaved in any order.",
  ["schedules", "histories", "fault_sequences"],
  "For every set of solvers (scalar and shallow water, finite volume and finite element, shared flux choices), every interleaving of their steps and stage evaluations, and failures of some of them.",
  "Tests run one solver at a time; shared class-level state and shared flux objects only show under interleavings and particular orders of construction.",
  ["finite_volume/shallow_water/solver/__init__.py", "finite_element/flux_approximation.py", "core/riemann_solver.py", "finite_volume/shallow_water/solver/low_order.py", "finite_volume/shallow_water/solver/mcl.py", "finite_volume/shallow_water/solver/lax_wendroff.py", "core/boundary.py"],
  [("per-solver flux objects built by shared flux getters", "finite_volume/shallow_water/solver/__init__.py SHALLOW_WATER_FLUX_GETTER"),
   ("per-instance caches", "finite_element/flux_approximation.py")],
  None, ["solution.time/value/histories of every solver"])

p("C07", "Evaluating the semi-discrete equation is a pure function",
  "The right-hand side of every solver returns the same result for the same time and state regardless of which states, meshes or failures were evaluated before, and regardless of whether the state array is a new object or a reused buffer. It never modifies the state it is given, results returned earlier never change later, and nothing depends on uninitialised memory.",
  ["histories", "inputs", "fault_sequences"],
  "For every solver, every sequence of evaluations (repeats, revisits, in-place modified buffers, evaluations aborted by an error) and every content of freshly allocated memory.",
  "Tests evaluate each right-hand side once on one vector; caches and stored intermediate results only show in call histories.",
  ["finite_volume/numerical_flux.py", "core/riemann_solver.py", "core/boundary.py", "finite_element/flux_approximation.py", "finite_element/artificial_diffusion.py", "finite_element/scalar/solver/mcl.py", "finite_volume/shallow_water/core.py", "finite_volume/shallow_water/solver/mcl.py"],
  [("cache keyed on the state", "finite_element/flux_approximation.py"),
   ("copies before in-place changes", "finite_volume/shallow_water/core.py get_height/get_discharge, core/boundary.py")],
  None, ["Solver.as_dict()['right_hand_side'] called directly; time step estimators"])

p("C08", "Conservation and a seamless periodic boundary",
  "With periodic boundaries every scheme conserves the total of each conserved quantity at every step up to rounding (for shallow water over flat bottom mass and momentum, with topography or between walls the mass), for every time integrator and step size that keeps the solution finite. The periodic domain has no distinguished point: translating the initial data by whole cells translates the numerical solution.",
  ["inputs", "configurations", "histories"],
  "For every conservative solver, mesh size, initial data, time integrator and step sequence (random initial data, shocks, dry areas for positivity preserving schemes, topography).",
  "Tests compare a few right-hand sides with hand-computed numbers; conservation has to hold for all data and over whole runs.",
  ["finite_volume/numerical_flux.py", "core/boundary.py", "core/index_mapping.py", "finite_volume/shallow_water/boundary.py", "finite_volume/scalar/solver/mcl.py", "finite_volume/shallow_water/solver/mcl.py", "finite_element/scalar/solver/cg_low.py", "finite_element/scalar/solver/mcl.py", "finite_element/scalar/solver/cg.py", "finite_element/artificial_diffusion.py", "finite_element/index_mapping.py"],
  [("one flux per node, used with opposite signs", "finite_volume/numerical_flux.py"),
   ("ghost cells", "core/boundary.py, finite_volume/shallow_water/boundary.py"),
   ("antisymmetric corrected fluxes", "finite_element/scalar/solver/mcl.py")],
  None, ["cell sums / lumped-mass weighted sums after every accepted step"])

p("C09", "Scalar monotone schemes respect the maximum principle",
  "For advection and Burgers the Lax-Friedrichs, flux-limited finite volume, low order and limited continuous finite element schemes (of any degree) keep every accepted state inside the range of the initial data (and inflow data), up to rounding, when their step satisfies the CFL condition. They create no new extrema either: per stage of a step a value never leaves the range of its own and the neighbouring cells' values. No choice of strong stability preserving time integrator, boundary condition, sign or shape of the data breaks this.",
  ["inputs", "configurations", "histories"],
  "For every initial datum (random, discontinuous, sign-changing, constant, zero), mesh, boundary condition, integrator (Euler, Heun, SSP3) and CFL number up to the stable one, over whole runs.",
  "Tests check single fluxes; the bound is a statement about all data and all steps.",
  ["finite_volume/scalar/core.py", "finite_volume/scalar/solver/lax_friedrichs.py", "finite_volume/scalar/solver/mcl.py", "core/local_bounds.py", "core/index_mapping.py", "finite_element/scalar/solver/cg_low.py", "finite_element/scalar/solver/mcl.py", "finite_element/artificial_diffusion.py", "core/riemann_solver.py"],
  [("local wave speed bound", "finite_volume/scalar/core.py WaveSpeed"),
   ("flux limiting", "finite_volume/scalar/solver/mcl.py limit, finite_element/scalar/solver/mcl.py"),
   ("artificial diffusion", "finite_element/artificial_diffusion.py"),
   ("time step bound", "finite_element/scalar/solver/cg_low.py OptimalTimeStep")],
  None, ["solution.value after every accepted step"])

p("C10", "Positivity-preserving shallow water schemes keep water heights positive",
  "The low order and the flux-limited (MCL) shallow water schemes keep all water heights non-negative and finite under their CFL condition. This holds for any topography, boundary conditions, strong near-dry gradients and any admissible high order flux inside the limiter, including a broken or arbitrarily wrong one.",
  ["inputs", "configurations", "fault_sequences"],
  "For every initial state with positive heights, bathymetry, boundary condition, SSP integrator and inner flux, including inner fluxes that return arbitrary finite values at arbitrary times.",
  "Tests check one hand-made state; positivity is a claim about all states, all inner fluxes and all steps.",
  ["finite_volume/shallow_water/solver/low_order.py", "finite_volume/shallow_water/solver/mcl.py", "finite_volume/scalar/solver/mcl.py", "finite_volume/shallow_water/core.py"],
  [("height positivity fix", "finite_volume/shallow_water/core.py get_height_positivity_fix"),
   ("height flux limiting", "finite_volume/shallow_water/solver/mcl.py"),
   ("wave speeds", "finite_volume/shallow_water/core.py MaximumWaveSpeed")],
  None, ["water heights after every accepted step"])

p("C11", "Lake at rest stays at rest",
  "With the low order, the flux-limited (MCL) and the central shallow water scheme a lake at rest (constant water level above any wet bathymetry, no velocity) remains unchanged up to rounding for the whole run. It does so for every bathymetry, mesh, integrator, well-balanced inner flux and (apart from the amplification of rounding errors by unstably large ones) step size, with open, reflecting or resting inflow boundaries, and for periodic ones when the bathymetry has no step there.",
  ["inputs", "configurations", "histories"],
  "For every wet bathymetry (random, discontinuous, steep), water level, gravity, mesh, boundary and step sequence.",
  "Tests use one parabolic bump at most; the balance must hold for every bathymetry and over whole runs.",
  ["finite_volume/shallow_water/solver/low_order.py", "finite_volume/shallow_water/solver/mcl.py", "finite_volume/shallow_water/solver/central.py", "finite_volume/shallow_water/numerical_flux.py", "finite_volume/shallow_water/core.py", "finite_volume/shallow_water/boundary.py"],
  [("source term discretisation", "finite_volume/shallow_water/numerical_flux.py, solver/low_order.py"),
   ("limiting in modified states", "finite_volume/shallow_water/solver/mcl.py")],
  None, ["solution.value after every accepted step"])

p("C13", "Observation never changes the computation; CFL warnings are exact",
  "Recording a history, wrapping the solution into a coarse view, showing progress, checking the CFL condition and the behaviour of the wall clock never change a computed state or a step. A CFL warning is printed, with the time the step reaches, for exactly those steps in which some stage value makes the admissible step smaller than the step taken (a step exactly as long as the admissible one gives none), and the run goes on.",
  ["configurations", "inputs", "fault_sequences"],
  "For every solver with and without observers, every clock behaviour (jumps, backwards, frozen) and every run with violated or satisfied CFL condition.",
  "Tests never compare observed with unobserved runs and never check when warnings appear.",
  ["core/solver.py", "core/time_stepping.py", "core/discrete_solution.py", "finite_volume/shallow_water/solver/coarse.py", "finite_element/scalar/solver/cg_low.py", "profiler.py"],
  [("CFLChecker over all stage values", "core/time_stepping.py CFLChecker"),
   ("warning instead of failure", "core/solver.py Solver._check_cfl_condition"),
   ("value copies", "core/discrete_solution.py")],
  None, ["solution values with and without observers; printed warnings"])

p("C14", "Generated training data survives crashes and full disks",
  "If data generation is killed, runs out of disk space or fails in a solve at any point, every solution completely written before is still readable in full and both files describe the same solutions in the same order, apart from the one solution that was being written. Appending never changes complete lines that were already there and removes at most a torn end, a file that is created by appending is a valid data file with its header, and an interrupted overwriting run never leaves data of one generation next to benchmarks of another.",
  ["crash_points", "fault_sequences", "histories"],
  "For every crash point, disk-full point and failing solve during any sequence of overwriting and appending generation runs, also onto missing or empty files.",
  "Tests write once to a healthy disk; crash points and torn writes are not reachable from them.",
  ["command/generate_data.py"],
  [("one complete data frame per write, data before benchmark", "command/generate_data.py GenerateData._save_data"),
   ("append mode", "command/generate_data.py GenerateData.execute")],
  [("data.csv, benchmark.csv", "durable training data", "command/generate_data.py")],
  ["the files after the run, read with pandas"])

p("C15", "Generated data is reproducible from its seed",
  "A data set is a function of its generation arguments: the same seed gives the same files byte for byte, in any process, whatever ran before and whatever happened to global random state. The benchmark file alone suffices to recompute every row of the data file: each row is the solution around the chosen node at its time, block averaged, together with the exact subgrid flux, and the runs cover exactly the requested time interval.",
  ["inputs", "histories", "configurations"],
  "For every seed, number of solutions, coarsening degree, node, stencil radius and end time, after any prior activity in the process.",
  "The only such test of the repository pins one seed and a few values; independence of prior activity and of the run structure is not covered.",
  ["command/generate_data.py", "benchmark/shallow_water.py"],
  [("seeded generator per benchmark", "benchmark/shallow_water.py RandomOscillationNoTopographyBenchmark, RandomBenchmarkGenerator"),
   ("recording wrapper and flux difference", "command/generate_data.py SubgridFluxDataBuilder")],
  None, ["data.csv, benchmark.csv"])

p("C16", "Saved networks come back unchanged or not at all",
  "Saving a trained network and loading it, in the same or another process, gives a network whose predictions are exactly the same. If saving is interrupted by a crash or a failing disk at any point, what is loaded afterwards is one completely saved network (the old or the new one), or loading is reported as failed and the network refuses to predict. What other networks of the process do never changes its predictions.",
  ["crash_points", "fault_sequences", "histories"],
  "For every network type, training history, save sequence and every write at which a save is interrupted, torn or refused.",
  "No test saves a network at all.",
  ["finite_volume/shallow_water/solver/reduced_model.py", "finite_volume/shallow_water/solver/reduced_llf.py", "finite_volume/shallow_water/solver/reduced_llf_2.py"],
  [("save_params / load_params", "finite_volume/shallow_water/solver/reduced_model.py ReducedNetwork")],
  [("model.pkl, opt.pkl, history.json, input_scaler.pkl, output_scaler.pkl", "durable network", "finite_volume/shallow_water/solver/reduced_llf*.py")],
  ["predict() before saving and after loading"])

p("C17", "Network loading failures stop the solve and do not stick",
  "A solver that needs a stored network never computes with a missing, unreadable, truncated or garbled one: the first step fails with an error and the solution stays at the last accepted state. Once the files are readable again, the same solver objects work and give exactly the result of a run without the failure; once loaded, later file problems have no influence.",
  ["fault_sequences", "histories", "schedules"],
  "For every network file, read fault (missing, permission, I/O error, truncation, corruption) and order of failing and succeeding solves over solvers sharing a network.",
  "No test runs a reduced solver, and none injects read faults.",
  ["finite_volume/shallow_water/solver/reduced_model.py", "finite_volume/shallow_water/solver/reduced_llf.py", "finite_volume/shallow_water/solver/__init__.py"],
  [("lazy loading on first evaluation", "finite_volume/shallow_water/solver/reduced_model.py ApproximatedSubgridFlux"),
   ("unfitted scalers refuse to predict", "finite_volume/shallow_water/solver/reduced_model.py ReducedNetwork.predict")],
  None, ["Solver.solve outcome, solution.value"])

p("C18", "Seeded training is reproducible and saves only what was accepted",
  "Training with a seed is a function of data, options and seed: it gives the same network in every process and after any prior activity, learning exactly the completely written rows of the data file. A confirmation dialogue never saves without an affirmative answer, never fails to save after one and asks again after anything else; a training which is not resumed does not depend on the network stored before, and a resumed one goes on from it; a failing or refused training leaves the stored network untouched. The loss curves shown (only if asked for) are those of all epochs.",
  ["inputs", "histories", "fault_sequences"],
  "For every seed, epoch number, skip, data set, prior consumption of random numbers and every sequence of answers to the dialogue, including end of input and training failures.",
  "No test trains a network.",
  ["command/train_network.py", "finite_volume/shallow_water/solver/reduced_model.py"],
  [("seeding of all generators", "command/train_network.py TrainNetwork._set_seed"),
   ("confirmation loop", "command/train_network.py TrainNetwork._save_params"),
   ("scalers fitted on the training data", "finite_volume/shallow_water/solver/reduced_model.py ReducedNetwork.fit")],
  None, ["predictions, stored files"])

p("C19", "Error series survive failing benchmarks and report true errors",
  "In an error series a failing solve of one random benchmark is reported with its seed and leaves all other results exactly as they would be without it. Each reported curve is the relative L2 difference of the two solutions of one benchmark, on the times of the longer run's grid, and the sequence of benchmarks depends on the seed only. Averages are taken over the benchmarks which were solved and are shown with the area up to the maximum, and saved curves and plots show exactly these results, below the given directory (named with or without a slash at its end).",
  ["fault_sequences", "histories", "configurations"],
  "For every pair of solvers, seed, number of benchmarks and every pattern of failing solves (in either solver, at any step), also over several series and parameter values, and after failures while saving.",
  "Tests feed hand-made histories to the calculator; failing solves and reused solvers over a series are not tested.",
  ["command/error_evolution.py", "command/parameter_variation_test.py", "core/norm.py", "core/interpolate.py", "benchmark/shallow_water.py", "command/plot.py"],
  [("failure isolation", "command/error_evolution.py GenerateShallowWaterErrorEvolutionSeries.execute"),
   ("error calculation", "command/error_evolution.py ErrorEvolutionCalculator"),
   ("reinitialisation", "finite_volume/solver.py")],
  None, ["times, errors, printed warnings, saved plots"])

p("C20", "Plots show exactly what was computed, even when some solvers fail",
  "When one of several solvers fails while plotting, the others are solved and shown exactly as without it, the failing one with its last accepted state and a warning naming the time reached. The saved result files contain for each curve, also for curves with equal labels, exactly the plotted grid and values, and every curve lies completely within its axes; the files can be read back, a failed write is reported as an error, and plots made earlier or later in the process are not mixed in.",
  ["fault_sequences", "histories", "crash_points"],
  "For every set of solvers, failure pattern, sequence of plots in one process and every write fault while saving.",
  "No test covers the plot command.",
  ["command/plot.py", "command/calculate.py"],
  [("exception isolation per solver", "command/plot.py Plot._calculate_solutions"),
   ("result pickles", "command/plot.py ScalarPlotter._save_results, ShallowWaterPlotter._save_result"),
   ("closing of hidden figures", "command/plot.py Plotter._show_plots")],
  None, ["saved pickle files, open figures, printed warnings"])

p("C21", "Random benchmarks are a function of their seed alone",
  "A random benchmark and every sequence of random benchmarks is determined by the given seed and parameters: the same in every process and hash seed, independent of global random state, of other generators and of the order in which they are interleaved. Requesting, using or failing on benchmarks does not disturb global random state, and a benchmark recreated from its reported seed is identical.",
  ["schedules", "histories", "inputs"],
  "For every seed, parameter override, interleaving of several generators and prior use or reseeding of the global random number generators.",
  "Tests check single parameter overrides; the only seed test is not deterministic at the pinned commit.",
  ["benchmark/shallow_water.py", "command/generate_data.py", "command/error_evolution.py"],
  [("own generator per benchmark and per sequence", "benchmark/shallow_water.py RandomOscillationNoTopographyBenchmark, RandomBenchmarkGenerator")],
  None, ["benchmark attributes and initial data"])

p("C23", "Command lines are parsed into exactly the requested run",
  "'calculate', 'plot', 'animate' and 'plot-error-evolution' solve exactly the solvers of their command line, each once and in order, with exactly the given options (name, short name, mesh size, CFL number, integrator, flux, antidiffusion parameter, coarsening degree, exact flux, adaptivity) and documented defaults for the others, on the chosen benchmark up to the given end time: every one computes bit for bit what a directly constructed solver computes, and records its history where the command needs it. Options may come in any order, in short or long form, and values may be any words, also keys of solvers. Options never leak from one solver to another one or from one command line to a later one in the process, whatever happened to earlier ones. A command line with a mistake (unknown command, problem, benchmark, solver, flux, integrator or option, unusable number, missing value, wrong number of solvers) is refused before anything is solved, saved or shown. If a solve fails, the command ends with that error and the remaining solvers are not solved, except that plots and animations go on with them. Pictures, films and data go to the named files only, in the requested resolution, and are shown unless they are to be hidden.",
  ["histories", "fault_sequences", "inputs", "configurations"],
  "For every sequence of command lines in a process, with and without mistakes, and every evaluation at which a solve fails or is interrupted.",
  "Tests do not cover the parsers or the script; the parsers are shared by all command lines of a process.",
  ["core/solver.py", "command/calculate.py", "command/plot.py", "command/animate.py", "command/error_evolution.py", "parser.py", "cls1", "finite_volume/solver.py", "finite_element/solver.py"],
  [("solver argument splitting", "core/solver.py SolverAction"),
   ("options and their defaults", "core/solver.py SolverParser and the parsers beside each solver"),
   ("benchmarks and end time", "command/calculate.py CalculateParser"),
   ("file names", "command/plot.py PlotParser, command/animate.py AnimateParser")],
  None, ["the solvers at Solver.solve, files, shown figures, exit of the script"])

p("C25", "Animations show the recorded histories, frame by frame",
  "Each frame of an animation shows, for each solver, its recorded history at the frame's time (linearly interpolated, the last accepted state after its end), together with the requested exact and initial data at that time. Every curve of every frame lies completely within its axes. There is one frame for each recorded time of any solver from the start time on (and for each requested time step if exact or initial data are shown), in increasing order and labelled with its time. The film lasts the requested duration. A failing solver is shown up to its last accepted state and changes nothing of the others. A failing writer or disk is reported and then nothing is shown. No figure is left open (not even by an interrupt), and animations and plots made one after another in a process never mix.",
  ["fault_sequences", "histories", "configurations"],
  "For every set of solvers with different recorded times, mesh sizes and failure points, every start time, duration and number of time steps, every failure of the movie writer or disk, and every sequence of animations and plots in a process.",
  "No test animates; the frames of several solvers with different time steps, failing solves and failing writers are never looked at.",
  ["command/animate.py", "command/plot.py", "core/discrete_solution.py", "core/interpolate.py"],
  [("union of the recorded times, interpolation of each history", "command/animate.py ScalarAnimator, ShallowWaterAnimator"),
   ("failing solvers do not stop the animation", "command/plot.py, command/animate.py Animate.execute"),
   ("saving, showing and closing", "command/animate.py")],
  [("frames", "what each frame draws", "command/animate.py")],
  ["the lines and texts of each frame written or shown, open figures, how the command ends"])

p("C26", "Convergence tables state the true errors of every solver",
  "In a convergence study the row of refinement i of a solver states the degrees of freedom and the L1, L2 and maximum error of exactly that solver, solved alone on 2^i times the initial number of cells, against the benchmark's exact solution at the end time (midpoint rule for finite volumes, Gauss rule with one node more than the degree for finite elements, ten points per cell for the maximum), and the order is the binary logarithm of the ratio of successive errors. Other solvers in the table, earlier studies and failures never change a number. If a solve, the exact solution or its evaluation fails, this is reported and no table of unfinished results is printed; a study of no solver ends with a warning.",
  ["fault_sequences", "histories", "configurations", "inputs"],
  "For every set of solvers, degrees, initial meshes and refinements, every point at which a solve or an evaluation of the exact solution fails, and every sequence of studies in a process.",
  "No test runs a convergence study; failures in the middle of one and studies after a failed one are never exercised.",
  ["command/error.py", "core/norm.py", "core/quadrature.py", "core/function.py", "finite_element/space.py", "finite_volume/space.py"],
  [("refinement loop", "command/error.py CalculateEOCParser._build_eoc_solutions"),
   ("errors and orders", "command/error.py EOCCalculator, ErrorCalculator"),
   ("all tables computed before the first is printed", "command/error.py CalculateEOC._print_eocs")],
  None, ["the printed tables and messages"])

p("C27", "Solutions do not depend on orientation, units or origins",
  "A problem seen in another frame has the same solution seen in that frame, after every time step and up to rounding: (a) mirrored in space (shallow water with boundaries exchanged and discharge negated, Burgers with the sign of u changed), (b) in other units of length and time with one gravitational acceleration (shallow water: lengths by a factor 4^k and times by 2^k; scalar problems: any powers of two which keep the equation), with the step size parameter rescaled accordingly, (c) with other origins of space and time, (d) for linear advection with the data negated, raised by a constant or scaled. No limiter, threshold, flux or boundary condition prefers a direction, a unit or a place. Not claimed: networks (trained in one frame), other units for the first order energy stable diffusion and the Lax-Wendroff flux (their constants carry units), mirroring of the limited shallow water scheme where bottom steps exceed twice the depth.",
  ["histories", "fault_sequences", "configurations", "inputs"],
  "For every solver, flux, integrator, polynomial degree, boundary condition, bathymetry, state and step size, and whatever failures and earlier solves one of the two solvers has behind itself.",
  "Tests compare single evaluations with stored numbers in one frame; a symmetric error (one side's limiter, an absolute threshold) agrees with stored numbers.",
  ["finite_volume/shallow_water/solver/mcl.py", "finite_volume/shallow_water/solver/low_order.py", "finite_volume/shallow_water/solver/lax_friedrichs.py", "finite_volume/shallow_water/core.py", "finite_volume/shallow_water/boundary.py", "finite_volume/scalar/solver/mcl.py", "finite_volume/scalar/core.py", "core/boundary.py", "finite_element/scalar/solver/mcl.py", "finite_element/scalar/solver/cg.py", "core/time_stepping.py"],
  [("limiting of heights and velocities", "finite_volume/shallow_water/solver/mcl.py MCLFlux"),
   ("bar states and wave speeds", "finite_volume/shallow_water/solver/low_order.py LowOrderFlux, core/riemann_solver.py"),
   ("boundaries", "core/boundary.py"), ("step sizes", "core/time_stepping.py, finite_volume/*/wave_speed")],
  None, ["the accepted states of both solvers"])

p("C28", "Every solver computes the scheme that defines it",
  "In every run - also next to other solvers and after failed, repeated or reinitialised solves - each time derivative a solver computes equals, up to rounding, the definition of its scheme with the benchmark's flux, gravity, topography and boundary data of that time. Finite volumes: Lax-Friedrichs, central, flux at the mean state ('es', for 'es1' minus half of the dissipation R|L|R^T applied to the jump of the entropy variables), linear antidiffusion gamma (right - left) / dx added to the inner flux, 'low-order' and 'mcl' with the bar states, bounds and limits of Hajduk and Kuzmin, scalar 'mcl-fv' with bounds by the neighbouring cells; bottom sources g/2 (mean height) (bottom step) on both sides of each node; copied, reflected, periodic or inflow ghost cells; reduced solvers: inner flux plus the loaded network's prediction from the four nearest states (over topography too); Lax-Wendroff over flat bottoms as implemented. Finite elements: exactly integrated mass and gradient matrices, lumped mass, Rusanov diffusion max(|c_ij|, |c_ji|) (Burgers: times the values), the documented limited fluxes, group or exact fluxes. Solves start from two-point cell averages or nodal values of the initial data and take steps of CFL number (default 0.1) times cell size (low order and limited elements: times the largest admissible step) of the chosen integrator (default Heun's; 'cg': of order 2, 3 and 8 for degrees 1, 2 and more). Not claimed: Lax-Wendroff over topography, dry states.",
  ["histories", "fault_sequences", "configurations", "inputs"],
  "For every state, mesh, polynomial degree, boundary condition, topography, gravity, inner flux and parameter, at every stage of every run and after any prior activity.",
  "Tests compare few evaluations on meshes of four cells, mostly flat, periodic and of degree one, with stored numbers; most combinations of solver, inner flux, boundary, topography and degree are never evaluated.",
  ["finite_volume/numerical_flux.py", "finite_volume/scalar/core.py", "finite_volume/scalar/solver/mcl.py", "finite_volume/shallow_water/core.py", "finite_volume/shallow_water/numerical_flux.py", "finite_volume/shallow_water/boundary.py", "finite_volume/shallow_water/solver/low_order.py", "finite_volume/shallow_water/solver/mcl.py", "finite_volume/shallow_water/solver/energy_stable.py", "finite_volume/shallow_water/solver/antidiffusion.py", "finite_volume/shallow_water/solver/coarse.py", "finite_element/mass.py", "finite_element/discrete_gradient.py", "finite_element/artificial_diffusion.py", "finite_element/flux_gradient.py", "finite_element/scalar/solver/cg_low.py", "finite_element/scalar/solver/mcl.py", "core/boundary.py", "core/riemann_solver.py", "core/interpolate.py"],
  [("fluxes at nodes", "finite_volume/numerical_flux.py, finite_volume/shallow_water/numerical_flux.py"),
   ("limiting", "finite_volume/shallow_water/solver/mcl.py, finite_volume/scalar/solver/mcl.py, finite_element/scalar/solver/mcl.py"),
   ("finite element assembly", "finite_element/system.py, finite_element/mass.py, finite_element/discrete_gradient.py"),
   ("initial data and bathymetry", "core/interpolate.py, finite_volume/space.py")],
  None, ["every evaluation of a right-hand side with its time and state", "initial states and accepted steps"])

p("C29", "Stored training data is filtered and analysed exactly and never damaged",
  "In every history of commands, failures and deaths of processes: delete-curvature writes exactly the completely written rows of its source whose curvatures in height and discharge - the means of |a - 2b + c| s / (s^2 + (a - c)^2 / 4)^(3/2) over the first and the last three of the four states, step length s = 2 by default - are both below their thresholds (0.25 and 0.5 by default), in their order, with the same columns and every number exactly as it was, and nothing else; whenever writing fails or the process dies, the target, which may be the source itself, is either as before or complete, and failures are reported. analyze-data prints the statistics of exactly the completely written rows of each given file in their order and, if asked, shows one figure per file with the histograms of all columns. analyze-curvature shows (and, if asked, saves) the curvatures against the subgrid fluxes of each row of both data sets in four figures. None of these commands changes other files or alters, closes or leaves behind other figures.",
  ["histories", "fault_sequences", "crash_points", "inputs"],
  "For every content of the files, torn last lines included, every threshold and step length, every sequence of these commands and of data generation, and every failing read or write and death of the process.",
  "No test covers these commands (they failed in every call at the pinned commit).",
  ["command/delete_curvature.py", "command/analyze_data.py", "command/analyze_curvature.py", "finite_volume/shallow_water/solver/reduced_model.py", "core/training_data.py"],
  [("reading and writing data files", "core/training_data.py load_data, save_data"),
   ("rows kept", "command/delete_curvature.py DeleteCurvature.execute, reduced_model.py Curvature"),
   ("figures of the analysis", "command/analyze_data.py, command/analyze_curvature.py")],
  None, ["the bytes of all files after every operation", "printed statistics", "figures shown and saved"])

p("C22", "Finite element assembly, quadrature and interpolation are exact",
  "Mass, gradient and flux matrices, quadrature rules, basis functions, coarsening, interpolation and norms equal their mathematical definitions up to rounding for every mesh and polynomial degree.",
  ["inputs", "configurations"],
  "For every mesh size, polynomial degree and quadrature degree.",
  "Tests sample a few degrees and mesh sizes.",
  ["finite_element/mass.py", "finite_element/discrete_gradient.py", "core/quadrature.py", "core/interpolate.py", "core/norm.py"],
  [("local to global assembly", "finite_element/system.py")])

p("C24", "Exact solutions solve their benchmark problems",
  "The exact solutions offered by the benchmarks satisfy the initial data and the conservation law up to the shock time.",
  ["inputs"],
  "For every position and time of every benchmark with an exact solution.",
  "Tests sample single points.",
  ["benchmark/advection.py", "benchmark/burgers.py", "benchmark/shallow_water.py"],
  [("characteristics and exact Riemann solution", "benchmark/*.py exact_solution")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
