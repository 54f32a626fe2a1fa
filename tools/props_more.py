prop("C06", "Boundary conditions fill ghost zones with the values the geometry requires",
     "For every coordinate system, resolution and set of evolved scalar, vector and tensor fields, after boundary conditions are applied every inner ghost point holds the value of the physical point it maps to, with the sign of the component's parity under that map. Every outer ghost point is filled, innermost layer first, by the documented extrapolation, and the radiation condition sets the right-hand side from the outgoing-wave formula using stencils that stay on the grid. Interior points never change and the result does not depend on thread count.",
     ["inputs", "configurations", "schedules"], "all coordinate systems, resolutions, ghost widths, fields, radiation orders, thread counts",
     "Tests compare the text of one coordinate system's boundary functions; the maps, parities and fills are never executed.",
     ["nrpy/infrastructures/BHaH/CurviBoundaryConditions/CurviBoundaryConditions.py", "nrpy/reference_metric.py", "nrpy/grid.py"],
     [("boundary maps, parities, extrapolation and radiation", "nrpy/infrastructures/BHaH/CurviBoundaryConditions/CurviBoundaryConditions.py")],
     "state oracle over sanitizer-built generated boundary code: smooth global fields and index maps from textbook coordinates",
     "generated grid + boundary projects for all coordinate systems run under ASan/UBSan at several thread counts; every ghost value compared with an independently computed map, parity, extrapolation and Sommerfeld value")
prop("C08", "Generated grids, coordinate maps, time step and metric tables match the geometry",
     "For every coordinate system, resolution, physical size, convergence factor and number of grids, the generated set-up produces cell-centred coordinates spanning the documented ranges, a time step equal to the CFL factor times the smallest proper grid spacing over all grids, and Cartesian maps that agree with the definition of the coordinates and invert each other, with the correct nearest index. Reference-metric quantities read from the precomputed tables, with or without SIMD, equal the directly evaluated ones and the geometry at every grid point.",
     ["inputs", "configurations"], "20 coordinate systems, 1-3 grids, resolutions, sizes, shape parameters, convergence factors, grid origins, thread counts",
     "Tests compare the text generated for one or two systems; neither the maps nor the tables are evaluated.",
     ["nrpy/infrastructures/BHaH/numerical_grids_and_timestep.py", "nrpy/infrastructures/BHaH/xx_tofrom_Cart.py", "nrpy/infrastructures/BHaH/rfm_precompute.py", "nrpy/rfm_precompute.py", "nrpy/infrastructures/BHaH/rfm_wrapper_functions.py"],
     [("grid and time-step set-up", "nrpy/infrastructures/BHaH/numerical_grids_and_timestep.py"), ("coordinate maps", "nrpy/infrastructures/BHaH/xx_tofrom_Cart.py"), ("lookup tables", "nrpy/infrastructures/BHaH/rfm_precompute.py")],
     "state oracle over sanitizer-built generated set-up code vs. textbook coordinate maps",
     "generated single- and multi-grid projects run under ASan/UBSan; coordinates, dt, maps, nearest indices and table-driven geometry compared with closed-form and complex-step references")
prop("C09", "Parameters take exactly the values given by defaults, parfile and command line",
     "For every set of registered parameters of any supported type, the generated program sees each parameter's registered default unless the parameter file sets it, and the command-line value if it is among the command-line inputs, everywhere the value is visible (structs and all parameter headers, SIMD included). Parsing the generated default parameter file reproduces the defaults. A malformed file, value or command line is rejected with a message, never silently altered, and no input causes a memory error.",
     ["inputs", "configurations"], "all parameter sets and types, all parameter files and command lines, valid or hostile",
     "Tests compare the text of one default parameter file; the generated parser is never compiled with unusual parameter sets nor fed any file.",
     ["nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py", "nrpy/infrastructures/BHaH/CodeParameters.py", "nrpy/infrastructures/BHaH/BHaH_defines_h.py", "nrpy/params.py"],
     [("parser and default parfile", "nrpy/infrastructures/BHaH/cmdline_input_and_parfiles.py"), ("defaults and parameter headers", "nrpy/infrastructures/BHaH/CodeParameters.py")],
     "model-based oracle over sanitizer-built generated parsers, with valid, malformed and hostile inputs",
     "random parameter sets are generated, built with ASan/UBSan and run on thousands of parameter files and command lines; every visible value is compared bit for bit with a model")
prop("C11", "Parallel code generation produces the same project as serial generation",
     "For every set of code-generation tasks registered for parallel execution, whatever their number, duration and completion order, running them in worker processes registers exactly the same functions, parameters, grid functions, headers and grid-data members as running them one after the other in the calling process. A task that fails makes the whole generation fail with its error, never yielding a project that silently lacks its output.",
     ["schedules", "inputs", "fault_sequences"], "all task sets, worker completion orders, failing tasks; the shipped example generators",
     "Tests run each example once with the default worker pool and never compare with serial generation; the registries' merge order and failure paths are never observed.",
     ["nrpy/helpers/parallel_codegen.py", "nrpy/c_function.py", "nrpy/params.py", "nrpy/grid.py", "nrpy/infrastructures/BHaH/griddata_commondata.py"],
     [("worker dispatch and environment merge", "nrpy/helpers/parallel_codegen.py"), ("registries", "nrpy/c_function.py")],
     "registry-snapshot differential monitor over perturbed worker schedules (injected delays and task failures)",
     "synthetic task sets with random delays, nesting and failures plus real example generators, run in parallel and serially; complete registry snapshots and generated project trees compared")
prop("C12", "The on-disk cache never changes a result, whatever happened to it before",
     "Code generation gives the same results with an empty, warm or shared cache directory as with no cache at all. A value read back from the cache equals the value stored under that exact key by a completed write, whatever crash, full disk or I/O error interrupted an earlier write and however many processes use the cache at once; an interrupted write never makes a later run fail or return partial data. Simplification and source formatting return, from the cache, what they would compute without it for that input and those options.",
     ["crash_points", "fault_sequences", "schedules", "histories"], "all keys, values, crash points in a write, disk-full points, numbers of concurrent readers and writers, expression assumptions and formatting options",
     "Tests write and read one key in one process; no interrupted write, concurrent user, colliding key or stale entry is ever exercised.",
     ["nrpy/helpers/cached_functions.py", "nrpy/helpers/generic.py"],
     [("cache reads and writes, cached simplification", "nrpy/helpers/cached_functions.py"), ("cached formatting", "nrpy/helpers/generic.py")],
     "crash- and fault-injection monitor plus concurrent-history checker on the real cache",
     "every file-system event of a cache write is used as a crash point or fails with an error, file-size limits truncate writes, processes hammer the same keys; every value read is checked against the set of completed writes and against uncached computation")
prop("C07", "Reference-metric quantities and basis transforms are the coordinates' geometry",
     "For every supported coordinate system, at every point of its domain and for every value of its shape parameters, each symbolic quantity the reference metric offers - the maps between native, spherical and Cartesian coordinates and their Jacobians, orthonormal unit vectors, scale factors, metric, inverse, determinant, connection, the rescaling vectors and tensors and all their derivatives, and the precomputed variant - equals the corresponding quantity of flat space in the documented coordinates. Basis changes of vectors and tensors to and from Cartesian or spherical follow the tensor transformation law and undo one another.",
     ["inputs", "configurations"], "22 coordinate systems, all points and shape parameters, scalar/vector/rank-2 fields of any variance, with and without precomputation",
     "Tests compare each expression with a stored value at one pseudo-random point, produced by the same code; no oracle relates the quantities to geometry or to one another.",
     ["nrpy/reference_metric.py", "nrpy/rfm_precompute.py", "nrpy/helpers/jacobians.py"],
     [("reference metric and precomputation", "nrpy/reference_metric.py"), ("basis transforms", "nrpy/helpers/jacobians.py")],
     "high-precision state oracle: textbook coordinate maps differentiated independently (Taylor jets), compared with every attribute of the real objects",
     "the real reference_metric objects are built for all systems and every attribute evaluated at random and near-axis points with random parameters to 50 digits, against jets of the documented maps; transforms of random tensors checked against the tensor law and round trips")
prop("C13", "The project on disk is exactly what was registered, whatever was there before",
     "Whatever files an earlier, different or interrupted generation left in a project directory, regenerating it leaves exactly the registered functions, headers, parameters and build rules there. The project builds and runs as registered with the requested compiler and flags, in any directory and with any registered options, and generating it leaves the caller's own data unchanged. A file whose content does not change is not touched; one whose generation fails or is cut short is never left half-written as if current. Coordinate wrappers call the function of the grid's own coordinate system.",
     ["inputs", "histories", "crash_points", "configurations"], "all project contents, earlier contents, interruption points, directories, compilers, options, library prefixes, ET thorns",
     "Tests generate each example once into an empty directory with default options; regeneration over older content, interruption, failure and option combinations are never exercised.",
     ["nrpy/helpers/conditional_file_updater.py", "nrpy/infrastructures/BHaH/Makefile_helpers.py", "nrpy/infrastructures/BHaH/BHaH_defines_h.py", "nrpy/infrastructures/BHaH/rfm_wrapper_functions.py", "nrpy/c_function.py", "nrpy/infrastructures/ETLegacy/make_code_defn.py"],
     [("conditional file updates", "nrpy/helpers/conditional_file_updater.py"), ("build rules", "nrpy/infrastructures/BHaH/Makefile_helpers.py"), ("coordinate wrappers", "nrpy/infrastructures/BHaH/rfm_wrapper_functions.py")],
     "history-based monitor: random sequences of generate / modify / fail / kill / build / run over real directories, checked against a model",
     "random histories of file updates with failures, kills and size limits; random projects regenerated over mutated or interrupted ones, built and run; wrappers, libraries, compiler choice, thorn files and caller-owned lists all checked against a model")
prop("C10", "A run restarted from a checkpoint continues exactly as if it had never stopped",
     "For every generated evolution program with checkpointing, whatever its coordinates, grid sizes, number of grids, time stepper and checkpoint interval: a run that is killed at any instant, or meets a full disk or I/O error while writing a checkpoint, and is then started again, goes through bit-for-bit the same states as an uninterrupted run. The newest completed checkpoint is never lost to a failed or interrupted later one. A checkpoint that is incomplete or belongs to another grid is refused with a message, never continued from silently, and restarting neither leaks nor corrupts memory.",
     ["crash_points", "fault_sequences", "histories", "configurations"], "all kill points, failing system calls, file-size limits, restart histories, unusable checkpoint files, thread counts, convergence factors",
     "Tests only generate and compile programs; none is ever run, killed or restarted.",
     ["nrpy/infrastructures/BHaH/checkpointing.py", "nrpy/infrastructures/BHaH/main_c.py", "nrpy/infrastructures/BHaH/MoLtimestepping"],
     [("checkpoint writing and reading", "nrpy/infrastructures/BHaH/checkpointing.py"), ("restart in main()", "nrpy/infrastructures/BHaH/main_c.py")],
     "crash- and fault-injection histories over sanitizer-built generated programs, with a state-hash trace checker",
     "generated wave-equation programs log a hash of the state at every step and checkpoint; histories of kills, injected syscall failures and restarts are checked against the uninterrupted trajectory")
prop("C14", "Declared tensors and grid functions have exactly the stated components",
     "For every rank, dimension, symmetry and name, declaring or zeroing an indexed expression gives components with exactly the declared symmetries and otherwise distinct, and registering grid functions registers exactly the independent components once each, in the same order in every process, with the given group, boundary data and the parity types of their tensor indices. Symbolic inverses and determinants are exact inverses. Derivatives vanish across symmetry axes and nothing else does. Contradictory or colliding registrations are refused, never silently merged or dropped.",
     ["inputs", "configurations"], "all ranks 0-4, dimensions, symmetry specifications, base names, groups, infrastructures, hash seeds, registration orders",
     "Tests check a handful of names and one symmetric example per rank; no general symmetry, inverse, collision or ordering statement is checked.",
     ["nrpy/indexedexp.py", "nrpy/grid.py"],
     [("indexed expressions", "nrpy/indexedexp.py"), ("grid function registry", "nrpy/grid.py")],
     "model-based monitor of the real declare/register calls, with exact-arithmetic inverse checks and cross-process order comparison",
     "random declarations of every rank and symmetry compared component by component with a group-orbit model; inverses multiplied back in exact rationals; registrations compared with a model of components, groups and parities, in processes with different hash seeds")
prop("C15", "The relativity expressions are Einstein's equations in the stated variables",
     "For every spacetime, gauge, coordinate system, choice of evolved conformal factor and precomputation option, the BSSN right-hand sides, constraints, gauge conditions, stress-energy projections, ADM/BSSN/four-metric conversions, Weyl scalar and tetrads equal the geometric quantities they name: evolving a metric whose stress-energy is its Einstein tensor reproduces that metric's time derivatives, the constraints vanish on it and otherwise measure exactly the mismatch, conversions undo one another, and the shipped initial data satisfy the constraints.",
     ["inputs", "configurations"], "arbitrary second-order jets of four-metrics, 18 coordinate systems, all conformal factors, lapse and shift conditions, with and without precomputed or stored Ricci terms",
     "Tests compare each expression with a stored value at one pseudo-random point, produced by the same code with the default conformal factor; nothing relates the expressions to a spacetime.",
     ["nrpy/equations/general_relativity/BSSN_RHSs.py", "nrpy/equations/general_relativity/BSSN_quantities.py", "nrpy/equations/general_relativity/BSSN_constraints.py", "nrpy/equations/general_relativity/BSSN_gauge_RHSs.py", "nrpy/equations/general_relativity/T4munu.py", "nrpy/equations/general_relativity/ADM_to_BSSN.py", "nrpy/equations/general_relativity/BSSN_to_ADM.py", "nrpy/equations/general_relativity/psi4.py"],
     [("evolution equations", "nrpy/equations/general_relativity/BSSN_RHSs.py"), ("state variables", "nrpy/equations/general_relativity/BSSN_quantities.py"), ("constraints", "nrpy/equations/general_relativity/BSSN_constraints.py")],
     "spacetime-jet oracle: the real expression objects evaluated on arbitrary spacetimes and compared with the geometry of those spacetimes",
     "random four-metrics to second order give connection, curvature, extrinsic curvature and stress-energy = G/8pi; every expression object is evaluated there to 30+ digits and compared, over all systems and options, psi4 and tetrads on vacuum jets, initial data against the constraints")
prop("C19", "Matter, wave, elliptic, horizon, boost and harmonics modules mean what they say",
     "For every input, coordinate system and option: the hydrodynamics expressions are the stress-energy tensor, its conserved densities, fluxes and sources in balance-law form; characteristic speeds are the sound cone's and HLL fluxes the HLL solution; wave and relaxation right-hand sides are the flat Laplacian; shipped exact solutions satisfy their equation, at the centre too; puncture data are Bowen-York's; the TOV system is Einstein's; the expansion is that of the surface; boosts, rotations and spin-weighted harmonics, symbolic or generated C, are the group actions and functions of that name.",
     ["inputs", "configurations"], "arbitrary spacetimes and fluid states, 18 coordinate systems, all conformal factors, states on faces, boosts incl. zero velocity, rotation axes, modes (s,l,m)",
     "Tests compare each expression with a stored value at one pseudo-random point produced by the same code; nothing relates the expressions to the mathematics they name.",
     ["nrpy/equations/grhd/GRHD_equations.py", "nrpy/equations/grhd/HLL_fluxes.py", "nrpy/equations/grhd/characteristic_speeds.py", "nrpy/equations/wave_equation/WaveEquationCurvilinear_RHSs.py", "nrpy/equations/nrpyelliptic/ConformallyFlat_RHSs.py", "nrpy/equations/general_relativity/bhahaha/ExpansionFunctionTheta.py", "nrpy/equations/general_relativity/LorentzBoost.py", "nrpy/equations/quaternion_rotations/tensor_rotation.py", "nrpy/equations/special_functions/spin_weighted_spherical_harmonics.py", "nrpy/equations/tov/TOV_equations.py"],
     [("hydrodynamics", "nrpy/equations/grhd/GRHD_equations.py"), ("wave operators", "nrpy/equations/wave_equation/WaveEquationCurvilinear_RHSs.py"), ("harmonics", "nrpy/equations/special_functions/spin_weighted_spherical_harmonics.py")],
     "manufactured-state oracle: real expression objects and generated C evaluated on random spacetimes, fluids and group elements against textbook definitions",
     "random fluid and metric jets check the divergence identities term by term; Riemann states, boosts with exact rational Lorentz factors, rotations, harmonic modes, puncture data, surfaces and solutions are compared with independent formulas to 15 digits or exactly")

prop("C16", "Generated wave programs solve the wave equation, cleanly and reproducibly",
     "Every generated scalar-wave program - any coordinate systems and grids, time integrator, finite-difference order, vectorised or not, with or without reference-metric precomputation and dissipation, any boundary condition, initial data and wave speed - builds, runs from t=0 through t_final in steps of dt without touching memory it does not own, leaking or undefined behaviour, goes through the same states for every number of threads and as its unvectorised twin, and its fields converge to the exact solution as the grid is refined.",
     ["inputs", "configurations", "schedules"], "21 coordinate systems on one or more grids, 13 integrators, orders 2-6, SIMD, precomputation, dissipation, boundary conditions, wave speeds, thread counts, resolutions",
     "Tests only generate and compile a few default programs; nothing is ever run.",
     ["nrpy/infrastructures/BHaH/main_c.py", "nrpy/infrastructures/BHaH/numerical_grids_and_timestep.py", "nrpy/infrastructures/BHaH/wave_equation/rhs_eval.py", "nrpy/infrastructures/BHaH/MoLtimestepping/MoL_register_all.py", "nrpy/infrastructures/BHaH/rfm_precompute.py", "nrpy/infrastructures/BHaH/diagnostics/progress_indicator.py"],
     [("main loop", "nrpy/infrastructures/BHaH/main_c.py"), ("right-hand sides", "nrpy/infrastructures/BHaH/wave_equation/rhs_eval.py")],
     "sanitized end-to-end runs with linked-in state monitors; convergence and thread-count oracles",
     "random wave programs generated by the real generators, built with ASan/UBSan/LSan and run to the end with several thread counts; state hashes around every step compared, final fields compared with the exact solution at two resolutions and with the unvectorised program")
prop("C20", "Diagnostic output holds the fields at the points and times it claims",
     "For every coordinate system, grid size, set of output quantities and thread count, each 0D, 1D and 2D output file holds exactly one row for each grid line next to the grid centre, axis or plane it is named after, taken from the grid point nearest to it, ordered along axes, with that point's own Cartesian coordinates and that point's field values in the registered columns. A running program writes at exactly the iterations closest to the multiples of the output interval, stamped with and holding the state of that time; a new run replaces older files, later outputs append; progress output never disturbs the run.",
     ["inputs", "configurations", "histories"], "22 coordinate systems, even and odd grid sizes, one or more grids, output quantities, output intervals, time steps, progress intervals, thread counts",
     "Tests compare generated text for a few systems; no output program is ever run, so which point, value or time ends up in a file is not checked.",
     ["nrpy/infrastructures/BHaH/diagnostics/output_0d_1d_2d_nearest_gridpoint_slices.py", "nrpy/infrastructures/BHaH/diagnostics/progress_indicator.py", "nrpy/infrastructures/BHaH/wave_equation/diagnostics.py"],
     [("slice output", "nrpy/infrastructures/BHaH/diagnostics/output_0d_1d_2d_nearest_gridpoint_slices.py"), ("output schedule", "nrpy/infrastructures/BHaH/wave_equation/diagnostics.py")],
     "trace monitor: outputs of real programs on identifying fields, each row traced back to its grid point and time",
     "output functions of all systems run under sanitizers on fields whose value names field, point and call; every row traced to a point and judged against the textbook map; in complete programs the monitor logs (iteration, time, state) at every diagnostics call and the files must match")

prop("C17", "Generated BSSN kernels compute the BSSN quantities of the grid's fields",
     "For every coordinate system, finite-difference order, gauge condition, conformal factor and combination of options (vectorisation, reference-metric precomputation, stored Ricci tensor, matter, FD functions, Kreiss-Oliger dissipation with or without curvature-aware strength, Hamiltonian-constraint damping, slow-start lapse), the generated right-hand-side, Ricci, constraint, determinant-enforcement, psi4 and psi4-mode functions compile and set every point of their region to the value of the named expressions of the fields there, with derivatives at the requested order, upwinded along the shift, plus exactly the requested dissipation and damping terms; independently of thread count and without memory errors.",
     ["inputs", "configurations", "schedules"], "15 coordinate systems, orders 2-6, 3 lapse and 6 shift conditions, 3 conformal factors, all option combinations, arbitrary smooth fields, extraction radii",
     "Tests compare the symbolic right-hand sides at one random point for one system; the generated kernels are compiled in a few examples but never run.",
     ["nrpy/infrastructures/BHaH/general_relativity/BSSN_C_codegen_library.py", "nrpy/infrastructures/BHaH/general_relativity/psi4_C_codegen_library.py", "nrpy/c_codegen.py", "nrpy/finite_difference.py"],
     [("BSSN kernels", "nrpy/infrastructures/BHaH/general_relativity/BSSN_C_codegen_library.py"), ("psi4 kernels", "nrpy/infrastructures/BHaH/general_relativity/psi4_C_codegen_library.py")],
     "sanitized runs of the real kernels on random fields, outputs judged pointwise against high-precision evaluation with exact stencils",
     "random option combinations generated, built with ASan/UBSan and run with 1 and 3 threads on random smooth fields; sampled points compared with 30-digit evaluation on Lagrange-weight finite differences plus independently coded dissipation, damping and slow-start terms; mode sums of synthetic psi4")

prop("C22", "Initial data end up on the grid as the BSSN variables of the given spacetime",
     "For every initial-data function giving ADM quantities (and optionally stress-energy) in a Cartesian or spherical basis, every destination coordinate system, conformal factor, finite-difference order, grid size, grid origin and thread count, the generated initial_data() fills every point, interior and inner boundary alike, with the rescaled BSSN variables of exactly that spacetime at that point's Cartesian position: determinant-normalised conformal metric, traceless curvature, trace, conformal factor, lapse, shift, driver and stress-energy components, and lambda^i differentiated from the conformal metric at the requested order. The shipped black-hole data are the published solutions. No memory error, no dependence on thread count.",
     ["inputs", "configurations", "schedules"], "arbitrary smooth ADM tensor fields in two bases, 11 coordinate systems, offset grids, 3 conformal factors, orders 2-6, with and without matter, four shipped black-hole families",
     "Tests only compare symbolic expressions at a random point or compile one configuration; initial_data() is never run.",
     ["nrpy/infrastructures/BHaH/general_relativity/ADM_Initial_Data_Reader__BSSN_Converter.py", "nrpy/infrastructures/BHaH/general_relativity/initial_data.py", "nrpy/equations/general_relativity/InitialData_Cartesian.py", "nrpy/equations/general_relativity/InitialData_Spherical.py", "nrpy/equations/basis_transforms/jacobians.py"],
     [("reader and converter", "nrpy/infrastructures/BHaH/general_relativity/ADM_Initial_Data_Reader__BSSN_Converter.py"), ("shipped data", "nrpy/equations/general_relativity/InitialData_Spherical.py")],
     "sanitized runs of the real initial_data() on random smooth spacetimes, every grid point judged against independent tensor algebra",
     "a C function of the check supplies random smooth ADM fields, or a shipped solution is used; every variable at interior and inner-ghost points is compared with textbook definitions through independent coordinate maps, lambda by exact stencils; 1 and 3 threads")

prop("C21", "Einstein Toolkit thorns are consistent and compute what they are scheduled for",
     "For every generated ETLegacy or CarpetX BSSN thorn (finite-difference orders, gauges, conformal factor, matter, vectorisation, dissipation and damping options), interface, param and schedule files declare exactly the variables, parameters and flesh functions the sources use; every function is scheduled once, where and in the order its data require, and touches only the variables and regions its schedule entry declares. The built functions convert ADM to BSSN variables and back, evaluate right-hand sides, Ricci tensor, constraints and stress-energy, floor the lapse and enforce the determinant as the equations say at every point, for any thread count, and register symmetries, boundary conditions and evolved groups with the right data.",
     ["inputs", "configurations", "schedules"], "both infrastructures, orders 2-8, gauges, 3 conformal factors, matter, SIMD, KO/CAKO/CAHD/SSL options, arbitrary smooth fields",
     "Tests compare expressions and a few strings; no thorn is built or run, as no Einstein Toolkit is available to them.",
     ["nrpy/infrastructures/ETLegacy/general_relativity/rhs_eval.py", "nrpy/infrastructures/CarpetX/general_relativity/rhs_eval.py", "nrpy/infrastructures/ETLegacy/schedule_ccl.py", "nrpy/infrastructures/ETLegacy/interface_ccl.py", "nrpy/infrastructures/ETLegacy/boundary_conditions.py", "nrpy/infrastructures/CarpetX/schedule_ccl.py", "nrpy/infrastructures/ETLegacy/simple_loop.py"],
     [("thorn kernels", "nrpy/infrastructures/ETLegacy/general_relativity/rhs_eval.py"), ("CCL files", "nrpy/infrastructures/ETLegacy/schedule_ccl.py"), ("boundary registration", "nrpy/infrastructures/ETLegacy/boundary_conditions.py")],
     "sanitized runs of generated thorns inside a miniature Cactus that enforces declared accesses and records flesh calls",
     "random thorns generated, CCL files parsed and cross-checked, sources built with ASan/UBSan against a shim giving each function only its declared variables; poisoned regions, recorded calls, textbook conversions and high-precision kernels judged with 1 and 3 threads")

prop("C23", "EOB programs give consistent inspiral-merger-ringdown waveforms",
     "For every mass ratio, aligned spins, starting frequency, total mass and sampling step in the model's range, the generated SEOBNRv5/BOB program starts from the circular orbit of that frequency with the inward momentum of adiabatic inspiral, evolves it by Hamilton's equations of its own Hamiltonian with radiation reaction until the orbit ends, and records it faithfully. Its weak-field limit is post-Newtonian, its test-mass limit Kerr, its ringdown frequency and damping those of the Kerr remnant. The corrected mode matches amplitude, frequency and their derivatives at the attachment time, and the final signal is uniformly sampled at the requested step, continuous in amplitude and phase through attachment, and rings down by the BOB law without changing sense. No memory error, reproducible.",
     ["inputs", "configurations"], "mass ratios 1-10, spins up to 0.9, starting frequencies, total masses, sampling steps; phase-space points; weak-field and test-mass limits",
     "Tests compare symbolic expressions at one random point and compile the example; no waveform is ever computed.",
     ["nrpy/equations/seobnr/SEOBNRv5_aligned_spin_Hamiltonian.py", "nrpy/equations/seobnr/SEOBNRv5_aligned_spin_waveform_quantities.py", "nrpy/equations/seobnr/SEOBNRv5_aligned_spin_constants.py", "nrpy/equations/seobnr/BOB_aligned_spin_waveform_quantities.py", "nrpy/infrastructures/BHaH/seobnr/SEOBNR_C_dynamics_codegen_library.py", "nrpy/infrastructures/BHaH/seobnr/SEOBNR_C_initial_conditions_codegen_library.py", "nrpy/infrastructures/BHaH/seobnr/SEOBNR_BOB_C_waveform_codegen_library.py", "nrpy/infrastructures/BHaH/seobnr/SEOBNR_C_codegen_library.py", "nrpy/infrastructures/BHaH/seobnr/BOB_C_codegen_library.py"],
     [("dynamics", "nrpy/infrastructures/BHaH/seobnr/SEOBNR_C_dynamics_codegen_library.py"), ("initial conditions", "nrpy/infrastructures/BHaH/seobnr/SEOBNR_C_initial_conditions_codegen_library.py"), ("NQC and attachment", "nrpy/infrastructures/BHaH/seobnr/SEOBNR_BOB_C_waveform_codegen_library.py")],
     "sanitized runs of the generated program with every stage dumped and judged by independent integration, limits and matching conditions",
     "ASan/UBSan build of the full program with a probing driver; Hamilton's equations against numerical derivatives, PN and Kerr limits, exact Kerr quasinormal modes by continued fractions, RK4 re-integration between recorded rows, recomputed waveform samples, attachment and ringdown laws")

prop("C18", "Initial-data solvers return the binary or the star that was asked for",
     "For every mass ratio, separation, pair of spins, given or post-Newtonian momenta, given bare masses or requested puncture masses, resolution and thread count, the generated TwoPunctures solver returns data with the more massive hole at z=+sep*m, the other at z=-sep*M, each with its own mass, spin and momentum (Bowen-York curvature, orbit in the zx plane), a conformal factor solving the Hamiltonian constraint, flat at infinity, and matching total mass and angular momentum; momenta not given are the post-Newtonian quasicircular ones. For every polytrope and central density the TOVola data are the star in hydrostatic equilibrium matched to vacuum outside, at every point. No memory error.",
     ["inputs", "configurations", "schedules"], "mass ratios, separations, spin vectors, momenta, bare or target masses, spectral resolutions, thread counts; polytropic constants and indices, central densities, points in and out of the star",
     "The solvers are generated and compiled by the tests but never run.",
     ["nrpy/infrastructures/BHaH/general_relativity/NRPyPN_quasicircular_momenta.py", "nrpy/infrastructures/BHaH/general_relativity/TwoPunctures/ID_persist_struct.py", "nrpy/infrastructures/BHaH/general_relativity/TwoPunctures/TP_interp.py", "nrpy/infrastructures/BHaH/general_relativity/TwoPunctures/TP_solve.py", "nrpy/infrastructures/BHaH/general_relativity/TwoPunctures/Equations.py", "nrpy/infrastructures/BHaH/general_relativity/TOVola/TOVola_solve.py", "nrpy/infrastructures/BHaH/general_relativity/TOVola/TOVola_interp.py"],
     [("punctures", "nrpy/infrastructures/BHaH/general_relativity/TwoPunctures/TP_solve.py"), ("stars", "nrpy/infrastructures/BHaH/general_relativity/TOVola/TOVola_solve.py")],
     "sanitized and optimised runs of the real solvers on random binaries and stars, returned data judged by physical oracles",
     "closed-form Bowen-York curvature at the requested positions, constraint by finite differences of the returned conformal factor, asymptotic and puncture masses, post-Newtonian series, thread counts; stars against an independent enthalpy-based TOV integration")

prop("C24", "NRPyElliptic programs relax to the solution of the Hamiltonian constraint",
     "For every pair of punctures (bare masses, momenta, spins, separation), coordinate system, finite-difference order, vectorised or not, resolution and thread count, the generated NRPyElliptic program builds and runs without memory error or undefined behaviour: background conformal factor and source term are those of the punctures at every grid point, ghost points included; the wave speed follows the local grid spacing; right-hand sides and residual are the damped wave equation and the Hamiltonian constraint of the current field at the requested order; recorded norms are the volume-weighted L2 norms over the named region at the named iterations; the program stops exactly when the residual tolerance or the last iteration is reached; and the relaxed solution satisfies the constraint.",
     ["inputs", "configurations", "histories"], "10 coordinate systems, orders 2-8, puncture parameters, damping, SIMD, tolerances, integration radii, iteration limits, thread counts, weak spinning punctures against perturbation theory",
     "Tests only generate and compile one example and compare expressions at one random point; the relaxation is never run.",
     ["nrpy/infrastructures/BHaH/nrpyelliptic/conformally_flat_C_codegen_library.py", "nrpy/equations/nrpyelliptic/ConformallyFlat_RHSs.py", "nrpy/equations/nrpyelliptic/ConformallyFlat_SourceTerms.py", "nrpy/infrastructures/BHaH/diagnostics/progress_indicator.py"],
     [("relaxation kernels", "nrpy/infrastructures/BHaH/nrpyelliptic/conformally_flat_C_codegen_library.py"), ("equations", "nrpy/equations/nrpyelliptic/ConformallyFlat_RHSs.py")],
     "sanitized end-to-end runs with linked-in monitors of the real kernels and of every diagnostics call",
     "random programs built with ASan/UBSan; kernels called on random fields and compared with this check's own Laplacian, closed-form punctures and volume elements; residual history, stopping rule, thread counts, and a weak puncture against the perturbative solution")

prop("C25", "superB programs agree with BHaH for every decomposition and message order",
     "For every coordinate system, finite-difference order, time integrator, outer boundary condition and division of the grid into chares (blocks at least as large as the ghost zone), and for every order in which the runtime may deliver messages (first-in first-out per pair of chares), the generated superB (Charm++) program runs to completion without deadlock, memory error or undefined behaviour and computes what the one-chare run and the corresponding BHaH program compute: the same evolved fields at every step, chares agreeing exactly on shared points, the same residual norms and stopping step, and 1D/2D output files with the same points, order and values, each byte written once. Message order changes nothing at all, and a run restarted from any checkpoint continues unchanged.",
     ["schedules", "crash points", "configurations", "inputs"], "wave-equation and NRPyElliptic programs, 8 coordinate systems, 15 integrators, extrapolation and radiation, decompositions up to 36 chares, 8 delivery policies with random seeds, restart at each checkpoint",
     "No test runs or even compiles a superB program: its interleavings, its restarts and its agreement with BHaH are unexamined.",
     ["nrpy/infrastructures/superB/timestepping_chare.py", "nrpy/infrastructures/superB/CurviBoundaryConditions.py", "nrpy/infrastructures/superB/MoL.py", "nrpy/infrastructures/superB/superB/superB_pup.py", "nrpy/infrastructures/superB/chare_communication_maps.py", "nrpy/infrastructures/superB/numerical_grids.py", "nrpy/infrastructures/superB/output_0d_1d_2d_nearest_gridpoint_slices.py", "nrpy/infrastructures/superB/main_chare.py", "nrpy/infrastructures/superB/nrpyelliptic/conformally_flat_C_codegen_library.py"],
     [("chares and their messages", "nrpy/infrastructures/superB/timestepping_chare.py"), ("nonlocal boundary data", "nrpy/infrastructures/superB/CurviBoundaryConditions.py"), ("packing", "nrpy/infrastructures/superB/superB/superB_pup.py")],
     "sanitized runs of generated Charm++ programs on a monitored message scheduler with adversarial delivery orders and restarts",
     "the generated .ci/.cpp are translated to C++ on a deterministic scheduler (ASan/UBSan, memory pre-filled with NaN); fields of every chare at every step, output bytes, deadlocks and pack/unpack sizes recorded; compared bitwise across orders and restarts and to 1e-9 with one chare and with BHaH")
