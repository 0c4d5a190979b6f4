#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, quant, why, files, mech, state=(), obs=()):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if obs: a["observe_at"] = list(obs)
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": quant}, "why_tests_cant": why, "anchors": a})

HLL="src/rhs/numflux/hll.rs"; KT="src/rhs/numflux/kt.rs"; NF="src/rhs/numflux.rs"; RHS="src/rhs.rs"
RKF="src/time/rkf.rs"; BT="src/time/rkf/butchertableau.rs"; TS="src/time/timestep.rs"; SOL="src/solver.rs"
COMP="src/components.rs"; ST="src/state.rs"; PH="src/state/physics.rs"; VAR="src/state/variables.rs"
AD="src/state/systems/euler1dadiabatic.rs"; IS="src/state/systems/euler1disot.rs"; MESH="src/mesh.rs"
BC="src/boundaryconditions/custom.rs"; BC0="src/boundaryconditions.rs"; WR="src/writer.rs"; OUT="src/writer/output.rs"; DAT="src/writer/data.rs"
CFG="src/config.rs"; OC="src/config/outputconfig.rs"; MC="src/config/meshconfig.rs"; NC="src/config/numericsconfig.rs"; PC="src/config/physicsconfig.rs"
NFC="src/config/numericsconfig/numfluxconfig.rs"; TIC="src/config/numericsconfig/timeintegrationconfig.rs"; UN="src/units.rs"; INI="src/initfuncs.rs"

prop("C01","Mass, momentum and energy are conserved up to the flux through the boundaries",
 "The flux divergence that either flux scheme produces sums, over the interior cells, to the difference between one flux at the east end and one flux at the west end that depend only on the cells next to those ends, so nothing is created or lost between cells. Over a time step with any integrator the domain totals of every conserved quantity change, to rounding, by exactly the time step times the net boundary flux; they stay constant when both ends carry the same uniform fluid, and a domain closed by two reflecting walls keeps its mass and energy with the HLL scheme.",
 ["inputs","configurations","histories"],
 "all admissible initial states (smooth, random, discontinuous, strong jumps), both equation systems, both schemes, all limiters, all integrators, all mesh sizes and extents, whole runs",
 "The tests run three standard problems on one mesh and only look at Ok(); no total is ever summed, so a scheme that leaks mass between two cells passes.",
 [NF,HLL,KT,RKF,RHS],
 [("one flux per face, differenced for the two adjacent cells",NF),("face flux loops cover faces ixi_in-1..=ixi_out",HLL),("stage combination is linear in the flux divergences",RKF)],
 obs=["Rhs::full_rhs after each update","cell averages before/after Solver::next_solution"])
prop("C02","A uniform flow is preserved",
 "A uniform state of any density, velocity and pressure, with zero-gradient or extrapolating boundaries, remains that uniform state (to rounding) through every step of a run with any scheme, limiter, integrator, mesh and step control, and the run reaches its end time without error.",
 ["inputs","configurations"],
 "all uniform states (both flow directions, at rest, sub- and supersonic), all scheme/limiter/integrator/step-control combinations, mesh sizes and extents",
 "No test starts from a uniform state, and the tests never compare the fields that a run produces.",
 [HLL,KT,RKF,BC,PH], [("flux differences of equal states vanish",NF),("limiters return zero slope for constant data",KT),("ghost cells continue the state",BC)])
prop("C03","Mirrored problems have mirrored solutions",
 "Reflecting a problem in space (mirrored mesh extent, mirrored initial state with negated velocity, west and east boundary conditions exchanged) yields the reflected solution at every step, with the same time steps, the same output times and the same verdict.",
 ["inputs","configurations"],
 "all initial states, both systems, both schemes, all limiters, integrators, step control on and off, all boundary modes that make sense for both ends, mesh sizes",
 "Every existing test is a single orientation of a problem; a quantity that only looks at one flow direction is invisible to it.",
 [ST,PH,HLL,KT,BC,RKF], [("signal speeds of both signs enter fluxes and time step",PH),("west/east boundary functions are mirror images",BC),("step control measures magnitudes",RKF)])
prop("C04","Results do not depend on the units or on the origin of the coordinates",
 "Rescaling length, density and velocity units of a problem (with time, pressure, t0, t_end and the time step limits scaled accordingly) rescales the whole solution and all time steps by the same factors, and shifting the mesh along the axis, or the time at which the run starts, leaves the solution unchanged (to rounding).",
 ["inputs","configurations"],
 "scale factors over many orders of magnitude (including very small and very large cells), shifts, all initial states, schemes, limiters, fixed-tableau integrators",
 "The tests only use order-unity quantities on the mesh [1,2], where absolute constants hidden in the formulas are invisible.",
 [MESH,HLL,KT,PH,TS], [("cell geometry derived from dxi only",MESH),("flux difference divided by the cell volume",NF)])
prop("C05","Computed solutions converge to the exact Riemann solution",
 "For a Riemann problem the computed density, velocity and pressure approach the exact solution of the Euler equations (adiabatic or isothermal) as the mesh is refined: the L1 error decreases with resolution and stays below a bound proportional to a power of the cell size, with shocks, contacts and rarefactions at their exact positions.",
 ["inputs","configurations"],
 "Riemann problems (shock tubes, colliding and receding streams, moving contacts, strong shocks, both directions), both systems, both schemes, all limiters, all integrators",
 "The Sod and Noh tests never compare with the exact solution; they passed while every Runge-Kutta method was forward Euler and the default limiter was inactive.",
 [HLL,KT,RKF,AD,IS,PH,RHS], [("consistent numerical flux",HLL),("consistent numerical flux",KT),("physical fluxes",AD),("isothermal fluxes",IS),("time integration",RKF)])
prop("C06","The numerical flux is the HLL or Kurganov-Tadmor flux of the current state",
 "For every state the flux divergence returned for an interior cell equals the difference of the HLL (or, with the selected limiter, Kurganov-Tadmor) fluxes through its two faces divided by the cell width, evaluated from that state alone; the entries outside the interior are not changed and nothing of an earlier evaluation influences it.",
 ["inputs","configurations","histories"],
 "all admissible states and sequences of states evaluated by the same object, both systems, all limiters, all mesh sizes and cell widths",
 "One hand-computed symmetric state on 8 cells is tested per scheme; it contains no contact, no sub-/supersonic mix, and every limiter gives the same answer on it.",
 [HLL,KT,NF,PH], [("Davis wave speed estimates",HLL),("central-upwind flux with local speeds",KT),("flux difference",NF)], obs=["NumFlux::calc_dflux_dxi"])
prop("C07","Reconstruction keeps cell means, adds no extrema and is exact for linear data",
 "In every cell the two face values of the Kurganov-Tadmor scheme average to the cell mean and follow the documented slope formula of the selected limiter; with a limiter (Monocent parameter up to 2) they lie between the means of the cell and its two neighbours and local extrema get zero slope. Linear profiles are reproduced exactly by every mode except Superbee, whose documented formula halves the slope.",
 ["inputs","configurations"],
 "all conserved fields including plateaus, extrema, steep jumps, tiny and huge gradients, all limiters and Monocent parameters > 1, both systems, all meshes",
 "The only Kurganov-Tadmor unit test uses a piecewise constant field on which all limiters return zero slope.",
 [KT,NFC], [("slope limiter functions",KT),("face distances",KT)], obs=["State::west/east.cons after NumFlux::calc_dflux_dxi"])
prop("C08","A time step is exactly one step of the selected Runge-Kutta method",
 "One step with fixed step width advances the conserved quantities by the Runge-Kutta formula of the configured method applied to the scheme's own flux divergence, with stage states built from the documented coefficients and the order of accuracy of the method; no information leaks between stages or from earlier steps.",
 ["inputs","configurations","histories"],
 "all nine methods, arbitrary nonlinear right-hand sides and real flux schemes, arbitrary states and step widths, sequences of steps",
 "No test evaluates the integrator on a problem with a known answer; all nine methods were forward Euler without a test noticing.",
 [RKF,BT], [("Butcher tableaus",BT),("stage and solution combination",RKF)], obs=["state handed to NumFlux in each stage","state after Solver::next_solution"])
prop("C09","Automated step control rejects inaccurate attempts and terminates",
 "With automated step control an attempt is retried with a smaller step exactly when the difference between the method's high and low order solutions exceeds the configured relative/absolute tolerance measured with the magnitude of the solution in the interior; each retry shrinks the step by a factor between 1/4 and 1, and after an accepted attempt the step finally taken is positive, at most four times the accepted attempt, and never beyond dt_max, the next output or the end time. A run therefore ends in finitely many attempts, either with a solution or with the dt_min error, and methods without an embedded pair ignore the option.",
 ["inputs","configurations","histories"],
 "all methods with an embedded pair, tolerances over many decades, frictions, right-hand sides and real problems of any sign, dt_min/dt_max settings",
 "Automated step control is switched off in every test.",
 [RKF,BT,TS], [("error estimate and PI controller",RKF),("accept/retry loop",RKF),("cap_dt",TS)], obs=["stage states seen by NumFlux (reveal each attempted step width)"])
prop("C10","Every time step obeys the CFL condition",
 "Without automated step control the width of every step is the CFL parameter times the smallest ratio of cell width to the fastest signal speed |v| + c over all cells, in either direction, reduced only to respect dt_max, the next output time or the end time; when no finite step exists the run reports an error.",
 ["inputs","configurations","histories"],
 "all states in either flow direction, CFL parameters, dt_max, output schedules, mesh sizes, at every step of a run",
 "The default tests have positive-velocity or symmetric flow; time step widths are never asserted.",
 [PH,ST,TS,RKF], [("calc_dt_cfl",PH),("cap_dt",TS)], obs=["TimeStep::dt after each step and the state before it"])
prop("C11","Time and outputs follow the requested schedule exactly",
 "A successful run advances time strictly, by exactly the step width reported, increases the iteration counter by one per step, never passes t_end, ends at t_end, and with output_counter_max = N >= 1 produces exactly N+1 outputs, the first at t0 and the k-th at t0 + k (t_end - t0)/N; with N = 0 only the initial state is written. Running a finished simulation again changes nothing, and stepping the solver manually advances it in the same way.",
 ["inputs","configurations","histories"],
 "all t0, t_end and output counts (including values whose multiples are not representable), dt limits, integrators, step control on and off",
 "All tests use t0 = 0 and one output interval, for which accumulated rounding, off-by-one and overshoot cannot occur.",
 [COMP,TS,SOL,RKF,WR], [("run loop",COMP),("TimeStep::cap_dt",TS)], state=[("t_next_output","time of the next output",TS),("output_counter","index of the next output",WR)])
prop("C12","A run that cannot continue stops with an error and dumps the last state",
 "When the CFL time step (or an automatically controlled one) falls below dt_min, the time step is not finite, the iteration limit is reached, or a solution stops being valid, the run returns an error, having written exactly one additional output to every writer, marked as an error dump and numbered like the next regular output; all earlier outputs stay intact, and the run never panics or keeps iterating.",
 ["inputs","configurations","fault_sequences"],
 "all iteration limits, dt_min settings, failing initial states, injected failures of the flux or time solver at any call of any step",
 "No test makes a run fail.",
 [COMP,SOL,TS,RKF], [("error dump in run loop",COMP),("iter_max check",SOL),("dt_min check",TS)], obs=["files and rows written by a failing run"])
prop("C13","Outputs contain exactly the simulation data that was requested",
 "Every output block has the configured columns in the configured order under their documented names, one row per interior cell (or per cell including ghost cells when requested, or a single row in scalar mode), and each value is the simulation's value at that output time correctly rounded to the configured precision in scientific notation, with the delimiter, header mark and padding of the chosen format.",
 ["inputs","configurations","histories"],
 "all column lists (any order, repeated), both formats, both conversion modes, precisions, ghost cell settings, mesh sizes, states with zero, tiny, huge and negative values",
 "The integration tests write files but never read them back.",
 [OUT,WR,DAT,VAR,MESH,TS], [("Output::write_into_stream / format_data_to_buffer",OUT),("Collectable::collect_data",WR)], obs=["output files and stdout"])
prop("C14","The set of output files and their names is exact and sorts chronologically",
 "A run leaves exactly the documented files in its output folders: one numbered file per output in vector mode, whose zero-padded names sort in chronological order, or one appended file with a single header in scalar mode, plus the metadata JSON (which reproduces the configuration) when requested; no file contains anything left over from an earlier run, and earlier rows and files are never altered by later outputs.",
 ["inputs","configurations","histories"],
 "all output counts, folder and file names (with and without trailing slash, nested, pre-existing), several outputs at once, repeated runs into the same folder with longer or shorter predecessors",
 "The tests never list the folder or read a file, and always start from an emptied folder.",
 [OUT,WR], [("file name construction and counter width",OUT),("open options",OUT)])
prop("C15","Concurrent stdout outputs never mix within a block",
 "With several outputs directed to standard output every block (header and rows of one output at one output time) appears contiguously and complete, each requested block appears exactly once, and the blocks of each output appear in chronological order, whatever the thread schedule.",
 ["schedules","configurations"],
 "thread schedules and thread counts, numbers of stdout outputs, scalar and vector modes, block sizes",
 "The tests use one stdout output, and nothing reads their stdout.",
 [WR,OUT], [("parallel write_output",WR),("stdout lock",OUT)])
prop("C16","Only the configured output folder is ever cleared or written",
 "Constructing a simulation removes existing content only of the folders of file outputs that request clearing, creates missing folders, and writes only the configured files; siblings, parents, targets of symbolic links and folders of outputs that do not request clearing or that write to stdout are left untouched, and a rejected configuration changes nothing on disk.",
 ["inputs","configurations","histories"],
 "folder layouts with siblings, nested folders, symbolic links, pre-existing files, read-only entries; all combinations of outputs; rejected configurations",
 "The tests only ever use dedicated folders and do not look at what else is on disk.",
 [OUT,WR,CFG], [("remove_dir_all/create_dir_all guarded by stream mode and flag",OUT),("validation before construction",CFG)])
prop("C17","Configurations are accepted exactly when they satisfy the documented rules",
 "A configuration is rejected with an error, before anything is written, exactly when it breaks a documented rule: xi_in < xi_out, 1 < adiabatic_index < 2, iter_max > 0, 0 <= t0 < t_end, positive dt_min, dt_max, CFL parameter and step control tolerances, Monocent parameter > 1, non-empty folder and file names for file outputs, a non-empty column list, no vector columns in scalar outputs, and a flux scheme that matches the selected type; NaN never satisfies a rule, and an accepted configuration never panics.",
 ["inputs","configurations"],
 "all field values including boundary values, NaN, infinities, negative and zero, one or several rules violated, in any of several outputs",
 "Only the default configurations are constructed in tests; no rejected configuration is tested.",
 [CFG,MC,PC,NC,NFC,TIC,OC,HLL,KT], [("Validation impls",CFG),("NumFlux::new type check",HLL)])
prop("C18","Boundary conditions set exactly the ghost cells they are configured for",
 "Applying the boundary conditions fills the two ghost cells at each end for each configured equation according to that equation's mode (zero gradient, linear extrapolation, reflection, outflow that reflects flow entering the domain and continues flow leaving it, near zero, Keplerian power laws) from the adjacent interior cells only, mirror-symmetrically west and east, and changes neither interior cells nor unconfigured equations; derived quantities of the ghost cells agree with the new values.",
 ["inputs","configurations"],
 "all modes per equation and side, any list of (equation, mode) pairs including repeated and partial ones, all states and both signs of the flow, all mesh sizes",
 "The unit tests apply each mode to one fixed state on six cells, outside of any simulation.",
 [BC,BC0,PH], [("west/east functions per mode",BC),("update_vars_from_prim order",PH)])
prop("C19","Primitive, conservative and derived quantities always agree",
 "After construction and after every step the primitive variables, conservative variables, sound speed and eigenvalues of every cell are consistent with each other through the documented relations of the equation system and its adiabatic index, converting either way and back is the identity to rounding, fluxes are those of the Euler equations, and quantities that an operation does not own (such as the sound speed of isothermal flow) are left unchanged.",
 ["inputs","histories"],
 "all densities > 0, velocities, pressures > 0 over many orders of magnitude, all adiabatic indices in (1,2), every cell including ghost cells, every step of a run, cell centres and both faces",
 "The two property tests cover only a round trip of constant states in a narrow range with one adiabatic index on two cells, and nothing checks sound speeds, eigenvalues or fluxes.",
 [AD,IS,PH,ST,VAR], [("update_prim/update_cons/update_c_sound/update_eigen_vals/update_flux",PH)])
prop("C20","A step reported as successful has produced a valid state",
 "With validation enabled, whenever a step returns success every primitive and conservative value is finite and densities (and pressures of adiabatic flow) are strictly positive, and whenever a step would produce a state that is not, an error is returned instead; the public check macros that validation is made of report exactly the non-finite or non-positive entries, wherever they are.",
 ["inputs","histories","fault_sequences"],
 "extreme and near-vacuum states, unstable CFL parameters, inconsistent right-hand sides that drive any cell and equation to zero, negative, infinite or NaN values at any step",
 "All tested problems stay valid, so a validation step that checks nothing passes.",
 [ST,VAR,PH,AD,IS,RKF,HLL,KT], [("State::validate",ST),("Physics::validate",PH),("validate after each step",RKF)])
prop("C21","The mesh tiles the requested interval with uniform cells and ghost cells",
 "For every accepted interval and size the interior cells tile [xi_in, xi_out] without gaps or overlaps, all cells have the same width, centres lie midway between faces, two ghost cells continue the mesh at each end, and all geometric factors, inverses, areas and volumes are consistent with those coordinates.",
 ["inputs"],
 "all mesh sizes >= 5, all intervals over many orders of magnitude, negative, straddling and far from the origin",
 "One property test with one size looks at the two outermost interior faces only.",
 [MESH,MC], [("Mesh::new",MESH)])
prop("C22","Results are deterministic and independent of threads, outputs and validation",
 "The same configuration gives bit-identical states, time steps and files whenever it is run: with any number of worker threads, next to other simulations running concurrently in the same process, with any set of outputs attached that does not change the output times, repeated in the same process, and with the validation feature on or off.",
 ["schedules","configurations","histories"],
 "worker thread counts, concurrent simulations, attached outputs, repetitions, feature settings, all schemes and problem types",
 "Tests run each problem once with one configuration and compare nothing.",
 [HLL,KT,WR,RKF,OUT], [("element-wise parallel loops without shared writes",HLL),("outputs only read the state",WR)])
prop("C23","No undefined behaviour, data race or unsound thread sharing",
 "Running, sharing and moving simulations between threads in any way the type system permits causes no undefined behaviour and no data race, and the types only allow sharing when their user-supplied parts do.",
 ["schedules","inputs","programs"],
 "executions of initialisation, stepping, output and error paths under an undefined-behaviour interpreter with randomised schedules and under a race detector with real threads",
 "The code asserts thread safety by hand for nearly every type; tests neither share simulations between threads nor run under a sanitizer.",
 [RHS,SOL,ST,VAR,RKF,WR,HLL,KT], [("manual Send/Sync implementations",RHS),("parallel loops over disjoint slices",HLL)])
prop("C24","Unit conversions are correct and invert each other",
 "Converting lengths, times and masses to SI and to CGS yields the same physical quantity whatever unit system the simulation uses: identity towards the own system, 100 cm per metre and 1000 g per kilogram between systems, correct to rounding wherever the result is an ordinary floating point number, and going there and back is the identity to rounding.",
 ["inputs"], "all inputs of any sign and magnitude between 1e-300 and 1e305, both unit systems, all three quantities",
 "The module has no tests at all.",
 [UN], [("convert_* functions",UN)])
prop("C25","Failures while writing outputs are reported and do no further damage",
 "If an output cannot be created or written completely (missing or read-only folder, path occupied by something else, full device, file size limit), initialisation or the run returns an error instead of success or a panic, output files completed before the failure keep their exact contents, and no success is ever reported for a run whose files are incomplete.",
 ["fault_sequences","configurations"],
 "every kind of fault at every output index (metadata, first, later, error dump), scalar and vector modes, one of several outputs failing",
 "No test injects an I/O fault.",
 [OUT,WR,COMP,CFG], [("error propagation of open/write",OUT),("try_for_each over outputs",WR)])
prop("C26","Initialisation yields a complete, consistent start state",
 "Initialising a simulation runs the user's init function exactly once on a fresh state and mesh, then fills ghost cells, conservative and derived quantities and both cell faces from the given primitive values without altering the interior, reports an init function's error unchanged, and the supplied Sod and Noh initialisers set their documented left and right states on any mesh size and refuse equation systems they do not support.",
 ["inputs","configurations"],
 "all user-supplied primitive states, mesh sizes (odd and even), both systems, both initialisers, failing init functions",
 "Tests call the initialisers on one mesh size and never look at the state they produce.",
 [CFG,INI,ST], [("init_corries",CFG),("init_noh/init_sod",INI)])
prop("C27","First-order HLL keeps density and pressure positive for any data",
 "With the HLL scheme, forward Euler and a CFL parameter of at most one half, every admissible initial state with zero-gradient or reflecting ends stays strictly positive in density and pressure and the run completes without error, however strong the jumps or close to vacuum the data.",
 ["inputs","histories"],
 "random states with jumps over many orders of magnitude, strong receding and colliding flows in either direction, Mach numbers up to 1e3, both systems, long runs",
 "Robustness is only exercised on two textbook problems.",
 [HLL,PH,TS,RKF,ST], [("wave speed bounds in the HLL flux",HLL),("CFL limited step",PH)])
prop("C28","Integration refines correctly in time and space for smooth flow",
 "For smooth periodic-free flow away from the boundaries the limited Kurganov-Tadmor scheme is second order accurate, the HLL scheme first order, and refining only the time step converges to the same spatially discrete solution at the design order of the integrator, so higher-order options are really more accurate than lower-order ones.",
 ["inputs","configurations"],
 "smooth profiles (advected density pulses, simple waves), both systems, all limiters and integrators, sequences of resolutions",
 "No test measures an error or a convergence rate.",
 [KT,HLL,RKF,BT], [("linear reconstruction",KT),("Butcher tableaus",BT)])

prop("C29","A run can be split at an output and resumed from its state",
 "A run with N outputs goes through the same states, with the same step widths, as the chain of N runs in which each starts from the primitive variables (and sound speed) and the time at which the one before ended; and moving t_end and the next output time of a finished simulation continues it exactly like a run that was configured to go there. No information other than the state and the clock is carried from step to step (methods without step control).",
 ["inputs","histories","configurations"],
 "all initial states, schemes, limiters, integrators, boundary conditions without memory, start times, output counts, every joint of every run",
 "No test continues a run or compares two runs; hidden state (caches, previous time steps, stale buffers) only shows when a run is cut.",
 [COMP,SOL,TS,RKF,RHS,CFG], [("run loop and output times",COMP),("no step uses the stages of the one before",RKF),("initialisation from primitive variables",CFG)])
prop("C30","Default configurations are the documented ones",
 "Every default constructor (CorriesConfig, NumericsConfig and MeshConfig::default_riemann_test, the OutputConfig::default_* family, PhysicsConfig, RkfConfig, TimeIntegrationConfig, NumFluxConfig, and the Default of every mode) yields, for any end time, folder, file name, columns and number of equations, exactly the documented values; a simulation made from them runs and leaves the same files, byte for byte, as the same configuration written out by hand.",
 ["inputs","configurations"],
 "all end times, names, column lists and equation counts, both schemes, mesh sizes, whole runs with random data",
 "The doc tests compare a few fields for one set of arguments and never run a default configuration against its written-out twin.",
 [CFG,OC,MC,NC,PC,NFC,TIC], [("default_riemann_test",CFG),("default_file and default_stdout",OC)])
prop("C31","User-defined equation systems are solved like the built-in ones",
 "An equation system that a user implements through the public Physics trait is integrated correctly by every scheme: the same equations with their rows permuted give the same solution as the built-in systems, a passively advected quantity in addition stays within its initial bounds with the HLL scheme and keeps its total between walls, a scalar law and shallow water give their exact solutions, with any number of equations; validation of user systems refuses non-finite values and whatever the user's own check refuses.",
 ["inputs","configurations"],
 "systems with 1 to 4 equations, rows in any order, both schemes, all limiters, integrators, boundary conditions, random data and Riemann problems",
 "All tests use the two built-in systems, where the order of rows and their number are fixed.",
 [PH,ST,VAR,HLL,KT,NF,RHS,RKF,BC], [("code generic over Physics and E",PH),("row indices from associated constants",PH)])
prop("C32","Shocks are physical: first-order HLL never destroys entropy",
 "With the HLL scheme, forward Euler and a CFL parameter of at most one half, every cell whose two faces have signal speeds that enclose the exact waves satisfies the discrete entropy inequality (adiabatic: entropy density; isothermal: mechanical energy with the opposite sign) in every step, the specific entropy p / rho^gamma never falls below the smallest value among the cell and its neighbours, and between two walls the total entropy never decreases; so expansion shocks and spurious cooling do not occur.",
 ["inputs","histories"],
 "random data with shocks, contacts, rarefactions and strong jumps, both systems, all adiabatic indices, meshes, every cell of every step",
 "Tests only look at Ok(); a flux that is consistent and conservative but not dissipative enough passes them.",
 [HLL,PH,AD,IS], [("signal speeds bound the waves on both sides of a face",HLL)])
prop("C33","Memory, open files and threads do not grow during a run and are given back",
 "During a run neither the live heap, nor the heap needed within a step, nor the number of open files or threads grows with the number of steps or outputs once it has started, for any scheme and any set of outputs, also in failing runs; when the simulation is dropped everything is given back.",
 ["histories","configurations"],
 "runs of hundreds to thousands of steps and up to 200 outputs, several files and standard output, all schemes, step control on and off, failing runs",
 "Tests take few steps and never measure resources.",
 [WR,OUT,RKF,RHS,COMP,KT], [("buffers allocated once at construction",RKF),("output text replaced, not extended, at each output",OUT),("files opened and closed per output",OUT)])
prop("C34","A disturbance does not outrun the scheme's stencil",
 "Changing the initial state in a window of cells changes after one flux evaluation no cell farther from the window than the scheme's stencil reaches: one cell for HLL, two for Kurganov-Tadmor; so after a number of steps of equal width all interior cells beyond the product of flux evaluations and reach are bit-identical, and the influence on cells within is not lost.",
 ["inputs","histories"],
 "all initial states, windows, schemes, limiters, integrators, boundary conditions, mesh sizes",
 "No test compares two runs; a global quantity leaking into the local update changes every cell a little.",
 [HLL,KT,NF,RKF,BC], [("face values from neighbouring cells only",KT),("flux difference of the two faces of a cell",NF)])
prop("C35","A crash loses no output that was due, and a run after it is unaffected",
 "When the process is killed at any moment, every output that was due before is complete in its file (or delivered to standard output) with the contents an undisturbed run gives it, the output being written is at most cut off, and nothing of later outputs exists; in particular every output is on disk before the next step begins. A complete run into the same folders afterwards leaves exactly the files of an undisturbed run.",
 ["crash_points","histories","configurations"],
 "kills at every step boundary, inside writes and at arbitrary instants; all formats, several outputs on disk and standard output, one to four threads, restarts",
 "No test kills a run or reads a file while it runs.",
 [OUT,WR,COMP], [("outputs are written and closed at their time",OUT),("files are truncated by the first output of a run",OUT),("run loop writes before it goes on",COMP)])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p,ensure_ascii=True)+"\n")
