# property -> how it is explored
CHECKS = {
"S01": dict(level="model_checking", parts=[dict(harness="s01_stencils")],
  technique="exhaustive enumeration of all velocity sets x scalings x moment tuples on the real classes",
  rule="every velocity set, every scaling of the grid, every moment tuple up to degree 12 (stopping at the first inexact degree); outcomes count set x degree x exact/inexact",
  bound="14 velocity sets x 7 scalings (57 thorough), moments to degree 12; all (d,q) in 0..4 x 0..80 for selection",
  assumptions=["reference Gaussian degree and speed of sound per velocity set are written down in the harness", "scalings between the grid points behave alike (moments are homogeneous in the scaling)"],
  note="Exhaustive over the stated grid against exact Gaussian moments; real classes, no model."),
"S02": dict(level="model_checking", parts=[dict(harness="s02_equilibria")],
  technique="exhaustive enumeration of equilibrium forms x velocity sets x scalings x macroscopic states on the real classes",
  rule="every equilibrium form of the advanced collision and of the collision model classes, on every velocity set, scaling and macroscopic state of the grid; the quartic form population by population against the fourth-order Hermite expansion; one transition per equilibrium evaluated",
  bound="4 forms + 10 model classes x 14 velocity sets x 2 scalings (5 thorough) x up to 3 densities x 7/27 velocity directions x 3 speeds x 3 temperatures x 2 heat capacity ratios",
  assumptions=["states between grid points behave alike: the moments are polynomials of low degree in the state", "tabulated weights carry 9 digits (D2Q777: 4)"],
  note="The moments are compared with closed forms; the grid has more points per direction than the polynomial degree."),
"S03": dict(level="model_checking", parts=[dict(harness="s03_conserve")],
  technique="exhaustive enumeration of configurations x node states, one real collision step each, against conserved moments",
  rule="every accepted (velocity set, scheme, equilibrium, relaxation variant) x scaling x viscosity x time step, one collision on every node state of the alphabet (equilibria, each population disturbed either way, sign patterns)",
  bound="26 accepted tuples x 6 parameter points (60 thorough), 10 collision model classes; alphabet of 50 to 400 node states",
  assumptions=["a collision is a smooth map per node; a defect shows on one of the one-hot or sign-pattern states"],
  note="Runs the real selection and collision loop; oracle is the moments before and after."),
"S04": dict(level="model_checking", parts=[dict(harness="s04_local")],
  technique="bounded-exhaustive enumeration of node-state sequences and of call histories through the real collision loop",
  rule="all sequences of node states up to the depth bound over an alphabet of 4 (5) states, for every accepted tuple with and without forcing; all ordered pairs (triples) of neighbours over an alphabet of states that agree exactly in density, single velocity components, momentum or stress (de Bruijn sequence); after every other scheme ran; twice in a row; each node compared with the same state collided alone",
  bound="sequence length 4 (3 for more than 30 directions), thorough 6 (4); histories of one earlier call of each other scheme",
  assumptions=["carry-over between nodes shows within the depth bound for the alphabet used"],
  note="Sequences are enumerated without sampling; the comparison tolerance is 1e-14 relative."),
"S05": dict(level="model_checking", parts=[dict(harness="s05_viscosity"), dict(harness="s05_solver")],
  technique="exhaustive enumeration of configurations x parameters x node states on the real collision step, against the relaxation law",
  rule="every accepted tuple x (scaling, viscosity, time step) x node state: every deviatoric component of the second moment; BGK: every population; all functions that compute a relaxation time",
  bound="26 tuples x 24 parameter points (78 thorough) x the node alphabet of S03",
  assumptions=["the scheme depends on viscosity and time step only through the relaxation time; the grid spans 1e-5..2.5 and 0.01..1"],
  note="Oracle: the equilibrium is computed independently from its Hermite formula."),
"S06": dict(level="model_checking", parts=[dict(harness="s06_force")],
  technique="exhaustive enumeration of forcing schemes x collision schemes x force vectors x node states on the real collision step",
  rule="every accepted tuple x forcing scheme x parameter point x force vector (each axis, both signs, a diagonal, none, zero) x every third node state (all when thorough)",
  bound="26 tuples x 4 forcing schemes x 6 parameter points (60) x 5..7 forces",
  assumptions=["the force enters linearly in the momentum"],
  note="Oracle: momentum difference = force x time step."),
"S07": dict(level="model_checking", parts=[dict(harness="s07_select")],
  technique="exhaustive enumeration of the full cross product of collision options, each compared with an independent reference implementation",
  rule="14 velocity sets x 13 collision schemes x 5 equilibria x 4 forcing schemes x force or none x (for MRT) 3 bases x 3 relaxation modes; each either refuses or equals the reference on 4 node states",
  bound="the cross product is complete; one scaling, viscosity and time step (others: S03, S05, S06)",
  assumptions=["two schemes that agree on the 4 disturbed node states to 1e-8 are the same scheme"],
  note="The reference builds each scheme from its textbook definition, sharing no code with the library."),
"S17": dict(level="model_checking", parts=[dict(harness="s17_integrators")],
  technique="exhaustive enumeration of integrators x systems x step sizes and of all bounded step histories on the real integrators, against independent dense implementations of each scheme",
  rule="every integrator (all theta, all deal.II schemes) x all four matrix/vector types x all 2x2 systems over {-1,0,1} and structured systems x step size; then every sequence of (system, step size or keep) up to the depth through one integrator object",
  bound="16 integrators (18 thorough) x 4 types x 274 systems (358) x 2 (5) step sizes; histories of depth 2 (3) over 5 systems x 4 step sizes on two time scales",
  assumptions=["iterative linear solvers inside implicit schemes are accurate to 1e-5 (theta) and 1e-4 (deal.II, Newton)", "the exponential integrator is compared within the error bound of six Krylov directions"],
  note="References: Butcher tableaux, dense solves and Taylor series in the harness."),
"S18": dict(level="model_checking", parts=[dict(harness="s18_filters")],
  technique="exhaustive enumeration of filters x parameters x elements x all Legendre modes (basis of the whole input space) on the real filter, repeated application",
  rule="dimension x support points x quadrature x order x mesh x filter parameters; every mode in every cell (other cells hold other modes), then all modes together; applied twice",
  bound="dimension 1..3, order 1..4 (2 in 3D; thorough 8 and 4), all cutoffs 0..maximum degree, 2 strengths x 2 exponents (4 x 5), a cube and a box with a refined cell",
  assumptions=["discontinuous elements (the filter works cell by cell; a continuous element shares nodes between cells)"],
  note="The filter is linear: its action on all modes determines it. Modes come from the Legendre recurrence in the harness."),
"S20": dict(level="model_checking", parts=[dict(harness="s20_container")],
  technique="explicit-state exploration of all operation sequences on the real container in lockstep with a reference model (array of fields)",
  rule="all sequences of operations up to the depth over two containers (element, block and flat writes, setters, assignment, copy, conversion, scaling, transfer between scalings, compress, reinit); every view of both compared with the model afterwards",
  bound="17 operations, depth 3 (4 thorough; one less for D3Q15), 2 nodes, with and without ghosted storage; resize sequences to depth 3 (4)",
  assumptions=["ghosted views are compared when the documentation promises that they are up to date"],
  note="Every model trace is executed on the implementation; there is no unvalidated trace."),
"S08": dict(level="model_checking", parts=[dict(harness="s08_configuration")],
  technique="explicit-state exploration of assignment sequences over all options on the real configuration in lockstep with a reference model (one independent variable per option)",
  rule="all ordered pairs of assignments (option, value) over all options and all enum values; every illegal value after every legal one (with all other options set); every value through both file formats, alone and among other values, into fresh and used configurations; every name in a file",
  bound="59 options, all enum values, 1 to 4 values per number; sequence length 2 (thorough: a third round over all options on top)",
  assumptions=["options interfere pairwise or not at all"],
  note="The model is a map; every model trace is executed on the implementation."),
"S09": dict(level="model_checking", parts=[dict(harness="s09_commandline")],
  technique="explicit-state exploration of command lines on the real parser in lockstep with a reference model (option -> configuration values)",
  rule="all single options with all documented values and all ordered pairs on default and non-default configurations; all triples with a standard-lbm preset (thorough: with any option); conflicts; every illegal value alone and next to every option; all subsets of a program's own arguments (typed, with and without default, short names, flags, positional) next to every option; wrong order of use; help",
  bound="31 options with 108 values; command lines of up to 3 options and 8 own arguments",
  assumptions=["an option that stands for one value wins over a preset of several values that does not conflict with it (--support-points over --standard-lbm-with)"],
  note="The model is a map from options to configuration values taken from the help message; every model trace is executed on the implementation."),
"S10": dict(level="model_checking", parts=[dict(harness="s10_restart")],
  technique="exhaustive enumeration of stop/restart histories on the real solver; oracle: the uninterrupted run, state by state",
  rule="for each configuration: restart from every checkpoint of a run; all ways to cut the run into pieces that resume from the end of the piece before (by number or as the latest checkpoint); restart on refined grids (same function) and with other scalings (same density, velocity, momentum flux, or refused); the latest of all prefixes of a checkpoint directory with foreign files; a second run in a used directory",
  bound="runs of 4 steps (thorough: 6; cuts into up to 3 pieces quick, all thorough), 34 configurations over streaming scheme, order, stencil, collision, integrator, filter, walls, forces, grids; 2D 4x4 and 3D 2x2x2 cells",
  assumptions=["adaptive (embedded) time integrators excluded: the step size is not part of a checkpoint", "compressible solver: see S24", "density and velocity that are shown directly after loading a forced flow do not contain the half force step"],
  note="Explored directly on the implementation."),
"S11": dict(level="model_checking", parts=[dict(harness="s11_crash")],
  technique="exhaustive crash-point and fault enumeration on the real implementation under ptrace (every file operation that changes the checkpoint directory, torn writes, failing operations)",
  rule="for each configuration and history of the checkpoint directory (empty; an earlier checkpoint; the same checkpoint written before by this run or by a run of another flow): the process is killed before each file operation and inside each write, or each operation on the status file (and optionally all later operations) fails with ENOSPC; the directory contents that remain are the states; from each distinct one a new process restarts at the latest and at the earlier checkpoint, and resumes the run",
  bound="2 streaming schemes in 2D, 1 in 3D; 4 histories; torn after 1, half, all but one byte (thorough: all powers of two; second crash at every point after every first crash); one MPI process",
  assumptions=["the process is killed; file operations that were done before stay done in order (no power failure)", "one MPI process: the order of file operations of several processes is not explored", "failing (not crashing) writes of the data files are not covered: deal.II does not report them"],
  note="The real run, real files; the controlled environment is ptrace on a forked child."),
"S12": dict(level="model_checking", parts=[dict(harness="s12_loop")],
  technique="explicit-state model of the time loop; all its traces within bounds are replayed on the real solvers and compared event by event",
  rule="product of step limits, end times, solution/table/checkpoint intervals, output switched off, restarts, for the plain, the benchmark and the compressible solver; the model predicts the steps, times, files, table rows, checkpoints and calls of data processors; the run is also compared state by state with the composition relax, (stream, filter at its interval, relax)*; stops by convergence for all thresholds next to the actual changes",
  bound="up to 7 steps (330 for convergence), intervals 1..7 and off, 2D 4x4 cells and 3D 2x2x2 cells, one MPI process",
  assumptions=["thresholds of convergence below 1"],
  note="The model is the oracle; every one of its traces is run on the implementation."),
"S13": dict(level="model_checking", parts=[dict(harness="s13_semilagrange")],
  technique="exhaustive enumeration of meshes x elements x velocity sets x time steps; every row of the real streaming operator compared with the interpolant at the departure point; all bounded histories of time step changes, assembly and streaming",
  rule="for each mesh, element, velocity set, scaling and time step, every node and direction (rows of the operator: decides all nodal values), then two streaming steps; time steps that differ by 1e-9 relative and time steps of 5 to 15 cells; histories: every sequence of {set one of 3 time steps, assemble, stream} up to the depth",
  bound="9 meshes in 2D, 4 in 3D (12 and 6 thorough), order 1..4 (6) in 2D and 1..2 (4) in 3D, 3 kinds of support points, 4 (5) and 8 velocity sets, 3 scalings, 5 (12) time steps from 0.001 to 3.3 cells; histories of depth 2 (3)",
  assumptions=["shape values below 1e-10 may be dropped (comparison to 1e-7)", "paths of less than 50 cell faces"],
  note="The oracle finds the cell by brute force and inverts the mapping with its own Newton iteration."),
"S14": dict(level="model_checking", parts=[dict(harness="s14_dg")],
  technique="exhaustive enumeration of meshes x elements x velocity sets x fluxes; the real operator's complete matrix is checked row by row and column by column (decides all nodal values); all bounded histories of set-up, time step changes and reassembly",
  rule="for each mesh, order, velocity set, scaling and flux, every direction: all row sums (constants), all column sums (conservation), definiteness of the symmetric part (energy), all monomials (derivatives), all pairs of cells (translation invariance), all other blocks (no mixing); histories: every sequence of {assemble, set one of two time steps, set up} up to the depth",
  bound="5 meshes in 2D (7 thorough), 4 in 3D, order 1..4 (6) and 1..2 (3), 4 and 6 velocity sets, 2 (4) scalings, upwind and central; histories of depth 3 (4)",
  assumptions=["conservation and energy are stated for cells that are parallelograms (elsewhere the collocated quadrature is not exact)"],
  note="The operator is linear: its matrix determines its action on all nodal values."),
"S15": dict(level="model_checking", parts=[dict(harness="s15_periodic")],
  technique="exhaustive enumeration of boxes x labels x creation orders x refinements on the real periodic boundaries; explicit-state exploration of all sequences of additions to a boundary collection in lockstep with a reference model",
  rule="for each box, labelling of the sides, subset and order of periodic axes (either side first) and refinement: every boundary face has one partner at the same position up to the period, and back, points across, cell map, non-members; every pair of sides and direction that do not match, partial sides, refined or changed meshes and repetitions are refused; collections: every sequence of additions (periodic pairs, walls) up to the depth; streaming operators on relabelled meshes equal those of the standard labelling entry by entry; columns of cells rotated against each other: partners, points across, streaming operators of both schemes",
  bound="boxes of 1 to 3 cells per axis (3D: 2, thorough 3), 4 labellings, 2 shapes, all orders, 6 refinements (up to 2 levels, also local; 10 thorough), with and without stretching; collections of depth 3 (5)",
  assumptions=["one MPI process (S21 covers several)"],
  note="Explored directly on the implementation."),
"S16": dict(level="model_checking", parts=[dict(harness="s16_walls")],
  technique="exhaustive enumeration of wall arrangements x meshes x elements x velocity sets x time steps on the real streaming operators; every population of a step compared with a brute-force path tracer",
  rule="every arrangement of periodic sides and four kinds of walls around a box: a fluid at rest and one that moves with its walls stay as they are; bounce-back walls with velocities linear in position and time: every population after a step equals the value at the end of its reflected path plus the terms of all hits at their points and times, and the walls are asked at these points and times only; discontinuous Galerkin walls: rest, common motion, mass, influx, source at each node; solver runs: times at which walls are evaluated; a wall that asks for every flow quantity gets density, velocity and their rates at the hit point and the viscosity of the problem",
  bound="17 squared arrangements in 2D, 8 cubed in 3D; 5 meshes in 2D, 2 in 3D (6 and 4 thorough), order 1..2 (3), 4 time steps up to 1.3 cells (8 up to 3.7); point and time: 6 and 2 (4) meshes, 2 (3) velocity sets, 2 scalings, 5 (10) time steps; DG: order 1..3 (5), both fluxes",
  assumptions=["shape values below 1e-10 may be dropped (comparison to 1e-7)", "bounce-back walls are stated for density one (their velocity term uses a reference density)", "populations whose path is trapped in a corner stay as they are"],
  note="Explored directly on the implementation."),
"S19": dict(level="model_checking", parts=[dict(harness="s19_statistics", hang=900)],
  technique="exhaustive enumeration of discretizations and nodal basis fields on the real functionals (decides them for all fields), of planes and sequences of averages, and of all bounded histories of evaluation on the real solver; oracle: own finite element evaluation",
  rule="for each element, quadrature and mesh: mass, mean velocity, kinetic energy, pressures, entropy at every node (linear in it), enstrophy at every pair of nodal values (quadratic form), products of monomials against integrals by hand; plane averages for every direction, coordinate and node; Reynolds averages for every sequence of fields; every table of a run at every interval, column by column, named by header or legend; every sequence of sets of statistics asked for in a run leaves the solution bit for bit as it is",
  bound="5 kinds of elements of order 1..3 (5) in 2D and 1..2 (3) in 3D, 4 (6) and 2 (4) meshes; sequences of 3 (5) fields; runs of 2 to 4 steps, 4 sets of statistics per step (thorough: all 16), table intervals 1..4",
  assumptions=["collocated quadrature of nonlinear terms is taken as it is (the reference uses the same points, its own evaluation)", "global turbulence statistics are integrals over the domain, not divided by its volume", "one MPI process (S21 covers several)"],
  note="Explored directly on the implementation."),
"S25": dict(level="model_checking", parts=[dict(harness="s25_utilities")],
  technique="exhaustive enumeration of meshes x orders x velocity sets x CFL numbers, option numbers, grids of vectors; explicit-state exploration of all operation sequences on the semi-parallel matrix and the writeable copies in lockstep with arrays",
  rule="every mesh (boxes, lengths, global and local refinements, deformations): vertex distance against all pairs of vertices, node distance against all pairs of nodes, time step for all orders, velocity sets, scalings and CFL numbers, halving by refinement; the solver's own time step; integrators by number after every other number; velocity sets for all d, q; scalar products, norms, angles and keys on grids; matrix and copies: every sequence of operations up to the depth",
  bound="4 (6) numbers of cells, 5 (7) sizes, 3 to 4 levels (4 to 6), 4 local refinements, 6 to 7 deformations; order 1..6 (12); 14 velocity sets, 4 scalings; sequences of length 3 (4) over 16 operations for 4 vector types",
  assumptions=["one MPI process (S21 covers several)"],
  note="Explored directly on the implementation."),
"S22": dict(level="model_checking", parts=[dict(harness="s22_uniform")],
  technique="exhaustive enumeration of solver configurations x flows, complete simulations of a few steps on the real solver; every supported and unsupported scheme combination through the solver's constructor",
  rule="every accepted (velocity set, collision, equilibrium) x streaming settings x scaling x grids x flows; all streaming schemes, integrators, support points and quadratures with the standard collision; filters, limiter and initialization options; every velocity set x collision x equilibrium x streaming, whether it runs or is refused; after every step: uniform fields, fields = moments of the populations, total mass by quadrature",
  bound="22 accepted tuples, 21 (46 thorough) streaming settings, 15 integrators, 1..4 grids, 3 (10) steps, 4..8 cells per direction",
  assumptions=["mass is conserved by SEDG of any order and by semi-Lagrangian streaming of order 1 on uniform grids (higher orders do not conserve it by design)", "D2Q777 is only tried for refusal with part of the streaming settings (cost)"],
  note="Oracle: the initial uniform state, moments computed in the harness, integrals with exact quadrature."),
"S23": dict(level="model_checking", parts=[dict(harness="s23_start")],
  technique="exhaustive enumeration of solver configurations x initialization schemes x initial fields on the real constructors, and of twin simulations that start from the same populations",
  rule="every accepted tuple x streaming x order x scaling x initialization scheme x field: density, velocity, moments, iteration and time at every node; twin runs: initialization scheme vs. equilibrium with copied populations, every step compared; velocity-gradient initialization: viscous stress at every node for polynomials that the elements represent; compressible solvers: also temperature and total energy; velocities added or scaled afterwards equal a fresh start",
  bound="22 tuples (7 compressible), orders 1..5 (3D 1..3), 2 (3) scalings, 5 fields (3 grids), 4 initialization schemes, 2 (6) steps",
  assumptions=["the iterative initialization changes the density by design: only velocity is compared", "the density of the compressible iterative initialization is the problem's; its populations are free"],
  note="Oracle: the functions given to the problem, evaluated at the support points."),
"S24": dict(level="model_checking", parts=[dict(harness="s24_compressible")],
  technique="exhaustive enumeration of gas states x collision options on the real collision step, of complete simulations of a few steps on the real solver, and of every scheme combination",
  rule="every accepted tuple x heat capacity ratio x scaling x viscosity x Prandtl number x Sutherland law x 162 node states (density, velocity, temperature, kind of deviation from equilibrium): mass, momentum, energy, reported fields, relaxation of stress, heat flux and of every population; every tuple x streaming x grid x uniform/general flow: fields = moments, uniform gas unchanged, totals, run() = streaming and colliding both sets by hand; restarts; every velocity set x collision x equilibrium runs or is refused",
  bound="7 tuples (without D2Q777), 3 heat capacity ratios, 2 scalings, 3 viscosities, 4 Prandtl numbers, 162 states, 12 streaming settings, 3 grids, 3 (12) steps",
  assumptions=["totals are conserved by SEDG and by semi-Lagrangian streaming of order one on uniform grids", "D2Q777 not run (4 GB and 8 s per solver)"],
  note="Oracle: moments and a Hermite-expansion equilibrium computed in the harness; relaxation rates from viscosity, temperature, density and Prandtl number."),
"S26": dict(level="model_checking", parts=[dict(harness="s26_benchmarks")],
  technique="exhaustive enumeration of benchmark flows x parameters, every cell, face, vertex and a grid of points and times checked; explicit-state exploration of all operation sequences on the boundary collection in lockstep with a map",
  rule="every benchmark x parameter grid x refinement: parameters, boundaries (ids, kinds, prescribed velocities and temperatures), force; every cell (volume, corners, boxes if Cartesian), every boundary face vertex (on its plane or curve, periodic partners), initial fields at every vertex against formulas; analytic solutions: residual of the incompressible equations with the problem's viscosity and force, boundary values, periodicity, at grids of points and times; collections: every sequence of additions, every colouring of a square against every set of boundaries",
  bound="11 flows, 2..648 parameter sets each, refinement up to 3 (5), 3..5 times x 16..125 points; sequences of length 4 (5) over 9 operations; 4^4 colourings x 16 sets",
  assumptions=["BackwardFacingStep2D cannot be constructed (known finding), only its inflow profile is checked", "derivatives by sixth order differences"],
  note="Oracle: the Navier-Stokes equations and the formulas of the documented flows."),
"S21": dict(level="model_checking", parts=[dict(harness="s21_processes", jobs=3)],
  technique="exhaustive enumeration of solver configurations x process counts x late process x restart process count, executed with real MPI processes and compared node by node with the serial run",
  rule="every configuration of a table (grids with fewer cells than processes up to 64 cells, both streaming schemes, orders, CFL numbers crossing several subdomains, integrators, walls, forces, filters, limiters, initialization schemes, statistics, benchmarks, compressible, 2D/3D) runs serially and with every process count; after every step every process writes the density, velocity, temperature and populations of its nodes and the global statistics; union of nodes, values, values agreed on by all processes, and all tables are compared; schedules: every process in turn arrives late at every barrier, broadcast and file it opens; restarts: written with every process count, continued with every process count; solution files: the pieces written by all processes together equal the serial file, point by point",
  bound="65 (100) configurations, 3 steps, 1..4 (1..5, 7) processes, every single late process for 7 configurations with 2, 3 (5) processes, restarts 1, 2, 4 -> 2..4 (1..5 -> 2..7) processes for 4 configurations",
  assumptions=["Open MPI on one machine with shared memory", "fields agree up to 1e-11, printed tables up to 2e-5", "message arrival orders inside Trilinos and p4est are not permuted, only whole processes are delayed"],
  note="Oracle: the serial run of the same configuration."),
"S27": dict(level="model_checking", parts=[dict(harness="s27_regularization")],
  technique="exhaustive enumeration of a basis of node states on the real data processor, and of runs with regularization in lockstep with relaxing and projecting by hand",
  rule="pointwise stabilizer and data processor on all unit vectors at every node (applied once and twice, both views of the container) x streaming x order x grid x walls x scaling x filter; runs compared after every step with the same run without regularization whose populations are projected by the harness; every velocity set x regularization scheme x solver: runs as named or is refused",
  bound="D2Q9 (with and without e) order 1..3 (5), D3Q19 order 1 (2); 4 (8) steps in 2D, 3 (6) in 3D; 12 velocity sets x 5 schemes",
  assumptions=["the projection is linear, so its action on a basis determines it", "D2Q777 not run; RD3Q27 is refused with every scheme"],
  note="Oracle: W Mt (M W Mt)^-1 M with the conserved moments M, computed in the harness from the velocity set."),
"S28": dict(level="model_checking", parts=[dict(harness="s28_files")],
  technique="exhaustive enumeration of solvers x advection schemes x orders x grids x output intervals; every value of every solution file is decoded and compared with the fields of the running solver",
  rule="product of {plain, with Reynolds statistics, compressible, two benchmarks}, both advection schemes, all orders, grids (one cell, strip, square, walls, distorted; 3D) and {number of steps, output interval}; for each file: the patches are the cells, their points the lattice of the order, every column at every point is the finite element field of that iteration, the columns are the announced ones, the connectivity joins neighbours, the .pvtu names the pieces and the columns; the grid file has the cells of the mesh",
  bound="orders 1..4 (6 thorough) in 2D, 1..2 (3) in 3D, up to 3 (5) time steps, intervals 1..3 and off; Taylor-Green and Couette flow as benchmarks; one MPI process (several: S21)",
  assumptions=["the files are written in the formats of the installed deal.II (base64 of zlib, single precision)"],
  note="Fields are compared to the precision of the files (float)."),
}
NOT_APPLICABLE = {}
