# Definitions behind /verif/properties.jsonl (python3 /verif/mc/gen_props.py rewrites it)
p("S01","Every velocity set is a consistent quadrature, at every scaling",
"For every supported velocity set and every scaling factor, the weights are positive and sum to one, each direction has exactly one opposite which is its negative and has the same weight, and the weighted velocity moments reproduce the isotropic Gaussian moments up to the degree that set is built for, with the speed of sound it reports. The moment transformation matrix and its inverse are inverse to each other, and speeds, speed of sound and largest particle speed all scale linearly with the scaling factor. Asking for a velocity set by configuration yields exactly that set with the requested scaling.",
["configurations","inputs"],"all velocity sets x a grid of scalings (powers of two and irrational) x all index tuples of the moments",
"Tests check a few identities for a few sets at scaling 1; the statement is over every set, scaling and moment tuple.",
["stencils/Stencil.h","stencils/D2Q9.cpp","stencils/D3Q19.cpp","stencils/D3Q27.cpp","stencils/D3Q45.cpp","utilities/CFDSolverUtilities.cpp"],
[("velocity sets, weights, opposite tables","stencils/"),("selection by configuration","utilities/CFDSolverUtilities.cpp")],
["weights, directions, opposite-direction query and moment matrices of each velocity set"])
p("S02","Equilibria reproduce the macroscopic state they are given",
"For every equilibrium form, velocity set and scaling, the equilibrium built from a density and a velocity has exactly that density and that momentum; at zero velocity it equals density times the weights (for isothermal forms). Equilibria of the compressible solver additionally reproduce the prescribed temperature and total energy up to the order their velocity set supports, and the momentum flux is that of the Hermite expansion of the form's order. The incompressible form carries the momentum of its reference density.",
["inputs","configurations"],"all equilibrium forms x velocity sets x scalings x a grid of density, velocity (and temperature)",
"Tests evaluate one or two states of some forms.",
["collision_advanced/Equilibria.h","collision_advanced/AuxiliaryCollisionFunctions.h"],
[("equilibrium functions","collision_advanced/Equilibria.h")],["equilibrium populations and their moments"])
p("S03","Collisions conserve mass, momentum and leave equilibria unchanged",
"For every collision scheme that can be configured, with every velocity set and scaling it supports, one collision step conserves density and momentum at every node (density and momentum of the populations before and after agree), and reports in the density and velocity fields exactly the moments of the populations. A node whose populations are already at the scheme's equilibrium is left unchanged.",
["inputs","configurations","histories"],"all (scheme, velocity set, equilibrium form, scaling, viscosity) tuples that the selection accepts x a grid of node states (equilibria, one-hot perturbations, sign patterns)",
"Tests cover a handful of schemes and node states with loose references.",
["collision_advanced/CollisionSchemes.h","collision_advanced/CollisionOperator.h","collision_advanced/CollisionSelection.h"],
[("collision loop over nodes","collision_advanced/CollisionOperator.h"),("schemes","collision_advanced/CollisionSchemes.h")],
["populations, density and velocity fields before and after a collision"])
p("S04","A collision is local: no node sees another node or an earlier call",
"The result of a collision at a node depends only on that node's populations and the configured parameters: it is the same whatever the other nodes hold, wherever the node lies in the field, and whatever collisions were run before. Running the same collision on a permuted field gives the permuted result (to rounding), and colliding several velocity nodes together equals colliding each one alone.",
["histories","inputs","configurations"],"all sequences of node states up to the depth bound over an alphabet of node states, for every scheme, including repeated calls",
"Carry-over between nodes or calls shows only for particular sequences of different node states; tests use uniform fields.",
["collision_advanced/CollisionOperator.h","collision_advanced/AuxiliaryCollisionFunctions.h","collision_advanced/CollisionSchemes.h"],
[("per-node scratch data reused over the node loop","collision_advanced/CollisionOperator.h")],["populations after a collision, per node"])
p("S05","Viscosity is what was asked for: schemes relax shear stress at 1/(tau+1/2)",
"For every configured viscosity, time step and velocity set, the dimensionless relaxation time is viscosity/(time step * speed of sound squared), and every collision scheme relaxes the deviatoric (off-diagonal) second moment of the populations towards its equilibrium with the rate 1/(relaxation time + 1/2) in one step. The plain BGK scheme relaxes every population with exactly that rate. In a simulation the time step is the one by which the simulation really advances, also when an adaptive time integrator changes it.",
["inputs","configurations"],"all accepted (scheme, velocity set, equilibrium, scaling, viscosity, time step) tuples x a grid of node states",
"Tests check decay rates of one flow with one scheme.",
["collision_advanced/AuxiliaryCollisionFunctions.h","collision_advanced/CollisionSchemes.h","collision_advanced/AuxiliaryMRTFunctions.cpp"],
[("relaxation time","collision_advanced/AuxiliaryCollisionFunctions.h"),("scheme","collision_advanced/CollisionSchemes.h")],
["off-diagonal stress before and after one collision"])
p("S06","Body forces add exactly the prescribed momentum",
"With a constant external force, one collision step changes the momentum of each node by force times time step and leaves its density unchanged, for every forcing scheme and every velocity set it supports; the reported velocity includes half of that impulse where the forcing scheme prescribes it. Without an external force, or with forcing switched off, no momentum is added.",
["inputs","configurations"],"all (forcing scheme, collision scheme, velocity set, force direction and size, time step, node state) tuples",
"Tests run one channel flow with one force direction.",
["collision_advanced/AuxiliaryCollisionFunctions.h","collision_advanced/CollisionOperator.h","collision/ExternalForceFunctions.h"],
[("force application","collision_advanced/AuxiliaryCollisionFunctions.h")],["momentum before and after a collision, reported velocity"])
p("S07","The collision that runs is the one the configuration names",
"For every combination of collision scheme, equilibrium form, velocity set and forcing scheme in the configuration, the collision step either performs exactly the named scheme with the named equilibrium, or refuses with an error. No combination silently runs a different scheme or equilibrium, and none leaves the populations uncollided.",
["configurations"],"the full cross product of collision scheme x equilibrium x velocity set x forcing, in both dimensions",
"The cross product has hundreds of entries; tests visit a few and two of those fail.",
["collision_advanced/CollisionSelection.h","solver/SolverConfiguration.h"],
[("dispatch","collision_advanced/CollisionSelection.h")],["populations after a collision compared with those of an independent reference of the named scheme"])
p("S08","Configuration: what is set is what is read, stored and restored",
"Every option keeps the value last set until it is set again, no matter in which order other options are changed, and starts at its documented default. Writing a configuration to a file and reading it into a fresh one yields the same value for every option. A value outside the option's range or set of names is refused, and leaves all options as they were.",
["histories","inputs","configurations"],"all pairs (and bounded sequences) of option assignments over all options and all enum values, interleaved with write/read",
"Tests set a few options and read a fixed file; interference between two options needs all pairs.",
["solver/SolverConfiguration.h","solver/SolverConfiguration.cpp","utilities/ConfigNames.h"],
[("option store, name tables","solver/SolverConfiguration.h"),("declaration and reading","solver/SolverConfiguration.cpp")],["getters after each operation, written parameter file"])
p("S09","Command line options override the configuration, and nothing else",
"Each command line option changes exactly the configuration values it documents and leaves all others as they were; an option that was not given changes nothing (naming an output directory, interval or verbosity also switches output on). Options combine independently of their order, conflicting or illegal values are refused, and a program's own arguments are available with the given value or their default.",
["inputs","configurations"],"all single options with all their documented values, all ordered pairs of options, on two different start configurations",
"Tests parse a few fixed command lines.",
["utilities/CommandLineParser.cpp","utilities/CommandLineParser.h"],
[("applying options","utilities/CommandLineParser.cpp")],["configuration getters after applying the parsed options"])
p("S10","Restarting from a checkpoint continues the same simulation",
"A simulation that is stopped and restarted from a checkpoint continues as if it had never stopped: iteration, time, populations, density and velocity agree with the uninterrupted run at every later step. This holds for every checkpoint of the run, repeated restarts included, and asking for the latest checkpoint resumes from the one with the highest iteration. A checkpoint of another velocity scaling is converted to the scaling of the restarted run. (Adaptive time integrators, whose step size is no part of a checkpoint, are excluded.)",
["histories","configurations"],"all ways to cut a run of N steps at up to k checkpoints x solver configurations (streaming, scheme, dimension, initialization)",
"Tests restart once at one point and only compare coarse quantities; one of the two checkpoint tests fails.",
["solver/Checkpoint.cpp","solver/CFDSolver.cpp"],
[("writing/loading","solver/Checkpoint.cpp"),("main loop and restart","solver/CFDSolver.cpp")],["populations, macroscopic fields, iteration and time after each step"])
p("S11","A crash while a checkpoint is written never costs an earlier one",
"If the program dies at any point while it writes a checkpoint, then restarting from the latest checkpoint afterwards succeeds and resumes from a completely written checkpoint: either the new one, if it was complete, or the previous one. A partially written checkpoint is never taken for a complete one, and a checkpoint whose status file cannot be written or is damaged is reported or ignored, not resumed from with wrong values.",
["crash_points"],"every prefix of the sequence of file operations (and torn last writes) of writing the second checkpoint of a run",
"No test injects a crash.",
["solver/Checkpoint.cpp"],[("order of status and data files","solver/Checkpoint.cpp")],["state of the checkpoint directory, and iteration/populations of the restarted solver"])
p("S12","The time loop runs, stops and writes output exactly when configured",
"A run performs exactly the configured number of time steps (or as many as the configured end time asks for, whichever comes first), time advances by one time step per iteration, and iteration and time always correspond. Checkpoints, tables and solution files are written at exactly the multiples of their configured intervals (the solution also at the final iteration), and data processors and filters are applied at exactly their configured iterations. With output switched off nothing is written.",
["configurations","histories"],"a grid of step limits, end times, output/checkpoint/filter intervals and restarts",
"Tests run one or two fixed settings.",
["solver/CFDSolver.cpp","solver/CFDSolver.h"],[("loop, stop condition, output","solver/CFDSolver.cpp")],["iteration and time, files written and their rows, calls to attached data processors"])
p("S13","Semi-Lagrangian streaming is exact advection of the discrete function",
"One streaming step on a periodic domain replaces each population by its finite-element interpolant evaluated at the departure point: constants stay constant, polynomials up to the element order are advected exactly, and a time step that moves a direction by whole grid spacings permutes the nodal values. Populations of different directions never mix and the zero-velocity population is unchanged; changing the time step gives the operator of the new time step. (Globally refined meshes; paths that cross fewer than 50 faces.)",
["inputs","configurations","histories"],"dimension x refinement x element order x velocity set x scaling x time steps (fractions and multiples of the grid spacing) x basis of nodal values x time step changes",
"Tests advect one smooth function with one time step.",
["advection/SemiLagrangian.cpp","advection/SemiLagrangianTools.h","advection/AdvectionOperator.h"],
[("departure point search and matrix assembly","advection/SemiLagrangian.cpp")],["populations after one streaming step"])
p("S14","Discontinuous Galerkin streaming conserves and is consistent",
"On a periodic domain (cells are parallelograms or parallelepipeds) the discontinuous Galerkin advection operator maps constants to zero, conserves the integral of every population for any nodal values (with central and with upwind fluxes), and is dissipative with upwind and energy-neutral with central fluxes. On polynomials up to the element order away from inflow faces it equals minus the directional derivative. Assembling again, or with another time step, gives the same operator.",
["inputs","configurations","histories"],"dimension x refinement x element order x flux x velocity set x all nodal basis vectors x reassembly",
"Tests check convergence for one flow.",
["advection/SEDGMinLee.cpp"],[("cell and face terms","advection/SEDGMinLee.cpp")],["system matrix/vector applied to nodal basis vectors"])
p("S15","Periodic boundaries connect each face to the matching one, both ways",
"With periodic boundaries, every boundary face of one side has exactly one partner on the other side, at the same position except for the period, and the partner of the partner is the face itself; this holds for each pair of sides, dimension, refinement (also when only part of the mesh is refined consistently) and order of creation, and for cells that are rotated against each other. A point of a cell that is carried across the boundary is the same point shifted by the period. Boundaries that do not match, or the same boundary defined twice, are refused.",
["configurations","histories"],"all pairings of sides x dimension x refinements x box shapes x orders of adding boundaries",
"Tests check one or two boxes.",
["boundaries/PeriodicBoundary.cpp","problemdescription/BoundaryCollection.h"],[("face matching","boundaries/PeriodicBoundary.cpp")],["cell map of each periodic boundary; errors raised"])
p("S16","Solid walls conserve mass, impose their velocity, at the right place and time",
"For every arrangement of wall boundaries around a domain, streaming with a wall boundary is complete: every population that enters from outside is set exactly once, so a fluid at rest (or moving uniformly with its walls) stays exactly as it is. A prescribed boundary velocity or pressure that depends on position and time is evaluated at the actual position on the wall where the population hits it and at the time of the step. Bounce-back at a moving wall adds the momentum of the wall velocity at density one. A boundary condition that asks for flow quantities gets the density, velocity, their rates and the viscosity of the flow at the point where the population hits the wall.",
["configurations","inputs","histories"],"all assignments of boundary types to the sides of a box x refinement x order x time step, with uniform and space/time dependent wall values",
"Tests run one wall type on all sides with constant values.",
["boundaries/SemiLagrangianBoundaryHandler.h","boundaries/BoundaryHit.h","boundaries/FEBoundaryValues.h","boundaries/VelocityNeqBounceBack.cpp","boundaries/BoundaryFlags.h"],
[("hit bookkeeping","boundaries/SemiLagrangianBoundaryHandler.h"),("wall rule","boundaries/VelocityNeqBounceBack.cpp")],["populations after a streaming step, points and times at which wall functions are evaluated"])
p("S17","Time integrators apply their own scheme, step after step, independent of history",
"Each time integrator advances a linear system by exactly the update its scheme defines (explicit Runge-Kutta, theta family, exponential, embedded Runge-Kutta), for single and blocked systems, with and without source term. The result of a step depends only on the current state, operator and step size: earlier steps, other step sizes and other systems integrated before leave no trace. Each integrator name and number in the configuration selects the scheme it names.",
["inputs","histories","configurations"],"all integrators x small systems (a grid of matrices incl. nilpotent, singular and diagonal) x step sizes x sequences of steps up to the bound",
"Tests integrate one ODE to an order of convergence.",
["timeintegration/RungeKutta5LowStorage.cpp","timeintegration/ThetaMethod.cpp","timeintegration/ExponentialTimeIntegrator.cpp","timeintegration/DealIIWrapper.cpp","utilities/CFDSolverUtilities.cpp"],
[("stages","timeintegration/")],["state vector after each step"])
p("S18","Filters damp exactly the modes they name and nothing else",
"Applying a filter to a solution that is discontinuous across cells multiplies each Legendre mode of the solution in each cell by the damping factor its parameters define for that mode's degree (largest or summed degree over the directions), leaves modes below the cutoff unchanged, and therefore (with a cutoff of at least one) preserves constants and the mass of every cell. The result does not depend on the other cells or on earlier applications.",
["inputs","configurations","histories"],"dimension x element order x filter parameters (strength, exponent, cutoff, degree by sum or maximum) x all modes x repeated application",
"Tests check that a filter runs or damps one function.",
["smoothing/ExponentialFilter.cpp","smoothing/NewFilter.cpp"],[("mode degrees and damping","smoothing/ExponentialFilter.cpp")],["nodal values before and after filtering"])
p("S19","Reported statistics equal the integrals and norms they are named after",
"Mass, kinetic energy, enstrophy, mean velocity, extreme pressures, error norms against an analytic solution, plane averages and turbulence moments reported by the solver equal their defining integrals, norms or averages of the current density and velocity fields. Turbulence statistics of the whole domain are integrals (not divided by its volume); the enstrophy in three dimensions is the squared norm of the velocity gradient as documented. They do not change the solution, and depend only on the current fields, not on how often or when they were evaluated.",
["inputs","histories","configurations"],"dimension x refinement x order x all products of polynomial fields of a basis the quadrature integrates exactly x evaluation orders",
"Tests compare one flow's values against loosely known numbers.",
["solver/PhysicalProperties.cpp","solver/ErrorStats.cpp","solver/TurbulenceStats.cpp","dataprocessors/GlobalTurbulenceStats.cpp"],
[("quadrature loops","solver/PhysicalProperties.cpp")],["returned statistics"])
p("S20","The population container behaves like an array of independent fields",
"Reading, writing, copying, assigning, resizing and linear operations on the container of populations behave as on an array of independent fields: an operation on one direction never changes another, copies share nothing with their source, and the block view (all directions but the first) and the per-direction view always show the same values.",
["histories"],"all operation sequences up to the depth bound over containers with distinct values, compared with a reference array",
"Tests call each operation once.",
["solver/DistributionFunctions.cpp","solver/DistributionFunctions.h"],[("storage","solver/DistributionFunctions.cpp")],["values read through every view after each operation"])
p("S21","Results do not depend on the number of processes",
"A simulation run with any number of MPI processes yields the same density, velocity and population fields, the same statistics, and the same checkpoint contents as the serial run, up to floating-point summation order; a checkpoint written with one number of processes can be restarted with another. The pieces of the solution files written in parallel together hold what the serial run writes.",
["configurations","schedules"],"process counts 1..4 x solver configurations x restart process counts x late process",
"The existing tests run on one process only.",
["solver/CFDSolver.cpp","advection/SemiLagrangian.cpp","solver/Checkpoint.cpp","utilities/SemiParallelMatrix.cpp"],
[("ghost exchange and ownership","solver/CFDSolver.cpp")],["fields sampled at grid points, statistics"])
p("S22","Uniform flows stay uniform and mass is conserved in every configuration",
"For every solver configuration that is accepted, a fluid that starts uniform in a periodic domain (at rest or moving) keeps its density and velocity at every node and step, and for any initial flow in a periodic domain the total mass stays what it was in schemes that conserve it (discontinuous Galerkin of any order; semi-Lagrangian of order one on uniform meshes), with density and velocity consistent with the populations after each step. A configuration that cannot be run is refused with an error instead of producing a result.",
["configurations","histories"],"cross product of streaming, collision, equilibrium, velocity set, integrator, order, scaling and initialization options x a few steps",
"Tests run a few complete configurations.",
["solver/CFDSolver.cpp","collision_advanced/CollisionSelection.h","advection/SemiLagrangian.cpp","advection/SEDGMinLee.cpp"],
[("stream/collide loop","solver/CFDSolver.cpp")],["density, velocity and populations after each step"])
p("S23","A simulation starts from exactly the flow the problem describes",
"After construction, the solver's density and velocity equal the problem's initial density and velocity at every node, for every initialization scheme, velocity set, scaling and dimension, and the populations have exactly these moments (iterative schemes keep the velocity and may change density and populations, or be refused). Initialization by velocity gradients gives the populations the viscous stress -2 density cs^2 tau dt S. Iteration and time start at zero, and the initialization leaves no trace in the collision used later. Adding to, or scaling, the velocity of a solver gives the flow a fresh start with that velocity gives.",
["configurations","inputs"],"all initialization schemes x velocity sets x equilibria x scaling x element order x initial fields",
"Tests check equilibrium initialization of one problem.",
["solver/CFDSolver.cpp","problemdescription/ProblemDescription.h"],[("initialization","solver/CFDSolver.cpp")],["density, velocity, populations after construction"])
p("S24","The compressible solver conserves mass, momentum and energy",
"For every accepted configuration of the compressible solver, a uniform gas (any density, velocity, temperature it supports) stays uniform, and a collision step conserves density, momentum and total energy (kinetic plus internal, with the configured heat capacity ratio) at every node. The reported density, velocity and temperature are the moments of the two population sets. The deviatoric stress relaxes with the configured viscosity and the heat flux with viscosity and Prandtl number. A restarted simulation continues with the saved populations; scheme combinations the solver does not support are refused. (Equilibria that depend on the temperature only.)",
["configurations","inputs","histories"],"scheme x velocity set x heat capacity ratio x Prandtl number x grid of gas states x steps",
"Tests run one shock tube.",
["solver/CompressibleCFDSolver.h","collision_advanced/CollisionSelection.h","collision_advanced/CollisionOperator.h"],[("compressible collision","collision_advanced/CollisionOperator.h")],["fields and populations after each step"])
p("S25","Time step, unit and mesh-size utilities compute what they promise",
"The time step for a requested CFL number is that number times the smallest distance divided by the velocity set's reference speed (its getMaxParticleVelocityMagnitude) and the squared element order, for every mesh, order and velocity set, and halves when the mesh is refined once; the node distances reported for a mesh are the true minima over all cells. Names and numbers of options map to each other one to one, and vector norms and angles equal their definitions.",
["inputs","configurations"],"meshes (box shapes, refinements, stretched) x orders x velocity sets x CFL; all names; a grid of vectors",
"Tests check one mesh.",
["utilities/CFDSolverUtilities.cpp","utilities/Math.cpp","utilities/SemiParallelMatrix.cpp"],[("helpers","utilities/CFDSolverUtilities.cpp")],["returned values"])
p("S26","Benchmark problems agree with themselves",
"For every benchmark flow, the initial density and velocity equal its analytic solution at time zero where it has one, the analytic solution satisfies its own boundary values (periodic or prescribed) and the incompressible equations with the viscosity and force of the problem at all times, and its parameters (viscosity, Reynolds number, characteristic velocity, domain size) are consistent with each other and with the mesh it generates. Its mesh fills the documented domain with nondegenerate cells, and each boundary id of the mesh has exactly one boundary in the collection, at the position it is meant for; collections refuse boundary ids that are already used and return what was added.",
["configurations","inputs"],"all benchmark flows x parameter grids x a grid of points and times",
"Tests check a few point values.",
["benchmarks/TaylorGreenVortex2D.cpp","benchmarks/CouetteFlow2D.cpp","benchmarks/PoiseuilleFlow2D.cpp","benchmarks/ShearLayer2D.cpp"],[("analytic functions","benchmarks/")],["function values, mesh, boundaries"])
p("S27","Regularization keeps the hydrodynamic moments and removes everything else",
"Regularization by pseudo-entropy maximization replaces the populations of every node, after every collision, by those with the same density, momentum and second moments (with the option \"with e\": without the trace of the second moments) whose remaining part is the velocity set's weighted least one: it is a projection, so applying it again changes nothing, density and velocity fields stay consistent with the populations, and all views of the populations show its result. A regularization scheme that is chosen in the configuration is the one the run uses, or the solver refuses it with an error for velocity sets it does not exist for; it is never silently ignored.",
["inputs","configurations","histories"],"a basis of node populations x velocity sets x all regularization schemes x streaming x order x grids x steps",
"Tests never switch regularization on.",
["dataprocessors/PseudoEntropicStabilizer.cpp","solver/CFDSolver.cpp"],[("projection matrices","dataprocessors/PseudoEntropicStabilizer.cpp"),("choice of the scheme","solver/CFDSolver.cpp")],["populations after each step"])

p("S28","Solution files hold the fields of their iteration",
"With output switched on, a run writes a solution file for the start, for every iteration that is a multiple of the configured interval, and for the last one, under a name that carries the iteration, and no others. Each file is complete and readable: its cells are those of the mesh, subdivided to the element order, and at each of its points the density, velocity (temperature for the compressible solver, analytic solution for benchmarks, averages with turbulence statistics) are those of the solver at that iteration. The master file of an iteration names exactly the pieces and columns that were written, and the grid file holds the mesh of the run.",
["configurations","histories"],"output interval x element order x dimension x streaming x grid x number of steps x solver",
"Tests never read a written solution file.",
["solver/CFDSolver.cpp","solver/CompressibleCFDSolver.h"],[("output schedule and fields","solver/CFDSolver.cpp")],["names and decoded contents of the files written"])
