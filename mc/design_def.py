# property -> text that gen_design.py puts into DESIGN.md next to what checks.py says
HEAD = """# Model checking NATriuM

One deciding method for every property: *bounded-exhaustive exploration of the real
code*. A harness (`mc/harness/*.cpp`) is linked against the natrium library compiled
from /repo's working tree, enumerates every configuration / input / operation sequence /
crash point / process schedule of a stated finite space, runs the real code on each, and
compares every state that is reached with a small reference model written in the harness,
or checks an invariant on it. Nothing is sampled, and no solver's verdict over source is
used. Where a model exists (S08, S09, S12, S15, S18, S20, S25, S26) it is an explicit-state
model whose traces are *all* executed on the implementation in lockstep: a trace that the
code does not follow is the violation, so that the model cannot drift from the code.

Many properties are about linear operators (streaming, filters, functionals). There the
bounded space contains a basis of the input space (unit vectors, all modes, all rows of a
matrix): the enumeration then decides the property for *all* nodal values of that
configuration, and the bound concerns meshes, orders, velocity sets and step sizes only.

## How a check runs

* `mc/build.py` compiles the library sources of /repo's working tree (`-O1 -DNDEBUG`, the
  release configuration that users run) into `/verif/build/` (git-ignored; objects are keyed
  by the content of all files they include) and links the harness. No hooks in /repo are needed
  (MANIFEST has no `hooks`): the harnesses use public interfaces, subclasses, and
  interposed library calls.
* `mc/run.py <id> --tier quick|thorough` starts several processes of the harness. They share
  a counter, so that each *case* (a named element of the enumerated space) is run once.
  Each process writes what it covered: states, transitions, classes of outcomes.
* A violation, crash or hang is first replayed alone (`--only <case>`) or, when it depends
  on what the process ran earlier, as the minimized sequence of cases; only what reproduces
  twice is reported, with a replay file: `python3 mc/run.py <id> --replay FILE`.
* A violation whose key is listed in `KNOWN_FINDINGS.txt` prints `KNOWN-FINDING:` and does not
  fail the check. Keys name the configuration and what differs, so that another violation
  of the same property is still reported.
* The evidence file lists how many cases, states and transitions were executed, the classes of outcomes with
  how often each was seen (to show that the check is not vacuous), and the bounds.
* `--tier thorough` enlarges the bounds as stated per property. A time limit (`MC_MAX`)
  stops an exploration early; the evidence says so (`exhaustive: false`).

`mc/flow.h` (small periodic/walled flows, field access by support point), `mc/collide.h`
(collision tuples, node states, reference equilibria) and `mc/mc.h` (cases, outcomes,
violations) are shared by the harnesses. `mc/props_def.py`, `mc/checks.py` and
`mc/design_def.py` are the sources of properties.jsonl, MANIFEST.json and this file
(`gen_props.py`, `gen_manifest.py`, `gen_design.py`).

## What is taken as true throughout

* deal.II, Trilinos, p4est, Open MPI and the C++ library do what they document.
* A property that is polynomial/linear in a parameter and holds on more grid points than
  its degree holds between them; otherwise the grid is the bound.
* Release build with one thread per process (deal.II threads = 1): the library itself starts no threads.
* Floating-point: comparisons are to 1e-10..1e-14 relative unless a section says otherwise.

"""
# id -> (why tests cannot, limits/notes)
X = {
"S01": ("Tests look at a few moments of a few sets at scaling one. Here all moments up to the first one that a set does not reproduce are enumerated, so that the degree itself is checked, at fractional and large scalings.",
  "Weights of some sets are tabulated with 9 digits (D2Q777 with 4): tolerances follow."),
"S02": ("Tests compare a few equilibria with numbers; an error in a single specialisation (dimension x velocity set x form) shows only in moments of that instance at non-zero velocity or at temperatures other than one.",
  "The incompressible form has the momentum of its reference density (documented, part of the statement)."),
"S03": ("The specialised collision code (loop-unrolled per velocity set) may lose a term for one direction only. One-hot node states single out every population.", ""),
"S04": ("A carried-over cache is invisible when all nodes differ or all are equal; the sequences contain neighbours which agree exactly in one quantity and differ in the others (found necessary by the seeded bug b04).", ""),
"S05": ("The viscosity of a scheme is only observable through relaxation of non-equilibrium, with parameters at which a wrong factor matters, and after other collisions ran before (seeded b03).",
  "s05_solver runs complete simulations with every integrator, and compares the decay that the collision uses with the time step by which the simulation advances."),
"S06": ("Forces enter at several places (equilibrium, source term, macroscopic velocity); tests use one scheme.", "Forced flows: the fields that are shown directly after loading a checkpoint lack the half force step (they are corrected in the first collision)."),
"S07": ("The selection is a product of five enumerations spread over nested switch statements; a silent fall-through gives plausible flows.", "The cross product is complete. getTau() of non-BGK collisions returns 0 (legacy interface, not part of the property)."),
"S08": ("Options share a parameter tree: an option can disturb another one only in certain orders.", "A violation found by this check after own repair df431e8 (defaults) was a stale expectation in the table of the harness; the table was corrected."),
"S09": ("Command lines combine: 2- and 3-option combinations are what users type and what tests leave out.", ""),
"S10": ("Restart errors show only in the following steps, and only for some cuts of the history.", "Adaptive integrators are excluded (their step size is no part of a checkpoint)."),
"S11": ("Needs a crash inside a particular write.", "The crash model is a killed process: completed file operations persist in order. Power failure with reordering is not covered, since the implementation never syncs and does not promise it. Failing writes of data files are not reported by deal.II and not covered."),
"S12": ("Off-by-one errors of intervals appear for particular combinations of limit, interval and restart.", "A convergence threshold above one stops at iteration 0 (excluded)."),
"S13": ("Departure points lie inside, on edges, on vertices, across several cells, across periodic faces and reflecting each other, depending on time step, order and direction.", "Refined meshes with hanging nodes are not supported by the semi-Lagrangian operator. Small time steps changes were added after seeded b07 was missed."),
"S14": ("Conservation has to hold for all nodal values; the matrix is checked completely.", "Stated for parallelogram cells; elsewhere collocated quadrature is not exact and conservation is not promised."),
"S15": ("Face orientations and cell orders depend on how the mesh was created and in which order boundaries were added.", "One process (several: S21)."),
"S16": ("A population that is missed, hit twice, or evaluated at the wrong time needs a certain combination of corner, time step and direction.",
  "Hit points on cells that are no parallelograms are approximate in the code (excluded). Populations whose path is trapped in a corner stay (documented in the code). The velocity term of bounce-back uses density one. DG walls evaluate the velocity at assembly. ThermalBounceBack's wall temperature is not observable except with Q=45 and gamma 1.4, and is not covered."),
"S17": ("Stale state inside an integrator object appears only after certain histories (seeded b01: a small change of step size).", ""),
"S18": ("The action on one mode of a certain degree is hidden in smooth fields (seeded b02: a cache across filters).", ""),
"S19": ("Every column has to agree with its name, for every element and mesh, also on second and later evaluations.", "Columns of residua are not checked by value. In three dimensions enstrophy is the squared Frobenius norm of the gradient, as documented. Dilatational/solenoidal dissipation of the compressible statistics is compared with the formula of the code (it uses a temperature-dependent viscosity)."),
"S20": ("Aliasing between views appears after certain operation sequences (seeded b05).", ""),
"S21": ("Parallel errors depend on how cells are distributed and which process is late.",
  "Open MPI with shared memory; whole processes are delayed (each process in turn at every barrier, broadcast and opened file); message orders inside libraries are not permuted. If one process throws an exception, the others hang in deal.II's TimerOutput destructor (a weakness of the design, not part of the property)."),
"S22": ("A defect of one combination (order x integrator x walls x stencil) shows only there.", "Mass conservation is stated for SEDG (any order) and semi-Lagrangian of order one on uniform meshes. Embedded integrators: step size may only be checked against the viscosity (S05)."),
"S23": ("The initial state is only looked at indirectly by tests.", "ITERATIVE may be refused for REGULARIZED in 3D / MRT in D3Q19 (legacy models), and is free in densities."),
"S24": ("Energy conservation has to hold for every population state, not only near equilibrium; scheme combinations are many.", "D2Q777 is not run (4 GB and 8 s per solver). Refined restarts reconstruct g and are only checked for uniform gas."),
"S25": ("Utilities with many small branches.", "CFL reference speed is the library's nominal sqrt(2) (D3Q15: sqrt(3)) times scaling. getMinimumDoFDistance is not instantiated in the library and not covered."),
"S26": ("Equations hold at all points and times or not at all; a wrong viscosity in the decay is small at early times.", "BackwardFacingStep2D cannot be used. The repairs for four of the findings would lie under benchmarks/, which the rules for commits to /repo exclude; they were made, reverted, and are known findings."),
"S27": ("No test of the baseline uses regularization; a wrong matrix entry changes higher moments only slightly.", "Found that two documented schemes and all other velocity sets were silently ignored (repaired)."),
"S28": ("No test reads a written file; the schedule, the subdivision and the columns are only visible there.", "The pieces of several processes are compared in S21. The compressible solver writes no grid.vtk (switched off in the source)."),
}
TAIL = """## Genuine defects found

`KNOWN_FINDINGS.txt` lists every one: lines starting with `fixed:` name the commit in /repo
that repairs it (the check fails again if it returns), JSON lines are recorded findings that the checks
print as KNOWN-FINDING. Findings that are recorded and not repaired, and why:

* S24: D2Q19H / D2Q25H with BGK_EQUILIBRIUM and BGK_REGULARIZED are accepted by the compressible solver but
  are isothermal / run BGK. Which of these combinations
  should be refused, and which should run with another equilibrium, is the authors' decision (the quartic equilibrium exists for both).
* S26: analytic solutions of PoiseuilleFlow2D/3D are commented out (a decision of the authors);
  BackwardFacingStep2D is unfinished; the other entries lie under `src/library/natrium/benchmarks/`.

Noticed in the code, outside the stated properties: EXACT_DIFFERENCE forcing in init mode is unreachable;
DistributionFunctions::operator= does not copy m_dg; VmultLimiter's body is commented out; CompressibleErrorStats is never called;
applyShockSensor is never called; plane statistics without grid points give NaN; SEDGMinLee::updateSparsityPattern uses a block that is not
"non-opposite" as named (same pattern).

## False alarms, and what was done

* S08 after repair df431e8: expectation table corrected.
* S13: hierarchical shape values under 1e-10 are dropped by the code on purpose; tolerance 1e-7.
* S16: paths trapped in corners and hit points on non-parallelograms: statement narrowed.
* S19: enstrophy in 3D and volume normalisation: statement follows the documentation.
* S22: mass conservation was first stated for semi-Lagrangian streaming of all orders, which no interpolation scheme has; narrowed.

"""
CAUGHT = {
"b04": "by S04, after neighbours that agree in some quantities were added",
"b07": "by S13, after small changes of the time step were added",
}
