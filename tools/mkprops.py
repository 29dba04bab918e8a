#!/usr/bin/env python3
# Writes /verif/properties.jsonl from the table below.
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append(dict(id=id, title=title, statement=statement,
        quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=a))

TT="include/tree_topology/tree_topology.h"
DP="include/physics/default_physics.h"

p("C01","Neighbour search finds exactly the interacting particles",
  "After a domain update, a neighbourhood sweep applies the given operation exactly once to every locally owned particle on every process. The neighbour list it is given has no duplicates, includes the particle itself, contains every particle of the whole system whose distance is at most the mean of the two smoothing lengths, and contains no particle farther away than the larger of the two smoothing lengths (for equal smoothing lengths h this is exactly the set within h). This holds for every configuration of particles at distinct positions with at least one particle per process, every process count and every message timing.",
  ["inputs","schedules","configurations"],
  "all particle configurations (including clustered, mixed h, exact-touch pairs), 1-3 dimensions, all process counts and all message arrival orders",
  "The reliable tests never build a tree; the tree tests need FleCSI and check one configuration under the single schedule that happened. Missing one remote neighbour only for one arrival order is invisible to sampling.",
  [TT,"include/tree_topology/tree_geometry.h",DP,"mpisph/bodies_system.h"],
  [("asynchronous neighbourhood sweep","traversal_sph in "+TT),("request/reply service","check_comms_/wait_comms_/handle_requests in "+TT),("node bounding boxes","compute_cofm in "+DP)],
  ["the callback arguments of the sweep"])
p("C02","Remote neighbours carry the owner's current field values",
  "Whenever a sweep hands out a neighbour owned by another process, its fields have values its owner held at or after the last refresh of the remote copies (the domain update or an explicit ghost refresh), and exactly the owner's current values when nothing changed since that refresh. After a refresh no value from before it is ever seen.",
  ["schedules","histories"],
  "all histories of field updates, refreshes and sweeps, every process count, every message timing",
  "No existing test changes fields between sweeps and compares remote copies with owners.",
  [TT,"mpisph/bodies_system.h"],
  [("ghost refresh","reset_ghosts/build_tree in "+TT),("entity replies","handle_requests in "+TT)],
  ["neighbour field values inside the sweep callback"])
p("C03","Distributed phases always terminate and leave no message behind",
  "Every domain update, ghost refresh, neighbourhood sweep and gravity sweep that all processes enter is eventually left by all of them, for every message timing, every send-completion behaviour (buffered or synchronous) and any process count. When it is left no message, request or probe belonging to it is outstanding, no message has been truncated, and no send buffer was changed or released before its message was taken.",
  ["schedules","configurations"],
  "all interleavings of the processes, eager and rendezvous sends, all process counts including ones that are not powers of two",
  "Termination and buffer lifetime depend on arrival order; a test sees one order per run, and a stuck run only when unlucky.",
  [TT,"mpisph/psort.h","mpisph/bodies_system.h"],
  [("termination handshake","DONE_COMMS handling in traversal_sph/traversal_fmm of "+TT),("reply/request queues","request_, clean_comms_ in "+TT)],
  ["state of every process and of the message layer when the phase returns"])
p("C04","Tree nodes summarise exactly the particles below them",
  "After a domain update or ghost refresh each process's tree root describes the whole system: total particle count, total mass and centre of mass, with a box enclosing every particle's position extended by half its smoothing length and a radius around the centre of mass enclosing every particle's position; the root is the same on every process up to rounding. Every other non-leaf node visible on a process likewise has the count, mass and centre of mass of precisely the particles of the whole system that lie in its key cell, and such a box. Every local particle is reachable from the root.",
  ["inputs","configurations"],
  "all particle sets and partitions over any number of processes (powers of two and others)",
  "Existing tree tests check one random set on 1-4 processes with FleCSI; the hypercube exchange has separate logic for other process counts.",
  [TT,DP,"include/physics/node.h"],
  [("local build","build_tree in "+TT),("top tree exchange","share_nodes_ in "+TT),("aggregation","compute_cofm in "+DP)],
  ["tree walk from the root on each process"])
p("C05","Distributed sort yields the globally ordered permutation",
  "The distributed sort leaves the concatenation of all processes' sequences in rank order as a sorted permutation of the input. Every process ends with exactly the number of elements it had (the distribution the sort is given), for any keys (including many equal ones), any counts including zero and any process count.",
  ["inputs","configurations","schedules"],
  "all inputs up to the bound, all distributions including empty processes, all process counts",
  "The one psort test uses random keys on one machine; duplicate keys straddling a split and zero-sized targets are corner cases of median splitting.",
  ["mpisph/psort.h"],
  [("splitter search and exchange","psort_split / alltoall / merge in mpisph/psort.h")],
  ["returned local sequences"])
p("C06","Tree gravity equals direct summation and is partition independent",
  "With acceptance angle zero, the gravity sweep gives every particle exactly the acceleration and potential of the direct sum over all other particles, up to rounding. With a non-zero angle the error stays within the first-neglected multipole bound for that angle, and the result does not depend on message timing; each pair of particles contributes exactly once.",
  ["inputs","schedules","configurations"],
  "all 3D particle sets, angles, process counts and message timings",
  "The FMM test compares one sphere within loose tolerance; a pair lost or counted twice for a particular partition or arrival order stays below it.",
  [TT,"include/physics/fmm.h","include/tree_topology/tree_geometry.h"],
  [("dual tree walk","traversal_fmm in "+TT),("expansions","include/physics/fmm.h"),("acceptance test","mac in include/tree_topology/tree_geometry.h")],
  ["gravitational acceleration and potential of every particle"])
p("C07","Domain update redistributes particles without loss",
  "A domain update preserves the multiset of particles with all their attributes. Afterwards the particles are in global key order across processes, keys are those of their positions in a domain range that covers every particle's position extended by its smoothing length and is identical on all processes, and counts per process equal the previous counts per process.",
  ["inputs","histories","configurations"],
  "all configurations of particles at distinct positions (at least one per process), sequences of moves and updates, all process counts",
  "No reliable test executes an update; loss or duplication only occurs for particular key layouts.",
  ["mpisph/bodies_system.h","mpisph/psort.h",TT],
  [("update","update_iteration, mpi_compute_range in mpisph/bodies_system.h"),("sort","psort in mpisph/psort.h")],
  ["local particle arrays after the update"])
p("C08","Space-filling curves are bijective orderings of the grid",
  "For every dimension and depth, distinct cells get distinct keys and every key of the depth is used; the truncation of a deep key is the key of the enclosing cell, and (except for 1D Hilbert keys, which have no inverse) converting a key back gives the cell it came from. Hilbert keys that follow each other belong to face-adjacent cells, and points on or above the upper domain edge get the key of a boundary cell.",
  ["inputs"],
  "all grid cells at all depths up to the bound and cells adjacent to all power-of-two boundaries at full depth",
  "The two unit tests sample random points and a fixed table at one depth.",
  ["include/tree_topology/filling_curve.h"],
  [("curves","hilbert_curve_u, morton_curve_u in include/tree_topology/filling_curve.h")],
  ["key values and key-to-coordinate conversions"])
p("C09","Key algebra is the algebra of tree paths",
  "Keys behave as paths in the 2^d-tree: appending a child then removing it restores the key, a parent has depth one less, the last digit identifies the child, truncation gives the ancestor at that depth, and ordering of equal-depth keys is the lexicographic order of their paths. Keys of different paths are never equal.",
  ["inputs"],
  "all paths up to the bound in 1, 2 and 3 dimensions and full-depth paths",
  "The test checks a handful of fixed keys.",
  ["include/tree_topology/filling_curve.h"],
  [("key operations","filling_curve_u in include/tree_topology/filling_curve.h")])
p("C10","Hash table behaves as a map for every operation sequence",
  "For every sequence of insertions, lookups and clears the key hash table answers as a finite map: a key is found iff it was inserted since the last clear, with its own value, and size counts the entries inserted since the last clear; a new table is empty.",
  ["histories"],
  "all operation sequences up to the bound over keys that share buckets and keys that do not",
  "No test covers the hash table.",
  ["include/tree_topology/hashtable.h"],
  [("buckets","hashtable in include/tree_topology/hashtable.h")])
p("C11","Geometric predicates agree with their geometric meaning in 1-3D",
  "The distance, box-box, sphere-box, point-in-box and acceptance predicates answer exactly according to their geometric definition in each dimension (points exactly on a lower face of a box and exact equality in the acceptance test may go either way). They are symmetric where the relation is, and never report 'no intersection' for shapes that overlap.",
  ["inputs"],
  "all shape pairs on an integer lattice, touching, nested and disjoint, in 1, 2 and 3 dimensions",
  "No reliable test covers them; each dimension is a separate hand-written specialisation.",
  ["include/tree_topology/tree_geometry.h"],
  [("predicates","tree_geometry<T,1|2|3> in include/tree_topology/tree_geometry.h")])
p("C12","Vector and tensor algebra obeys the algebraic laws",
  "Points and symmetric or full tensors of every supported rank and dimension follow componentwise linear algebra: compound and plain operators agree, also when both operands are the same object, symmetric components share storage, named and indexed access reach the same component, and distances, norms, dot and cross products, normals, midpoints and centroids equal their component formulas.",
  ["inputs","programs"],
  "all small-integer operands, all operators including self-aliasing",
  "The tensor test fixes a few operands and never aliases; the point class has no reliable test.",
  ["include/tensor.h","include/space_vector.h"],
  [("tensor operators","include/tensor.h"),("point operators","include/space_vector.h")])
p("C13","Parameter files set exactly what they say",
  "Reading a parameter file sets each named parameter to the written value, independent of line order, spacing, comments and quoting style, and leaves the others at their defaults; boolean words, numbers and strings are converted exactly. A later assignment of the same parameter wins, and unknown names, unknown keywords and malformed lines (no equals sign, no name, no value) stop the program with an error instead of being ignored; a string is stored completely or refused.",
  ["inputs","programs"],
  "all files composed of up to the bound of lines from the grammar's forms",
  "The existing test reads a single fixed file and is not among the reliable ones.",
  ["include/params.h"],
  [("parser","read_params, set_param in include/params.h")])
p("C14","Kernels are normalised, compact and consistent with their gradients",
  "Every selectable kernel in every dimension integrates to one, vanishes at and beyond the support radius h, is non-negative and non-increasing with distance (except kernels designed to change sign), and scales with h as it must. The gradient function is the derivative of the kernel function along the separation vector and points accordingly.",
  ["inputs","configurations"],
  "all kernels, dimensions and sinc indices, on dense grids of distances including all piecewise break points, several h",
  "The kernel test only covers some kernels at one h by random points and is not among the reliable ones.",
  ["include/physics/kernels.h"],
  [("kernels","include/physics/kernels.h")])
p("C15","Equations of state are thermodynamically consistent",
  "For every selectable equation of state the pressure is that of its defining relation at the particle's own state and the sound speed is the square root of the slope of the pressure with density at constant entropy. Initialisation sets the particle's remaining thermodynamic state so that a subsequent pressure evaluation returns the pressure it was initialised with. Evaluations of one particle depend neither on which others were evaluated before nor on whether the run was restarted, and change nothing but the quantity evaluated.",
  ["inputs","histories","configurations"],
  "all equations of state over a grid of densities and energies, all evaluation orders",
  "No reliable test covers the equations of state.",
  ["include/physics/eos/eos.h"],
  [("eos functions","include/physics/eos/eos.h")])
p("C16","Hydrodynamic pair forces conserve momentum and energy",
  "Over the whole system the hydrodynamic accelerations sum (mass-weighted) to zero momentum and zero angular-momentum change, and the rates of kinetic plus internal energy sum to zero, with and without artificial viscosity; the total-energy rate form conserves likewise and equals velocity times acceleration plus the internal-energy rate. Densities equal the kernel-weighted mass sum over exactly the particles within support; every rate is the documented pair sum and does not depend on the order of the neighbour list.",
  ["inputs","configurations"],
  "all small particle configurations with differing masses, smoothing lengths, velocities, in 1-3 dimensions",
  "No test evaluates the physics of a set of particles.",
  [DP,"include/physics/viscosity.h","include/physics/kernels.h"],
  [("rates","compute_acceleration, compute_dudt, compute_dedt, compute_density in "+DP)])
p("C17","Artificial viscosity is symmetric, dissipative and only compressive",
  "Between any two particles the viscous term is symmetric under exchange, zero when they recede, and otherwise acts as a non-negative pressure, so that it never increases relative kinetic energy and never cools. Time-dependent viscosity coefficients stay within their configured bounds and are finite for every flow, and the divergence they are driven by is that of velocity differences, so nothing depends on the frame of reference.",
  ["inputs","configurations"],
  "all pairs on a lattice of states, both viscosity schemes",
  "No reliable test covers viscosity.",
  ["include/physics/viscosity.h",DP],
  [("viscosity","include/physics/viscosity.h")])
p("C18","Periodic boundaries wrap particles and produce exact images",
  "For particles numbered from zero in boxes longer than the depth of the images, at most one box length outside (no permanent wall particles): after each update with periodic boundaries, on any number of processes and for any distribution of the particles over them, every interior particle lies inside the closed box, having moved by whole box lengths only in periodic directions, and keeps its attributes. Image particles are precisely periodic copies of the interior particles, shifted by whole box lengths and otherwise identical, at most one for each shift, and none is missing within reach (2.4 smoothing lengths, or more where dependent passes need it) of a face, edge or corner; repeated updates neither accumulate nor lose interior particles. A whole run therefore gives every interior particle the values obtained from periodic distances, independent of where the set lies along the box.",
  ["inputs","histories","configurations"],
  "positions on faces, edges, corners, next to them and outside; every combination of periodic directions; 1-3 dimensions; 1-4 processes and splits; sequences of updates; whole runs against periodic direct sums and translated runs",
  "No reliable test enables periodicity.",
  ["include/physics/boundary.h","mpisph/bodies_system.h"],
  [("wrap, clean and generate","include/physics/boundary.h")])
p("C19","Time step and output schedule hit every requested output exactly once",
  "With adaptive steps every time step is at most the stability limit (the CFL fraction of the smallest of distance over speed, root of distance over acceleration, and distance over the signal speed of any interacting pair, over all particles of all processes) and is shortened only to land on the next requested output; the time advances monotonically. Outputs requested by iteration come at exactly the multiples of their interval, outputs requested by time at exactly the multiples of theirs, each exactly once, also after a restart. The run performs every iteration up to the configured final iteration and none past the configured final time. The step used after an output is not permanently shortened by it.",
  ["histories","configurations"],
  "all sequences of stability limits, all combinations of output intervals up to the bound",
  "No test covers the scheduler.",
  [DP,"include/physics/analysis.h"],
  [("step selection","set_adaptive_timestep, advance_time, termination_criteria in "+DP)])
p("C20","External forces are the gradients of their potentials and add up",
  "Each selectable external force equals minus the gradient of the potential used for energy accounting. Selecting several gives the sum of each one's contribution irrespective of order, and selecting none gives zero.",
  ["inputs","configurations"],
  "all positions on a lattice, all selectable forces and pairs thereof, 1-3 dimensions",
  "No reliable test covers external forces.",
  ["include/physics/eforce.h"],
  [("forces and potentials","include/physics/eforce.h")])
p("C21","Density profiles have unit mass and consistent cumulative mass",
  "Every selectable spherical density profile is non-negative, has total mass one inside its radius, and its cumulative mass function is the radial integral of its density: zero at the centre, monotone, one at the edge. A profile read from file interpolates its table exactly at the nodes and is never evaluated outside its table.",
  ["inputs","configurations"],
  "all profiles on dense radius grids, dimension variants, and all small table files",
  "No test covers the profiles.",
  ["include/physics/density_profiles.h"],
  [("profiles","include/physics/density_profiles.h")])
p("C22","Lattice generators place the number of particles they announce",
  "Every lattice generator produces exactly the number of particles its counting mode announces, all at distinct positions inside the requested domain, with nearest neighbours at the requested spacing, appended at the requested offset without touching other particles.",
  ["inputs","configurations"],
  "all lattice types, domain shapes, dimensions and spacings within the bound",
  "No reliable test covers the lattices.",
  ["include/lattice.h"],
  [("generators","include/lattice.h")])
p("C23","Snapshots round-trip across any process counts",
  "Particles written by any number of processes with any split and read by any number of processes give back every particle once with bit-identical saved fields, plus the simulation time, iteration and step, in the written order. Each reading process gets a balanced contiguous share. Where a file has no ids the particles are numbered from 1 in their order; other columns it lacks are zero.",
  ["inputs","configurations"],
  "all splits of N particles over writers and all reader counts up to the bound",
  "The I/O test writes and reads with one configuration and is not among the reliable ones.",
  ["mpisph/io.h"],
  [("writer and reader","outputDataHDF5, inputDataHDF5 in mpisph/io.h")])
p("C24","Restart finds the requested snapshot and continues the series",
  "For every history of runs and restarts the snapshot loaded is the one of the requested iteration, in single-file and multi-file mode, for prefixes in any directory; a requested iteration, file or step that does not exist is reported and the run ends instead of loading another. Continuing a series under its own prefix keeps all snapshots up to the requested one, removes the later ones (in one file, where they cannot be removed, the run is refused unless the requested one is the last) and appends every later output, complete and in order; a new run or another prefix starts a new series. Other files are untouched. When a run is killed at any moment, the snapshots it finished can still be loaded and continued (or the run is refused, not loaded with wrong values).",
  ["histories","configurations","crash_points"],
  "all histories of writes and restarts up to the bound, both file layouts, stopped after any snapshot",
  "No reliable test covers restart.",
  ["mpisph/io.h"],
  [("file discovery","H5P_findIterationSnapshot, H5P_removePrefix etc. in mpisph/io.h")])
p("C25","Collective helpers exchange exactly what was addressed",
  "The all-to-all and gather helpers deliver each element to the process it was addressed to (itself included) exactly once, in sender order then element order, whatever the receive buffer held before, for any counts including zero, for every timing and process count. The reduction helpers leave the minimum, maximum or sum of all processes' values on every process, for every value type, and every process reads the parameter file named to the first.",
  ["inputs","schedules","configurations"],
  "all count matrices up to the bound, all schedules",
  "No reliable test covers them.",
  ["mpisph/utils.h"],
  [("helpers","mpisph/utils.h")])
p("C26","Leapfrog integration is the exact kick-drift-kick map",
  "Each kick advances velocity, internal or total energy of every particle by exactly half the step times its current rate, each drift its position by the step times its velocity, and each operation changes nothing else. A driver's step is kick, drift, recomputed forces, kick: the snapshots of a run satisfy this map, it is exact for constant acceleration, and time reversible for velocity-independent forces.",
  ["inputs","histories"],
  "all operation sequences up to the bound on lattices of states",
  "No reliable test covers integration.",
  ["include/physics/integration.h"],
  [("integrator","include/physics/integration.h")])
p("C27","Reported totals do not depend on how particles are distributed",
  "Total mass, momentum, angular momentum, kinetic, internal, gravitational and total energy, the average smoothing length, and the diagnostic extrema and means of smoothing length, speed and neighbour count reported for a set of particles equal their definition over the whole set, whatever the split over processes, and each report is independent of earlier reports.",
  ["inputs","configurations","histories"],
  "all splits of small particle sets over process counts, sequences of reports",
  "No reliable test covers analysis output; single-process runs hide missing reductions.",
  ["include/physics/analysis.h","include/diagnostic.h",DP],
  [("reductions","include/physics/analysis.h, include/diagnostic.h")])
p("C28","Relaxation keeps particles inside the domain and follows its displacement rule",
  "The particle relaxation (WVT) moves each particle by the step size times the sum of the repulsions from its neighbours (equal and opposite within a pair of equal smoothing lengths) and, next to a reflective boundary, from the mirror images; next to a frozen boundary without a radial component. Steps leaving the domain are shortened and reflected, so no particle that is inside ends outside the boundary, every coordinate and smoothing length stays finite, and density and smoothing length are those of the profile at the new place. Variable smoothing lengths add up to the configured number of neighbours. A run ends at the configured iteration or when few enough particles move, the same for every process count.",
  ["inputs","configurations"],
  "all small configurations, near and across the boundary, 1-3 dimensions, both schemes",
  "No test covers the relaxation.",
  ["include/physics/wvt.h"],
  [("relaxation","include/physics/wvt.h")])
p("C29","A simulation's result does not depend on partition or timing",
  "A hydrodynamic or self-gravitating run started from the same particles gives, particle by particle, the same state after each step up to rounding for every process count and message timing. Without external forces it keeps every particle and its mass, and (without self-gravity by multipoles, which is approximate) conserves linear momentum up to rounding.",
  ["schedules","configurations","histories"],
  "all process counts up to the bound, all schedules up to the deviation bound, several steps",
  "No reliable test runs a step of a simulation.",
  ["app/drivers/hydro/main_driver.cc","app/drivers/newtonian/main_driver.cc","mpisph/bodies_system.h",DP],
  [("main loops","app/drivers/hydro/main_driver.cc, app/drivers/newtonian/main_driver.cc")])
p("C30","Initial-data generators write the problem they describe",
  "Each initial-data generator, run on one process, replaces the initial file by one that the drivers can start from, holding the number of particles it announces, with distinct positions inside the configured domain (on the configured lattice; across a periodic boundary rows continue at the lattice spacing up to the mismatch tolerance) and distinct ids, positive mass, density, pressure and smoothing length (the configured multiple of the particle size), and in each region the configured density, pressure and velocity, internal energies that follow from the ideal gas law, and masses that add up to density times volume. The blast energy is deposited exactly. Modifying existing data changes only what the problem prescribes.",
  ["inputs","configurations","histories"],
  "all generators over parameter choices (dimension, lattice, domain, test selector) within the bound",
  "No test runs a generator.",
  ["app/id_generators/sodtube/main.cc","app/id_generators/sedov/main.cc","app/id_generators/noh/main.cc","app/id_generators/implosion/main.cc"],
  [("generators","app/id_generators/*/main.cc")])
p("C31","Log messages reach their streams once, whole and in order",
  "log_one and log_rank show each message exactly once, whole, marked with severity, time, file and line, on the selected process and on no other, in program order, if and only if its severity is not stripped at compile time (errors go to the standard error) and, where tags are in use, its tag is active. After log_init, logm and log_container messages of all processes are gathered and shown by process 0, each exactly once and whole, in the order of their time stamps within a gather and across gathers with ordered clocks; messages longer than a packet are cut without further harm. No interleaving with the collecting thread loses a message - also not one sent just before the program ends -, repeats it, mixes it with another or keeps the program from ending. log_container shows banner and all elements in order with every delimiter. Added streams get every message while enabled and none while disabled, with colour codes only if asked for. log_fatal always throws an exception with message, file and line, log_assert exactly if its condition is false.",
  ["schedules","inputs","histories"],
  "all call sequences and thread interleavings within the bound, 1-4 processes, every strip level",
  "No test logs through the collecting thread, and its interleavings are up to the scheduler.",
  ["include/log.h"],
  [("collecting thread","include/log.h:flush_packets"),("packets","include/log.h:packet_t"),("streams","include/log.h:tee_buffer_t"),("macros","include/log.h:log_one")])
p("C32","Searches around a point find exactly the particles there",
  "Between sweeps, on every process, a search in a sphere around any point (tree find_in_radius) returns no particle twice, returns every particle the process owns whose distance to the point is at most the search radius (up to rounding), and returns no particle farther away than the larger of the search radius and its own smoothing length. On one process it returns exactly the particles within the larger of the two (up to rounding). This holds after domain updates, ghost refreshes, sweeps and moves, for every particle set and process count.",
  ["inputs","histories","schedules"],
  "all particle sets and partitions, search points inside, between and outside the particles, radii from zero to beyond the domain",
  "The only test of the search needs FleCSI and asks for one random set, one radius, around particles, on one process.",
  [TT,DP,"include/tree_topology/tree_geometry.h"],
  [("search","find_in_radius in "+TT),("node extents","compute_cofm in "+DP)],
  ["the returned particles"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for q in P: f.write(json.dumps(q)+"\n")
print(len(P))
