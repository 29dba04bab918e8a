"""What each check builds and runs. {B} build dir, {V} /verif, {R} /repo."""
CHECKS = {}
MC = "g++ -std=gnu++17 -O2 -w -I{V}/lib -I{V}/lib/simmpi -I{V}/harness/tree"
SIMSRC = "{V}/lib/simmpi/simmpi.cc {V}/lib/simmpi/h5fake.cc -rdynamic -ldl"
SIM_ASSUME = [
    "message passing is the simulated MPI of lib/simmpi (MPI-3.1 semantics: non-overtaking per pair, communicator and tag; buffered and synchronous standard sends; any probe order across sources; delayed visibility to Iprobe)",
    "threads: the explored code paths run with one OpenMP thread per process",
    "bounds: listed cases (particle sets, process counts) and schedules (all rank priority orders or the listed ones x both send modes, plus every set of at most dev deviations)",
]

def rank(dims, src="harness/tree/rank.cc", tag="", flags=""):
    return ["{V}/harness/build_rank.sh %d {V}/%s {B}/librank_%s%d.so %s" % (d, src, tag, d, flags) for d in dims]

def tree(pid, n, dims, rule, qb=200, tb=900):
    CHECKS[pid] = dict(
        build=[rank(dims) + [MC + f" -DPROP={n} {{V}}/harness/tree/main.cc {SIMSRC} -o {{B}}/main"]],
        stages=[dict(name="sim", exe="{B}/main")], budget=dict(quick=qb, thorough=tb), level="model_checking",
        technique="stateless model checking of the real tree/communication code under a simulated MPI scheduler (deviation-bounded schedule enumeration over enumerated particle sets)",
        rule=rule + " A case is a particle set, an initial distribution, a process count and an operation program; every listed schedule of it is executed. Distinct outcomes are distinct hashes of everything the ranks observed.",
        assumptions=SIM_ASSUME)

tree("C01", 1, [1, 2, 3], "All 4- and 5-subsets (thorough: also 6) of small grids in 1-3D with six smoothing-length patterns, plus structured sets of up to 400 particles; neighbour lists compared with brute force.")
tree("C02", 2, [1, 2, 3], "Same particle sets with programs of updates, field changes, refreshes, sweeps and moves; every neighbour's fields compared with the owner's history since the last refresh.")
tree("C03", 3, [1, 2, 3], "Same particle sets; deadlock, livelock, leftover messages or requests, truncation, and changed or freed send buffers are detected by the simulated MPI at every collective quiet point.")
tree("C04", 4, [1, 2, 3], "Same particle sets; every visible node compared with the particles of the whole system inside its key cell.")
tree("C06", 6, [3], "All 4- and 6-subsets of a 9-point grid, clusters far apart at several acceptance angles, structured sets; compared with direct summation.")
tree("C07", 7, [1, 2, 3], "Same particle sets; particles, counts, range, key order and key values before and after each update.")
tree("C32", 32, [1, 2, 3], "Same particle sets; searches around particles, midpoints and outside points with radii from zero to beyond the domain, after updates, refreshes, sweeps and moves; every answer compared with brute force.")

SEQI = "-I{V}/lib/simmpi -I{V}/stubs -I{V}/lib -I{V}/harness/tree -I{R}/include -I{R}/include/tree_topology -I{R}/include/physics -I{R}/include/physics/eos -I{R}/mpisph -I{R}/app/drivers/include"
SAN = "-O1 -fsanitize=address,undefined -fno-sanitize-recover=undefined"
UBS = "-O2 -fsanitize=undefined -fno-sanitize-recover=undefined -ftrivial-auto-var-init=pattern"
def cxx(src, out, flags=SAN, extra=""):
    return f"g++ -std=gnu++17 -g -w {flags} -fopenmp -DLOG_STRIP_LEVEL=5 {SEQI} {{V}}/harness/{src} -o {{B}}/{out} {extra}"
def seq(pid, rule, tech, flags=SAN, srcs=None, qb=200, tb=900, level="exploration", assumptions=(), extra="", stages=None):
    n = pid.lower()
    srcs = srcs or [(f"seq/{n}.cc", "main", flags, extra)]
    CHECKS[pid] = dict(build=[[cxx(*s) for s in srcs]], stages=stages or [dict(name=s[1], exe="{B}/" + s[1]) for s in srcs],
        budget=dict(quick=qb, thorough=tb), level=level, technique=tech, rule=rule, assumptions=list(assumptions))
EXH = "bounded exhaustive exploration of the real code against a reference model (explicit-state, every input / operation sequence within the bound)"

seq("C08", "Every cell of every grid up to the depth bound in 1-3D for both curves (all keys at all smaller depths too), all depths up to the maximum with cells next to every power-of-two boundary, edge points; keys compared with independent constructions (path codes, bijection, adjacency, inverse). Distinct outcomes are distinct keys.", EXH)
seq("C09", "All tree paths up to the bound and full-depth paths with one changed digit in 1-3D; every key operation compared with the path it stands for. Distinct outcomes are distinct (operation, path) results.", EXH, flags=UBS)
seq("C10", "All sequences of insertions, lookups and clears up to the bound over keys chosen to share and not share buckets, compared with std::map after every operation. States are distinct table contents.", EXH, flags="-O2 -ftrivial-auto-var-init=pattern", level="model_checking")
seq("C11", "All pairs of shapes on an integer lattice (points, boxes, spheres) in 1-3D, for every predicate, compared with the geometric definition in exact arithmetic.", EXH)
seq("C12", "Every component of every tensor type (ranks 1-4, dimensions 1-4, generic, symmetric and mixed) written and read by both notations; all programs of 2-3 (thorough 4) operations from 23 (including self-aliasing) compared with component arrays after each; all pairs of integer vectors for the vector functions. States are distinct (type, x, y) contents.", EXH,
    srcs=[("seq/c12.cc", f"p{i}", "-O0 -fsanitize=undefined -fno-sanitize-recover=undefined", f"-DPART={i}") for i in range(3)], level="model_checking")
seq("C13", "Every parameter x every listed value x every way to write the line (spacing, comment, quoting); all files of 3 (thorough 4) lines from a 17-line alphabet; one wrong line of each form at every place; strings of all lengths around the buffer size. All parameters are compared with the model after every file.", EXH, extra="{V}/lib/mpi1.cc")

def coll(pid, n, rule):
    CHECKS[pid] = dict(build=[rank([2], "harness/coll/rank.cc", "c") + [f"g++ -std=gnu++17 -O2 -w -I{{V}}/lib -I{{V}}/lib/simmpi -I{{V}}/harness/tree -DPROP={n} {{V}}/harness/coll/main.cc {SIMSRC} -o {{B}}/main"]],
        stages=[dict(name="sim", exe="{B}/main")], budget=dict(quick=200, thorough=900), level="model_checking",
        technique="stateless model checking of the real collective code under a simulated MPI scheduler (all inputs within the bound, deviation-bounded schedule enumeration)",
        rule=rule, assumptions=SIM_ASSUME)
coll("C05", 5, "Every distribution of up to 7 elements over up to 4 ranks (including empty ranks) x every key pattern over 2-4 key values, with and without a tie-breaking comparator; sorted, reversed, equal, mixed and duplicate-rich families on up to 9 (thorough 17) ranks; all schedules with up to two deviations for small inputs.")
coll("C25", 25, "Every matrix of counts 0..3 (0..1 scaled for 3 ranks) for each exchange helper, every count vector for the gather helper, all value vectors for the reductions, the parameter-file name broadcast; all rank orders, both send modes and every schedule with one deviation.")
DIMS = lambda n, flags=SAN, extra="{V}/lib/mpi1.cc": [(f"seq/{n}.cc", f"d{d}", flags + f" -DEXT_GDIMENSION={d}", extra) for d in (1, 2, 3)]
seq("C14", "Every selectable kernel (sinc with 14 indices) in 1-3D at ten smoothing lengths: mass, shape, sign, monotonicity, gradient against kernel differences on every one of 600 (thorough 3000) pieces, all lattice directions, scaling, centre, support edge; every ordered pair of selections. Distinct outcomes are distinct value tables.", EXH, srcs=DIMS("c14"))
seq("C15", "Every equation of state x adiabatic indices x threshold densities over a grid of states around every branch; every program of up to 5 (thorough 6) evaluations on 2 (3) particles; every ordered pair of equations in one process without initialisation (as in a restarted run). Values against the defining relations, first law and dP/drho by quadrature and differences. States are distinct particle contents.", EXH, flags=SAN + " -DEXT_GDIMENSION=3", extra="{V}/lib/mpi1.cc", level="model_checking")
seq("C16", "All subsets of 1-4 (thorough 5) particles of a small irregular lattice in 1-3D x attribute patterns (equal, mixed, converging, expanding) x kernels x viscosities, neighbour lists in both orders, pairs at and around the support edge, coincident and far from the origin. Sums of forces, torques, energy rates; every rate against the documented pair sum. Distinct outcomes are distinct rate tables.", EXH, srcs=DIMS("c16"))
seq("C17", "Pair term on a grid of all lattice directions x magnitudes x states x coefficients; action on all subsets of 2-4 (thorough 5) particles; all histories of 3 (thorough 4) flows out of six for the time-dependent coefficient, in two frames, warm and cold. States are distinct coefficient histories.", EXH, srcs=DIMS("c17"), level="model_checking", qb=60)
seq("C20", "Every selectable external force in 1-3D, every ordered list of up to 3 (thorough 4) forces, on grids of positions around every parameter-dependent surface; force against differences of the potential, sums against single contributions. Distinct outcomes are distinct (force, position) tables.", EXH, srcs=DIMS("c20"))
seq("C21", "Every selectable density profile x parameters in 1-3D: mass by quadrature on every piece, cumulative mass, edges; all tables of 4-6 rows over small alphabets of radii and densities, evaluated at, between and outside the nodes. Distinct outcomes are distinct value tables.", EXH, srcs=DIMS("c21"))
seq("C22", "Every lattice type x domain type x box/offset/spacing combination in 1-3D: announced count, distinct positions inside the domain, nearest neighbours, untouched other particles. Distinct outcomes are distinct particle sets.", EXH, srcs=DIMS("c22"))
CHECKS["C19"] = dict(
    build=[rank([1], "harness/sched/rank.cc", "s", "-ULOG_STRIP_LEVEL -DLOG_STRIP_LEVEL=1 -I{V}/harness/sched")
           + [f"g++ -std=gnu++17 -O2 -w -I{{V}}/lib -I{{V}}/lib/simmpi -I{{V}}/harness/tree -I{{V}}/harness/sched {{V}}/harness/sched/main.cc {SIMSRC} -o {{B}}/main"]
           + [cxx(*s) for s in DIMS("c19")]],
    stages=[dict(name="sched", exe="{B}/main")] + [dict(name=f"d{d}", exe=f"{{B}}/d{d}") for d in (1, 2, 3)],
    budget=dict(quick=200, thorough=900), level="model_checking",
    technique="exhaustive exploration of the real output and step control (every history of step limits x output settings x start and end within the bound, each run to its end) against a reference schedule; real step limits on exhaustive grids",
    rule="Every history of step limits of period 3 over 4 limits x every combination of 7 settings for each of the three outputs x initial step x initial time x end, on 1-3 processes, fresh and restarted, adaptive and fixed steps (quick: every 17th); signal speeds on all subsets of particles and step limits on a product grid in 1-3D. Distinct outcomes are distinct sequences of times and outputs.",
    assumptions=["the loop around the output and step functions is that of app/drivers/hydro/main_driver.cc, repeated in harness/sched/rank.cc", "output times compared within 1e-9"])
DRV = lambda *vd: ["{V}/harness/build_rank.sh %d {V}/harness/drv/rank.cc {B}/librank_%s%d.so '-DDRIVER=\"%s/main_driver.cc\"' -I{R}/app/drivers" % (d, v, d, v) for v, d in vd]
HN = (("hydro", 1), ("hydro", 2), ("hydro", 3), ("newtonian", 3))
KDK = lambda n: DRV(*HN) + [f"g++ -std=gnu++17 -O2 -w -DPROP={n} -I{{V}}/lib -I{{V}}/lib/simmpi -I{{V}}/harness/tree {{V}}/harness/kdk/main.cc {SIMSRC} -o {{B}}/kdk"]
CHECKS["C19"]["build"][0] += KDK(19)
CHECKS["C19"]["stages"].append(dict(name="kdk", exe="{B}/kdk"))
CHECKS["C19"]["rule"] += " Whole runs of the drivers: every step against the limit computed from the state it starts from."
seq("C26", "Every program of up to 4 (thorough 6) integration operations on three particles x steps x states in 1-3D, every field of every particle after every operation; constant accelerations and reversed runs; whole runs of the hydro and newtonian drivers (formulations, passes, forces, relaxation, repulsion, own and common smoothing lengths, viscosity switch, kernels, equations of state, adaptive steps, process counts; line, plane and box sets and wide sheared ones) against a reference leapfrog with direct sums. Distinct outcomes are distinct final states.",
    EXH, flags="-O2 -fsanitize=undefined -fno-sanitize-recover=undefined -ftrivial-auto-var-init=pattern", srcs=DIMS("c26", "-O2 -fsanitize=undefined -fno-sanitize-recover=undefined"))
CHECKS["C26"]["build"][0] += KDK(26)
CHECKS["C26"]["stages"].append(dict(name="kdk", exe="{B}/kdk"))
CHECKS["C26"]["assumptions"] = SIM_ASSUME[:2]
CHECKS["C27"] = dict(
    build=[rank([1, 2, 3], "harness/tot/rank.cc", "o", "-I{V}/harness/tot")
           + [f"g++ -std=gnu++17 -O2 -w -DDIM={d} -I{{V}}/lib -I{{V}}/lib/simmpi -I{{V}}/harness/tree -I{{V}}/harness/tot {{V}}/harness/tot/main.cc {SIMSRC} -o {{B}}/d{d}" for d in (1, 2, 3)]
           + DRV(*HN) + [f"g++ -std=gnu++17 -O2 -w -I{{V}}/lib -I{{V}}/lib/simmpi -I{{V}}/harness/tree {{V}}/harness/tot/drv.cc {SIMSRC} -o {{B}}/drv"]],
    stages=[dict(name=f"d{d}", exe=f"{{B}}/d{d}") for d in (1, 2, 3)] + [dict(name="drv", exe="{B}/drv")],
    budget=dict(quick=200, thorough=900), level="model_checking",
    technique="exhaustive exploration of every split of a set over the simulated processes, and of sequences of three reports, running the real reductions under a simulated MPI; every reported value against its definition over the whole set",
    rule="Every assignment of up to 5 (thorough 6) particles (3D: balanced non-empty assignments, through the tree) to 1-4 processes (empty processes included) x 7 kinds of run (formulations, gravity, external force), three reports in a row with changed values and changed split. Whole runs of the hydro and newtonian drivers on 1-4 (6) processes: every reported row against the snapshot of the same iteration. Distinct outcomes are distinct reported values.",
    assumptions=SIM_ASSUME[:2] + ["diagnostic reports only with at least one particle on every process", "no claim on the distance statistics and ghost counts of the diagnostic report"])
CHECKS["C18"] = dict(
    build=[rank([1, 2, 3], "harness/per/rank.cc", "p", "-I{V}/harness/per")
           + [f"g++ -std=gnu++17 -O2 -w -DDIM={d} -I{{V}}/lib -I{{V}}/lib/simmpi -I{{V}}/harness/tree -I{{V}}/harness/per {{V}}/harness/per/main.cc {SIMSRC} -o {{B}}/d{d}" for d in (1, 2, 3)]
           + DRV(*HN[:3]) + [f"g++ -std=gnu++17 -O2 -w -I{{V}}/lib -I{{V}}/lib/simmpi -I{{V}}/harness/tree {{V}}/harness/per/drv.cc {SIMSRC} -o {{B}}/drv"]],
    stages=[dict(name=f"d{d}", exe=f"{{B}}/d{d}") for d in (1, 2, 3)] + [dict(name="drv", exe="{B}/drv")],
    budget=dict(quick=200, thorough=900), level="model_checking",
    technique="exhaustive exploration of sets of places around the faces x periodic directions x splits over the simulated processes x sequences of updates, running the real update under a simulated MPI; whole runs against a reference with periodic distances and against translated runs",
    rule="Sets of 2-4 (thorough 5) particles drawn from 11 places per axis (on, next to, inside, outside the faces) with every stride, every combination of periodic directions in 1-3D, 1-4 processes and three distributions, three depths of the images, sequences of one to three drifts and updates (quick: every 5th/13th in 2D/3D): all interior particles and images after every update. Whole runs of the hydro driver (formulations, passes, viscosities, kernels, process counts) against periodic direct sums and against runs moved along the box. Distinct outcomes are distinct final states.",
    assumptions=SIM_ASSUME[:2])
IO = lambda dims: [rank(dims, "harness/io/rank.cc", "io", "-I{V}/harness/io")]
IOX = lambda src, out, d, extra="": f"g++ -std=gnu++17 -O2 -w -DDIM={d} {extra} -I{{V}}/lib -I{{V}}/lib/simmpi -I{{V}}/harness/tree {{V}}/harness/io/{src}.cc {SIMSRC} -o {{B}}/{out}"
IO_ASSUME = ["HDF5 is the stand-in of lib/simmpi/h5fake.cc (objects by path, hyperslabs, collective calls checked), bound to the real library by the batch of real runs of C23"]
CHECKS["C23"] = dict(
    build=[IO([1, 2, 3])[0] + [IOX("c23", f"d{d}", d) for d in (1, 2, 3)] + [IOX("c23", "real", 2, "-DREAL"), "{V}/harness/io/build_real.sh 2 {B}/realio"]],
    stages=[dict(name=f"d{d}", exe=f"{{B}}/d{d}") for d in (1, 2, 3)] + [dict(name="real", exe="{B}/real", env={"REALIO": "{B}/realio"})],
    budget=dict(quick=200, thorough=900), level="model_checking",
    technique="exhaustive exploration of the real writer and reader under a simulated MPI and HDF5: every split over the writing processes x every number of readers x layouts, column by column; the same cases replayed with the real MPI and HDF5",
    rule="Every split of 0-4 (thorough 6) particles over 1-4 writers x 1-5 readers x one file and separate files x two snapshots, all saved columns in the file and in the read particles, attributes, shares; files without ids and other columns; counts around multiples of the process count. Every 101st (thorough 23rd) case is replayed with mpirun and the real parallel HDF5. Distinct outcomes are distinct (split, readers, layout).",
    assumptions=SIM_ASSUME[:2] + IO_ASSUME)
CHECKS["C24"] = dict(
    build=[IO([1])[0] + [IOX("c24", "d1", 1)]], stages=[dict(name="d1", exe="{B}/d1")],
    budget=dict(quick=200, thorough=900), level="fault_enumeration",
    technique="exhaustive exploration of histories of runs and restarts of the real code over a surviving directory (simulated MPI and HDF5), with a kill before every change of a file, against a model of the series",
    rule="Every history of two runs (thorough: three; quick: every 47th of them) from a product of first and last iterations, output intervals, input and output prefixes, in one file and in separate files, five kinds of prefixes (directories, long names, relative), four orders of listing the directory, 1-3 processes; a new or continued run killed before every change of a file and then continued from every iteration (quick: every 20th); nothing to read. After every run all snapshots of all series, other files with similar names and the initial file are compared with the model. Distinct outcomes are distinct series.",
    assumptions=SIM_ASSUME[:2] + IO_ASSUME + ["every change of a file made before a kill is kept and later ones are not (no torn HDF5 structures)", "snapshot numbers below 100000; a prefix is always spelled the same way and used with one layout"])
CHECKS["C29"] = dict(
    build=[DRV(*HN)
           + [f"g++ -std=gnu++17 -O2 -w -I{{V}}/lib -I{{V}}/lib/simmpi -I{{V}}/harness/tree -I{{V}}/harness/drv {{V}}/harness/drv/main.cc {SIMSRC} -o {{B}}/main"]],
    stages=[dict(name="drv", exe="{B}/main")], budget=dict(quick=200, thorough=900), level="model_checking",
    technique="stateless model checking of whole runs of the real drivers under a simulated MPI scheduler: every setup on every process count and schedule within the bound against the one-process run",
    rule="Small particle sets in 1-3D, and wide sheared ones of 37-64 particles, x variants of the physics x hydro and newtonian drivers, several steps, 1-4 processes x rank orders x send modes (thorough: and deviations). Distinct outcomes are distinct final states.",
    assumptions=SIM_ASSUME + ["HDF5 is the in-memory stand-in of lib/simmpi/h5fake.cc"])
seq("C28", "Every subset of up to 3 (thorough 4) places (centre, poles, near, on and beyond the boundary) x both methods x boundaries x smoothing-length patterns in 1-3D: accelerations against the documented sums; displacements from every place for accelerations of all magnitudes, step sizes and phases; smoothing volume and convergence around every threshold. Whole runs of the wvt driver on 1-4 (5) processes. Distinct outcomes are distinct results.",
    EXH, srcs=DIMS("c28", "-O2 -fsanitize=undefined -fno-sanitize-recover=undefined"))
CHECKS["C28"]["build"][0] += DRV(("wvt", 1), ("wvt", 2), ("wvt", 3)) + [f"g++ -std=gnu++17 -O2 -w -I{{V}}/lib -I{{V}}/lib/simmpi -I{{V}}/harness/tree {{V}}/harness/wvt/main.cc {SIMSRC} -o {{B}}/wvt"]
CHECKS["C28"]["stages"].append(dict(name="wvt", exe="{B}/wvt"))
CHECKS["C28"]["assumptions"] = SIM_ASSUME[:2]
GENS = [("sodtube", 1), ("sodtube", 2), ("sodtube", 3), ("sedov", 1), ("sedov", 2), ("sedov", 3), ("noh", 1), ("noh", 2), ("noh", 3), ("implosion", 2), ("implosion", 3), ("collapse", 3),
        ("wtunnel", 2), ("wtunnel", 3), ("KH", 2), ("KH", 3), ("RT", 2), ("RT", 3), ("fluid", 2), ("fluid", 3)]
CHECKS["C30"] = dict(
    build=[[f"{{V}}/harness/build_rank.sh {d} {{V}}/harness/gen/rank.cc {{B}}/librank_g{g}{d}.so '-DGENERATOR=\"{g}/main.cc\"' -I{{R}}/app/id_generators -I{{R}}/app/id_generators/include -I{{R}}/app/id_generators/{g}" for g, d in sorted(GENS, key=lambda x: x[0] not in ("sedov", "noh"))]
           + [f"g++ -std=gnu++17 -O2 -w -I{{V}}/lib -I{{V}}/lib/simmpi -I{{V}}/harness/tree {{V}}/harness/gen/main.cc {SIMSRC} -o {{B}}/main"]],
    stages=[dict(name="gen", exe="{B}/main")], budget=dict(quick=200, thorough=900), level="exploration",
    technique="bounded exhaustive exploration of the real generators (every combination of the listed parameters, each a run of the real main function from a parameter file to its snapshot) against the analytic description of each problem",
    rule="All nine generators in every dimension they are built for x lattices x resolutions x boxes, discs and spheres of three sizes x three sets of physical parameters x selectors (six shock tubes, equal masses or spacings, every combination of periodic boundaries, density ratios, blasts, velocities, perturbations, prefixes, output layouts) x over nothing, over an older file, modifying the generated data (quick: every 3rd to 12th of the shock tubes, blasts and layered problems). Distinct outcomes are distinct particle numbers per region.",
    assumptions=["one process, as documented", "HDF5 is the in-memory stand-in of lib/simmpi/h5fake.cc"])
CHECKS["C31"] = dict(
    build=[[f"{{V}}/harness/build_rank.sh 1 {{V}}/harness/log/rank.cc {{B}}/librank_log{t}.so -O2 -D_FORTIFY_SOURCE=2 -ULOG_STRIP_LEVEL -DLOG_STRIP_LEVEL={l} {x}" for t, l, x in [(str(l), l, "") for l in range(5)] + [("0t", 0, "-DLOG_ENABLE_TAGS")]]
           + [f"g++ -std=gnu++17 -O2 -w -rdynamic -I{{V}}/lib -I{{V}}/lib/simmpi -I{{V}}/harness/tree {{V}}/harness/log/main.cc {{V}}/harness/log/thr.cc {SIMSRC} -o {{B}}/main"]],
    stages=[dict(name="log", exe="{B}/main")], budget=dict(quick=200, thorough=900), level="model_checking",
    technique="stateless model checking of the real logging library: simulated processes, the collecting thread as a fiber that runs only where the explorer lets it, all interleavings up to a number of deviations from two bases, and all call sequences up to a depth, against a model of what each stream has to show",
    rule="Sequences of up to 2 (thorough 3) of 23 to 26 calls (messages of every severity, output rank, streams added, taken out and put back, containers with every delimiter, fatal errors, assertions, tag guards; tag guards alone up to 5 (7) calls, streams alone up to 4 (5)) x initialisations x strip levels 0-4 x 1-3 processes. Twelve programs of collected and direct messages x seven patterns of clocks x 1-4 processes x every schedule of the collecting thread within 1-3 (thorough 2-4) deviations from never and from always running, at every lock, unlock, sleep, start, join and marked character of output; streams after the static destructors. Distinct outcomes are distinct stream contents.",
    assumptions=SIM_ASSUME[:2] + ["threads change places only at synchronisation calls, sleeps and marked output characters (sequential consistency)", "log_init is called at most once, before anything is sent; the clock of the time stamp is the simulated one"])
