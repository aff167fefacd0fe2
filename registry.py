"""The checks: which executables decide which property, from which sources, for how long."""
KNOWN_FILE = "known_findings.txt"

STUBS_COMMON = [
    "oneTBB runtime library (task scheduler, arenas, tbbmalloc): simulated under the unmodified oneTBB headers",
    "OS threads, pthread mutexes/conditions, thread-local storage, clocks, hardware_concurrency: simulated",
    "malloc/free/new/delete: deterministic heap with redzones and poisoning",
    "KAssert: assertions compiled out as in a release build",
]
STUBS_MPI = ["MPI library: simulated (ranks are fibers with their own copy of all globals)"]

REAL_SHM = ["kaminpar-common (instrumented, unmodified)", "kaminpar-shm (instrumented, unmodified)"]
REAL_IO = [*REAL_SHM, "apps/io readers and writers (instrumented, unmodified)", "libstdc++ file streams"]
STUBS_IO = ["file system: open/read/write/mmap/stat/close simulated in memory with faults"]
IO_ONLY = ["/environment.cc", "kaminpar-common/", "shm/datastructures/", "shm/graphutils/", "apps/io/"]
RULE_P = "non-trivial: at least two simulated workers and a non-trivial input were used."

REAL_DIST = [*REAL_SHM, "kaminpar-mpi (instrumented, unmodified)", "kaminpar-dist (instrumented, unmodified)"]
TECH_DIST = "seeded schedules of simulated MPI processes and TBB workers (message delays, buffering, stalls), global reference model"
RULE_D = "non-trivial: at least two processes and a non-trivial input were used."

S_GRAPH = ["/environment.cc", "kaminpar-common/", "shm/datastructures/", "shm/graphutils/", "shm/kaminpar.cc"]
# sources that suffice for a check of one component (on an unresolved symbol everything is compiled)
D_GRAPH = ["/environment.cc", "kaminpar-common/", "kaminpar-mpi/", "dist/datastructures/", "dist/metrics.cc"]
D_CONFIG = [*D_GRAPH, "dist/context.cc", "dist/factories.cc", "dist/presets.cc", "shm/presets.cc"]
SHM_GRAPHS = ["shm/datastructures/compressed_graph.cc", "shm/datastructures/csr_graph.cc", "shm/datastructures/graph.cc"]
D_ONLY = {
    "dist_reduce": [*D_GRAPH, "dist/algorithms/", "dist/context.cc", "dist/graphutils/synchronization.cc"],
    "dist_contract": [*D_GRAPH, "dist/coarsening/contraction/"],
    "dist_color": [*D_GRAPH, "dist/algorithms/"],
    "dist_extract": [*D_GRAPH, *SHM_GRAPHS, "dist/graphutils/"],
    "dist_cluster": [*D_CONFIG, "dist/coarsening/"],
    "dist_refine": [*D_CONFIG, "dist/coarsening/clustering/", "dist/refinement/"],
    "dist_replicate": [*D_CONFIG, *SHM_GRAPHS, "dist/graphutils/"],
    "dist_graph": [*D_GRAPH],
    "dist_read": [*D_GRAPH, "apps/io/dist_"],
}

CHECKS = {
    "C11": dict(
        parts=[dict(exe="common_primitives", libs=["common", "shm"],
                    only=["/environment.cc", "kaminpar-common/", "shm/datastructures/", "graphutils/permutator", "shm/kaminpar.cc"])],
        real=REAL_SHM, rule="Random sequences, graphs and thread counts; " + RULE_P, quick=15),
    "C02": dict(parts=[dict(exe="shm_balance", libs=["common", "shm"])], real=REAL_SHM,
                rule="Random graphs, k, limits, presets and tweaks; " + RULE_P, quick=25),
    "C03": dict(parts=[dict(exe="shm_caller", libs=["common", "shm"])], real=REAL_SHM,
                rule="Random sequences of set-graph and partition calls on one object; non-trivial: a connected input "
                     "with k > 1.", quick=20),
    "C13": dict(parts=[dict(exe="shm_determinism", libs=["common", "shm"])], real=REAL_SHM,
                rule="The same computation twice with a different history in between; non-trivial: a connected input.",
                quick=20),
    "C01": dict(parts=[dict(exe="shm_partition", libs=["common", "shm"])], real=REAL_SHM,
                rule="Random graphs, k, presets and configuration tweaks; " + RULE_P, quick=30),
    "C04": dict(parts=[dict(exe="shm_contraction", libs=["common", "shm"],
                            only=["/environment.cc", "kaminpar-common/", "shm/datastructures/", "shm/coarsening/contraction/",
                                  "compressed_graph_builder"])], real=REAL_SHM,
                rule="Random graphs and clusterings over up to three levels, every contraction algorithm; non-trivial: "
                     "several workers and a coarse graph strictly between one node and the input.", quick=20),
    "C05": dict(parts=[dict(exe="shm_clustering", libs=["common", "shm"],
                            only=[*S_GRAPH, "shm/coarsening/", "shm/factories.cc", "shm/presets.cc"])], real=REAL_SHM,
                rule="Random graphs, limits, implementations, two-hop and isolated-node strategies, plus whole coarsening "
                     "hierarchies; non-trivial: several workers, edges and a limit that allows clusters.", quick=20),
    "C06": dict(parts=[dict(exe="shm_refinement", libs=["common", "shm"],
                            only=[*S_GRAPH, "shm/context_io.cc", "shm/factories.cc", "shm/presets.cc", "shm/refinement/"])], real=REAL_SHM,
                rule="Random graphs, partitions, limits and refiner chains; non-trivial: several workers, edges and a "
                     "partition that is not the trivial one.", quick=20),
    "C07": dict(parts=[dict(exe="shm_moves", libs=["common", "shm"],
                            only=[*S_GRAPH, "shm/presets.cc", "shm/refinement/balancer/"])], real=REAL_SHM,
                rule="Random graphs, partitions and concurrent or overlaid moves; " + RULE_P, quick=15),
    "C08": dict(parts=[dict(exe="shm_gains", libs=["common", "shm"],
                            only=[*S_GRAPH, "shm/presets.cc"])], real=REAL_SHM,
                rule="Every gain cache over random graphs, partitions, concurrent moves and overlays; non-trivial: several "
                     "workers and at least two moved nodes of a graph with edges.", quick=20),
    "C09": dict(parts=[dict(exe="shm_compress", libs=["common", "shm"])], real=REAL_SHM,
                rule="Random graphs with runs, hubs and weights, every builder, concurrent readers, plus whole partitioner runs "
                     "on compressed graphs; non-trivial: several workers compress a graph with edges.", quick=20),
    "C10": dict(parts=[dict(exe="shm_extract", libs=["common", "shm"],
                            only=[*S_GRAPH, "shm/partitioning/partition_utils.cc"])], real=REAL_SHM,
                rule="Random graphs and partitions through every extraction and reordering function; " + RULE_P, quick=20),
    "C12": dict(parts=[dict(exe="containers", libs=["common"])], real=REAL_SHM[:1],
                rule="Random operation sequences on every shared container by several workers; " + RULE_P, quick=20),
    "C15": dict(parts=[dict(exe="io_read", libs=["common", "shm", "shmio"], only=IO_ONLY)], real=REAL_IO, stubs=STUBS_IO,
                technique="simulated file system with injected faults and truncation, reference parser as oracle",
                rule="Every file format read under truncation, edits and I/O faults; non-trivial: the file was damaged or a "
                     "fault was possible.", quick=15),
    "C16": dict(parts=[dict(exe="io_write", libs=["common", "shm", "shmio"], only=IO_ONLY)], real=REAL_IO, stubs=STUBS_IO,
                technique="simulated file system with injected write faults, full disks and interrupted writes",
                rule="Every output function under I/O faults; non-trivial: a fault was possible.", quick=15),
    "C17": dict(parts=[dict(exe="io_roundtrip", libs=["common", "shm", "shmio"], only=IO_ONLY)], real=REAL_IO, stubs=STUBS_IO,
                technique="write-read round trips over a simulated file system, seeded schedules of the parallel readers",
                rule="Random graphs through every writer, reader and node order with short and interrupted I/O; non-trivial: several "
                     "workers and a graph with edges, or a partition.", quick=15),
    "C33": dict(parts=[dict(exe="io_validate", libs=["common", "shm", "shmio"], only=IO_ONLY)], real=REAL_IO, stubs=STUBS_IO,
                technique="seeded schedules of the parallel validator, damaged graphs, sequential reference check as oracle",
                rule="Random graphs with removed, repeated, redirected and reweighted edge directions; non-trivial: several "
                     "workers and a graph with edges.", quick=10),
    "C34": dict(parts=[dict(exe="app_kaminpar", libs=["common", "shm", "shmio", "cli", "apps"])],
                real=[*REAL_IO, "kaminpar-cli and apps/KaMinPar.cc (instrumented, unmodified)"], stubs=[*STUBS_IO, "libnuma: absent"],
                technique="whole program as a simulated process: seeded schedules, simulated file system with faults, clock jumps",
                rule="Random command lines (presets, options, block weights, formats, orders, outputs) on random and damaged graphs, also "
                     "configurations written by the program itself; non-trivial: several workers and a graph with edges, or a dumped "
                     "configuration.", quick=25),
    "C35": dict(parts=[dict(exe="app_tools", libs=["common", "shm", "shmio", "cli", "apps"])],
                real=[*REAL_IO, "apps/tools/*.cc (instrumented, unmodified)"], stubs=STUBS_IO,
                technique="whole programs as simulated processes: seeded schedules, simulated file system with faults",
                rule="Every shared-memory tool with random options and graphs under I/O faults; non-trivial: several workers and a graph "
                     "with edges.", quick=15),
    "C23": dict(dist=True, parts=[dict(exe="dist_alltoall", libs=["common", "mpi"], dist=True,
                                       only=["/environment.cc", "kaminpar-common/", "kaminpar-mpi/"])],
                real=[REAL_SHM[0], REAL_DIST[2]], technique=TECH_DIST,
                rule="Random processes, communicators and message sizes through every exchange algorithm; " + RULE_D, quick=20),
    "C29": dict(dist=True, parts=[dict(exe="dist_extract", libs=["common", "shm", "mpi", "dist"], dist=True, only=D_ONLY["dist_extract"])],
                real=REAL_DIST, technique=TECH_DIST,
                rule="Random graphs, distributions, partitions and seed nodes through block extraction, copying back, and "
                     "breadth-first extraction; " + RULE_D, quick=20),
    "C20": dict(dist=True, parts=[dict(exe="dist_partition", libs=["common", "shm", "mpi", "dist"], dist=True)],
                real=REAL_DIST, technique=TECH_DIST,
                rule="Random graphs, distributions (also empty processes), sub-communicators, presets, tweaks and k through the whole "
                     "distributed partitioner; " + RULE_D, quick=40),
    "C21": dict(dist=True, parts=[dict(exe="dist_balance", libs=["common", "shm", "mpi", "dist"], dist=True)],
                real=REAL_DIST, technique=TECH_DIST,
                rule="Unit-weight graphs through the whole distributed partitioner, imbalanced unit-weight partitions through the balancers; "
                     + RULE_D, quick=30),
    "C22": dict(dist=True, parts=[dict(exe="dist_progress", libs=["common", "shm", "mpi", "dist"], dist=True)],
                real=REAL_DIST, technique="simulated MPI with deadlock, mismatch, leak and misuse detection under seeded message delays, "
                "buffering decisions, process stalls and thread schedules",
                rule="Up to 12 processes with little work each through the whole distributed partitioner; " + RULE_D, quick=30),
    "C24": dict(dist=True, parts=[dict(exe="dist_reduce", libs=["common", "shm", "mpi", "dist"], dist=True, only=D_ONLY["dist_reduce"])],
                real=REAL_DIST, technique=TECH_DIST,
                rule="Random communicators, values and graphs through the collective wrappers, sparse all-reduces, tree reductions and "
                     "ghost exchanges; " + RULE_D, quick=20),
    "C25": dict(dist=True, parts=[dict(exe="dist_contract", libs=["common", "shm", "mpi", "dist"], dist=True, only=D_ONLY["dist_contract"])],
                real=REAL_DIST, technique=TECH_DIST,
                rule="Random graphs, distributions and global or local clusterings through several levels of contraction and projection; "
                     + RULE_D, quick=20),
    "C26": dict(dist=True, parts=[dict(exe="dist_cluster", libs=["common", "shm", "mpi", "dist"], dist=True, only=D_ONLY["dist_cluster"])],
                real=REAL_DIST, technique=TECH_DIST,
                rule="Random graphs, distributions, weight limits and options through every distributed clusterer, over several levels; "
                     + RULE_D, quick=25),
    "C27": dict(dist=True, parts=[dict(exe="dist_refine", libs=["common", "shm", "mpi", "dist"], dist=True, only=D_ONLY["dist_refine"])],
                real=REAL_DIST, technique=TECH_DIST,
                rule="Random partitions through every refiner, balancer and refinement pipeline of the distributed partitioner; " + RULE_D,
                quick=30),
    "C28": dict(dist=True, parts=[dict(exe="dist_replicate", libs=["common", "shm", "mpi", "dist"], dist=True, only=D_ONLY["dist_replicate"])],
                real=REAL_DIST, technique=TECH_DIST,
                rule="Random graphs replicated over groups of processes, partitions extended and the best copy gathered back; "
                     + RULE_D, quick=20),
    "C30": dict(dist=True, parts=[dict(exe="dist_color", libs=["common", "shm", "mpi", "dist"], dist=True, only=D_ONLY["dist_color"])],
                real=REAL_DIST, technique=TECH_DIST,
                rule="Random graphs through the distributed coloring, border node search and independent set search; " + RULE_D,
                quick=20),
    "C31": dict(dist=True, parts=[dict(exe="dist_graph", libs=["common", "shm", "mpi", "dist"], dist=True, only=D_ONLY["dist_graph"]),
                                  dict(exe="dist_compressed", libs=["common", "shm", "mpi", "dist"], dist=True)],
                real=REAL_DIST, technique=TECH_DIST,
                rule="Random graphs built, compressed, permuted and partitioned as distributed graphs; " + RULE_D, quick=30),
    "C32": dict(dist=True, parts=[dict(exe="dist_read", libs=["common", "shm", "mpi", "dist", "distio"], dist=True, only=D_ONLY["dist_read"])],
                real=[*REAL_DIST, "apps/io distributed readers and writer (instrumented, unmodified)"], stubs=STUBS_IO,
                technique="seeded schedules of simulated MPI processes over a simulated file system with injected faults, "
                          "reference parser as oracle",
                rule="Both formats read with every distribution under truncation, edits and I/O faults, partitions written; "
                     + RULE_D, quick=20),
}
