#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list is easy to review)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
                     observe_at=observe or [], hook_needed=None)))

S = ["schedules", "inputs", "configurations"]
T = "The suite runs a handful of tiny graphs under whatever schedule the OS happens to give; "

p("C01", "Shared-memory partitioner returns a valid partition and its exact cut",
  "For every graph (including empty, isolated-node, disconnected and weighted graphs), every k from 1 up to and beyond the number of nodes, every preset, every number of threads and every thread schedule, computing a partition terminates without crashing, assigns every node exactly one block in [0, k), and returns exactly the total weight of the edges between different blocks. When the balance constraint can only be met by leaving no block overfull the result is still a complete partition.",
  S, "all thread schedules of the task-parallel partitioner x graphs x k x presets/partitioning modes x thread counts",
  T + "a race in coarsening, initial partitioning or refinement only shows up under particular interleavings, and the returned cut is compared on two graphs only.",
  ["kaminpar-shm/kaminpar.cc", "kaminpar-shm/partitioning/deep/deep_multilevel.cc", "kaminpar-shm/partitioning/helper.cc", "kaminpar-shm/initial_partitioning/initial_multilevel_bipartitioner.cc"],
  [("entry point, isolated nodes, cut", "KaMinPar::compute_partition"), ("deep multilevel / k-way / recursive bisection / v-cycle", "kaminpar-shm/partitioning"), ("parallel initial partitioning", "partitioning/deep/async_initial_partitioning.cc, sync_initial_partitioning.cc"), ("block extension", "partitioning/helper.cc extend_partition")],
  ["KaMinPar::compute_partition return value and output array"])
p("C02", "Shared-memory partitions respect the balance constraint",
  "When a partition is requested with an imbalance factor (or explicit maximum block weights that leave slack for every node), no block of the returned partition is heavier than its maximum block weight, for every preset that includes a balancer, every graph with unit node weights and every weighted graph whose heaviest node fits the slack. This holds for every schedule and thread count.",
  S, "all thread schedules x graphs with unit or bounded node weights x k x epsilon / block weight vectors x presets",
  T + "balance is asserted on two fixed graphs with one configuration.",
  ["kaminpar-shm/kaminpar.cc", "kaminpar-shm/refinement/balancer/greedy_balancer.cc", "kaminpar-shm/partitioning/partition_utils.cc", "kaminpar-shm/partitioning/helper.cc"],
  [("max block weights", "PartitionContext::setup"), ("overload balancer", "refinement/balancer/greedy_balancer.cc"), ("intermediate block weight bounds", "partitioning/partition_utils.cc")],
  ["block weights of the returned partition"])
p("C03", "Partitioning leaves the caller's graph intact and uses its numbering",
  "A graph handed over by copying is never modified, the partition is written in the caller's original node order (also when nodes were internally reordered or isolated nodes set aside), and a partitioner object can be used again for further partitions (other k, other block weights, the same or another graph) with the same guarantees each time. Borrowing a graph mutably may permute the caller's arrays but they must still describe the same graph afterwards.",
  ["schedules", "inputs", "histories", "configurations"], "all histories of copy/borrow/set graph and compute calls on one object x schedules x orderings",
  T + "tests call each entry point once on a fixed grid; object reuse over different orderings and the parallel permutation are not varied.",
  ["kaminpar-shm/kaminpar.cc", "kaminpar-shm/graphutils/permutator.cc", "kaminpar-shm/datastructures/csr_graph.cc"],
  [("isolated node removal / reintegration", "graph::remove_isolated_nodes, assign_isolated_nodes, integrate_isolated_nodes"), ("degree-bucket rearrangement", "graphutils/permutator.cc")],
  ["caller arrays before/after, recomputed cut in caller numbering"])
p("C04", "Contraction yields the exact quotient graph and exact projections",
  "Contracting any clustering of any graph with any contraction algorithm under any schedule yields the graph whose nodes are the clusters (with summed node weights) and whose edges carry the summed weights of all edges between two clusters, without self-loops or parallel edges, symmetric, and with correct node/edge counts and total weights. Projecting values from the coarse to the fine graph gives each fine node the value of its cluster.",
  S, "all schedules x graphs x clusterings x contraction algorithms x edge weights",
  T + "tests check a few hand-made clusterings on 4-10 node graphs.",
  ["kaminpar-shm/coarsening/contraction/buffered_cluster_contraction.cc", "kaminpar-shm/coarsening/contraction/unbuffered_cluster_contraction.cc", "kaminpar-shm/coarsening/contraction/naive_unbuffered_cluster_contraction.cc", "kaminpar-shm/coarsening/contraction/legacy_buffered_cluster_contraction.cc", "kaminpar-shm/coarsening/contraction/cluster_contraction_preprocessing.cc"],
  [("dense cluster ids and buckets", "cluster_contraction_preprocessing.cc"), ("one-pass contraction with concurrent buffers", "unbuffered_cluster_contraction.cc"), ("two-pass contraction", "buffered_cluster_contraction.cc")],
  ["CoarseGraph::get / project_up / project_down"])
p("C05", "Coarsening clusterings respect weight limits and cluster accounting",
  "A label propagation clustering computed under any schedule assigns every node a valid cluster, whichever implementation, two-hop or isolated-node strategy is configured. With one worker no cluster of two or more nodes is heavier than the maximum cluster weight; with several workers the (deliberately relaxed) limit can only be exceeded by joins under way at the same time, i.e. by at most one join per further worker, and no join is lost or counted twice. Coarsening a graph level by level preserves total node weight and never increases the number of nodes.",
  S, "all schedules of concurrent cluster joins x graphs with arbitrary node weights x cluster weight limits x LP implementations / two-hop strategies",
  T + "there is no unit test of the clusterer under concurrency.",
  ["kaminpar-shm/label_propagation.h", "kaminpar-shm/coarsening/clustering/lp_clusterer.cc", "kaminpar-shm/coarsening/cluster_coarsener.cc"],
  [("atomic cluster weight reservation", "label_propagation.h OwnedRelaxedClusterWeightVector / NonatomicClusterVectorRef"), ("two-hop and isolated node clustering", "label_propagation.h"), ("two-phase LP for high-degree nodes", "label_propagation.h")],
  ["clustering array, coarse graphs"])
p("C06", "Refinement keeps partitions valid and never breaks balance",
  "Every refinement algorithm, started from any partition and run under any schedule, ends with every node in a block in [0, k), block weights equal to the sum of their nodes' weights, and label propagation and the balancer leave no block above its maximum weight that was not above it before. JET never returns a larger cut than it was given (unless it had to repair the balance) and does not lose the balance of unit-weight partitions; localized k-way FM running on one thread neither overloads a block nor increases the cut; label propagation running on one thread without a limit on the scanned neighborhood never increases the cut.",
  S, "all schedules of concurrent moves x graphs x partitions x refiners (LP, FM with every gain cache, JET, balancers, chains)",
  T + "refiners are not unit tested at all.",
  ["kaminpar-shm/refinement/lp/lp_refiner.cc", "kaminpar-shm/refinement/fm/fm_refiner.cc", "kaminpar-shm/refinement/jet/jet_refiner.cc", "kaminpar-shm/refinement/multi_refiner.cc"],
  [("atomic block weight moves", "PartitionedGraph::move"), ("node ownership in localized FM", "refinement/fm/node_tracker.h"), ("rollback to best", "refinement/jet/jet_refiner.cc, fm_refiner.cc")],
  ["partition and block weights before/after refine()"])
p("C07", "Concurrent block moves conserve node and block weights",
  "At any quiescent point after any interleaving of concurrent node moves (conditional moves bounded by a maximum block weight, unconditional moves, delta overlays that are committed or dropped), each block weight equals the sum of the weights of the nodes assigned to it, a successful conditional move never overfills its target and a rejected move changes nothing. The greedy balancer moves nodes only as needed and restores balance of unit-weight partitions whenever a balanced partition exists.",
  ["schedules", "inputs", "histories"], "all interleavings of concurrent moves by several workers x partitions x weights",
  T + "moves are only tested sequentially.",
  ["kaminpar-shm/datastructures/partitioned_graph.h", "kaminpar-shm/datastructures/delta_partitioned_graph.h", "kaminpar-shm/refinement/balancer/greedy_balancer.cc"],
  [("CAS block weight update", "GenericPartitionedGraph::move"), ("overlay", "GenericDeltaPartitionedGraph"), ("overload queues", "OverloadBalancer / GreedyBalancer")],
  ["block() and block_weight() of the partitioned graph"])
p("C08", "Gain caches stay exact under concurrent moves",
  "After any interleaving of concurrent moves of distinct nodes, every gain cache reports for every node and block exactly the total weight of its edges into that block, the same answer as recomputing from the graph, and its enumeration of adjacent blocks misses none with positive connection. Delta caches give the same answers for their overlay and leave the shared cache unchanged.",
  ["schedules", "inputs", "histories", "configurations"], "all interleavings of concurrent moves x graphs x k x gain cache implementations",
  T + "there are no gain cache tests.",
  ["kaminpar-shm/refinement/gains/sparse_gain_cache.h", "kaminpar-shm/refinement/gains/dense_gain_cache.h", "kaminpar-shm/refinement/gains/hashing_gain_cache.h", "kaminpar-shm/refinement/gains/compact_hashing_gain_cache.h", "kaminpar-shm/refinement/gains/on_the_fly_gain_cache.h", "kaminpar-shm/refinement/gains/delta_gain_caches.h"],
  [("lock-free table updates", "SparseGainCache / HashingGainCache / CompactHashingGainCache :: move"), ("compact hash map locking", "kaminpar-common/datastructures/compact_hash_map.h")],
  ["gain(), conn(), gains() of each cache"])
p("C09", "Compressed graphs are equivalent to the graph they compress",
  "A graph compressed sequentially or in parallel, under any schedule and with any mix of interval, high-degree and weight encodings, has the same nodes, degrees, node weights, edge weights, totals and neighborhoods as the original, and can be decoded concurrently by any number of threads. Partitioning a compressed graph gives a valid partition of the original graph with the correct cut.",
  S, "all schedules of the parallel builder x graphs (including long gaps, high degrees, intervals) x weights",
  T + "the parallel builder is exercised once on small graphs with an uncontrolled schedule.",
  ["kaminpar-shm/graphutils/parallel_compressed_graph_builder.h", "kaminpar-shm/graphutils/compressed_graph_builder.cc", "kaminpar-common/graph_compression/compressed_neighborhoods_builder.h", "kaminpar-common/graph_compression/compressed_edges_builder.h", "kaminpar-shm/datastructures/compressed_graph.h"],
  [("ordered commit of concurrently compressed packets", "parallel_compressed_graph_builder.h, concurrent_circular_vector.h"), ("parallel decoding", "compressed_graph.h pfor_*")],
  ["node/edge iteration of the compressed graph"])
p("C10", "Block extraction and node reordering preserve the graph",
  "Extracting the blocks of a partition in parallel, under any schedule, yields exactly the induced subgraph of every block together with a mapping that lets block-local partitions be copied back to exactly the right nodes. Reordering nodes by degree buckets yields an isomorphic graph with inverse permutations, sorted degree buckets and isolated nodes set aside.",
  S, "all schedules x graphs x partitions x weights x memory layouts",
  T + "extraction tests use a few 4-9 node graphs.",
  ["kaminpar-shm/graphutils/subgraph_extractor.cc", "kaminpar-shm/graphutils/permutator.cc", "kaminpar-shm/graphutils/permutator.h"],
  [("parallel extraction / preallocated subgraph memory", "graph::extract_subgraphs*, graph::extract_subgraph"), ("copy back", "graph::copy_subgraph_partitions"), ("degree bucket permutation", "graph::rearrange_by_degree_buckets")],
  ["extracted CSR arrays, mapping, permutation"])
p("C11", "Parallel primitives and metrics equal their sequential definitions",
  "Parallel prefix sums, accumulations, maxima and differences, chunked parallel loops, and the partition metrics (edge cut, imbalance, total overload, feasibility) return under every schedule and thread count exactly what a sequential evaluation returns. Atomic counters behave like integers: every operation takes effect exactly once and post-increment and post-decrement return the previous value.",
  S, "all schedules x input sequences/graphs x thread counts",
  T + "results are compared on a few vectors under one schedule.",
  ["kaminpar-common/parallel/algorithm.h", "kaminpar-common/parallel/aligned_prefix_sum.h", "kaminpar-common/parallel/atomic.h", "kaminpar-common/parallel/loops.h", "kaminpar-shm/metrics.h"],
  [("parallel scan/reduce", "parallel/algorithm.h"), ("atomics", "parallel/atomic.h"), ("metrics", "kaminpar-shm/metrics.h")],
  ["return values"])
p("C12", "Concurrent containers lose and duplicate nothing",
  "Under every interleaving of their permitted concurrent operations, the shared containers behave like their sequential model: packets written through the circular commit buffer come out in order with contiguous offsets, thread-safe linked lists and per-thread buffers enumerate exactly the inserted elements, concurrent arrays return what was stored, and concurrently built maps hold each key once. Resetting them leaves them indistinguishable from new ones.",
  ["schedules", "inputs", "histories"], "all interleavings of concurrent operations x histories with resets",
  T + "containers are tested from one thread.",
  ["kaminpar-common/datastructures/concurrent_circular_vector.h", "kaminpar-common/datastructures/ts_navigable_linked_list.h", "kaminpar-common/datastructures/concurrent_fast_reset_array.h", "kaminpar-common/datastructures/static_array.h", "kaminpar-common/datastructures/compact_hash_map.h", "kaminpar-dist/datastructures/growt.h"],
  [("ordered fetch-and-update", "ConcurrentCircularVectorMutex"), ("per-thread chunks", "NavigableLinkedList"), ("reset of used entries", "ConcurrentFastResetArray, FastResetArray")],
  ["container contents"])
p("C13", "Single-threaded results are a function of input, configuration and seed",
  "With one thread, partitioning the same graph with the same configuration after the same reseeding gives the same partition, regardless of what the object or process computed before, of the wall clock, of memory contents and addresses, and of enabled timers. Reseeding with different seeds and any number of threads stays within the same guarantees.",
  ["inputs", "histories", "configurations", "fault_sequences"], "all histories before the call x clock behaviour (jumps, stalls) x memory contents x graphs x presets",
  T + "one test repeats a call back to back in one process, where uninitialised memory and clocks happen to behave the same.",
  ["kaminpar-common/random.cc", "kaminpar-common/random.h", "kaminpar-shm/kaminpar.cc", "kaminpar-shm/initial_partitioning/initial_pool_bipartitioner.cc"],
  [("seeded per-thread generators", "kaminpar-common/random.cc Random::reseed"), ("clock only for reporting", "kaminpar-common/timer.cc")],
  ["partitions of repeated runs"])
p("C15", "Reading a graph file never yields a wrong graph or a crash",
  "Reading a graph in any supported file format either yields exactly the graph the file describes or reports failure (an error return, an exception or a clean exit with a message) - also when the file is truncated at any byte, is missing, cannot be opened, stat'ed or mapped, delivers short or interrupted reads, or a read fails part-way. The reader never accesses memory outside the file's content, never hangs and never silently returns a partially read graph. Binary files whose header declares other integer widths or other constants of the encoding than this build uses are rejected.",
  ["inputs", "fault_sequences", "crash_points", "schedules"], "all truncation points and I/O fault sequences x formats x schedules of the parallel readers",
  "No test reads with faults; readers are untested.",
  ["apps/io/file_toker.h", "apps/io/shm_metis_parser.cc", "apps/io/shm_parhip_parser.cc", "apps/io/shm_compressed_graph_binary.cc", "apps/io/shm_io.cc", "apps/io/binary_util.h"],
  [("mapped tokenizer", "apps/io/file_toker.h"), ("binary reader", "apps/io/binary_util.h"), ("format dispatch", "apps/io/shm_io.cc")],
  ["returned graph or reported error"])
p("C16", "A write that reports success has written the whole file",
  "Writing a partition, block sizes, a node remapping or a graph either leaves the complete, exact content in the file or reports the failure to the caller; it never returns normally after an I/O error (failed open, short or failed write, full disk) lost part of the output. Interrupted and short writes are continued.",
  ["fault_sequences", "crash_points", "inputs"], "all I/O fault sequences x output functions x contents",
  "Tests never inject write errors.",
  ["apps/io/shm_io.cc", "apps/io/shm_metis_parser.cc", "apps/io/shm_parhip_parser.cc", "apps/io/shm_compressed_graph_binary.cc"],
  [("output functions", "partition::write, partition::write_block_sizes, remapping::write, metis::write, parhip::write, compressed_binary::write")],
  ["file content against reported outcome"])
p("C17", "Graphs and partitions survive a write-read round trip",
  "Writing a graph in a format and reading it back, in natural or degree-bucket order, as a plain or a compressed graph, with any schedule of the parallel readers and any pattern of short or interrupted I/O, yields the same graph with the same weights (up to the declared reordering). The same holds for partitions, block sizes and node remappings.",
  ["schedules", "inputs", "fault_sequences", "configurations"], "all graphs/weights x formats x orderings x schedules x transient I/O faults",
  "No round trip tests exist for parallel readers.",
  ["apps/io/shm_metis_parser.cc", "apps/io/shm_parhip_parser.cc", "apps/io/shm_compressed_graph_binary.cc", "apps/io/shm_io.cc"],
  [("parallel ParHiP decoding", "apps/io/shm_parhip_parser.cc"), ("METIS reader/writer", "apps/io/shm_metis_parser.cc")],
  ["graph equality"])
D = ["schedules", "inputs", "configurations", "fault_sequences"]
TD = "Distributed tests need an MPI launcher and are not run; even where run they see one benign message order on one host; "
p("C20", "Distributed partitioner returns a valid partition and its exact cut",
  "For every distribution of every graph over any number of processes (including processes without nodes), every k, preset, thread count, message delay pattern and schedule, all processes return, every node is assigned a block in [0, k), and all processes return the same cut, which is exactly the weight of the cut edges of the global graph.",
  D, "all message timings and thread schedules x rank counts x graphs and distributions x k x presets",
  TD + "races between ghost-node updates and slow processes are never provoked.",
  ["kaminpar-dist/dkaminpar.cc", "kaminpar-dist/partitioning/deep_multilevel.cc", "kaminpar-dist/partitioning/kway_multilevel.cc", "kaminpar-dist/metrics.cc"],
  [("entry point", "dKaMinPar::compute_partition"), ("multilevel schemes", "kaminpar-dist/partitioning")],
  ["returned partition/cut on every rank"])
p("C21", "Distributed partitions respect the balance constraint",
  "For graphs with unit node weights, the partition returned by the distributed partitioner has no block heavier than the maximum block weight, for every distribution, process count, schedule and message timing; all processes agree on the block weights. The distributed balancers repair every imbalanced unit-weight partition they are given.",
  D, "all message timings and schedules x distributions x k x epsilon x presets/balancers",
  TD + "feasibility is asserted on a few fixed graphs.",
  ["kaminpar-dist/refinement/balancer/node_balancer.cc", "kaminpar-dist/refinement/balancer/cluster_balancer.cc", "kaminpar-dist/dkaminpar.cc"],
  [("node balancer reduction tree", "refinement/balancer/node_balancer.cc, reductions.h"), ("cluster balancer", "refinement/balancer/cluster_balancer.cc")],
  ["global block weights"])
p("C22", "Distributed runs always terminate: no deadlock, no mismatched communication",
  "Every distributed operation completes on every process for every legal message timing, buffering behaviour, process speed and process count: processes always enter the same collectives in the same order with matching arguments, every sent message is received, and no process waits forever. Nothing depends on sends being buffered, on message arrival order between different senders, or on communicator handles being unique over time.",
  D, "all legal MPI behaviours (eager/rendezvous sends, delays, reordering across sources, slow ranks, handle reuse) x rank counts x inputs",
  TD + "a dependence on buffering or on arrival order only shows under other MPI implementations or loads.",
  ["kaminpar-mpi/sparse_alltoall.h", "kaminpar-mpi/grid_alltoall.h", "kaminpar-mpi/grid_topology.cc", "kaminpar-mpi/binary_reduction_tree.h", "kaminpar-dist/graphutils/replicator.cc"],
  [("collective order", "kaminpar-mpi, kaminpar-dist"), ("nonblocking sends then receives", "sparse_alltoall.h sparse_alltoall_complete")],
  ["MPI call trace of every rank"])
p("C23", "Sparse all-to-all delivers every message exactly once",
  "Each of the personalised all-to-all exchange algorithms delivers every element sent by every process to exactly its addressee, exactly once, intact, in sending order and attributed to the right sender, for every process count, message size distribution (including empty and self messages) and message timing. Different algorithms are interchangeable.",
  D, "all message timings x rank counts x traffic matrices x algorithms",
  TD + "tests use uniform traffic on the launcher's process count.",
  ["kaminpar-mpi/sparse_alltoall.h", "kaminpar-mpi/alltoall.h", "kaminpar-mpi/grid_alltoall.h", "kaminpar-mpi/grid_topology.h"],
  [("complete send/recv", "sparse_alltoall_complete"), ("two-hop grid routing", "sparse_alltoall_grid"), ("alltoallv", "sparse_alltoall_alltoallv")],
  ["received buffers"])
p("C24", "Distributed reductions and ghost updates give every process the exact result",
  "Reductions over all processes, sums, maxima, prefix sums, sparse all-reduces and tree reductions return on every process that receives the result exactly the value of the sequential reduction of all contributions. Interface-to-ghost exchanges deliver every changed node's value to every process that holds a copy of it, exactly once, for all nodes or any selected subset.",
  D, "all message timings x rank counts x data x implementations",
  TD + "only a few sizes are covered.",
  ["kaminpar-mpi/wrapper.h", "kaminpar-mpi/sparse_allreduce.h", "kaminpar-mpi/binary_reduction_tree.h", "kaminpar-dist/graphutils/communication.h", "kaminpar-dist/graphutils/synchronization.cc"],
  [("collective wrappers", "kaminpar-mpi/wrapper.h"), ("binomial tree reduction", "binary_reduction_tree.h"), ("ghost exchange", "graphutils/communication.h")],
  ["reduction results / received updates"])
p("C25", "Distributed contraction yields the exact global quotient graph",
  "Contracting any clustering of a distributed graph, whether its clusters span processes or are local to one, yields, for every process count and timing, a distributed graph that is exactly the quotient of the global graph: cluster weights and inter-cluster edge weights are summed without loss, no self-loops or duplicates remain, nodes are distributed consistently and ghost nodes agree with their owners. Projecting a partition back assigns each fine node the block of its cluster.",
  D, "all timings/schedules x graphs x distributions x global clusterings (also clusters spanning processes)",
  TD + "tests use small fixed graphs on up to a few processes.",
  ["kaminpar-dist/coarsening/contraction/global_cluster_contraction.cc", "kaminpar-dist/coarsening/contraction/local_cluster_contraction.cc", "kaminpar-dist/datastructures/ghost_node_mapper.h"],
  [("cluster ownership and migration", "global_cluster_contraction.cc"), ("projection", "CoarseGraph::project")],
  ["gathered coarse graph"])
p("C26", "Distributed clusterings respect weight limits and agree on ghost nodes",
  "A distributed clustering assigns every node a valid cluster, all processes agree on the cluster of nodes they share, and the clustering can be contracted; local label propagation, and global label propagation on a single process, exceed the maximum cluster weight by no more than the nodes moved at the same time by the other threads (not at all with one thread); a matching only merges pairs of adjacent nodes within the maximum cluster weight. Local clusters never leave their process or community.",
  D, "all timings/schedules x graphs x distributions x cluster weight limits x clusterers",
  TD + "no test varies message timing.",
  ["kaminpar-dist/coarsening/clustering/lp/global_lp_clusterer.cc", "kaminpar-dist/coarsening/clustering/lp/local_lp_clusterer.cc", "kaminpar-dist/coarsening/clustering/hem/hem_clusterer.cc", "kaminpar-dist/distributed_label_propagation.h"],
  [("cluster weight control", "global_lp_clusterer.cc control_cluster_weights"), ("matching rounds", "hem_clusterer.cc")],
  ["cluster arrays of owned and ghost nodes"])
p("C27", "Distributed refinement keeps partitions consistent",
  "After any distributed refinement or balancing step, under any schedule and message timing, every node has a block in [0, k), ghost nodes agree with their owners, and every process holds the exact global block weights. Refiners do not make a feasible partition infeasible, and those that roll back never worsen a feasible partition's cut.",
  D, "all timings/schedules x graphs x distributions x partitions x refiners and balancers",
  TD + "no refiner is tested with more than a benign schedule.",
  ["kaminpar-dist/refinement/lp/lp_refiner.cc", "kaminpar-dist/refinement/lp/clp_refiner.cc", "kaminpar-dist/refinement/jet/jet_refiner.cc", "kaminpar-dist/refinement/balancer/node_balancer.cc", "kaminpar-dist/refinement/balancer/cluster_balancer.cc", "kaminpar-dist/refinement/snapshooter.cc"],
  [("probabilistic execution of moves", "lp_refiner.cc"), ("colored LP", "clp_refiner.cc"), ("rollback", "snapshooter.cc")],
  ["partition, ghost blocks and block weights on all ranks"])
p("C28", "Replication and redistribution preserve the distributed graph",
  "Gathering a distributed graph on every process, replicating it on groups of processes, and gathering back the best partition preserve the graph: every replica describes exactly the original global graph with its weights, and distributing a partition writes each node's block to its owner. Reordering local nodes by degree buckets or colour yields an isomorphic distributed graph with consistent ghost mappings.",
  D, "all timings x graphs x distributions x replication factors dividing the process count",
  TD + "tests cover fixed graphs and process counts.",
  ["kaminpar-dist/graphutils/replicator.cc", "kaminpar-dist/graphutils/rearrangement.cc", "kaminpar-dist/datastructures/distributed_graph.cc"],
  [("replicate / allgather", "replicator.cc"), ("best partition", "distribute_best_partition")],
  ["gathered graphs and partitions"])
p("C29", "Distributed extraction of blocks and neighborhoods is exact",
  "Extracting the block-induced subgraphs of a distributed partition gives each designated process exactly the induced subgraph of its block, and partitions of these subgraphs are mapped back to exactly the right nodes. Breadth-first extraction around seed nodes returns true subgraphs of the global graph within the requested number of hops.",
  D, "all timings x graphs x distributions x k relative to process count",
  TD + "tests use fixed small graphs.",
  ["kaminpar-dist/graphutils/subgraph_extractor.cc", "kaminpar-dist/graphutils/bfs_extractor.cc"],
  [("extract and scatter", "subgraph_extractor.cc"), ("distributed BFS", "bfs_extractor.cc")],
  ["extracted graphs and copied-back partitions"])
p("C30", "Distributed colorings are proper and independent sets independent",
  "The distributed greedy coloring gives adjacent nodes different colors across process borders and agrees on ghost nodes' colors on every process; distributed independent sets contain no two adjacent nodes. Both terminate for every schedule and message timing.",
  D, "all timings/schedules x graphs x distributions x numbers of supersteps",
  TD + "no schedule variation.",
  ["kaminpar-dist/algorithms/greedy_node_coloring.h", "kaminpar-dist/algorithms/independent_set.cc"],
  [("superstep coloring with conflict resolution", "greedy_node_coloring.h"), ("hash based independent set", "independent_set.cc")],
  ["colors of owned/ghost nodes"])
p("C31", "Distributed graphs, plain or compressed, describe the same global graph",
  "Building a distributed graph from its local parts yields on every process consistent global and local numberings, ghost nodes with correct owners, interface structure and communication volumes, and correct global totals; compressing it yields the same graph. Partitioning the compressed distributed graph gives the same guarantees as the plain one.",
  D, "all timings/schedules x graphs x distributions",
  TD + "small fixed graphs only.",
  ["kaminpar-dist/datastructures/distributed_csr_graph.cc", "kaminpar-dist/datastructures/distributed_compressed_graph.cc", "kaminpar-dist/datastructures/ghost_node_mapper.h", "kaminpar-dist/datastructures/growt.h"],
  [("ghost node mapping", "ghost_node_mapper.h"), ("communication metrics", "graph::init_communication_metrics")],
  ["graph API on every rank"])
p("C32", "Distributed readers and writers are exact or report a failure",
  "Reading a graph file with any number of processes and any distribution of nodes yields on the processes together exactly the graph in the file, with matching ghost nodes and node distribution. A truncated or unreadable file is reported on the processes instead of giving a wrong graph, a crash or a hang. Writing a distributed partition yields a file with the blocks of all nodes in global order, or a reported failure.",
  ["schedules", "inputs", "fault_sequences", "configurations"], "all rank counts x formats x distributions x I/O faults and truncations",
  "Distributed readers are untested.",
  ["apps/io/dist_metis_parser.cc", "apps/io/dist_parhip_parser.cc", "apps/io/dist_io.cc"],
  [("METIS scan", "dist_metis_parser.cc"), ("ParHiP ranges", "dist_parhip_parser.cc"), ("partition writer", "partition::write in dist_io.cc")],
  ["gathered graph and written file"])
p("C33", "The input validator accepts exactly the simple undirected graphs",
  "Validating an input graph returns normally if and only if every edge has its reverse edge with the same weight and no edge is repeated (wherever the copies are stored); otherwise the process ends with a message and a failure code. This holds for every thread schedule, and the graph is not changed.",
  ["schedules", "inputs"], "all graphs with missing, repeated or reweighted edge directions x schedules of the parallel validator",
  "The validator is untested.",
  ["apps/io/shm_input_validator.cc"],
  [("duplicate and reverse edge checks", "validate_undirected_graph in shm_input_validator.cc")],
  ["acceptance or reported rejection"])
p("C34", "The KaMinPar program succeeds only with complete, consistent results",
  "If the KaMinPar program exits with status 0, then every requested output file is complete and consistent: the partition has one valid block per node of the input file in its node order, block sizes are those of the partition, the rearranged graph is the input graph with consecutive blocks under the written mapping; the printed cut, number of blocks and feasibility are those of the written partition; and nothing else is written. Unusable input, impossible block weights and any I/O error lead to a non-zero status; valid input without an I/O error never does. A configuration written by --dump-config has the same effect as the options it was written from, and with one thread the same command has the same result.",
  ["schedules", "inputs", "fault_sequences", "configurations"], "all command lines x graphs x schedules x I/O faults",
  "No test runs the program.",
  ["apps/KaMinPar.cc", "kaminpar-cli/kaminpar_arguments.cc", "apps/io/shm_io.cc", "kaminpar-shm/kaminpar.cc"],
  [("program flow, outputs and option table", "main() in apps/KaMinPar.cc"), ("option defaults", "create_all_options in kaminpar_arguments.cc")],
  ["exit status", "standard output", "output files"])
p("C35", "The graph tools succeed only with complete, correct results",
  "If a shared-memory tool exits with status 0, its result is complete and correct: the component tool reports the true number, sizes and histogram of the connected components and writes a largest one as induced subgraph; attached edge weights are symmetric, within the requested range and determined by the arguments, on an otherwise unchanged graph; the compression and rearrangement tools write the input graph, unchanged or in degree-bucket order with consistent renaming; the property tools report the true numbers. Invalid input and any I/O error lead to a non-zero status; valid input without an I/O error never does.",
  ["schedules", "inputs", "fault_sequences"], "all graphs and tool options x schedules x I/O faults",
  "No test runs the tools.",
  ["apps/tools/shm_connected_components_tool.cc", "apps/tools/shm_graph_attach_weights_tool.cc", "apps/tools/shm_graph_compression_tool.cc", "apps/tools/shm_graph_properties_tool.cc", "apps/tools/shm_graph_rearrangement_tool.cc", "apps/tools/shm_partition_properties_tool.cc", "kaminpar-shm/graphutils/permutator.cc"],
  [("the tools", "apps/tools/*.cc"), ("node and edge orders", "kaminpar-shm/graphutils/permutator.cc")],
  ["exit status", "standard output", "output files"])
p("C40", "Command line options and presets are interpreted as documented",
  "Every documented command line option sets the configuration field it names, preset names select the documented preset, and enumeration names convert back and forth without loss.",
  ["inputs", "configurations"], "all option values",
  "Only a few preset names are tested.",
  ["kaminpar-cli/kaminpar_arguments.cc", "kaminpar-shm/context_io.cc", "kaminpar-shm/presets.cc"],
  [("option table", "kaminpar_arguments.cc")])
p("C41", "Integer codecs are lossless",
  "Variable-length, signed, marked and stream-compressed integer encodings decode to exactly the encoded values and their computed lengths are the lengths written.",
  ["inputs"], "all integer sequences",
  "Tests sample a few values and lengths.",
  ["kaminpar-common/graph_compression/varint.h", "kaminpar-common/graph_compression/streamvbyte.h"],
  [("codecs", "varint.h, streamvbyte.h")])
p("C42", "Sequential heaps, maps, queues and bit vectors match their models",
  "Addressable heaps, rating maps, sparse maps, queues, marker arrays and rank-select bit vectors behave like their textbook sequential models for every operation sequence.",
  ["inputs", "histories"], "all single-threaded operation sequences",
  "Tests sample a few sequences.",
  ["kaminpar-common/datastructures/binary_heap.h", "kaminpar-common/datastructures/bitvector_rank.h", "kaminpar-common/datastructures/rating_map.h", "kaminpar-common/datastructures/sparse_map.h"],
  [("data structures", "kaminpar-common/datastructures")])
p("C43", "Integer arithmetic helpers are exact",
  "Range splitting, logarithms, rounding to powers of two and block-count arithmetic return exact results for all arguments, cover ranges without gap or overlap, and never overflow for representable results.",
  ["inputs"], "all integer arguments",
  "Tests sample a few values.",
  ["kaminpar-common/math.h"],
  [("helpers", "kaminpar-common/math.h")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
