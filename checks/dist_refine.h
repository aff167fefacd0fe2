// Workloads that run one distributed refinement or balancing algorithm on a given partition.
#pragma once
#include "dist_e2e.h"

#include "kaminpar-dist/factories.h"
#include "kaminpar-dist/metrics.h"
#include "kaminpar-dist/refinement/refiner.h"

#include "kaminpar-common/random.h"

namespace dist_refine {
using namespace dist_util;
using dist_e2e::Plan;

enum Algo { A_LP, A_CLP, A_JET, A_NB, A_CB, A_MULTI, A_COUNT };
inline const char *kAlgoNames[] = {"lp", "colored-lp", "jet", "node-balancer", "cluster-balancer", "pipeline"};
inline const RefinementAlgorithm kAlgos[] = {RefinementAlgorithm::BATCHED_LP_REFINER, RefinementAlgorithm::COLORED_LP_REFINER,
                                             RefinementAlgorithm::JET_REFINER, RefinementAlgorithm::HYBRID_NODE_BALANCER,
                                             RefinementAlgorithm::HYBRID_CLUSTER_BALANCER, RefinementAlgorithm::NOOP};

struct W : GraphJob {
  Plan plan;
  unsigned k = 2;
  Algo algo = A_LP;
  int seed = 0, rounds = 1;
  std::vector<unsigned> part;
  std::vector<PView> pviews;
  std::vector<std::vector<i64>> limits;
  // history kept by the judge
  std::vector<unsigned> last;
  int judged = 0;
};

inline void common_draw(W &w, double p_vw, std::size_t max_n) {
  gen::Opts o;
  o.max_n = max_n;
  o.max_m = 3 * max_n;
  o.p_vw = p_vw;
  draw_graph_job(w, 8, 3, o);
  for (auto &t : w.b.threads) t = w.b.threads[0];
  static const std::vector<std::string> names = {"default", "strong", "jet", "europar23-fast"};
  w.plan.preset = sim::pick(names);
  dist_e2e::draw_tweaks(w.plan);
  w.plan.tweaks.emplace_back(dist_e2e::T_OUTPUT, 0);
  w.k = static_cast<unsigned>(sim::range(1, sim::coin(0.2) ? 16 : 6));
  w.seed = static_cast<int>(sim::range(0, 1000));
  w.rounds = static_cast<int>(sim::range(1, 2));
  w.part = draw_partition(w.g, w.k);
  w.pviews.resize(w.P());
  w.limits.resize(w.P());
  if ((w.P() & (w.P() - 1)) != 0) {
    // BEST_MOVES requires a power of two of processes (assertion)
    const int best = static_cast<int>(LabelPropagationMoveExecutionStrategy::BEST_MOVES);
    if (w.plan.get(dist_e2e::T_CLP_STRAT, best) == best) {
      std::erase_if(w.plan.tweaks, [](auto &t) { return t.first == dist_e2e::T_CLP_STRAT; });
      w.plan.tweaks.emplace_back(dist_e2e::T_CLP_STRAT, static_cast<int>(LabelPropagationMoveExecutionStrategy::PROBABILISTIC));
    }
  }
}

inline std::string text(const W &w) {
  return sim::fmt("%s %s%s; k=%u rounds=%d; %s", kAlgoNames[w.algo], w.plan.preset.c_str(), w.plan.text.c_str(), w.k, w.rounds, describe(w).c_str());
}

// Runs the algorithm on process r; judge(w) is called once after every round, with all pviews set.
template <typename Judge> void run(W &w, int r, Judge &&judge) {
  sim::tbb_configure(w.b.threads[r]);
  MPI_Comm comm = make_comm(w.b, r);
  const int i = w.b.index(r);
  if (i < 0) {
    return;
  }
  std::cout.setstate(std::ios::badbit);
  Random::reseed(w.seed);
  DistributedGraph graph = build_graph(w.g, w.dist, comm);
  publish(w.views, i, view(graph), [&] { assemble(w.views, "input"); });
  {
    Context ctx = dist_e2e::make_context(w.plan);
    ctx.parallel.num_mpis = w.P();
    ctx.parallel.num_threads = w.b.threads[r];
    ctx.partition.k = w.k;
    ctx.partition.graph = std::make_unique<GraphContext>(graph, ctx.partition);
    Logger::set_quiet_mode(true);
    DistributedPartitionedGraph p_graph = make_pgraph(graph, w.part, w.k);
    w.limits[i].clear();
    for (unsigned b = 0; b < w.k; ++b) w.limits[i].push_back(ctx.partition.graph->max_block_weight(b));
    publish(w.pviews, i, pview(p_graph), [&] { w.last = check_partition(w.g, w.pviews, w.k, "input partition"); });
    auto factory = w.algo == A_MULTI ? factory::create_refiner(ctx) : factory::create_refiner(ctx, kAlgos[w.algo]);
    auto refiner = factory->create(p_graph, ctx.partition);
    for (int round = 0; round < w.rounds; ++round) {
      refiner->initialize();
      refiner->refine();
      publish(w.pviews, i, pview(p_graph), [&] {
        auto part = check_partition(w.g, w.pviews, w.k, kAlgoNames[w.algo]);
        judge(part);
        w.last = std::move(part);
        ++w.judged;
      });
    }
  }
  sim::mpi::meet(w.P());
}

// total overload with respect to the limits of process 0
inline i64 overload(const W &w, const std::vector<unsigned> &part) {
  const auto bw = w.g.block_weights(part, w.k);
  i64 sum = 0;
  for (unsigned b = 0; b < w.k; ++b) sum += std::max<i64>(0, bw[b] - w.limits[0][b]);
  return sum;
}
} // namespace dist_refine
