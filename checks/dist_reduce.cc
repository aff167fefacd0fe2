// C24: reductions over all processes, and exchanges between interface nodes, ghost nodes and processes.
#define DIST_UTIL_GRAPH
#include "dist.h"
#include "dist_util.h"

#include "kaminpar-mpi/binary_reduction_tree.h"
#include "kaminpar-mpi/sparse_allreduce.h"

#include "kaminpar-dist/algorithms/border_nodes.h"
#include "kaminpar-dist/context.h"
#include "kaminpar-dist/graphutils/communication.h"
#include "kaminpar-dist/metrics.h"

#include "kaminpar-common/datastructures/scalable_vector.h"

using namespace dist_util;
namespace kg = kaminpar::mpi::graph;

namespace {
enum Kind {
  R_ALLREDUCE, R_ALLREDUCE1, R_REDUCE, R_REDUCE1, R_SCAN, R_EXSCAN, R_ALLGATHER, R_ALLGATHERV, R_BCAST, R_DISTRIBUTION,
  R_COUNTS, R_STATISTICS, R_SPARSE, R_DOUBLING, R_TREE_SUM, R_TREE_CONCAT, R_GATHER, R_REDUCE_SCATTER, R_ALLTOALL, R_RING,
  R_COUNT
};
const char *kind_name[] = {"allreduce", "allreduce1", "reduce", "reduce1", "scan", "exscan", "allgather", "allgatherv", "bcast",
  "distribution", "counts", "statistics", "sparse", "doubling", "tree-sum", "tree-concat", "gather", "reduce-scatter", "alltoall", "ring"};
enum Op { O_SUM, O_MAX, O_MIN };

struct Red {
  int kind, op, type, root, len;
  std::vector<std::vector<i64>> data; // per process
};

// Graph exchanges
enum GKind { G_GHOST, G_PE, G_CUSTOM, G_SYNC_BLOCKS, G_SYNC_WEIGHTS, G_METRICS, G_COUNT };
const char *gkind_name[] = {"interface-to-ghost", "interface-to-pe", "custom", "block-sync", "weight-sync", "metrics"};
enum Range { A_ALL, A_ALL_FILTER, A_RANGE_FILTER, A_MAPPER };
struct Exch {
  int kind, range;
  bool get, with_pe_builder, with_pe_receiver, edge_filter;
  std::vector<char> selected;                   // per global node
  std::vector<std::size_t> from, to;            // per process
  std::vector<std::vector<std::size_t>> mapper; // per process: local order
  unsigned k = 1;
  std::vector<unsigned> part;
  std::vector<int> dest; // custom: destination of every node
};
struct Msg {
  std::uint64_t u, v;
  std::int64_t w;
  std::int32_t pe, seq;
  bool operator<(const Msg &o) const { return std::tie(u, v, w, pe, seq) < std::tie(o.u, o.v, o.w, o.pe, o.seq); }
  bool operator==(const Msg &o) const { return std::tie(u, v, w, pe, seq) == std::tie(o.u, o.v, o.w, o.pe, o.seq); }
};
struct Met {
  i64 cut = 0;
  double imb = 0, l1 = 0, l2 = 0;
  unsigned bad = 0;
  bool feasible = true;
  std::vector<std::size_t> border;
};

struct W : GraphJob {
  bool graph = false;
  std::vector<Red> reds;
  std::vector<Exch> ex;
  std::vector<PView> pv;
  std::vector<Met> met;
  std::vector<std::vector<std::vector<Msg>>> got; // [process][sender or 0]
};

template <typename T> T fold(int op, T a, T b) { return op == O_SUM ? a + b : op == O_MAX ? std::max(a, b) : std::min(a, b); }
MPI_Op mpi_op(int op) { return op == O_SUM ? MPI_SUM : op == O_MAX ? MPI_MAX : MPI_MIN; }

template <typename T> void run_red(const W &w, std::size_t idx, int me, MPI_Comm comm) {
  const Red &r = w.reds[idx];
  const int P = w.P();
  std::vector<std::vector<T>> in(P);
  for (int i = 0; i < P; ++i) {
    for (i64 x : r.data[i]) in[i].push_back(static_cast<T>(x));
  }
  const std::vector<T> mine = in[me];
  const int len = r.len;
  std::vector<T> total(len);
  for (int j = 0; j < len; ++j) {
    total[j] = in[0][j];
    for (int i = 1; i < P; ++i) total[j] = fold<T>(r.op, total[j], in[i][j]);
  }
  const auto where = sim::fmt("reduction %zu (%s, type %d, op %d, %d values), process %d of %d", idx, kind_name[r.kind], r.type, r.op, len, me, P);
  const auto same = [&](const auto &a, const auto &b) {
    SIM_CHECK(std::size(a) == std::size(b), "reduction", where + ": number of values");
    for (std::size_t j = 0; j < std::size(a); ++j) {
      SIM_CHECK(static_cast<T>(a[j]) == static_cast<T>(b[j]), "reduction",
                where + sim::fmt(": value %zu is %s instead of %s", j, std::to_string(a[j]).c_str(), std::to_string(b[j]).c_str()));
    }
  };
  switch (r.kind) {
  case R_ALLREDUCE: {
    std::vector<T> out(len);
    kmpi::allreduce(mine.data(), out.data(), len, mpi_op(r.op), comm);
    same(out, total);
    break;
  }
  case R_ALLREDUCE1: {
    for (int j = 0; j < std::min(len, 3); ++j) {
      T ans = 77;
      if (j == 1) {
        kmpi::allreduce(mine[j], ans, mpi_op(r.op), comm);
      } else {
        ans = kmpi::allreduce<T>(mine[j], mpi_op(r.op), comm);
      }
      SIM_CHECK(ans == total[j], "reduction", where);
    }
    break;
  }
  case R_REDUCE: {
    std::vector<T> out(len);
    kmpi::reduce(mine.data(), out.data(), len, mpi_op(r.op), r.root, comm);
    if (me == r.root) same(out, total);
    break;
  }
  case R_REDUCE1:
    for (int j = 0; j < std::min(len, 3); ++j) {
      const T ans = kmpi::reduce_single<T>(mine[j], mpi_op(r.op), r.root, comm);
      SIM_CHECK(me != r.root || ans == total[j], "reduction", where);
    }
    break;
  case R_SCAN:
    for (int j = 0; j < std::min(len, 3); ++j) {
      T want = in[0][j];
      for (int i = 1; i <= me; ++i) want = fold<T>(r.op, want, in[i][j]);
      SIM_CHECK(kmpi::scan<T>(mine[j], mpi_op(r.op), comm) == want, "reduction", where);
    }
    break;
  case R_EXSCAN:
    for (int j = 0; j < std::min(len, 3); ++j) {
      T want = in[0][j];
      for (int i = 1; i < me; ++i) want = fold<T>(r.op, want, in[i][j]);
      const T ans = kmpi::exscan<T>(mine[j], mpi_op(r.op), comm);
      SIM_CHECK(me == 0 || ans == want, "reduction", where);
    }
    break;
  case R_ALLGATHER: {
    std::vector<T> want;
    for (int i = 0; i < P; ++i) want.push_back(in[i][0]);
    if (r.root % 2) {
      same(kmpi::allgather<T>(mine[0], comm), want);
    } else {
      std::vector<T> out(P);
      kmpi::allgather(mine[0], out, comm);
      same(out, want);
    }
    break;
  }
  case R_ALLGATHERV: { // process i contributes the first i % (len + 1) values
    std::vector<T> want, send;
    std::vector<std::int64_t> dist{0};
    for (int i = 0; i < P; ++i) {
      const int c = static_cast<int>(r.data[i][0] & 15) % (len + 1);
      want.insert(want.end(), in[i].begin(), in[i].begin() + c);
      if (i == me) send.assign(in[i].begin(), in[i].begin() + c);
      dist.push_back(dist.back() + c);
    }
    std::vector<T> out(want.size());
    kmpi::allgatherv(send, out, kmpi::build_distribution_recvcounts(dist), kmpi::build_distribution_displs(dist), comm);
    same(out, want);
    break;
  }
  case R_BCAST: {
    SIM_CHECK(kmpi::bcast<T>(mine[0], r.root, comm) == in[r.root][0], "reduction", where);
    std::vector<T> buf = mine;
    kmpi::bcast(buf.data(), len, r.root, comm);
    same(buf, in[r.root]);
    break;
  }
  case R_DISTRIBUTION: {
    const auto d = kmpi::build_distribution_from_local_count<T, ScalableVector>(mine[0], comm);
    std::vector<T> want{0};
    for (int i = 0; i < P; ++i) want.push_back(want.back() + in[i][0]);
    same(d, want);
    break;
  }
  case R_COUNTS: {
    std::vector<int> want, displs{0};
    for (int i = 0; i < P; ++i) {
      want.push_back(static_cast<int>(in[i][0]));
      displs.push_back(displs.back() + want.back());
    }
    const auto c = kmpi::build_counts_from_value(mine[0], comm);
    const auto d = kmpi::build_displs_from_value(mine[0], comm);
    const auto e = kmpi::build_displs_from_counts(c);
    for (int i = 0; i <= P; ++i) {
      SIM_CHECK((i == P || c[i] == want[i]) && d[i] == displs[i] && e[i] == displs[i], "reduction",
                where + sim::fmt(": entry %d: displacements %d and %d instead of %d", i, d[i], e[i], displs[i]));
    }
    break;
  }
  case R_STATISTICS: {
    const auto [mn, avg, mx, sum] = kmpi::gather_statistics<T>(mine[0], comm);
    T a = in[0][0], b = in[0][0];
    std::int64_t s = 0;
    for (int i = 0; i < P; ++i) {
      a = std::min(a, in[i][0]);
      b = std::max(b, in[i][0]);
      s += static_cast<std::int64_t>(in[i][0]);
    }
    SIM_CHECK(mn == a && mx == b && sum == s && avg == 1.0 * s / P, "reduction", where);
    break;
  }
  case R_SPARSE: {
    std::vector<T> buf = mine;
    buf.push_back(42); // not part of the reduction
    kmpi::inplace_sparse_allreduce(buf, len, mpi_op(r.op), comm);
    SIM_CHECK(buf.back() == 42, "reduction", where + ": wrote behind the buffer");
    buf.pop_back();
    same(buf, total);
    break;
  }
  case R_DOUBLING: {
    std::vector<T> buf = mine;
    kmpi::inplace_sparse_allreduce(kmpi::tag::doubling_allreduce, buf, len, MPI_SUM, comm);
    same(buf, total);
    break;
  }
  case R_TREE_SUM: {
    const auto out = kmpi::perform_binary_reduction(std::vector<T>(mine), std::vector<T>(len), [&](auto a, auto b) {
      SIM_CHECK(a.size() == b.size(), "reduction", where + ": contributions of different sizes");
      for (std::size_t j = 0; j < a.size(); ++j) a[j] = fold<T>(O_SUM, a[j], b[j]);
      return a;
    }, comm);
    if (me == 0) same(out, total);
    break;
  }
  case R_TREE_CONCAT: { // contributions of different sizes, some empty
    const auto part = [&](int i) {
      const int c = static_cast<int>(r.data[i][0] & 15) % (len + 1);
      return std::vector<T>(in[i].begin(), in[i].begin() + c);
    };
    auto out = kmpi::perform_binary_reduction(part(me), std::vector<T>{}, [](auto a, auto b) {
      a.insert(a.end(), b.begin(), b.end());
      return a;
    }, comm);
    if (me == 0) {
      std::vector<T> want;
      for (int i = 0; i < P; ++i) {
        const auto p = part(i);
        want.insert(want.end(), p.begin(), p.end());
      }
      std::sort(want.begin(), want.end());
      std::sort(out.begin(), out.end());
      same(out, want);
    }
    break;
  }
  case R_GATHER: {
    const auto out = kmpi::gather<T>(mine[0], r.root, comm);
    if (me == r.root) {
      for (int i = 0; i < P; ++i) SIM_CHECK(out[i] == in[i][0], "reduction", where);
    }
    break;
  }
  case R_REDUCE_SCATTER: { // process i gets i % 3 elements
    std::vector<int> cnt;
    std::vector<T> send, want;
    int at = 0;
    for (int i = 0; i < P; ++i) {
      cnt.push_back((i + r.root) % 3);
      for (int c = 0; c < cnt[i]; ++c, ++at) {
        send.push_back(mine[at % len]);
        if (i == me) want.push_back(total[at % len]);
      }
    }
    std::vector<T> out(want.size() + 1);
    kmpi::reduce_scatter(send.data(), out.data(), cnt.data(), mpi_op(r.op), comm);
    out.pop_back();
    same(out, want);
    break;
  }
  case R_ALLTOALL: {
    std::vector<T> send, out(P), want;
    for (int i = 0; i < P; ++i) {
      send.push_back(mine[i % len]);
      want.push_back(in[i][me % len]);
    }
    kmpi::alltoall(send.data(), 1, out.data(), 1, comm);
    same(out, want);
    break;
  }
  case R_RING: { // messages of different sizes around a ring
    if (P == 1) break;
    const auto part = [&](int i) {
      const int c = static_cast<int>(r.data[i][0] & 15) % (len + 1);
      return std::vector<T>(in[i].begin(), in[i].begin() + c);
    };
    const auto send = part(me);
    MPI_Request req;
    kmpi::isend(send, (me + 1) % P, 5, req, comm);
    const auto out = kmpi::probe_recv<T, std::vector<T>>((me + P - 1) % P, 5, comm);
    std::vector<MPI_Request> reqs{req};
    kmpi::waitall(reqs);
    same(out, part((me + P - 1) % P));
    break;
  }
  }
}

// ---------------------------------------------------------------------------------------------------
void judge_exchange(const W &w, std::size_t idx) {
  sim::NoPreempt np;
  const Exch &e = w.ex[idx];
  const G &g = w.g;
  const int P = w.P();
  const auto owner = [&](std::size_t u) {
    int p = 0;
    while (u >= w.dist[p + 1]) ++p;
    return p;
  };
  std::vector<std::vector<std::vector<Msg>>> want(P, std::vector<std::vector<Msg>>(P));
  for (int p = 0; p < P; ++p) {
    const std::size_t n = w.dist[p + 1] - w.dist[p];
    const bool sub = e.kind == G_CUSTOM || e.range == A_RANGE_FILTER || e.range == A_MAPPER;
    const std::size_t a = sub ? e.from[p] : 0, b = sub ? e.to[p] : n;
    for (std::size_t s = a; s < b; ++s) {
      const std::size_t u = w.dist[p] + (e.kind != G_CUSTOM && e.range == A_MAPPER ? e.mapper[p][s] : s);
      const bool use_filter = e.kind == G_CUSTOM || e.range != A_ALL;
      const bool edge_filter = e.kind == G_GHOST && e.edge_filter && use_filter;
      if (use_filter && !edge_filter && !e.selected[u]) continue;
      const int seq = e.kind == G_PE && e.range == A_MAPPER && e.with_pe_builder ? static_cast<int>(s) : -1;
      if (e.kind == G_CUSTOM) {
        want[e.dest[u]][p].push_back({u, 0, 0, -1, -1});
        continue;
      }
      std::set<int> seen;
      for (std::size_t i = g.xadj[u]; i < g.xadj[u + 1]; ++i) {
        const std::size_t v = g.adj[i];
        const int o = owner(v);
        if (o == p) continue;
        if (e.kind == G_GHOST) {
          if (edge_filter && (e.selected[u] + e.selected[v] + g.ew[i]) % 2 != 0) continue;
          want[o][p].push_back({u, v, g.ew[i], e.with_pe_builder ? o : -1, -1});
        } else if (seen.insert(o).second) {
          want[o][p].push_back({u, 0, 0, e.with_pe_builder ? o : -1, seq});
        }
      }
    }
  }
  const auto where = sim::fmt("exchange %zu (%s, range %d%s)", idx, gkind_name[e.kind], e.range, e.get ? ", get" : "");
  const bool named = e.get || e.with_pe_receiver;
  for (int r = 0; r < P; ++r) {
    std::vector<std::vector<Msg>> a = want[r], b = w.got[r];
    if (!named) {
      for (int s = 1; s < P; ++s) a[0].insert(a[0].end(), a[s].begin(), a[s].end());
      a.resize(1);
    }
    for (std::size_t s = 0; s < a.size(); ++s) {
      std::sort(a[s].begin(), a[s].end());
      std::sort(b[s].begin(), b[s].end());
      if (a[s] != b[s]) {
        std::string msg;
        for (const Msg &m : a[s]) {
          const auto c = std::count(a[s].begin(), a[s].end(), m), d = std::count(b[s].begin(), b[s].end(), m);
          if (c != d && msg.empty()) msg = sim::fmt("message of node %lu (for node %lu) delivered %ld times instead of %ld", (unsigned long)m.u, (unsigned long)m.v, (long)d, (long)c);
        }
        if (msg.empty()) msg = sim::fmt("%zu messages instead of %zu", b[s].size(), a[s].size());
        sim::fail("ghost-exchange", where + sim::fmt(": process %d, from process %s: ", r, named ? std::to_string(s).c_str() : "any") + msg);
      }
    }
  }
}

using Buf = NoinitVector<Msg>;
template <typename Builder, typename Receiver>
void run_ghost(const Exch &e, int me, std::size_t off, const DistributedGraph &g, Builder &&build, Receiver &&recv, std::vector<Buf> *bufs) {
  const auto nf = [&](const NodeID u) { return e.selected[off + u] != 0; };
  const auto ef = [&](const NodeID u, const NodeID v, const EdgeWeight ew) {
    return (e.selected[g.local_to_global_node(u)] + e.selected[g.local_to_global_node(v)] + ew) % 2 == 0;
  };
  const auto map = [&](const NodeID s) -> NodeID { return static_cast<NodeID>(e.mapper[me][s]); };
  const NodeID a = e.from[me], b = e.to[me];
  const auto go = [&](auto &&f) {
    if (bufs) {
      switch (e.range) {
      case A_ALL: *bufs = kg::sparse_alltoall_interface_to_ghost_get<Msg>(g, build); break;
      case A_ALL_FILTER: *bufs = kg::sparse_alltoall_interface_to_ghost_get<Msg>(g, f, build); break;
      case A_RANGE_FILTER: *bufs = kg::sparse_alltoall_interface_to_ghost_get<Msg>(g, a, b, f, build); break;
      case A_MAPPER: *bufs = kg::sparse_alltoall_interface_to_ghost_custom_range_get<Msg>(g, a, b, map, f, build); break;
      }
    } else {
      switch (e.range) {
      case A_ALL: kg::sparse_alltoall_interface_to_ghost<Msg>(g, build, recv); break;
      case A_ALL_FILTER: kg::sparse_alltoall_interface_to_ghost<Msg>(g, f, build, recv); break;
      case A_RANGE_FILTER: kg::sparse_alltoall_interface_to_ghost<Msg>(g, a, b, f, build, recv); break;
      case A_MAPPER: kg::sparse_alltoall_interface_to_ghost_custom_range<Msg>(g, a, b, map, f, build, recv); break;
      }
    }
  };
  if (e.edge_filter) {
    go(ef);
  } else {
    go(nf);
  }
}
template <typename Builder, typename Receiver>
void run_pe(const Exch &e, int me, std::size_t off, const DistributedGraph &g, Builder &&build, Receiver &&recv, std::vector<Buf> *bufs) {
  const auto f = [&](const NodeID u) { return e.selected[off + u] != 0; };
  const auto map = [&](const NodeID s) -> NodeID { return static_cast<NodeID>(e.mapper[me][s]); };
  const NodeID a = e.from[me], b = e.to[me];
  if (bufs) {
    switch (e.range) {
    case A_ALL: *bufs = kg::sparse_alltoall_interface_to_pe_get<Msg>(g, build); break;
    case A_ALL_FILTER: *bufs = kg::sparse_alltoall_interface_to_pe_get<Msg>(g, f, build); break;
    case A_RANGE_FILTER: *bufs = kg::sparse_alltoall_interface_to_pe_get<Msg>(g, a, b, f, build); break;
    case A_MAPPER: *bufs = kg::sparse_alltoall_interface_to_pe_custom_range_get<Msg>(g, a, b, map, f, build); break;
    }
  } else {
    switch (e.range) {
    case A_ALL: kg::sparse_alltoall_interface_to_pe<Msg>(g, build, recv); break;
    case A_ALL_FILTER: kg::sparse_alltoall_interface_to_pe<Msg>(g, f, build, recv); break;
    case A_RANGE_FILTER: kg::sparse_alltoall_interface_to_pe<Msg>(g, a, b, f, build, recv); break;
    case A_MAPPER: kg::sparse_alltoall_interface_to_pe_custom_range<Msg>(g, a, b, map, f, build, recv); break;
    }
  }
}

void run_exchange(W &w, std::size_t idx, int me, const DistributedGraph &g) {
  const Exch &e = w.ex[idx];
  const int P = w.P();
  const std::size_t off = w.dist[me];
  std::vector<std::vector<Msg>> got(P);
  std::vector<Buf> bufs;
  std::vector<Buf> *get = e.get ? &bufs : nullptr;
  const auto r2 = [&](const Buf &b, const PEID pe) {
    SIM_CHECK(pe >= 0 && pe < P, "ghost-exchange", "receiver called for a process that does not exist");
    got[pe].insert(got[pe].end(), b.begin(), b.end());
  };
  const auto r1 = [&](const Buf &b) { got[0].insert(got[0].end(), b.begin(), b.end()); };
  const auto both = [&](auto &&f) {
    if (e.with_pe_receiver) f(r2);
    else f(r1);
  };
  switch (e.kind) {
  case G_GHOST: {
    const auto msg = [&](NodeID u, NodeID v, EdgeWeight x, int pe) {
      return Msg{g.local_to_global_node(u), g.local_to_global_node(v), x, pe, -1};
    };
    const auto b4 = [&](const NodeID u, const NodeID v, const EdgeWeight x, const PEID pe) -> Msg { return msg(u, v, x, pe); };
    const auto b3 = [&](const NodeID u, const NodeID v, const EdgeWeight x) -> Msg { return msg(u, v, x, -1); };
    both([&](auto &&r) {
      if (e.with_pe_builder) run_ghost(e, me, off, g, b4, r, get);
      else run_ghost(e, me, off, g, b3, r, get);
    });
    break;
  }
  case G_PE: {
    const auto b1 = [&](const NodeID u) -> Msg { return {off + u, 0, 0, -1, -1}; };
    const auto b2 = [&](const NodeID u, const PEID pe) -> Msg { return {off + u, 0, 0, pe, -1}; };
    const auto b3 = [&](const NodeID s, const NodeID u, const PEID pe) -> Msg { return {off + u, 0, 0, pe, static_cast<int>(s)}; };
    both([&](auto &&r) {
      if (e.with_pe_builder && e.range == A_MAPPER) run_pe(e, me, off, g, b3, r, get);
      else if (e.with_pe_builder) run_pe(e, me, off, g, b2, r, get);
      else run_pe(e, me, off, g, b1, r, get);
    });
    break;
  }
  case G_CUSTOM: {
    const auto f = [&](const NodeID u) { return e.selected[off + u] != 0; };
    const auto pe = [&](const NodeID u) -> PEID { return e.dest[off + u]; };
    const auto b = [&](const NodeID u) -> Msg { return {off + u, 0, 0, -1, -1}; };
    if (e.get) {
      bufs = kg::sparse_alltoall_custom<Msg>(g, e.from[me], e.to[me], f, pe, b);
    } else {
      both([&](auto &&r) { kg::sparse_alltoall_custom<Msg>(g, e.from[me], e.to[me], f, pe, b, r); });
    }
    break;
  }
  }
  if (e.get) {
    SIM_CHECK(static_cast<int>(bufs.size()) == P, "ghost-exchange", "number of receive buffers");
    for (int s = 0; s < P; ++s) got[s].assign(bufs[s].begin(), bufs[s].end());
  }
  publish(w.got, me, std::move(got), [&] { judge_exchange(w, idx); });
}

// Ghost copies of blocks and weights are wrong before and right after the synchronization.
void run_sync(W &w, std::size_t idx, int me, DistributedGraph &g) {
  const Exch &e = w.ex[idx];
  if (e.kind == G_SYNC_WEIGHTS) {
    for (NodeID u = g.n(); u < g.total_n(); ++u) g.set_ghost_node_weight(u, 1 + (u * 7 + idx) % 5);
    graph::synchronize_ghost_node_weights(g);
    publish(w.views, me, view(g), [&] { assemble(w.views, "after the synchronization of weights"); });
    return;
  }
  DistributedPartitionedGraph p = make_pgraph(g, e.part, e.k);
  if (e.kind == G_SYNC_BLOCKS) {
    for (NodeID u = g.n(); u < g.total_n(); ++u) p.set_block<false>(u, (u + idx) % e.k);
    graph::synchronize_ghost_node_block_ids(p);
    publish(w.pv, me, pview(p), [&] {
      const auto part = check_partition(w.g, w.pv, e.k, "after the synchronization of blocks");
      SIM_CHECK(part == e.part, "ghost-block", "the synchronization moved nodes");
    });
    return;
  }
  PartitionContext ctx(e.k, e.k, 0.03);
  ctx.graph = std::make_unique<GraphContext>(g, ctx);
  ctx.graph->setup_perfectly_balanced_block_weights(e.k);
  ctx.graph->setup_max_block_weights(e.k, ctx.epsilon);
  Met m;
  m.cut = metrics::edge_cut(p);
  m.imb = metrics::imbalance(p);
  m.l1 = metrics::imbalance_l1(p, ctx);
  m.l2 = metrics::imbalance_l2(p, ctx);
  m.bad = metrics::num_imbalanced_blocks(p, ctx);
  m.feasible = metrics::is_feasible(p, ctx);
  std::vector<i64> limit;
  for (unsigned b = 0; b < e.k; ++b) limit.push_back(ctx.graph->max_block_weight(b));
  for (const NodeID u : graph::find_border_nodes(p)) m.border.push_back(w.dist[me] + u);
  publish(w.met, me, std::move(m), [&] {
    sim::NoPreempt np;
    const G &gg = w.g;
    i64 cut = 0, total = 0;
    std::vector<std::size_t> border, got;
    for (std::size_t u = 0; u < gg.n; ++u) {
      total += gg.vw[u];
      bool is = false;
      for (std::size_t i = gg.xadj[u]; i < gg.xadj[u + 1]; ++i) {
        if (e.part[u] != e.part[gg.adj[i]]) {
          cut += gg.ew[i];
          is = true;
        }
      }
      if (is) border.push_back(u);
    }
    const auto bw = gg.block_weights(e.part, e.k);
    double imb = 0, l1 = 0, l2 = 0;
    unsigned bad = 0;
    for (unsigned b = 0; b < e.k; ++b) {
      imb = std::max(imb, bw[b] / std::ceil(1.0 * total / e.k) - 1.0);
      if (bw[b] > limit[b]) {
        ++bad;
        l1 += bw[b] - limit[b];
        l2 += 1.0 * (bw[b] - limit[b]) * (bw[b] - limit[b]);
      }
    }
    for (const Met &x : w.met) {
      got.insert(got.end(), x.border.begin(), x.border.end());
      if (x.cut != cut / 2) sim::fail("metrics", sim::fmt("edge cut %ld instead of %ld", (long)x.cut, (long)cut / 2));
      if (std::abs(x.imb - imb) > 1e-9 || std::abs(x.l1 - l1) > 1e-9 || std::abs(x.l2 - std::sqrt(l2)) > 1e-9 || x.bad != bad || x.feasible != (bad == 0))
        sim::fail("metrics", sim::fmt("imbalance %f, l1 %f, l2 %f, %u overloaded blocks instead of %f, %f, %f, %u", x.imb, x.l1, x.l2, x.bad, imb, l1, std::sqrt(l2), bad));
    }
    if (got != border) sim::fail("metrics", sim::fmt("%zu border nodes instead of %zu", got.size(), border.size()));
  });
}
} // namespace

extern "C" {
sim::dist::Config dist_config = {10'000'000, "hang"};

void *dist_prepare() {
  auto *w = new W();
  w->graph = sim::coin(0.6);
  std::string what;
  if (w->graph) {
    gen::Opts o;
    o.max_n = sim::coin(0.2) ? 100 : 30;
    o.max_m = 4 * o.max_n;
    draw_graph_job(*w, 9, 4, o);
    const int P = w->P();
    for (int c = static_cast<int>(sim::range(1, 4)); c > 0; --c) {
      Exch e;
      e.kind = static_cast<int>(sim::choose(sim::K_WORK, sim::coin(0.7) ? 3 : G_COUNT));
      e.range = static_cast<int>(sim::choose(sim::K_WORK, 4));
      e.get = sim::coin(0.3);
      e.with_pe_builder = sim::coin();
      e.with_pe_receiver = sim::coin(0.7);
      e.edge_filter = sim::coin(0.3);
      const double dens = sim::coin(0.3) ? 0.1 : 0.5;
      for (std::size_t u = 0; u < w->g.n; ++u) {
        e.selected.push_back(sim::coin(dens));
        e.dest.push_back(static_cast<int>(sim::choose(sim::K_WORK, P)));
      }
      for (int p = 0; p < P; ++p) {
        const std::size_t n = w->dist[p + 1] - w->dist[p];
        std::size_t a = sim::range(0, n), b = sim::range(0, n);
        e.from.push_back(std::min(a, b));
        e.to.push_back(std::max(a, b));
        std::vector<std::size_t> m(n);
        std::iota(m.begin(), m.end(), 0);
        for (std::size_t i = n; i > 1; --i) std::swap(m[i - 1], m[sim::choose(sim::K_WORK, i)]);
        e.mapper.push_back(m);
      }
      e.k = static_cast<unsigned>(sim::range(1, 6));
      e.part = draw_partition(w->g, e.k);
      what += std::string(" ") + gkind_name[e.kind];
      w->ex.push_back(std::move(e));
    }
    w->pv.resize(P);
    w->met.resize(P);
    w->got.resize(P);
    sim::note(describe(*w) + ";" + what);
    if (P > 1 && w->g.m() > 0) sim::mark_nontrivial();
    return w;
  }
  draw_base(w->b, 12, 2);
  const int P = w->P();
  for (int c = static_cast<int>(sim::range(1, 8)); c > 0; --c) {
    Red r;
    do {
      r.kind = static_cast<int>(sim::choose(sim::K_WORK, R_COUNT));
    } while (r.kind == R_DOUBLING && (P & (P - 1)) != 0);
    r.op = static_cast<int>(sim::choose(sim::K_WORK, 3));
    if (r.kind == R_DOUBLING || r.kind == R_TREE_SUM) r.op = O_SUM;
    r.type = static_cast<int>(sim::choose(sim::K_WORK, 5));
    r.root = static_cast<int>(sim::choose(sim::K_WORK, P));
    r.len = static_cast<int>(sim::range(1, sim::coin(0.1) ? 400 : 9));
    const bool large = sim::coin(0.2), sparse = sim::coin(0.3);
    r.data.resize(P);
    const bool counts = r.kind == R_COUNTS || r.kind == R_DISTRIBUTION;
    for (int i = 0; i < P; ++i) {
      for (int j = 0; j < r.len; ++j) {
        i64 x = sim::range(0, large && !counts ? 100'000'000 : 50);
        if (sparse && !sim::coin(0.3)) x = 0;
        if (!counts && (r.type == 0 || r.type == 1 || r.type == 4) && sim::coin(0.3)) x = -x;
        r.data[i].push_back(x);
      }
    }
    what += std::string(" ") + kind_name[r.kind];
    w->reds.push_back(std::move(r));
  }
  sim::note(sim::fmt("%d of %d processes; %s", P, w->b.n, what.c_str()));
  if (P > 1) sim::mark_nontrivial();
  return w;
}
int dist_ranks(void *w) { return static_cast<W *>(w)->b.n; }

void dist_rank(int r, void *wp) {
  W &w = *static_cast<W *>(wp);
  sim::tbb_configure(w.b.threads[r]);
  MPI_Comm comm = make_comm(w.b, r);
  const int i = w.b.index(r);
  if (i < 0) {
    return;
  }
  if (w.graph) {
    DistributedGraph graph = build_graph(w.g, w.dist, comm);
    for (std::size_t x = 0; x < w.ex.size(); ++x) {
      if (w.ex[x].kind <= G_CUSTOM) {
        run_exchange(w, x, i, graph);
      } else if (w.ex[x].kind != G_SYNC_WEIGHTS || w.g.has_vw) {
        run_sync(w, x, i, graph);
      }
    }
    return;
  }
  for (std::size_t x = 0; x < w.reds.size(); ++x) {
    switch (w.reds[x].type) {
    case 0: run_red<std::int32_t>(w, x, i, comm); break;
    case 1: run_red<std::int64_t>(w, x, i, comm); break;
    case 2: run_red<std::uint32_t>(w, x, i, comm); break;
    case 3: run_red<std::uint64_t>(w, x, i, comm); break;
    case 4: run_red<double>(w, x, i, comm); break;
    }
  }
}

void dist_finish(void *) {}
}
