// Sparse all-to-all exchanges: every element reaches its addressee exactly once, in order, attributed
// to its sender, on any communicator, with any algorithm and message timing.
#include "dist.h"
#include "dist_util.h"

#include "kaminpar-mpi/sparse_alltoall.h"

using namespace kaminpar;
using namespace kaminpar::mpi;

namespace {
struct Triple {
  std::uint32_t op, route, index;
};
struct Odd {
  unsigned char b[7];
};

enum Algo { A_AUTO, A_GRID, A_ALLTOALLV, A_COMPLETE, A_GET, A_V, A_GRID_DENSE, A_COUNT };
enum Type { T_U32, T_U64, T_TRIPLE, T_ODD, T_COUNT };

struct Op {
  int comm;      // index of the communicator
  int algo, type;
  bool move, with_pe;
  std::vector<std::vector<int>> counts; // [world rank][world rank]
};
struct CommPlan { // derived communicators live in slots and are replaced over time
  int before;     // created before this operation
  int slot;
  int parent;     // 0 = world, otherwise slot + 1
  bool dup;
  std::vector<int> color, key;
};
struct W {
  int n;
  std::vector<int> threads;
  std::vector<CommPlan> comms;
  std::vector<Op> ops;
};

template <typename M> M make(std::uint32_t op, int from, int to, std::uint32_t i) {
  const std::uint64_t v = (static_cast<std::uint64_t>(op) << 40) | (static_cast<std::uint64_t>(from) << 34) |
                          (static_cast<std::uint64_t>(to) << 28) | i;
  if constexpr (std::is_same_v<M, std::uint32_t>) {
    return (op << 26) ^ (from << 22) ^ (to << 18) ^ i;
  } else if constexpr (std::is_same_v<M, std::uint64_t>) {
    return v;
  } else if constexpr (std::is_same_v<M, Triple>) {
    return {op, static_cast<std::uint32_t>(from * 64 + to), i};
  } else {
    Odd o;
    std::memcpy(o.b, &v, 7);
    return o;
  }
}

template <typename M> void run_op(const W &w, int opi, const Op &op, int me, MPI_Comm comm, const std::vector<int> &members) {
  const int size = static_cast<int>(members.size());
  using Buffer = NoinitVector<M>;
  std::vector<Buffer> send(size);
  for (int j = 0; j < size; ++j) {
    const int cnt = op.counts[me][members[j]];
    send[j] = Buffer(cnt);
    for (int i = 0; i < cnt; ++i) {
      send[j][i] = make<M>(opi, me, members[j], i);
    }
  }
  std::vector<std::vector<M>> got(size);
  std::vector<int> order;
  auto receiver = [&](Buffer buf, const PEID pe) {
    SIM_CHECK(pe >= 0 && pe < size, "alltoall-sender", sim::fmt("receiver called with PE %d of %d", pe, size));
    for (std::size_t i = 0; i < buf.size(); ++i) {
      got[pe].push_back(buf[i]);
    }
  };
  std::vector<M> anonymous;
  auto receiver1 = [&](Buffer buf) {
    for (std::size_t i = 0; i < buf.size(); ++i) {
      anonymous.push_back(buf[i]);
    }
  };
  auto go = [&](auto &&r) {
    switch (op.algo) {
    case A_AUTO:
      op.move ? sparse_alltoall<M>(std::move(send), r, comm) : sparse_alltoall<M>(send, r, comm);
      break;
    case A_GRID:
      op.move ? sparse_alltoall<M, Buffer>(tag::grid, std::move(send), r, comm)
              : sparse_alltoall<M, Buffer>(tag::grid, send, r, comm);
      break;
    case A_ALLTOALLV:
      op.move ? sparse_alltoall<M, Buffer>(tag::alltoallv, std::move(send), r, comm)
              : sparse_alltoall<M, Buffer>(tag::alltoallv, send, r, comm);
      break;
    case A_COMPLETE:
      op.move ? sparse_alltoall<M, Buffer>(tag::complete_send_recv, std::move(send), r, comm)
              : sparse_alltoall<M, Buffer>(tag::complete_send_recv, send, r, comm);
      break;
    }
  };
  const bool named = op.with_pe || op.algo >= A_GET;
  if (op.algo <= A_COMPLETE) {
    if (named) {
      go(receiver);
    } else {
      go(receiver1);
    }
  } else if (op.algo == A_GET) {
    auto res = op.move ? sparse_alltoall_get<M>(std::move(send), comm) : sparse_alltoall_get<M>(send, comm);
    SIM_CHECK(static_cast<int>(res.size()) == size, "alltoall-sender", "wrong number of receive buffers");
    for (int j = 0; j < size; ++j) {
      got[j].assign(res[j].begin(), res[j].end());
    }
  } else if (op.algo == A_V) {
    std::vector<int> sc(size), sd(size), rc(size), rd(size);
    int s = 0, r = 0;
    for (int j = 0; j < size; ++j) {
      sc[j] = op.counts[me][members[j]];
      rc[j] = op.counts[members[j]][me];
      sd[j] = s;
      rd[j] = r;
      s += sc[j] + j % 2; // gaps
      r += rc[j] + (j + 1) % 2;
    }
    std::vector<M> sb(s + 1), rb(r + 1);
    for (int j = 0; j < size; ++j) {
      std::copy(send[j].begin(), send[j].end(), sb.begin() + sd[j]);
    }
    sparse_alltoallv(sb.data(), sc.data(), sd.data(), rb.data(), rc.data(), rd.data(), comm);
    for (int j = 0; j < size; ++j) {
      got[j].assign(rb.begin() + rd[j], rb.begin() + rd[j] + rc[j]);
    }
  } else {
    std::vector<M> data;
    std::vector<int> counts(size);
    for (int j = 0; j < size; ++j) {
      counts[j] = static_cast<int>(send[j].size());
      data.insert(data.end(), send[j].begin(), send[j].end());
    }
    sparse_alltoall_grid<M, Buffer>(data, counts, receiver, comm);
  }
  if (!op.move || op.algo == A_GRID_DENSE || op.algo == A_V) {
    for (int j = 0; j < size; ++j) { // send buffers passed by reference are not modified
      const int cnt = op.counts[me][members[j]];
      SIM_CHECK(static_cast<int>(send[j].size()) == cnt, "alltoall-sendbuf", "send buffer changed");
    }
  }

  auto same = [](const M &a, const M &b) { return std::memcmp(&a, &b, sizeof(M)) == 0; };
  std::vector<std::vector<M>> want(size);
  std::size_t total = 0;
  for (int j = 0; j < size; ++j) {
    const int cnt = op.counts[members[j]][me];
    for (int i = 0; i < cnt; ++i) {
      want[j].push_back(make<M>(opi, members[j], me, i));
    }
    total += cnt;
  }
  const char *names[] = {"auto", "grid", "alltoallv", "complete", "get", "v", "grid-dense"};
  const std::string where = sim::fmt("operation %d (%s%s, element size %zu), process %d of %d (world rank %d)", opi,
                                     names[op.algo], op.move ? ", moved" : "", sizeof(M),
                                     mpi::get_comm_rank(comm), size, me);
  if (named) {
    for (int j = 0; j < size; ++j) {
      SIM_CHECK(got[j].size() == want[j].size(), "alltoall-lost",
                where + sim::fmt(": received %zu elements from process %d, sent %zu", got[j].size(), j, want[j].size()));
      for (std::size_t i = 0; i < want[j].size(); ++i) {
        SIM_CHECK(same(got[j][i], want[j][i]), "alltoall-content",
                  where + sim::fmt(": element %zu from process %d differs", i, j));
      }
    }
  } else {
    // whole messages arrive one after the other in any order of the senders
    SIM_CHECK(anonymous.size() == total, "alltoall-lost",
              where + sim::fmt(": received %zu elements, sent %zu", anonymous.size(), total));
    std::vector<char> seen(size, 0);
    std::size_t pos = 0;
    while (pos < anonymous.size()) {
      int from = -1;
      for (int j = 0; j < size; ++j) {
        if (!seen[j] && !want[j].empty() && same(want[j][0], anonymous[pos])) {
          from = j;
        }
      }
      SIM_CHECK(from >= 0, "alltoall-content", where + sim::fmt(": unexpected element at %zu", pos));
      seen[from] = 1;
      for (const M &m : want[from]) {
        SIM_CHECK(same(m, anonymous[pos]), "alltoall-content", where + sim::fmt(": element %zu differs", pos));
        ++pos;
      }
    }
  }
}
} // namespace

extern "C" {
sim::dist::Config dist_config = {4'000'000, "hang"};

void *dist_prepare() {
  auto *w = new W();
  w->n = static_cast<int>(sim::range(1, sim::coin(0.25) ? 12 : 7));
  dist_util::draw_threads(w->threads, w->n, 3);
  const int nops = static_cast<int>(sim::range(1, 5));
  const bool derived = w->n > 1 && sim::coin(0.6);
  const int slots = derived ? static_cast<int>(sim::range(1, 2)) : 0;
  for (int o = 0; o < nops; ++o) {
    for (int s = 0; s < slots; ++s) {
      if (o == 0 || sim::coin(0.4)) {
        CommPlan c;
        c.before = o;
        c.slot = s;
        c.parent = (o > 0 && s > 0 && sim::coin(0.3)) ? 1 : 0;
        c.dup = sim::coin(0.2);
        const int colors = static_cast<int>(sim::range(1, 3));
        const bool reverse = sim::coin(0.4);
        for (int r = 0; r < w->n; ++r) {
          c.color.push_back(static_cast<int>(sim::choose(sim::K_WORK, colors)));
          c.key.push_back(reverse ? w->n - r : 0);
        }
        w->comms.push_back(c);
      }
    }
    Op op;
    op.comm = slots > 0 ? static_cast<int>(sim::range(0, slots)) : 0;
    op.algo = static_cast<int>(sim::choose(sim::K_WORK, A_COUNT));
    op.type = static_cast<int>(sim::choose(sim::K_WORK, T_COUNT));
    op.move = sim::coin();
    op.with_pe = sim::coin(0.7);
    const int shape = static_cast<int>(sim::choose(sim::K_WORK, 6));
    const int hot = static_cast<int>(sim::choose(sim::K_WORK, w->n));
    op.counts.assign(w->n, std::vector<int>(w->n, 0));
    for (int i = 0; i < w->n; ++i) {
      for (int j = 0; j < w->n; ++j) {
        int &c = op.counts[i][j];
        switch (shape) {
        case 0: c = static_cast<int>(sim::range(0, 3)); break;
        case 1: c = static_cast<int>(sim::coin(0.3) ? sim::range(1, 40) : 0); break;
        case 2: c = (i == hot || j == hot) ? static_cast<int>(sim::range(1, 8)) : 0; break;
        case 3: c = i == j ? 2 : static_cast<int>(sim::range(0, 1)); break;
        case 4: c = 0; break;
        case 5: c = static_cast<int>(sim::coin(0.1) ? sim::range(600, 2500) : sim::range(0, 2)); break;
        }
      }
    }
    w->ops.push_back(op);
  }
  sim::note(sim::fmt("%d processes, %d operations, %zu communicators", w->n, nops, w->comms.size()));
  if (w->n > 1) {
    sim::mark_nontrivial();
  }
  return w;
}

int dist_ranks(void *w) { return static_cast<W *>(w)->n; }

void dist_rank(int r, void *wp) {
  const W &w = *static_cast<W *>(wp);
  sim::tbb_configure(w.threads[r]);
  std::vector<MPI_Comm> comm(4, MPI_COMM_NULL);
  std::vector<std::vector<int>> members(4);
  comm[0] = MPI_COMM_WORLD;
  for (int i = 0; i < w.n; ++i) {
    members[0].push_back(i);
  }
  std::size_t next = 0;
  for (std::size_t o = 0; o < w.ops.size(); ++o) {
    for (; next < w.comms.size() && w.comms[next].before == static_cast<int>(o); ++next) {
      const CommPlan &c = w.comms[next];
      const int slot = c.slot + 1;
      if (comm[slot] != MPI_COMM_NULL) {
        MPI_Comm_free(&comm[slot]);
        SIM_CHECK(comm[slot] == MPI_COMM_NULL, "simulator-error", "free");
      }
      const int parent = c.parent;
      if (c.dup) {
        MPI_Comm_dup(comm[parent], &comm[slot]);
        members[slot] = members[parent];
      } else {
        MPI_Comm_split(comm[parent], c.color[r], c.key[r], &comm[slot]);
        members[slot].clear();
        std::vector<int> m;
        for (int x : members[parent]) {
          if (c.color[x] == c.color[r]) {
            m.push_back(x);
          }
        }
        std::stable_sort(m.begin(), m.end(), [&](int a, int b) { return c.key[a] < c.key[b]; });
        members[slot] = m;
      }
      SIM_CHECK(mpi::get_comm_size(comm[slot]) == static_cast<int>(members[slot].size()), "simulator-error", "split");
      SIM_CHECK(members[slot][mpi::get_comm_rank(comm[slot])] == r, "simulator-error", "split rank");
    }
    const Op &op = w.ops[o];
    switch (op.type) {
    case T_U32: run_op<std::uint32_t>(w, o, op, r, comm[op.comm], members[op.comm]); break;
    case T_U64: run_op<std::uint64_t>(w, o, op, r, comm[op.comm], members[op.comm]); break;
    case T_TRIPLE: run_op<Triple>(w, o, op, r, comm[op.comm], members[op.comm]); break;
    case T_ODD: run_op<Odd>(w, o, op, r, comm[op.comm], members[op.comm]); break;
    }
  }
}

void dist_finish(void *) {}
}
