// Simulated MPI. Ranks are fibers (slot 0 of their rank); communication happens in this file only.
//
// What MPI allows and this decides by seeded choice (K_NET): whether a rank leaves a collective as
// soon as its own result does not depend on late ranks or only when everybody has arrived; eager or
// rendezvous sends; buffers of non-blocking sends read at once, at the wait or when received; delay
// of messages (non-overtaking per pair and communicator); matching of wildcard receives; reuse of the
// handles of freed communicators. What MPI forbids is a violation: collectives that do not match,
// truncated messages, wrong ranks, buffers outside of allocated memory, aliased buffers, calls from
// worker threads (MPI_THREAD_FUNNELED), messages that nobody receives.
#include <execinfo.h>
#include "core.h"
#include "mpi_rt.h"
#include "mpiinclude/mpi.h"

#include <deque>
#include <map>
#include <memory>
#include <vector>

using namespace sim;

namespace {
constexpr int kMaxRanks = 16;
constexpr int kFirstHandle = 16;

struct TypeInfo {
  std::size_t size;
  MPI_Datatype base;
};
std::vector<TypeInfo> g_derived;

enum CollKind {
  C_BARRIER, C_BCAST, C_REDUCE, C_ALLREDUCE, C_REDUCE_SCATTER, C_SCAN, C_EXSCAN, C_GATHER, C_SCATTER,
  C_ALLGATHER, C_ALLTOALL, C_SPLIT, C_NONE
};
const char *kind_name[] = {"Barrier", "Bcast", "Reduce", "Allreduce", "Reduce_scatter", "Scan", "Exscan",
                           "Gather(v)", "Scatter(v)", "Allgather(v)", "Alltoall(v)", "Comm_split/dup", "none"};

struct CommObj;
struct Part {
  bool in = false;
  std::vector<char> data;
  std::vector<std::size_t> counts; // bytes for each member (alltoall, scatter)
  std::vector<std::size_t> wants;  // bytes expected from each member (alltoall)
  int color = 0, key = 0;
  CommObj *result = nullptr;
};
struct Coll {
  CollKind kind = C_NONE;
  int root = -1;
  MPI_Op op = 0;
  MPI_Datatype type = 0;
  std::size_t bytes = 0; // reductions, bcast: size of the buffer
  std::vector<std::size_t> counts; // reduce_scatter
  int first = -1;
  int arrived = 0, left = 0;
  std::vector<Part> parts;
  void *pcs[60];
  int num_pcs = 0;
};

struct Req;
struct Msg {
  int src, dst, tag;
  const void *ptr = nullptr; // still in the sender's buffer
  std::vector<char> data;
  std::size_t bytes;
  bool captured = false, received = false;
  bool visible = true;
  int src_world;
};
struct Req {
  bool recv = false, done = false, used = false;
  std::shared_ptr<Msg> msg;
  void *buf = nullptr;
  std::size_t cap = 0;
  int src = 0, tag = 0;
  CommObj *comm = nullptr;
  int me = 0;
  bool may_complete_early = false;
};

struct CommObj {
  std::uint64_t id;
  std::vector<int> world;          // member -> world rank
  std::vector<std::uint64_t> seq;  // per member: number of collectives entered
  std::map<std::uint64_t, Coll> colls;
  std::vector<bool> freed;
  // per destination: messages in arrival order (per source non-overtaking)
  std::vector<std::deque<std::shared_ptr<Msg>>> unexpected;
  std::vector<std::deque<Req *>> posted;
};

struct Keyval {
  MPI_Comm_copy_attr_function *copy;
  MPI_Comm_delete_attr_function *del;
  void *extra;
};
struct RankState {
  std::vector<Keyval> keyvals;
  std::map<int, std::map<int, void *>> attrs; // communicator handle -> keyval -> value
  std::vector<CommObj *> handles;
  std::vector<int> free_handles;
  std::vector<Req *> reqs; // index + 1 = handle
  std::vector<int> free_reqs;
  char state[160] = "running";
  bool finalized = false;
  bool returned = false;
  int fiber = -1;
};

int g_world = 0;
RankState g_ranks[kMaxRanks];
std::vector<CommObj *> g_comms;
std::uint64_t g_blocked = 0;
std::deque<std::shared_ptr<Msg>> g_in_flight;

[[noreturn]] void bad(const std::string &cls, const std::string &msg) {
  fail(cls, fmt("rank %d: ", current_rank()) + msg);
}

RankState &me() {
  if (g_world == 0) {
    fail("simulator-error", "MPI is not configured");
  }
  return g_ranks[current_rank()];
}

void event() {
  for (std::uint64_t m = g_blocked; m != 0; m &= m - 1) {
    wake(__builtin_ctzll(m));
  }
  g_blocked = 0;
}

void wait_event() {
  g_blocked |= 1ull << current_fiber();
  block();
}

template <typename P> void wait_for(P &&pred) {
  while (!pred()) {
    wait_event();
  }
}

CommObj *new_comm(const std::vector<int> &world) {
  auto *c = new CommObj();
  c->id = g_comms.size();
  c->world = world;
  c->seq.resize(world.size());
  c->freed.resize(world.size());
  c->unexpected.resize(world.size());
  c->posted.resize(world.size());
  g_comms.push_back(c);
  return c;
}

int new_handle(RankState &r, CommObj *c) {
  if (!r.free_handles.empty()) { // handles of freed communicators are used again
    const int h = r.free_handles.back();
    r.free_handles.pop_back();
    r.handles[h] = c;
    return h;
  }
  r.handles.push_back(c);
  return static_cast<int>(r.handles.size()) - 1;
}

struct Here {
  CommObj *c;
  int rank;
  int size;
};

Here at(MPI_Comm comm, const char *fn) {
  RankState &r = me();
  if (comm <= 0 || comm >= static_cast<int>(r.handles.size()) || r.handles[comm] == nullptr) {
    bad("mpi-usage", fmt("%s on an invalid or freed communicator (handle %d)", fn, comm));
  }
  CommObj *c = r.handles[comm];
  const int w = current_rank();
  for (std::size_t i = 0; i < c->world.size(); ++i) {
    if (c->world[i] == w) {
      return {c, static_cast<int>(i), static_cast<int>(c->world.size())};
    }
  }
  bad("mpi-usage", fmt("%s on a communicator this rank is no member of", fn));
}

std::size_t tsize(MPI_Datatype t) {
  switch (t) {
  case SIM_T_CHAR: case SIM_T_BYTE: case SIM_T_I8: case SIM_T_U8: case SIM_T_BOOL: case SIM_T_CBOOL: return 1;
  case SIM_T_I16: case SIM_T_U16: return 2;
  case SIM_T_I32: case SIM_T_U32: case SIM_T_FLOAT: return 4;
  case SIM_T_I64: case SIM_T_U64: case SIM_T_DOUBLE: return 8;
  case SIM_T_LDOUBLE: return sizeof(long double);
  case SIM_T_FLOAT_INT: case SIM_T_2INT: return 8;
  case SIM_T_SHORT_INT: return 8;
  case SIM_T_DOUBLE_INT: case SIM_T_LONG_INT: return 16;
  case SIM_T_LDOUBLE_INT: return 32;
  default:
    if (t >= SIM_T_FIRST_DERIVED && t - SIM_T_FIRST_DERIVED < static_cast<int>(g_derived.size())) {
      return g_derived[t - SIM_T_FIRST_DERIVED].size;
    }
    bad("mpi-usage", fmt("invalid datatype %d", t));
  }
}

std::size_t tbytes(int count, MPI_Datatype t, const char *fn) {
  if (count < 0) {
    bad("mpi-usage", fmt("%s with a negative count %d", fn, count));
  }
  return count == 0 ? 0 : static_cast<std::size_t>(count) * tsize(t);
}

void check_buf(const void *p, std::size_t n, bool write, void *pc) {
  heap::check_range(p, n, write, pc);
}
#define PC __builtin_return_address(0)

void check_alias(const void *a, std::size_t na, const void *b, std::size_t nb, const char *fn) {
  const auto x = reinterpret_cast<std::uintptr_t>(a), y = reinterpret_cast<std::uintptr_t>(b);
  if (na > 0 && nb > 0 && x < y + nb && y < x + na) {
    bad("mpi-usage", fmt("%s with overlapping send and receive buffers", fn));
  }
}

// every call starts here
void enter(const char *fn) {
  if (!in_run()) {
    fprintf(stderr, "MPI outside of a run\n");
    abort();
  }
  if (fiber_slot(current_fiber()) != 0) {
    bad("mpi-thread", fmt("%s called by a worker thread (only the main thread may call MPI)", fn));
  }
  RankState &r = me();
  if (r.finalized) {
    bad("mpi-usage", fmt("%s after MPI_Finalize", fn));
  }
  advance_ns(1000);
  count("mpi.calls");
  if (faults.stall_rank > 0 && chance(K_FAULT, faults.stall_rank)) {
    count("fault:rank_stall");
    const std::uint64_t n = 1 + choose(K_FAULT, 200);
    advance_ns(n * 1000000);
    for (std::uint64_t i = 0; i < n; ++i) {
      yield();
    }
  } else if (chance(K_NET, 0.25)) {
    yield();
  }
}
void leave() {
  snprintf(me().state, sizeof(me().state), "running");
  if (chance(K_NET, 0.25)) {
    yield();
  }
}

// ---- collectives ---------------------------------------------------------------------------------
struct Entered {
  Coll &coll;
  Part &part;
};

const bool g_backtrace = getenv("SIM_BACKTRACE") != nullptr;
Entered join(
    const Here &h, CollKind kind, int root, MPI_Op op, MPI_Datatype type, std::size_t bytes, bool compare_bytes
) {
  const std::uint64_t n = h.c->seq[h.rank]++;
  Coll &c = h.c->colls[n];
  auto where = [&] {
    return fmt("collective %llu on communicator %llu of size %d", (unsigned long long)n,
               (unsigned long long)h.c->id, h.size);
  };
  if (c.first < 0) {
    c.first = h.rank;
    c.kind = kind;
    c.root = root;
    c.op = op;
    c.type = type;
    c.bytes = bytes;
    c.parts.resize(h.size);
    if (g_backtrace) c.num_pcs = backtrace(c.pcs, 60);
  } else {
    const int fw = h.c->world[c.first];
    const auto bad = [&](const char *cls, const std::string &msg) {
      if (g_backtrace) {
        fprintf(stderr, "BT --- first caller\n");
        print_pcs(c.pcs, c.num_pcs);
        fprintf(stderr, "BT --- this caller\n");
      }
      ::bad(cls, msg);
    };
    if (c.kind != kind) {
      bad("mpi-mismatch", where() + fmt(": this rank calls %s, rank %d calls %s", kind_name[kind], fw, kind_name[c.kind]));
    }
    if (c.root != root) {
      bad("mpi-mismatch", where() + fmt(": %s with root %d, rank %d uses root %d", kind_name[kind], root, fw, c.root));
    }
    if (c.op != op) {
      bad("mpi-mismatch", where() + fmt(": %s with operation %d, rank %d uses %d", kind_name[kind], op, fw, c.op));
    }
    if (compare_bytes && (c.bytes != bytes || (op != 0 && type != c.type && tsize(type) != tsize(c.type)))) {
      bad("mpi-mismatch", where() + fmt(": %s of %zu bytes, rank %d has %zu bytes", kind_name[kind], bytes, fw, c.bytes));
    }
  }
  if (root >= h.size || (root < 0 && root != -1)) {
    bad("mpi-usage", where() + fmt(": %s with root %d", kind_name[kind], root));
  }
  snprintf(me().state, sizeof(me().state), "in %s, %s", kind_name[kind], where().c_str());
  Part &p = c.parts[h.rank];
  p.in = true;
  ++c.arrived;
  count(kind == C_SPLIT ? "mpi.comm_split" : "mpi.collectives");
  return {c, p};
}

// waits for the ranks this one depends on, or for everybody
template <typename Dep> void await(const Here &h, Coll &c, Dep &&dep) {
  event();
  const bool early = chance(K_NET, 0.5);
  wait_for([&] {
    if (c.arrived == h.size) {
      return true;
    }
    if (!early) {
      return false;
    }
    for (int i = 0; i < h.size; ++i) {
      if (!c.parts[i].in && dep(i)) {
        return false;
      }
    }
    return true;
  });
  if (c.arrived < h.size) {
    count("fault:left-collective-early");
  }
}

void depart(const Here &h, Coll &c) {
  if (++c.left == h.size) {
    for (auto it = h.c->colls.begin(); it != h.c->colls.end(); ++it) {
      if (&it->second == &c) {
        h.c->colls.erase(it);
        break;
      }
    }
  }
  leave();
}

std::vector<char> grab(const void *p, std::size_t n) {
  std::vector<char> v(n);
  if (n > 0) {
    std::memcpy(v.data(), p, n);
  }
  return v;
}
void put(void *p, const char *src, std::size_t n) {
  if (n > 0) {
    std::memcpy(p, src, n);
  }
}

template <typename T> void red(MPI_Op op, T *a, const T *b, std::size_t n) { // a = a op b
  for (std::size_t i = 0; i < n; ++i) {
    T x, y;
    std::memcpy(&x, a + i, sizeof(T));
    std::memcpy(&y, b + i, sizeof(T));
    T r;
    switch (op) {
    case SIM_OP_SUM: r = static_cast<T>(x + y); break;
    case SIM_OP_PROD: r = static_cast<T>(x * y); break;
    case SIM_OP_MAX: r = x < y ? y : x; break;
    case SIM_OP_MIN: r = y < x ? y : x; break;
    case SIM_OP_LAND: r = static_cast<T>(x && y); break;
    case SIM_OP_LOR: r = static_cast<T>(x || y); break;
    case SIM_OP_LXOR: r = static_cast<T>(!x != !y); break;
    default:
      if constexpr (std::is_integral_v<T>) {
        if (op == SIM_OP_BAND) { r = static_cast<T>(x & y); break; }
        if (op == SIM_OP_BOR) { r = static_cast<T>(x | y); break; }
        if (op == SIM_OP_BXOR) { r = static_cast<T>(x ^ y); break; }
      }
      bad("mpi-usage", fmt("reduction operation %d is not defined for this datatype", op));
    }
    std::memcpy(a + i, &r, sizeof(T));
  }
}
template <typename T> struct Loc {
  T v;
  int i;
};
template <typename T> void red_loc(MPI_Op op, Loc<T> *a, const Loc<T> *b, std::size_t n) {
  for (std::size_t i = 0; i < n; ++i) {
    Loc<T> x, y;
    std::memcpy(&x, a + i, sizeof(x));
    std::memcpy(&y, b + i, sizeof(y));
    bool take;
    if (op == SIM_OP_MINLOC) {
      take = y.v < x.v || (y.v == x.v && y.i < x.i);
    } else if (op == SIM_OP_MAXLOC) {
      take = x.v < y.v || (y.v == x.v && y.i < x.i);
    } else {
      bad("mpi-usage", fmt("reduction operation %d is not defined for pairs", op));
    }
    if (take) {
      x.v = y.v;
      x.i = y.i;
    }
    std::memcpy(a + i, &x, sizeof(x));
  }
}

void reduce_into(MPI_Op op, MPI_Datatype t, std::vector<char> &a, const std::vector<char> &b) {
  char *x = a.data();
  const char *y = b.data();
  const std::size_t n = a.empty() ? 0 : a.size() / tsize(t);
  switch (t) {
#define CASE(id, T) case id: red<T>(op, reinterpret_cast<T *>(x), reinterpret_cast<const T *>(y), n); break;
    CASE(SIM_T_CHAR, signed char)
    CASE(SIM_T_BYTE, unsigned char)
    CASE(SIM_T_I8, std::int8_t)
    CASE(SIM_T_U8, std::uint8_t)
    CASE(SIM_T_I16, std::int16_t)
    CASE(SIM_T_U16, std::uint16_t)
    CASE(SIM_T_I32, std::int32_t)
    CASE(SIM_T_U32, std::uint32_t)
    CASE(SIM_T_I64, std::int64_t)
    CASE(SIM_T_U64, std::uint64_t)
    CASE(SIM_T_FLOAT, float)
    CASE(SIM_T_DOUBLE, double)
    CASE(SIM_T_LDOUBLE, long double)
    CASE(SIM_T_BOOL, bool)
    CASE(SIM_T_CBOOL, bool)
#undef CASE
#define CASE(id, T) case id: red_loc<T>(op, reinterpret_cast<Loc<T> *>(x), reinterpret_cast<const Loc<T> *>(y), n); break;
    CASE(SIM_T_FLOAT_INT, float)
    CASE(SIM_T_DOUBLE_INT, double)
    CASE(SIM_T_LONG_INT, long)
    CASE(SIM_T_LDOUBLE_INT, long double)
    CASE(SIM_T_2INT, int)
    CASE(SIM_T_SHORT_INT, short)
#undef CASE
  default:
    bad("mpi-usage", fmt("reduction of a derived datatype (%d)", t));
  }
}

std::vector<char> reduce_range(Coll &c, int from, int to) {
  std::vector<char> acc = c.parts[from].data;
  for (int i = from + 1; i <= to; ++i) {
    reduce_into(c.op, c.type, acc, c.parts[i].data);
  }
  return acc;
}

void need(bool ok, const char *what) {
  if (!ok) {
    bad("mpi-mismatch", what);
  }
}
} // namespace

namespace sim::mpi {
void init(int ranks) {
  g_world = ranks;
  std::vector<int> all;
  for (int i = 0; i < ranks; ++i) {
    all.push_back(i);
  }
  CommObj *world = new_comm(all);
  for (int i = 0; i < ranks; ++i) {
    RankState &r = g_ranks[i];
    r.handles.assign(kFirstHandle, nullptr);
    r.handles[MPI_COMM_WORLD] = world;
    r.handles[MPI_COMM_SELF] = new_comm({i});
  }
  g_idle_hook = [] {
    if (g_in_flight.empty()) {
      return false;
    }
    g_in_flight.front()->visible = true;
    g_in_flight.pop_front();
    if (g_blocked == 0) {
      return !g_in_flight.empty();
    }
    event();
    return true;
  };
  g_deadlock_info = [] {
    std::string s;
    for (int i = 0; i < g_world; ++i) {
      s += fmt("[rank %d: %s] ", i, g_ranks[i].state);
    }
    return s;
  };
}
int size() {
  return g_world;
}
void returned() {
  RankState &r = me();
  r.returned = true;
  snprintf(r.state, sizeof(r.state), "has returned");
}
// everything that was sent was received, every collective was entered by everybody
void check_quiescent() {
  for (CommObj *c : g_comms) {
    for (auto &[n, coll] : c->colls) {
      if (coll.arrived < static_cast<int>(c->world.size())) {
        std::string missing;
        for (std::size_t i = 0; i < c->world.size(); ++i) {
          if (!coll.parts[i].in) {
            missing += fmt(" %d", c->world[i]);
          }
        }
        fail("mpi-mismatch", fmt("%s (collective %llu on communicator %llu) was never entered by rank%s",
                                 kind_name[coll.kind], (unsigned long long)n, (unsigned long long)c->id,
                                 missing.c_str()));
      }
    }
    for (std::size_t d = 0; d < c->world.size(); ++d) {
      if (!c->unexpected[d].empty()) {
        const Msg &m = *c->unexpected[d].front();
        fail("mpi-unreceived", fmt("a message of %zu bytes from rank %d to rank %d (tag %d) was never received",
                                   m.bytes, c->world[m.src], c->world[d], m.tag));
      }
      if (!c->posted[d].empty()) {
        fail("mpi-unreceived", fmt("a receive posted by rank %d was never matched", c->world[d]));
      }
    }
  }
  for (int i = 0; i < g_world; ++i) {
    for (Req *q : g_ranks[i].reqs) {
      if (q != nullptr && q->used) {
        fail("mpi-unreceived", fmt("rank %d never waited for a non-blocking operation", i));
      }
    }
  }
}
void set_state(const char *s) {
  snprintf(me().state, sizeof(me().state), "%s", s);
}
// a barrier of the check itself (no MPI traffic)
void meet(int participants) {
  struct Meeting {
    int arrived = 0;
    std::uint64_t generation = 0;
  };
  static Meeting m;
  const std::uint64_t gen = m.generation;
  set_state("waiting for the other ranks between two phases of the check");
  if (++m.arrived == (participants > 0 ? participants : g_world)) {
    m.arrived = 0;
    ++m.generation;
    event();
  } else {
    wait_for([&] { return m.generation != gen; });
  }
  set_state("running");
}
} // namespace sim::mpi

extern "C" {
int MPI_Init(int *, char ***) { return MPI_SUCCESS; }
int MPI_Init_thread(int *, char ***, int, int *provided) {
  *provided = MPI_THREAD_FUNNELED;
  return MPI_SUCCESS;
}
int MPI_Initialized(int *flag) { *flag = 1; return MPI_SUCCESS; }
int MPI_Finalized(int *flag) { *flag = me().finalized; return MPI_SUCCESS; }
int MPI_Finalize() {
  enter("MPI_Finalize");
  me().finalized = true;
  return MPI_SUCCESS;
}
int MPI_Query_thread(int *p) { *p = MPI_THREAD_FUNNELED; return MPI_SUCCESS; }
int MPI_Is_thread_main(int *flag) { *flag = fiber_slot(current_fiber()) == 0; return MPI_SUCCESS; }
int MPI_Abort(MPI_Comm, int code) { bad("unexpected-exit", fmt("MPI_Abort(%d)", code)); }
double MPI_Wtime() { advance_ns(25); return now_ns() * 1e-9; }
int MPI_Get_processor_name(char *name, int *len) {
  *len = snprintf(name, MPI_MAX_PROCESSOR_NAME, "sim");
  return MPI_SUCCESS;
}
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return MPI_SUCCESS; }

int MPI_Comm_size(MPI_Comm comm, int *size) {
  *size = at(comm, "MPI_Comm_size").size;
  return MPI_SUCCESS;
}
int MPI_Comm_rank(MPI_Comm comm, int *rank) {
  *rank = at(comm, "MPI_Comm_rank").rank;
  return MPI_SUCCESS;
}
static int split(MPI_Comm comm, int color, int key, MPI_Comm *out, const char *fn) {
  enter(fn);
  const Here h = at(comm, fn);
  auto [c, p] = join(h, C_SPLIT, -1, 0, 0, 0, false);
  p.color = color;
  p.key = key;
  await(h, c, [](int) { return true; });
  if (color == MPI_UNDEFINED) {
    *out = MPI_COMM_NULL;
  } else {
    if (p.result == nullptr) {
      std::vector<std::pair<int, int>> order; // key, member
      for (int i = 0; i < h.size; ++i) {
        if (c.parts[i].color == color) {
          std::size_t j = order.size();
          order.push_back({c.parts[i].key, i});
          while (j > 0 && order[j - 1].first > order[j].first) { // stable insertion sort
            std::swap(order[j - 1], order[j]);
            --j;
          }
        }
      }
      std::vector<int> world;
      for (auto &[k, i] : order) {
        world.push_back(h.c->world[i]);
      }
      CommObj *n = new_comm(world);
      for (auto &[k, i] : order) {
        c.parts[i].result = n;
      }
    }
    *out = new_handle(me(), p.result);
  }
  depart(h, c);
  return MPI_SUCCESS;
}
int MPI_Comm_split(MPI_Comm comm, int color, int key, MPI_Comm *out) {
  return split(comm, color, key, out, "MPI_Comm_split");
}
int MPI_Comm_dup(MPI_Comm comm, MPI_Comm *out) {
  split(comm, 0, 0, out, "MPI_Comm_dup");
  const auto attrs = me().attrs[comm];
  for (const auto &[k, v] : attrs) {
    const Keyval kv = me().keyvals[k];
    void *value = nullptr;
    int flag = 0;
    if (kv.copy != nullptr && kv.copy(comm, k, kv.extra, v, &value, &flag) == MPI_SUCCESS && flag) {
      me().attrs[*out][k] = value;
    }
  }
  return MPI_SUCCESS;
}
int MPI_Comm_create_keyval(MPI_Comm_copy_attr_function *copy, MPI_Comm_delete_attr_function *del, int *keyval,
                           void *extra) {
  enter("MPI_Comm_create_keyval");
  me().keyvals.push_back({copy, del, extra});
  *keyval = static_cast<int>(me().keyvals.size()) - 1;
  return MPI_SUCCESS;
}
int MPI_Comm_free_keyval(int *keyval) { *keyval = MPI_KEYVAL_INVALID; return MPI_SUCCESS; }
int MPI_Comm_delete_attr(MPI_Comm comm, int keyval) {
  enter("MPI_Comm_delete_attr");
  at(comm, "MPI_Comm_delete_attr");
  auto &m = me().attrs[comm];
  auto it = m.find(keyval);
  if (it != m.end()) {
    void *v = it->second;
    m.erase(it);
    const Keyval kv = me().keyvals.at(keyval);
    if (kv.del != nullptr) {
      kv.del(comm, keyval, v, kv.extra);
    }
  }
  return MPI_SUCCESS;
}
int MPI_Comm_set_attr(MPI_Comm comm, int keyval, void *value) {
  enter("MPI_Comm_set_attr");
  at(comm, "MPI_Comm_set_attr");
  if (keyval < 0 || keyval >= static_cast<int>(me().keyvals.size())) {
    bad("mpi-usage", "MPI_Comm_set_attr: invalid keyval");
  }
  MPI_Comm_delete_attr(comm, keyval);
  me().attrs[comm][keyval] = value;
  return MPI_SUCCESS;
}
int MPI_Comm_get_attr(MPI_Comm comm, int keyval, void *value, int *flag) {
  enter("MPI_Comm_get_attr");
  at(comm, "MPI_Comm_get_attr");
  const auto &m = me().attrs[comm];
  const auto it = m.find(keyval);
  *flag = it != m.end();
  if (*flag) {
    *static_cast<void **>(value) = it->second;
  }
  return MPI_SUCCESS;
}
int MPI_Comm_free(MPI_Comm *comm) {
  enter("MPI_Comm_free");
  if (*comm == MPI_COMM_WORLD || *comm == MPI_COMM_SELF) {
    bad("mpi-usage", "MPI_Comm_free of a predefined communicator");
  }
  at(*comm, "MPI_Comm_free");
  while (!me().attrs[*comm].empty()) {
    MPI_Comm_delete_attr(*comm, me().attrs[*comm].begin()->first);
  }
  const Here h = at(*comm, "MPI_Comm_free");
  h.c->freed[h.rank] = true;
  me().handles[*comm] = nullptr;
  me().free_handles.push_back(*comm);
  *comm = MPI_COMM_NULL;
  count("mpi.comm_free");
  return MPI_SUCCESS;
}

int MPI_Type_contiguous(int n, MPI_Datatype old, MPI_Datatype *out) {
  g_derived.push_back({n * tsize(old), old});
  *out = SIM_T_FIRST_DERIVED + static_cast<int>(g_derived.size()) - 1;
  return MPI_SUCCESS;
}
int MPI_Type_commit(MPI_Datatype *) { return MPI_SUCCESS; }
int MPI_Type_free(MPI_Datatype *t) { *t = MPI_DATATYPE_NULL; return MPI_SUCCESS; }
int MPI_Type_size(MPI_Datatype t, int *size) { *size = static_cast<int>(tsize(t)); return MPI_SUCCESS; }

int MPI_Barrier(MPI_Comm comm) {
  enter("MPI_Barrier");
  const Here h = at(comm, "MPI_Barrier");
  auto [c, p] = join(h, C_BARRIER, -1, 0, 0, 0, true);
  await(h, c, [](int) { return true; });
  depart(h, c);
  return MPI_SUCCESS;
}
int MPI_Bcast(void *buf, int cnt, MPI_Datatype type, int root, MPI_Comm comm) {
  enter("MPI_Bcast");
  const Here h = at(comm, "MPI_Bcast");
  const std::size_t n = tbytes(cnt, type, "MPI_Bcast");
  check_buf(buf, n, h.rank != root, PC);
  auto [c, p] = join(h, C_BCAST, root, 0, type, n, true);
  if (h.rank == root) {
    p.data = grab(buf, n);
  }
  await(h, c, [&](int i) { return i == root && h.rank != root; });
  if (h.rank != root) {
    put(buf, c.parts[root].data.data(), n);
  }
  depart(h, c);
  return MPI_SUCCESS;
}
static int do_reduce(
    CollKind kind, const void *sb, void *rb, int cnt, MPI_Datatype type, MPI_Op op, int root, MPI_Comm comm,
    const char *fn, void *pc
) {
  enter(fn);
  const Here h = at(comm, fn);
  const std::size_t n = tbytes(cnt, type, fn);
  const bool gets = kind == C_REDUCE ? h.rank == root : true;
  if (sb == MPI_IN_PLACE) {
    if (!gets) {
      bad("mpi-usage", fmt("%s with MPI_IN_PLACE on a rank that is not the root", fn));
    }
    sb = rb;
  } else if (gets) {
    check_alias(sb, n, rb, n, fn);
  }
  check_buf(sb, n, false, pc);
  if (gets && !(kind == C_EXSCAN && h.rank == 0)) {
    check_buf(rb, n, true, pc);
  }
  auto [c, p] = join(h, kind, root, op, type, n, true);
  p.data = grab(sb, n);
  await(h, c, [&](int i) {
    switch (kind) {
    case C_REDUCE: return h.rank == root;
    case C_SCAN: return i <= h.rank;
    case C_EXSCAN: return i < h.rank;
    default: return true;
    }
  });
  if (n > 0) {
    if (kind == C_ALLREDUCE || (kind == C_REDUCE && h.rank == root)) {
      put(rb, reduce_range(c, 0, h.size - 1).data(), n);
    } else if (kind == C_SCAN) {
      put(rb, reduce_range(c, 0, h.rank).data(), n);
    } else if (kind == C_EXSCAN && h.rank > 0) {
      put(rb, reduce_range(c, 0, h.rank - 1).data(), n);
    }
  }
  depart(h, c);
  return MPI_SUCCESS;
}
int MPI_Reduce(const void *sb, void *rb, int cnt, MPI_Datatype type, MPI_Op op, int root, MPI_Comm comm) {
  return do_reduce(C_REDUCE, sb, rb, cnt, type, op, root, comm, "MPI_Reduce", PC);
}
int MPI_Allreduce(const void *sb, void *rb, int cnt, MPI_Datatype type, MPI_Op op, MPI_Comm comm) {
  return do_reduce(C_ALLREDUCE, sb, rb, cnt, type, op, -1, comm, "MPI_Allreduce", PC);
}
int MPI_Scan(const void *sb, void *rb, int cnt, MPI_Datatype type, MPI_Op op, MPI_Comm comm) {
  return do_reduce(C_SCAN, sb, rb, cnt, type, op, -1, comm, "MPI_Scan", PC);
}
int MPI_Exscan(const void *sb, void *rb, int cnt, MPI_Datatype type, MPI_Op op, MPI_Comm comm) {
  return do_reduce(C_EXSCAN, sb, rb, cnt, type, op, -1, comm, "MPI_Exscan", PC);
}
int MPI_Reduce_scatter(const void *sb, void *rb, const int counts[], MPI_Datatype type, MPI_Op op, MPI_Comm comm) {
  enter("MPI_Reduce_scatter");
  const Here h = at(comm, "MPI_Reduce_scatter");
  std::size_t n = 0, off = 0;
  for (int i = 0; i < h.size; ++i) {
    if (i == h.rank) {
      off = n;
    }
    n += tbytes(counts[i], type, "MPI_Reduce_scatter");
  }
  const std::size_t mine = tbytes(counts[h.rank], type, "");
  if (sb == MPI_IN_PLACE) {
    sb = rb;
    check_buf(rb, n, true, PC);
  } else {
    check_buf(sb, n, false, PC);
    check_buf(rb, mine, true, PC);
    check_alias(sb, n, rb, mine, "MPI_Reduce_scatter");
  }
  auto [c, p] = join(h, C_REDUCE_SCATTER, -1, op, type, n, true);
  std::vector<std::size_t> cs(counts, counts + h.size);
  if (c.counts.empty()) {
    c.counts = cs;
  }
  need(c.counts == cs, "MPI_Reduce_scatter with different counts on different ranks");
  p.data = grab(sb, n);
  await(h, c, [](int) { return true; });
  if (n > 0) {
    put(rb, reduce_range(c, 0, h.size - 1).data() + off, mine);
  }
  depart(h, c);
  return MPI_SUCCESS;
}
int MPI_Reduce_scatter_block(const void *sb, void *rb, int cnt, MPI_Datatype type, MPI_Op op, MPI_Comm comm) {
  std::vector<int> counts(at(comm, "MPI_Reduce_scatter_block").size, cnt);
  return MPI_Reduce_scatter(sb, rb, counts.data(), type, op, comm);
}

static int do_gather(
    const void *sb, int sc, MPI_Datatype st, void *rb, const int *rcs, int rc, const int *rds, MPI_Datatype rt, int root,
    MPI_Comm comm, const char *fn, void *pc
) {
  enter(fn);
  const Here h = at(comm, fn);
  const bool gets = h.rank == root;
  auto rbytes = [&](int i) { return tbytes(rcs != nullptr ? rcs[i] : rc, rt, fn); };
  auto roff = [&](int i) -> std::ptrdiff_t {
    return rcs != nullptr ? static_cast<std::ptrdiff_t>(rds[i]) * static_cast<std::ptrdiff_t>(tsize(rt))
                          : static_cast<std::ptrdiff_t>(i) * static_cast<std::ptrdiff_t>(rbytes(i));
  };
  std::size_t n;
  if (sb == MPI_IN_PLACE) {
    if (!gets) {
      bad("mpi-usage", fmt("%s with MPI_IN_PLACE on a rank that is not the root", fn));
    }
    sb = static_cast<char *>(rb) + roff(h.rank);
    n = rbytes(h.rank);
  } else {
    n = tbytes(sc, st, fn);
  }
  check_buf(sb, n, false, pc);
  auto [c, p] = join(h, C_GATHER, root, 0, 0, 0, false);
  p.data = grab(sb, n);
  await(h, c, [&](int) { return gets; });
  if (gets) {
    for (int i = 0; i < h.size; ++i) {
      const std::size_t want = rbytes(i);
      need(c.parts[i].data.size() == want, fmt("%s: rank %d sends %zu bytes, the root expects %zu", fn,
                                              h.c->world[i], c.parts[i].data.size(), want).c_str());
      char *dst = static_cast<char *>(rb) + (want > 0 ? roff(i) : 0);
      check_buf(dst, want, true, pc);
      put(dst, c.parts[i].data.data(), want);
    }
  }
  depart(h, c);
  return MPI_SUCCESS;
}
int MPI_Gather(const void *sb, int sc, MPI_Datatype st, void *rb, int rc, MPI_Datatype rt, int root, MPI_Comm comm) {
  return do_gather(sb, sc, st, rb, nullptr, rc, nullptr, rt, root, comm, "MPI_Gather", PC);
}
int MPI_Gatherv(const void *sb, int sc, MPI_Datatype st, void *rb, const int rc[], const int rd[], MPI_Datatype rt,
                int root, MPI_Comm comm) {
  return do_gather(sb, sc, st, rb, rc, 0, rd, rt, root, comm, "MPI_Gatherv", PC);
}

static int do_scatter(
    const void *sb, const int *scs, int sc, const int *sds, MPI_Datatype st, void *rb, int rc, MPI_Datatype rt, int root,
    MPI_Comm comm, const char *fn, void *pc
) {
  enter(fn);
  const Here h = at(comm, fn);
  const bool gives = h.rank == root;
  auto [c, p] = join(h, C_SCATTER, root, 0, 0, 0, false);
  if (gives) {
    for (int i = 0; i < h.size; ++i) {
      const std::size_t n = tbytes(scs != nullptr ? scs[i] : sc, st, fn);
      const std::ptrdiff_t off = n == 0 ? 0
                                 : scs != nullptr ? static_cast<std::ptrdiff_t>(sds[i]) * static_cast<std::ptrdiff_t>(tsize(st))
                                                  : static_cast<std::ptrdiff_t>(i * n);
      const char *src = static_cast<const char *>(sb) + off;
      check_buf(src, n, false, pc);
      p.counts.push_back(n);
      p.data.insert(p.data.end(), src, src + n);
    }
  }
  await(h, c, [&](int i) { return i == root; });
  if (rb != MPI_IN_PLACE) {
    const std::size_t want = tbytes(rc, rt, fn);
    const Part &r = c.parts[root];
    std::size_t off = 0;
    for (int i = 0; i < h.rank; ++i) {
      off += r.counts[i];
    }
    need(r.counts[h.rank] == want, fmt("%s: the root sends %zu bytes to rank %d, which expects %zu", fn,
                                       r.counts[h.rank], current_rank(), want).c_str());
    check_buf(rb, want, true, pc);
    put(rb, r.data.data() + off, want);
  }
  depart(h, c);
  return MPI_SUCCESS;
}
int MPI_Scatter(const void *sb, int sc, MPI_Datatype st, void *rb, int rc, MPI_Datatype rt, int root, MPI_Comm comm) {
  return do_scatter(sb, nullptr, sc, nullptr, st, rb, rc, rt, root, comm, "MPI_Scatter", PC);
}
int MPI_Scatterv(const void *sb, const int sc[], const int sd[], MPI_Datatype st, void *rb, int rc, MPI_Datatype rt,
                 int root, MPI_Comm comm) {
  return do_scatter(sb, sc, 0, sd, st, rb, rc, rt, root, comm, "MPI_Scatterv", PC);
}

static int do_allgather(
    const void *sb, int sc, MPI_Datatype st, void *rb, const int *rcs, int rc, const int *rds, MPI_Datatype rt,
    MPI_Comm comm, const char *fn, void *pc
) {
  enter(fn);
  const Here h = at(comm, fn);
  auto rbytes = [&](int i) { return tbytes(rcs != nullptr ? rcs[i] : rc, rt, fn); };
  auto roff = [&](int i) -> std::ptrdiff_t {
    return rbytes(i) == 0  ? 0
           : rcs != nullptr ? static_cast<std::ptrdiff_t>(rds[i]) * static_cast<std::ptrdiff_t>(tsize(rt))
                            : static_cast<std::ptrdiff_t>(i) * static_cast<std::ptrdiff_t>(rbytes(i));
  };
  const bool in_place = sb == MPI_IN_PLACE;
  const std::size_t n = in_place ? rbytes(h.rank) : tbytes(sc, st, fn);
  if (in_place) {
    sb = static_cast<char *>(rb) + roff(h.rank);
  }
  check_buf(sb, n, false, pc);
  for (int i = 0; i < h.size; ++i) {
    check_buf(static_cast<char *>(rb) + roff(i), rbytes(i), true, pc);
    if (!in_place) {
      check_alias(sb, n, static_cast<char *>(rb) + roff(i), rbytes(i), fn);
    }
  }
  auto [c, p] = join(h, C_ALLGATHER, -1, 0, 0, 0, false);
  p.data = grab(sb, n);
  await(h, c, [](int) { return true; });
  for (int i = 0; i < h.size; ++i) {
    need(c.parts[i].data.size() == rbytes(i), fmt("%s: rank %d sends %zu bytes, rank %d expects %zu", fn, h.c->world[i],
                                                  c.parts[i].data.size(), current_rank(), rbytes(i)).c_str());
    put(static_cast<char *>(rb) + roff(i), c.parts[i].data.data(), rbytes(i));
  }
  depart(h, c);
  return MPI_SUCCESS;
}
int MPI_Allgather(const void *sb, int sc, MPI_Datatype st, void *rb, int rc, MPI_Datatype rt, MPI_Comm comm) {
  return do_allgather(sb, sc, st, rb, nullptr, rc, nullptr, rt, comm, "MPI_Allgather", PC);
}
int MPI_Allgatherv(const void *sb, int sc, MPI_Datatype st, void *rb, const int rc[], const int rd[], MPI_Datatype rt,
                   MPI_Comm comm) {
  return do_allgather(sb, sc, st, rb, rc, 0, rd, rt, comm, "MPI_Allgatherv", PC);
}

static int do_alltoall(
    const void *sb, const int *scs, int sc, const int *sds, MPI_Datatype st, void *rb, const int *rcs, int rc,
    const int *rds, MPI_Datatype rt, MPI_Comm comm, const char *fn, void *pc
) {
  enter(fn);
  const Here h = at(comm, fn);
  auto off = [&](const int *cs, const int *ds, int cnt, MPI_Datatype t, int i) -> std::ptrdiff_t {
    const std::size_t n = tbytes(cs != nullptr ? cs[i] : cnt, t, fn);
    return n == 0 ? 0
           : cs != nullptr ? static_cast<std::ptrdiff_t>(ds[i]) * static_cast<std::ptrdiff_t>(tsize(t))
                           : static_cast<std::ptrdiff_t>(i) * static_cast<std::ptrdiff_t>(n);
  };
  auto rbytes = [&](int i) { return tbytes(rcs != nullptr ? rcs[i] : rc, rt, fn); };
  const bool in_place = sb == MPI_IN_PLACE;
  auto [c, p] = join(h, C_ALLTOALL, -1, 0, 0, 0, false);
  for (int i = 0; i < h.size; ++i) {
    const std::size_t n = in_place ? rbytes(i) : tbytes(scs != nullptr ? scs[i] : sc, st, fn);
    const char *src = in_place ? static_cast<char *>(rb) + off(rcs, rds, rc, rt, i)
                               : static_cast<const char *>(sb) + off(scs, sds, sc, st, i);
    check_buf(src, n, false, pc);
    p.counts.push_back(n);
    p.data.insert(p.data.end(), src, src + n);
    p.wants.push_back(rbytes(i));
    check_buf(static_cast<char *>(rb) + off(rcs, rds, rc, rt, i), rbytes(i), true, pc);
  }
  for (int i = 0; i < h.size; ++i) {
    const Part &q = c.parts[i];
    need(!q.in || (q.wants[h.rank] == p.counts[i] && q.counts[h.rank] == p.wants[i]),
         fmt("%s: rank %d sends %zu bytes to rank %d, which expects %zu; it expects %zu bytes back and gets %zu", fn,
             current_rank(), p.counts[i], h.c->world[i], q.in ? q.wants[h.rank] : 0, p.wants[i],
             q.in ? q.counts[h.rank] : 0).c_str());
  }
  await(h, c, [&](int i) { return rbytes(i) > 0; });
  for (int i = 0; i < h.size; ++i) {
    const std::size_t want = rbytes(i);
    Part &q = c.parts[i];
    if (!q.in) {
      continue; // nothing to come from there (checked by the sender's side later)
    }
    need(q.counts[h.rank] == want, fmt("%s: rank %d sends %zu bytes to rank %d, which expects %zu", fn, h.c->world[i],
                                       q.counts[h.rank], current_rank(), want).c_str());
    std::size_t o = 0;
    for (int j = 0; j < h.rank; ++j) {
      o += q.counts[j];
    }
    put(static_cast<char *>(rb) + off(rcs, rds, rc, rt, i), q.data.data() + o, want);
  }
  depart(h, c);
  return MPI_SUCCESS;
}
int MPI_Alltoall(const void *sb, int sc, MPI_Datatype st, void *rb, int rc, MPI_Datatype rt, MPI_Comm comm) {
  return do_alltoall(sb, nullptr, sc, nullptr, st, rb, nullptr, rc, nullptr, rt, comm, "MPI_Alltoall", PC);
}
int MPI_Alltoallv(const void *sb, const int sc[], const int sd[], MPI_Datatype st, void *rb, const int rc[],
                  const int rd[], MPI_Datatype rt, MPI_Comm comm) {
  return do_alltoall(sb, sc, 0, sd, st, rb, rc, 0, rd, rt, comm, "MPI_Alltoallv", PC);
}

// ---- point to point ------------------------------------------------------------------------------
} // extern "C"

namespace {
int add_req(Req *q) {
  RankState &r = me();
  q->used = true;
  if (!r.free_reqs.empty()) {
    const int i = r.free_reqs.back();
    r.free_reqs.pop_back();
    r.reqs[i] = q;
    return i + 1;
  }
  r.reqs.push_back(q);
  return static_cast<int>(r.reqs.size());
}
void drop_req(MPI_Request *h) {
  RankState &r = me();
  Req *q = r.reqs[*h - 1];
  r.reqs[*h - 1] = nullptr;
  r.free_reqs.push_back(*h - 1);
  delete q;
  *h = MPI_REQUEST_NULL;
}
Req *get_req(MPI_Request h, const char *fn) {
  RankState &r = me();
  if (h < 1 || h > static_cast<int>(r.reqs.size()) || r.reqs[h - 1] == nullptr) {
    bad("mpi-usage", fmt("%s on an invalid request", fn));
  }
  return r.reqs[h - 1];
}

bool matches(const Msg &m, int src, int tag) {
  return (src == MPI_ANY_SOURCE || src == m.src) && (tag == MPI_ANY_TAG || tag == m.tag);
}
void capture(Msg &m, void *pc) {
  if (!m.captured) {
    check_buf(m.ptr, m.bytes, false, pc);
    m.data = grab(m.ptr, m.bytes);
    m.captured = true;
  }
}
void show(const std::shared_ptr<Msg> &m) { // becomes visible: everything before it on this channel, too
  m->visible = true;
}
bool blocked_by_earlier(const std::deque<std::shared_ptr<Msg>> &q, std::size_t i) {
  for (std::size_t j = 0; j < i; ++j) {
    if (q[j]->src == q[i]->src && !q[j]->visible) {
      return true;
    }
  }
  return false;
}
// the message a receive would get now
int find(CommObj *c, int dst, int src, int tag) {
  auto &q = c->unexpected[dst];
  std::vector<int> cand;
  std::uint64_t seen = 0;
  for (std::size_t i = 0; i < q.size(); ++i) {
    const std::uint64_t bit = 1ull << q[i]->src;
    if (!q[i]->visible || blocked_by_earlier(q, i)) {
      continue;
    }
    if (matches(*q[i], src, tag) && (seen & bit) == 0) {
      seen |= bit;
      cand.push_back(static_cast<int>(i));
    }
  }
  if (cand.empty()) {
    return -1;
  }
  return cand.size() == 1 ? cand[0] : cand[choose(K_NET, cand.size())];
}
void deliver_some() {
  if (!g_in_flight.empty() && chance(K_NET, 0.3)) {
    const std::size_t i = choose(K_NET, g_in_flight.size());
    show(g_in_flight[i]);
    g_in_flight.erase(g_in_flight.begin() + static_cast<std::ptrdiff_t>(i));
    event();
  }
}

// Receives are matched in the order in which they were posted, while their rank is inside of MPI.
void progress(CommObj *c, int rank) {
  auto &posted = c->posted[rank];
  for (std::size_t i = 0; i < posted.size();) {
    Req *q = posted[i];
    bool earlier = false;
    for (std::size_t j = 0; j < i; ++j) {
      const Req *o = posted[j];
      earlier |= (o->src == q->src || o->src == MPI_ANY_SOURCE || q->src == MPI_ANY_SOURCE) &&
                 (o->tag == q->tag || o->tag == MPI_ANY_TAG || q->tag == MPI_ANY_TAG);
    }
    const int k = earlier ? -1 : find(c, rank, q->src, q->tag);
    if (k < 0) {
      ++i;
      continue;
    }
    auto m = c->unexpected[rank][k];
    c->unexpected[rank].erase(c->unexpected[rank].begin() + k);
    for (std::size_t f = 0; f < g_in_flight.size(); ++f) {
      if (g_in_flight[f] == m) {
        g_in_flight.erase(g_in_flight.begin() + static_cast<std::ptrdiff_t>(f));
        break;
      }
    }
    if (m->bytes > q->cap) {
      bad("mpi-usage", fmt("message of %zu bytes from rank %d (tag %d) is truncated: the receive buffer has %zu bytes",
                           m->bytes, c->world[m->src], m->tag, q->cap));
    }
    capture(*m, nullptr);
    check_buf(q->buf, m->bytes, true, nullptr);
    put(q->buf, m->data.data(), m->bytes);
    m->received = true;
    q->msg = m;
    q->done = true;
    posted.erase(posted.begin() + static_cast<std::ptrdiff_t>(i));
    event();
  }
}

void set_status(MPI_Status *st, const Msg *m) {
  if (st != nullptr) {
    st->MPI_SOURCE = m != nullptr ? m->src : MPI_ANY_SOURCE;
    st->MPI_TAG = m != nullptr ? m->tag : MPI_ANY_TAG;
    st->MPI_ERROR = MPI_SUCCESS;
    st->sim_bytes = m != nullptr ? m->bytes : 0;
  }
}

MPI_Request start_send(const void *buf, int cnt, MPI_Datatype type, int dest, int tag, MPI_Comm comm, bool sync,
                       const char *fn, void *pc) {
  const Here h = at(comm, fn);
  const std::size_t n = tbytes(cnt, type, fn);
  check_buf(buf, n, false, pc);
  if (tag < 0) {
    bad("mpi-usage", fmt("%s with tag %d", fn, tag));
  }
  auto *q = new Req();
  q->comm = h.c;
  q->me = h.rank;
  if (dest == MPI_PROC_NULL) {
    q->done = true;
    return add_req(q);
  }
  if (dest < 0 || dest >= h.size) {
    bad("mpi-usage", fmt("%s to rank %d of %d", fn, dest, h.size));
  }
  auto m = std::make_shared<Msg>();
  m->src = h.rank;
  m->dst = dest;
  m->tag = tag;
  m->ptr = buf;
  m->bytes = n;
  m->src_world = current_rank();
  q->msg = m;
  q->may_complete_early = !sync && chance(K_NET, 0.5);
  if (q->may_complete_early && chance(K_NET, 0.5)) {
    capture(*m, pc);
  }
  h.c->unexpected[dest].push_back(m);
  if (chance(K_NET, 0.3)) {
    m->visible = false;
    g_in_flight.push_back(m);
    count("fault:message-delayed");
  }
  count("mpi.messages");
  event();
  return add_req(q);
}

MPI_Request start_recv(void *buf, int cnt, MPI_Datatype type, int src, int tag, MPI_Comm comm, const char *fn, void *pc) {
  const Here h = at(comm, fn);
  auto *q = new Req();
  q->recv = true;
  q->comm = h.c;
  q->me = h.rank;
  q->buf = buf;
  q->cap = tbytes(cnt, type, fn);
  q->src = src;
  q->tag = tag;
  if (src == MPI_PROC_NULL) {
    q->done = true;
    return add_req(q);
  }
  if (src != MPI_ANY_SOURCE && (src < 0 || src >= h.size)) {
    bad("mpi-usage", fmt("%s from rank %d of %d", fn, src, h.size));
  }
  check_buf(buf, q->cap, true, pc);
  h.c->posted[h.rank].push_back(q);
  return add_req(q);
}

bool complete(Req *q) {
  if (q->done) {
    return true;
  }
  if (q->recv) {
    progress(q->comm, q->me);
    return q->done;
  }
  if (q->msg->received) {
    return q->done = true;
  }
  if (q->may_complete_early) {
    capture(*q->msg, nullptr);
    return q->done = true;
  }
  return false;
}

// all receives of this rank make progress while it waits
void progress_all() {
  for (CommObj *c : g_comms) {
    for (std::size_t i = 0; i < c->world.size(); ++i) {
      if (c->world[i] == current_rank() && !c->posted[i].empty()) {
        progress(c, static_cast<int>(i));
      }
    }
  }
}

void finish_req(MPI_Request *h, MPI_Status *st) {
  Req *q = get_req(*h, "MPI_Wait");
  wait_for([&] {
    progress_all();
    return complete(q);
  });
  set_status(st, q->msg.get());
  drop_req(h);
}
} // namespace

extern "C" {
int MPI_Isend(const void *buf, int cnt, MPI_Datatype type, int dest, int tag, MPI_Comm comm, MPI_Request *req) {
  enter("MPI_Isend");
  *req = start_send(buf, cnt, type, dest, tag, comm, false, "MPI_Isend", PC);
  leave();
  return MPI_SUCCESS;
}
int MPI_Issend(const void *buf, int cnt, MPI_Datatype type, int dest, int tag, MPI_Comm comm, MPI_Request *req) {
  enter("MPI_Issend");
  *req = start_send(buf, cnt, type, dest, tag, comm, true, "MPI_Issend", PC);
  leave();
  return MPI_SUCCESS;
}
static int send_blocking(const void *buf, int cnt, MPI_Datatype type, int dest, int tag, MPI_Comm comm, bool sync,
                         const char *fn, void *pc) {
  enter(fn);
  MPI_Request r = start_send(buf, cnt, type, dest, tag, comm, sync, fn, pc);
  snprintf(me().state, sizeof(me().state), "in %s to %d (tag %d)", fn, dest, tag);
  finish_req(&r, nullptr);
  leave();
  return MPI_SUCCESS;
}
int MPI_Send(const void *buf, int cnt, MPI_Datatype type, int dest, int tag, MPI_Comm comm) {
  return send_blocking(buf, cnt, type, dest, tag, comm, false, "MPI_Send", PC);
}
int MPI_Ssend(const void *buf, int cnt, MPI_Datatype type, int dest, int tag, MPI_Comm comm) {
  return send_blocking(buf, cnt, type, dest, tag, comm, true, "MPI_Ssend", PC);
}
int MPI_Irecv(void *buf, int cnt, MPI_Datatype type, int src, int tag, MPI_Comm comm, MPI_Request *req) {
  enter("MPI_Irecv");
  *req = start_recv(buf, cnt, type, src, tag, comm, "MPI_Irecv", PC);
  leave();
  return MPI_SUCCESS;
}
int MPI_Recv(void *buf, int cnt, MPI_Datatype type, int src, int tag, MPI_Comm comm, MPI_Status *st) {
  enter("MPI_Recv");
  MPI_Request r = start_recv(buf, cnt, type, src, tag, comm, "MPI_Recv", PC);
  snprintf(me().state, sizeof(me().state), "in MPI_Recv from %d (tag %d)", src, tag);
  finish_req(&r, st);
  leave();
  return MPI_SUCCESS;
}
int MPI_Sendrecv(const void *sb, int sc, MPI_Datatype stt, int dest, int stag, void *rb, int rc, MPI_Datatype rt, int src,
                 int rtag, MPI_Comm comm, MPI_Status *status) {
  enter("MPI_Sendrecv");
  MPI_Request r[2];
  r[0] = start_recv(rb, rc, rt, src, rtag, comm, "MPI_Sendrecv", PC);
  r[1] = start_send(sb, sc, stt, dest, stag, comm, false, "MPI_Sendrecv", PC);
  snprintf(me().state, sizeof(me().state), "in MPI_Sendrecv");
  finish_req(&r[0], status);
  finish_req(&r[1], nullptr);
  leave();
  return MPI_SUCCESS;
}
int MPI_Probe(int src, int tag, MPI_Comm comm, MPI_Status *st) {
  enter("MPI_Probe");
  const Here h = at(comm, "MPI_Probe");
  if (src != MPI_ANY_SOURCE && (src < 0 || src >= h.size)) {
    bad("mpi-usage", fmt("MPI_Probe of rank %d of %d", src, h.size));
  }
  snprintf(me().state, sizeof(me().state), "in MPI_Probe for rank %d (tag %d)", src, tag);
  int k = -1;
  wait_for([&] {
    progress_all();
    k = find(h.c, h.rank, src, tag);
    return k >= 0;
  });
  set_status(st, h.c->unexpected[h.rank][k].get());
  leave();
  return MPI_SUCCESS;
}
int MPI_Iprobe(int src, int tag, MPI_Comm comm, int *flag, MPI_Status *st) {
  enter("MPI_Iprobe");
  const Here h = at(comm, "MPI_Iprobe");
  deliver_some();
  progress_all();
  const int k = find(h.c, h.rank, src, tag);
  *flag = k >= 0;
  if (k >= 0) {
    set_status(st, h.c->unexpected[h.rank][k].get());
  } else {
    yield();
  }
  leave();
  return MPI_SUCCESS;
}
int MPI_Get_count(const MPI_Status *st, MPI_Datatype type, int *cnt) {
  const std::size_t s = tsize(type);
  *cnt = st->sim_bytes % s != 0 ? MPI_UNDEFINED : static_cast<int>(st->sim_bytes / s);
  return MPI_SUCCESS;
}
int MPI_Wait(MPI_Request *req, MPI_Status *st) {
  enter("MPI_Wait");
  snprintf(me().state, sizeof(me().state), "in MPI_Wait");
  if (*req != MPI_REQUEST_NULL) {
    finish_req(req, st);
  }
  leave();
  return MPI_SUCCESS;
}
int MPI_Waitall(int n, MPI_Request *reqs, MPI_Status *sts) {
  enter("MPI_Waitall");
  if (n > 0) {
    check_buf(reqs, n * sizeof(MPI_Request), true, PC);
  }
  snprintf(me().state, sizeof(me().state), "in MPI_Waitall");
  for (int i = 0; i < n; ++i) {
    if (reqs[i] != MPI_REQUEST_NULL) {
      finish_req(&reqs[i], sts != nullptr ? &sts[i] : nullptr);
    }
  }
  leave();
  return MPI_SUCCESS;
}
int MPI_Test(MPI_Request *req, int *flag, MPI_Status *st) {
  enter("MPI_Test");
  deliver_some();
  *flag = 1;
  if (*req != MPI_REQUEST_NULL) {
    progress_all();
    Req *q = get_req(*req, "MPI_Test");
    *flag = complete(q);
    if (*flag) {
      set_status(st, q->msg.get());
      drop_req(req);
    } else {
      yield();
    }
  }
  leave();
  return MPI_SUCCESS;
}
int MPI_Testall(int n, MPI_Request *reqs, int *flag, MPI_Status *sts) {
  enter("MPI_Testall");
  deliver_some();
  progress_all();
  *flag = 1;
  for (int i = 0; i < n; ++i) {
    if (reqs[i] != MPI_REQUEST_NULL && !complete(get_req(reqs[i], "MPI_Testall"))) {
      *flag = 0;
    }
  }
  if (*flag) {
    for (int i = 0; i < n; ++i) {
      if (reqs[i] != MPI_REQUEST_NULL) {
        set_status(sts != nullptr ? &sts[i] : nullptr, get_req(reqs[i], "MPI_Testall")->msg.get());
        drop_req(&reqs[i]);
      }
    }
  } else {
    yield();
  }
  leave();
  return MPI_SUCCESS;
}
} // extern "C"
