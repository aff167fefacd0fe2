// Programs of apps/ as simulated processes: arguments in, exit status, standard output and files out.
#pragma once

#include "io_common.h"

#include <csetjmp>
#include <iostream>
#include <sstream>

#if __has_include(<numa.h>)
#include <numa.h>
// The simulated machine has a single memory node.
extern "C" {
struct bitmask *numa_all_nodes_ptr = nullptr;
int numa_available(void) { return -1; }
void numa_set_interleave_mask(struct bitmask *) {}
}
#endif

namespace app {
using namespace fio;
using Main = int (*)(int, char **);

struct Args {
  std::vector<std::string> v;
  Args &operator<<(const std::string &s) {
    v.push_back(s);
    return *this;
  }
  std::string str() const {
    std::string s;
    for (const auto &x : v) s += (s.empty() ? "" : " ") + x;
    return s;
  }
};

// Standard output of the simulated process.
struct Capture {
  std::ostringstream out;
  std::streambuf *cout_, *cerr_;
  Capture() {
    sim::NoPreempt np;
    cout_ = std::cout.rdbuf(out.rdbuf());
    cerr_ = std::cerr.rdbuf(out.rdbuf());
  }
  ~Capture() {
    std::cout.rdbuf(cout_);
    std::cerr.rdbuf(cerr_);
  }
};

inline std::function<void(int)> &on_exit() {
  static std::function<void(int)> f;
  return f;
}
inline void exit_hook(int code) { on_exit()(code); }

// Runs the program. `on_failure(why)` is called (and the run ends) if it reports a failure: a non-zero exit
// status or an uncaught exception. Returns if it reports success.
inline void run(Main program, const Args &args, const std::function<void(const std::string &)> &on_failure) {
  std::vector<std::string> v = args.v;
  std::vector<char *> argv;
  for (auto &s : v) argv.push_back(s.data());
  argv.push_back(nullptr);
  const auto failed = [&](const std::string &why) {
    sim::NoPreempt np;
    on_failure(why);
    sim::done();
  };
  on_exit() = [&](int code) {
    SIM_CHECK(code != 0, "success-exit", "exit status 0 before the work was done");
    failed(sim::fmt("exit status %d", code));
  };
  sim::exit_hook = exit_hook;
  std::string why;
  try {
    const int code = program(static_cast<int>(v.size()), argv.data());
    if (code != 0) why = sim::fmt("exit status %d", code);
  } catch (const std::exception &e) {
    why = std::string("uncaught exception: ") + e.what();
  }
  sim::exit_hook = nullptr;
  if (!why.empty()) failed(why);
}

// Like run(), for a program that may exit in its main thread at a quiescent point: returns the exit status.
inline int run_to_exit(Main program, const Args &args) {
  static std::jmp_buf env;
  static int status;
  static std::vector<std::string> v;
  static std::vector<char *> argv;
  v = args.v;
  argv.clear();
  for (auto &s : v) argv.push_back(s.data());
  argv.push_back(nullptr);
  on_exit() = [](int code) {
    status = code;
    std::longjmp(env, 1);
  };
  sim::exit_hook = exit_hook;
  if (setjmp(env) == 0) status = program(static_cast<int>(v.size()), argv.data());
  sim::exit_hook = nullptr;
  return status;
}

// The first number behind `label` in `text`.
inline std::optional<std::string> field(const std::string &text, const std::string &label) {
  const auto p = text.find(label);
  if (p == std::string::npos) return std::nullopt;
  auto q = p + label.size();
  while (q < text.size() && text[q] == ' ') ++q;
  auto r = q;
  while (r < text.size() && text[r] != ' ' && text[r] != '\n' && text[r] != '\033') ++r;
  return text.substr(q, r - q);
}

// A graph file with its name on the simulated disk.
enum class Format { METIS, PARHIP, COMPRESSED };
inline std::string put_graph(const G &g, Format f, const std::string &path) {
  switch (f) {
  case Format::METIS: sim::fs::put(path, encode_metis(g, random_style())); break;
  case Format::PARHIP: sim::fs::put(path, encode_parhip(g)); break;
  case Format::COMPRESSED: {
    sim::NoPreempt np;
    const Graph c = compressed_of(g);
    sio::compressed_binary::write(path, c.concretize<CompressedGraph>());
    break;
  }
  }
  return path;
}
inline const char *format_name(Format f) {
  return f == Format::METIS ? "metis" : f == Format::PARHIP ? "parhip" : "metis";
}
inline bool read_graph_file(Format f, const std::string &content, G &h) {
  return f == Format::METIS ? parse_metis(content, h) == Verdict::VALID : decode_parhip(content, h);
}

// Why `g` is not a simple undirected graph; empty if it is one.
inline std::string defect(const G &g) {
  std::vector<std::map<std::size_t, i64>> nb(g.n);
  for (std::size_t u = 0; u < g.n; ++u)
    for (std::size_t e = g.xadj[u]; e < g.xadj[u + 1]; ++e)
      if (!nb[u].emplace(g.adj[e], g.ew[e]).second) return sim::fmt("two edges %zu -> %zu", u, static_cast<std::size_t>(g.adj[e]));
  for (std::size_t u = 0; u < g.n; ++u)
    for (const auto &[v, w] : nb[u]) {
      const auto it = nb[v].find(u);
      if (it == nb[v].end()) return sim::fmt("no edge %zu -> %zu", v, u);
      if (it->second != w) return sim::fmt("edges %zu -> %zu and back differ in weight", u, v);
    }
  return "";
}

// `g` with node u renamed to to[u] (a permutation).
inline G renamed(const G &g, const std::vector<std::uint64_t> &to) {
  sim::NoPreempt np;
  std::vector<std::size_t> from(g.n);
  for (std::size_t u = 0; u < g.n; ++u) from[to[u]] = u;
  G r;
  r.n = g.n;
  r.has_vw = g.has_vw;
  r.has_ew = g.has_ew;
  r.xadj.assign(1, 0);
  for (std::size_t i = 0; i < g.n; ++i) {
    const std::size_t u = from[i];
    r.vw.push_back(g.vw[u]);
    for (std::size_t e = g.xadj[u]; e < g.xadj[u + 1]; ++e) {
      r.adj.push_back(to[g.adj[e]]);
      r.ew.push_back(g.ew[e]);
    }
    r.xadj.push_back(r.adj.size());
  }
  return r;
}
} // namespace app
