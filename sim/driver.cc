// Batch driver: many seeded runs (one forked process image each), violation gating, minimisation,
// replay files, statistics.
#include "core.h"

#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <ctime>
#include <fcntl.h>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace sim {
void reserve_stacks();
void load_modules(int argc, char **argv) __attribute__((weak));
} // namespace sim
using namespace sim;

namespace {
double real_now() {
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

Result *map_result() {
  void *p = mmap(
      nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE,
      -1, 0
  );
  if (p == MAP_FAILED) {
    perror("mmap result");
    _exit(4);
  }
  return static_cast<Result *>(p);
}

int g_wall = 60;
bool g_verbose = false;

void silence() {
  if (g_verbose) {
    return;
  }
  const int fd = open("/dev/null", O_WRONLY);
  dup2(fd, 1);
  dup2(fd, 2);
  close(fd);
}

// One run in a child process. Returns false if the machinery failed.
void run_child(const RunConfig &cfg, Result *res) {
  std::memset(res, 0, offsetof(Result, entries));
  fflush(nullptr);
  const pid_t pid = fork();
  if (pid < 0) {
    perror("fork");
    _exit(4);
  }
  if (pid == 0) {
    silence();
    struct rlimit rl {
      0, 0
    };
    setrlimit(RLIMIT_CORE, &rl);
    alarm(g_wall);
    execute_run(cfg, res);
    _exit(9);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  if (res->status == ST_RUNNING) {
    res->status = ST_FAIL;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) {
      // Not a verdict by itself: wall-clock time is not part of the simulation.
      snprintf(res->cls, sizeof(res->cls), "wall-timeout");
      snprintf(res->msg, sizeof(res->msg), "the run did not end within %d s of wall time", g_wall);
    } else if (WIFSIGNALED(st)) {
      snprintf(res->cls, sizeof(res->cls), "crash:signal %d", WTERMSIG(st));
      snprintf(res->msg, sizeof(res->msg), "the run was killed by signal %d", WTERMSIG(st));
    } else {
      snprintf(res->cls, sizeof(res->cls), "crash:exit %d", WEXITSTATUS(st));
      snprintf(res->msg, sizeof(res->msg), "the run ended with exit status %d", WEXITSTATUS(st));
    }
  }
}

std::uint64_t run_seed(std::uint64_t base, std::uint64_t index) {
  return mix(mix(base, 0xABCDEF), index);
}

std::string json_escape(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += static_cast<char>(c);
    } else if (c == '\n') {
      o += "\\n";
    } else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof(b), "\\u%04x", c);
      o += b;
    } else {
      o += static_cast<char>(c);
    }
  }
  return o;
}

struct Stats {
  std::uint64_t runs = 0, ok = 0, discards = 0, steps_exceeded = 0, fails = 0, known = 0;
  std::uint64_t steps = 0, switches = 0, preemptions = 0, now_ns = 0, nontrivial = 0;
  std::uint64_t determinism_checked = 0, determinism_bad = 0, overflow = 0, timeouts = 0;
  std::map<std::string, std::uint64_t> counters;
  std::unordered_set<std::uint64_t> sched, cases, nontrivial_set;
  std::vector<std::string> samples;
  std::map<std::string, std::uint64_t> known_classes;
};

struct Known {
  std::string cls, msg;
};
std::vector<Known> g_known;

const Known *match_known(const Result *r) {
  for (const Known &k : g_known) {
    const bool in_case = k.msg.rfind("case:", 0) == 0; // match on the described case
    const std::string where = in_case ? r->note : r->msg;
    if ((k.cls == "*" || k.cls == r->cls) && where.find(in_case ? k.msg.substr(5) : k.msg) != std::string::npos) {
      return &k;
    }
  }
  return nullptr;
}

struct SharedBest { // lowest failing index over all workers
  volatile std::uint64_t index;
  volatile int found;
  volatile std::uint64_t next_index;
};

void add(Stats &s, const Result *r) {
  ++s.runs;
  s.steps += r->steps;
  s.switches += r->switches;
  s.preemptions += r->preemptions;
  s.now_ns += r->now_ns;
  s.overflow += r->overflow;
  for (int i = 0; i < r->n_counters; ++i) {
    s.counters[r->counter_name[i]] += r->counter[i];
  }
  s.sched.insert(r->sched_hash);
  s.cases.insert(r->case_key);
  if (r->nontrivial) {
    ++s.nontrivial;
    s.nontrivial_set.insert(mix(r->case_key, r->sched_hash));
  }
}

void write_stats(const Stats &s, const std::string &path) {
  FILE *f = fopen(path.c_str(), "w");
  fprintf(
      f, "%lu %lu %lu %lu %lu %lu %lu %lu %lu %lu %lu %lu %lu %lu %lu\n", s.runs, s.ok, s.discards,
      s.steps_exceeded, s.fails, s.known, s.steps, s.switches, s.preemptions, s.now_ns,
      s.nontrivial, s.determinism_checked, s.determinism_bad, s.overflow, s.timeouts
  );
  fprintf(f, "%zu\n", s.counters.size());
  for (auto &[k, v] : s.counters) {
    fprintf(f, "%s\t%lu\n", k.c_str(), v);
  }
  for (const auto *set : {&s.sched, &s.cases, &s.nontrivial_set}) {
    fprintf(f, "%zu\n", set->size());
    for (auto v : *set) {
      fprintf(f, "%lx\n", v);
    }
  }
  fprintf(f, "%zu\n", s.samples.size());
  for (auto &v : s.samples) {
    fprintf(f, "%s\n", v.c_str());
  }
  fprintf(f, "%zu\n", s.known_classes.size());
  for (auto &[k, v] : s.known_classes) {
    fprintf(f, "%s\t%lu\n", k.c_str(), v);
  }
  fclose(f);
}

void read_line(FILE *f, std::string &out) {
  out.clear();
  int c;
  while ((c = fgetc(f)) != EOF && c != '\n') {
    out += static_cast<char>(c);
  }
}

bool merge_stats(Stats &s, const std::string &path) {
  FILE *f = fopen(path.c_str(), "r");
  if (f == nullptr) {
    return false;
  }
  std::uint64_t v[15];
  for (auto &x : v) {
    if (fscanf(f, "%lu", &x) != 1) {
      fclose(f);
      return false;
    }
  }
  std::uint64_t *dst[] = {&s.runs,        &s.ok,          &s.discards,
                          &s.steps_exceeded, &s.fails,    &s.known,
                          &s.steps,       &s.switches,    &s.preemptions,
                          &s.now_ns,      &s.nontrivial,  &s.determinism_checked,
                          &s.determinism_bad, &s.overflow, &s.timeouts};
  for (int i = 0; i < 15; ++i) {
    *dst[i] += v[i];
  }
  std::size_t n = 0;
  std::string line;
  if (fscanf(f, "%zu\n", &n) != 1) {
    return false;
  }
  for (std::size_t i = 0; i < n; ++i) {
    read_line(f, line);
    const auto tab = line.rfind('\t');
    s.counters[line.substr(0, tab)] += strtoull(line.c_str() + tab + 1, nullptr, 10);
  }
  for (auto *set : {&s.sched, &s.cases, &s.nontrivial_set}) {
    if (fscanf(f, "%zu\n", &n) != 1) {
      return false;
    }
    for (std::size_t i = 0; i < n; ++i) {
      std::uint64_t x;
      if (fscanf(f, "%lx", &x) == 1) {
        set->insert(x);
      }
    }
  }
  if (fscanf(f, "%zu\n", &n) != 1) {
    return false;
  }
  for (std::size_t i = 0; i < n; ++i) {
    read_line(f, line);
    s.samples.push_back(line);
  }
  if (fscanf(f, "%zu\n", &n) != 1) {
    return false;
  }
  for (std::size_t i = 0; i < n; ++i) {
    read_line(f, line);
    const auto tab = line.rfind('\t');
    s.known_classes[line.substr(0, tab)] += strtoull(line.c_str() + tab + 1, nullptr, 10);
  }
  fclose(f);
  return true;
}

std::vector<Entry> entries_of(const Result *r) {
  return std::vector<Entry>(r->entries, r->entries + r->n_entries);
}

// Minimisation -----------------------------------------------------------------------------------
struct Minimiser {
  RunConfig base;
  Result *res;
  std::string cls;
  double deadline;
  std::uint64_t attempts = 0;

  bool test(const std::vector<Entry> &cand) {
    if (real_now() > deadline) {
      return false;
    }
    ++attempts;
    RunConfig c = base;
    c.replay = true;
    c.trace = &cand;
    run_child(c, res);
    return res->status == ST_FAIL && cls == res->cls && match_known(res) == nullptr;
  }

  bool try_adopt(std::vector<Entry> &cur, const std::vector<Entry> &cand) {
    if (test(cand)) {
      // adopt what the run actually used
      std::vector<Entry> used = entries_of(res);
      cur = used.size() <= cand.size() ? used : cand;
      return true;
    }
    return false;
  }

  void drop_kinds(std::vector<Entry> &cur) {
    for (int k : {K_FAULT, K_STEAL, K_PICK, K_PREEMPT, K_NET}) {
      std::vector<Entry> cand;
      for (auto &e : cur) {
        if (static_cast<int>(e.kind) != k) {
          cand.push_back(e);
        }
      }
      if (cand.size() != cur.size()) {
        try_adopt(cur, cand);
      }
    }
  }

  void ddmin(std::vector<Entry> &cur, bool work) {
    auto selected = [&](const Entry &e) { return (e.kind == K_WORK) == work; };
    std::size_t total = 0;
    for (auto &e : cur) {
      total += selected(e);
    }
    std::size_t chunk = std::max<std::size_t>(1, total / 2);
    while (chunk >= 1 && real_now() < deadline) {
      bool any = false;
      std::size_t start = 0;
      while (real_now() < deadline) {
        std::vector<Entry> cand;
        std::size_t idx = 0, removed = 0;
        for (auto &e : cur) {
          if (selected(e)) {
            if (idx >= start && idx < start + chunk) {
              ++removed;
            } else {
              cand.push_back(e);
            }
            ++idx;
          } else {
            cand.push_back(e);
          }
        }
        if (removed == 0) {
          break;
        }
        if (try_adopt(cur, cand)) {
          any = true;
        } else {
          start += chunk;
        }
      }
      if (chunk == 1 && !any) {
        break;
      }
      chunk = chunk == 1 ? (any ? 1 : 0) : chunk / 2;
    }
  }

  void shrink_values(std::vector<Entry> &cur) {
    bool any = true;
    while (any && real_now() < deadline) {
      any = false;
      for (std::size_t i = 0; i < cur.size() && real_now() < deadline; ++i) {
        if (cur[i].kind != K_WORK || cur[i].value <= 1) {
          continue;
        }
        for (std::uint64_t nv : {cur[i].value / 2, cur[i].value - 1}) {
          std::vector<Entry> cand = cur;
          cand[i].value = nv;
          const std::size_t before = cur.size();
          if (test(cand)) {
            std::vector<Entry> used = entries_of(res);
            cur = used.size() <= cand.size() ? used : cand;
            any = true;
            (void)before;
            break;
          }
        }
      }
    }
  }

  void minimise(std::vector<Entry> &cur) {
    drop_kinds(cur);
    ddmin(cur, true);
    ddmin(cur, false);
    drop_kinds(cur);
    shrink_values(cur);
    ddmin(cur, true);
    ddmin(cur, false);
  }
};

void write_replay(
    const std::string &path, const std::string &property, std::uint64_t seed, std::uint64_t index,
    const Result *r, const std::vector<Entry> &entries, std::uint64_t original_entries,
    std::uint64_t all_choices_from = 0
) {
  FILE *f = fopen(path.c_str(), "w");
  if (f == nullptr) {
    perror(path.c_str());
    exit(2);
  }
  static const char *names[] = {"work", "preempt", "pick", "steal", "fault", "net", "sched"};
  fprintf(f, "{\n \"property\": \"%s\",\n \"check\": \"%s\",\n", property.c_str(), the_check.name);
  fprintf(f, " \"seed\": %lu,\n \"run\": %lu,\n", seed, index);
  fprintf(f, " \"class\": \"%s\",\n", json_escape(r->cls).c_str());
  fprintf(f, " \"message\": \"%s\",\n", json_escape(r->msg).c_str());
  fprintf(f, " \"case\": \"%s\",\n", json_escape(r->note).c_str());
  fprintf(f, " \"hash\": \"%016lx\",\n", r->hash);
  fprintf(f, " \"recorded_choices\": %lu,\n \"kinds\": [", original_entries);
  for (int k = 0; k < K_COUNT; ++k) {
    fprintf(f, "%s\"%s\"", k ? ", " : "", names[k]);
  }
  fprintf(f, "],\n");
  if (all_choices_from != 0) { // too many choices to record: the whole run is drawn from this seed
    fprintf(f, " \"all_choices_from_seed\": %lu,\n", all_choices_from);
  }
  fprintf(f, " \"entries\": [");
  for (std::size_t i = 0; i < entries.size(); ++i) {
    fprintf(
        f, "%s[%lu,%lu,%lu]", i ? "," : "", entries[i].kind, entries[i].ordinal, entries[i].value
    );
  }
  fprintf(f, "]\n}\n");
  fclose(f);
}

bool read_replay(
    const std::string &path, std::vector<Entry> &entries, std::string &cls, std::string &hash,
    std::string &property, std::uint64_t &all_choices_from
) {
  all_choices_from = 0;
  FILE *f = fopen(path.c_str(), "r");
  if (f == nullptr) {
    return false;
  }
  std::string s;
  char buf[65536];
  std::size_t n;
  while ((n = fread(buf, 1, sizeof(buf), f)) > 0) {
    s.append(buf, n);
  }
  fclose(f);
  auto field = [&](const char *name) {
    const std::string key = std::string("\"") + name + "\": \"";
    const auto p = s.find(key);
    if (p == std::string::npos) {
      return std::string();
    }
    const auto q = s.find('"', p + key.size());
    return s.substr(p + key.size(), q - p - key.size());
  };
  cls = field("class");
  hash = field("hash");
  property = field("property");
  const std::string seed_key = "\"all_choices_from_seed\": ";
  if (const auto q = s.find(seed_key); q != std::string::npos) {
    all_choices_from = strtoull(s.c_str() + q + seed_key.size(), nullptr, 10);
  }
  auto p = s.find("\"entries\": [");
  if (p == std::string::npos) {
    return false;
  }
  const char *c = s.c_str() + p + 12;
  while (*c != 0 && *c != ']') {
    while (*c == ',' || *c == '[' || *c == ' ' || *c == '\n') {
      ++c;
    }
    if (*c == ']') {
      break;
    }
    char *end;
    Entry e;
    e.kind = strtoull(c, &end, 10);
    e.ordinal = strtoull(end + 1, &end, 10);
    e.value = strtoull(end + 1, &end, 10);
    c = end;
    if (*c == ']') {
      ++c;
    }
    entries.push_back(e);
  }
  return true;
}

void worker(
    int w, std::uint64_t seed, double deadline, std::uint64_t max_runs, SharedBest *best,
    const std::string &tmp
) {
  Stats s;
  Result *res = map_result();
  Result *res2 = map_result();
  std::uint64_t mine = 0;
  while (real_now() < deadline && best->found == 0) {
    const std::uint64_t i = __sync_fetch_and_add(&best->next_index, 1);
    if (i >= max_runs) {
      break;
    }
    RunConfig cfg;
    cfg.seed = run_seed(seed, i);
    cfg.max_steps = the_check.max_steps;
    cfg.hang_class = the_check.hang_class;
    run_child(cfg, res);
    add(s, res);
    if (s.samples.size() < 3 && res->nontrivial) {
      s.samples.push_back(fmt("run %lu: %s", i, res->note));
    }
    switch (res->status) {
    case ST_OK:
      ++s.ok;
      break;
    case ST_DISCARD:
      ++s.discards;
      break;
    case ST_STEPS:
      ++s.steps_exceeded;
      break;
    default:
      if (std::string(res->cls) == "wall-timeout") {
        ++s.timeouts;
        break;
      }
      if (const Known *k = match_known(res); k != nullptr) {
        ++s.known;
        ++s.known_classes[k->cls + ": " + k->msg];
        break;
      }
      ++s.fails;
      if (__sync_bool_compare_and_swap(&best->found, 0, 1)) {
        best->index = i;
      }
      break;
    }
    if (mine++ % 64 == 5 && res->status != ST_RUNNING) {
      run_child(cfg, res2);
      ++s.determinism_checked;
      if (res->hash != res2->hash || res->status != res2->status) {
        ++s.determinism_bad;
        fprintf(
            stderr, "NONDETERMINISM run %lu: hash %lx/%lx status %d/%d steps %lu/%lu cls %s/%s\n", i, res->hash,
            res2->hash, res->status, res2->status, res->steps, res2->steps, res->cls, res2->cls
        );
      }
    }
  }
  write_stats(s, tmp + "." + std::to_string(w));
  _exit(0);
}

std::string arg(int argc, char **argv, const std::string &name, const std::string &def) {
  for (int i = 1; i + 1 < argc; ++i) {
    if (name == argv[i]) {
      return argv[i + 1];
    }
  }
  return def;
}

void print_result(const Result *r) {
  printf(
      "status=%d class=%s\nmessage=%s\ncase=%s\nhash=%016lx steps=%lu switches=%lu preemptions=%lu "
      "entries=%lu sim_ns=%lu\n",
      r->status, r->cls, r->msg, r->note, r->hash, r->steps, r->switches, r->preemptions,
      r->n_entries, r->now_ns
  );
  for (int i = 0; i < r->n_counters; ++i) {
    printf("  %s = %lu\n", r->counter_name[i], r->counter[i]);
  }
}

} // namespace

int main(int argc, char **argv) {
  // identical address-space layout in every process
  const int pers = personality(0xffffffff);
  if (pers != -1 && (pers & ADDR_NO_RANDOMIZE) == 0 && getenv("SIM_REEXEC") == nullptr) {
    if (personality(pers | ADDR_NO_RANDOMIZE) != -1) {
      setenv("SIM_REEXEC", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  setvbuf(stdout, nullptr, _IOLBF, 0);
  reserve_stacks();
  if (load_modules != nullptr) {
    load_modules(argc, argv);
  }
  const std::string mode = argc > 1 ? argv[1] : "";
  g_wall = atoi(arg(argc, argv, "--wall", "60").c_str());
  g_verbose = getenv("SIM_VERBOSE") != nullptr;
  Result *res = map_result();
  RunConfig base;
  base.max_steps = the_check.max_steps;
  base.hang_class = the_check.hang_class;

  for (int i = 1; i + 2 < argc; ++i) {
    if (std::string(argv[i]) == "--known") {
      g_known.push_back({argv[i + 1], argv[i + 2]});
    }
  }

  if (mode == "run") {
    const std::uint64_t seed = strtoull(arg(argc, argv, "--seed", "1").c_str(), nullptr, 10);
    const std::uint64_t idx = strtoull(arg(argc, argv, "--index", "0").c_str(), nullptr, 10);
    base.seed = run_seed(seed, idx);
    run_child(base, res);
    print_result(res);
    if (arg(argc, argv, "--self-replay", "") != "") { // replay the recorded trace
      std::vector<Entry> cur = entries_of(res);
      RunConfig c = base;
      c.replay = true;
      c.trace = &cur;
      run_child(c, res);
      print_result(res);
    }
    return res->status == ST_FAIL ? 1 : 0;
  }

  if (mode == "exec") { // in-process, for debuggers
    const std::uint64_t seed = strtoull(arg(argc, argv, "--seed", "1").c_str(), nullptr, 10);
    const std::uint64_t idx = strtoull(arg(argc, argv, "--index", "0").c_str(), nullptr, 10);
    base.seed = run_seed(seed, idx);
    const std::string file = arg(argc, argv, "--replay", "");
    std::vector<Entry> entries;
    if (!file.empty()) {
      std::string cls, hash, prop;
      std::uint64_t from;
      read_replay(file, entries, cls, hash, prop, from);
      base.replay = from == 0;
      if (from != 0) base.seed = from;
      base.trace = &entries;
    }
    execute_run(base, res);
  }

  if (mode == "replay") {
    std::vector<Entry> entries;
    std::string cls, hash, prop;
    std::uint64_t from;
    if (argc < 3 || !read_replay(argv[2], entries, cls, hash, prop, from)) {
      fprintf(stderr, "cannot read replay file\n");
      return 2;
    }
    base.replay = from == 0;
    if (from != 0) base.seed = from;
    base.trace = &entries;
    run_child(base, res);
    print_result(res);
    char h[32];
    snprintf(h, sizeof(h), "%016lx", res->hash);
    const bool same = res->status == ST_FAIL && cls == json_escape(res->cls);
    if (same && hash == h) {
      printf("REPRODUCED property=%s exactly (event hash %s)\n", prop.c_str(), h);
      return 1;
    }
    if (same) {
      printf("REPRODUCED-CLASS property=%s (event hash differs: %s, file says %s)\n", prop.c_str(),
             h, hash.c_str());
      return 3;
    }
    printf("NOT-REPRODUCED property=%s\n", prop.c_str());
    return 0;
  }

  if (mode == "determinism") {
    const std::uint64_t seed = strtoull(arg(argc, argv, "--seed", "1").c_str(), nullptr, 10);
    const std::uint64_t n = strtoull(arg(argc, argv, "--runs", "100").c_str(), nullptr, 10);
    for (std::uint64_t i = 0; i < n; ++i) {
      base.seed = run_seed(seed, i);
      run_child(base, res);
      printf("%lu %016lx %d %lu\n", i, res->hash, res->status, res->steps);
    }
    return 0;
  }

  if (mode != "batch") {
    fprintf(stderr, "usage: %s batch|run|exec|replay|determinism ...\n", argv[0]);
    return 2;
  }

  const std::uint64_t seed = strtoull(arg(argc, argv, "--seed", "1").c_str(), nullptr, 10);
  const double seconds = atof(arg(argc, argv, "--seconds", "10").c_str());
  const std::uint64_t max_runs =
      strtoull(arg(argc, argv, "--runs", "1000000000").c_str(), nullptr, 10);
  const int jobs = atoi(arg(argc, argv, "--jobs", "8").c_str());
  const double min_seconds = atof(arg(argc, argv, "--minimise", "40").c_str());
  const std::string out = arg(argc, argv, "--out", "/dev/null");
  const std::string tmp = arg(argc, argv, "--tmp", "/tmp/sim");
  const std::string property = arg(argc, argv, "--property", "X00");
  const std::string replay_path = arg(argc, argv, "--replay-out", "/tmp/replay.json");

  auto *best = static_cast<SharedBest *>(mmap(
      nullptr, sizeof(SharedBest), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0
  ));
  best->next_index = strtoull(arg(argc, argv, "--first", "0").c_str(), nullptr, 10);
  const double t0 = real_now();
  std::vector<pid_t> pids;
  for (int w = 0; w < jobs; ++w) {
    fflush(nullptr);
    const pid_t pid = fork();
    if (pid == 0) {
      worker(w, seed, t0 + seconds, max_runs, best, tmp);
    }
    pids.push_back(pid);
  }
  bool machinery_ok = true;
  for (const pid_t p : pids) {
    int st;
    waitpid(p, &st, 0);
    machinery_ok &= WIFEXITED(st) && WEXITSTATUS(st) == 0;
  }
  Stats s;
  for (int w = 0; w < jobs; ++w) {
    const std::string path = tmp + "." + std::to_string(w);
    machinery_ok &= merge_stats(s, path);
    unlink(path.c_str());
  }
  const double wall = real_now() - t0;

  int rc = 0;
  std::string vio;
  if (best->found != 0) {
    // Gate: the same seed twice, then minimise, then replay in a fresh process.
    base.seed = run_seed(seed, best->index);
    run_child(base, res);
    const std::uint64_t h1 = res->hash;
    const std::string cls = res->cls;
    const bool f1 = res->status == ST_FAIL;
    Result *res2 = map_result();
    run_child(base, res2);
    if (!f1 || res2->status != ST_FAIL || res2->hash != h1 || cls != res2->cls) {
      printf("ERROR violation of run %lu does not reproduce from its seed\n", best->index);
      rc = 2;
    } else {
      const std::uint64_t original = res2->n_entries;
      std::vector<Entry> cur = entries_of(res2);
      Minimiser m{base, res, cls, real_now() + min_seconds};
      const bool overflow = res2->overflow != 0;
      // a run with too many choices to record: its recorded prefix may do, otherwise replay the seed
      const bool traced = m.test(cur);
      if (!traced && !overflow) {
        printf("ERROR trace of run %lu does not reproduce the violation\n", best->index);
        rc = 2;
      } else {
        RunConfig c = base;
        if (traced) {
          m.minimise(cur);
          c.replay = true;
          c.trace = &cur;
        } else {
          cur.clear();
        }
        m.deadline = real_now() + 300;
        run_child(c, res);
        run_child(c, res2);
        if (res->status != ST_FAIL || cls != res->cls || res->hash != res2->hash) {
          printf("ERROR minimised trace does not reproduce\n");
          rc = 2;
        } else {
          write_replay(replay_path, property, seed, best->index, res, cur, original, traced ? 0 : base.seed);
          // fresh process
          unsetenv("SIM_REEXEC");
          fflush(nullptr);
          const pid_t pid = fork();
          if (pid == 0) {
            if (!g_verbose) {
              const int fd = open("/dev/null", O_WRONLY);
              dup2(fd, 1);
              dup2(fd, 2);
            }
            execl("/proc/self/exe", argv[0], "replay", replay_path.c_str(), (char *)nullptr);
            _exit(99);
          }
          int st;
          waitpid(pid, &st, 0);
          if (!WIFEXITED(st) || WEXITSTATUS(st) != 1) {
            printf("ERROR fresh-process replay does not reproduce (exit %d)\n", WEXITSTATUS(st));
            rc = 2;
          } else {
            printf("class: %s\nmessage: %s\ncase: %s\n", res->cls, res->msg, res->note);
            printf(
                "seed %lu run %lu: %lu recorded choices minimised to %zu in %lu attempts\n", seed,
                best->index, original, cur.size(), m.attempts
            );
            printf("VIOLATION property=%s replay=%s\n", property.c_str(), replay_path.c_str());
            vio = std::string(res->cls) + ": " + res->msg;
            rc = 1;
          }
        }
      }
    }
  }
  if (!machinery_ok && rc == 0) {
    printf("ERROR a batch worker failed\n");
    rc = 2;
  }
  FILE *f = fopen(out.c_str(), "w");
  if (f != nullptr) {
    fprintf(f, "{\n");
    fprintf(f, " \"runs\": %lu, \"ok\": %lu, \"discards\": %lu, \"steps_exceeded\": %lu,\n", s.runs,
            s.ok, s.discards, s.steps_exceeded);
    fprintf(f, " \"fails\": %lu, \"known\": %lu, \"timeouts\": %lu,\n", s.fails, s.known, s.timeouts);
    fprintf(f, " \"steps\": %lu, \"switches\": %lu, \"preemptions\": %lu, \"sim_ns\": %lu,\n",
            s.steps, s.switches, s.preemptions, s.now_ns);
    fprintf(f, " \"nontrivial\": %lu, \"distinct_schedules\": %zu, \"distinct_cases\": %zu,\n",
            s.nontrivial, s.sched.size(), s.cases.size());
    fprintf(f, " \"distinct_nontrivial\": %zu,\n", s.nontrivial_set.size());
    fprintf(f, " \"determinism_checked\": %lu, \"determinism_bad\": %lu, \"overflow\": %lu,\n",
            s.determinism_checked, s.determinism_bad, s.overflow);
    fprintf(f, " \"wall_s\": %.3f, \"violation\": \"%s\",\n", wall, json_escape(vio).c_str());
    fprintf(f, " \"known_classes\": {");
    bool first = true;
    for (auto &[k, v] : s.known_classes) {
      fprintf(f, "%s\"%s\": %lu", first ? "" : ", ", json_escape(k).c_str(), v);
      first = false;
    }
    fprintf(f, "},\n \"counters\": {");
    first = true;
    for (auto &[k, v] : s.counters) {
      fprintf(f, "%s\"%s\": %lu", first ? "" : ", ", json_escape(k).c_str(), v);
      first = false;
    }
    fprintf(f, "},\n \"samples\": [");
    for (std::size_t i = 0; i < s.samples.size() && i < 6; ++i) {
      fprintf(f, "%s\"%s\"", i ? ", " : "", json_escape(s.samples[i]).c_str());
    }
    fprintf(f, "]\n}\n");
    fclose(f);
  }
  printf("runs=%lu ok=%lu discards=%lu steps_exceeded=%lu fails=%lu known=%lu timeouts=%lu "
         "nondeterminism=%lu/%lu wall=%.1fs\n",
         s.runs, s.ok, s.discards, s.steps_exceeded, s.fails, s.known, s.timeouts,
         s.determinism_bad, s.determinism_checked, wall);
  return rc;
}
