// Driver side of the distributed checks: the check and the code under test are one shared object, of
// which every rank has its own copy (own globals, own statics, own thread-locals).
#include "core.h"
#include "dist.h"
#include "mpi_rt.h"

#include <dlfcn.h>
#include <fcntl.h>
#include <string>
#include <sys/mman.h>
#include <unistd.h>

using namespace sim;

namespace {
struct Module {
  void *(*prepare)();
  int (*ranks)(void *);
  void (*rank)(int, void *);
  void (*finish)(void *);
};
Module g_mod[dist::kMaxRanks];
void *g_workload;
int g_left;
int g_main_waiting = 0;
char g_name[128];

void run_rank(int r) {
  g_mod[r].rank(r, g_workload);
  mpi::returned();
  if (--g_left == 0) {
    wake(0);
  }
}
void rank_main(void *arg) {
  run_rank(static_cast<int>(reinterpret_cast<std::intptr_t>(arg)));
  while (true) {
    block(); // rank processes stay around until the run ends
  }
}

void run() {
  g_workload = g_mod[0].prepare();
  const int n = g_mod[0].ranks(g_workload);
  mpi::init(n);
  g_left = n;
  for (int r = 1; r < n; ++r) {
    spawn_fiber(&rank_main, reinterpret_cast<void *>(static_cast<std::intptr_t>(r)), r, 0);
  }
  run_rank(0);
  while (g_left > 0) {
    block();
  }
  mpi::check_quiescent();
  NoPreempt np;
  g_mod[0].finish(g_workload);
}
} // namespace

sim::Check sim::the_check = {g_name, &run, 1, "hang"};

namespace sim {
void load_modules(int, char **) {
  char exe[4096];
  const ssize_t n = readlink("/proc/self/exe", exe, sizeof(exe) - 1);
  exe[n < 0 ? 0 : n] = 0;
  std::string path = exe;
  const std::string base = path.substr(path.rfind('/') + 1);
  snprintf(g_name, sizeof(g_name), "%s", base.substr(0, base.rfind('.')).c_str());
  path = path.substr(0, path.rfind('.')) + ".so";
  const int in = open(path.c_str(), O_RDONLY);
  const off_t len = in < 0 ? -1 : lseek(in, 0, SEEK_END);
  if (len <= 0) {
    fprintf(stderr, "cannot open %s\n", path.c_str());
    _exit(4);
  }
  void *img = mmap(nullptr, len, PROT_READ, MAP_PRIVATE, in, 0);
  for (int r = 0; r < dist::kMaxRanks; ++r) {
    const int fd = memfd_create("rank", 0);
    off_t done = 0;
    while (done < len) {
      const ssize_t k = write(fd, static_cast<char *>(img) + done, len - done);
      if (k <= 0) {
        perror("memfd");
        _exit(4);
      }
      done += k;
    }
    char name[64];
    snprintf(name, sizeof(name), "/proc/self/fd/%d", fd);
    void *h = dlopen(name, RTLD_NOW | RTLD_LOCAL);
    if (h == nullptr) {
      fprintf(stderr, "%s\n", dlerror());
      _exit(4);
    }
    g_mod[r].prepare = reinterpret_cast<void *(*)()>(dlsym(h, "dist_prepare"));
    g_mod[r].ranks = reinterpret_cast<int (*)(void *)>(dlsym(h, "dist_ranks"));
    g_mod[r].rank = reinterpret_cast<void (*)(int, void *)>(dlsym(h, "dist_rank"));
    g_mod[r].finish = reinterpret_cast<void (*)(void *)>(dlsym(h, "dist_finish"));
    Dl_info info;
    dladdr(reinterpret_cast<void *>(g_mod[r].rank), &info);
    g_image_base[r] = reinterpret_cast<std::uintptr_t>(info.dli_fbase);
    if (r == 0) {
      auto *c = static_cast<dist::Config *>(dlsym(h, "dist_config"));
      the_check.max_steps = c->max_steps;
      the_check.hang_class = c->hang_class;
    }
  }
  munmap(img, len);
  close(in);
}
} // namespace sim
