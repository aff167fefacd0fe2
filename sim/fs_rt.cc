// Simulated files: every path that starts with "/sim/" and every relative path lives in memory only, with injected faults.
#include "core.h"

#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

using namespace sim;

namespace sim::fs {
Faults faults;
Fired fired;

namespace {
struct File {
  std::string data;
};
struct Open {
  std::shared_ptr<File> file;
  std::size_t pos = 0;
  bool reads = false, writes = false, append = false;
};
constexpr int kFirstFd = 1 << 24;
std::map<std::string, std::shared_ptr<File>> *g_files;
std::map<int, Open> *g_open;
std::map<void *, std::size_t> *g_maps;
int g_next_fd = kFirstFd;
std::int64_t g_used = 0; // bytes written by the run

void init() {
  if (g_files == nullptr) {
    g_files = new std::map<std::string, std::shared_ptr<File>>();
    g_open = new std::map<int, Open>();
    g_maps = new std::map<void *, std::size_t>();
  }
}

bool ours(const char *path) {
  return path != nullptr && *path != 0 && (*path != '/' || std::strncmp(path, "/sim/", 5) == 0);
}
bool fire(double p, std::uint64_t &counter, const char *name) {
  if (p <= 0 || !chance(K_FAULT, p)) {
    return false;
  }
  ++counter;
  count(name);
  return true;
}

int do_open(const char *path, int flags) {
  NoPreempt np;
  init();
  if (fire(faults.open_eintr, fired.open_eintr, "fault:open-interrupted")) {
    errno = EINTR;
    return -1;
  }
  if (fire(faults.open_fail, fired.open_fail, "fault:open-failed")) {
    static const int codes[] = {EACCES, EMFILE, ENFILE, ENOENT, EIO};
    errno = codes[choose(K_FAULT, 5)];
    return -1;
  }
  auto it = g_files->find(path);
  if (it == g_files->end()) {
    if ((flags & O_CREAT) == 0) {
      errno = ENOENT;
      return -1;
    }
    it = g_files->emplace(path, std::make_shared<File>()).first;
  }
  if ((flags & O_TRUNC) != 0) {
    it->second->data.clear();
  }
  Open o;
  o.file = it->second;
  const int acc = flags & O_ACCMODE;
  o.reads = acc == O_RDONLY || acc == O_RDWR;
  o.writes = acc == O_WRONLY || acc == O_RDWR;
  o.append = (flags & O_APPEND) != 0;
  const int fd = g_next_fd++;
  g_open->emplace(fd, std::move(o));
  return fd;
}

Open *lookup(int fd) {
  if (fd < kFirstFd || g_open == nullptr) {
    return nullptr;
  }
  const auto it = g_open->find(fd);
  return it == g_open->end() ? nullptr : &it->second;
}

ssize_t do_read(Open &o, void *buf, std::size_t n) {
  NoPreempt np;
  if (fire(faults.read_eintr, fired.read_eintr, "fault:read-interrupted")) {
    errno = EINTR;
    return -1;
  }
  if (fire(faults.read_eio, fired.read_eio, "fault:read-error")) {
    errno = EIO;
    return -1;
  }
  const std::size_t left = o.pos < o.file->data.size() ? o.file->data.size() - o.pos : 0;
  n = std::min(n, left);
  if (n > 1 && fire(faults.read_short, fired.read_short, "fault:short-read")) {
    n = 1 + choose(K_FAULT, n - 1);
  }
  std::memcpy(buf, o.file->data.data() + o.pos, n);
  o.pos += n;
  return static_cast<ssize_t>(n);
}

ssize_t do_write(Open &o, const void *buf, std::size_t n) {
  NoPreempt np;
  if (fire(faults.write_eintr, fired.write_eintr, "fault:write-interrupted")) {
    errno = EINTR;
    return -1;
  }
  if (fire(faults.write_eio, fired.write_eio, "fault:write-error")) {
    errno = EIO;
    return -1;
  }
  if (n > 1 && fire(faults.write_short, fired.write_short, "fault:short-write")) {
    n = 1 + choose(K_FAULT, n - 1);
  }
  if (faults.disk_capacity >= 0 && n > 0) {
    const std::int64_t room = faults.disk_capacity - g_used;
    if (room <= 0) {
      ++fired.enospc;
      count("fault:disk-full");
      errno = ENOSPC;
      return -1;
    }
    n = std::min<std::size_t>(n, static_cast<std::size_t>(room));
  }
  if (o.append) {
    o.pos = o.file->data.size();
  }
  if (o.file->data.size() < o.pos + n) {
    o.file->data.resize(o.pos + n);
  }
  std::memcpy(o.file->data.data() + o.pos, buf, n);
  o.pos += n;
  g_used += static_cast<std::int64_t>(n);
  return static_cast<ssize_t>(n);
}

int do_close(int fd) {
  NoPreempt np;
  Open &o = g_open->at(fd);
  int rc = 0;
  if (o.writes && fire(faults.close_fail, fired.close_fail, "fault:close-failed")) {
    // delayed write-back failed: the tail of the data never makes it
    auto &d = o.file->data;
    d.resize(d.empty() ? 0 : choose(K_FAULT, d.size()));
    errno = EIO;
    rc = -1;
  }
  g_open->erase(fd);
  return rc;
}

int do_stat(File &f, struct stat *st) {
  std::memset(st, 0, sizeof(*st));
  st->st_mode = S_IFREG | 0644;
  st->st_nlink = 1;
  st->st_size = static_cast<off_t>(f.data.size());
  st->st_blksize = 4096;
  return 0;
}

off_t do_seek(Open &o, off_t off, int whence) {
  const off_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? static_cast<off_t>(o.pos)
                                                                 : static_cast<off_t>(o.file->data.size());
  if (base + off < 0) {
    errno = EINVAL;
    return -1;
  }
  o.pos = static_cast<std::size_t>(base + off);
  return base + off;
}

// FILE objects of simulated files are real streams on top of the functions above.
std::map<FILE *, int> *g_streams;
int stream_fd(FILE *f) {
  if (g_streams == nullptr) {
    return -1;
  }
  const auto it = g_streams->find(f);
  return it == g_streams->end() ? -1 : it->second;
}
int cookie_fd(void *cookie) {
  return static_cast<int>(reinterpret_cast<std::intptr_t>(cookie));
}
ssize_t cookie_read(void *c, char *buf, size_t n) {
  Open *o = lookup(cookie_fd(c));
  return o == nullptr ? -1 : do_read(*o, buf, n);
}
ssize_t cookie_write(void *c, const char *buf, size_t n) {
  Open *o = lookup(cookie_fd(c));
  const ssize_t r = o == nullptr ? -1 : do_write(*o, buf, n);
  return r < 0 ? 0 : r;
}
int cookie_seek(void *c, off64_t *off, int whence) {
  Open *o = lookup(cookie_fd(c));
  const off_t r = o == nullptr ? -1 : do_seek(*o, *off, whence);
  *off = r;
  return r < 0 ? -1 : 0;
}
int cookie_close(void *c) {
  return lookup(cookie_fd(c)) == nullptr ? -1 : do_close(cookie_fd(c));
}
FILE *do_fopen(const char *path, const char *mode) {
  int flags = 0;
  const bool plus = std::strchr(mode, '+') != nullptr;
  switch (mode[0]) {
  case 'r': flags = plus ? O_RDWR : O_RDONLY; break;
  case 'w': flags = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
  default: flags = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
  }
  const int fd = do_open(path, flags);
  if (fd < 0) {
    return nullptr;
  }
  if (g_streams == nullptr) {
    g_streams = new std::map<FILE *, int>();
  }
  FILE *f = fopencookie(reinterpret_cast<void *>(static_cast<std::intptr_t>(fd)), mode,
                        {cookie_read, cookie_write, cookie_seek, cookie_close});
  if (f == nullptr) {
    do_close(fd);
    return nullptr;
  }
  (*g_streams)[f] = fd;
  return f;
}

template <typename F> F next(const char *name) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
} // namespace

void reset() {
  faults = {};
  fired = {};
  g_used = 0;
}
void put(const std::string &path, const std::string &content) {
  init();
  (*g_files)[path] = std::make_shared<File>();
  (*g_files)[path]->data = content;
}
bool exists(const std::string &path) {
  init();
  return g_files->count(path) > 0;
}
std::string get(const std::string &path) {
  init();
  const auto it = g_files->find(path);
  return it == g_files->end() ? std::string() : it->second->data;
}
std::vector<std::string> files() {
  NoPreempt np;
  init();
  std::vector<std::string> r;
  for (const auto &[name, f] : *g_files) r.push_back(name);
  return r;
}
void remove(const std::string &path) {
  init();
  g_files->erase(path);
}
std::size_t open_files() {
  return g_open == nullptr ? 0 : g_open->size();
}
} // namespace sim::fs

using namespace sim::fs;

#define REAL(name) static auto real = next<decltype(&name)>(#name)

extern "C" {
int open(const char *path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  const int mode = va_arg(ap, int);
  va_end(ap);
  if (g_active && ours(path)) return do_open(path, flags);
  REAL(open);
  return real(path, flags, mode);
}
int open64(const char *path, int flags, ...) {
  va_list ap;
  va_start(ap, flags);
  const int mode = va_arg(ap, int);
  va_end(ap);
  if (g_active && ours(path)) return do_open(path, flags);
  REAL(open64);
  return real(path, flags, mode);
}
FILE *fopen(const char *path, const char *mode) {
  if (g_active && ours(path)) return do_fopen(path, mode);
  REAL(fopen);
  return real(path, mode);
}
FILE *fopen64(const char *path, const char *mode) {
  if (g_active && ours(path)) return do_fopen(path, mode);
  REAL(fopen64);
  return real(path, mode);
}
int fclose(FILE *f) {
  if (stream_fd(f) >= 0) g_streams->erase(f);
  REAL(fclose);
  return real(f);
}
int fileno(FILE *f) {
  if (const int fd = stream_fd(f); fd >= 0) return fd;
  REAL(fileno);
  return real(f);
}
ssize_t read(int fd, void *buf, size_t n) {
  if (auto *o = lookup(fd)) return do_read(*o, buf, n);
  REAL(read);
  return real(fd, buf, n);
}
ssize_t pread(int fd, void *buf, size_t n, off_t off) {
  if (auto *o = lookup(fd)) {
    const std::size_t pos = o->pos;
    o->pos = static_cast<std::size_t>(off);
    const ssize_t r = do_read(*o, buf, n);
    o->pos = pos;
    return r;
  }
  REAL(pread);
  return real(fd, buf, n, off);
}
ssize_t write(int fd, const void *buf, size_t n) {
  if (auto *o = lookup(fd)) return do_write(*o, buf, n);
  REAL(write);
  return real(fd, buf, n);
}
ssize_t writev(int fd, const struct iovec *iov, int cnt) {
  if (auto *o = lookup(fd)) {
    ssize_t total = 0;
    for (int i = 0; i < cnt; ++i) {
      if (iov[i].iov_len == 0) continue;
      const ssize_t r = do_write(*o, iov[i].iov_base, iov[i].iov_len);
      if (r < 0) return total > 0 ? total : -1;
      total += r;
      if (static_cast<size_t>(r) < iov[i].iov_len) break;
    }
    return total;
  }
  REAL(writev);
  return real(fd, iov, cnt);
}
int close(int fd) {
  if (lookup(fd) != nullptr) return do_close(fd);
  REAL(close);
  return real(fd);
}
off_t lseek(int fd, off_t off, int whence) {
  if (auto *o = lookup(fd)) return do_seek(*o, off, whence);
  REAL(lseek);
  return real(fd, off, whence);
}
off64_t lseek64(int fd, off64_t off, int whence) {
  if (auto *o = lookup(fd)) return do_seek(*o, off, whence);
  REAL(lseek64);
  return real(fd, off, whence);
}
int fstat(int fd, struct stat *st) {
  if (auto *o = lookup(fd)) {
    if (fire(sim::fs::faults.fstat_fail, fired.fstat_fail, "fault:stat-failed")) {
      errno = EIO;
      return -1;
    }
    return do_stat(*o->file, st);
  }
  REAL(fstat);
  return real(fd, st);
}
int fstat64(int fd, struct stat64 *st) {
  if (lookup(fd) != nullptr) return fstat(fd, reinterpret_cast<struct stat *>(st));
  REAL(fstat64);
  return real(fd, st);
}
int stat(const char *path, struct stat *st) {
  if (g_active && ours(path)) {
    NoPreempt np;
    if (fire(sim::fs::faults.fstat_fail, fired.fstat_fail, "fault:stat-failed")) {
      errno = EIO;
      return -1;
    }
    init();
    const auto it = g_files->find(path);
    if (it == g_files->end()) {
      errno = ENOENT;
      return -1;
    }
    return do_stat(*it->second, st);
  }
  REAL(stat);
  return real(path, st);
}
int stat64(const char *path, struct stat64 *st) {
  if (g_active && ours(path)) return stat(path, reinterpret_cast<struct stat *>(st));
  REAL(stat64);
  return real(path, st);
}
void *mmap(void *addr, size_t len, int prot, int flags, int fd, off_t off) {
  if (auto *o = lookup(fd)) {
    NoPreempt np;
    if (len == 0) {
      errno = EINVAL;
      return MAP_FAILED;
    }
    if (fire(sim::fs::faults.mmap_fail, fired.mmap_fail, "fault:map-failed")) {
      errno = ENOMEM;
      return MAP_FAILED;
    }
    // a heap block of exactly the requested size: accesses beyond it are detected. Pages beyond the
    // end of the file cannot be accessed, so a mapping that is too long is cut at the end of the file.
    const std::size_t size = o->file->data.size();
    const std::size_t from = std::min<std::size_t>(static_cast<std::size_t>(off), size);
    const std::size_t n = std::min(len, size - from);
    void *p = malloc(n == 0 ? 1 : n);
    std::memcpy(p, o->file->data.data() + from, n);
    (*g_maps)[p] = len;
    return p;
  }
  REAL(mmap);
  return real(addr, len, prot, flags, fd, off);
}
int munmap(void *p, size_t len) {
  if (g_maps != nullptr) {
    const auto it = g_maps->find(p);
    if (it != g_maps->end()) {
      g_maps->erase(it);
      free(p);
      return 0;
    }
  }
  REAL(munmap);
  return real(p, len);
}
} // extern "C"
