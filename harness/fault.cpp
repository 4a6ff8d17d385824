#include "fault.h"
#include <cerrno>
#include <cstdio>
#include <dlfcn.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

namespace faults {
thread_local Plan plan;
thread_local void (*yield)() = nullptr;
thread_local int armed = 0;
bool memory_points = false;
} // namespace faults

#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
using faults::plan;

static bool ours(int fd) {
  if (!plan.on && !faults::yield) return false;
  struct stat s;
  int e = errno;
  bool r = fstat(fd, &s) == 0 && (S_ISREG(s.st_mode) || (S_ISCHR(s.st_mode) && !isatty(fd)));
  errno = e;
  return r;
}

static bool refuse_write() {
  ++plan.writes;
  if (plan.write_at <= 0) return false;
  if (plan.writes < plan.write_at) return false;
  if (plan.write_n >= 0 && plan.writes >= plan.write_at + plan.write_n) return false;
  if (plan.error != EINTR) ++plan.hits; // an interrupted call is no refusal
  errno = plan.error;
  return true;
}

extern "C" ssize_t write(int fd, const void *b, size_t n) {
  if (!ours(fd)) return syscall(SYS_write, fd, b, n);
  faults::point();
  if (refuse_write()) return -1;
  if (plan.shorten > 0 && n > static_cast<size_t>(plan.shorten)) n = static_cast<size_t>(plan.shorten);
  ssize_t r = syscall(SYS_write, fd, b, n);
  if (r < 0) ++plan.hits;
  return r;
}

extern "C" ssize_t writev(int fd, const struct iovec *v, int c) {
  if (!ours(fd)) return syscall(SYS_writev, fd, v, c);
  faults::point();
  if (refuse_write()) return -1;
  if (plan.shorten > 0) {
    for (int i = 0; i < c; ++i)
      if (v[i].iov_len) {
        size_t n = v[i].iov_len;
        if (n > static_cast<size_t>(plan.shorten)) n = static_cast<size_t>(plan.shorten);
        ssize_t r = syscall(SYS_write, fd, v[i].iov_base, n);
        if (r < 0) ++plan.hits;
        return r;
      }
    return 0;
  }
  ssize_t r = syscall(SYS_writev, fd, v, c);
  if (r < 0) ++plan.hits;
  return r;
}

extern "C" ssize_t read(int fd, void *b, size_t n) {
  if (!ours(fd)) return syscall(SYS_read, fd, b, n);
  faults::point();
  ++plan.reads;
  if (plan.read_at > 0 && plan.reads >= plan.read_at && (plan.read_n < 0 || plan.reads < plan.read_at + plan.read_n)) {
    if (plan.error != EINTR) ++plan.rhits; // an interrupted call is no refusal
    errno = plan.error;
    return -1;
  }
  if (plan.shorten > 0 && n > static_cast<size_t>(plan.shorten)) n = static_cast<size_t>(plan.shorten);
  return syscall(SYS_read, fd, b, n);
}

static bool refuse_memory() {
  if (faults::memory_points) faults::point();
  if (!faults::armed || plan.mem_at <= 0) return false;
  ++plan.asks;
  if (plan.asks < plan.mem_at || (plan.mem_n >= 0 && plan.asks >= plan.mem_at + plan.mem_n)) return false;
  ++plan.rhits;
  errno = ENOMEM;
  return true;
}

extern "C" void *__libc_malloc(size_t);
extern "C" void *__libc_calloc(size_t, size_t);
extern "C" void *__libc_realloc(void *, size_t);
extern "C" void *malloc(size_t n) noexcept { return refuse_memory() ? nullptr : __libc_malloc(n); }
extern "C" void *calloc(size_t a, size_t n) noexcept { return refuse_memory() ? nullptr : __libc_calloc(a, n); }
extern "C" void *realloc(void *p, size_t n) noexcept { return refuse_memory() ? nullptr : __libc_realloc(p, n); }

extern "C" int fclose(FILE *f) {
  typedef int (*fn)(FILE *);
  static fn real = reinterpret_cast<fn>(dlsym(RTLD_NEXT, "fclose"));
  bool fail = plan.on && plan.close_fails && ours(fileno(f)) &&
              ((faults::point(), true));
  int r = real(f);
  if (fail) {
    ++plan.hits;
    errno = EIO;
    return EOF;
  }
  return r;
}
#endif
