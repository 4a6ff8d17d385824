// Usage: driver SCRIPT OUT SCRATCH [as_limit_mb] [cpu_s]
// Executes each case of SCRIPT ("C <id>" starts one) in a child process and
// appends one line of JSON per command to OUT.  A child that dies leaves a
// "crash" or "hang" result for the command it was executing.
#include "interp.h"
#include <csignal>
#include <cstdlib>
#include <fcntl.h>
#include <filesystem>
#include <iostream>
#include <new>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#ifdef __SANITIZE_ADDRESS__
// the sanitizer's own operator new ends the process when there is not that much memory
void *operator new(std::size_t n) {
  void *p = n > 1900000000u ? nullptr : std::malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void *operator new[](std::size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { std::free(p); }
void operator delete[](void *p) noexcept { std::free(p); }
void operator delete(void *p, std::size_t) noexcept { std::free(p); }
void operator delete[](void *p, std::size_t) noexcept { std::free(p); }
#endif

static void wr(int fd, const std::string &s) {
  size_t o = 0;
  while (o < s.size()) {
    ssize_t n = write(fd, s.data() + o, s.size() - o);
    if (n <= 0) _exit(97);
    o += static_cast<size_t>(n);
  }
}

int main(int argc, char **argv) {
  if (argc < 4) return 2;
  std::ifstream script(argv[1]);
  int fd = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  std::string scratch = argv[3];
  long as_mb = argc > 4 ? atol(argv[4]) : 0;
  long cpu = argc > 5 ? atol(argv[5]) : 20;
  int devnull = open("/dev/null", O_WRONLY);
  dup2(devnull, 1); // the library prints diagnostics
  types();
  std::string line, id;
  std::vector<std::string> cmds;
  size_t caseno = 0;
  int hangs = 0; // after two cases which do not end, the rest is skipped
  auto flush = [&]() {
    if (id.empty()) return;
    wr(fd, "@ " + id + "\n");
    if (hangs >= 2) {
      wr(fd, "{\"r\":\"skipped\"}\n");
      return;
    }
    std::string dir = scratch + "/c" + std::to_string(caseno++) + "/";
    std::filesystem::create_directories(dir);
    // results go through a pipe, so that file size limits do not affect them
    int p[2];
    if (pipe(p)) _exit(96);
    pid_t pid = fork();
    if (pid == 0) {
      close(p[0]);
      close(fd);
      setpgid(0, 0);
      struct rlimit l;
      if (as_mb > 0) {
        l.rlim_cur = l.rlim_max = static_cast<rlim_t>(as_mb) << 20;
        setrlimit(RLIMIT_AS, &l);
      }
      l.rlim_cur = static_cast<rlim_t>(cpu);
      l.rlim_max = static_cast<rlim_t>(cpu) + 5;
      setrlimit(RLIMIT_CPU, &l);
      l.rlim_cur = l.rlim_max = 0;
      setrlimit(RLIMIT_CORE, &l);
      alarm(static_cast<unsigned>(cpu * 6));
      {
        Interp in;
        in.dir = dir;
        if (!cmds.empty() && cmds.back().compare(0, 5, "again") == 0) in.history = new std::vector<std::string>, in.outcomes = new std::vector<std::string>;
        for (auto &c : cmds) wr(p[1], in.run(c) + "\n");
        // destruction of everything that is still alive is part of the case
      }
      wr(p[1], "{\"r\":\"end\"}\n");
      _exit(0);
    }
    close(p[1]);
    char buf[1 << 16];
    ssize_t n;
    std::string tail; // (a process may also end, or die under ThreadSanitizer, with status 0)
    while ((n = read(p[0], buf, sizeof buf)) > 0) {
      std::string x(buf, static_cast<size_t>(n));
      wr(fd, x);
      tail += x;
      tail.erase(0, tail.size() - std::min<size_t>(tail.size(), 6));
    }
    bool ended = tail == "end\"}\n";
    close(p[0]);
    int status = 0;
    waitpid(pid, &status, 0);
    if (WIFSIGNALED(status)) {
      int s = WTERMSIG(status);
      bool hang = s == SIGXCPU || s == SIGALRM;
      hangs += hang;
      wr(fd, std::string("{\"r\":\"") + (hang ? "hang" : "crash") + "\",\"sig\":" + std::to_string(s) + "}\n");
    } else if (WEXITSTATUS(status) != 0 || !ended) {
      wr(fd, "{\"r\":\"crash\",\"exit\":" + std::to_string(WEXITSTATUS(status)) + "}\n");
    }
    std::error_code ec;
    std::filesystem::remove_all(dir, ec);
  };
  while (std::getline(script, line)) {
    if (line.empty()) continue;
    if (line.compare(0, 2, "C ") == 0) {
      flush();
      id = line.substr(2);
      cmds.clear();
    } else {
      cmds.push_back(line);
    }
  }
  flush();
  return 0;
}
