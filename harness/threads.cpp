// Usage: threads SCRIPT OUT SCRATCH [as_limit_mb] [cpu_s]
// As driver, with several threads per case.  Command lines are
//   <k> cmd ...      in thread k, concurrently with the other threads
//   <k>! cmd ...     for thread k, before the threads start
//   sched s          the interleaving: a string of thread numbers, used again
//                    and again; a thread goes on at a scheduling point
//                    (allocation, system call, transfer of a test stream,
//                    callback) when it is its turn.  Without: free running.
//   repeat n         the threads run all of their commands n times (the first
//                    round's results count; a later round that differs is an event)
//   races            data races reported so far (only under ThreadSanitizer)
// Paths which begin with '@' are common to all threads.
#include "interp.h"
#include "fault.h"
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <csignal>
#include <cstdlib>
#include <fcntl.h>
#include <filesystem>
#include <mutex>
#include <sys/resource.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

static void wr(int fd, const std::string &s) {
  size_t o = 0;
  while (o < s.size()) {
    ssize_t n = write(fd, s.data() + o, s.size() - o);
    if (n <= 0) _exit(97);
    o += static_cast<size_t>(n);
  }
}

// ------------------------------------------------------------ data races
#if defined(__SANITIZE_THREAD__)
static int race_count = 0;
extern "C" void __tsan_on_report(void *) { __atomic_add_fetch(&race_count, 1, __ATOMIC_RELAXED); }
#else
static int race_count = 0;
#endif

// ------------------------------------------------------------- schedules
struct Turns {
  std::mutex m;
  std::condition_variable cv;
  std::string s;
  size_t at = 0;
  long moves = 0;
  std::vector<bool> done;
  bool any(void) const { for (bool d : done) if (!d) return true; return false; }
  void skip() { // to the turn of a thread which still runs
    for (size_t i = 0; i < s.size() && done[static_cast<size_t>(s[at % s.size()] - '0')]; ++i) ++at;
    if (any() && done[static_cast<size_t>(s[at % s.size()] - '0')]) // none in the schedule: anyone
      for (size_t k = 0; k < done.size(); ++k) if (!done[k]) { s = std::string(1, static_cast<char>('0' + k)); at = 0; break; }
  }
  bool mine(size_t k) const { return static_cast<size_t>(s[at % s.size()] - '0') == k; }
  void wait(std::unique_lock<std::mutex> &l, size_t k) {
    while (!mine(k)) {
      long seen = moves;
      if (cv.wait_for(l, std::chrono::milliseconds(50)) == std::cv_status::timeout && moves == seen) {
        // whoever's turn it is waits for something else: go on without it
        ++at;
        skip();
        ++moves;
        cv.notify_all();
      }
    }
  }
  void pass(size_t k) { // a scheduling point of thread k
    std::unique_lock<std::mutex> l(m);
    ++moves;
    if (mine(k)) { ++at; skip(); if (!mine(k)) cv.notify_all(); }
    wait(l, k);
  }
  void begin(size_t k) { std::unique_lock<std::mutex> l(m); wait(l, k); }
  void end(size_t k) {
    std::unique_lock<std::mutex> l(m);
    done[k] = true;
    ++moves;
    skip();
    cv.notify_all();
  }
};
static Turns turns;
static thread_local size_t self_k = 0;
static thread_local bool inside = false;
static thread_local unsigned long points = 0;
static void turn_point() {
  if (inside) return;
  inside = true;
  ++points;
  int e = errno;
  turns.pass(self_k);
  errno = e;
  inside = false;
}

static int probe_cell = 0; // a data race on purpose, to see that races are reported
static std::string exec(Interp &in, const std::string &c) {
  if (c == "racy") {
    for (int i = 0; i < 100; ++i) { probe_cell = probe_cell + 1; asm volatile("" ::: "memory"); }
    return "{\"r\":\"ok\"}";
  }
  return in.run(c);
}

struct Cmd { size_t line; std::string text; };

int main(int argc, char **argv) {
  if (argc < 4) return 2;
  std::ifstream script(argv[1]);
  int fd = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  std::string scratch = argv[3];
  long as_mb = argc > 4 ? atol(argv[4]) : 0;
  long cpu = argc > 5 ? atol(argv[5]) : 20;
  int devnull = open("/dev/null", O_WRONLY);
  dup2(devnull, 1);
  types();
  faults::memory_points = true;
  std::string line, id;
  std::vector<std::string> cmds;
  size_t caseno = 0;
  auto flush = [&]() {
    if (id.empty()) return;
    wr(fd, "@ " + id + "\n");
    std::string dir = scratch + "/c" + std::to_string(caseno++) + "/";
    std::filesystem::create_directories(dir);
    int p[2];
    if (pipe(p)) _exit(96);
    pid_t pid = fork();
    if (pid == 0) {
      close(p[0]);
      close(fd);
      struct rlimit l;
#if !defined(__SANITIZE_THREAD__)
      if (as_mb > 0) {
        l.rlim_cur = l.rlim_max = static_cast<rlim_t>(as_mb) << 20;
        setrlimit(RLIMIT_AS, &l);
      }
#endif
      l.rlim_cur = static_cast<rlim_t>(cpu);
      l.rlim_max = static_cast<rlim_t>(cpu) + 5;
      setrlimit(RLIMIT_CPU, &l);
      l.rlim_cur = l.rlim_max = 0;
      setrlimit(RLIMIT_CORE, &l);
      alarm(static_cast<unsigned>(cpu * 8));
      std::string log = dir + "stderr";
      int efd = open(log.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
      dup2(efd, 2);
      std::string sched;
      long repeat = 1;
      size_t n = 0;
      std::vector<std::vector<Cmd>> pre, run;
      for (size_t i = 0; i < cmds.size(); ++i) {
        const std::string &c = cmds[i];
        if (c.compare(0, 6, "sched ") == 0) sched = c.substr(6);
        else if (c.compare(0, 7, "repeat ") == 0) repeat = std::stol(c.substr(7));
        else if (c[0] >= '0' && c[0] <= '9') {
          size_t k = static_cast<size_t>(c[0] - '0');
          n = std::max(n, k + 1);
          pre.resize(n);
          run.resize(n);
          if (c[1] == '!') pre[k].push_back({i, c.substr(3)});
          else run[k].push_back({i, c.substr(2)});
        }
      }
      std::vector<std::string> res(cmds.size(), "{\"r\":\"ok\"}");
      std::vector<std::string> texts(cmds.size()), differ(n); // (what the exceptions say)
      std::vector<unsigned long> pts(n);
      {
        std::vector<std::unique_ptr<Interp>> ins(n);
        for (size_t k = 0; k < n; ++k) {
          ins[k].reset(new Interp);
          ins[k]->dir = dir + "t" + std::to_string(k) + "_";
          ins[k]->common = dir + "common_";
          for (auto &c : pre[k]) res[c.line] = ins[k]->run(c.text);
        }
        std::vector<Cmd> *runs = run.data();
        auto round = [&](size_t k, long r) {
          if (r) {
            ins[k].reset(new Interp);
            ins[k]->dir = dir + "t" + std::to_string(k) + "_";
            ins[k]->common = dir + "common_";
            for (auto &c : pre[k]) if (c.text.find("=@") == std::string::npos) ins[k]->run(c.text);
          }
          for (auto &c : runs[k]) {
            ins[k]->what.clear();
            std::string x = exec(*ins[k], c.text);
            if (r == 0) { res[c.line] = std::move(x); texts[c.line] = ins[k]->what; }
            else if ((res[c.line] != x || texts[c.line] != ins[k]->what) && differ[k].empty())
              differ[k] = c.text + " => " + x + " " + ins[k]->what + " (was " + texts[c.line] + ")";
          }
        };
        turns.s = sched;
        turns.done.assign(n, false);
        std::atomic<size_t> ready(0);
        std::vector<std::thread> ts;
        for (size_t k = 0; k < n; ++k)
          ts.emplace_back([&, k]() {
            self_k = k;
            ready.fetch_add(1, std::memory_order_relaxed); // no ordering: it would hide races
            while (ready.load(std::memory_order_relaxed) < n) std::this_thread::yield();
            if (!sched.empty()) {
              turns.begin(k);
              faults::yield = turn_point;
            }
            for (long r = 0; r < repeat; ++r) round(k, r);
            ins[k].reset(); // destructors are part of it
            faults::yield = nullptr;
            pts[k] = points;
            if (!sched.empty()) turns.end(k);
          });
        for (auto &t : ts) t.join();
        for (size_t k = 0; k < n; ++k) { round(k, repeat); ins[k].reset(); } // and alone
      }
      for (size_t i = 0; i < cmds.size(); ++i) {
        const std::string &c = cmds[i];
        if (c == "races") {
          int r = __atomic_load_n(&race_count, __ATOMIC_RELAXED);
          std::string what;
          if (r) { bool o; what = slurp(log, o).substr(0, 3000); }
          std::string d;
          for (auto &x : differ) if (!x.empty()) { d = x; break; }
          unsigned long total = 0;
          for (auto x : pts) total += x;
          res[i] = "{\"r\":\"ok\",\"races\":" + std::to_string(r) + ",\"differ\":" + (d.empty() ? "0" : "1") +
                   ",\"points\":" + std::to_string(total) + ",\"what\":" + bytes_json(what + d.substr(0, 300)) + "}";
        }
      }
      std::string out;
      for (auto &x : res) out += x + "\n";
      wr(p[1], out + "{\"r\":\"end\"}\n");
      _exit(0);
    }
    close(p[1]);
    char buf[1 << 16];
    ssize_t n;
    std::string tail; // (a process may also end, or die under ThreadSanitizer, with status 0)
    while ((n = read(p[0], buf, sizeof buf)) > 0) {
      std::string x(buf, static_cast<size_t>(n));
      wr(fd, x);
      tail += x;
      tail.erase(0, tail.size() - std::min<size_t>(tail.size(), 6));
    }
    bool ended = tail == "end\"}\n";
    close(p[0]);
    int status = 0;
    waitpid(pid, &status, 0);
    if (WIFSIGNALED(status)) {
      int s = WTERMSIG(status);
      bool hang = s == SIGXCPU || s == SIGALRM;
      wr(fd, std::string("{\"r\":\"") + (hang ? "hang" : "crash") + "\",\"sig\":" + std::to_string(s) + "}\n");
    } else if (WEXITSTATUS(status) != 0 || !ended) {
      wr(fd, "{\"r\":\"crash\",\"exit\":" + std::to_string(WEXITSTATUS(status)) + "}\n");
    }
    std::error_code ec;
    std::filesystem::remove_all(dir, ec);
  };
  while (std::getline(script, line)) {
    if (line.empty()) continue;
    if (line.compare(0, 2, "C ") == 0) {
      flush();
      id = line.substr(2);
      cmds.clear();
    } else {
      cmds.push_back(line);
    }
  }
  flush();
  return 0;
}
