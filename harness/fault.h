// Stand-ins for the system calls behind file streams: they can refuse data,
// count refusals, and let a test schedule threads at every system call.
#pragma once
#include <cstddef>

namespace faults {
// plan of the calling thread; numbers count system calls on regular files
struct Plan {
  bool on = false;        // add "hits" to every result
  long write_at = 0;      // refuse the write_at-th write from now on (0: none) ...
  long write_n = 0;       // ... and that many in all (-1: all later ones as well)
  int error = 0;
  long shorten = 0;       // a write call takes at most so many bytes (0: no limit)
  bool close_fails = false;
  long read_at = 0, read_n = 0;
  long mem_at = 0, mem_n = 0; // the same for requests of memory by the library
  long writes = 0, reads = 0, asks = 0;
  long hits = 0;          // refusals of write calls, also those of the system, and of close
  long rhits = 0;         // refused reads and requests of memory
};
extern thread_local Plan plan;
// requests of memory are those of the library: made while an Arm lives
extern thread_local int armed;
struct Arm {
  Arm() { ++armed; }
  ~Arm() { --armed; }
  Arm(const Arm &) = delete;
  Arm &operator=(const Arm &) = delete;
};
// called before every intercepted system call and every transfer of a test stream
extern thread_local void (*yield)();
inline void point() { if (yield) yield(); }
// is a request of memory such a point?
extern bool memory_points;
} // namespace faults
