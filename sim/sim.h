// Deterministic simulation runtime: API used by the scenarios in /verif/harness.
// The implementation (rt.cc, simio.cc) is compiled WITHOUT -fsanitize=thread, the scenarios (which
// include the headers of /repo) WITH it; the __tsan_* calls land in rt.cc.
#pragma once
#include <cstddef>
#include <cstdint>

namespace sim {

  // ---- decisions (all seeded, all recorded, default 0 = simplest) -------------------------------
  unsigned choose(unsigned n, const char *what);          // workload choice in [0,n)
  bool chance(unsigned permille, const char *what);       // workload coin, default false
  bool fault(const char *kind, unsigned permille = 100);  // inject this fault here?  (counted)
  unsigned fault_pick(const char *kind, unsigned n);      // which variant (not counted, default 0)

  // ---- history and verdict ----------------------------------------------------------------------
  void event(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
  [[noreturn]] void fail(const char *kind, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  // report something listed in the known-findings file under `key` (counted, the run goes on)
  void known(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  void cover(const char *what);  // count that this (rare) situation was reached
  void nontrivial();             // mark the run as having exercised the property's premise

  // ---- environment ------------------------------------------------------------------------------
  uint64_t now();                     // simulated steady time in ns
  int64_t wall_now();                 // simulated realtime in ns
  int64_t wall_peak(uint64_t since);  // the latest time the realtime clock has shown since that steady time
  void clock_jump(int64_t delta_ns);  // step the realtime clock
  uint64_t step();                    // global order stamp (grows with every scheduling point)
  void sleep_ns(uint64_t ns);
  void yield();
  int tid();
  int live_threads();                 // simulated threads (besides the caller) not yet ended
  void wait_quiescent();              // let the others run until none can (blocked or ended)
  bool simulating();
  void terminal(int rows, int cols);  // size of the terminal, 0 columns (the default): there is none
  uint64_t seed();

  struct Options {
    bool thread_create_faults;
    bool spurious;        // spurious wakeups and EINTR of waits
    bool early_timers;    // slow runners: timers may fire while others are runnable
    bool clock_jumps;     // realtime clock steps at any sync point
    bool races;           // report happens-before data races
    bool hang_is_violation;
    uint32_t soft_steps;  // from here: no faults, fair schedule
    uint32_t hard_steps;  // still not done: progress violation
    uint32_t alloc_permille;
  };
  Options &opt();

  // heap-allocation failures are injected only inside this scope of the calling thread
  struct AllocFaults {
    AllocFaults();
    ~AllocFaults();
  };
  // no scheduling points, no race checks, no faults for the calling thread (oracle code)
  struct Quiet {
    Quiet();
    ~Quiet();
  };
  uint64_t heap_live_bytes();

  // ---- scenarios ----------------------------------------------------------------------------------
  struct Scenario {
    const char *name;
    void (*fn)();
    unsigned weight;
    Scenario(const char *n, void (*f)(), unsigned w = 1);
    Scenario *next;
  };

#define SIM_CHECK(cond, kind, ...)                 \
  do {                                             \
    bool ok__;                                     \
    {                                              \
      ok__ = static_cast<bool>(cond);              \
    }                                              \
    if (!ok__) ::sim::fail(kind, __VA_ARGS__);     \
  } while (0)
#define SCENARIO(name, weight)                                          \
  static void scen_##name();                                            \
  static ::sim::Scenario scen_reg_##name{#name, &scen_##name, weight};  \
  static void scen_##name()

  // ---- I/O seam (simio.cc, linked only where used) ------------------------------------------------
  namespace io {
    const char *root();                       // scratch directory of this run; "/" of the code under test is mapped there
    void enable(bool faults);                 // start mapping paths / injecting faults on the calling process
    void faults(bool on);
    int open_fds();                           // descriptors opened through the seam and not closed
    int open_maps();                          // mappings created and not unmapped
    const char *misuse();                     // non-null: a foreign/closed descriptor or mapping was released
    int procs_unreaped();
    void set_fault_rate(const char *call, int permille);  // -1: default
    unsigned faults_injected();               // I/O faults injected so far in this run
    unsigned calls(const char *call);
    void rm_rf_root();
    int host_open(const char *path, int flags, int mode = 0);  // unfaulted, for oracles; path as the code under test sees it
    long host_read_all(const char *path, char *buf, long cap); // -1 when absent
    bool host_exists(const char *path);
    int host_count(const char *dir);          // entries in a directory, -1 absent
    void host_mkdir(const char *path);
    void host_write(const char *path, const char *data, long n);
    void host_unlink(const char *path);
    long host_size(const char *path);         // -1 when absent
    bool host_is_dir(const char *path);
    void host_close(int fd);
    void peer_start(void (*fn)(void *), void *arg);  // another process of the same program (forked, no faults)
    void peer_send(const char *d, long n);
    long peer_recv(char *d, long cap);
    int peer_end();                           // wait status
    char *host_map(const char *path, long n); // somebody else's mapping
  }
}
