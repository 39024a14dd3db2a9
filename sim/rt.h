// internals shared by rt.cc, simio.cc and main.cc
#pragma once
#define NOBODY 65534
#include "sim.h"
#include <pthread.h>
#include <setjmp.h>
#include <stdarg.h>

namespace sim {
  enum { MAXT = 32 };
  enum WaitKind { W_NONE, W_MUTEX, W_RD, W_WR, W_COND, W_FUTEX, W_JOIN, W_ONCE, W_SLEEP, W_QUIESCE, W_CONDDESTROY };

  struct VC {
    uint32_t c[MAXT];
    void join(VC const &o) {
      for (int i = 0; i < MAXT; i++)
        if (o.c[i] > c[i]) c[i] = o.c[i];
    }
  };
  enum St { S_RUN, S_BLOCKED, S_DONE };
  struct Thread {
    int id;
    int go;  // futex word
    St st;
    WaitKind wk;
    const void *wait;
    bool has_dl, dl_real;
    int64_t dl;
    int wake;  // 0 none 1 signalled 2 timeout 3 spurious
    uint64_t nd;  // decisions taken
    uint64_t nextk;  // trace mode
    uint32_t tpos;
    int64_t prio;
    int quiet, in_rt, alloc_faults;
    VC vc, facq, frel;
    bool has_frel;
    pthread_t real;
    bool joined, detached, started;
    void *(*fn)(void *);
    void *arg, *ret;
    uintptr_t stk_lo, stk_hi;
    uintptr_t cs[512];
    int csn;
    int64_t plain_cd;
    uint64_t sync_ops;
  };

  struct Dec {
    uint32_t tid;
    uint32_t kind;
    uint64_t k;
    uint64_t val;
  };
  enum { OUT_NONE, OUT_OK, OUT_VIOLATION, OUT_SIMERR };
  struct Count {
    char name[40];
    uint64_t n;
  };
  struct Shared {
    int outcome;
    char kind[64];
    char msg[16384];
    uint64_t steps, plain, switches, simtime, ihash, hhash, ndec, decisions;
    uint32_t nthreads;
    Count faults[64];
    Count covers[64];
    int nontrivial;
    uint64_t max_heap;
    uint32_t histlen;
    char hist[1 << 18];
    uint64_t ndeclog;
    Dec dec[1 << 20];
  };
  struct RunCfg {
    uint64_t seed;
    bool trace;       // decisions from `in`, otherwise from the seed
    const Dec *in;
    uint64_t nin;
    const Scenario *scen;
    bool verbose;
  };
  extern Shared *sh;
  extern Scenario *scenarios;
  extern __thread Thread *cur __attribute__((tls_model("initial-exec")));
  extern uint64_t g_steps;

  void run_child(RunCfg const &cfg) __attribute__((noreturn));
  void rt_init();

  // for simio
  void point(int kind, const void *addr);
  uint32_t decide_fault(const char *kind, unsigned permille);
  long raw_syscall6(long n, long a, long b, long c, long d, long e, long f);
  void count(Count *tab, const char *name, uint64_t n = 1);
  void violation(const char *kind, const char *fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
  void vviolation(const char *kind, const char *fmt, va_list ap) __attribute__((noreturn));
  void simerr(const char *fmt, ...) __attribute__((noreturn));
  void mem_access(const void *p, size_t n, bool write, uintptr_t pc);
  void *real_sym(const char *name);
  uint64_t fnv(uint64_t h, uint64_t v);
  struct RT {  // runtime section: no instrumentation effects from code called inside
    Thread *t;
    RT() : t(cur) { if (t) t->in_rt++; }
    ~RT() { if (t) t->in_rt--; }
  };
}
