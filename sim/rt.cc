// Deterministic simulation runtime: scheduler, clock, memory, synchronisation seam, race/heap oracles.
#include "rt.h"
#include <cxxabi.h>
#include <initializer_list>
#include <dlfcn.h>
#include <errno.h>
#include <exception>
#include <fcntl.h>
#include <linux/futex.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <typeinfo>
#include <ucontext.h>
#include <unistd.h>

#define likely(x) __builtin_expect(!!(x), 1)
#define unlikely(x) __builtin_expect(!!(x), 0)
#define EXPORT extern "C" __attribute__((visibility("default"), used))

namespace sim {
  Shared *sh;
  Scenario *scenarios;
  __thread Thread *cur;
  uint64_t g_steps;
  static Options g_opt;
  static RunCfg g_cfg;
  static bool g_sim;        // a run is in progress
  static bool g_over;       // verdict reached
  static Thread g_thr[MAXT];
  static int g_nthr;
  static int64_t g_mono, g_rtoff;
  enum { NJUMPS = 512 };
  static struct {
    int64_t mono, wall;
  } g_jumps[NJUMPS];  // steps of the realtime clock: when, and what it had shown
  static int g_njumps;
  static void note_jump() {
    if (g_njumps < NJUMPS) g_jumps[g_njumps].mono = g_mono, g_jumps[g_njumps++].wall = g_mono + g_rtoff;
  }
  static bool g_fair;
  static uint64_t g_rng;
  static uint64_t g_ihash, g_hhash, g_plain, g_switches, g_ndec;
  // strategy
  static int g_strat;             // 0 random walk, 1 PCT, 2 delay bounded
  static unsigned g_psync;        // permille of preempting at a sync point
  static int64_t g_plain_mean;    // mean distance between preemptions at plain accesses (0: never)
  static uint64_t g_change[8];
  static int g_nchange;
  static int64_t g_lowprio;
  static unsigned g_fault_scale;  // 0,25,100,300 percent

  long raw_syscall6(long n, long a, long b, long c, long d, long e, long f) {
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
  }
  uint64_t fnv(uint64_t h, uint64_t v) {
    h ^= v;
    h *= 0x9E3779B97F4A7C15ull;
    h ^= h >> 29;
    return h;
  }
  static inline uint64_t rnd() {
    uint64_t z = (g_rng += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  static inline uint64_t rndn(uint64_t n) { return n ? rnd() % n : 0; }
  void *real_sym(const char *name) {
    void *p = dlsym(RTLD_NEXT, name);
    if (!p) {
      static const char m[] = "sim: missing symbol\n";
      raw_syscall6(SYS_write, 2, (long) m, sizeof m - 1, 0, 0, 0);
      raw_syscall6(SYS_exit_group, 99, 0, 0, 0, 0, 0);
    }
    return p;
  }
  void count(Count *tab, const char *name, uint64_t n) {
    for (int i = 0; i < 64; i++) {
      if (!tab[i].name[0]) {
        strncpy(tab[i].name, name, sizeof tab[i].name - 1);
        tab[i].n = n;
        return;
      }
      if (!strncmp(tab[i].name, name, sizeof tab[i].name - 1)) {
        tab[i].n += n;
        return;
      }
    }
  }

  // ------------------------------------------------------------------ heap: bump arena, never reused
  static char *const ARENA = (char *) 0x200000000000ull;
  static const size_t ARENA_SZ = 4ull << 30;
  static unsigned char *const ASHADOW = (unsigned char *) 0x210000000000ull;  // 1 byte per 8
  static char *const STACKS = (char *) 0x220000000000ull;
  static const size_t STACK_SZ = 1 << 20;
  static char *const RTMEM = (char *) 0x230000000000ull;  // runtime's own bump memory
  static size_t g_abrk, g_rtbrk;
  static int g_arena_ready;
  static uint64_t g_live, g_maxlive;
  enum { SH_UNALLOC = 0, SH_OK = 1, SH_FREED = 0xFD, SH_RED = 0xFA };  // 1..8: number of valid bytes+... see below

  static void *fixed_map(void *at, size_t n) {
    long r = raw_syscall6(SYS_mmap, (long) at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (r != (long) at) {
      static const char m[] = "sim: cannot map arena\n";
      raw_syscall6(SYS_write, 2, (long) m, sizeof m - 1, 0, 0, 0);
      raw_syscall6(SYS_exit_group, 99, 0, 0, 0, 0, 0);
    }
    return at;
  }
  static void arena_init() {
    if (g_arena_ready) return;
    g_arena_ready = 1;
    fixed_map(ARENA, ARENA_SZ);
    fixed_map(ASHADOW, ARENA_SZ / 8);
    fixed_map(STACKS, STACK_SZ * (MAXT + 1));
    fixed_map(RTMEM, 8ull << 30);
    g_abrk = 64;
  }
  static void *rt_alloc(size_t n) {
    n = (n + 63) & ~63ull;
    size_t o = __atomic_fetch_add(&g_rtbrk, n, __ATOMIC_RELAXED);
    return RTMEM + o;
  }
  static inline bool in_arena(const void *p) { return (size_t) ((char *) p - ARENA) < ARENA_SZ; }
  struct Hdr {
    uint64_t size;
    uint64_t magic;
  };
  static const uint64_t MAGIC_LIVE = 0x51AB0C0DE51AB0C0ull, MAGIC_FREE = 0xDEADF5EEDEADF5EEull;

  static void *arena_alloc(size_t n, size_t align) {
    arena_init();
    if (align < 16) align = 16;
    if (n > (1ull << 30)) return nullptr;
    size_t need = n + sizeof(Hdr) + 32 + align;
    size_t o = __atomic_fetch_add(&g_abrk, (need + 15) & ~15ull, __ATOMIC_RELAXED);
    if (o + need > ARENA_SZ) return nullptr;
    uintptr_t p = ((uintptr_t) ARENA + o + sizeof(Hdr) + align - 1) & ~(uintptr_t) (align - 1);
    Hdr *h = (Hdr *) p - 1;
    h->size = n;
    h->magic = MAGIC_LIVE;
    unsigned char *s = ASHADOW + ((p - (uintptr_t) ARENA) >> 3);
    size_t full = n >> 3, rest = n & 7;
    for (size_t i = 0; i < full; i++) s[i] = 8;
    if (rest) s[full] = (unsigned char) rest;
    size_t used = full + (rest ? 1 : 0);
    s[used] = SH_RED;
    s[-1] = SH_RED;
    s[-2] = SH_RED;
    __atomic_fetch_add(&g_live, n, __ATOMIC_RELAXED);
    if (g_live > g_maxlive) g_maxlive = g_live;
    return (void *) p;
  }
  static bool inject_alloc_failure() {
    Thread *t = cur;
    if (likely(!t || !t->alloc_faults || t->quiet || t->in_rt)) return false;
    RT rt;
    return decide_fault("alloc", g_opt.alloc_permille) != 0;
  }

  // ------------------------------------------------------------------ verdicts
  static void dump_stack(char *&p, char *e, Thread *t) {
    for (int i = t->csn - 1, k = 0; i >= 0 && k < 14; i--, k++)
      if (i < 512) p += snprintf(p, e - p > 0 ? e - p : 0, " @%lx", (unsigned long) t->cs[i]);
  }
  static void finish(int outcome) {
    g_over = true;
    sh->steps = g_steps;
    sh->plain = g_plain;
    sh->switches = g_switches;
    sh->simtime = (uint64_t) (g_mono - 1000000000000ll);
    sh->ihash = g_ihash;
    sh->hhash = g_hhash;
    sh->decisions = g_ndec;
    sh->nthreads = g_nthr;
    sh->max_heap = g_maxlive;
    sh->outcome = outcome;
    raw_syscall6(SYS_exit_group, outcome == OUT_OK ? 0 : 3, 0, 0, 0, 0, 0);
    for (;;) {}
  }
  void vviolation(const char *kind, const char *fmt, va_list ap) {
    if (g_over) finish(OUT_VIOLATION);
    g_over = true;
    Thread *t = cur;
    if (t) t->in_rt++;
    strncpy(sh->kind, kind, sizeof sh->kind - 1);
    char *p = sh->msg, *e = sh->msg + sizeof sh->msg - 1;
    int n = vsnprintf(p, e - p, fmt, ap);
    p += n < e - p ? n : e - p - 1;
    if (t && e - p > 400) {
      p += snprintf(p, e - p, "\n  in T%d:", t->id);
      dump_stack(p, e - 64, t);
    }
    finish(OUT_VIOLATION);
    __builtin_unreachable();
  }
  void violation(const char *kind, const char *fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    vviolation(kind, fmt, ap);
  }
  void simerr(const char *fmt, ...) {
    if (cur) cur->in_rt++;
    va_list ap;
    va_start(ap, fmt);
    if (sh) {
      strcpy(sh->kind, "sim-error");
      vsnprintf(sh->msg, sizeof sh->msg, fmt, ap);
      finish(OUT_SIMERR);
    }
    vfprintf(stderr, fmt, ap);
    fputc('\n', stderr);
    raw_syscall6(SYS_exit_group, 98, 0, 0, 0, 0, 0);
    for (;;) {}
  }

  // ------------------------------------------------------------------ decisions
  static const Dec *g_tr[MAXT];     // per-thread slices of the trace (sorted by k)
  static uint64_t g_trn[MAXT], g_trp[MAXT];

  // value for decision number k of thread t; gen() only called in record mode
  template<class G>
  static inline uint64_t decide(uint32_t kind, uint64_t n, G gen) {
    Thread *t = cur;
    uint64_t k = t->nd++;
    g_ndec++;
    if (g_cfg.trace) {
      int id = t->id;
      while (g_trp[id] < g_trn[id] && g_tr[id][g_trp[id]].k < k) g_trp[id]++;
      if (g_trp[id] < g_trn[id] && g_tr[id][g_trp[id]].k == k) {
        Dec const &d = g_tr[id][g_trp[id]];
        if (d.kind == kind && d.val < n) {
          if (d.val && sh->ndeclog < sizeof(sh->dec) / sizeof(Dec)) sh->dec[sh->ndeclog++] = d;
          return d.val;
        }
      }
      return 0;
    }
    uint64_t v = gen();
    if (v) {
      if (sh->ndeclog < sizeof(sh->dec) / sizeof(Dec)) sh->dec[sh->ndeclog++] = Dec{(uint32_t) t->id, kind, k, v};
      else simerr("decision log overflow");
    }
    return v;
  }

  // ------------------------------------------------------------------ scheduler core
  static inline int64_t eff_dl(Thread const &t) { return t.dl_real ? t.dl - g_rtoff : t.dl; }
  static void futex_wake(int *w) { raw_syscall6(SYS_futex, (long) w, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0); }
  static void futex_wait(int *w, int v) { raw_syscall6(SYS_futex, (long) w, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, v, 0, 0, 0); }
  static void park(Thread *t) {
    while (!__atomic_load_n(&t->go, __ATOMIC_ACQUIRE)) futex_wait(&t->go, 0);
    __atomic_store_n(&t->go, 0, __ATOMIC_RELAXED);
  }
  static void unpark(Thread *t) {
    __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
    futex_wake(&t->go);
  }
  static void make_runnable(Thread &t, int why) {
    t.st = S_RUN;
    t.wake = why;
    t.wk = W_NONE;
    t.wait = nullptr;
    t.has_dl = false;
  }
  static void expire_timers() {
    for (int i = 0; i < g_nthr; i++) {
      Thread &t = g_thr[i];
      if (t.st == S_BLOCKED && t.has_dl && eff_dl(t) <= g_mono) make_runnable(t, 2);
    }
  }
  static bool earliest(int64_t &dl) {
    bool any = false;
    for (int i = 0; i < g_nthr; i++) {
      Thread &t = g_thr[i];
      if (t.st == S_BLOCKED && t.has_dl) {
        int64_t d = eff_dl(t);
        if (!any || d < dl) dl = d, any = true;
      }
    }
    return any;
  }
  static const char *wk_name(WaitKind k) {
    switch (k) {
      case W_MUTEX: return "mutex";
      case W_RD: return "rwlock(read)";
      case W_WR: return "rwlock(write)";
      case W_COND: return "condition variable";
      case W_FUTEX: return "future/atomic wait";
      case W_JOIN: return "thread join";
      case W_ONCE: return "once/static guard";
      case W_SLEEP: return "sleep";
      case W_QUIESCE: return "quiescence";
      case W_CONDDESTROY: return "destroying a condition variable with waiters";
      default: return "?";
    }
  }
  static void describe_threads(char *buf, size_t n) {
    char *p = buf, *e = buf + n - 100;
    for (int i = 0; i < g_nthr && p < e; i++) {
      Thread &t = g_thr[i];
      if (t.st == S_DONE) continue;
      p += snprintf(p, e - p, "\n  T%d %s%s:", i, t.st == S_BLOCKED ? "waits on " : "runnable", t.st == S_BLOCKED ? wk_name(t.wk) : "");
      if (p < e) dump_stack(p, e, &t);
    }
  }
  static void hang(const char *what) {
    static char b[12000];
    describe_threads(b, sizeof b);
    if (!g_opt.hang_is_violation) simerr("hang outside the property: %s%s", what, b);
    violation("hang", "%s%s", what, b);
  }

  static int pick_default(Thread *me) {
    if (me->st == S_RUN) return me->id;
    for (int i = 0; i < g_nthr; i++)
      if (g_thr[i].st == S_RUN) return i;
    return -1;
  }
  // wake the quiescence waiters when nobody else can run (timers do not count: time is frozen for them)
  static bool wake_quiesce() {
    for (int i = 0; i < g_nthr; i++)
      if (g_thr[i].st == S_BLOCKED && g_thr[i].wk == W_QUIESCE) {
        make_runnable(g_thr[i], 1);
        return true;
      }
    return false;
  }
  static void switch_to(Thread *me, Thread *nx, bool dying = false) {
    if (nx == me) return;
    g_switches++;
    g_ihash = fnv(g_ihash, ((uint64_t) nx->id << 32) | (me->sync_ops & 0xffffff) | ((uint64_t) me->id << 56));
    unpark(nx);
    if (!dying) park(me);
  }
  // choose who runs next.  voluntary: the current thread gives way (yield) or is blocked/done
  static Thread *choose_next(Thread *me, bool voluntary, bool sync) {
    int def = pick_default(me);
    while (def < 0) {
      int64_t dl;
      if (wake_quiesce()) {
      } else if (earliest(dl)) {
        if (dl > g_mono) g_mono = dl;
        expire_timers();
      } else {
        hang("deadlock: every thread waits and no timer is pending");
      }
      def = pick_default(me);
    }
    int run[MAXT], n = 0;
    for (int i = 0; i < g_nthr; i++)
      if (g_thr[i].st == S_RUN) run[n++] = i;
    if (g_fair) {  // deterministic round robin
      int nx = def;
      if (voluntary || sync) {
        for (int d = 1; d <= g_nthr; d++) {
          int c = (me->id + d) % g_nthr;
          if (g_thr[c].st == S_RUN) { nx = c; break; }
        }
      }
      return &g_thr[nx];
    }
    if (n == 1 && run[0] == def) {
      // no alternative; still number the decision so that keys stay aligned with program positions
      me->nd++;
      return &g_thr[def];
    }
    uint64_t v = decide('S', MAXT + 1, [&]() -> uint64_t {
      int pick = def;
      switch (g_strat) {
        case 1: {
          for (int i = 0; i < g_nchange; i++)
            if (g_change[i] && g_steps >= g_change[i]) {
              g_change[i] = 0;
              me->prio = --g_lowprio;
            }
          if (voluntary && me->st == S_RUN) me->prio = --g_lowprio;
          int64_t best = INT64_MIN;
          for (int i = 0; i < n; i++)
            if (g_thr[run[i]].prio > best) best = g_thr[run[i]].prio, pick = run[i];
          if (!sync && rndn(4) == 0) pick = run[rndn(n)];
          break;
        }
        case 2: {
          bool pre = false;
          for (int i = 0; i < g_nchange; i++)
            if (g_change[i] && g_steps >= g_change[i]) g_change[i] = 0, pre = true;
          if (pre || voluntary || !sync) pick = run[rndn(n)];
          break;
        }
        default:
          if (voluntary || !sync || rndn(1000) < g_psync) pick = run[rndn(n)];
      }
      return pick == def ? 0 : (uint64_t) pick + 1;
    });
    if (v && g_thr[v - 1].st == S_RUN && (int) v - 1 < g_nthr) return &g_thr[v - 1];
    return &g_thr[def];
  }

  static void step_checks(Thread *me) {
    g_steps++;
    me->sync_ops++;
    g_mono += 37;
    if (unlikely(!g_fair && g_steps > g_opt.soft_steps)) g_fair = true;
    if (unlikely(g_steps > (uint64_t) g_opt.soft_steps + g_opt.hard_steps)) {
      static char b[12000];
      describe_threads(b, sizeof b);
      if (!g_opt.hang_is_violation) simerr("no progress outside the property%s", b);
      violation("no-progress", "not finished %u fair fault-free steps after step %u%s", g_opt.hard_steps, g_opt.soft_steps, b);
    }
  }
  static void chaos(Thread *me) {  // environment events at sync points
    if (g_fair) return;
    int64_t dl;
    bool tm = g_opt.early_timers && earliest(dl);
    bool wt = false;
    if (g_opt.spurious)
      for (int i = 0; i < g_nthr; i++)
        if (g_thr[i].st == S_BLOCKED && (g_thr[i].wk == W_COND || g_thr[i].wk == W_FUTEX)) wt = true;
    if (tm || wt || g_opt.clock_jumps) {
      uint64_t v = decide('E', 4, [&]() -> uint64_t {
        if (!g_fault_scale) return 0;
        uint64_t r = rndn(100000);
        if (r < 25 * g_fault_scale) return tm ? 1 : 0;
        r -= 25 * g_fault_scale;
        if (r < 12 * g_fault_scale) return wt ? 2 : 0;
        r -= 12 * g_fault_scale;
        if (r < 4 * g_fault_scale) return g_opt.clock_jumps ? 3 : 0;
        return 0;
      });
      if (v == 1 && tm) {
        count(sh->faults, "early-timer(stall)");
        if (dl > g_mono) g_mono = dl;
        g_ihash = fnv(g_ihash, 0xE1);
        expire_timers();
      } else if (v == 2 && wt) {
        int c[MAXT], n = 0;
        for (int i = 0; i < g_nthr; i++)
          if (g_thr[i].st == S_BLOCKED && (g_thr[i].wk == W_COND || g_thr[i].wk == W_FUTEX)) c[n++] = i;
        uint64_t w = decide('W', n, [&] { return rndn(n); });
        count(sh->faults, g_thr[c[w]].wk == W_COND ? "spurious-wakeup" : "futex-EINTR");
        g_ihash = fnv(g_ihash, 0xE2 + w);
        make_runnable(g_thr[c[w]], 3);
      } else if (v == 3 && g_opt.clock_jumps) {
        uint64_t w = decide('J', 8, [&] { return rndn(8); });
        static const int64_t J[8] = {3600000000000ll, -3600000000000ll, 1000000000ll, -1000000000ll, 50000000ll, -50000000ll, 86400000000000ll * 400, -86400000000000ll * 400};
        note_jump();
        g_rtoff += J[w];
        count(sh->faults, J[w] < 0 ? "clock-jump-back" : "clock-jump-forward");
        expire_timers();
      }
    }
    (void) me;
  }
  // a scheduling point before a visible operation
  void point(int kind, const void *) {
    Thread *me = cur;
    if (unlikely(!me || me->quiet || g_over)) return;
    me->in_rt++;
    g_ihash = fnv(g_ihash, (uint64_t) me->id * 131 + kind);
    step_checks(me);
    chaos(me);
    Thread *nx = choose_next(me, kind == 'y', true);
    me->in_rt--;
    switch_to(me, nx);
  }
  static void plain_point() {
    Thread *me = cur;
    me->in_rt++;
    int alive = 0;
    for (int i = 0; i < g_nthr; i++) alive += g_thr[i].st == S_RUN;
    Thread *nx = me;
    if (alive > 1) nx = choose_next(me, false, false);
    me->in_rt--;
    switch_to(me, nx);
  }
  static inline int64_t next_gap() { return g_plain_mean ? 1 + (int64_t) rndn(2 * g_plain_mean) : INT64_MAX; }

  // block the current thread; returns why it was woken
  static int block(WaitKind wk, const void *addr, bool has_dl = false, int64_t dl = 0, bool dl_real = false) {
    Thread *me = cur;
    if (me->quiet) simerr("blocking operation (%s) inside a Quiet section", wk_name(wk));
    me->in_rt++;
    step_checks(me);
    me->st = S_BLOCKED;
    me->wk = wk;
    me->wait = addr;
    me->has_dl = has_dl;
    me->dl = dl;
    me->dl_real = dl_real;
    me->wake = 0;
    if (has_dl) expire_timers();
    if (me->st == S_BLOCKED) {
      Thread *nx = choose_next(me, true, true);
      me->in_rt--;
      switch_to(me, nx);
      me->in_rt++;
    }
    me->in_rt--;
    return me->wake;
  }
  static int wake_all(WaitKind wk, const void *addr) {
    int n = 0;
    for (int i = 0; i < g_nthr; i++)
      if (g_thr[i].st == S_BLOCKED && g_thr[i].wk == wk && g_thr[i].wait == addr) make_runnable(g_thr[i], 1), n++;
    return n;
  }
  static int wake_some(WaitKind wk, const void *addr, int cnt) {
    int woken = 0;
    while (woken < cnt) {
      int c[MAXT], n = 0;
      for (int i = 0; i < g_nthr; i++)
        if (g_thr[i].st == S_BLOCKED && g_thr[i].wk == wk && g_thr[i].wait == addr) c[n++] = i;
      if (!n) break;
      uint64_t w = g_fair || n == 1 ? 0 : decide('N', n, [&] { return rndn(n); });
      make_runnable(g_thr[c[w]], 1);
      woken++;
    }
    return woken;
  }

  // ------------------------------------------------------------------ happens-before
  struct SyncVar {
    const void *addr;
    bool atomic;
    VC sync;
    uint32_t aw[MAXT], ar[MAXT];
    uint32_t apc[MAXT];
  };
  static SyncVar *g_sv[1 << 15];
  static SyncVar *sv(const void *a, bool create = true) {
    uint64_t h = ((uintptr_t) a * 0x9E3779B97F4A7C15ull) >> 49;
    for (unsigned i = 0; i < (1 << 15); i++) {
      SyncVar *&s = g_sv[(h + i) & ((1 << 15) - 1)];
      if (!s) {
        if (!create) return nullptr;
        s = (SyncVar *) rt_alloc(sizeof(SyncVar));
        s->addr = a;
        return s;
      }
      if (s->addr == a) return s;
    }
    simerr("sync variable table full");
  }
  static inline void hb_acquire(Thread *t, const void *a) {
    SyncVar *s = sv(a, false);
    if (s) t->vc.join(s->sync);
  }
  static inline void hb_release(Thread *t, const void *a) {
    sv(a)->sync.join(t->vc);
    t->vc.c[t->id]++;
  }
  struct SP {
    uint32_t w[4096], r[4096], wpc[4096], rpc[4096];
    bool has_atomic;
  };
  static SP *g_sp[1 << 14];
  static uintptr_t g_spk[1 << 14];
  static VC *g_rv;  // pool of read clocks
  static uint32_t g_rvn;
  static SP *sp(uintptr_t page) {
    static uintptr_t lastp;
    static SP *lasts;
    if (page == lastp && lasts) return lasts;
    uint64_t h = (page * 0x9E3779B97F4A7C15ull) >> 50;
    for (unsigned i = 0; i < (1 << 14); i++) {
      unsigned x = (h + i) & ((1 << 14) - 1);
      if (!g_sp[x]) {
        g_sp[x] = (SP *) rt_alloc(sizeof(SP));
        g_spk[x] = page;
      }
      if (g_spk[x] == page) {
        lastp = page;
        lasts = g_sp[x];
        return lasts;
      }
    }
    simerr("shadow page table full");
  }
  static void race(const void *p, size_t n, bool wr, uintptr_t pc, int other, bool owr, uint32_t opc) {
    violation("race", "data race: %s of %zu bytes by T%d at @%lx conflicts with an unsynchronised %s by T%d at @%x", wr ? "write" : "read", n, cur->id,
              (unsigned long) pc, owr ? "write" : "read", other, opc);
    (void) p;
  }
  static void race_check(Thread *t, const void *p, size_t n, bool wr, uintptr_t pc) {
    uintptr_t a = (uintptr_t) p;
    uint32_t me = (uint32_t) t->id, clk = t->vc.c[me], ep = me << 24 | (clk & 0xffffff);
    while (n) {
      SP *s = sp(a >> 12);
      size_t off = a & 4095, m = 4096 - off < n ? 4096 - off : n;
      for (size_t i = off; i < off + m; i++) {
        uint32_t w = s->w[i];
        if (w == ep && (wr || s->r[i] == ep)) {
          if (!wr || !s->r[i] || s->r[i] == ep) continue;
        }
        if (w) {
          uint32_t ot = w >> 24;
          if (ot != me && (w & 0xffffff) > t->vc.c[ot]) race(p, n, wr, pc, ot, true, s->wpc[i]);
        }
        uint32_t r = s->r[i];
        if (wr) {
          if (r & 0x80000000u) {
            VC &v = g_rv[r & 0x7fffffff];
            for (int k = 0; k < g_nthr; k++)
              if (k != (int) me && v.c[k] > t->vc.c[k]) race(p, n, wr, pc, k, false, s->rpc[i]);
          } else if (r) {
            uint32_t ot = r >> 24;
            if (ot != me && (r & 0xffffff) > t->vc.c[ot]) race(p, n, wr, pc, ot, false, s->rpc[i]);
          }
          s->w[i] = ep;
          s->wpc[i] = (uint32_t) pc;
          s->r[i] = 0;
        } else {
          if (r & 0x80000000u)
            g_rv[r & 0x7fffffff].c[me] = clk;
          else if (!r || (r >> 24) == me || (r & 0xffffff) <= t->vc.c[r >> 24])
            s->r[i] = ep;
          else {
            if (!g_rv) g_rv = (VC *) rt_alloc(sizeof(VC) << 20);
            if (g_rvn >= (1 << 20)) simerr("read clock pool full");
            VC &v = g_rv[g_rvn];
            v.c[r >> 24] = r & 0xffffff;
            v.c[me] = clk;
            s->r[i] = 0x80000000u | g_rvn++;
          }
          s->rpc[i] = (uint32_t) pc;
        }
      }
      if (unlikely(s->has_atomic)) {
        for (uintptr_t q = a & ~7ull; q < a + m; q++) {
          SyncVar *v = sv((void *) q, false);
          if (!v || !v->atomic) continue;
          for (int k = 0; k < g_nthr; k++) {
            if (k == (int) me) continue;
            if (q >= a && v->aw[k] > t->vc.c[k]) race(p, n, wr, pc, k, true, v->apc[k]);
            if (wr && q >= a && v->ar[k] > t->vc.c[k]) race(p, n, wr, pc, k, false, v->apc[k]);
          }
        }
      }
      a += m;
      n -= m;
    }
  }
  static inline void heap_check(const void *p, size_t n, bool wr, uintptr_t pc) {
    if (likely(!in_arena(p))) return;
    size_t o = (char *) p - ARENA;
    size_t b = o >> 3, e = (o + n - 1) >> 3;
    for (size_t i = b; i <= e; i++) {
      unsigned char s = ASHADOW[i];
      if (likely(s == 8)) continue;
      if (s >= 1 && s <= 7) {
        size_t end = o + n;
        if (end <= i * 8 + s) continue;
        violation("heap-overflow", "%s of %zu bytes past the end of a heap block at @%lx", wr ? "write" : "read", n, (unsigned long) pc);
      }
      if (s == SH_FREED) violation("use-after-free", "%s of %zu bytes in freed memory at @%lx", wr ? "write" : "read", n, (unsigned long) pc);
      violation("heap-overflow", "%s of %zu bytes outside any heap block at @%lx", wr ? "write" : "read", n, (unsigned long) pc);
    }
  }
  void mem_access(const void *p, size_t n, bool wr, uintptr_t pc) {
    Thread *t = cur;
    if (unlikely(!t || t->quiet || t->in_rt || !n)) return;
    if (unlikely((uintptr_t) p < 4096)) return;  // will fault by itself
    t->in_rt++;
    g_plain++;
    if (unlikely(g_plain > 200000000ull)) {
      if (!g_opt.hang_is_violation) simerr("access bound exceeded");
      violation("no-progress", "no end after 200M memory accesses at @%lx", (unsigned long) pc);
    }
    heap_check(p, n, wr, pc);
    if (g_opt.races && g_nthr > 1) race_check(t, p, n, wr, pc);  // (what happens before the first thread starts is ordered before all it does)
    t->in_rt--;
    if ((uintptr_t) p - t->stk_lo >= t->stk_hi - t->stk_lo) {
      if (g_cfg.trace) {
        // a preemption here is a decision with its own key
        if (!g_fair && g_nthr > 1) plain_point();
      } else if (!g_fair && g_nthr > 1) {
        if (--t->plain_cd <= 0) {
          t->plain_cd = next_gap();
          plain_point();
        } else {
          // keep decision numbering identical to trace mode
          int alive = 0;
          for (int i = 0; i < g_nthr; i++) alive += g_thr[i].st == S_RUN;
          if (alive > 1) t->nd++, g_ndec++;
        }
      }
    }
  }

  uint32_t decide_fault(const char *kind, unsigned permille) {
    Thread *t = cur;
    if (!t || t->quiet || g_fair || !permille) return 0;
    t->in_rt++;
    uint64_t v = decide('F', 2, [&]() -> uint64_t { return rndn(100000) < (uint64_t) permille * g_fault_scale; });
    if (v) {
      count(sh->faults, kind);
      g_ihash = fnv(g_ihash, 0xF0 + kind[0]);
    }
    t->in_rt--;
    return (uint32_t) v;
  }

  // ------------------------------------------------------------------ API
  unsigned choose(unsigned n, const char *) {
    if (n <= 1) return 0;
    RT rt;
    return (unsigned) decide('C', n, [&] { return rndn(n); });
  }
  bool chance(unsigned permille, const char *) {
    RT rt;
    return decide('C', 2, [&]() -> uint64_t { return rndn(1000) < permille; }) != 0;
  }
  bool fault(const char *kind, unsigned permille) { return decide_fault(kind, permille) != 0; }
  unsigned fault_pick(const char *, unsigned n) {
    if (n <= 1 || g_fair) return 0;
    RT rt;
    return (unsigned) decide('V', n, [&] { return rndn(n); });
  }
  void event(const char *fmt, ...) {
    RT rt;
    char b[512];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if (n > (int) sizeof b - 1) n = sizeof b - 1;
    uint64_t h = g_hhash;
    for (int i = 0; i < n; i++) h = fnv(h, (unsigned char) b[i]);
    h = fnv(h, cur ? cur->id : 99);
    g_hhash = h;
    if (sh->histlen + n + 40 < sizeof sh->hist)
      sh->histlen += snprintf(sh->hist + sh->histlen, n + 40, "%llu T%d %s\n", (unsigned long long) g_steps, cur ? cur->id : -1, b);
  }
  void fail(const char *kind, const char *fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    vviolation(kind, fmt, ap);
  }
  void known(const char *key, const char *fmt, ...) {
    RT rt;
    char b[64];
    snprintf(b, sizeof b, "known:%s", key);
    count(sh->covers, b);
    (void) fmt;
  }
  void cover(const char *w) {
    RT rt;
    count(sh->covers, w);
  }
  void nontrivial() { sh->nontrivial = 1; }
  uint64_t now() { return (uint64_t) g_mono; }
  int64_t wall_now() { return g_mono + g_rtoff; }
  int64_t wall_peak(uint64_t since) {
    int64_t p = wall_now();
    for (int i = 0; i < g_njumps; i++)
      if (g_jumps[i].mono >= (int64_t) since && g_jumps[i].wall > p) p = g_jumps[i].wall;
    return g_njumps == NJUMPS ? INT64_MAX : p;
  }
  void clock_jump(int64_t d) {
    note_jump();
    g_rtoff += d;
    count(sh->faults, d < 0 ? "clock-jump-back" : "clock-jump-forward");
    expire_timers();
  }
  uint64_t step() { return g_steps; }
  void sleep_ns(uint64_t ns) {
    if (!cur) return;
    block(W_SLEEP, nullptr, true, g_mono + (int64_t) ns);
  }
  void yield() { point('y', nullptr); }
  int tid() { return cur ? cur->id : -1; }
  int live_threads() {
    int n = 0;
    for (int i = 0; i < g_nthr; i++) n += &g_thr[i] != cur && g_thr[i].st != S_DONE;
    return n;
  }
  void wait_quiescent() { block(W_QUIESCE, nullptr); }
  bool simulating() { return cur != nullptr; }
  uint64_t seed() { return g_cfg.seed; }
  Options &opt() { return g_opt; }
  AllocFaults::AllocFaults() { if (cur) cur->alloc_faults++; }
  AllocFaults::~AllocFaults() { if (cur) cur->alloc_faults--; }
  Quiet::Quiet() { if (cur) cur->quiet++; }
  Quiet::~Quiet() { if (cur) cur->quiet--; }
  uint64_t heap_live_bytes() { return g_live; }
  Scenario::Scenario(const char *n, void (*f)(), unsigned w) : name(n), fn(f), weight(w), next(nullptr) {
    Scenario **p = &scenarios;
    while (*p && strcmp((*p)->name, n) < 0) p = &(*p)->next;
    next = *p;
    *p = this;
  }

  // ------------------------------------------------------------------ threads
  static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*) (void *), void *);
  static int (*real_join)(pthread_t, void **);
  static int (*real_detach)(pthread_t);

  static Thread *new_thread() {
    if (g_nthr >= MAXT) simerr("too many threads");
    Thread *t = &g_thr[g_nthr];
    t->id = g_nthr++;
    t->st = S_RUN;
    t->stk_lo = (uintptr_t) STACKS + STACK_SZ * t->id;
    t->stk_hi = t->stk_lo + STACK_SZ;
    t->prio = 1000 + (int64_t) rndn(1000000);
    t->plain_cd = next_gap();
    return t;
  }
  static void thread_done(Thread *t) {
    t->in_rt++;
    hb_release(t, &t->started);
    g_ihash = fnv(g_ihash, 0xD0 + t->id);
    step_checks(t);
    t->st = S_DONE;
    wake_all(W_JOIN, t);
    bool any = false;
    for (int i = 0; i < g_nthr; i++) any |= g_thr[i].st != S_DONE;
    if (!any) simerr("all threads ended");
    Thread *nx = choose_next(t, true, true);
    cur = nullptr;
    switch_to(t, nx, true);
  }
  static void set_altstack() {
    stack_t ss{};
    ss.ss_sp = rt_alloc(65536);
    ss.ss_size = 65536;
    sigaltstack(&ss, nullptr);
  }
  struct ExitException {};
  static void *tramp(void *p) {
    Thread *t = (Thread *) p;
    set_altstack();
    park(t);
    cur = t;
    t->ret = t->fn(t->arg);
    thread_done(t);
    return t->ret;
  }
  static int start_real(Thread *t, int detach) {
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstack(&a, (void *) t->stk_lo, STACK_SZ);
    if (detach) pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED);
    int r = real_create(&t->real, &a, tramp, t);
    pthread_attr_destroy(&a);
    return r;
  }

  // ------------------------------------------------------------------ run control
  static void on_signal(int sig, siginfo_t *si, void *) {
    Thread *t = cur;
    if (t) t->in_rt++;
    if (g_over) {
      raw_syscall6(SYS_exit_group, 4, 0, 0, 0, 0, 0);
    }
    violation("crash", "signal %d (%s)%s", sig, sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" : "?",
              sig == SIGSEGV && si && (uintptr_t) si->si_addr < 65536 ? " near null" : "");
  }
  static void on_terminate() {
    Thread *t = cur;
    if (t) t->in_rt++;
    char b[600] = "";
    if (std::type_info *ti = abi::__cxa_current_exception_type()) {
      snprintf(b, sizeof b, " with uncaught %s", ti->name());
      try {
        throw;
      } catch (std::exception const &e) {
        size_t l = strlen(b);
        snprintf(b + l, sizeof b - l, ": %s", e.what());
      } catch (...) {
      }
    }
    violation("terminate", "std::terminate called%s", b);
  }
  static void *scen_main(void *) {
    g_cfg.scen->fn();
    finish(OUT_OK);
    return nullptr;
  }
  void run_child(RunCfg const &cfg) {
    g_cfg = cfg;
    g_rng = cfg.seed * 0x9E3779B97F4A7C15ull + 0x1234567;
    rnd();
    g_mono = 1000000000000ll;
    g_rtoff = 1704164645ll * 1000000000ll - g_mono;  // 2024-01-02 03:04:05 UTC
    g_steps = g_plain = g_switches = g_ndec = 0;
    g_live = g_maxlive = 0;
    g_opt = Options{};
    g_opt.soft_steps = 20000;
    g_opt.hard_steps = 60000;
    g_opt.races = true;
    g_opt.spurious = true;
    g_opt.early_timers = true;
    g_opt.hang_is_violation = true;
    g_opt.alloc_permille = 20;
    sh->outcome = OUT_NONE;
    sh->kind[0] = 0;
    sh->msg[0] = 0;
    sh->histlen = 0;
    sh->ndeclog = 0;
    sh->nontrivial = 0;
    memset(sh->faults, 0, sizeof sh->faults);
    memset(sh->covers, 0, sizeof sh->covers);
    // strategy
    uint64_t s = rndn(10);
    g_strat = s < 5 ? 0 : s < 8 ? 1 : 2;
    static const unsigned PS[] = {100, 300, 500, 800};
    g_psync = PS[rndn(4)];
    static const int64_t PM[] = {0, 0, 6, 25, 100, 400, 2000};
    g_plain_mean = PM[rndn(7)];
    g_nchange = 1 + (int) rndn(4);
    uint64_t span = 20ull << rndn(7);
    for (int i = 0; i < g_nchange; i++) g_change[i] = 1 + rndn(span);
    static const unsigned FS[] = {0, 0, 40, 100, 100, 250};
    g_fault_scale = FS[rndn(6)];
    if (cfg.trace) {
      uint64_t i = 0;
      // `in` is sorted by (tid,k)
      for (int t = 0; t < MAXT; t++) {
        g_tr[t] = cfg.in + i;
        uint64_t b = i;
        while (i < cfg.nin && (int) cfg.in[i].tid == t) i++;
        g_trn[t] = i - b;
        g_trp[t] = 0;
      }
    }
    struct sigaction sa{};
    sa.sa_sigaction = on_signal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int sg: {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) sigaction(sg, &sa, nullptr);
    signal(SIGPIPE, SIG_IGN);
    std::set_terminate(on_terminate);
    if (!cfg.verbose) {
      int fd = open("/dev/null", O_RDWR);
      dup2(fd, 0);
      dup2(fd, 1);
      dup2(fd, 2);
      if (fd > 2) raw_syscall6(SYS_close, fd, 0, 0, 0, 0, 0);
    }
    Thread *t = new_thread();
    t->vc.c[0] = 1;
    t->started = true;
    t->fn = scen_main;
    g_sim = true;
    if (start_real(t, 0)) simerr("cannot start main thread");
    unpark(t);
    for (;;) raw_syscall6(SYS_pause, 0, 0, 0, 0, 0, 0);
  }
  void rt_init() {
    arena_init();
    real_create = (decltype(real_create)) real_sym("pthread_create");
    real_join = (decltype(real_join)) real_sym("pthread_join");
    real_detach = (decltype(real_detach)) real_sym("pthread_detach");
  }
}  // namespace sim

using namespace sim;

// ==================================================================== the terminal
// its size is what the scenario says
static int g_rows, g_cols;
void sim::terminal(int rows, int cols) { g_rows = rows, g_cols = cols; }
EXPORT int ioctl(int fd, unsigned long req, ...) {
  va_list ap;
  va_start(ap, req);
  void *p = va_arg(ap, void *);
  va_end(ap);
  if (req == TIOCGWINSZ && sim::simulating()) {
    if (fd > 2 || g_cols <= 0) {
      errno = ENOTTY;
      return -1;
    }
    auto *w = static_cast<struct winsize *>(p);
    *w = {};
    w->ws_row = (unsigned short) g_rows;
    w->ws_col = (unsigned short) g_cols;
    return 0;
  }
  long const r = sim::raw_syscall6(SYS_ioctl, fd, (long) req, (long) p, 0, 0, 0);
  if (r < 0) {
    errno = (int) -r;
    return -1;
  }
  return (int) r;
}

// ==================================================================== memory functions
EXPORT void *malloc(size_t n) {
  if (unlikely(inject_alloc_failure())) {
    errno = ENOMEM;
    return nullptr;
  }
  return arena_alloc(n, 16);
}
EXPORT void free(void *p) {
  if (!p || !in_arena(p)) return;
  Hdr *h = (Hdr *) p - 1;
  if (h->magic != MAGIC_LIVE) {
    if (cur) violation(h->magic == MAGIC_FREE ? "double-free" : "bad-free", "%s at @%lx", h->magic == MAGIC_FREE ? "block freed twice" : "free of an address that is no heap block", (unsigned long) __builtin_return_address(0));
    return;
  }
  size_t n = h->size;
  Thread *t = cur;
  if (t && !t->in_rt && !t->quiet && g_opt.races && g_nthr > 1 && n) {
    t->in_rt++;
    race_check(t, p, n < 512 ? n : 512, true, (uintptr_t) __builtin_return_address(0));
    t->in_rt--;
  }
  h->magic = MAGIC_FREE;
  __atomic_fetch_sub(&g_live, n, __ATOMIC_RELAXED);
  if (cur) {
    unsigned char *s = ASHADOW + (((char *) p - ARENA) >> 3);
    for (size_t i = 0; i < (n + 7) / 8; i++) s[i] = SH_FREED;
  }
}
EXPORT void *calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) return nullptr;
  return malloc(n);  // arena memory is fresh: zero
}
EXPORT void *realloc(void *p, size_t n) {
  if (!p) return malloc(n);
  if (!n) {
    free(p);
    return nullptr;
  }
  void *q = malloc(n);
  if (!q) return nullptr;
  size_t o = in_arena(p) ? ((Hdr *) p - 1)->size : 0;
  char *d = (char *) q, *s = (char *) p;
  size_t m = o < n ? o : n;
  __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(m)::"memory");
  free(p);
  return q;
}
EXPORT int posix_memalign(void **out, size_t al, size_t n) {
  if (inject_alloc_failure()) return ENOMEM;
  *out = arena_alloc(n, al);
  return *out ? 0 : ENOMEM;
}
EXPORT void *aligned_alloc(size_t al, size_t n) { return arena_alloc(n, al); }
EXPORT void *memalign(size_t al, size_t n) { return arena_alloc(n, al); }
EXPORT size_t malloc_usable_size(void *p) { return p && in_arena(p) ? ((Hdr *) p - 1)->size : 0; }

extern "C" char __executable_start, etext;
static inline bool from_exe(void *ra) { return (char *) ra >= &__executable_start && (char *) ra < &etext; }
static inline void rng_access(const void *p, size_t n, bool w, void *ra) {
  Thread *t = cur;
  if (likely(!t || t->in_rt || t->quiet || !n || !from_exe(ra))) return;
  mem_access(p, n, w, (uintptr_t) ra);
}
EXPORT void *memcpy(void *__restrict d, const void *__restrict s, size_t n) {
  rng_access(s, n, false, __builtin_return_address(0));
  rng_access(d, n, true, __builtin_return_address(0));
  void *r = d;
  __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory");
  return r;
}
EXPORT void *memmove(void *d, const void *s, size_t n) {
  rng_access(s, n, false, __builtin_return_address(0));
  rng_access(d, n, true, __builtin_return_address(0));
  void *r = d;
  if ((char *) d > (char *) s && (char *) d < (char *) s + n) {
    char *dd = (char *) d + n - 1;
    const char *ss = (const char *) s + n - 1;
    __asm__ volatile("std\n rep movsb\n cld" : "+D"(dd), "+S"(ss), "+c"(n)::"memory");
  } else
    __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory");
  return r;
}
EXPORT void *memset(void *d, int c, size_t n) {
  rng_access(d, n, true, __builtin_return_address(0));
  void *r = d;
  __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
  return r;
}

// ==================================================================== instrumentation ABI
#define PC ((uintptr_t) __builtin_return_address(0))
EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void *pc) {
  Thread *t = cur;
  if (likely(t != nullptr)) {
    if (t->csn < 512) t->cs[t->csn] = (uintptr_t) pc;
    t->csn++;
  }
}
EXPORT void __tsan_func_exit() {
  Thread *t = cur;
  if (likely(t && t->csn > 0)) t->csn--;
}
// single-threaded, valid: nothing more to look at
static inline bool plainly_fine(const void *p, size_t n) {
  if (g_nthr != 1 || (uintptr_t) p < 4096) return false;
  if (in_arena(p)) {
    size_t o = (char *) p - ARENA;
    if ((o & 7) + n > 8 || ASHADOW[o >> 3] != 8) return false;
  }
  Thread *t = cur;
  if (!t || t->quiet || t->in_rt) return false;
  return ++g_plain < 200000000ull;
}
#define RW(N)                                                                                   \
  EXPORT void __tsan_read##N(void *p) { if (unlikely(!plainly_fine(p, N))) mem_access(p, N, false, PC); } \
  EXPORT void __tsan_write##N(void *p) { if (unlikely(!plainly_fine(p, N))) mem_access(p, N, true, PC); } \
  EXPORT void __tsan_unaligned_read##N(void *p) { mem_access(p, N, false, PC); }                \
  EXPORT void __tsan_unaligned_write##N(void *p) { mem_access(p, N, true, PC); }                \
  EXPORT void __tsan_volatile_read##N(void *p) { mem_access(p, N, false, PC); }                 \
  EXPORT void __tsan_volatile_write##N(void *p) { mem_access(p, N, true, PC); }                 \
  EXPORT void __tsan_read_write##N(void *p) { mem_access(p, N, false, PC), mem_access(p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_read_range(void *p, size_t n) { mem_access(p, n, false, PC); }
EXPORT void __tsan_write_range(void *p, size_t n) { mem_access(p, n, true, PC); }
EXPORT void __tsan_vptr_update(void **p, void *v) {
  if (*p != v) mem_access(p, 8, true, PC);
}
EXPORT void __tsan_vptr_read(void **p) { mem_access(p, 8, false, PC); }

static inline bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

// mode: 1 read 2 write 3 rmw
static void atomic_hb(Thread *t, const void *p, size_t n, int mode, int mo, uintptr_t pc) {
  t->in_rt++;
  heap_check(p, n, mode & 2, pc);
  SyncVar *s = sv(p);
  if (g_opt.races) {
    // against plain accesses
    uintptr_t a = (uintptr_t) p;
    SP *g = sp(a >> 12);
    g->has_atomic = true;
    size_t off = a & 4095;
    for (size_t i = off; i < off + n && i < 4096; i++) {
      uint32_t w = g->w[i];
      uint32_t ot = w >> 24;
      if (w && ot != (uint32_t) t->id && (w & 0xffffff) > t->vc.c[ot]) race(p, n, mode & 2, pc, ot, true, g->wpc[i]);
      if (mode & 2) {
        uint32_t r = g->r[i];
        if (r & 0x80000000u) {
          VC &v = g_rv[r & 0x7fffffff];
          for (int k = 0; k < g_nthr; k++)
            if (k != t->id && v.c[k] > t->vc.c[k]) race(p, n, true, pc, k, false, g->rpc[i]);
        } else if (r && (r >> 24) != (uint32_t) t->id && (r & 0xffffff) > t->vc.c[r >> 24])
          race(p, n, true, pc, r >> 24, false, g->rpc[i]);
      }
    }
    s->atomic = true;
    if (mode & 1) s->ar[t->id] = t->vc.c[t->id];
    if (mode & 2) s->aw[t->id] = t->vc.c[t->id];
    s->apc[t->id] = (uint32_t) pc;
  }
  if (mode & 1) {
    if (is_acq(mo)) t->vc.join(s->sync);
    else t->facq.join(s->sync);
  }
  if (mode & 2) {
    if (is_rel(mo)) {
      if (mode == 2) s->sync = t->vc;
      else s->sync.join(t->vc);
      t->vc.c[t->id]++;
    } else if (mode == 2) {
      if (t->has_frel) s->sync = t->frel;
      else memset(&s->sync, 0, sizeof(VC));
    } else if (t->has_frel)
      s->sync.join(t->frel);
  }
  t->in_rt--;
}
static inline Thread *at_pre(const void *p) {
  Thread *t = cur;
  if (likely(t && !t->quiet && !t->in_rt)) {
    point('a', p);
    return t;
  }
  return nullptr;
}
typedef unsigned char a8;
typedef unsigned short a16;
typedef unsigned int a32;
typedef unsigned long long a64;
typedef __int128 a128;
#define ATOMICS(T, N)                                                                                               \
  EXPORT T __tsan_atomic##N##_load(const volatile T *p, int mo) {                                                   \
    Thread *t = at_pre((void *) p);                                                                                 \
    if (t) atomic_hb(t, (void *) p, sizeof(T), 1, mo, PC);                                                          \
    return *p;                                                                                                      \
  }                                                                                                                 \
  EXPORT void __tsan_atomic##N##_store(volatile T *p, T v, int mo) {                                                \
    Thread *t = at_pre((void *) p);                                                                                 \
    if (t) atomic_hb(t, (void *) p, sizeof(T), 2, mo, PC);                                                          \
    *p = v;                                                                                                         \
  }                                                                                                                 \
  RMW(T, N, exchange, v) RMW(T, N, fetch_add, o + v) RMW(T, N, fetch_sub, o - v) RMW(T, N, fetch_and, o &v)         \
      RMW(T, N, fetch_or, o | v) RMW(T, N, fetch_xor, o ^ v) RMW(T, N, fetch_nand, ~(o & v))                        \
  EXPORT int __tsan_atomic##N##_compare_exchange_strong(volatile T *p, T *c, T v, int mo, int fmo) {                \
    Thread *t = at_pre((void *) p);                                                                                 \
    T o = *p;                                                                                                       \
    bool ok = o == *c;                                                                                              \
    if (t) atomic_hb(t, (void *) p, sizeof(T), ok ? 3 : 1, ok ? mo : fmo, PC);                                      \
    if (ok) *p = v;                                                                                                 \
    else *c = o;                                                                                                    \
    return ok;                                                                                                      \
  }                                                                                                                 \
  EXPORT int __tsan_atomic##N##_compare_exchange_weak(volatile T *p, T *c, T v, int mo, int fmo) {                  \
    Thread *t = at_pre((void *) p);                                                                                 \
    T o = *p;                                                                                                       \
    bool ok = o == *c;                                                                                              \
    if (ok && t && decide_fault("cas-weak-fail", 10)) ok = false;                                                   \
    if (t) atomic_hb(t, (void *) p, sizeof(T), ok ? 3 : 1, ok ? mo : fmo, PC);                                      \
    if (ok) *p = v;                                                                                                 \
    else *c = o;                                                                                                    \
    return ok;                                                                                                      \
  }                                                                                                                 \
  EXPORT T __tsan_atomic##N##_compare_exchange_val(volatile T *p, T c, T v, int mo, int fmo) {                      \
    Thread *t = at_pre((void *) p);                                                                                 \
    T o = *p;                                                                                                       \
    bool ok = o == c;                                                                                               \
    if (t) atomic_hb(t, (void *) p, sizeof(T), ok ? 3 : 1, ok ? mo : fmo, PC);                                      \
    if (ok) *p = v;                                                                                                 \
    return o;                                                                                                       \
  }
#define RMW(T, N, NAME, EXPR)                                              \
  EXPORT T __tsan_atomic##N##_##NAME(volatile T *p, T v, int mo) {         \
    Thread *t = at_pre((void *) p);                                        \
    if (t) atomic_hb(t, (void *) p, sizeof(T), 3, mo, PC);                 \
    T o = *p;                                                              \
    *p = (T) (EXPR);                                                       \
    return o;                                                              \
  }
ATOMICS(a8, 8) ATOMICS(a16, 16) ATOMICS(a32, 32) ATOMICS(a64, 64) ATOMICS(a128, 128)
EXPORT void __tsan_atomic_thread_fence(int mo) {
  Thread *t = cur;
  if (!t || t->quiet) return;
  if (is_acq(mo)) t->vc.join(t->facq);
  if (is_rel(mo)) {
    t->frel = t->vc;
    t->has_frel = true;
    t->vc.c[t->id]++;
  }
}
EXPORT void __tsan_atomic_signal_fence(int) {}

// ==================================================================== pthread seam
static inline bool on() { return cur && !g_over; }

EXPORT int pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
  if (!on()) {
    if (!real_create) real_create = (decltype(real_create)) real_sym("pthread_create");
    return real_create(out, attr, fn, arg);
  }
  point('c', nullptr);
  if (g_opt.thread_create_faults && decide_fault("pthread_create-EAGAIN", 120)) return EAGAIN;
  RT rt;
  Thread *me = cur, *t = new_thread();
  int det = 0;
  if (attr) pthread_attr_getdetachstate(attr, &det);
  t->fn = fn;
  t->arg = arg;
  t->vc = me->vc;
  t->vc.c[t->id] = 1;
  me->vc.c[me->id]++;
  t->detached = det == PTHREAD_CREATE_DETACHED;
  if (start_real(t, t->detached)) simerr("real pthread_create failed");
  *out = t->real;
  me->in_rt--;
  point('C', nullptr);
  me->in_rt++;
  return 0;
}
static Thread *by_real(pthread_t p) {
  for (int i = g_nthr - 1; i >= 0; i--)
    if (g_thr[i].real == p) return &g_thr[i];
  return nullptr;
}
EXPORT int pthread_join(pthread_t p, void **ret) {
  if (!on()) return real_join ? real_join(p, ret) : 0;
  point('j', nullptr);
  Thread *t = by_real(p);
  if (!t || t->detached || t->joined) return ESRCH;
  if (t == cur) return EDEADLK;
  while (t->st != S_DONE) block(W_JOIN, t);
  t->joined = true;
  if (ret) *ret = t->ret;
  RT rt;
  cur->vc.join(t->vc);
  hb_acquire(cur, &t->started);
  Thread *me = cur;
  real_join(p, nullptr);  // the OS thread has left the simulation; only its exit code remains
  cur = me;
  return 0;
}
EXPORT int pthread_detach(pthread_t p) {
  if (!on()) return real_detach ? real_detach(p) : 0;
  Thread *t = by_real(p);
  if (!t) return ESRCH;
  t->detached = true;
  return real_detach(p);
}

struct MX { int owner; unsigned cnt; };  // overlay of pthread_mutex_t's first 8 bytes; zero = unlocked
static inline int mx_kind(pthread_mutex_t *m) { return m->__data.__kind & 3; }
static void mx_take(pthread_mutex_t *m, Thread *t) {
  MX *x = (MX *) m;
  x->owner = t->id + 1;
  x->cnt = 1;
  t->in_rt++;
  hb_acquire(t, m);
  t->in_rt--;
}
static void mx_lock_slow(pthread_mutex_t *m) {
  MX *x = (MX *) m;
  Thread *t = cur;
  while (x->owner) block(W_MUTEX, m);
  mx_take(m, t);
}
EXPORT int pthread_mutex_lock(pthread_mutex_t *m) {
  if (!on()) return 0;
  Thread *t = cur;
  MX *x = (MX *) m;
  point('l', m);
  if (t->quiet) {
    if (x->owner && x->owner != t->id + 1) simerr("mutex contended inside Quiet");
    x->owner = t->id + 1;
    x->cnt++;
    return 0;
  }
  { RT rt; heap_check(m, 8, true, PC); }
  if (x->owner == t->id + 1) {
    int k = mx_kind(m);
    if (k == PTHREAD_MUTEX_RECURSIVE) {
      x->cnt++;
      return 0;
    }
    if (k == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
  }
  mx_lock_slow(m);
  return 0;
}
EXPORT int pthread_mutex_trylock(pthread_mutex_t *m) {
  if (!on()) return 0;
  point('t', m);
  MX *x = (MX *) m;
  if (x->owner) {
    if (x->owner == cur->id + 1 && mx_kind(m) == PTHREAD_MUTEX_RECURSIVE) {
      x->cnt++;
      return 0;
    }
    return EBUSY;
  }
  mx_take(m, cur);
  return 0;
}
static int mx_timed(pthread_mutex_t *m, const struct timespec *ts, bool real) {
  point('l', m);
  MX *x = (MX *) m;
  int64_t dl = ts->tv_sec * 1000000000ll + ts->tv_nsec;
  while (x->owner)
    if (block(W_MUTEX, m, true, dl, real) == 2 && x->owner) return ETIMEDOUT;
  mx_take(m, cur);
  return 0;
}
EXPORT int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) { return on() ? mx_timed(m, ts, true) : 0; }
EXPORT int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const struct timespec *ts) { return on() ? mx_timed(m, ts, c == CLOCK_REALTIME) : 0; }
static void mx_unlock(pthread_mutex_t *m) {
  MX *x = (MX *) m;
  Thread *t = cur;
  t->in_rt++;
  hb_release(t, m);
  x->owner = 0;
  x->cnt = 0;
  wake_all(W_MUTEX, m);
  t->in_rt--;
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!on()) return 0;
  Thread *t = cur;
  MX *x = (MX *) m;
  if (t->quiet) {
    if (x->cnt) x->cnt--;
    if (!x->cnt) x->owner = 0;
    return 0;
  }
  if (x->owner != t->id + 1) violation("bad-unlock", "T%d unlocks a mutex it does not hold at @%lx", t->id, (unsigned long) PC);
  if (mx_kind(m) == PTHREAD_MUTEX_RECURSIVE && --x->cnt) return 0;
  mx_unlock(m);
  point('u', m);
  return 0;
}
EXPORT int pthread_mutex_destroy(pthread_mutex_t *) { return 0; }

static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, bool has_dl, int64_t dl, bool real) {
  Thread *t = cur;
  if (dl >= INT64_MAX / 2) has_dl = false;  // beyond any simulated time
  point('w', c);
  MX *x = (MX *) m;
  if (x->owner != t->id + 1) violation("bad-wait", "condition wait without holding the mutex at @%lx", (unsigned long) PC);
  { RT rt; heap_check(c, 8, true, PC); }
  unsigned saved = x->cnt;
  mx_unlock(m);
  int why = block(W_COND, c, has_dl, dl, real);
  { RT rt; wake_all(W_CONDDESTROY, c); }
  mx_lock_slow(m);
  x->cnt = saved;
  return why == 2 ? ETIMEDOUT : 0;
}
EXPORT int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  if (!on()) simerr("cond_wait outside simulation");
  return cond_wait(c, m, false, 0, false);
}
static int64_t ts2ns(const struct timespec *ts) {
  __int128 v = (__int128) ts->tv_sec * 1000000000 + ts->tv_nsec;
  if (v > INT64_MAX / 2) v = INT64_MAX / 2;
  if (v < INT64_MIN / 2) v = INT64_MIN / 2;
  return (int64_t) v;
}
EXPORT int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
  if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) return EINVAL;
  return cond_wait(c, m, true, ts2ns(ts), true);
}
EXPORT int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t clk, const struct timespec *ts) {
  if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) return EINVAL;
  return cond_wait(c, m, true, ts2ns(ts), clk == CLOCK_REALTIME);
}
EXPORT int pthread_cond_signal(pthread_cond_t *c) {
  if (!on()) return 0;
  if (cur->quiet) { RT rt; wake_all(W_COND, c); return 0; }
  point('s', c);
  RT rt;
  heap_check(c, 8, true, PC);
  wake_some(W_COND, c, 1);
  return 0;
}
EXPORT int pthread_cond_broadcast(pthread_cond_t *c) {
  if (!on()) return 0;
  if (!cur->quiet) point('b', c);
  RT rt;
  heap_check(c, 8, true, PC);
  wake_all(W_COND, c);
  return 0;
}
EXPORT int pthread_cond_destroy(pthread_cond_t *c) {
  if (!on() || cur->quiet) return 0;
  point('d', c);
  for (;;) {  // as glibc: wait until nobody waits any more
    bool w = false;
    for (int i = 0; i < g_nthr; i++) w |= g_thr[i].st == S_BLOCKED && g_thr[i].wk == W_COND && g_thr[i].wait == c;
    if (!w) break;
    block(W_CONDDESTROY, c);
  }
  return 0;
}

struct RWL { int writer; int readers; };
EXPORT int pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *) {
  ((RWL *) l)->writer = ((RWL *) l)->readers = 0;
  return 0;
}
EXPORT int pthread_rwlock_destroy(pthread_rwlock_t *) { return 0; }
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t *l) {
  if (!on()) return 0;
  RWL *x = (RWL *) l;
  if (cur->quiet) { x->readers++; return 0; }
  point('r', l);
  { RT rt; heap_check(l, 8, true, PC); }
  if (x->writer == cur->id + 1) return EDEADLK;
  while (x->writer) block(W_RD, l);
  x->readers++;
  RT rt;
  hb_acquire(cur, l);
  return 0;
}
EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) {
  if (!on()) return 0;
  point('r', l);
  RWL *x = (RWL *) l;
  if (x->writer) return EBUSY;
  x->readers++;
  RT rt;
  hb_acquire(cur, l);
  return 0;
}
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t *l) {
  if (!on()) return 0;
  RWL *x = (RWL *) l;
  if (cur->quiet) { x->writer = cur->id + 1; return 0; }
  point('R', l);
  { RT rt; heap_check(l, 8, true, PC); }
  if (x->writer == cur->id + 1) return EDEADLK;
  while (x->writer || x->readers) block(W_WR, l);
  x->writer = cur->id + 1;
  RT rt;
  hb_acquire(cur, l);
  hb_acquire(cur, (char *) l + 8);
  return 0;
}
EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t *l) {
  if (!on()) return 0;
  point('R', l);
  RWL *x = (RWL *) l;
  if (x->writer || x->readers) return EBUSY;
  x->writer = cur->id + 1;
  RT rt;
  hb_acquire(cur, l);
  hb_acquire(cur, (char *) l + 8);
  return 0;
}
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t *l) {
  if (!on()) return 0;
  RWL *x = (RWL *) l;
  Thread *t = cur;
  if (t->quiet) {
    if (x->writer) x->writer = 0;
    else x->readers--;
    return 0;
  }
  {
    RT rt;
    if (x->writer) {
      if (x->writer != t->id + 1) violation("bad-unlock", "T%d releases a rwlock held by another writer at @%lx", t->id, (unsigned long) PC);
      hb_release(t, l);
      x->writer = 0;
    } else {
      if (x->readers <= 0) violation("bad-unlock", "T%d releases a rwlock nobody holds at @%lx", t->id, (unsigned long) PC);
      hb_release(t, (char *) l + 8);  // readers synchronise with later writers only
      x->readers--;
    }
    wake_all(W_RD, l);
    wake_all(W_WR, l);
  }
  point('v', l);
  return 0;
}

EXPORT int pthread_once(pthread_once_t *o, void (*fn)()) {
  volatile int *s = (volatile int *) o;
  if (!on() || cur->quiet) {
    if (*s != 2) {
      *s = 2;
      fn();
    }
    return 0;
  }
  point('o', o);
  while (*s == 1) block(W_ONCE, (void *) o);
  Thread *t = cur;
  if (*s == 2) {
    RT rt;
    hb_acquire(t, (void *) o);
    return 0;
  }
  *s = 1;
  try {
    fn();
  } catch (...) {
    *s = 0;
    RT rt;
    wake_all(W_ONCE, (void *) o);
    throw;
  }
  RT rt;
  hb_release(t, (void *) o);
  *s = 2;
  wake_all(W_ONCE, (void *) o);
  return 0;
}
EXPORT int __cxa_guard_acquire(uint64_t *g) {
  volatile unsigned char *b = (volatile unsigned char *) g;
  if (!on() || cur->quiet) return b[0] ? 0 : 1;
  point('g', g);
  while (b[1]) {
    if (b[2] == cur->id + 1) simerr("recursive static initialisation");
    block(W_ONCE, g);
  }
  RT rt;
  if (b[0]) {
    hb_acquire(cur, g);
    return 0;
  }
  b[1] = 1;
  b[2] = (unsigned char) (cur->id + 1);
  return 1;
}
EXPORT void __cxa_guard_release(uint64_t *g) {
  volatile unsigned char *b = (volatile unsigned char *) g;
  if (on()) {
    RT rt;
    hb_release(cur, g);
  }
  b[1] = b[2] = 0;
  b[0] = 1;
  if (on()) {
    RT rt;
    wake_all(W_ONCE, g);
  }
}
EXPORT void __cxa_guard_abort(uint64_t *g) {
  volatile unsigned char *b = (volatile unsigned char *) g;
  b[1] = b[2] = 0;
  if (on()) {
    RT rt;
    wake_all(W_ONCE, g);
  }
}

// futex behind std::future, std::atomic::wait, std::barrier, std::latch, semaphores
static long sim_futex(int *addr, int op, int val, const struct timespec *ts, int *, int) {
  int cmd = op & FUTEX_CMD_MASK;
  bool real = op & FUTEX_CLOCK_REALTIME;
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    point('f', addr);
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) {
      errno = EAGAIN;
      return -1;
    }
    int64_t dl = 0;
    if (ts) dl = cmd == FUTEX_WAIT ? g_mono + ts2ns(ts) : ts2ns(ts);
    int why = block(W_FUTEX, addr, ts != nullptr && dl < INT64_MAX / 2, dl, cmd == FUTEX_WAIT ? false : real);
    if (why == 2) {
      errno = ETIMEDOUT;
      return -1;
    }
    if (why == 3) {
      errno = EINTR;
      return -1;
    }
    return 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    point('F', addr);
    RT rt;
    return val == INT32_MAX ? wake_all(W_FUTEX, addr) : wake_some(W_FUTEX, addr, val);
  }
  simerr("futex op %d not simulated", op);
}
EXPORT long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && on()) return sim_futex((int *) a, (int) b, (int) c, (struct timespec *) d, (int *) e, (int) f);
  long r = raw_syscall6(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) {
    errno = (int) -r;
    return -1;
  }
  return r;
}

// time
static int64_t clock_ns(clockid_t c) {
  if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI) return g_mono + g_rtoff;
  return g_mono;
}
EXPORT int clock_gettime(clockid_t c, struct timespec *ts) {
  if (!on()) {
    raw_syscall6(SYS_clock_gettime, c, (long) ts, 0, 0, 0, 0);
    return 0;
  }
  if (!cur->quiet && !cur->in_rt) point('k', nullptr);
  int64_t v = clock_ns(c);
  ts->tv_sec = v / 1000000000;
  ts->tv_nsec = v % 1000000000;
  if (ts->tv_nsec < 0) ts->tv_nsec += 1000000000, ts->tv_sec--;
  return 0;
}
EXPORT int gettimeofday(struct timeval *tv, void *) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
EXPORT time_t time(time_t *o) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (o) *o = ts.tv_sec;
  return ts.tv_sec;
}
// calendar conversions: the caller's buffer, or libc's single static one (which every caller shares)
static struct tm g_tmbuf;
static char g_asctime[64];
static struct tm *conv_tm(const char *name, const time_t *t, struct tm *o, uintptr_t pc) {
  static void *sym[2];
  int const i = name[0] == 'g' ? 0 : 1;
  if (!sym[i]) sym[i] = real_sym(name);
  if (on() && !cur->quiet && !cur->in_rt) point('k', nullptr);
  struct tm *r = ((struct tm * (*) (const time_t *, struct tm *) ) sym[i])(t, o);
  if (r && on()) {
    mem_access(o, sizeof *o, true, pc);
    if (!cur->quiet && !cur->in_rt) point('k', nullptr);
  }
  return r;
}
EXPORT struct tm *gmtime_r(const time_t *t, struct tm *o) { return conv_tm("gmtime_r", t, o, PC); }
EXPORT struct tm *localtime_r(const time_t *t, struct tm *o) { return conv_tm("localtime_r", t, o, PC); }
EXPORT struct tm *gmtime(const time_t *t) { return conv_tm("gmtime_r", t, &g_tmbuf, PC); }
EXPORT struct tm *localtime(const time_t *t) {
  tzset();
  return conv_tm("localtime_r", t, &g_tmbuf, PC);
}
EXPORT char *asctime(const struct tm *tm) {
  char *r = asctime_r(tm, g_asctime);
  if (on()) mem_access(g_asctime, 26, true, PC);
  if (on() && !cur->quiet && !cur->in_rt) point('k', nullptr);
  return r;
}
EXPORT char *ctime(const time_t *t) {
  struct tm *tm = localtime(t);
  return tm ? asctime(tm) : nullptr;
}
EXPORT clock_t clock() { return (clock_t) (g_mono / 1000); }
static int do_sleep(int64_t ns) {
  if (ns <= 0) {
    point('y', nullptr);
    return 0;
  }
  block(W_SLEEP, nullptr, true, g_mono + ns);
  return 0;
}
EXPORT int nanosleep(const struct timespec *ts, struct timespec *) {
  if (!on()) return (int) raw_syscall6(SYS_nanosleep, (long) ts, 0, 0, 0, 0, 0);
  return do_sleep(ts2ns(ts));
}
EXPORT int clock_nanosleep(clockid_t c, int flags, const struct timespec *ts, struct timespec *) {
  if (!on()) return (int) -raw_syscall6(SYS_clock_nanosleep, c, flags, (long) ts, 0, 0, 0);
  if (flags & TIMER_ABSTIME) {
    block(W_SLEEP, nullptr, true, ts2ns(ts), c == CLOCK_REALTIME);
    return 0;
  }
  return do_sleep(ts2ns(ts));
}
EXPORT int usleep(useconds_t us) { return on() ? do_sleep((int64_t) us * 1000) : 0; }
EXPORT unsigned sleep(unsigned s) {
  if (on()) do_sleep((int64_t) s * 1000000000ll);
  return 0;
}
EXPORT int sched_yield() {
  if (on() && !cur->quiet) point('y', nullptr);
  return 0;
}
EXPORT int get_nprocs() { return 3; }
EXPORT int get_nprocs_conf() { return 3; }
EXPORT int getrandom_sim_unused() { return 0; }
