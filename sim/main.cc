// Run control: one forked child per simulated run; exploration, replay and minimisation.
#include "rt.h"
#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim {
  namespace io {
    __attribute__((weak)) void parent_prepare(const char *);
    __attribute__((weak)) void parent_cleanup();
    __attribute__((weak)) const char *root();
  }
  extern Scenario *scenarios;
}
using namespace sim;

static uint64_t mono_ms() {
  long ts[2];
  raw_syscall6(SYS_clock_gettime, 1, (long) ts, 0, 0, 0, 0);
  return (uint64_t) ts[0] * 1000 + ts[1] / 1000000;
}

struct Result {
  int outcome;
  char kind[64];
  char msg[16384];
  uint64_t ihash, hhash, steps;
};

static bool g_verbose;
static int g_timeout_ms = 20000;
static const char *g_scratch;

static const Scenario *by_name(const char *n) {
  for (Scenario *s = scenarios; s; s = s->next)
    if (!strcmp(s->name, n)) return s;
  return nullptr;
}
static const Scenario *pick_scenario(uint64_t seed, const char *only) {
  if (only && *only) return by_name(only);
  unsigned tot = 0;
  for (Scenario *s = scenarios; s; s = s->next) tot += s->weight;
  uint64_t h = fnv(fnv(0x77, seed), 0x1357);
  unsigned x = (unsigned) ((h >> 20) % tot);
  for (Scenario *s = scenarios; s; s = s->next) {
    if (x < s->weight) return s;
    x -= s->weight;
  }
  return scenarios;
}

// What runs under simulation may be a broken version of code that deletes files.  The seams keep it in its scratch
// tree; should one be missing, it can still reach nothing: it runs as a user who owns nothing else.
static void drop_privileges() {
  if (geteuid() != 0) return;
  raw_syscall6(SYS_setgroups, 0, 0, 0, 0, 0, 0);
  if (raw_syscall6(SYS_setresgid, NOBODY, NOBODY, 0, 0, 0, 0) < 0) return;
  bool ok = raw_syscall6(SYS_setresuid, NOBODY, NOBODY, 0, 0, 0, 0) >= 0;
  if (ok && io::parent_prepare && raw_syscall6(SYS_faccessat2, AT_FDCWD, (long) io::root(), W_OK | X_OK, AT_EACCESS, 0, 0) < 0) {
    raw_syscall6(SYS_setresuid, 0, 0, 0, 0, 0, 0);  // it cannot even get at its scratch tree then
    ok = false;
  }
  if (ok) raw_syscall6(SYS_setresuid, NOBODY, NOBODY, NOBODY, 0, 0, 0), raw_syscall6(SYS_setresgid, NOBODY, NOBODY, NOBODY, 0, 0, 0);
  else raw_syscall6(SYS_setresgid, 0, 0, 0, 0, 0, 0);
  prctl(PR_SET_DUMPABLE, 1);
}
// run one simulated execution in a child; results are left in *sh
static void run_one(RunCfg const &cfg) {
  sh->outcome = OUT_NONE;
  sh->histlen = 0;
  sh->ndeclog = 0;
  if (io::parent_prepare) io::parent_prepare(g_scratch);
  sigset_t chld;
  sigemptyset(&chld);
  sigaddset(&chld, SIGCHLD);
  fflush(stdout);
  pid_t pid = fork();
  if (pid < 0) {
    perror("fork");
    exit(97);
  }
  if (pid == 0) {
    drop_privileges();
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    sigprocmask(SIG_UNBLOCK, &chld, nullptr);
    run_child(cfg);
  }
  uint64_t t0 = mono_ms();
  int st = 0;
  for (;;) {
    long left = (long) g_timeout_ms - (long) (mono_ms() - t0);
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) break;
    if (left <= 0) {  // on a busy machine the run may just not have got the processor: what counts is what it used
      clockid_t ck;
      struct timespec ts {};
      if (clock_getcpuclockid(pid, &ck) == 0 && clock_gettime(ck, &ts) == 0 && ts.tv_sec * 1000 + ts.tv_nsec / 1000000 < (long) g_timeout_ms &&
          (long) (mono_ms() - t0) < (long) g_timeout_ms * 6)
        left = 1000;
    }
    if (left <= 0) {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      if (sh->outcome == OUT_NONE) {
        sh->outcome = OUT_SIMERR;
        strcpy(sh->kind, "wall-timeout");
        snprintf(sh->msg, sizeof sh->msg, "the run did not finish within %d ms of wall time", g_timeout_ms);
      }
      break;
    }
    long ts[2] = {0, 50000000};
    raw_syscall6(SYS_rt_sigtimedwait, (long) &chld, 0, (long) ts, 8, 0, 0);
  }
  if (sh->outcome == OUT_NONE) {
    sh->outcome = OUT_SIMERR;
    strcpy(sh->kind, "child-died");
    snprintf(sh->msg, sizeof sh->msg, "run ended without a verdict, wait status %x", st);
  }
  if (io::parent_cleanup) io::parent_cleanup();
}
static void save(Result &r) {
  r.outcome = sh->outcome;
  strcpy(r.kind, sh->kind);
  strcpy(r.msg, sh->msg);
  r.ihash = sh->ihash;
  r.hhash = sh->hhash;
  r.steps = sh->steps;
}
static int cmp_dec(const void *a, const void *b) {
  const Dec *x = (const Dec *) a, *y = (const Dec *) b;
  if (x->tid != y->tid) return x->tid < y->tid ? -1 : 1;
  return x->k < y->k ? -1 : x->k > y->k ? 1 : 0;
}
static Dec *copy_dec(uint64_t &n) {
  n = sh->ndeclog;
  Dec *d = (Dec *) malloc((n + 1) * sizeof(Dec));
  memcpy(d, sh->dec, n * sizeof(Dec));
  qsort(d, n, sizeof(Dec), cmp_dec);
  return d;
}

// what has to stay the same while minimising: kind plus the message up to the first digit-free prefix
static void signature(const char *kind, const char *msg, char *out, size_t n) {
  // "kind|first line without numbers and addresses"
  char *p = out, *e = out + n - 1;
  p += snprintf(p, n, "%s|", kind);
  bool hang = !strcmp(kind, "hang") || !strcmp(kind, "no-progress");
  for (const char *c = msg; *c && *c != '\n' && p < e; c++) {
    if (hang && *c == ':') break;
    if (*c == '@') {
      while (c[1] && c[1] != ' ' && c[1] != '\n') c++;
      continue;
    }
    if (*c >= '0' && *c <= '9') continue;
    *p++ = *c;
  }
  *p = 0;
}

static void json_str(FILE *f, const char *s) {
  fputc('"', f);
  for (; *s; s++) {
    unsigned char c = (unsigned char) *s;
    if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
    else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
    else fputc(c, f);
  }
  fputc('"', f);
}
static void write_replay(const char *path, const char *scen, uint64_t seed, const Dec *d, uint64_t n, Result const &r, uint64_t orig) {
  FILE *f = fopen(path, "w");
  if (!f) {
    perror(path);
    exit(97);
  }
  fprintf(f, "simreplay 1\nscenario %s\nseed %llu\nkind %s\nihash %016llx\nhhash %016llx\nsteps %llu\noriginal_decisions %llu\ndecisions %llu\n", scen, (unsigned long long) seed, r.kind,
          (unsigned long long) r.ihash, (unsigned long long) r.hhash, (unsigned long long) r.steps, (unsigned long long) orig, (unsigned long long) n);
  for (uint64_t i = 0; i < n; i++) fprintf(f, "%u %llu %c %llu\n", d[i].tid, (unsigned long long) d[i].k, (char) d[i].kind, (unsigned long long) d[i].val);
  fprintf(f, "message\n%s\nhistory\n%s", r.msg, sh->hist);
  fclose(f);
}
static uint64_t minimise(const Scenario *sc, uint64_t seed, Dec *d, uint64_t n, Result const &want, uint64_t budget_ms, uint64_t &tries) {
  uint64_t end = mono_ms() + budget_ms;
  char sig[600], s2[600];
  signature(want.kind, want.msg, sig, sizeof sig);
  tries = 0;
  Dec *c = (Dec *) malloc((n + 1) * sizeof(Dec));
  auto test = [&](uint64_t m) {
    RunCfg cfg{};
    cfg.seed = seed;
    cfg.trace = true;
    cfg.in = c;
    cfg.nin = m;
    cfg.scen = sc;
    run_one(cfg);
    tries++;
    if (sh->outcome != OUT_VIOLATION) return false;
    signature(sh->kind, sh->msg, s2, sizeof s2);
    return !strcmp(sig, s2);
  };
  uint64_t gran = 2;
  while (n > 0 && mono_ms() < end) {
    uint64_t chunk = (n + gran - 1) / gran;
    bool reduced = false;
    for (uint64_t st = 0; st < n && mono_ms() < end; st += chunk) {
      uint64_t m = 0;
      for (uint64_t i = 0; i < n; i++)
        if (i < st || i >= st + chunk) c[m++] = d[i];
      if (test(m)) {
        memcpy(d, c, m * sizeof(Dec));
        n = m;
        reduced = true;
        gran = gran > 2 ? gran - 1 : 2;
        break;
      }
    }
    if (!reduced) {
      if (chunk <= 1) break;
      gran = gran * 2 < n ? gran * 2 : n;
    }
  }
  return n;
}

static int load_replay(const char *path, char *scen, uint64_t &seed, char *kind, uint64_t &ih, Dec *&d, uint64_t &n) {
  FILE *f = fopen(path, "r");
  if (!f) {
    perror(path);
    return 1;
  }
  char line[4096];
  unsigned long long v;
  n = 0;
  d = nullptr;
  while (fgets(line, sizeof line, f)) {
    if (sscanf(line, "scenario %63s", scen) == 1) continue;
    if (sscanf(line, "seed %llu", &v) == 1) { seed = v; continue; }
    if (sscanf(line, "kind %63s", kind) == 1) continue;
    if (sscanf(line, "ihash %llx", &v) == 1) { ih = v; continue; }
    if (sscanf(line, "decisions %llu", &v) == 1) {
      d = (Dec *) malloc((v + 1) * sizeof(Dec));
      for (unsigned long long i = 0; i < v; i++) {
        unsigned t;
        unsigned long long k, x;
        char c;
        if (fscanf(f, "%u %llu %c %llu\n", &t, &k, &c, &x) != 4) { fclose(f); return 1; }
        d[n++] = Dec{t, (uint32_t) c, k, x};
      }
      break;
    }
  }
  fclose(f);
  qsort(d, n, sizeof(Dec), cmp_dec);
  return 0;
}

struct Set {  // open addressing set of hashes
  uint64_t *v;
  uint64_t cap, n;
  bool add(uint64_t h) {
    if (!h) h = 1;
    if (n * 2 >= cap) return false;
    for (uint64_t i = h % cap;; i = (i + 1) % cap) {
      if (v[i] == h) return false;
      if (!v[i]) {
        v[i] = h;
        n++;
        return true;
      }
    }
  }
};

int main(int argc, char **argv) {
  int p = personality(0xffffffff);
  if (!(p & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOREEXEC")) {
    personality((unsigned long) p | ADDR_NO_RANDOMIZE);
    setenv("SIM_NOREEXEC", "1", 1);
    execv("/proc/self/exe", argv);
  }
  rt_init();
  sh = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  const char *mode = nullptr, *out = nullptr, *only = "", *replay = nullptr;
  uint64_t start = 1, stride = 1, cnt = ~0ull, ms = 5000, one = 0, minms = 20000;
  int cpu = -1;
  for (int i = 1; i < argc; i++) {
    auto nx = [&] { return i + 1 < argc ? argv[++i] : (char *) ""; };
    if (!strcmp(argv[i], "--list")) mode = "list";
    else if (!strcmp(argv[i], "--run")) mode = "run";
    else if (!strcmp(argv[i], "--one")) mode = "one", one = strtoull(nx(), 0, 10);
    else if (!strcmp(argv[i], "--replay")) mode = "replay", replay = nx();
    else if (!strcmp(argv[i], "--start")) start = strtoull(nx(), 0, 10);
    else if (!strcmp(argv[i], "--stride")) stride = strtoull(nx(), 0, 10);
    else if (!strcmp(argv[i], "--count")) cnt = strtoull(nx(), 0, 10);
    else if (!strcmp(argv[i], "--ms")) ms = strtoull(nx(), 0, 10);
    else if (!strcmp(argv[i], "--min-ms")) minms = strtoull(nx(), 0, 10);
    else if (!strcmp(argv[i], "--out")) out = nx();
    else if (!strcmp(argv[i], "--scenario")) only = nx();
    else if (!strcmp(argv[i], "--scratch")) g_scratch = nx();
    else if (!strcmp(argv[i], "--cpu")) cpu = atoi(nx());
    else if (!strcmp(argv[i], "--timeout-ms")) g_timeout_ms = atoi(nx());
    else if (!strcmp(argv[i], "-v")) g_verbose = true;
  }
  if (cpu >= 0) {
    cpu_set_t cs;
    CPU_ZERO(&cs);
    CPU_SET(cpu, &cs);
    sched_setaffinity(0, sizeof cs, &cs);
  }
  sigset_t chld;
  sigemptyset(&chld);
  sigaddset(&chld, SIGCHLD);
  sigprocmask(SIG_BLOCK, &chld, nullptr);
  if (!mode) {
    fprintf(stderr, "usage: --list | --run ... | --one SEED | --replay FILE\n");
    return 2;
  }
  if (!strcmp(mode, "list")) {
    for (Scenario *s = scenarios; s; s = s->next) printf("%s %u\n", s->name, s->weight);
    return 0;
  }
  if (!strcmp(mode, "one") || !strcmp(mode, "replay")) {
    RunCfg cfg{};
    cfg.verbose = g_verbose;
    char kind[64] = "", scen[64] = "";
    uint64_t ih = 0;
    Dec *d = nullptr;
    uint64_t n = 0;
    if (replay) {
      if (load_replay(replay, scen, cfg.seed, kind, ih, d, n)) return 2;
      cfg.trace = true;
      cfg.in = d;
      cfg.nin = n;
      cfg.scen = by_name(scen);
      if (!cfg.scen) {
        fprintf(stderr, "unknown scenario %s\n", scen);
        return 2;
      }
    } else {
      cfg.seed = one;
      cfg.scen = pick_scenario(one, only);
    }
    run_one(cfg);
    printf("scenario %s seed %llu outcome %s kind %s ihash %016llx hhash %016llx steps %llu plain %llu switches %llu threads %u decisions %llu/%llu simtime %.6fs\n", cfg.scen->name,
           (unsigned long long) cfg.seed, sh->outcome == OUT_OK ? "ok" : sh->outcome == OUT_VIOLATION ? "VIOLATION" : "simerr", sh->kind, (unsigned long long) sh->ihash,
           (unsigned long long) sh->hhash, (unsigned long long) sh->steps, (unsigned long long) sh->plain, (unsigned long long) sh->switches, sh->nthreads, (unsigned long long) sh->ndeclog,
           (unsigned long long) sh->decisions, sh->simtime / 1e9);
    if (sh->outcome != OUT_OK) printf("%s\n", sh->msg);
    printf("--- history\n%s", sh->hist);
    for (int i = 0; i < 64 && sh->faults[i].name[0]; i++) printf("fault %s %llu\n", sh->faults[i].name, (unsigned long long) sh->faults[i].n);
    for (int i = 0; i < 64 && sh->covers[i].name[0]; i++) printf("cover %s %llu\n", sh->covers[i].name, (unsigned long long) sh->covers[i].n);
    if (sh->outcome == OUT_SIMERR) return 2;
    if (replay) return sh->outcome == OUT_VIOLATION && !strcmp(kind, sh->kind) ? (ih == sh->ihash ? 1 : 3) : 0;
    return sh->outcome == OUT_VIOLATION ? 1 : 0;
  }
  // exploration
  Set inter{nullptr, 1 << 22, 0}, hist{nullptr, 1 << 21, 0};
  inter.v = (uint64_t *) mmap(nullptr, inter.cap * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  hist.v = (uint64_t *) mmap(nullptr, hist.cap * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  static Count faults[64], covers[64], perscen[64];
  uint64_t t0 = mono_ms(), runs = 0, nontriv = 0, steps = 0, plain = 0, switches = 0, simns = 0, faulty = 0;
  uint64_t maxthreads = 0, simerrs = 0;
  static Result viol;
  static char vmsg[64];
  uint64_t vseed = 0;
  bool found = false;
  const Scenario *vsc = nullptr;
  Dec *vd = nullptr;
  uint64_t vn = 0, vorig = 0, mtries = 0;
  bool det_ok = true;
  uint64_t det_checked = 0;
  static Result err;
  for (uint64_t i = 0; i < cnt; i++) {
    if (i && mono_ms() - t0 >= ms) break;
    uint64_t seed = start + i * stride;
    RunCfg cfg{};
    cfg.seed = seed;
    cfg.scen = pick_scenario(seed, only);
    run_one(cfg);
    runs++;
    count(perscen, cfg.scen->name);
    if (sh->outcome == OUT_SIMERR) {
      simerrs++;
      save(err);
      vseed = seed;
      vsc = cfg.scen;
      break;
    }
    steps += sh->steps;
    plain += sh->plain;
    switches += sh->switches;
    simns += sh->simtime;
    if (sh->nthreads > maxthreads) maxthreads = sh->nthreads;
    bool anyf = false;
    for (int k = 0; k < 64 && sh->faults[k].name[0]; k++) count(faults, sh->faults[k].name, sh->faults[k].n), anyf = true;
    for (int k = 0; k < 64 && sh->covers[k].name[0]; k++) count(covers, sh->covers[k].name, sh->covers[k].n);
    faulty += anyf;
    if (sh->nontrivial) {
      nontriv++;
      inter.add(fnv(fnv(sh->ihash, sh->hhash), (uint64_t) (uintptr_t) cfg.scen));
      hist.add(fnv(sh->hhash, (uint64_t) (uintptr_t) cfg.scen));
    }
    if (sh->outcome == OUT_VIOLATION) {
      found = true;
      vseed = seed;
      vsc = cfg.scen;
      save(viol);
      vd = copy_dec(vn);
      vorig = vn;
      // same seed once more: must be the identical execution
      run_one(cfg);
      det_checked++;
      if (sh->outcome != OUT_VIOLATION || sh->ihash != viol.ihash || strcmp(sh->kind, viol.kind)) {
        det_ok = false;
        snprintf(vmsg, sizeof vmsg, "seed rerun gave outcome %d kind %.20s", sh->outcome, sh->kind);
      }
      // and from its recorded decisions
      RunCfg c2 = cfg;
      c2.trace = true;
      c2.in = vd;
      c2.nin = vn;
      run_one(c2);
      if (sh->outcome != OUT_VIOLATION || sh->ihash != viol.ihash || strcmp(sh->kind, viol.kind)) {
        det_ok = false;
        snprintf(vmsg, sizeof vmsg, "trace rerun gave outcome %d kind %.20s", sh->outcome, sh->kind);
      }
      break;
    }
    if (runs % 256 == 1) {  // determinism audit
      Result r1;
      save(r1);
      run_one(cfg);
      det_checked++;
      if (sh->ihash != r1.ihash || sh->hhash != r1.hhash) {
        det_ok = false;
        snprintf(vmsg, sizeof vmsg, "audit: seed %llu differs", (unsigned long long) seed);
        break;
      }
    }
  }
  uint64_t t1 = mono_ms();
  char rp[600] = "";
  if (found && det_ok && out) {
    static Result last;
    vn = minimise(vsc, vseed, vd, vn, viol, minms, mtries);
    RunCfg cfg{};
    cfg.seed = vseed;
    cfg.scen = vsc;
    cfg.trace = true;
    cfg.in = vd;
    cfg.nin = vn;
    run_one(cfg);
    save(last);
    snprintf(rp, sizeof rp, "%s.replay", out);
    write_replay(rp, vsc->name, vseed, vd, vn, last, vorig);
    viol = last;
  }
  FILE *f = out ? fopen(out, "w") : stdout;
  if (!f) {
    perror(out);
    return 97;
  }
  fprintf(f, "{\"runs\":%llu,\"nontrivial\":%llu,\"faulty_runs\":%llu,\"wall_ms\":%llu,\"steps\":%llu,\"plain\":%llu,\"switches\":%llu,\"sim_ns\":%llu,\"max_threads\":%llu,\"interleavings\":%llu,\"histories\":%llu,\"det_checked\":%llu,\"det_ok\":%s,\"simerrs\":%llu",
          (unsigned long long) runs, (unsigned long long) nontriv, (unsigned long long) faulty, (unsigned long long) (t1 - t0), (unsigned long long) steps, (unsigned long long) plain, (unsigned long long) switches,
          (unsigned long long) simns, (unsigned long long) maxthreads, (unsigned long long) inter.n, (unsigned long long) hist.n, (unsigned long long) det_checked, det_ok ? "true" : "false", (unsigned long long) simerrs);
  auto tab = [&](const char *name, Count *c) {
    fprintf(f, ",\"%s\":{", name);
    for (int k = 0; k < 64 && c[k].name[0]; k++) {
      if (k) fputc(',', f);
      json_str(f, c[k].name);
      fprintf(f, ":%llu", (unsigned long long) c[k].n);
    }
    fputc('}', f);
  };
  tab("faults", faults);
  tab("covers", covers);
  tab("scenarios", perscen);
  if (found) {
    fprintf(f, ",\"violation\":{\"seed\":%llu,\"scenario\":\"%s\",\"kind\":", (unsigned long long) vseed, vsc->name);
    json_str(f, viol.kind);
    fprintf(f, ",\"msg\":");
    json_str(f, viol.msg);
    fprintf(f, ",\"replay\":");
    json_str(f, rp);
    fprintf(f, ",\"decisions\":%llu,\"original_decisions\":%llu,\"min_tries\":%llu}", (unsigned long long) vn, (unsigned long long) vorig, (unsigned long long) mtries);
  }
  if (!det_ok) {
    fprintf(f, ",\"nondeterminism\":");
    json_str(f, vmsg);
    fprintf(f, ",\"nd_seed\":%llu", (unsigned long long) vseed);
  }
  if (simerrs) {
    fprintf(f, ",\"simerr\":{\"seed\":%llu,\"scenario\":\"%s\",\"kind\":", (unsigned long long) vseed, vsc ? vsc->name : "");
    json_str(f, err.kind);
    fprintf(f, ",\"msg\":");
    json_str(f, err.msg);
    fputc('}', f);
  }
  fprintf(f, "}\n");
  if (out) {
    fclose(f);
    char hp[600];
    snprintf(hp, sizeof hp, "%s.hashes", out);
    FILE *h = fopen(hp, "wb");
    if (h) {
      for (uint64_t i = 0; i < inter.cap; i++)
        if (inter.v[i]) fwrite(&inter.v[i], 8, 1, h);
      fclose(h);
    }
  }
  return found ? 1 : (simerrs || !det_ok) ? 2 : 0;
}
