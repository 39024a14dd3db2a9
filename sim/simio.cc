// Simulated file and process I/O.  The calls are interposed in the executable (libstdc++.so binds to them as
// well); they really act on a scratch tree per run, to which every absolute path is mapped, with
// scheduling points and injected faults.  Nothing outside the scratch tree is ever changed.
#include "rt.h"
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>
#define EXPORT extern "C" __attribute__((visibility("default"), used))

namespace sim {
  namespace {
    char g_root[PATH_MAX] = "";
    size_t g_rootn = 0;
    bool g_on = false, g_faults = false;
    enum { NFD = 1024, NMAP = 4096, NRATE = 48, NPROC = 64 };
    enum FdSt : uint8_t { FD_UNKNOWN, FD_OPEN, FD_CLOSED, FD_HOST };
    FdSt g_fd[NFD];
    struct Map {
      char *p;
      size_t n;
      bool live, host;
    } g_map[NMAP];
    int g_nmap = 0;
    char *g_mapbase = (char *) 0x610000000000;
    char g_misuse[256];
    struct Rate {
      char name[24];
      int permille;
      unsigned calls;
    } g_rate[NRATE];
    int g_nrate = 0;
    unsigned g_injected = 0;
    int g_popen_live = 0;
    int g_simpid = 4242;
    int g_peer_r = -1, g_peer_w = -1;
    long g_peer_pid = 0;

    bool active() { return g_on && cur && !cur->in_rt && !cur->quiet; }
    Rate &rate(const char *n) {
      for (int i = 0; i < g_nrate; i++)
        if (!strcmp(g_rate[i].name, n)) return g_rate[i];
      if (g_nrate == NRATE) simerr("rate table");
      Rate &r = g_rate[g_nrate++];
      strncpy(r.name, n, sizeof r.name - 1);
      r.permille = -1;
      return r;
    }
    // a fault of this call here? returns errno or 0
    int fail(const char *call, int dflt, const int *errs, int nerr) {
      Rate &r = rate(call);
      r.calls++;
      int const pm = r.permille >= 0 ? r.permille : dflt;
      if (!g_faults || pm <= 0) return 0;
      if (nerr > 1) {
        // one decision for "fails", one for the errno
        char k[40];
        snprintf(k, sizeof k, "io:%s", call);
        if (!decide_fault(k, (unsigned) pm)) return 0;
        g_injected++;
        return errs[fault_pick("io-errno", (unsigned) nerr)];
      }
      char k[40];
      snprintf(k, sizeof k, "io:%s", call);
      if (!decide_fault(k, (unsigned) pm)) return 0;
      g_injected++;
      return errs[0];
    }
    bool soft(const char *what, int dflt) {  // harmless delivery variations (EINTR, short counts)
      Rate &r = rate(what);
      int const pm = r.permille >= 0 ? r.permille : dflt;
      if (!g_faults || pm <= 0) return false;
      char k[40];
      snprintf(k, sizeof k, "io:%s", what);
      return decide_fault(k, (unsigned) pm) != 0;
    }
#define FAIL(call, dflt, ...)                                                     \
  ({                                                                              \
    static const int errs_[] = {__VA_ARGS__};                                     \
    fail(call, dflt, errs_, (int) (sizeof errs_ / sizeof *errs_));                \
  })
    void pt(char k) { point(k, nullptr); }
    void misuse(const char *fmt, ...) {
      va_list ap;
      va_start(ap, fmt);
      if (!g_misuse[0]) vsnprintf(g_misuse, sizeof g_misuse, fmt, ap);
      va_end(ap);
    }
    bool passthrough(const char *p) {
      return !strncmp(p, "/proc/", 6) || !strcmp(p, "/dev/null") || !strncmp(p, "/dev/u", 6) || (g_rootn && !strncmp(p, g_root, g_rootn));
    }
    struct Mapped {
      char b[PATH_MAX * 2];
      const char *s;
      explicit Mapped(const char *p) {
        if (!p || p[0] != '/' || passthrough(p)) {
          s = p;
          // ("../x" of the working directory /work is still below the root)
          if (p && p[0] != '/' && strstr(strncmp(p, "../", 3) ? p : p + 3, "..")) simerr("relative path with ..: %s", p);
          return;
        }
        if (strstr(p, "/../")) simerr("path with ..: %s", p);
        snprintf(b, sizeof b, "%s%s", g_root, p);
        s = b;
      }
    };
    void opened(int fd) {
      if (fd >= 0 && fd < NFD) g_fd[fd] = FD_OPEN;
    }
    // "/tmp/..." etc. inside a shell command: map absolute paths below the usual roots
    void rewrite(const char *c, char *o, size_t n) {
      static const char *const pre[] = {"/tmp/", "/var/tmp/", "/home/", nullptr};
      size_t w = 0;
      for (const char *p = c; *p;) {
        bool hit = false;
        if (p == c || strchr(" \t\n>=\"'(&|;<", p[-1]))
          for (int i = 0; pre[i] && !hit; i++)
            if (!strncmp(p, pre[i], strlen(pre[i]))) {
              hit = true;
              w += (size_t) snprintf(o + w, n - w, "%s%s", g_root, pre[i]);
              p += strlen(pre[i]);
            }
        if (!hit) o[w++] = *p++;
        if (w + 600 > n) simerr("command too long for the simulated shell");
      }
      o[w] = 0;
    }
    struct Proc {
      bool used, ran, closed;
      char *cmd;
      char *out;
      size_t n, cap, pos;
      int status;
      FILE *f;
    } g_proc[NPROC];
    void run_proc(Proc &p) {
      if (p.ran) return;
      p.ran = true;
      int pfd[2];
      if (raw_syscall6(SYS_pipe2, (long) pfd, O_CLOEXEC, 0, 0, 0, 0) < 0) simerr("pipe");
      pid_t const pid = fork();
      if (pid < 0) simerr("fork");
      if (pid == 0) {
        int const nul = (int) raw_syscall6(SYS_openat, AT_FDCWD, (long) "/dev/null", O_RDWR, 0, 0, 0);
        raw_syscall6(SYS_dup3, nul, 0, 0, 0, 0, 0);
        raw_syscall6(SYS_dup3, pfd[1], 1, 0, 0, 0, 0);
        raw_syscall6(SYS_dup3, nul, 2, 0, 0, 0, 0);
        for (int i = 3; i < 200; i++)
          if (i != pfd[1]) raw_syscall6(SYS_close, i, 0, 0, 0, 0, 0);
        raw_syscall6(SYS_close, pfd[1], 0, 0, 0, 0, 0);
        for (int s = 1; s < 32; s++) signal(s, SIG_DFL);
        sigset_t none;
        sigemptyset(&none);
        sigprocmask(SIG_SETMASK, &none, nullptr);
        static char const *argv[] = {"sh", "-c", "--", nullptr, nullptr};
        static char const *envp[] = {"PATH=/usr/bin:/bin", "LC_ALL=C", nullptr};
        argv[3] = p.cmd;
        raw_syscall6(SYS_execve, (long) "/bin/sh", (long) argv, (long) envp, 0, 0, 0);
        raw_syscall6(SYS_exit_group, 127, 0, 0, 0, 0, 0);
      }
      raw_syscall6(SYS_close, pfd[1], 0, 0, 0, 0, 0);
      for (;;) {
        if (p.n + 65536 > p.cap) {
          size_t const nc = p.cap ? p.cap * 2 : 1 << 17;
          char *q = (char *) raw_syscall6(SYS_mmap, 0, (long) nc, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
          if (p.n) memcpy(q, p.out, p.n);
          p.out = q, p.cap = nc;
        }
        long const r = raw_syscall6(SYS_read, pfd[0], (long) (p.out + p.n), 65536, 0, 0, 0);
        if (r == -EINTR) continue;
        if (r <= 0) break;
        p.n += (size_t) r;
      }
      raw_syscall6(SYS_close, pfd[0], 0, 0, 0, 0, 0);
      while (waitpid(pid, &p.status, 0) < 0 && errno == EINTR) {}
    }
    ssize_t ck_read(void *c, char *b, size_t n) {
      Proc &p = *(Proc *) c;
      bool const a = active();
      if (a) {
        pt('r');
        if (soft("pipe-delay", 20)) sleep_ns(1000000);
        if (soft("pipe-read-EINTR", 60)) {
          errno = EINTR;
          return -1;
        }
      }
      {
        RT rt;
        run_proc(p);
      }
      size_t left = p.n - p.pos;
      if (left > n) left = n;
      if (a && left > 1 && soft("pipe-read-short", 150)) left = 1 + fault_pick("short-len", left > 64 ? 64 : (unsigned) left);
      memcpy(b, p.out + p.pos, left);
      p.pos += left;
      return (ssize_t) left;
    }
    int ck_close(void *) { return 0; }
  } // namespace

  namespace io {
    const char *root() { return g_root; }
    static void mk(const char *sub) {
      char b[PATH_MAX];
      snprintf(b, sizeof b, "%s%s", g_root, sub);
      raw_syscall6(SYS_mkdirat, AT_FDCWD, (long) b, 0777, 0, 0, 0);
      raw_syscall6(SYS_fchownat, AT_FDCWD, (long) b, NOBODY, NOBODY, 0, 0);
    }
    static void rmtree(const char *path) {  // only below the scratch root; called in the parent
      if (!g_rootn || strncmp(path, g_root, g_rootn)) return;
      DIR *d = opendir(path);
      if (d) {
        struct dirent *e;
        while ((e = readdir(d))) {
          if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
          char b[PATH_MAX];
          snprintf(b, sizeof b, "%s/%s", path, e->d_name);
          if (e->d_type == DT_DIR) rmtree(b);
          else raw_syscall6(SYS_unlinkat, AT_FDCWD, (long) b, 0, 0, 0, 0);
        }
        closedir(d);
      }
      raw_syscall6(SYS_unlinkat, AT_FDCWD, (long) path, AT_REMOVEDIR, 0, 0, 0);
    }
    void parent_prepare(const char *scratch) {
      if (!scratch || scratch[0] != '/' || strlen(scratch) < 8) {
        fprintf(stderr, "--scratch DIR (absolute) is required\n");
        _exit(97);
      }
      snprintf(g_root, sizeof g_root, "%s/root", scratch);
      g_rootn = strlen(g_root);
      rmtree(g_root);
      if (mkdir(g_root, 0777) && errno != EEXIST) {
        perror(g_root);
        _exit(97);
      }
      mk("");
      mk("/tmp");
      mk("/work");
      mk("/home");
      mk("/home/u");
    }
    void parent_cleanup() { rmtree(g_root); }
    void enable(bool f) {
      RT rt;
      if (!g_rootn) simerr("no scratch root");
      char b[PATH_MAX];
      snprintf(b, sizeof b, "%s/work", g_root);
      if (raw_syscall6(SYS_chdir, (long) b, 0, 0, 0, 0, 0) < 0) simerr("chdir %s", b);
      unsetenv("TMPDIR");
      unsetenv("TMP");
      unsetenv("TEMP");
      unsetenv("TEMPDIR");
      setenv("HOME", "/home/u", 1);
      g_on = true;
      g_faults = f;
    }
    void faults(bool on) { g_faults = on; }
    void set_fault_rate(const char *call, int permille) { rate(call).permille = permille; }
    unsigned faults_injected() { return g_injected; }
    unsigned calls(const char *c) { return rate(c).calls; }
    int open_fds() {
      int n = 0;
      for (int i = 0; i < NFD; i++) n += g_fd[i] == FD_OPEN;
      return n;
    }
    int open_maps() {
      int n = 0;
      for (int i = 0; i < g_nmap; i++) n += g_map[i].live && !g_map[i].host;
      return n;
    }
    const char *misuse() { return g_misuse[0] ? g_misuse : nullptr; }
    int procs_unreaped() { return g_popen_live; }
    int host_open(const char *path, int flags, int mode) {
      RT rt;
      Mapped m(path);
      int const fd = (int) raw_syscall6(SYS_openat, AT_FDCWD, (long) m.s, flags, mode, 0, 0);
      if (fd >= 0 && fd < NFD) g_fd[fd] = FD_HOST;
      return fd;
    }
    void host_close(int fd) {
      RT rt;
      if (fd >= 0 && fd < NFD) g_fd[fd] = FD_UNKNOWN;
      raw_syscall6(SYS_close, fd, 0, 0, 0, 0, 0);
    }
    long host_read_all(const char *path, char *buf, long cap) {
      RT rt;
      Mapped m(path);
      int const fd = (int) raw_syscall6(SYS_openat, AT_FDCWD, (long) m.s, O_RDONLY, 0, 0, 0);
      if (fd < 0) return -1;
      long n = 0;
      while (n < cap) {
        long const r = raw_syscall6(SYS_read, fd, (long) (buf + n), cap - n, 0, 0, 0);
        if (r <= 0) break;
        n += r;
      }
      raw_syscall6(SYS_close, fd, 0, 0, 0, 0, 0);
      return n;
    }
    long host_size(const char *path) {
      RT rt;
      Mapped m(path);
      int const fd = (int) raw_syscall6(SYS_openat, AT_FDCWD, (long) m.s, O_RDONLY, 0, 0, 0);
      if (fd < 0) return -1;
      long const r = raw_syscall6(SYS_lseek, fd, 0, SEEK_END, 0, 0, 0);
      raw_syscall6(SYS_close, fd, 0, 0, 0, 0, 0);
      return r;
    }
    bool host_exists(const char *path) {
      RT rt;
      Mapped m(path);
      return raw_syscall6(SYS_faccessat, AT_FDCWD, (long) m.s, F_OK, 0, 0, 0) == 0;
    }
    bool host_is_dir(const char *path) {
      RT rt;
      Mapped m(path);
      int const fd = (int) raw_syscall6(SYS_openat, AT_FDCWD, (long) m.s, O_RDONLY | O_DIRECTORY, 0, 0, 0);
      if (fd < 0) return false;
      raw_syscall6(SYS_close, fd, 0, 0, 0, 0, 0);
      return true;
    }
    int host_count(const char *dir) {
      RT rt;
      Mapped m(dir);
      int const fd = (int) raw_syscall6(SYS_openat, AT_FDCWD, (long) m.s, O_RDONLY | O_DIRECTORY, 0, 0, 0);
      if (fd < 0) return -1;
      int n = 0;
      char b[4096];
      for (;;) {
        long const r = raw_syscall6(SYS_getdents64, fd, (long) b, sizeof b, 0, 0, 0);
        if (r <= 0) break;
        for (long o = 0; o < r;) {
          unsigned short len;
          memcpy(&len, b + o + 16, 2);
          const char *nm = b + o + 19;
          if (strcmp(nm, ".") && strcmp(nm, "..")) n++;
          o += len;
        }
      }
      raw_syscall6(SYS_close, fd, 0, 0, 0, 0, 0);
      return n;
    }
    void host_mkdir(const char *path) {
      RT rt;
      Mapped m(path);
      char b[PATH_MAX];
      snprintf(b, sizeof b, "%s", m.s);
      for (char *p = b + g_rootn; *p; p++)
        if (*p == '/' && p != b) {
          *p = 0;
          raw_syscall6(SYS_mkdirat, AT_FDCWD, (long) b, 0777, 0, 0, 0);
          *p = '/';
        }
      raw_syscall6(SYS_mkdirat, AT_FDCWD, (long) b, 0777, 0, 0, 0);
    }
    void host_write(const char *path, const char *data, long n) {
      RT rt;
      Mapped m(path);
      int const fd = (int) raw_syscall6(SYS_openat, AT_FDCWD, (long) m.s, O_WRONLY | O_CREAT | O_TRUNC, 0666, 0, 0);
      if (fd < 0) simerr("host_write %s", m.s);
      while (n > 0) {
        long const r = raw_syscall6(SYS_write, fd, (long) data, n, 0, 0, 0);
        if (r <= 0) simerr("host_write");
        data += r, n -= r;
      }
      raw_syscall6(SYS_close, fd, 0, 0, 0, 0, 0);
    }
    void host_unlink(const char *path) {
      RT rt;
      Mapped m(path);
      raw_syscall6(SYS_unlinkat, AT_FDCWD, (long) m.s, 0, 0, 0, 0);
    }
    // ---- another process of the same program: runs fn and ends; the two talk in lock-step
    void peer_start(void (*fn)(void *), void *arg) {
      RT rt;
      int a[2], b[2];
      if (raw_syscall6(SYS_pipe2, (long) a, O_CLOEXEC, 0, 0, 0, 0) < 0 || raw_syscall6(SYS_pipe2, (long) b, O_CLOEXEC, 0, 0, 0, 0) < 0) simerr("pipe");
      auto up = [](int fd, int to) {
        raw_syscall6(SYS_dup2, fd, to, 0, 0, 0, 0);
        raw_syscall6(SYS_close, fd, 0, 0, 0, 0, 0);
        g_fd[to] = FD_HOST;
        return to;
      };
      int const pr = up(a[0], 1000), cw = up(a[1], 1001), cr = up(b[0], 1002), pw = up(b[1], 1003);
      long const pid = raw_syscall6(SYS_clone, SIGCHLD, 0, 0, 0, 0, 0);
      if (pid < 0) simerr("fork");
      if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        Shared *s = (Shared *) raw_syscall6(SYS_mmap, 0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        s->outcome = sh->outcome;
        sh = s;  // its history is not that of the run
        g_simpid = 4243;
        g_faults = false;
        raw_syscall6(SYS_close, pr, 0, 0, 0, 0, 0);
        raw_syscall6(SYS_close, pw, 0, 0, 0, 0, 0);
        g_peer_r = cr, g_peer_w = cw;
        auto const save = cur->in_rt;
        cur->in_rt = {};
        fn(arg);
        cur->in_rt = save;
        raw_syscall6(SYS_exit_group, 0, 0, 0, 0, 0, 0);
      }
      raw_syscall6(SYS_close, cr, 0, 0, 0, 0, 0);
      raw_syscall6(SYS_close, cw, 0, 0, 0, 0, 0);
      g_fd[cr] = g_fd[cw] = FD_UNKNOWN;
      g_peer_r = pr, g_peer_w = pw;
      g_peer_pid = pid;
    }
    void peer_send(const char *d, long n) {
      RT rt;
      if (raw_syscall6(SYS_write, g_peer_w, (long) d, n, 0, 0, 0) != n) simerr("peer_send");
    }
    long peer_recv(char *d, long cap) {
      RT rt;
      long const r = raw_syscall6(SYS_read, g_peer_r, (long) d, cap, 0, 0, 0);
      return r < 0 ? 0 : r;
    }
    int peer_end() {
      RT rt;
      raw_syscall6(SYS_close, g_peer_w, 0, 0, 0, 0, 0);
      int st = -1;
      raw_syscall6(SYS_wait4, g_peer_pid, (long) &st, 0, 0, 0, 0);
      raw_syscall6(SYS_close, g_peer_r, 0, 0, 0, 0, 0);
      g_fd[g_peer_r] = g_fd[g_peer_w] = FD_UNKNOWN;
      return st;
    }
    // a file mapping that belongs to somebody else
    char *host_map(const char *path, long n) {
      RT rt;
      Mapped m(path);
      int const fd = (int) raw_syscall6(SYS_openat, AT_FDCWD, (long) m.s, O_RDWR | O_CREAT, 0666, 0, 0);
      raw_syscall6(SYS_ftruncate, fd, n, 0, 0, 0, 0);
      char *p = (char *) raw_syscall6(SYS_mmap, (long) g_mapbase, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED_NOREPLACE, fd, 0);
      raw_syscall6(SYS_close, fd, 0, 0, 0, 0, 0);
      g_mapbase += ((size_t) n + 0x1fff) & ~0xfffUL;
      if (g_nmap < NMAP) g_map[g_nmap++] = {p, (size_t) n, true, true};
      return p;
    }
  } // namespace io
} // namespace sim
using namespace sim;

static long ret(long r) {
  if (r < 0 && r > -4096) {
    errno = (int) -r;
    return -1;
  }
  return r;
}
static long err(int e) {
  errno = e;
  return -1;
}

// ---- opening -------------------------------------------------------------------------------------
static int do_open(int dirfd, const char *path, int flags, int mode) {
  if (!active()) return (int) ret(raw_syscall6(SYS_openat, dirfd, (long) path, flags, mode, 0, 0));
  pt('o');
  if (!passthrough(path)) {
    int const e = (flags & O_CREAT) ? FAIL("open", 30, EMFILE, EACCES, ENOSPC, EIO) : FAIL("open", 30, EMFILE, EACCES, EIO);
    if (e) return (int) err(e);
  }
  Mapped m(path);
  RT rt;
  int const fd = (int) ret(raw_syscall6(SYS_openat, dirfd, (long) m.s, flags, mode, 0, 0));
  opened(fd);
  return fd;
}
#define MODE(fl)                                     \
  int mode = 0;                                      \
  if ((fl) & (O_CREAT | O_TMPFILE)) {                \
    va_list ap;                                      \
    va_start(ap, fl);                                \
    mode = va_arg(ap, int);                          \
    va_end(ap);                                      \
  }
EXPORT int open(const char *p, int fl, ...) {
  MODE(fl)
  return do_open(AT_FDCWD, p, fl, mode);
}
EXPORT int open64(const char *p, int fl, ...) {
  MODE(fl)
  return do_open(AT_FDCWD, p, fl, mode);
}
EXPORT int openat(int d, const char *p, int fl, ...) {
  MODE(fl)
  return do_open(d, p, fl, mode);
}
EXPORT int openat64(int d, const char *p, int fl, ...) {
  MODE(fl)
  return do_open(d, p, fl, mode);
}
EXPORT int __open_2(const char *p, int fl) { return do_open(AT_FDCWD, p, fl, 0); }
EXPORT int __openat_2(int d, const char *p, int fl) { return do_open(d, p, fl, 0); }
EXPORT int __openat64_2(int d, const char *p, int fl) { return do_open(d, p, fl, 0); }
EXPORT int __open64_2(const char *p, int fl) { return do_open(AT_FDCWD, p, fl, 0); }
EXPORT int creat(const char *p, mode_t mode) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, (int) mode); }

static FILE *do_fopen(const char *path, const char *mode) {
  static auto real = (FILE * (*) (const char *, const char *) ) real_sym("fopen64");
  if (!active()) return real(path, mode);
  pt('o');
  if (!passthrough(path)) {
    int const e = mode[0] != 'r' || strchr(mode, '+') ? FAIL("open", 30, EMFILE, EACCES, ENOSPC, EIO) : FAIL("open", 30, EMFILE, EACCES, EIO);
    if (e) {
      errno = e;
      return nullptr;
    }
  }
  Mapped m(path);
  RT rt;
  FILE *f = real(m.s, mode);
  if (f) opened(fileno(f));
  return f;
}
EXPORT FILE *fopen(const char *p, const char *m) { return do_fopen(p, m); }
EXPORT FILE *fopen64(const char *p, const char *m) { return do_fopen(p, m); }
EXPORT int fclose(FILE *f) {
  static auto real = (int (*)(FILE *)) real_sym("fclose");
  if (!active() || !f) return real(f);
  pt('c');
  int const fd = fileno(f);
  int const e = fd >= 0 && fd < NFD && g_fd[fd] == FD_OPEN ? FAIL("fclose", 15, EIO, ENOSPC) : 0;
  RT rt;
  int const r = real(f);
  if (fd >= 0 && fd < NFD) g_fd[fd] = FD_CLOSED;
  if (r == 0 && e) return (int) err(e);
  return r;
}
EXPORT int close(int fd) {
  if (!active()) return (int) ret(raw_syscall6(SYS_close, fd, 0, 0, 0, 0, 0));
  pt('c');
  if (fd >= 0) {
    if (fd < 3) {
      misuse("close(%d): a standard descriptor", fd);
      return 0;
    }
    if (fd < NFD) {
      if (g_fd[fd] == FD_HOST) {
        misuse("close(%s): a descriptor that belongs to somebody else", "fd");
        return 0;
      }
      if (g_fd[fd] != FD_OPEN) {
        misuse("close of a descriptor that is %s", g_fd[fd] == FD_CLOSED ? "already closed" : "not its own");
        return (int) err(EBADF);
      }
      g_fd[fd] = FD_CLOSED;
    }
  }
  RT rt;
  return (int) ret(raw_syscall6(SYS_close, fd, 0, 0, 0, 0, 0));
}
static int do_dup(int a, int b, int fl) {
  if (!active()) return (int) ret(raw_syscall6(SYS_dup3, a, b, fl, 0, 0, 0));
  pt('d');
  if (b < 0) return (int) err(EBADF);
  if (a == b) return b;
  if (b < 3 || (b < NFD && g_fd[b] != FD_OPEN)) misuse("dup2 onto a descriptor that is not its own");
  else if (b < NFD && g_fd[b] == FD_OPEN) misuse("dup2 silently replaces an open descriptor");
  if (b < 3) return b;
  RT rt;
  int const r = (int) ret(raw_syscall6(SYS_dup3, a, b, fl, 0, 0, 0));
  if (r >= 0) opened(r);
  return r;
}
EXPORT int dup2(int a, int b) { return do_dup(a, b, 0); }
EXPORT int dup3(int a, int b, int fl) { return do_dup(a, b, fl); }
EXPORT int dup(int a) {
  if (active()) {
    pt('d');
    if (int const e = FAIL("dup", 30, EMFILE)) return (int) err(e);
  }
  bool const t = active();
  int const r = (int) ret(raw_syscall6(SYS_dup, a, 0, 0, 0, 0, 0));
  if (t) opened(r);
  return r;
}
EXPORT int fcntl(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  long const arg = va_arg(ap, long);
  va_end(ap);
  bool const d = cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC;
  if (d && active()) {
    pt('d');
    if (int const e = FAIL("dup", 30, EMFILE)) return (int) err(e);
  }
  int const r = (int) ret(raw_syscall6(SYS_fcntl, fd, cmd, arg, 0, 0, 0));
  if (d && active()) opened(r);
  return r;
}
EXPORT int fcntl64(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  long const arg = va_arg(ap, long);
  va_end(ap);
  return fcntl(fd, cmd, arg);
}
static int do_mkstemps(char *tpl, int suffix, int flags) {
  static unsigned n = 0;
  size_t const len = strlen(tpl);
  if (len < 6 + (size_t) suffix || strncmp(tpl + len - suffix - 6, "XXXXXX", 6)) return (int) err(EINVAL);
  if (active()) {
    pt('o');
    if (int const e = FAIL("open", 30, EMFILE, EACCES, ENOSPC, EIO)) return (int) err(e);
  }
  for (int i = 0; i < 1000; i++) {
    char d[8];
    snprintf(d, sizeof d, "s%05u", n++ % 100000);
    memcpy(tpl + len - suffix - 6, d, 6);
    Mapped m(tpl);
    long const fd = raw_syscall6(SYS_openat, AT_FDCWD, (long) m.s, O_RDWR | O_CREAT | O_EXCL | flags, 0600, 0, 0);
    if (fd == -EEXIST) continue;
    if (fd >= 0 && active()) opened((int) fd);
    return (int) ret(fd);
  }
  return (int) err(EEXIST);
}
EXPORT int mkstemp(char *t) { return do_mkstemps(t, 0, 0); }
EXPORT int mkstemp64(char *t) { return do_mkstemps(t, 0, 0); }
EXPORT int mkstemps(char *t, int s) { return do_mkstemps(t, s, 0); }
EXPORT int mkostemp(char *t, int f) { return do_mkstemps(t, 0, f); }
EXPORT int mkostemps(char *t, int s, int f) { return do_mkstemps(t, s, f); }
EXPORT char *mkdtemp(char *tpl) {
  static unsigned n = 0;
  size_t const len = strlen(tpl);
  if (len < 6 || strcmp(tpl + len - 6, "XXXXXX")) {
    errno = EINVAL;
    return nullptr;
  }
  if (active()) {
    pt('m');
    if (int const e = FAIL("mkdir", 30, EACCES, ENOSPC, EIO)) {
      errno = e;
      return nullptr;
    }
  }
  for (int i = 0; i < 1000; i++) {
    char d[8];
    snprintf(d, sizeof d, "d%05u", n++ % 100000);
    memcpy(tpl + len - 6, d, 6);
    Mapped m(tpl);
    long const r = raw_syscall6(SYS_mkdirat, AT_FDCWD, (long) m.s, 0700, 0, 0, 0);
    if (r == -EEXIST) continue;
    if (r < 0) {
      errno = (int) -r;
      return nullptr;
    }
    return tpl;
  }
  errno = EEXIST;
  return nullptr;
}

// ---- data ---------------------------------------------------------------------------------------------
static bool ours(int fd) { return fd >= 3 && fd < NFD && g_fd[fd] == FD_OPEN; }
EXPORT ssize_t read(int fd, void *b, size_t n) {
  if (!active() || !ours(fd)) return ret(raw_syscall6(SYS_read, fd, (long) b, (long) n, 0, 0, 0));
  pt('r');
  if (soft("read-EINTR", 60)) return err(EINTR);
  if (int const e = FAIL("read", 10, EIO)) return err(e);
  if (n > 1 && soft("read-short", 100)) n = 1 + fault_pick("short-len", n > 64 ? 64 : (unsigned) n);
  return ret(raw_syscall6(SYS_read, fd, (long) b, (long) n, 0, 0, 0));
}
EXPORT ssize_t pread(int fd, void *b, size_t n, off_t o) {
  if (!active() || !ours(fd)) return ret(raw_syscall6(SYS_pread64, fd, (long) b, (long) n, o, 0, 0));
  pt('r');
  if (soft("read-EINTR", 60)) return err(EINTR);
  if (int const e = FAIL("read", 10, EIO)) return err(e);
  if (n > 1 && soft("read-short", 100)) n = 1 + fault_pick("short-len", n > 64 ? 64 : (unsigned) n);
  return ret(raw_syscall6(SYS_pread64, fd, (long) b, (long) n, o, 0, 0));
}
EXPORT ssize_t write(int fd, const void *b, size_t n) {
  if (!active() || !ours(fd)) return ret(raw_syscall6(SYS_write, fd, (long) b, (long) n, 0, 0, 0));
  pt('w');
  if (soft("write-EINTR", 40)) return err(EINTR);
  if (int const e = FAIL("write", 30, ENOSPC, EIO, EDQUOT)) {
    // a full disk often takes a part first
    if (n > 1 && fault_pick("torn-write", 2)) n = 1 + fault_pick("short-len", n - 1 > 4096 ? 4096 : (unsigned) (n - 1));
    else return err(e);
    static int pending = 0;
    (void) pending;
    return ret(raw_syscall6(SYS_write, fd, (long) b, (long) n, 0, 0, 0));
  }
  if (n > 1 && soft("write-short", 80)) n = 1 + fault_pick("short-len", n > 64 ? 64 : (unsigned) n);
  return ret(raw_syscall6(SYS_write, fd, (long) b, (long) n, 0, 0, 0));
}
EXPORT ssize_t writev(int fd, const struct iovec *v, int c) {
  if (!active() || !ours(fd)) return ret(raw_syscall6(SYS_writev, fd, (long) v, c, 0, 0, 0));
  pt('w');
  if (soft("write-EINTR", 40)) return err(EINTR);
  if (int const e = FAIL("write", 30, ENOSPC, EIO, EDQUOT)) return err(e);
  if (soft("write-short", 80)) {
    for (int i = 0; i < c; i++)
      if (v[i].iov_len) {
        size_t n = v[i].iov_len;
        n = 1 + fault_pick("short-len", n > 64 ? 64 : (unsigned) n);
        return ret(raw_syscall6(SYS_write, fd, (long) v[i].iov_base, (long) n, 0, 0, 0));
      }
  }
  return ret(raw_syscall6(SYS_writev, fd, (long) v, c, 0, 0, 0));
}
EXPORT off_t lseek(int fd, off_t o, int w) {
  if (active() && ours(fd)) {
    pt('l');
    if (int const e = FAIL("lseek", 8, EIO)) return err(e);
  }
  return ret(raw_syscall6(SYS_lseek, fd, o, w, 0, 0, 0));
}
EXPORT off_t lseek64(int fd, off_t o, int w) { return lseek(fd, o, w); }
EXPORT int ftruncate(int fd, off_t n) {
  if (active() && ours(fd)) {
    pt('t');
    if (int const e = FAIL("write", 30, ENOSPC, EIO, EDQUOT)) return (int) err(e);
  }
  return (int) ret(raw_syscall6(SYS_ftruncate, fd, n, 0, 0, 0, 0));
}
EXPORT int ftruncate64(int fd, off_t n) { return ftruncate(fd, n); }
EXPORT int posix_fallocate(int fd, off_t o, off_t n) {
  if (active() && ours(fd)) {
    pt('t');
    if (int const e = FAIL("write", 30, ENOSPC, EIO, EDQUOT)) return e;
  }
  return (int) -raw_syscall6(SYS_fallocate, fd, 0, o, n, 0, 0);
}
EXPORT int truncate(const char *p, off_t n) {
  if (!active()) return (int) ret(raw_syscall6(SYS_truncate, (long) p, n, 0, 0, 0, 0));
  pt('t');
  if (int const e = FAIL("write", 30, ENOSPC, EIO, EDQUOT)) return (int) err(e);
  Mapped m(p);
  return (int) ret(raw_syscall6(SYS_truncate, (long) m.s, n, 0, 0, 0, 0));
}
EXPORT int truncate64(const char *p, off_t n) { return truncate(p, n); }
static int do_fstat(int fd, void *st) {
  if (active() && ours(fd)) {
    pt('s');
    if (int const e = FAIL("fstat", 25, EIO, ENOMEM)) return (int) err(e);
  }
  return (int) ret(raw_syscall6(SYS_newfstatat, fd, (long) "", (long) st, AT_EMPTY_PATH, 0, 0));
}
EXPORT int fstat(int fd, struct stat *st) { return do_fstat(fd, st); }
EXPORT int fstat64(int fd, struct stat64 *st) { return do_fstat(fd, st); }
static int do_stat(int dir, const char *p, void *st, int flags) {
  if (!active()) return (int) ret(raw_syscall6(SYS_newfstatat, dir, (long) p, (long) st, flags, 0, 0));
  pt('s');
  if (!passthrough(p))
    if (int const e = FAIL("stat", 8, EACCES, EIO)) return (int) err(e);
  Mapped m(p);
  return (int) ret(raw_syscall6(SYS_newfstatat, dir, (long) m.s, (long) st, flags, 0, 0));
}
EXPORT int stat(const char *p, struct stat *st) { return do_stat(AT_FDCWD, p, st, 0); }
EXPORT int stat64(const char *p, struct stat64 *st) { return do_stat(AT_FDCWD, p, st, 0); }
EXPORT int lstat(const char *p, struct stat *st) { return do_stat(AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
EXPORT int lstat64(const char *p, struct stat64 *st) { return do_stat(AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
EXPORT int fstatat(int d, const char *p, struct stat *st, int fl) { return do_stat(d, p, st, fl); }
EXPORT int access(const char *p, int mode) {
  if (!active()) return (int) ret(raw_syscall6(SYS_faccessat, AT_FDCWD, (long) p, mode, 0, 0, 0));
  pt('s');
  Mapped m(p);
  return (int) ret(raw_syscall6(SYS_faccessat, AT_FDCWD, (long) m.s, mode, 0, 0, 0));
}

// ---- names --------------------------------------------------------------------------------------------
EXPORT int mkdir(const char *p, mode_t mode) {
  if (!active()) return (int) ret(raw_syscall6(SYS_mkdirat, AT_FDCWD, (long) p, mode, 0, 0, 0));
  pt('m');
  if (int const e = FAIL("mkdir", 40, EACCES, ENOSPC, EIO)) return (int) err(e);
  Mapped m(p);
  return (int) ret(raw_syscall6(SYS_mkdirat, AT_FDCWD, (long) m.s, mode, 0, 0, 0));
}
static int do_unlink(const char *p, int fl) {
  if (!active()) return (int) ret(raw_syscall6(SYS_unlinkat, AT_FDCWD, (long) p, fl, 0, 0, 0));
  pt('u');
  if (int const e = FAIL("unlink", 20, EACCES, EBUSY, EIO)) return (int) err(e);
  Mapped m(p);
  if (strncmp(m.s, g_root, g_rootn) && m.s[0] == '/') simerr("unlink outside the scratch tree: %s", m.s);
  return (int) ret(raw_syscall6(SYS_unlinkat, AT_FDCWD, (long) m.s, fl, 0, 0, 0));
}
EXPORT int unlink(const char *p) { return do_unlink(p, 0); }
EXPORT int rmdir(const char *p) { return do_unlink(p, AT_REMOVEDIR); }
EXPORT int unlinkat(int d, const char *p, int fl) {
  if (d != AT_FDCWD && active()) {
    if (strchr(p, '/')) simerr("unlinkat of %s", p);
    char l[64], t[PATH_MAX];
    snprintf(l, sizeof l, "/proc/self/fd/%d", d);
    long const n = raw_syscall6(SYS_readlinkat, AT_FDCWD, (long) l, (long) t, sizeof t, 0, 0);
    if (n < g_rootn || strncmp(t, g_root, g_rootn)) simerr("unlinkat outside the scratch tree");
    pt('u');
    if (int const e = FAIL("unlink", 20, EACCES, EBUSY, EIO)) return (int) err(e);
    return (int) ret(raw_syscall6(SYS_unlinkat, d, (long) p, fl, 0, 0, 0));
  }
  return do_unlink(p, fl);
}
EXPORT int remove(const char *p) {
  if (!active()) {
    long const r = raw_syscall6(SYS_unlinkat, AT_FDCWD, (long) p, 0, 0, 0, 0);
    return (int) ret(r == -EISDIR || r == -EPERM ? raw_syscall6(SYS_unlinkat, AT_FDCWD, (long) p, AT_REMOVEDIR, 0, 0, 0) : r);
  }
  int const r = do_unlink(p, 0);
  if (r == 0 || (errno != EISDIR && errno != EPERM)) return r;
  return do_unlink(p, AT_REMOVEDIR);
}
EXPORT int rename(const char *a, const char *b) {
  if (!active()) return (int) ret(raw_syscall6(SYS_renameat, AT_FDCWD, (long) a, AT_FDCWD, (long) b, 0, 0));
  pt('n');
  if (int const e = FAIL("rename", 20, EACCES, ENOSPC, EIO)) return (int) err(e);
  Mapped m(a), n(b);
  return (int) ret(raw_syscall6(SYS_renameat, AT_FDCWD, (long) m.s, AT_FDCWD, (long) n.s, 0, 0));
}
EXPORT int link(const char *a, const char *b) {
  if (active()) simerr("link(%s,%s) is not simulated", a, b);
  return (int) ret(raw_syscall6(SYS_linkat, AT_FDCWD, (long) a, AT_FDCWD, (long) b, 0, 0));
}
EXPORT int symlink(const char *a, const char *b) {
  if (active()) simerr("symlink(%s,%s) is not simulated", a, b);
  return (int) ret(raw_syscall6(SYS_symlinkat, (long) a, AT_FDCWD, (long) b, 0, 0, 0));
}
#define NOT_SIMULATED(name, sig) \
  EXPORT int name sig {           \
    if (active()) simerr(#name " is not simulated"); \
    errno = ENOSYS;               \
    return -1;                    \
  }
NOT_SIMULATED(renameat, (int, const char *, int, const char *))
NOT_SIMULATED(renameat2, (int, const char *, int, const char *, unsigned))
NOT_SIMULATED(linkat, (int, const char *, int, const char *, int))
NOT_SIMULATED(symlinkat, (const char *, int, const char *))
NOT_SIMULATED(mkdirat, (int, const char *, mode_t))
NOT_SIMULATED(mknod, (const char *, mode_t, dev_t))
NOT_SIMULATED(mkfifo, (const char *, mode_t))
NOT_SIMULATED(chown, (const char *, uid_t, gid_t))
NOT_SIMULATED(lchown, (const char *, uid_t, gid_t))
NOT_SIMULATED(fchownat, (int, const char *, uid_t, gid_t, int))
NOT_SIMULATED(fchmodat, (int, const char *, mode_t, int))
EXPORT int chmod(const char *a, mode_t mo) {
  if (!active()) return (int) ret(raw_syscall6(SYS_fchmodat, AT_FDCWD, (long) a, mo, 0, 0, 0));
  Mapped m(a);
  return (int) ret(raw_syscall6(SYS_fchmodat, AT_FDCWD, (long) m.s, mo, 0, 0, 0));
}
EXPORT DIR *opendir(const char *p) {
  static auto real = (DIR * (*) (const char *) ) real_sym("opendir");
  if (!active()) return real(p);
  pt('o');
  if (int const e = FAIL("open", 30, EMFILE, EACCES, EIO)) {
    errno = e;
    return nullptr;
  }
  Mapped m(p);
  RT rt;
  return real(m.s);
}
EXPORT char *realpath(const char *p, char *out) {
  static auto real = (char *(*) (const char *, char *) ) real_sym("realpath");
  if (!active()) return real(p, out);
  Mapped m(p);
  if (m.s == p) {
    RT rt;
    return real(p, out);
  }
  char b[PATH_MAX];
  {
    RT rt;
    if (!real(m.s, b)) return nullptr;
  }
  const char *r = strncmp(b, g_root, g_rootn) ? b : b + g_rootn;
  if (!out) return strdup(r);
  return strcpy(out, r);
}
EXPORT char *getcwd(char *buf, size_t n) {
  char b[PATH_MAX];
  long const r = raw_syscall6(SYS_getcwd, (long) b, sizeof b, 0, 0, 0, 0);
  if (r < 0) {
    errno = (int) -r;
    return nullptr;
  }
  const char *s = active() && !strncmp(b, g_root, g_rootn) ? b + g_rootn : b;
  size_t const len = strlen(s) + 1;
  if (!buf) return strdup(s);
  if (len > n) {
    errno = ERANGE;
    return nullptr;
  }
  memcpy(buf, s, len);
  return buf;
}
EXPORT int chdir(const char *p) {
  if (!active()) return (int) ret(raw_syscall6(SYS_chdir, (long) p, 0, 0, 0, 0, 0));
  Mapped m(p);
  return (int) ret(raw_syscall6(SYS_chdir, (long) m.s, 0, 0, 0, 0, 0));
}

// ---- mappings -------------------------------------------------------------------------------------------
static void *do_mmap(void *a, size_t n, int prot, int fl, int fd, off_t o) {
  if (!active() || fd < 0 || (fl & (MAP_ANONYMOUS | MAP_FIXED))) return (void *) ret(raw_syscall6(SYS_mmap, (long) a, (long) n, prot, fl, fd, o));
  pt('M');
  if (int const e = FAIL("mmap", 40, ENOMEM, EACCES, EAGAIN)) {
    errno = e;
    return MAP_FAILED;
  }
  if (fd < NFD && g_fd[fd] != FD_OPEN) misuse("mmap of a descriptor that is %s", g_fd[fd] == FD_CLOSED ? "already closed" : "not its own");
  RT rt;
  if (!a) a = g_mapbase, fl |= MAP_FIXED_NOREPLACE;
  void *p = (void *) ret(raw_syscall6(SYS_mmap, (long) a, (long) n, prot, fl, fd, o));
  if (p != MAP_FAILED) {
    if (a == g_mapbase) g_mapbase += (n + 0x1fff) & ~0xfffUL;
    if (g_nmap == NMAP) simerr("map table");
    g_map[g_nmap++] = {(char *) p, n, true, false};
  }
  return p;
}
EXPORT void *mmap(void *a, size_t n, int prot, int fl, int fd, off_t o) { return do_mmap(a, n, prot, fl, fd, o); }
EXPORT void *mmap64(void *a, size_t n, int prot, int fl, int fd, off_t o) { return do_mmap(a, n, prot, fl, fd, o); }
EXPORT int munmap(void *a, size_t n) {
  if (!active()) return (int) ret(raw_syscall6(SYS_munmap, (long) a, (long) n, 0, 0, 0, 0));
  pt('U');
  char *p = (char *) a;
  for (int i = 0; i < g_nmap; i++) {
    Map &m = g_map[i];
    if (m.live && !m.host && m.p == p && m.n == n) {
      m.live = false;
      RT rt;
      return (int) ret(raw_syscall6(SYS_munmap, (long) a, (long) n, 0, 0, 0, 0));
    }
  }
  for (int i = 0; i < g_nmap; i++) {
    Map &m = g_map[i];
    if (m.live && p < m.p + m.n && m.p < p + n) {
      misuse("munmap of a mapping that is %s", m.host ? "not its own" : "another one or of another size");
      return 0;
    }
  }
  for (int i = 0; i < g_nmap; i++)
    if (g_map[i].p == p) {
      misuse("munmap of a mapping that is already unmapped");
      return 0;
    }
  if (n && p && a != MAP_FAILED) misuse("munmap of memory that was never mapped by it");
  return (int) err(EINVAL);
}

EXPORT pid_t getpid() { return active() ? g_simpid : (pid_t) raw_syscall6(SYS_getpid, 0, 0, 0, 0, 0, 0); }

// ---- processes --------------------------------------------------------------------------------------------
EXPORT FILE *popen(const char *cmd, const char *mode) {
  if (!active()) {
    static auto real = (FILE * (*) (const char *, const char *) ) real_sym("popen");
    return real(cmd, mode);
  }
  if (mode[0] != 'r') simerr("popen mode %s", mode);
  pt('p');
  if (int const e = FAIL("popen", 30, ENOMEM, EMFILE, EAGAIN)) {
    errno = e;
    return nullptr;
  }
  Proc *p = nullptr;
  for (auto &x: g_proc)
    if (!x.used) {
      p = &x;
      break;
    }
  if (!p) simerr("process table");
  {
    RT rt;
    p->used = true;
    size_t const n = strlen(cmd) * 2 + 4096;
    p->cmd = (char *) raw_syscall6(SYS_mmap, 0, (long) n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    rewrite(cmd, p->cmd, n);
  }
  // the child may run at once or only when its output is read
  if (!fault_pick("child-runs-late", 2)) {
    RT rt;
    run_proc(*p);
  }
  RT rt;
  cookie_io_functions_t f{ck_read, nullptr, nullptr, ck_close};
  FILE *s = fopencookie(p, "r", f);
  if (!s) simerr("fopencookie");
  p->f = s;
  g_popen_live++;
  return s;
}
EXPORT int pclose(FILE *f) {
  for (auto &p: g_proc)
    if (p.used && p.f == f) {
      if (p.closed) {
        misuse("pclose called twice");
        return (int) err(ECHILD);
      }
      if (active()) pt('P');
      int const e = active() ? FAIL("pclose", 30, ECHILD) : 0;
      static auto real = (int (*)(FILE *)) real_sym("fclose");
      {
        RT rt;
        run_proc(p);
        real(f);
        if (p.out) raw_syscall6(SYS_munmap, (long) p.out, (long) p.cap, 0, 0, 0, 0);
      }
      p.closed = true;
      p.f = nullptr;
      g_popen_live--;
      if (e) return (int) err(e);
      return p.status;
    }
  static auto real = (int (*)(FILE *)) real_sym("pclose");
  return real(f);
}
