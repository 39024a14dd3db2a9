// L01: every cmdr_print call writes exactly one whole line with the complete message, also from several threads.
#include "cmdr11/cmdr_log.hh"
#include "common.h"
#include <algorithm>
#include <cstdarg>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <map>
#include <sys/mman.h>
#include <unistd.h>

// the stdio calls: each is atomic (stdio locks the stream), other threads may run before and after it
namespace {
  bool tracing = false;
  std::atomic<int> calls{0};
  void io_point() {
    if (!tracing) return;
    calls.fetch_add(1, std::memory_order_relaxed);
    sim::yield();
  }
  template<class F>
  F real(char const *name) {
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
  }
} // namespace
extern "C" {
#define NOSAN __attribute__((no_sanitize("thread"), noinline, used))
NOSAN int vfprintf(FILE *f, char const *fmt, va_list va) {
  static auto r = real<int (*)(FILE *, char const *, va_list)>("vfprintf");
  io_point();
  return r(f, fmt, va);
}
NOSAN int vprintf(char const *fmt, va_list va) { return vfprintf(stdout, fmt, va); }
NOSAN int printf(char const *fmt, ...) {
  va_list va;
  va_start(va, fmt);
  int const n = vfprintf(stdout, fmt, va);
  va_end(va);
  return n;
}
NOSAN int fprintf(FILE *f, char const *fmt, ...) {
  va_list va;
  va_start(va, fmt);
  int const n = vfprintf(f, fmt, va);
  va_end(va);
  return n;
}
NOSAN size_t fwrite(void const *p, size_t s, size_t n, FILE *f) {
  static auto r = real<size_t (*)(void const *, size_t, size_t, FILE *)>("fwrite");
  io_point();
  return r(p, s, n, f);
}
NOSAN int fputs(char const *s, FILE *f) {
  static auto r = real<int (*)(char const *, FILE *)>("fputs");
  io_point();
  return r(s, f);
}
NOSAN int puts(char const *s) {
  static auto r = real<int (*)(char const *)>("puts");
  io_point();
  return r(s);
}
NOSAN int fputc(int c, FILE *f) {
  static auto r = real<int (*)(int, FILE *)>("fputc");
  io_point();
  return r(c, f);
}
NOSAN int putc(int c, FILE *f) { return fputc(c, f); }
NOSAN int putchar(int c) { return fputc(c, stdout); }
}
namespace {
  struct Msg {
    int id;
    std::string text;
    int line = 0;
    int64_t w0 = 0, w1 = 0;
    bool threw = false, done = false;
  };
  std::string stamp(int64_t wall) {
    time_t const t = (time_t) (wall / 1000000000);
    tm r{};
    gmtime_r(&t, &r);
    char b[40];
    strftime(b, sizeof b, "%D %T", &r);
    return b;
  }
  std::string make_text() {
    static const char *const PIECE[] = {"word", " ", "100%", "%s", "\t", "\xc3\xa4\xe2\x82\xac", "[debug]:", "x", "(f)", "%n%d", ""};
    std::string s;
    if (sim::chance(150, "long")) return std::string(80 + sim::choose(9000, "len"), (char) ('a' + sim::choose(26, "letter")));
    for (unsigned n = sim::choose(8, "pieces"); n-- > 0;) s += PIECE[sim::choose(11, "piece")];
    return s;
  }
  void say(Msg &m) {
    sim::event("say %d %zu", m.id, m.text.size());
    m.w0 = sim::wall_now();
    try {
      sim::AllocFaults af;
      switch (sim::choose(4, "form")) {
        case 0: m.line = __LINE__; cmdr_print("<%d:%s:%d>", m.id, m.text.c_str(), m.id); break;
        case 1: m.line = __LINE__; cmdr_print("<%1d:%.*s:%1d>", m.id, (int) m.text.size(), m.text.c_str(), m.id); break;
        case 2: m.line = __LINE__; cmdr_print("<%ld:%s%c%lld%s", (long) m.id, m.text.c_str(), ':', (long long) m.id, ">"); break;
        default: m.line = __LINE__; cmdr_print("%s%d%s%s%s%d%s", "<", m.id, ":", m.text.c_str(), ":", m.id, ">");
      }
    } catch (std::bad_alloc const &) {
      m.threw = true;
      sim::cover("no-memory");
    }
    m.w1 = sim::wall_now();
    m.done = true;
  }
} // namespace
SCENARIO(lines, 1) {
  int const fd = memfd_create("log", 0), keep = dup(1);
  fflush(stdout);
  dup2(fd, 1);
  // with a small buffer lines pass through it in several pieces, as they do when the output is a terminal or a pipe
  static char buf[1 << 16];
  unsigned const mode = sim::choose(3, "buffering");
  if (mode == 0) setvbuf(stdout, buf, _IOFBF, sizeof buf);
  else if (mode == 1) setvbuf(stdout, buf, _IOLBF, 256);
  else setvbuf(stdout, nullptr, _IONBF, 0);
  bool const oom = sim::chance(250, "oom");
  sim::opt().alloc_permille = oom ? 100 : 0;
  sim::opt().clock_jumps = false;
  int const T = 1 + (int) sim::choose(4, "threads");
  std::vector<std::vector<Msg>> msgs((size_t) T);
  int id = 0;
  for (auto &v: msgs)
    for (unsigned n = 1 + sim::choose(5, "messages"); n-- > 0;) v.push_back({id++, make_text()});
  if (T > 1) sim::nontrivial();
  Msg alone{id++, make_text()};
  say(alone);
  msgs[0].insert(msgs[0].begin(), alone);
  tracing = true;
  std::vector<std::thread> ts;
  for (int t = 1; t < T; t++)
    ts.push_back(h::spawn([&, t] {
      for (auto &m: msgs[(size_t) t]) {
        h::nap();
        say(m);
      }
    }));
  for (auto &m: msgs[0])
    if (!m.done) say(m);
  for (auto &t: ts) t.join();
  tracing = false;
  sim::opt().alloc_permille = 0;
  fflush(stdout);
  std::string out((size_t) lseek(fd, 0, SEEK_END), 0);
  SIM_CHECK(pread(fd, &out[0], out.size(), 0) == (ssize_t) out.size(), "harness", "cannot read the captured output");
  dup2(keep, 1);
  close(fd);
  close(keep);
  std::string shape_head, shape_tail;  // of the first line, printed alone: all lines look alike
  // what came out, line by line
  std::map<int, std::pair<size_t, std::string>> seen;
  size_t no = 0;
  if (!out.empty()) SIM_CHECK(out.back() == '\n', "cut", "the output does not end with a whole line");
  for (size_t at = 0; at < out.size();) {
    size_t const e = out.find('\n', at);
    std::string const l = out.substr(at, e - at);
    at = e + 1;
    auto const a = l.find('<');
    int const n = a == std::string::npos ? -1 : atoi(l.c_str() + a + 1);
    SIM_CHECK(n >= 0 && n < id && l.compare(a, 2 + std::to_string(n).size(), "<" + std::to_string(n) + ":") == 0, "stray", "a line that belongs to no message: '%s'", l.substr(0, 300).c_str());
    SIM_CHECK(seen.emplace(n, std::make_pair(no++, l)).second, "twice", "message %d came out twice", n);
  }
  for (auto &v: msgs) {
    size_t last = 0;
    bool first = true;
    for (auto &m: v) {
      auto it = seen.find(m.id);
      if (m.threw && it == seen.end()) continue;
      SIM_CHECK(!m.threw || oom, "threw", "message %d: an exception", m.id);
      SIM_CHECK(it != seen.end(), "lost", "message %d did not come out", m.id);
      std::string const &l = it->second.second, body = "<" + std::to_string(m.id) + ":" + m.text + ":" + std::to_string(m.id) + ">";
      auto const a = l.find('<');
      SIM_CHECK(l.compare(a, body.size(), body) == 0, "damaged", "message %d (%zu characters) came out changed or cut: '%s'", m.id, m.text.size(), l.substr(0, 300).c_str());
      // nothing of another message on the line: one mark before it, one place after it
      std::string const head = l.substr(0, a), tail = l.substr(a + body.size());
      SIM_CHECK(head.find("[debug]") != std::string::npos && head.find('(') == std::string::npos && tail.find("[debug]") == std::string::npos, "mixed", "message %d shares its line: '%s'", m.id, l.substr(0, 300).c_str());
      std::string sh = head, stl = tail;
      for (int64_t w = m.w0 / 1000000000; w <= m.w1 / 1000000000; w++)
        if (auto const p = sh.find(stamp(w * 1000000000)); p != std::string::npos) sh.replace(p, stamp(0).size(), "TIME");
      if (auto const p = stl.find("L01.cc:" + std::to_string(m.line)); p != std::string::npos) stl.replace(p, 7 + std::to_string(m.line).size(), "PLACE");
      if (shape_head.empty()) shape_head = sh, shape_tail = stl;
      SIM_CHECK(sh == shape_head && stl == shape_tail, "mixed", "the line of message %d differs from the line of a message printed alone: '%s' ... '%s'", m.id, head.c_str(), tail.c_str());
      std::string const place = ":" + std::to_string(m.line) + " ";
      SIM_CHECK(tail.find("L01.cc" + place) != std::string::npos && tail.find("say") != std::string::npos, "place", "message %d of line %d names another place: '%s'", m.id, m.line, tail.substr(0, 300).c_str());
      bool ok = false;
      for (int64_t w = m.w0 / 1000000000; w <= m.w1 / 1000000000; w++) ok = ok || head.find(stamp(w * 1000000000)) != std::string::npos;
      SIM_CHECK(ok, "stamp", "message %d was written between %s and %s and is stamped '%s'", m.id, stamp(m.w0).c_str(), stamp(m.w1).c_str(), head.c_str());
      SIM_CHECK(first || it->second.first > last, "order", "message %d came out before an earlier one of the same thread", m.id);
      first = false;
      last = it->second.first;
    }
  }
}
