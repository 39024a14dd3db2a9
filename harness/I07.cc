// I07: stream redirection and the ios savers are always undone, also by exceptions thrown at any point.
#include "cmdr11/cmdr_ios.hh"
#include "cmdr11/cmdr_os_io_redirect.hh"
#include "common.h"
#include <sstream>
namespace {
  using namespace cmdr::os;
  struct Bufs {
    std::streambuf *in, *out, *err, *log;
    bool operator==(Bufs const &b) const { return in == b.in && out == b.out && err == b.err && log == b.log; }
  };
  Bufs now() { return {std::cin.rdbuf(), std::cout.rdbuf(), std::cerr.rdbuf(), std::clog.rdbuf()}; }
  // a buffer whose device fails now and then
  struct Buf : std::stringbuf {
    int id;
    std::string text;  // what arrived
    explicit Buf(int i) : id(i) {}
    int overflow(int c) override {
      if (sim::fault("stream-write", 30)) return traits_type::eof();
      if (c != traits_type::eof()) text += (char) c;
      return traits_type::not_eof(c);
    }
    std::streamsize xsputn(char const *s, std::streamsize n) override {
      if (sim::fault("stream-write", 30)) return 0;
      if (sim::fault("stream-throw", 15)) throw h::Boom(7);
      text.append(s, (size_t) n);
      return n;
    }
  };
  struct World {
    std::vector<std::unique_ptr<Buf>> out;
    std::vector<std::unique_ptr<std::stringbuf>> in;
    int depth_seen = 0;
    std::streambuf *o() {
      unsigned const k = sim::choose((unsigned) out.size() + 1, "out-buf");
      return k == out.size() ? nullptr : out[k].get();
    }
    std::streambuf *i() {
      unsigned const k = sim::choose((unsigned) in.size() + 1, "in-buf");
      return k == in.size() ? nullptr : in[k].get();
    }
  };
  void expect(Bufs const &want, char const *when) {
    Bufs const b = now();
    SIM_CHECK(b.in == want.in, "wrong-buffer", "std::cin has another buffer than expected %s", when);
    SIM_CHECK(b.out == want.out, "wrong-buffer", "std::cout has another buffer than expected %s", when);
    SIM_CHECK(b.err == want.err, "wrong-buffer", "std::cerr has another buffer than expected %s", when);
    SIM_CHECK(b.log == want.log, "wrong-buffer", "std::clog has another buffer than expected %s", when);
  }
  void scope(World &w, int depth);
  void use(World &w, int depth) {  // something happens in the scope
    Bufs const b = now();
    for (int k = (int) sim::choose(4, "use"); k-- > 0;) {
      switch (sim::choose(6, "what")) {
        case 1: {
          auto *t = dynamic_cast<Buf *>(std::cout.rdbuf());
          if (!t) break;
          size_t const before = t->text.size();
          std::cout << "some text";
          SIM_CHECK(t->text.substr(before) == "some text" || !std::cout.good(), "text-lost", "text written to std::cout did not arrive in its buffer");
          if (sim::chance(700, "clear")) std::cout.clear();
          break;
        }
        case 2: {
          auto *t = dynamic_cast<Buf *>(std::cerr.rdbuf());
          if (!t) break;
          size_t const before = t->text.size();
          std::cerr << 4711;
          SIM_CHECK(t->text.substr(before) == "4711" || !std::cerr.good(), "text-lost", "text written to std::cerr did not arrive in its buffer");
          if (sim::chance(700, "clear")) std::cerr.clear();
          break;
        }
        case 3: {
          std::string s;
          if (sim::choose(2, "to-the-end")) {
            while (std::getline(std::cin, s)) {}
            if (std::cin.eof()) sim::cover("read-to-the-end");
          } else
            std::cin >> s;
          if (sim::chance(700, "clear")) std::cin.clear();
          break;
        }
        case 4:
          if (sim::chance(400, "throw")) {
            sim::cover("exception");
            throw h::Boom(depth);
          }
          break;
        case 5: {
          sim::AllocFaults af;
          std::string const s(100 + depth, 'x');
          std::clog << s;
          if (sim::chance(700, "clear")) std::clog.clear();
          break;
        }
        default:
          if (depth < 7) scope(w, depth + 1);
      }
      expect(b, "after a nested scope has ended");
    }
  }
  void scope(World &w, int depth) {
    Bufs const before = now();
    Bufs want = before;
    if (depth > w.depth_seen) w.depth_seen = depth;
    unsigned const kind = sim::choose(6, "redirect");
    sim::event("scope %d kind %u", depth, kind);
    auto set = [](std::streambuf *&b, std::streambuf *n) {
      if (n) b = n;
    };
    try {
      switch (kind) {
        case 0: {
          auto *b = w.o();
          set(want.out, b);
          pipe_stdout_to p(b);
          expect(want, "in pipe_stdout_to's scope");
          use(w, depth);
          break;
        }
        case 1: {
          auto *b = w.o();
          set(want.err, b);
          pipe_stderr_to p(b);
          expect(want, "in pipe_stderr_to's scope");
          use(w, depth);
          break;
        }
        case 2: {
          auto *b = w.o();
          set(want.log, b);
          pipe_stdlog_to p(b);
          expect(want, "in pipe_stdlog_to's scope");
          use(w, depth);
          break;
        }
        case 3: {
          auto *b = w.i();
          set(want.in, b);
          pipe_stdin_to p(b);
          expect(want, "in pipe_stdin_to's scope");
          use(w, depth);
          break;
        }
        case 4: {
          auto *b = w.o();
          auto *i = w.i();
          set(want.out, b), set(want.err, b), set(want.log, b), set(want.in, i);
          pipe_all_to p(b, i);
          expect(want, "in pipe_all_to's scope");
          use(w, depth);
          break;
        }
        case 5: {  // owned by a pointer, several at once
          auto *b = w.o(), *c = w.o();
          set(want.out, b), set(want.log, c);
          auto p = std::make_unique<pipe_stdout_to>(b);
          auto q = std::make_unique<pipe_stdlog_to>(c);
          expect(want, "in the scope of two redirections");
          use(w, depth);
          if (sim::choose(2, "order")) q.reset(), p.reset();
          else p.reset(), q.reset();  // different streams: any order
          break;
        }
      }
    } catch (h::Boom const &) {
      expect(before, "after an exception has left the scope");
      sim::nontrivial();
      if (sim::choose(2, "rethrow")) throw;
      return;
    } catch (std::bad_alloc const &) {
      sim::cover("bad_alloc-left-scope");
      expect(before, "after bad_alloc has left the scope");
      throw;
    }
    expect(before, "after the scope has ended");
    sim::nontrivial();
  }
  struct Fmt {
    std::ios::fmtflags f;
    std::streamsize w, p;
    char fill;
    bool operator==(Fmt const &o) const { return f == o.f && w == o.w && p == o.p && fill == o.fill; }
  };
  Fmt fmt(std::ostream &os) { return {os.flags(), os.width(), os.precision(), os.fill()}; }
  void scramble(std::ostream &os) {
    switch (sim::choose(7, "manip")) {
      case 1: os << std::hex << std::uppercase << std::showbase; break;
      case 2: os << std::setw(9) << std::left; break;
      case 3: os << std::setprecision(2) << std::fixed; break;
      case 4: os << std::setfill('#'); break;
      case 5: os.unsetf(std::ios::basefield); break;
      case 6: os.flags(std::ios::fmtflags{}); break;
      default: os << std::boolalpha << std::showpos;
    }
  }
  void savers(std::ostream &os, int depth) {
    Fmt const before = fmt(os);
    bool const full = sim::choose(2, "saver");
    std::ios::iostate const mask = os.exceptions();
    auto check = [&](char const *when) {
      Fmt const a = fmt(os);
      SIM_CHECK(a.f == before.f, "flags", "the flags are not restored %s", when);
      if (full) SIM_CHECK(a == before, "format", "width, precision or fill are not restored %s", when);
      if (full) SIM_CHECK(os.exceptions() == mask, "exceptions-mask", "the exception mask is not restored %s", when);
    };
    sim::event("saver %d full %d mask %d", depth, full, (int) mask);
    bool entered = false;
    try {
      auto body = [&] {
        entered = true;
        for (int k = 1 + (int) sim::choose(4, "manips"); k-- > 0;) {
          scramble(os);
          if (sim::chance(250, "print")) os << 12.5 << ' ' << 255;
          if (depth < 4 && sim::chance(300, "nest")) savers(os, depth + 1);
          if (sim::chance(120, "throw")) throw h::Boom(depth);
        }
      };
      if (full) {
        cmdr::io::ios_state_saver s(os);
        body();
      } else {
        cmdr::io::ios_flags_saver s(os);
        body();
      }
    } catch (h::Boom const &) {
      check("after an exception");
      sim::cover("saver-exception");
      if (sim::choose(2, "rethrow")) throw;
      return;
    } catch (std::ios_base::failure const &) {
      SIM_CHECK(entered, "saver-throws", "constructing the saver threw");
      check("after a stream failure");
      sim::cover("stream-failure-left-scope");
      throw;
    }
    check("after the scope");
    sim::nontrivial();
  }
} // namespace
SCENARIO(redirections, 3) {
  sim::opt().alloc_permille = 60;
  World w;
  for (int i = 0; i < 4; i++) w.out.push_back(std::make_unique<Buf>(i));
  for (int i = 0; i < 2; i++) w.in.push_back(std::make_unique<std::stringbuf>("words to be read one by one " + std::to_string(i)));
  Buf o(10), e(11), l(12);
  std::stringbuf in("typed by the user");
  Bufs const real = now();
  std::cin.rdbuf(&in), std::cout.rdbuf(&o), std::cerr.rdbuf(&e), std::clog.rdbuf(&l);
  switch (sim::chance(150, "no-buffer") ? sim::choose(4, "which") : 9) {  // a stream may have no buffer
    case 0: std::cin.rdbuf(nullptr); break;
    case 1: std::cout.rdbuf(nullptr); break;
    case 2: std::cerr.rdbuf(nullptr); break;
    case 3: std::clog.rdbuf(nullptr); break;
  }
  Bufs const start = now();
  for (int k = 1 + (int) sim::choose(3, "top"); k-- > 0;) {
    try {
      scope(w, 0);
    } catch (h::Boom const &) {
    } catch (std::bad_alloc const &) {
    }
    expect(start, "at the end");
  }
  std::cin.rdbuf(real.in), std::cout.rdbuf(real.out), std::cerr.rdbuf(real.err), std::clog.rdbuf(real.log);
}
SCENARIO(state_savers, 2) {
  Buf b(1);
  std::ostream os(&b);
  if (sim::chance(500, "mask")) os.exceptions(sim::choose(2, "bits") ? std::ios::badbit | std::ios::failbit : std::ios::badbit);
  for (int k = (int) sim::choose(3, "pre"); k-- > 0;) scramble(os);
  for (int k = 1 + (int) sim::choose(3, "top"); k-- > 0;) {
    try {
      savers(os, 0);
    } catch (h::Boom const &) {
    } catch (std::ios_base::failure const &) {
    }
    os.clear();
  }
}
