// T01: high_res_duration reports steady time, once, whatever the realtime clock does.
#include "cmdr11/cmdr_chrono.hh"
#include "common.h"
#include <iostream>
#include <sstream>
using cmdr::chrono::high_res_duration;
namespace {
  struct CoutCapture {
    std::stringstream ss;
    std::streambuf *old;
    CoutCapture() : old(std::cout.rdbuf(ss.rdbuf())) {}
    ~CoutCapture() { std::cout.rdbuf(old); }
  };
  void step(bool &jumped) {
    static const int64_t D[] = {0, 1, 999, 1000, 1000000, 999999999, 1000000000, 61ll * 1000000000, 3600ll * 1000000000, 26ll * 3600 * 1000000000, 400ll * 86400 * 1000000000};
    switch (sim::choose(4, "step")) {
      case 0: sim::sleep_ns((uint64_t) D[sim::choose(11, "sleep")] + sim::choose(2000, "ns")); break;
      case 1: {
        static const int64_t J[] = {-1, 1, -1000000, 1000000, -3600ll * 1000000000, 3600ll * 1000000000, -20ll * 365 * 86400 * 1000000000, 20ll * 365 * 86400 * 1000000000};
        sim::clock_jump(J[sim::choose(8, "jump")]);
        jumped = true;
        break;
      }
      case 2: sim::yield(); break;
      default: break;
    }
  }
  // one measured scope; `depth` nested scopes inside
  void measured(int depth, bool shared_cout) {
    int n_reports = 0;
    bool jumped = false;
    uint64_t a0 = 0, a1 = 0, b0 = 0;
    int const how = (int) sim::choose(3, "leave");
    bool const with_cb = shared_cout || sim::chance(700, "callback");
    bool const cb_ret = !shared_cout && sim::chance(300, "print-too");
    std::stringstream out;
    long long got = -1;
    auto cb = [&](auto d) {
      uint64_t const b1 = sim::now();
      n_reports++;
      got = (long long) std::chrono::duration_cast<std::chrono::nanoseconds>(d).count();
      SIM_CHECK(got >= 0, "negative", "an elapsed time of %lld ns was reported", got);
      SIM_CHECK((uint64_t) got >= b0 - a1, "too-short", "%lld ns were reported, at least %llu had passed", got, (unsigned long long) (b0 - a1));
      SIM_CHECK((uint64_t) got <= b1 - a0, "too-long", "%lld ns were reported, at most %llu had passed", got, (unsigned long long) (b1 - a0));
      return cb_ret;
    };
    std::string printed;
    auto body = [&] {
      for (int i = (int) sim::choose(4, "steps"); i > 0; i--) step(jumped);
      if (depth > 0 && sim::chance(500, "nested")) measured(depth - 1, shared_cout);
      for (int i = (int) sim::choose(3, "steps"); i > 0; i--) step(jumped);
      b0 = sim::now();
    };
    auto run = [&] {
      a0 = sim::now();
      if (with_cb) {
        high_res_duration hrd(cb);
        a1 = sim::now();
        body();
        if (how == 1) throw h::Boom(1);
        if (how == 2) return;
      } else {
        high_res_duration hrd;
        a1 = sim::now();
        body();
        if (how == 1) throw h::Boom(1);
        if (how == 2) return;
      }
    };
    {
      std::unique_ptr<CoutCapture> cap;
      if (!shared_cout) cap = std::make_unique<CoutCapture>();
      try {
        run();
        SIM_CHECK(how != 1, "swallowed", "the exception leaving the scope was lost");
      } catch (h::Boom const &) {}
      if (cap) printed = cap->ss.str();
    }
    uint64_t const b1 = sim::now();
    SIM_CHECK(n_reports == (with_cb ? 1 : 0), "reports", "%d reports through the callback", n_reports);
    if (!shared_cout) {
      bool const want = !with_cb || cb_ret;
      SIM_CHECK(printed.empty() == !want, "printed", "printed '%s'", printed.c_str());
      if (want) {
        // the printed text names the elapsed time: it must be the text of some duration within the bounds
        if (a0 == a1 && b0 == b1) {
          std::stringstream e;
          e << "It took " << std::chrono::nanoseconds(b0 - a0) << '\n';
          SIM_CHECK(printed == e.str(), "printed", "printed '%s', %llu ns had passed", printed.c_str(), (unsigned long long) (b0 - a0));
          sim::cover("printed-exact");
        }
      }
    }
    if (jumped) sim::cover("jumped-while-measuring");
    if (b0 > a1) sim::nontrivial();
    sim::event("measured %lld", got);
  }
} // namespace
SCENARIO(single, 3) {
  sim::opt().clock_jumps = sim::chance(400, "jumps");
  for (int i = 1 + (int) sim::choose(4, "n"); i > 0; i--) measured(2, false);
}
SCENARIO(threads, 2) {
  sim::opt().clock_jumps = sim::chance(500, "jumps");
  std::vector<std::thread> ts;
  for (int i = 2 + (int) sim::choose(3, "threads"); i > 0; i--)
    ts.push_back(h::spawn([] { for (int k = 1 + (int) sim::choose(2, "n"); k > 0; k--) measured(1, true); }));
  for (auto &t: ts) t.join();
}
// ended by another thread than the one that began it
SCENARIO(handed_over, 1) {
  sim::opt().clock_jumps = sim::chance(500, "jumps");
  int n = 0;
  long long got = -1;
  uint64_t const a0 = sim::now();
  auto p = std::make_unique<high_res_duration>([&](auto d) {
    n++;
    got = (long long) std::chrono::duration_cast<std::chrono::nanoseconds>(d).count();
    return false;
  });
  uint64_t const a1 = sim::now();
  bool j = false;
  step(j);
  uint64_t b0 = 0, b1 = 0;
  auto t = h::spawn([&] {
    bool jj = false;
    step(jj);
    b0 = sim::now();
    p.reset();
    b1 = sim::now();
  });
  t.join();
  SIM_CHECK(n == 1, "reports", "%d reports through the callback", n);
  SIM_CHECK(got >= 0 && (uint64_t) got >= b0 - a1 && (uint64_t) got <= b1 - a0, "wrong", "%lld ns were reported, %llu..%llu had passed", got, (unsigned long long) (b0 - a1), (unsigned long long) (b1 - a0));
  sim::nontrivial();
}
