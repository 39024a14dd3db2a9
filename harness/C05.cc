// C05: conditional_wait loses no signal and its timeouts tell the truth.
#include "cmdr11/cmdr_pool.hh"
#include "common.h"
using namespace cmdr::pool;
namespace {
  // what the setters have done; all values are simulated times (ns) / counts
  struct Facts {
    std::atomic<int> invoked{0}, completed{0};
    std::atomic<uint64_t> done_at{UINT64_MAX}, wall_done_at{UINT64_MAX};  // when the condition certainly held
    int need = 1;
    bool jumps = false;
    bool started() const { return invoked.load(std::memory_order_relaxed) >= need; }
    bool certain() const { return completed.load(std::memory_order_relaxed) >= need; }
    template<class F>
    void doing(F f) {
      invoked.fetch_add(1, std::memory_order_relaxed);
      f();
      if (completed.fetch_add(1, std::memory_order_relaxed) + 1 == need) {
        sim::Quiet q;
        wall_done_at = (uint64_t) sim::wall_now();
        done_at = sim::now();
      }
    }
  };
  template<class CW>
  void waiter(CW &cw, Facts &f) {
    static const int64_t D[] = {0, 1, 37000, 1000000, 50000000, 3600ll * 1000000000, -1000000, 1500001, 86400ll * 40 * 1000000000, 86400ll * 400 * 1000000000};
    for (int r = 1 + (int) sim::choose(3, "rounds"); r-- > 0;) {
      int const how = (int) sim::choose(6, "how");
      int64_t const d = D[sim::choose(10, "timeout")];
      bool const before = f.certain();
      uint64_t const t0 = sim::now();
      bool ok = true;
      uint64_t dl = UINT64_MAX;
      bool timed = false, wall = false;
      sim::event("wait how=%d d=%lld", how, (long long) d);
      switch (how) {
        case 0: cw.wait(); break;
        case 1:
          timed = true;
          dl = sim::now() + d;
          // also in coarser and in floating-point units, when the value can be expressed exactly
          if (d % 3600000000000ll == 0 && sim::chance(500, "unit")) ok = cw.wait_for(std::chrono::hours(d / 3600000000000ll));
          else if (d % 1000000 == 0 && sim::chance(500, "unit")) ok = cw.wait_for(std::chrono::milliseconds(d / 1000000));
          else if (d % 1000000000 == 0 && sim::chance(500, "unit")) ok = cw.wait_for(std::chrono::duration<double>(double(d / 1000000000)));
          else ok = cw.wait_for(std::chrono::nanoseconds(d));
          break;
        case 2: {
          timed = true;
          auto const tp = std::chrono::steady_clock::now() + std::chrono::nanoseconds(d);
          dl = (uint64_t) tp.time_since_epoch().count();
          ok = cw.wait_until(tp);
          break;
        }
        case 3: {
          timed = wall = true;
          auto const tp = std::chrono::system_clock::now() + std::chrono::nanoseconds(d);
          dl = (uint64_t) std::chrono::duration_cast<std::chrono::nanoseconds>(tp.time_since_epoch()).count();
          ok = cw.wait_until(tp);
          break;
        }
        case 4:
          ok = cw.wait_for();
          SIM_CHECK(ok, "unlimited-wait-failed", "wait_for() without a timeout returned false");
          break;
        default:
          ok = cw.wait_until();
          SIM_CHECK(ok, "unlimited-wait-failed", "wait_until() without a deadline returned false");
          break;
      }
      if (ok) {
        SIM_CHECK(f.started(), "early-return", "how=%d returned as satisfied after %d of %d signals had even begun", how, f.invoked.load(), f.need);
      } else {
        SIM_CHECK(timed, "untimed-false", "an unlimited wait returned false");
        SIM_CHECK(!before, "lost-signal", "false although the condition held before the call");
        uint64_t const nowv = wall ? (uint64_t) sim::wall_now() : sim::now();
        // the wall clock may have been set back after the timeout; only the steady clock is checked under jumps
        if (!wall || !f.jumps) {
          SIM_CHECK((int64_t) nowv >= (int64_t) dl, "early-timeout", "false %lld ns before the deadline", (long long) (dl - nowv));
          uint64_t const done = wall ? f.wall_done_at.load() : f.done_at.load();
          SIM_CHECK(!(done != UINT64_MAX && (int64_t) done < (int64_t) dl), "lost-signal", "false although the condition held %lld ns before the deadline", (long long) (dl - done));
        }
        else SIM_CHECK(sim::wall_peak(t0) >= (int64_t) dl, "early-timeout", "false although the realtime clock has never been later than %lld ns before the deadline", (long long) ((int64_t) dl - sim::wall_peak(t0)));
        sim::cover("timeout");
      }
      sim::event("-> %d", ok);
      sim::nontrivial();
    }
  }
  struct SetJumps {
    SetJumps(Facts &f) {
      f.jumps = sim::opt().clock_jumps = sim::chance(400, "jumps");
    }
  };
  // one waiter: set() is enough
  template<class CW>
  void single(CW &cw, int need) {
    Facts f;
    f.need = need;
    SetJumps sj(f);
    int const setters = 1 + (int) sim::choose(3, "setters");
    auto w = h::spawn([&] { waiter(cw, f); });
    std::vector<std::thread> ts;
    for (int s = 0; s < setters; s++) {
      // sometimes there are more signals than needed
      int const share = need / setters + (s < need % setters ? 1 : 0) + (sim::chance(200, "more") ? 1 : 0);
      ts.push_back(h::spawn([&, share] {
        for (int i = 0; i < share; i++) {
          h::nap();
          int const how = (int) sim::choose(3, "set");
          f.doing([&] {
            if (how == 0) cw.set_for_all();
            else if (how == 1) cw.set();
            else cw_setter<CW> raii(cw);
          });
          sim::event("set");
        }
      }));
    }
    w.join();
    for (auto &t: ts) t.join();
    for (int extra = (int) sim::choose(3, "extra"); extra-- > 0;) f.doing([&] { sim::choose(2, "set-extra") ? cw.set() : cw.set_for_all(); });
    // now it holds for ever
    SIM_CHECK(cw.wait_for(std::chrono::nanoseconds(0)), "lost-signal", "wait_for(0) is false after %d signals", need);
    cw.wait();
    SIM_CHECK((int) cw.val() == (need > 1 ? f.completed.load() : (int) cw.val()), "count", "val() is %d after %d signals", (int) cw.val(), f.completed.load());
  }
  // many waiters: the last signal is set_for_all()
  template<class CW, class KILL>
  void many(CW &cw, int need, KILL kill) {
    Facts f;
    f.need = need;
    SetJumps sj(f);
    int const W = 2 + (int) sim::choose(3, "waiters");
    std::vector<std::thread> ts;
    for (int i = 0; i < W; i++) ts.push_back(h::spawn([&] { waiter(cw, f); }));
    if (need > 1) {
      auto s = h::spawn([&] {
        for (int i = 0; i < need - 1; i++) {
          h::nap();
          if (sim::chance(500, "one")) f.doing([&] { cw.set(); });
          else f.doing([&] { cw.set_for_all(); });
        }
      });
      s.join();
    }
    h::nap();
    f.doing([&] { kill(cw); });
    sim::event("set_for_all");
    for (int extra = (int) sim::choose(3, "extra"); extra-- > 0;) {
      h::nap();
      f.doing([&] { sim::choose(2, "set-extra") ? cw.set() : cw.set_for_all(); });
    }
    for (auto &t: ts) t.join();
    SIM_CHECK(cw.wait_for(std::chrono::nanoseconds(0)), "lost-signal", "wait_for(0) is false after set_for_all()");
  }
  int how_many() { return 1 + (int) (sim::chance(50, "many") ? sim::choose(400, "n") : sim::choose(4, "n")); }
} // namespace
SCENARIO(bool_single, 2) {
  conditional_wait_for_bool cw;
  single(cw, 1);
}
SCENARIO(bool_many, 2) {
  conditional_wait_for_bool cw;
  many(cw, 1, [](auto &c) { sim::choose(2, "kill") ? c.kill() : c.set_for_all(); });
}
SCENARIO(int_single, 2) {
  int const n = how_many();
  conditional_wait_for_int cw(n);
  SIM_CHECK(cw.max_val() == n, "max", "max_val()=%d", cw.max_val());
  single(cw, n);
}
SCENARIO(int_many, 2) {
  int const n = how_many();
  conditional_wait_for_int cw(n);
  many(cw, n, [](auto &c) { c.set_for_all(); });
}
SCENARIO(nobody_sets, 1) {  // pure timeouts
  conditional_wait_for_int cw(2);
  Facts f;
  f.need = 2;
  f.doing([&] { cw.set(); });
  static const int64_t D[] = {0, 1000, 1000000, 7200ll * 1000000000, 86400ll * 30 * 1000000000, 86400ll * 500 * 1000000000};
  for (int i = 0; i < 3; i++) {
    int64_t const d = D[sim::choose(6, "d")];
    uint64_t const t0 = sim::now();
    bool const ok = cw.wait_for(std::chrono::nanoseconds(d));
    SIM_CHECK(!ok, "early-return", "true although the condition never held");
    SIM_CHECK(sim::now() - t0 >= (uint64_t) d, "early-timeout", "returned after %lld of %lld ns", (long long) (sim::now() - t0), (long long) d);
  }
  sim::nontrivial();
}
