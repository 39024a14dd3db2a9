// C06: timer_killer ends a periodic loop promptly and never early.
#include "cmdr11/cmdr_pool.hh"
#include "common.h"
using cmdr::pool::timer_killer;
namespace {
  void go(bool exact) {
    timer_killer tk;
    static const int64_t D[] = {1000, 1000000, 1000000000, 3600ll * 1000000000, 24ll * 3600 * 1000000000, 1500001, 40ll * 24 * 3600 * 1000000000, 400ll * 24 * 3600 * 1000000000};
    bool const jumps = sim::opt().clock_jumps = sim::chance(400, "jumps");
    // when nobody is stalled (no early timers) time passes only while every thread waits, and the end must be prompt
    sim::opt().early_timers = !exact;
    int const L = 1 + (int) sim::choose(3, "loops");
    std::atomic<int> kill_invoked{0};
    std::atomic<uint64_t> killed_at{UINT64_MAX};
    std::vector<std::thread> ts;
    std::vector<h::Cnt> periods(L);
    int64_t mind = INT64_MAX;
    for (int i = 0; i < L; i++) {
      int64_t const d = D[sim::choose(8, "d")];
      if (d < mind) mind = d;
      int const how = (int) sim::choose(jumps ? 2 : 3, "how");
      ts.push_back(h::spawn([&, d, how, i] {
        for (;;) {
          bool const was_killed = killed_at.load(std::memory_order_relaxed) != UINT64_MAX;
          uint64_t const t0 = sim::now();
          bool ok;
          if (how == 0) ok = tk.wait_for(std::chrono::nanoseconds(d));
          else if (how == 1) ok = tk.wait_until(std::chrono::steady_clock::now() + std::chrono::nanoseconds(d));
          else ok = tk.wait_until(std::chrono::system_clock::now() + std::chrono::nanoseconds(d));
          uint64_t const t1 = sim::now();
          if (ok) {
            SIM_CHECK(kill_invoked.load(std::memory_order_relaxed), "early-end", "the loop was told to end before kill()");
            if (exact && killed_at.load() != UINT64_MAX && t0 < killed_at.load())
              SIM_CHECK(t1 < killed_at.load() + 10000000, "late-end", "the loop ended %lld ns after kill(), period %lld ns", (long long) (t1 - killed_at.load()), (long long) d);
            break;
          }
          SIM_CHECK(t1 - t0 >= (uint64_t) d, "short-period", "a period of %lld ns lasted %lld ns", (long long) d, (long long) (t1 - t0));
          SIM_CHECK(!was_killed, "period-after-kill", "a complete period passed after kill() had returned");
          if (killed_at.load() != UINT64_MAX && how < 2)
            SIM_CHECK(killed_at.load() >= t0 + d, "period-after-kill", "the wait went on although kill() had returned %lld ns before its end", (long long) (t0 + d - killed_at.load()));
          periods[i]++;
          sim::event("tick %d", i);
        }
        sim::event("end %d", i);
        sim::nontrivial();
      }));
    }
    int const when = (int) sim::choose(4, "when");
    if (when == 1) h::nap();
    else if (when == 2) sim::sleep_ns((uint64_t) mind * (1 + sim::choose(40, "periods")) + sim::choose(3, "off") * 1000);
    else if (when == 3) sim::sleep_ns((uint64_t) mind * (1 + sim::choose(3, "times")));  // exactly when a period ends
    kill_invoked = 1;
    int const k = (int) sim::choose(2, "kill");
    if (k == 0) tk.kill();
    else tk.set_for_all();
    {
      sim::Quiet q;
      killed_at = sim::now();
    }
    sim::event("killed");
    for (auto &t: ts) t.join();
    SIM_CHECK(tk.terminated(), "not-terminated", "terminated() is false after kill()");
    SIM_CHECK(tk.wait_for(std::chrono::hours(1)), "revived", "wait_for is false after kill()");
    SIM_CHECK(tk.wait_for(), "revived", "wait_for() is false after kill()");
  }
} // namespace
SCENARIO(stalls, 2) { go(false); }
SCENARIO(prompt, 2) { go(true); }
SCENARIO(single_set, 1) {  // set() ends a single loop; unlimited waits end only by kill
  timer_killer tk;
  h::Cnt killed;
  auto t = h::spawn([&] {
    int const how = (int) sim::choose(3, "how");
    bool ok = true;
    if (how == 0) tk.wait();
    else if (how == 1) ok = tk.wait_for();
    else ok = tk.wait_until();
    SIM_CHECK(ok && killed.get(), "early-end", "an unlimited wait (how=%d) ended before kill()", how);
    sim::nontrivial();
  });
  h::nap();
  killed.set(1);
  tk.set();
  t.join();
}
