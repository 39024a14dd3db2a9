// C02: thread_pool start-up and shutdown always terminate and leave nothing running.
#include "cmdr11/cmdr_pool.hh"
#include "common.h"
using cmdr::pool::thread_pool;
namespace {
  struct Shared {
    h::Cnt closed, ran;
  };
  void task_body(Shared &s, int kind) {
    SIM_CHECK(!s.closed.get(), "ran-after-join", "a task body started after join() had returned");
    if (kind == 1) sim::sleep_ns(500000);
    if (kind == 2) std::this_thread::yield();
    if (kind == 3) throw h::Boom(1);
    s.ran++;
    SIM_CHECK(!s.closed.get(), "ran-after-join", "a task body was still running after join() had returned");
  }
  void rendezvous(thread_pool &p, int n) {
    std::mutex m;
    std::condition_variable cv;
    int in = 0;
    std::vector<std::future<void>> fs;
    for (int i = 0; i < n; i++)
      fs.push_back(p.queue_task([&] {
        std::unique_lock<std::mutex> l(m);
        if (++in == n) cv.notify_all();
        cv.wait(l, [&] { return in >= n; });
      }));
    for (auto &f: fs) f.get();
  }
  int expect(int n) { return n > 0 ? n : (int) std::thread::hardware_concurrency(); }

  void life(bool faults) {
    static const int N[] = {1, 2, 3, 4, 0, -1};
    int const arg = N[sim::choose(6, "n")], n = expect(arg);
    Shared s;
    if (faults) sim::opt().thread_create_faults = true;
    std::unique_ptr<thread_pool> pool;
    try {
      pool = std::make_unique<thread_pool>(arg);
    } catch (std::system_error const &e) {
      sim::event("ctor failed");
      sim::cover("ctor-failed");
      SIM_CHECK(faults, "ctor-throws", "constructor threw %s without any fault", e.what());
      SIM_CHECK(sim::live_threads() == 0, "left-running", "%d threads left behind by a failed constructor", sim::live_threads());
      sim::nontrivial();
      return;
    }
    sim::opt().thread_create_faults = false;
    SIM_CHECK(pool->total_threads() == (std::size_t) n, "total", "total_threads()=%zu, wanted %d", pool->total_threads(), n);
    SIM_CHECK(sim::live_threads() == n, "workers", "%d live workers right after construction, wanted %d", sim::live_threads(), n);
    if (sim::chance(400, "rendezvous")) rendezvous(*pool, n);
    unsigned const k = sim::choose(5, "tasks");
    std::vector<std::future<void>> fs;
    for (unsigned i = 0; i < k; i++) {
      int const kind = (int) sim::choose(4, "kind");
      fs.push_back(pool->queue_task([&s, kind] { task_body(s, kind); }));
    }
    int const subs = (int) sim::choose(3, "racing-submitters");
    std::vector<std::thread> ts;
    std::vector<std::vector<std::future<void>>> sf(subs);
    for (int i = 0; i < subs; i++)
      ts.push_back(h::spawn([&, i] {
        for (int j = 0; j < 3; j++) {
          h::nap();
          sf[i].push_back(pool->queue_task([&s] { task_body(s, 0); }));
        }
      }));
    h::nap();
    bool const explicit_join = subs || sim::chance(500, "explicit-join");
    if (explicit_join) {
      pool->join();
      s.closed.set(1);
      sim::event("joined ran=%d", s.ran.get());
      for (auto &t: ts) t.join();
      SIM_CHECK(sim::live_threads() == 0, "left-running", "%d workers still run after join()", sim::live_threads());
      if (sim::chance(500, "again")) pool->join();
      if (sim::chance(300, "queue-after")) fs.push_back(pool->queue_task([&s] { task_body(s, 0); }));
      SIM_CHECK(pool->active_threads() == 0, "active-count", "active_threads()=%zu after join()", pool->active_threads());
    }
    pool.reset();
    s.closed.set(1);
    SIM_CHECK(sim::live_threads() == 0, "left-running", "%d threads still run after the pool has gone", sim::live_threads());
    sim::event("gone ran=%d", s.ran.get());
    sim::nontrivial();
  }
} // namespace
SCENARIO(life_cycle, 3) { life(false); }
SCENARIO(thread_creation_fails, 2) { life(true); }
SCENARIO(empty_pool, 1) {
  int const n = 1 + (int) sim::choose(4, "n");
  for (unsigned r = 1 + sim::choose(2, "rounds"); r-- > 0;) {
    thread_pool p(n);
    h::nap();
  }
  SIM_CHECK(sim::live_threads() == 0, "left-running", "%d threads left", sim::live_threads());
  sim::nontrivial();
}
