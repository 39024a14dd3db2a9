// C03: thread_pool_lite dispatches in FIFO order, drains on destruction, rejects late work.
#include "cmdr11/cmdr_pool.hh"
#include "common.h"
using cmdr::pool::thread_pool_lite;
namespace {
  struct Task {
    int id{}, kind{};
    std::atomic<uint64_t> accepted{0}, invoked{0}, started{0}, finished{0};
    h::Cnt starts;
    std::future<int> fut;
    bool ok = false, rejected = false;
  };
  struct World {
    thread_pool_lite *pool{};
    int n{};
    std::vector<std::unique_ptr<Task>> all;
    h::Cnt gone;
  };
  int body(World &w, Task &t, int a, std::string const &s) {
    SIM_CHECK(!w.gone.get(), "ran-after-destruction", "task %d runs after the pool has gone", t.id);
    if (t.starts++ != 0) sim::fail("task-ran-twice", "task %d ran twice", t.id);
    {
      // FIFO: of the tasks whose enqueue() had returned before enqueue() of this one was called, at most
      // n-1 (held by the other workers) may not have started yet
      sim::Quiet q;
      uint64_t const inv = t.invoked.load();
      int missing = 0;
      for (auto &o: w.all)
        if (o.get() != &t && o->accepted.load() && o->accepted.load() < inv && !o->starts.get()) missing++;
      t.started.store(sim::step() + 1);
      if (missing > w.n - 1) sim::fail("fifo", "task %d starts while %d tasks accepted earlier have not started (pool of %d)", t.id, missing, w.n);
    }
    sim::event("start %d", t.id);
    SIM_CHECK(a == t.id + 100 && s == "arg", "wrong-args", "task %d got wrong arguments", t.id);
    if (t.kind == 1) sim::sleep_ns(100000);
    if (t.kind == 2) std::this_thread::yield();
    t.finished.store(1);
    if (t.kind == 3) throw h::Boom(t.id);
    return t.id * 3 + 1;
  }
  void put(World &w, Task &t, bool af = false) {
    t.invoked.store(sim::step() + 1);
    try {
      auto go = [&] {
        t.fut = w.pool->enqueue([&w, &t](int a, std::string const &s) { return body(w, t, a, s); }, t.id + 100, std::string("arg"));
      };
      if (af) {
        sim::AllocFaults f;
        go();
      } else
        go();
      t.ok = true;
      t.accepted.store(sim::step() + 1);
      sim::event("accepted %d", t.id);
    } catch (std::bad_alloc const &) {
      sim::cover("enqueue-bad_alloc");
      t.rejected = true;
    } catch (std::runtime_error const &) {
      t.rejected = true;
      sim::event("rejected %d", t.id);
      sim::cover("rejected-after-stop");
    }
  }
  void verify(World &w) {
    for (auto &p: w.all) {
      Task &t = *p;
      if (t.rejected) SIM_CHECK(t.starts.get() == 0, "rejected-ran", "task %d ran although enqueue() threw", t.id);
      if (!t.ok) continue;
      SIM_CHECK(t.starts.get() == 1 && t.finished.load(), "not-drained", "task %d was accepted but ran %d times before the destructor returned", t.id, t.starts.get());
      SIM_CHECK(t.fut.wait_for(std::chrono::seconds(0)) == std::future_status::ready, "pending-future", "future of task %d pending after the pool has gone", t.id);
      try {
        int const v = t.fut.get();
        SIM_CHECK(t.kind != 3 && v == t.id * 3 + 1, "wrong-value", "future of task %d carries %d", t.id, v);
      } catch (h::Boom const &b) {
        SIM_CHECK(t.kind == 3 && b.id == t.id, "wrong-exception", "future of task %d carries exception of %d", t.id, b.id);
      }
      sim::nontrivial();
    }
  }
  void make(World &w, int k) {
    for (int i = 0; i < k; i++) {
      w.all.push_back(std::make_unique<Task>());
      w.all.back()->id = i;
      w.all.back()->kind = (int) sim::choose(4, "kind");
    }
  }
} // namespace

SCENARIO(fifo_and_drain, 3) {
  World w;
  w.n = 1 + (int) sim::choose(3, "workers");
  int const S = 1 + (int) sim::choose(3, "submitters");
  bool const af = sim::chance(200, "alloc-faults");
  int const per = (int) sim::choose(5, "per");
  make(w, S * per);
  {
    thread_pool_lite pool((size_t) w.n);
    w.pool = &pool;
    std::vector<std::thread> ts;
    for (int s = 1; s < S; s++)
      ts.push_back(h::spawn([&, s] {
        for (int j = 0; j < per; j++) {
          h::nap();
          put(w, *w.all[s * per + j], af);
        }
      }));
    for (int j = 0; j < per; j++) put(w, *w.all[j], af);
    for (auto &t: ts) t.join();
    h::nap();
  }
  w.gone.set(1);
  SIM_CHECK(sim::live_threads() == 0, "left-running", "%d threads left", sim::live_threads());
  verify(w);
}
SCENARIO(enqueue_during_shutdown, 2) {
  World w;
  w.n = 1 + (int) sim::choose(3, "workers");
  int const per = 1 + (int) sim::choose(4, "per");
  make(w, 4 * per);
  bool const certain = sim::chance(400, "certain");
  {
    thread_pool_lite pool((size_t) w.n);
    w.pool = &pool;
    int const parents = 1 + (int) sim::choose(2, "parents");
    for (int p = 0; p < parents; p++)
      pool.enqueue([&w, per, p, certain] {
        if (certain && p == 0) {
          sim::wait_quiescent();  // now main is blocked in the destructor: shutdown has begun
          Task &t = *w.all[3 * per];
          put(w, t);
          SIM_CHECK(t.rejected, "late-enqueue", "enqueue() succeeded after shutdown began");
        } else
          for (int j = 0; j < per; j++) {
            h::nap();
            put(w, *w.all[p * per + j]);
          }
      });
    if (!certain) h::nap();
  }
  w.gone.set(1);
  SIM_CHECK(sim::live_threads() == 0, "left-running", "%d threads left", sim::live_threads());
  verify(w);
  sim::nontrivial();
}
SCENARIO(thread_creation_fails, 2) {
  World w;
  w.n = 1 + (int) sim::choose(4, "workers");
  make(w, 3);
  sim::opt().thread_create_faults = true;
  try {
    thread_pool_lite pool((size_t) w.n);
    sim::opt().thread_create_faults = false;
    w.pool = &pool;
    for (auto &t: w.all) put(w, *t);
  } catch (std::system_error const &) {
    sim::cover("ctor-failed");
    sim::nontrivial();
    sim::event("ctor failed");
  }
  w.gone.set(1);
  SIM_CHECK(sim::live_threads() == 0, "left-running", "%d threads left behind", sim::live_threads());
  verify(w);
}

// tasks may block on one another as long as a worker is idle; deep queues included
SCENARIO(blocked_workers, 3) {
  int const n = 1 + (int) sim::choose(4, "workers"), gates = (int) sim::choose((unsigned) n, "gates"), m = 1 + (int) sim::choose(40, "tasks");
  bool const preload = sim::chance(600, "preload");  // all workers held while the queue fills up
  std::mutex mx;
  std::condition_variable cv;
  bool open_all = false, open_gate = false;
  std::vector<h::Cnt> runs((size_t) (n + gates + m));
  std::vector<int> order;
  auto wait_for = [&](bool &f) {
    std::unique_lock<std::mutex> l(mx);
    cv.wait(l, [&] { return f; });
  };
  auto set = [&](bool &f) {
    {
      std::lock_guard<std::mutex> l(mx);
      f = true;
    }
    cv.notify_all();
  };
  {
    thread_pool_lite pool((size_t) n);
    std::vector<std::future<void>> fs;
    int id = 0;
    if (preload) {
      for (int i = 0; i < n; i++, id++) fs.push_back(pool.enqueue([&, id] { runs[(size_t) id]++; wait_for(open_all); }));
      sim::wait_quiescent();
    }
    int const first = id;
    // the blocking tasks are spread over the queue
    std::vector<char> kind((size_t) (gates + m), 0);
    for (int g = 0; g < gates; g++) kind[sim::choose((unsigned) (gates + m), "where")] = 1;
    int blocked = 0;
    for (int i = 0; i < gates + m; i++, id++) {
      bool const b = kind[(size_t) i] != 0;
      blocked += b;
      fs.push_back(pool.enqueue([&, id, b] {
        runs[(size_t) id]++;
        {
          sim::Quiet q;
          order.push_back(id);
        }
        sim::event("start %d%s", id, b ? " blocks" : "");
        if (b) wait_for(open_gate);
      }));
    }
    if (preload) set(open_all);
    sim::wait_quiescent();
    for (int i = 0; i < gates + m; i++)
      SIM_CHECK(runs[(size_t) (first + i)].get() == 1, "not-started", "task %d was accepted and %d of %d workers are idle, but it has been started %d times", first + i, n - blocked, n, runs[(size_t) (first + i)].get());
    if (n == 1)
      for (size_t i = 1; i < order.size(); i++) SIM_CHECK(order[i] > order[i - 1], "fifo", "task %d started after %d", order[i - 1], order[i]);
    set(open_gate);
    if (sim::chance(500, "wait"))
      for (auto &f: fs) f.get();
    sim::nontrivial();
  }
  for (auto &r: runs) SIM_CHECK(r.get() <= 1, "task-ran-twice", "a task ran %d times", r.get());
}
