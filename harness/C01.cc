// C01: thread_pool runs each accepted task exactly once and resolves its future.
#include "cmdr11/cmdr_pool.hh"
#include "common.h"
using cmdr::pool::thread_pool;

namespace {
  enum Kind { RET, THROW, SLOW, YIELDY, NEST };
  struct Task {
    int id{}, kind{};
    h::Cnt started, finished, on_worker;
    std::future<void> fut;
    std::future<std::string> sfut;  // tasks that return a value
    bool value = false;
    template<class F>
    void with_future(F &&f) { value ? f(sfut) : f(fut); }
    bool accepted = false, refused = false;
    std::unique_ptr<Task> child;
  };
  struct World {
    thread_pool *pool{};
    int n{};
    std::atomic<unsigned> outsiders{0};  // bit set of thread ids that are not pool workers
    void outsider() { outsiders.fetch_or(1u << sim::tid(), std::memory_order_relaxed); }
    h::Cnt ran;
    bool allocf{};
  };

  void submit(World &w, Task &t);
  void body_common(World &w, Task &t) {
    if (t.started++ != 0) sim::fail("task-ran-twice", "task %d started a second time", t.id);
    sim::event("start %d", t.id);
    SIM_CHECK(!(w.outsiders.load(std::memory_order_relaxed) >> sim::tid() & 1), "wrong-thread", "task %d runs on a thread that is no pool worker", t.id);
    std::size_t const a = w.pool->active_threads();
    SIM_CHECK(a >= 1 && a <= (std::size_t) w.n, "active-count", "active_threads()=%zu inside a task of a pool of %d", a, w.n);
    switch (t.kind) {
      case SLOW: sim::sleep_ns(1 + 1000000ull * sim::choose(4, "slow")); break;
      case YIELDY: std::this_thread::yield(); break;
      case NEST: submit(w, *t.child); break;
      default: break;
    }
    w.ran++;
    t.finished++;
    sim::event("end %d", t.id);
  }
  std::string result_of(int id) { return "the-result-of-task-number-" + std::to_string(id); }
  // a callable that is queued again and again: queueing must leave the caller's object as it was
  struct Fn {
    World *w;
    Task *t;
    std::string pay = std::string(24, 'y');
    std::shared_ptr<int> more = std::make_shared<int>(7);
    void operator()() const {
      body_common(*w, *t);
      SIM_CHECK(pay == std::string(24, 'y') && more && *more == 7, "task-damaged", "the callable of task %d was damaged", t->id);
      if (t->kind == THROW) throw h::Boom(t->id);
    }
  };
  void submit(World &w, Task &t) {
    unsigned const how = sim::choose(5, "submit-how");
    std::optional<Fn> fn;
    if (how == 1 || how == 2) fn.emplace(Fn{&w, &t});
    t.value = how >= 3;
    try {
      auto go = [&] {
        if (how == 1) t.fut = w.pool->queue_task(*fn);
        else if (how == 2) t.fut = w.pool->queue_task(const_cast<Fn const &>(*fn));
        else if (how == 3) t.sfut = w.pool->queue_task([&w, &t, pay = std::make_unique<std::string>(result_of(t.id))]() -> std::string {
          body_common(w, t);
          if (t.kind == THROW) throw h::Boom(t.id);
          return *pay;
        });
        else if (how == 4) {
          auto const f = [&w, &t, pay = result_of(t.id)]() -> std::string {
            body_common(w, t);
            if (t.kind == THROW) throw h::Boom(t.id);
            return pay;
          };
          t.sfut = w.pool->queue_task(f);
        } else t.fut = w.pool->queue_task([&w, &t, pay = std::string(24, 'x')] {
          body_common(w, t);
          SIM_CHECK(pay == std::string(24, 'x'), "task-damaged", "the callable of task %d was damaged", t.id);
          if (t.kind == THROW) throw h::Boom(t.id);
        });
      };
      if (w.allocf) {
        sim::AllocFaults af;
        go();
      } else
        go();
      t.accepted = true;
      if (fn) SIM_CHECK(fn->pay == std::string(24, 'y') && fn->more && *fn->more == 7, "source-changed", "queueing task %d changed the caller's callable", t.id);
      sim::event("queued %d", t.id);
    } catch (std::bad_alloc const &) {
      t.refused = true;
      sim::cover("queue_task-bad_alloc");
    }
  }
  // the future is ready: check what it carries
  void check_result(Task &t, bool may_be_discarded) {
    if (!t.accepted) {
      return;  // queue_task threw for lack of memory: may or may not have been queued, never twice (checked in the body)
    }
    bool got = false, broken = false;
    try {
      if (t.value) SIM_CHECK(t.sfut.get() == result_of(t.id), "wrong-result", "future of task %d carries another result", t.id);
      else t.fut.get();
      got = true;
      SIM_CHECK(t.kind != THROW, "lost-exception", "future of throwing task %d reports normal completion", t.id);
    } catch (h::Boom const &b) {
      got = true;
      SIM_CHECK(t.kind == THROW && b.id == t.id, "wrong-exception", "future of task %d carries exception of %d", t.id, b.id);
    } catch (std::future_error const &e) {
      broken = e.code() == std::future_errc::broken_promise;
      SIM_CHECK(broken, "future-error", "future of task %d: %s", t.id, e.what());
    }
    if (got) SIM_CHECK(t.started.get() == 1 && t.finished.get() == 1, "not-exactly-once", "task %d delivered a result after %d/%d executions", t.id, t.started.get(), t.finished.get());
    if (broken) {
      SIM_CHECK(t.started.get() == 0, "lost-result", "task %d was executed but its future is broken", t.id);
      SIM_CHECK(may_be_discarded, "lost-task", "task %d was accepted before shutdown began and waited for, yet never ran", t.id);
      sim::cover("discarded-task");
    }
    sim::event("result %d %s", t.id, got ? "ok" : "broken");
  }
  void check_ready(Task &t) {
    if (!t.accepted) return;
    std::future_status st{};
    t.with_future([&](auto &f) { st = f.wait_for(std::chrono::seconds(0)); });
    SIM_CHECK(st == std::future_status::ready, "pending-future", "future of task %d is still pending after the pool has gone", t.id);
  }

  enum Mode { WAIT_ALL, DROP, JOIN_RACE };
  void run(Mode mode) {
    World w;
    int const n = w.n = 1 + (int) (sim::chance(60, "many-workers") ? 4 + sim::choose(12, "workers") : sim::choose(4, "workers"));
    int const S = (int) sim::choose(3, "submitters");
    w.allocf = sim::chance(250, "alloc-faults");
    std::vector<std::vector<std::unique_ptr<Task>>> tasks(S + 1);
    int id = 0;
    for (auto &v: tasks)
      for (unsigned k = sim::choose(6, "tasks"); k-- > 0;) {
        auto t = std::make_unique<Task>();
        t->id = id++;
        t->kind = (int) sim::choose(5, "kind");
        if (t->kind == NEST) {
          t->child = std::make_unique<Task>();
          t->child->id = id++;
          t->child->kind = (int) sim::choose(4, "ckind");
        }
        v.push_back(std::move(t));
      }
    auto each = [&](auto fn) {
      for (auto &v: tasks)
        for (auto &t: v) {
          fn(*t);
          if (t->child && t->finished.get() && !t->refused) fn(*t->child);
        }
    };
    w.outsider();
    {
      thread_pool pool(n);
      w.pool = &pool;
      SIM_CHECK(pool.total_threads() == (std::size_t) n, "total", "total_threads()=%zu, wanted %d", pool.total_threads(), n);
      h::Cnt closed;
      std::vector<std::thread> subs;
      for (int s = 0; s < S; s++)
        subs.push_back(h::spawn([&, s] {
          w.outsider();
          for (auto &t: tasks[s + 1]) {
            h::nap();
            submit(w, *t);
          }
        }));
      for (auto &t: tasks[0]) submit(w, *t);
      if (mode == JOIN_RACE) {
        h::nap();
        pool.join();
        for (auto &t: subs) t.join();
      } else {
        for (auto &t: subs) t.join();
        if (mode == WAIT_ALL) {
          each([&](Task &t) {
            if (!t.accepted) return;
            t.with_future([](auto &f) { f.wait(); });
            SIM_CHECK(t.finished.get() == 1, "early-future", "future of task %d became ready before the task was done", t.id);
          });
          bool unsure = false;
          each([&](Task &t) { unsure |= t.refused; });
          sim::wait_quiescent();
          if (!unsure) SIM_CHECK(pool.active_threads() == 0, "active-count", "active_threads()=%zu when all tasks are done", pool.active_threads());
          // every worker must still be alive: n tasks that wait for one another
          if (sim::chance(500, "rendezvous")) {
            std::mutex m;
            std::condition_variable cv;
            int in = 0;
            std::vector<std::future<void>> fs;
            for (int i = 0; i < n; i++)
              fs.push_back(pool.queue_task([&] {
                std::unique_lock<std::mutex> l(m);
                if (++in == n) cv.notify_all();
                cv.wait(l, [&] { return in >= n; });
              }));
            for (auto &f: fs) f.get();
            sim::cover("rendezvous-of-all-workers");
          }
        }
      }
    }
    w.pool = nullptr;
    each([&](Task &t) { check_ready(t); });
    each([&](Task &t) { check_result(t, mode != WAIT_ALL); });
    SIM_CHECK(sim::live_threads() == 0, "left-running", "%d threads still run after the pool has gone", sim::live_threads());
    if (w.ran.get()) sim::nontrivial();
  }
} // namespace
SCENARIO(wait_all, 3) { run(WAIT_ALL); }
SCENARIO(drop_on_destroy, 2) { run(DROP); }
SCENARIO(join_while_submitting, 2) { run(JOIN_RACE); }

// some workers are kept busy: the idle ones must take every other task; also chains of dependent tasks
SCENARIO(idle_workers_take_all, 3) {
  int const n = 1 + (int) sim::choose(4, "workers"), busy = (int) sim::choose((unsigned) n, "busy"), m = 1 + (int) (sim::chance(50, "many-tasks") ? sim::choose(300, "tasks") : sim::choose(20, "tasks"));
  h::Cnt in, out, done;
  std::atomic<bool> open{false};
  std::mutex mx;
  std::condition_variable cv;
  {
    thread_pool pool(n);
    std::vector<std::future<void>> fs;
    auto gate = [&] {
      in++;
      std::unique_lock<std::mutex> l(mx);
      cv.wait(l, [&] { return open.load(); });
      out++;
    };
    bool const settle = sim::chance(700, "settle");
    for (int i = 0; i < busy; i++) fs.push_back(pool.queue_task(gate));
    if (settle) sim::wait_quiescent();
    int const S = 1 + (int) sim::choose(3, "submitters");
    std::vector<std::vector<std::future<void>>> sub((size_t) S);
    std::vector<std::thread> ts;
    bool const pause = sim::chance(300, "pause");
    for (int s = 0; s < S; s++)
      ts.push_back(h::spawn([&, s] {
        for (int i = s; i < m; i += S) {
          if (pause) h::nap();
          sub[(size_t) s].push_back(pool.queue_task([&, i] {
            done++;
            sim::event("ran %d", i);
          }));
        }
      }));
    for (auto &t: ts) t.join();
    sim::wait_quiescent();
    SIM_CHECK(in.get() == busy, "task-not-started", "%d of %d blocking tasks were started, idle workers exist", in.get(), busy);
    SIM_CHECK(done.get() == m, "task-not-started", "%d of %d tasks ran although %d of %d workers are idle", done.get(), m, n - busy, n);
    SIM_CHECK((int) pool.active_threads() == busy, "active-count", "active_threads()=%zu with %d tasks running", pool.active_threads(), busy);
    {
      std::lock_guard<std::mutex> l(mx);
      open = true;
    }
    cv.notify_all();
    for (auto &f: fs) f.get();
    for (auto &v: sub)
      for (auto &f: v) f.get();
    sim::wait_quiescent();
    SIM_CHECK(pool.active_threads() == 0, "active-count", "active_threads()=%zu when all tasks are done", pool.active_threads());
    sim::nontrivial();
  }
  SIM_CHECK(done.get() == m && out.get() == busy, "not-exactly-once", "%d executions of %d tasks", done.get() + out.get(), m + busy);
}
