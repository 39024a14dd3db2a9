"""planted bugs: edits (file, old, new), the property they break, and a demonstration"""
SEEDS = {}
def seed(sid, **k): SEEDS[sid] = k

seed("c01-active-lost-update", property="C01",
  needs="two workers finishing or starting tasks at the same time",
  breaks="active_threads() is updated by load+store instead of an atomic increment, so an update is lost and it never returns to 0",
  edits=[("cmdr_pool.hh", "                           ++_active;\n                           try {", "                           _active.store(_active.load(std::memory_order_acquire) + 1, std::memory_order_release);\n                           try {")],
  demo=r'''
#include "cmdr11/cmdr_pool.hh"
#include <cstdio>
int main() {
  for (int round = 0; round < 40; round++) {
    cmdr::pool::thread_pool pool(8);
    std::vector<std::future<void>> fs;
    for (int i = 0; i < 3000; i++) fs.push_back(pool.queue_task([] {}));
    for (auto &f: fs) f.get();
    for (int k = 0; k < 200 && pool.active_threads() != 0; k++) std::this_thread::sleep_for(std::chrono::milliseconds(1));
    if (pool.active_threads() != 0) {
      printf("all tasks are done but active_threads() is %zu\n", pool.active_threads());
      return 1;
    }
  }
  return 0;
}
''')

seed("c04-notify-if-empty", property="C04",
  needs="two messages put in before the first woken consumer has got the lock, with two consumers waiting",
  breaks="emplace_back wakes a consumer only when the queue was empty, so the second of two waiting consumers sleeps on although a message is there",
  edits=[("cmdr_pool.hh", """    void emplace_back(T &&t) {
      {
        locker l_(_m);
        _data.emplace_back(std::move(t));
      }
      _cv.notify_one();
    }""", """    void emplace_back(T &&t) {
      bool wake;
      {
        locker l_(_m);
        wake = _data.empty(); // with messages pending a consumer is awake already
        _data.emplace_back(std::move(t));
      }
      if (wake) _cv.notify_one();
    }""")],
  demo=r'''
#include "cmdr11/cmdr_pool.hh"
#include <cstdio>
int main() {
  for (int round = 0; round < 3000; round++) {
    cmdr::pool::threaded_message_queue<int> q;
    std::atomic<int> got{0};
    auto consumer = [&] { if (q.pop_front()) got++; };
    std::thread a(consumer), b(consumer);
    std::this_thread::sleep_for(std::chrono::microseconds(200));
    q.emplace_back(1);
    q.emplace_back(2);
    for (int k = 0; k < 3000 && got != 2; k++) std::this_thread::sleep_for(std::chrono::milliseconds(1));
    int const g = got;
    q.clear();
    a.join();
    b.join();
    if (g != 2) {
      printf("two messages, two waiting consumers, %d woken (round %d)\n", g, round);
      return 1;
    }
  }
  return 0;
}
''')

seed("c05-set-outside-lock", property="C05",
  needs="a waiter between evaluating the condition and going to sleep while set_for_all() runs",
  breaks="set_for_all changes the condition without the mutex: the wakeup can fall between a waiter's check and its sleep and is lost",
  edits=[("cmdr_pool.hh", """    void set_for_all() {
      // cmdr_debug("%s", __FUNCTION_NAME__);
      {
        std::unique_lock<std::mutex> const lk(_m);
        _s();
      }
      _cv.notify_all();""", """    void set_for_all() {
      // cmdr_debug("%s", __FUNCTION_NAME__);
      std::unique_lock<std::mutex> lk(_m, std::try_to_lock); // a waiter holding it is about to look anyway
      _s();
      if (lk) lk.unlock();
      _cv.notify_all();""")],
  demo=r'''
#include "cmdr11/cmdr_pool.hh"
#include <cstdio>
#include <cstdlib>
int main() {
  std::atomic<int> flag{0};
  std::atomic<bool> checking{false}, done{false};
  auto *cw = new cmdr::pool::conditional_wait<int>(
      [&] {
        bool const r = flag != 0;
        checking = true;
        if (!r) std::this_thread::sleep_for(std::chrono::milliseconds(200));  // a slow condition
        return r;
      },
      [&] { flag = 1; });
  std::thread w([&] { cw->wait(); done = true; });
  while (!checking) std::this_thread::yield();
  cw->set_for_all();
  for (int k = 0; k < 5000 && !done; k++) std::this_thread::sleep_for(std::chrono::milliseconds(1));
  if (!done) {
    puts("the waiter missed set_for_all()");
    std::_Exit(1);
  }
  w.join();
  return 0;
}
''')

seed("c03-batching-worker", property="C03",
  needs="more than four tasks queued per worker, and a task depending on the next one",
  breaks="a worker of thread_pool_lite takes several tasks at once when the queue is long, so they start out of order and behind a blocked one although other workers are idle",
  edits=[("cmdr_pool.hh", """                std::function<void()> task;

                {""", """                std::function<void()> task, next;

                {"""),
         ("cmdr_pool.hh", """                  task = std::move(this->tasks.front());
                  this->tasks.pop();
                }

                task();""", """                  task = std::move(this->tasks.front());
                  this->tasks.pop();
                  if (this->tasks.size() > 4 * this->workers.size()) { // much to do: spare a lock round trip
                    next = std::move(this->tasks.front());
                    this->tasks.pop();
                  }
                }

                task();
                if (next) next();""")],
  demo=r'''
#include "cmdr11/cmdr_pool.hh"
#include <cstdio>
#include <cstdlib>
int main() {
  auto *pool = new cmdr::pool::thread_pool_lite(2);
  std::promise<void> go, second;
  auto g = go.get_future().share();
  auto s = second.get_future().share();
  pool->enqueue([g] { g.wait(); });
  pool->enqueue([g] { g.wait(); });
  std::this_thread::sleep_for(std::chrono::milliseconds(100));
  auto f1 = pool->enqueue([s] { s.wait(); });  // waits for the task accepted right after it
  auto f2 = pool->enqueue([&second] { second.set_value(); });
  for (int i = 0; i < 20; i++) pool->enqueue([] {});
  go.set_value();
  if (f1.wait_for(std::chrono::seconds(10)) != std::future_status::ready) {
    puts("the second task is not started although a worker is idle");
    std::_Exit(1);
  }
  delete pool;
  return 0;
}
''')

seed("c06-wall-clock-wait", property="C06",
  needs="the system's realtime clock being set while a periodic loop waits",
  breaks="timer_killer::wait_for computes its deadline on the system clock: after the clock was set back/forward a period is cut short or stretched",
  edits=[("cmdr_pool.hh", "      return conditional_wait_for_bool::wait_for(rel_time);\n", "      return conditional_wait_for_bool::wait_until(std::chrono::system_clock::now() + rel_time);\n")],
  demo=r'''
#include "cmdr11/cmdr_pool.hh"
#include <cstdio>
#include <ctime>
// the realtime clock is set forward by an hour right after it was read once
static std::atomic<int> reads{0};
std::chrono::system_clock::time_point std::chrono::system_clock::now() noexcept {
  timespec t;
  clock_gettime(CLOCK_REALTIME, &t);
  auto d = std::chrono::seconds(t.tv_sec) + std::chrono::nanoseconds(t.tv_nsec) - std::chrono::hours(reads++ == 0 ? 1 : 0);
  return time_point(std::chrono::duration_cast<duration>(d));
}
int main() {
  cmdr::pool::timer_killer tk;
  auto const t0 = std::chrono::steady_clock::now();
  bool const killed = tk.wait_for(std::chrono::milliseconds(300));
  auto const d = std::chrono::steady_clock::now() - t0;
  if (killed || d < std::chrono::milliseconds(300)) {
    printf("the period of 300ms lasted %lld us\n", (long long) std::chrono::duration_cast<std::chrono::microseconds>(d).count());
    return 1;
  }
  return 0;
}
''')

seed("c10-set-with-shared-lock", property="C10",
  needs="two threads setting different keys below different top-level parts at the same time",
  breaks="store::_set drops the node's lock before it descends, and the index entries of the parents are then added without it",
  edits=[("cmdr_var_t.hh", """        it->second->_set(
            remains.c_str(), [&](char const *end_key, node_pointer ptr) {
              // small_string sk(key);
              // sk += '.';
              // sk += end_key;
              UNUSED(end_key, ptr);
              _indexes.emplace(std::make_pair(key, ptr));""", """        auto const child = it->second;
        lock.unlock(); // the child has its own lock
        child->_set(
            remains.c_str(), [&](char const *end_key, node_pointer ptr) {
              // small_string sk(key);
              // sk += '.';
              // sk += end_key;
              UNUSED(end_key, ptr);
              _indexes.emplace(std::make_pair(key, ptr));""")],
  demo=r'''
#include "cmdr11/cmdr_var_t.hh"
#include <cstdio>
#include <thread>
int main() {
  for (int round = 0; round < 60; round++) {
    cmdr::vars::store s;
    std::vector<std::thread> ts;
    for (int t = 0; t < 8; t++)
      ts.emplace_back([&s, t] {
        for (int i = 0; i < 400; i++) s.set_raw(("g" + std::to_string(t) + ".k" + std::to_string(i)).c_str(), i);
      });
    for (auto &t: ts) t.join();
    for (int t = 0; t < 8; t++)
      for (int i = 0; i < 400; i++)
        if (!s.has("", ("g" + std::to_string(t) + ".k" + std::to_string(i)).c_str())) {
          printf("g%d.k%d was lost\n", t, i);
          return 1;
        }
  }
  return 0;
}
''')

seed("c08-emit-on-snapshot-nolock", property="C08",
  needs="remove_observer returning while another thread is inside emit, followed by a new emit... or an observer removed during an emit with CNS",
  breaks="emit caches the list of observers and refreshes it only when its length changed: after one was removed and another added the removed one is notified",
  edits=[("cmdr_common.hh", """      if (AutoLock) {
        std::lock_guard _l(_m);
        for (auto const &wp: _observers)
          if (auto spt = wp.lock())
            spt->observe(event_or_subject);
      } else {""", """      if (AutoLock) {
        std::lock_guard _l(_m);
        if (_last.size() != _observers.size()) _last = _observers; // changed
        for (auto const &wp: _last)
          if (auto spt = wp.lock())
            spt->observe(event_or_subject);
      } else {"""),
      ("cmdr_common.hh", "    std::vector<observer_t> _observers{};\n", "    std::vector<observer_t> _observers{};\n    std::vector<observer_t> _last{}; // as seen by the last emit\n")],
  demo=r'''
#include "cmdr11/cmdr_common.hh"
#include <cstdio>
struct Obs : cmdr::util::observer<int> {
  int n = 0;
  void observe(int const &) override { n++; }
};
int main() {
  cmdr::util::observable<int> subject;
  std::shared_ptr<cmdr::util::observer<int>> a = std::make_shared<Obs>(), b = std::make_shared<Obs>();
  subject += a;
  subject.emit(1);
  subject -= a;
  subject += b;
  subject.emit(2);
  int const na = static_cast<Obs &>(*a).n, nb = static_cast<Obs &>(*b).n;
  if (na != 1 || nb != 1) {
    printf("a was notified %d times, b %d times\n", na, nb);
    return 1;
  }
  return 0;
}
''')

seed("i01-nul-ends-output", property="I01",
  needs="a NUL byte in the command's output",
  breaks="the end of the readable area is found with strlen: output ends at the first NUL byte",
  edits=[("cmdr_process.hh", """        setg((char *) this->output.data(), (char *) this->output.data(), (char *) (this->output.data() + this->output.size()));

        _ef =""", """        setg((char *) this->output.data(), (char *) this->output.data(), (char *) (this->output.data() + std::strlen(this->output.c_str())));

        _ef =""")],
  demo=r"""
#include "cmdr11/cmdr_process.hh"
#include <cstdio>
#include <iterator>
int main() {
  cmdr::process::exec e("printf 'ab\\000cd'");
  std::string const s{std::istreambuf_iterator<char>(e), std::istreambuf_iterator<char>()};
  if (s != std::string("ab\0cd", 5)) {
    printf("%zu bytes captured of 5\n", s.size());
    return 1;
  }
  return 0;
}
""")

seed("c02-abort-outside-lock", property="C02",
  needs="a worker between looking at the abort mark and going to sleep while join() aborts the queue",
  breaks="threaded_message_queue::clear marks the queue as aborted without the mutex: the wakeup can fall between a worker's check and its sleep, the worker sleeps for ever and join() never returns",
  edits=[("cmdr_pool.hh", """        const locker l_(_m);
        _abort = true;
        _data.clear();
      }
      _cv.notify_all();""", """        const locker l_(_m);
        _data.clear();
      }
      _abort = true; // pop_front leaves as soon as it sees this
      _cv.notify_all();""")],
  demo=r'''
#include <dlfcn.h>
#include <pthread.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include "cmdr11/cmdr_pool.hh"
// an unlucky schedule: whoever unlocks is suspended right after it, and whoever is going to sleep is suspended right before it
static std::atomic<bool> slow{false};
static thread_local bool slow_unlock = false;
extern "C" int pthread_mutex_unlock(pthread_mutex_t *m) {
  static auto real = (int (*)(pthread_mutex_t *)) dlsym(RTLD_NEXT, "pthread_mutex_unlock");
  int const rc = real(m);
  if (slow && slow_unlock) usleep(300000);
  return rc;
}
extern "C" int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  static auto real = (int (*)(pthread_cond_t *, pthread_mutex_t *)) dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2");
  if (slow) usleep(900000);
  return real(c, m);
}
int main() {
  static cmdr::pool::threaded_message_queue<int> q;
  static std::atomic<bool> go{false}, ended{false};
  std::thread consumer([] {
    while (!go) {}
    usleep(100000);  // clear() has begun
    q.pop_front();
    ended = true;
  });
  slow = slow_unlock = true;
  go = true;
  q.clear();
  slow = false;
  for (int i = 0; i < 100 && !ended; i++) usleep(100000);
  if (!ended) {
    puts("a consumer sleeps on although the queue was aborted");
    fflush(stdout);
    std::_Exit(1);
  }
  consumer.join();
  return 0;
}
''')

seed("c09-null-check-only", property="C09",
  needs="two threads asking for the instance for the first time at the same time",
  breaks="the singleton is created by whoever finds the pointer empty, without any synchronization: it is constructed twice and one of them destroyed under its user",
  edits=[("cmdr_common.hh", "    static std::unique_ptr<T> instance{new T{token{}}};\n    return *instance;", "    static std::unique_ptr<T> instance;\n    if (!instance) // once created there's nothing to synchronize\n      instance.reset(new T{token{}});\n    return *instance;")],
  demo=r'''
#include "cmdr11/cmdr_common.hh"
#include <atomic>
#include <cstdio>
#include <thread>
static std::atomic<int> made{0};
struct One : cmdr::util::singleton<One> {
  explicit One(token) {
    std::this_thread::sleep_for(std::chrono::milliseconds(200));
    made++;
  }
};
int main() {
  std::thread a([] { One::instance(); }), b([] { One::instance(); });
  a.join();
  b.join();
  if (made != 1) printf("constructed %d times\n", made.load());
  return made != 1;
}
''')

seed("c07-search-outside-lock", property="C07",
  needs="an add_observer of another thread between the search and the removal (mode without copy-and-swap)",
  breaks="remove_observer rearranges the list before it takes the lock: a concurrent registration is lost or read while the vector is reallocated",
  edits=[("cmdr_common.hh", """          std::lock_guard _l(_m);
          _observers.erase(std::remove_if(_observers.begin(), _observers.end(), [o](observer_t const &rhs) {
                             if (auto spt = rhs.lock())
                               return spt.get() == o;
                             return false;
                           }),
                           _observers.end());
        }""", """          auto it = std::remove_if(_observers.begin(), _observers.end(), [o](observer_t const &rhs) {
            if (auto spt = rhs.lock())
              return spt.get() == o;
            return false;
          });
          std::lock_guard _l(_m);
          _observers.erase(it, _observers.end());
        }""")],
  demo=r'''
#include "cmdr11/cmdr_common.hh"
#include <atomic>
#include <cstdio>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
struct Obs : cmdr::util::observer<int> {
  int n = 0;
  void observe(int const &) override { n++; }
};
using Base = cmdr::util::observer<int>;
static int once() {
  cmdr::util::observable<int, true, false> subject;
  std::atomic<bool> go{false};
  std::vector<std::shared_ptr<Base>> kept[2], gone[2];
  std::vector<std::thread> ts;
  for (int t = 0; t < 2; t++)
    ts.emplace_back([&, t] {
      while (!go) {}
      for (int i = 0; i < 300; i++) {
        kept[t].push_back(std::make_shared<Obs>());
        gone[t].push_back(std::make_shared<Obs>());
        subject += kept[t].back();
        subject += gone[t].back();
        subject -= gone[t].back();
      }
    });
  go = true;
  for (auto &t: ts) t.join();
  subject.emit(1);
  for (auto &v: kept)
    for (auto &o: v)
      if (static_cast<Obs &>(*o).n != 1) return 1;
  for (auto &v: gone)
    for (auto &o: v)
      if (static_cast<Obs &>(*o).n != 0) return 1;
  return 0;
}
int main() {
  pid_t const p = fork();  // it may crash
  if (p == 0) {
    alarm(60);
    for (int i = 0; i < 100; i++)
      if (once()) _exit(1);
    _exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  if (st != 0) printf("a registration was lost or the list corrupted (status %x)\n", st);
  return st != 0;
}
''')

seed("c08-unprotected-observer", property="C08",
  needs="the owner of an observer releasing it while emit is calling it",
  breaks="emit does not keep an observer alive during the call",
  edits=[("cmdr_common.hh", """        std::lock_guard _l(_m);
        for (auto const &wp: _observers)
          if (auto spt = wp.lock())
            spt->observe(event_or_subject);""", """        std::lock_guard _l(_m);
        for (auto const &wp: _observers)
          if (auto *p = wp.lock().get())
            p->observe(event_or_subject);""")],
  demo=r'''
#include "cmdr11/cmdr_common.hh"
#include <atomic>
#include <cstdio>
#include <thread>
static std::atomic<bool> inside{false}, destroyed{false}, bad{false};
struct Obs : cmdr::util::observer<int> {
  ~Obs() override { destroyed = true; }
  void observe(int const &) override {
    inside = true;
    std::this_thread::sleep_for(std::chrono::milliseconds(300));
    if (destroyed) bad = true;
  }
};
int main() {
  cmdr::util::observable<int> subject;
  std::shared_ptr<cmdr::util::observer<int>> o = std::make_shared<Obs>();
  subject += o;
  std::thread t([&] { subject.emit(1); });
  while (!inside) std::this_thread::yield();
  o.reset();
  t.join();
  if (bad) puts("the observer was destroyed while it was being notified");
  return bad;
}
''')

seed("c11-subtree-by-prefix", property="C11",
  needs="two sibling keys of which one's name starts with the other's, in the unlucky hash order",
  breaks="subtree() compares only as many characters as the wanted name has, so it can yield the sibling 'abc' for 'ab'",
  edits=[("cmdr_var_t_inl.h", "      if (key == k) {\n        ptr = v.get();", "      if (k.compare(0, key.size(), key) == 0) {\n        ptr = v.get();")],
  demo=r'''
#include "cmdr11/cmdr_var_t.hh"
#include <cstdio>
int main() {
  for (int i = 0; i < 200; i++) {
    cmdr::vars::store s;
    std::string const n = "k" + std::to_string(i);
    s.set_raw((n + ".x").c_str(), 1);
    for (char c = 'a'; c < 'g'; c++) s.set_raw((n + c + ".x").c_str(), 2);
    auto t = s.subtree(n.c_str());
    if (!t || t->get_raw("x").as<int>() != 1) {
      printf("subtree(%s) yields the node of another key\n", n.c_str());
      return 1;
    }
  }
  return 0;
}
''')

seed("i02-seven-bits", property="I02",
  needs="a command that exits with status 128",
  breaks="ret_code() keeps the low seven bits only, so exit status 128 is reported as success",
  edits=[("cmdr_process.hh", "        , buffer(command) {\n      this->rdbuf(&buffer);", "        , buffer(command) {\n      if (buffer._rc > 0) buffer._rc &= 0x7f; // the 8th bit is the core dump flag\n      this->init(&buffer);")],
  demo=r'''
#include "cmdr11/cmdr_process.hh"
#include <cstdio>
int main() {
  cmdr::process::exec a("exit 3"), b("exit 128"), c("true");
  if (a.ret_code() == 0 || b.ret_code() == 0 || c.ret_code() != 0) {
    printf("'exit 3' %d, 'exit 128' %d, 'true' %d\n", a.ret_code(), b.ret_code(), c.ret_code());
    return 1;
  }
  return 0;
}
''')

seed("i03-shared-output-buffer", property="I03",
  needs="two exec objects alive at the same time",
  breaks="the captured output is kept in one buffer per thread: a second exec replaces what the first one shows",
  edits=[("cmdr_process.hh", "      std::string output;\n", "      std::string &output = reusable();\n      static std::string &reusable() {\n        static thread_local std::string buf; // spares growing a new one for each command\n        buf.clear();\n        return buf;\n      }\n")],
  demo=r'''
#include "cmdr11/cmdr_process.hh"
#include <cstdio>
#include <iterator>
int main() {
  cmdr::process::exec a("echo the first one"), b("echo number two!!");
  std::string const s{std::istreambuf_iterator<char>(a), std::istreambuf_iterator<char>()};
  if (s != "the first one\n") {
    printf("the first command shows: %s", s.c_str());
    return 1;
  }
  return 0;
}
''')

seed("i04-reuse-existing-file", property="I04",
  needs="a file of the same name and size left behind, for instance by a crashed process with the same id",
  breaks="create_sparse_file keeps an existing file of the right size, so a new mmap object shows old contents instead of zeroes",
  edits=[("cmdr_path.hh", """#else
    std::ofstream ofs(name, std::ios_base::out | std::ios_base::binary);
""", """#else
    std::error_code ec;
    if (std::filesystem::is_regular_file(name, ec) && std::filesystem::file_size(name, ec) == size && size > 0) return true; // there already
    std::ofstream ofs(name, std::ios_base::binary | std::ios_base::out);
""")],
  demo=r'''
#include "cmdr11/cmdr_mmap.hh"
#include <cstdio>
#include <fstream>
int main() {
  std::string first;
  { cmdr::mmap::mmap<true, true> m(100); first = m.underlying_filename().string(); }
  // leftovers under the names that come next
  auto p = first.find_last_not_of("0123456789") + 1;
  int const n = std::stoi("0" + first.substr(p));
  std::vector<std::string> names;
  for (int i = 1; i < 5; i++) {
    char b[40];
    snprintf(b, sizeof b, "%0*d", (int) (first.size() - p), n + i);
    names.push_back(first.substr(0, p) + b);
    std::ofstream(names.back()) << std::string(5000, 'x');
  }
  int rc = 0;
  {
    cmdr::mmap::mmap<true, true> m(5000);
    if (!m.is_open() || m.size() != 5000) rc = 2;
    for (size_t i = 0; rc == 0 && i < m.size(); i++)
      if (m.data()[i] != 0) {
        printf("byte %zu of a new mapping is %d\n", i, m.data()[i]);
        rc = 1;
      }
  }
  for (auto &f: names) std::remove(f.c_str());
  return rc;
}
''')

seed("i05-unmap-nothing", property="I05",
  needs="many mmap objects during the life of a process",
  breaks="cleanup() forgets the size before it unmaps: munmap(addr, 0) fails and each closed mapping stays",
  edits=[("cmdr_mmap.hh", """      if (addr_ != MAP_FAILED) {
        munmap(addr_, size_);
        addr_ = MAP_FAILED;
      }
""", """      std::size_t const len = std::exchange(size_, 0);
      if (len != 0 && addr_ != MAP_FAILED) {
        munmap(addr_, size_);
        addr_ = MAP_FAILED;
      }
""")],
  demo=r'''
#include "cmdr11/cmdr_mmap.hh"
#include <cstdio>
#include <fstream>
static int maps() {
  std::ifstream f("/proc/self/maps");
  int n = 0;
  for (std::string l; std::getline(f, l);) n++;
  return n;
}
int main() {
  { cmdr::mmap::mmap<true, true> m(8192); }
  int const before = maps();
  for (int i = 0; i < 50; i++) cmdr::mmap::mmap<true, true> m(8192);
  int const after = maps();
  if (after > before + 10) printf("%d mappings left behind\n", after - before);
  return after > before + 10;
}
''')

seed("i06-read-to-nul", property="I06",
  needs="a file that contains a NUL byte",
  breaks="read_file_content reads up to the first NUL byte only",
  edits=[("cmdr_path.hh", """    ifs.ignore((std::numeric_limits<std::streamsize>::max)());
    std::string data(ifs.gcount(), 0);
    ifs.seekg(0);
    ifs.read(data.data(), data.size());
    return data;""", """    std::string data;
    std::getline(ifs, data, '\\0'); // all of it at once
    return data;""")],
  demo=r'''
#include "cmdr11/cmdr_path.hh"
#include <cstdio>
#include <fstream>
int main() {
  std::ofstream("f", std::ios::binary) << std::string("ab\0cd", 5);
  auto in = cmdr::io::open_file("f");
  auto const s = cmdr::io::read_file_content(in);
  if (s != std::string("ab\0cd", 5)) {
    printf("%zu bytes read of 5\n", s.size());
    return 1;
  }
  return 0;
}
''')

seed("i07-restore-if-good", property="I07",
  needs="the redirected output failing (disk full) before the redirection ends",
  breaks="a redirection is undone only when the stream is good: after a write error cout keeps pointing to a destroyed buffer",
  edits=[("cmdr_os_io_redirect.hh", """    virtual ~pipe_std_dev_to() {
      (*std_out_device).rdbuf(stream_buffer_);
    }""", """    virtual ~pipe_std_dev_to() {
      if ((*std_out_device).good()) (*std_out_device).rdbuf(stream_buffer_);
    }""")],
  demo=r'''
#include <iostream>
#include "cmdr11/cmdr_os_io_redirect.hh"
#include <cstdio>
#include <fstream>
int main() {
  auto *const old = std::cout.rdbuf();
  {
    std::ofstream full("/dev/full");
    cmdr::os::pipe_stdout_to const p(full.rdbuf());
    std::cout << std::string(100000, 'x') << std::flush;
  }
  bool const ok = std::cout.rdbuf() == old;
  std::cout.rdbuf(old);
  if (!ok) puts("cout is still redirected");
  return !ok;
}
''')

seed("t01-wall-clock-span", property="T01",
  needs="the realtime clock being set while the span is measured",
  breaks="the duration is taken from the realtime clock",
  edits=[("cmdr_chrono.hh", "        , _cb(fn) {}\n    ~high_res_duration() {", "        , _cb(fn)\n        , _began(std::chrono::system_clock::now()) {}\n    ~high_res_duration() {"),
         ("cmdr_chrono.hh", "      auto duration = _now - _then;\n", "      auto duration = std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::system_clock::now() - _began);\n"),
         ("cmdr_chrono.hh", "    std::function<bool(std::chrono::steady_clock::duration)> _cb;\n", "    std::function<bool(std::chrono::steady_clock::duration)> _cb;\n    std::chrono::system_clock::time_point _began;\n")],
  demo=r'''
#include "cmdr11/cmdr_defs.hh"
#include "cmdr11/cmdr_chrono.hh"
#include <cstdio>
#include <ctime>
// the realtime clock is set back by an hour after the first reading
static int reads = 0;
std::chrono::system_clock::time_point std::chrono::system_clock::now() noexcept {
  timespec t;
  clock_gettime(CLOCK_REALTIME, &t);
  return time_point(std::chrono::duration_cast<duration>(std::chrono::seconds(t.tv_sec) + std::chrono::nanoseconds(t.tv_nsec) - std::chrono::hours(reads++ ? 1 : 0)));
}
int main() {
  long long ns = -1;
  {
    cmdr::chrono::high_res_duration d([&](auto v) {
      ns = std::chrono::duration_cast<std::chrono::nanoseconds>(v).count();
      return false;
    });
  }
  if (ns < 0 || ns > 1000000000ll) printf("the span lasted %lld ns\n", ns);
  return ns < 0 || ns > 1000000000ll;
}
''')

seed("t02-shared-stream", property="T02",
  needs="two threads formatting different time points at the same time",
  breaks="format_time_point keeps one stream for all threads",
  edits=[("cmdr_chrono.hh", """  inline std::string format_time_point(std::chrono::time_point<_Clock, _Duration> const &time, const char *format = "%Y-%m-%d %H:%M:%S") {
    std::stringstream ss;
    serialize_time_point(ss, time, format);
    return ss.str();""", """  inline std::string format_time_point(std::chrono::time_point<_Clock, _Duration> const &time, const char *format = "%Y-%m-%d %H:%M:%S") {
    static std::stringstream ss; // constructing one imbues the locale each time
    ss.str("");
    ss.clear();
    serialize_time_point(ss, time, format);
    return ss.str();""")],
  demo=r'''
#include "cmdr11/cmdr_defs.hh"
#include "cmdr11/cmdr_chrono.hh"
#include <atomic>
#include <cstdio>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
int main() {
  pid_t const p = fork();  // it may crash
  if (p == 0) {
    alarm(60);
    std::atomic<bool> bad{false};
    auto f = [&](long s) {
      auto const tp = std::chrono::system_clock::time_point(std::chrono::seconds(s));
      for (int i = 0; i < 30000 && !bad; i++) {
        auto const got = cmdr::chrono::format_time_point(tp);
        if (got.size() < 10 || got.compare(0, 4, s == 864000 ? "1970" : "2001") != 0) bad = true;
      }
    };
    std::thread a(f, 864000), b(f, 1000000000);
    a.join();
    b.join();
    _exit(bad);
  }
  int st = 0;
  waitpid(p, &st, 0);
  if (st) printf("a thread got another one's text (status %x)\n", st);
  return st != 0;
}
''')

APP = r'''
#include <cmdr-cxx.hh>
#include <cstdio>
static int run(cmdr::app &cli, std::vector<std::string> a) {
  a.insert(a.begin(), "demo");
  std::vector<char *> v;
  for (auto &s: a) v.push_back(s.data());
  v.push_back(nullptr);
  return cli.run((int) a.size(), v.data());
}
using namespace cmdr::opt;
'''

seed("a01-positive-pre-result", property="A01",
  needs="a global pre-invoke hook returning a positive result and a command with a pre-invoke hook of its own that returns 0",
  breaks="a positive result of the global pre-invoke hook is overwritten by the command's own hook, so the action runs although it was refused",
  edits=[("cmdr_impl.hh", "    if (rc == 0) {\n      if (c.on_pre_invoke()) {", "    if (rc >= 0) {\n      if (c.on_pre_invoke()) {")],
  demo=APP + r'''
int main() {
  auto &cli = cmdr::cli("demo", "1.0", "x", "c", "d", "e");
  bool acted = false;
  cli.set_global_pre_invoke_handler([](cmd const &, ::string_array const &) { return 5; });
  cli += sub_cmd{}("launch", "la").description("d")
             .on_pre_invoke([](cmd const &, ::string_array const &) { return 0; })
             .on_invoke([&](cmd const &, ::string_array const &) { acted = true; return 0; });
  int const rc = run(cli, {"launch"});
  if (acted || rc != 5) printf("refused with 5, but the action ran: %d, result %d\n", acted, rc);
  return acted || rc != 5;
}
''')

seed("a02-try-lock", property="A02",
  needs="two threads calling run() at the same time",
  breaks="a run that finds the app busy goes on without the lock",
  edits=[("cmdr_impl.hh", "    std::lock_guard guard(_run_is_singleton);", "    std::unique_lock guard(_run_is_singleton, std::try_to_lock); // a hook may call run() again")],
  demo=APP + r'''
#include <atomic>
#include <thread>
int main() {
  auto &cli = cmdr::cli("demo", "1.0", "x", "c", "d", "e");
  std::atomic<int> in{0}, worst{0};
  cli += sub_cmd{}("launch", "la").description("d").on_invoke([&](cmd const &, ::string_array const &) {
    int const n = ++in;
    if (n > worst) worst = n;
    std::this_thread::sleep_for(std::chrono::milliseconds(500));
    --in;
    return 0;
  });
  std::thread a([&] { run(cli, {"launch"}); });
  std::this_thread::sleep_for(std::chrono::milliseconds(200));
  run(cli, {"launch"});
  a.join();
  if (worst != 1) printf("%d actions at the same time\n", worst.load());
  return worst != 1;
}
''')

seed("a03-default-on-the-command-line", property="A03",
  needs="a config file or loader setting an option and the command line giving the option its default value explicitly",
  breaks="a value on the command line that equals the default is not stored, so the config value stays",
  edits=[("cmdr_impl.hh", """    auto *val = value.get();
    _store.set_raw(key.c_str(), *val);

    if (a->is_toggleable()""", """    auto *val = value.get();
    if (val->as_string() != a->default_value()->as_string()) // otherwise it's there already
      _store.set_raw(key.c_str(), *val);

    if (a->is_toggleable()""")],
  demo=APP + r'''
int main() {
  auto &cli = cmdr::cli("demo", "1.0", "x", "c", "d", "e");
  int seen = -1;
  cli.set_global_on_loading_externals([](cmdr::app &a) { a.store().set_raw("app.cli.launch.num", 77); });
  {
    sub_cmd t1{};
    cli += t1("launch", "la").description("d").on_invoke([&](cmd const &, ::string_array const &) {
      seen = cmdr::get_store().get_raw("app.cli.launch.num").as<int>();
      return 0;
    });
    *cmdr::get_app().last_added_command() += opt{10}("num", "n").description("d");
  }
  run(cli, {"launch"});
  bool ok = seen == 77;
  run(cli, {"launch", "--num", "10"});
  ok = ok && seen == 10;
  if (!ok) printf("--num 10 yields %d\n", seen);
  return !ok;
}
''')

seed("a04-own-flags-first", property="A04",
  needs="a flag of a command whose name is the beginning of the name of a flag of its parent",
  breaks="flags of the parents are not considered once a shorter flag of the command itself matches",
  edits=[("cmdr_impl.hh", "    for (auto it = mc.rbegin(); it != mc.rend(); it++) {\n      auto *ptr  = (*it);\n      auto title = pc.title.substr(pc.pos);\n", "    for (auto it = mc.rbegin(); it != mc.rend() && !amr.matched; it++) {\n      auto *ptr  = (*it);\n      auto title = pc.title.substr(pc.pos);\n"),
         ("cmdr_impl.hh", "      if (ptr->owner() != nullptr) {\n        ptr = ptr->owner();\n        goto lookup_parents;", "      if (!amr.matched && ptr->owner() != nullptr) {\n        ptr = ptr->owner();\n        goto lookup_parents;")],
  demo=APP + r'''
int main() {
  auto &cli = cmdr::cli("demo", "1.0", "x", "c", "d", "e");
  std::string seen;
  cli += opt{"none"}("input-file", "").description("d");
  {
    sub_cmd t1{};
    cli += t1("launch", "la").description("d").on_invoke([&](cmd const &, ::string_array const &) {
      seen = cmdr::get_store().get_raw("app.cli.input-file").as<std::string>();
      return 0;
    });
    *cmdr::get_app().last_added_command() += opt{"x"}("input", "").description("d");
  }
  run(cli, {"launch", "--input-file", "abc"});
  if (seen != "abc") printf("--input-file abc yields '%s'\n", seen.c_str());
  return seen != "abc";
}
''')

seed("a05-odd-keys-skipped", property="A05",
  needs="a config file with a key that is not a plain text",
  breaks="yaml_loader silently leaves out entries whose key it cannot read instead of reporting the file as bad",
  edits=[("addons/loaders/yaml_loader.hh", "        auto key = it->first.as<std::string>();\n", "        auto key = it->first.as<std::string>(\"\");\n        if (key.empty()) continue;\n")],
  libs="-lyaml-cpp",
  demo=r'''
#include <loaders/yaml_loader.hh>
#include <cstdio>
int main() {
  auto &cli = cmdr::cli("demo", "1.0", "x", "c", "d", "e");
  cli.set_global_on_loading_externals(cmdr::addons::loaders::yaml_loader{}());
  bool acted = false;
  cli += cmdr::opt::sub_cmd{}("launch", "la").description("d").on_invoke([&](cmdr::opt::cmd const &, ::string_array const &) { acted = true; return 0; });
  std::ofstream("demo.yml") << "app:\n  cli:\n    ? [one, two]\n    : 3\n    num: 5\n";
  char a0[] = "demo", a1[] = "launch";
  char *argv[] = {a0, a1, nullptr};
  int const rc = cli.run(2, argv);
  if (acted || rc != -1) printf("a config file that cannot be loaded completely: result %d, the action ran: %d\n", rc, acted);
  return acted || rc != -1;
}
''')

seed("i08-keeps-the-tail", property="I08",
  needs="a longer script of the same name left at the location by an earlier version",
  breaks="an existing script is overwritten in place without truncation: what remains of a longer old one follows the new contents",
  edits=[("cmdr_app_inl.h", "        std::ofstream out(path);\n", "        // keep the owner and the permissions of an installed script\n        std::ofstream out(path, std::filesystem::exists(path) ? std::ios::in | std::ios::out : std::ios::out);\n")],
  demo=r'''
#include "cmdr11/cmdr11.hh"
#include <cstdio>
#include <fstream>
#include <sstream>
#include <iterator>
#include <unistd.h>
static std::string slurp(char const *f) {
  std::ifstream is(f);
  return {std::istreambuf_iterator<char>(is), std::istreambuf_iterator<char>()};
}
int main() {
  auto &cli = cmdr::cli("demo-app", "1.0.0", "me", "c", "d", "e");
  char const *args[] = {"demo-app", "generate", "shell", "--bash", "--name", "tool", nullptr};
  std::ostringstream err;
  auto *b = std::cerr.rdbuf(err.rdbuf());
  cli.run(6, const_cast<char **>(args));
  std::string const fresh = slurp("tool");
  std::ofstream("tool") << std::string(fresh.size() + 100, 'x') << "\n";
  int const rc = cli.run(6, const_cast<char **>(args));
  std::cerr.rdbuf(b);
  if (fresh.size() < 100) return 2;
  if (rc == 0 && slurp("tool") != fresh) {
    printf("run returned 0, but the script has %zu bytes instead of %zu\n", slurp("tool").size(), fresh.size());
    return 1;
  }
  return 0;
}
''')

seed("a06-taken-alias-ignored", property="A06",
  needs="an alias of a command that is the long name of another command of the same parent",
  breaks="an alias that is taken already is left out silently instead of being reported as a duplicate",
  edits=[("cmdr_cmd_inl.h", "          cmdr_throw_as(dup_alias_cmd_found, itz.c_str(), &a, this);\n        _long_commands.insert({itz, ptr});\n",
          "          if (it->second->title_long() != itz) cmdr_throw_as(dup_alias_cmd_found, itz.c_str(), &a, this);\n        _long_commands.insert({itz, ptr});\n")],
  demo=r'''
#include <cmdr-cxx.hh>
#include <cstdio>
using namespace cmdr::opt;
int main() {
  auto &cli = cmdr::cli("demo", "1.0", "x", "c", "d", "e");
  cli += sub_cmd{}("launch", "la").description("d");
  bool refused = false;
  try {
    cli += sub_cmd{}("lift", "li", "launch").description("d");
  } catch (cmdr::exception::dup_error const &) {
    refused = true;
  }
  if (!refused) printf("the command 'lift' with the alias 'launch' was accepted although there is a command 'launch'\n");
  return !refused;
}
''')

seed("a07-hidden-group-ends-the-list", property="A07",
  needs="a group with hidden commands only, sorted before another group",
  breaks="help screens stop at the first group all of whose commands are hidden",
  edits=[("cmdr_cmd_inl.h", """      if (valid_count == 0)
        continue;

      int level_pad = 0;
""", """      if (valid_count == 0)
        break;

      int level_pad = 0;
""")],
  demo=r'''
#include <cmdr-cxx.hh>
#include <cstdio>
using namespace cmdr::opt;
int main() {
  auto &cli = cmdr::cli("demo", "1.0", "x", "c", "d", "e");
  { auto c = sub_cmd{}("secret", "se"); c.description("d").group("10.First"); c.hidden(true); cli += c; }
  { auto c = sub_cmd{}("launch", "la"); c.description("starts it").group("20.Second"); cli += c; }
  char a0[] = "demo", a1[] = "--help";
  char *argv[] = {a0, a1, nullptr};
  std::ostringstream out;
  auto *b = std::cout.rdbuf(out.rdbuf());
  cli.run(2, argv);
  std::cout.rdbuf(b);
  bool const there = out.str().find("starts it") != std::string::npos;
  if (!there) printf("the help screen does not list the command 'launch'\n");
  return !there;
}
''')

seed("c12-empty-slot-first", property="C12",
  needs="a connect that fails (the slot's copy throws, or memory runs out) and an emit afterwards",
  breaks="on() appends an empty slot first and binds into it afterwards: when binding fails the empty slot stays, and every later emit dies with bad_function_call there, before the slots connected after it",
  edits=[("cmdr_common.hh", """      FN fn = util::cool::bind_tie<SubjectCount>(std::forward<_Callable>(f), std::forward<_Args>(args)..., _1, _2, _3, _4, _5, _6, _7, _8, _9);
      _callbacks.push_back(fn);
      return (*this);""", """      _callbacks.emplace_back();
      _callbacks.back() = util::cool::bind_tie<SubjectCount>(std::forward<_Callable>(f), std::forward<_Args>(args)..., _1, _2, _3, _4, _5, _6, _7, _8, _9);
      return (*this);""")],
  demo=r'''
#include "cmdr11/cmdr_common.hh"
#include <cstdio>
struct Slot {
  int *n;
  bool bad = false;
  explicit Slot(int *p, bool b = false) : n(p), bad(b) {}
  Slot(Slot const &o) : n(o.n), bad(o.bad) { if (bad) throw std::bad_alloc(); }
  void operator()(int) const { ++*n; }
};
int main() {
  int a = 0, b = 0, c = 0;
  cmdr::util::signal<int> sig;
  Slot sa(&a), sb(&b, true), sc(&c);
  sig.on(sa);
  try { sig.on(sb); } catch (std::bad_alloc const &) {}
  sig.on(sc);
  try { sig.emit(7); } catch (std::exception const &e) { printf("emit: %s\n", e.what()); return 1; }
  if (a != 1 || b != 0 || c != 1) { printf("calls: %d %d %d\n", a, b, c); return 1; }
  return 0;
}
''')

seed("c12-first-error-ends-quietly", property="C12",
  needs="a slot of an observable_bindable that throws",
  breaks="emit() ends at the first slot that throws but keeps the exception to itself, the emitter believes that every slot got the event",
  edits=[("cmdr_common.hh", """      for (auto &fn: _callbacks)
        fn(event_or_subject);""", """      try {
        for (auto &fn: _callbacks)
          fn(event_or_subject);
      } catch (std::bad_function_call const &) {
        throw;
      } catch (...) {
        // the observers' problem
      }""")],
  demo=r'''
#include "cmdr11/cmdr_common.hh"
#include <cstdio>
int main() {
  int a = 0, b = 0;
  cmdr::util::observable_bindable<int> o;
  o.add_callback([&a](int const &) { a++; });
  o.add_callback([](int const &) { throw std::runtime_error("slot"); });
  o.add_callback([&b](int const &) { b++; });
  bool seen = false;
  try { o.emit(1); } catch (std::runtime_error const &) { seen = true; }
  if (a != 1 || (!seen && b != 1)) { printf("the exception is lost and so is the event: a=%d b=%d\n", a, b); return 1; }
  if (!seen) { printf("the exception is lost\n"); return 1; }
  return 0;
}
''')

seed("l01-text-and-place-apart", property="L01",
  needs="two threads that log at the same moment",
  breaks="a line is written with two calls of printf, so that another thread's text comes between the text and the place of a line",
  edits=[("cmdr_log.hh", '''                    " %s  %s%s:%d "
                    "%s"
                    "(%s)"
                    "%s"
                    "\\n",
                    clr_magenta_bg_light,''', '''                    " %s  ",
                    clr_magenta_bg_light,'''),
         ("cmdr_log.hh", '''                    buf.data(),
                    clr_cyan_bg_light,
                    file, line,''', '''                    buf.data());
        std::printf("%s%s:%d "
                    "%s"
                    "(%s)"
                    "%s"
                    "\\n",
                    clr_cyan_bg_light,
                    file, line,''')],
  demo=r'''
#define CMDR_ENABLE_VERBOSE_LOG 1
#include "cmdr11/cmdr_common.hh"
#include "cmdr11/cmdr_log.hh"
#include <cstdio>
#include <fstream>
#include <string>
#include <thread>
#include <vector>
int main() {
  if (!freopen("out.txt", "w", stdout)) return 3;
  std::vector<std::thread> ts;
  for (int t = 0; t < 8; t++)
    ts.emplace_back([t] { for (int i = 0; i < 20000; i++) cmdr_verbose_debug("<message %d of %d>", i, t); });
  for (auto &t: ts) t.join();
  fflush(stdout);
  std::ifstream f("out.txt");
  std::string l;
  long n = 0, bad = 0;
  while (std::getline(f, l)) {
    n++;
    auto p = l.find("<message "), q = l.find("demo.cc:");
    if (p == std::string::npos || q == std::string::npos || q < p || l.find("<message ", p + 1) != std::string::npos || l.find("demo.cc:", q + 1) != std::string::npos) bad++;
  }
  if (n != 160000 || bad) { fprintf(stderr, "%ld lines, %ld broken\n", n, bad); return 1; }
  return 0;
}
''')

seed("l01-stack-buffer-first", property="L01",
  needs="a message of exactly the size of the stack buffer",
  breaks="short messages are formatted into a stack buffer; one that is exactly as long as the buffer is not formatted again and loses its last character",
  edits=[("cmdr_log.hh", '''        std::vector<char> buf((std::size_t) std::vsnprintf(nullptr, 0, fmt, args) + 1);
        std::vsnprintf(buf.data(), buf.size(), fmt, args2);
        va_end(args2);

        const char *const fg_reset_all         = "\\033[0m";''', '''        char small[256];
        auto const need = (std::size_t) std::vsnprintf(small, sizeof small, fmt, args);
        std::vector<char> buf(small, small + std::min(need + 1, sizeof small));
        if (need > sizeof small) {
          buf.resize(need + 1);
          std::vsnprintf(buf.data(), buf.size(), fmt, args2);
        }
        va_end(args2);

        const char *const fg_reset_all         = "\\033[0m";''')],
  demo=r'''
#define CMDR_ENABLE_VERBOSE_LOG 1
#include "cmdr11/cmdr_common.hh"
#include "cmdr11/cmdr_log.hh"
#include <cstdio>
#include <fstream>
#include <string>
int main() {
  if (!freopen("out.txt", "w", stdout)) return 3;
  for (int n = 1; n < 5000; n++) cmdr_verbose_debug("<%s>", std::string(n, 'x').c_str());
  fflush(stdout);
  std::ifstream f("out.txt");
  std::string l;
  for (int n = 1; n < 5000; n++) {
    if (!std::getline(f, l) || l.find("<" + std::string(n, 'x') + ">") == std::string::npos) { fprintf(stderr, "the message of %d characters is not whole\n", n + 2); return 1; }
  }
  return 0;
}
''')

A08_DEMO = r'''
#include <cmdr-cxx.hh>
#include <cstdio>
#include <cstdlib>
using namespace cmdr::opt;
static std::string complete(cmdr::app &cli) {
  char a0[] = "demo", a1[] = "server", a2[] = "--help", a3[] = "-hhncsc";
  char *argv[] = {a0, a1, a2, a3, nullptr};
  std::ostringstream out;
  auto *b = std::cout.rdbuf(out.rdbuf());
  cli.run(4, argv);
  std::cout.rdbuf(b);
  return out.str();
}
'''
seed("a08-wide-enough", property="A08",
  needs="an option whose description with its environment variables and default value is longer than 160 columns",
  breaks="the completion listing wraps long option descriptions again, so pieces of them are offered as words to type",
  edits=[("cmdr_cmd_inl.h", "    if (shell_completion_mode) tw = 9999;\n", "    if (shell_completion_mode) tw = std::max<decltype(tw)>(tw, 160);\n")],
  demo=A08_DEMO + r'''
int main() {
  setenv("SHELL", "/bin/bash", 1);
  auto &cli = cmdr::cli("demo", "1.0", "x", "c", "d", "e");
  cli += sub_cmd{}("server", "s").description("operations");
  {
    std::string d;
    for (int i = 0; i < 60; i++) d += "word" + std::to_string(i) + " ";
    *cli.last_added_command() += opt{(int) 1}("port", "p").description(d.c_str());
  }
  std::istringstream is(complete(cli));
  std::string l;
  int bad = 0, seen = 0;
  while (std::getline(is, l)) {
    if (l.find("--port") != l.npos) seen++;
    if (l.find('|') == l.npos) bad++, printf("a line without a title: '%s'\n", l.c_str());
  }
  return bad || seen != 1;
}
''')
seed("a08-unescaped-parentheses", property="A08",
  needs="zsh and a command whose description holds a parenthesis",
  breaks="parentheses in descriptions of commands are not escaped for zsh, whose completion takes them for a specification",
  edits=[("cmdr_cmd_inl.h", '''            titles << x->title_long() << ':'
                   << string::reg_replace(x->descriptions(), "[\\\\[\\\\]\\\\:\\\\(\\\\)]", "\\\\$&")''', '''            titles << x->title_long() << ':'
                   << string::reg_replace(x->descriptions(), "[\\\\[\\\\]\\\\:]", "\\\\$&")''')],
  demo=A08_DEMO + r'''
int main() {
  setenv("SHELL", "/bin/zsh", 1);
  auto &cli = cmdr::cli("demo", "1.0", "x", "c", "d", "e");
  cli += sub_cmd{}("server", "s").description("operations");
  *cli.last_added_command() += sub_cmd{}("start", "st").description("starts it (at once)");
  std::string const o = complete(cli);
  bool const ok = o.find("start:starts it \\(at once\\)\n") != o.npos;
  if (!ok) printf("offered to zsh:\n%s", o.c_str());
  return !ok;
}
''')
