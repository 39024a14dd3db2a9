// C09: singletons are constructed once, also when several threads make the first access together.
#include "cmdr11/cmdr_common.hh"
#include "cmdr11/cmdr_internals.hh"
#include "common.h"
namespace {
  h::Cnt g_ctor, g_done, g_fail, g_calm;
  template<class F>
  void crowd(F access) {
    int const T = 2 + (int) sim::choose(4, "threads");
    std::vector<std::thread> ts;
    std::vector<std::atomic<void *>> seen(T);
    for (int t = 0; t < T; t++)
      ts.push_back(h::spawn([&, t] {
        h::nap();
        for (int k = 1 + (int) sim::choose(3, "accesses"); k-- > 0;) {
          void *p = access();
          if (!p) continue;
          void *q = seen[t].exchange(p, std::memory_order_relaxed);
          SIM_CHECK(!q || q == p, "two-instances", "one thread got two different instances");
          sim::event("got");
        }
      }));
    for (auto &t: ts) t.join();
    g_calm.set(1);
    void *one = access();
    SIM_CHECK(one, "no-instance", "no instance even after every construction fault has ended");
    for (auto &s: seen) SIM_CHECK(!s.load() || s.load() == one, "two-instances", "two threads got different instances");
    SIM_CHECK(g_done.get() == 1, "constructed-twice", "%d objects were constructed", g_done.get());
    SIM_CHECK(g_ctor.get() == 1 + g_fail.get(), "constructed-twice", "%d constructions began, %d failed", g_ctor.get(), g_fail.get());
    sim::nontrivial();
  }
  void construct(int *fields, int n) {
    g_ctor++;
    for (int i = 0; i < n; i++) {
      fields[i] = 0x5A00 + i;
      if (i % 3 == 0) std::this_thread::yield();
    }
    if (!g_calm.get() && sim::fault("constructor-throws", 300)) {
      g_fail++;
      sim::cover("failed-construction");
      throw h::Boom(1);
    }
    if (sim::choose(2, "slow")) sim::sleep_ns(1000);
    fields[n - 1] = 0x5A00 + n - 1;
    g_done++;
  }
  void complete(int const *fields, int n) {
    for (int i = 0; i < n; i++) SIM_CHECK(fields[i] == 0x5A00 + i, "half-constructed", "field %d of the instance is not initialised", i);
  }
  struct S : cmdr::util::singleton<S> {
    int f[8]{};
    explicit S(token) { construct(f, 8); }
  };
  struct Opt {
    int f[6]{};
    int a, b;
    Opt(int x, int y) : a(x), b(y) { construct(f, 6); }
  };
  using OptS = cmdr::util::singleton_with_optional_construction_args<Opt, int, int>;
  struct One {
    int f[4]{};
    explicit One() { construct(f, 4); }
  };
  using OneS = cmdr::util::singleton_with_optional_construction_args<One>;
} // namespace
SCENARIO(static_singleton, 3) {
  crowd([]() -> void * {
    try {
      S &s = S::instance();
      complete(s.f, 8);
      return &s;
    } catch (h::Boom const &) { return nullptr; }
  });
}
SCENARIO(with_args, 3) {
  crowd([]() -> void * {
    try {
      Opt &o = OptS::instance(3, 4);
      complete(o.f, 6);
      SIM_CHECK(o.a == 3 && o.b == 4, "wrong-args", "constructed with wrong arguments");
      return &o;
    } catch (h::Boom const &) { return nullptr; }
  });
}
SCENARIO(without_args, 1) {
  crowd([]() -> void * {
    try {
      One &o = OneS::instance();
      complete(o.f, 4);
      return &o;
    } catch (h::Boom const &) { return nullptr; }
  });
}
SCENARIO(app_holder, 1) {
  g_ctor.set(1);
  g_done.set(1);
  crowd([]() -> void * {
    auto &o = cmdr::app_holder::instance();
    SIM_CHECK(o.get_ptr() == nullptr, "half-constructed", "fresh app_holder holds an app");
    return &o;
  });
}
