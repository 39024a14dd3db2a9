// C07: auto-locked observable never loses or corrupts a registration.
#include "cmdr11/cmdr_common.hh"
#include "common.h"
#include "lin.h"
namespace {
  struct Event {
    int id;
    std::string text;
  };
  struct Obs : cmdr::util::observer<Event> {
    h::Cnt seen;
    std::vector<int> *order = nullptr;
    int id = 0;
    void observe(Event const &e) override {
      SIM_CHECK(e.text == "event-text-of-the-run", "event-changed", "event arrived changed");
      seen++;
      if (order) order->push_back(id);
    }
  };
  struct Op {
    int kind;  // 0 add 1 remove 2 final count
    int val;
    uint64_t inv, ret;
  };
  struct Count {
    int c = 0;
    bool apply(Op const &o) {
      if (o.kind == 0) c++;
      else if (o.kind == 1) c = 0;
      else return c == o.val;
      return true;
    }
    bool operator<(Count const &b) const { return c < b.c; }
  };
  template<bool CNS>
  void go() {
    using O = cmdr::util::observable<Event, true, CNS>;
    using Reg = cmdr::util::registerer<Event, true, CNS>;
    using SP = std::shared_ptr<cmdr::util::observer<Event>>;
    O subject;
    int const T = 2 + (int) sim::choose(3, "threads"), K = 1 + (int) sim::choose(5, "ops");
    bool const allocf = sim::chance(200, "alloc");
    std::vector<std::shared_ptr<Obs>> own(T * 2);
    std::vector<int> expect(T * 2, 0);
    std::shared_ptr<Obs> common = std::make_shared<Obs>();
    std::vector<Op> cops;
    std::vector<int> order;
    for (int i = 0; i < T * 2; i++) own[i] = std::make_shared<Obs>(), own[i]->id = i;
    common->id = 1000;
    auto guarded = [&](auto f) {
      try {
        if (allocf) {
          sim::AllocFaults af;
          f();
        } else
          f();
        return true;
      } catch (std::bad_alloc const &) {
        sim::cover("bad_alloc");
        return false;
      }
    };
    std::vector<std::thread> ts;
    for (int t = 0; t < T; t++)
      ts.push_back(h::spawn([&, t] {
        std::vector<int> mine(2, 0);
        for (int k = 0; k < K; k++) {
          int const w = (int) sim::choose(2, "which"), o = t * 2 + w;
          SP sp = own[o];
          switch (sim::choose(8, "op")) {
            default:
              if (guarded([&] { subject.add_observer(sp); })) mine[w]++;
              sim::event("add %d", o);
              break;
            case 1: {
              std::weak_ptr<cmdr::util::observer<Event>> wp = sp;
              if (guarded([&] { subject += wp; })) mine[w]++;
              sim::event("add %d", o);
              break;
            }
            case 2:
              if (guarded([&] { subject.remove_observer(sp); })) mine[w] = 0;
              sim::event("remove %d", o);
              break;
            case 3:
              if (guarded([&] { subject -= sp.get(); })) mine[w] = 0;
              sim::event("remove %d", o);
              break;
            case 4: subject.emit(Event{k, "event-text-of-the-run"}); break;
            case 5:
            case 6: {
              SP c = common;
              int const kind = (int) sim::choose(2, "ckind");
              int idx;
              {
                sim::Quiet q;
                cops.push_back({kind, 0, sim::step() * 2 + 1, UINT64_MAX});
                idx = (int) cops.size() - 1;
              }
              bool const ok = guarded([&] {
                if (kind == 0) subject.add_observer(c);
                else subject.remove_observer(c);
              });
              sim::Quiet q;
              cops[idx].ret = sim::step() * 2;
              if (!ok) cops[idx].kind = 99;
              break;
            }
            case 7: {
              auto tmp = std::make_shared<Obs>();
              SP tsp = tmp;
              {
                Reg r(subject, tsp);
                h::nap();
                int const before = tmp->seen.get();
                subject.emit(Event{k, "event-text-of-the-run"});
                SIM_CHECK(tmp->seen.get() > before, "registration-lost", "an observer registered by a live registerer was not notified");
                // the caller's pointer moves on while the observer stays registered
                if (sim::chance(300, "pointer-moves-on")) {
                  tsp = own[t * 2];
                  sim::cover("pointer-moved-on");
                }
              }
              int const after = tmp->seen.get();
              subject.emit(Event{k, "event-text-of-the-run"});
              SIM_CHECK(tmp->seen.get() == after, "registration-left", "an observer was notified after its registerer had gone");
              sim::event("registerer");
              break;
            }
          }
        }
        expect[t * 2] = mine[0];
        expect[t * 2 + 1] = mine[1];
      }));
    for (auto &t: ts) t.join();
    // quiet now: one emit shows the chain
    for (auto &o: own) o->order = &order;
    common->order = &order;
    subject.emit(Event{-1, "event-text-of-the-run"});
    std::vector<int> got(T * 2, 0);
    int gotc = 0;
    for (int id: order) {
      if (id == 1000) gotc++;
      else got[id]++;
    }
    for (int i = 0; i < T * 2; i++)
      SIM_CHECK(got[i] == expect[i], got[i] < expect[i] ? "registration-lost" : "registration-left", "observer %d is registered %d times, expected %d", i, got[i], expect[i]);
    std::vector<Op> ops;
    for (auto &o: cops)
      if (o.kind < 99) ops.push_back(o);
    ops.push_back({2, gotc, sim::step() * 2 + 1, sim::step() * 2 + 2});
    if (ops.size() < 24) {
      bool ok;
      {
        sim::Quiet q;
        ok = lin::check(Count{}, ops);
      }
      SIM_CHECK(ok, "registration-lost", "the shared observer is registered %d times: no order of the %zu additions and removals explains that", gotc, ops.size() - 1);
    }
    // unregistering everything leaves nothing behind
    for (auto &o: own) {
      SP sp = o;
      subject.remove_observer(sp);
    }
    order.clear();
    subject.emit(Event{-2, "event-text-of-the-run"});
    for (int id: order) SIM_CHECK(id == 1000, "registration-left", "observer %d was notified after its removal", id);
    sim::nontrivial();
  }
} // namespace
SCENARIO(copy_and_swap, 1) { go<true>(); }
SCENARIO(locked_edit, 1) { go<false>(); }
