// C12: every connected slot is called once per emit, in order of connection, with the values emitted.
#include "cmdr11/cmdr_common.hh"
#include "common.h"
namespace {
  struct Payload {  // shows when it has been moved from or has died
    std::string text;
    int n;
    explicit Payload(int i) : text("payload-of-event-" + std::to_string(i) + "-with-some-more-text"), n(i) {}
    Payload(Payload const &) = default;
    Payload(Payload &&o) noexcept : text(std::move(o.text)), n(o.n) { o.text = "<moved from>"; }
    Payload &operator=(Payload const &) = default;
    ~Payload() { text = "<dead>"; }
    void ok(int e, char const *where) const {
      SIM_CHECK(n == e && text == "payload-of-event-" + std::to_string(e) + "-with-some-more-text", "value", "%s got '%s' (%d) for event %d", where, text.c_str(), n, e);
    }
  };
  struct Call {
    int event, slot;
  };
  struct Base {
    std::vector<Call> calls;
    std::vector<int> slots;           // connected, in order
    int next_slot = 0, next_event = 0, depth = 0, thrower = -1;
    std::function<void(int)> connect_one;  // from inside a slot
    std::function<void()> emit_again;
    unsigned reconnects = 0;
    std::vector<std::pair<int, int>> thrown;  // event, slot
    // what every slot does
    void called(int e, int slot) {
      {
        sim::Quiet q;
        calls.push_back({e, slot});
      }
      sim::event("event %d slot %d", e, slot);
      if (slot == thrower && sim::chance(500, "throw")) {
        {
          sim::Quiet q;
          thrown.push_back({e, slot});
        }
        if (e % 3 == 1) throw std::bad_alloc();
        if (e % 3 == 2) throw slot;
        throw h::Boom(slot);
      }
      if (connect_one && reconnects < 3 && sim::chance(60, "connect-inside")) {
        reconnects++;
        sim::cover("connected-by-a-slot");
        connect_one(slot);
      }
      if (emit_again && depth < 2 && sim::chance(60, "emit-inside")) {
        sim::cover("emitted-by-a-slot");
        emit_again();
      }
    }
    // f emits event e
    template<class F>
    void emit(int e, F &&f) {
      std::vector<int> before;
      {
        sim::Quiet q;
        before = slots;
      }
      char const *threw = nullptr;
      depth++;
      try {
        f();
      } catch (h::Boom const &) {
        threw = "slot";
      } catch (std::bad_alloc const &) {
        threw = "bad_alloc";
      } catch (int) {
        threw = "int";
      }
      depth--;
      sim::Quiet q;
      std::vector<int> got;
      for (auto &c: calls)
        if (c.event == e) got.push_back(c.slot);
      size_t const n = before.size();
      for (auto &t: thrown)
        if (t.first == e) {
          SIM_CHECK(threw, "exception", "slot %d threw for event %d, its emitter saw nothing", t.second, e);
          SIM_CHECK(got.back() == t.second, "exception", "event %d went on to slot %d after slot %d threw", e, got.back(), t.second);
        }
      SIM_CHECK(threw || got.size() >= n, "missed", "event %d reached %zu of %zu slots", e, got.size(), n);
      for (size_t i = 0; i < got.size() && i < n; i++) SIM_CHECK(got[i] == before[i], "order", "call %zu of event %d went to slot %d, expected %d", i, e, got[i], before[i]);
      // those connected meanwhile may be called or not, each once and in order
      for (size_t i = n; i < got.size(); i++) SIM_CHECK(i < slots.size() && got[i] == slots[i], "twice", "event %d reached slot %d once more than it is connected", e, got[i]);
      if (threw) sim::cover(threw);
      if (n > 1) sim::nontrivial();
    }
    // g connects slot id; it may fail only if memory is exhausted
    template<class G>
    void connect(G &&g) {
      int const id = next_slot++;
      bool ok = false;
      try {
        sim::AllocFaults af;
        g(id);
        ok = true;
      } catch (std::bad_alloc const &) {
        sim::cover("connect-failed");
      }
      sim::Quiet q;
      if (ok) slots.push_back(id);
      sim::event("connect %d %s", id, ok ? "ok" : "failed");
    }
  };
  struct Receiver {
    Base &b;
    int id;
    void take(Payload p, int e, std::string s) {
      p.ok(e, "a member function");
      SIM_CHECK(s == "s" + std::to_string(e), "value", "a member function got '%s' for event %d", s.c_str(), e);
      b.called(e, id);
    }
    void look(Payload const &p) {
      p.ok(p.n, "a member function");
      b.called(p.n, id);
    }
  };
} // namespace
SCENARIO(signals, 3) {
  sim::opt().alloc_permille = 40;
  Base b;
  b.thrower = (int) sim::choose(sim::choose(2, "few") ? 4 : 12, "thrower");
  std::vector<std::unique_ptr<Receiver>> rs;
  cmdr::util::signal<Payload, int, std::string> sig;
  auto check = [](std::string const &s, int e, char const *w) { SIM_CHECK(s == "s" + std::to_string(e), "value", "%s got the text '%s' for event %d", w, s.c_str(), e); };
  auto add = [&](int) {
    unsigned const kind = sim::choose(7, "kind");
    bool const on = sim::choose(2, "on");
    b.connect([&](int id) {
      auto put = [&](auto &&...a) {
        if (on) sig.on(std::forward<decltype(a)>(a)...);
        else sig.connect(std::forward<decltype(a)>(a)...);
      };
      switch (kind) {
        case 0: put([&b, id, check](Payload p, int e, std::string s) { p.ok(e, "a slot taking values"), check(s, e, "a slot taking values"), b.called(e, id); }); break;
        case 1: put([&b, id, check](Payload const &p, int e, std::string const &s) { p.ok(e, "a slot taking references"), check(s, e, "a slot taking references"), b.called(e, id); }); break;
        case 2: put([&b, id, check](Payload &&p, int e, std::string &&s) {
          p.ok(e, "a slot taking rvalues"), check(s, e, "a slot taking rvalues");
          Payload const mine(std::move(p));
          std::string const t(std::move(s));
          b.called(e, id);
        }); break;
        case 3: {
          Receiver *r;
          {
            sim::Quiet q;
            rs.push_back(std::unique_ptr<Receiver>(new Receiver{b, id}));
            r = rs.back().get();
          }
          put(&Receiver::take, r);
          break;
        }
        case 4: put([&b, id](auto &&...) { b.called(b.next_event - 1, id); }); break;
        case 5: put([&b, id, check](long fixed, Payload p, int e) {  // a bound leading argument
          SIM_CHECK(fixed == id * 1000L, "bound", "the bound argument is %ld", fixed);
          p.ok(e, "a slot with a bound argument");
          b.called(e, id);
        }, id * 1000L); break;
        default: {
          std::function<void(Payload, int, std::string)> f = [&b, id, check](Payload p, int e, std::string s) { p.ok(e, "a std::function"), check(s, e, "a std::function"), b.called(e, id); };
          put(f);
        }
      }
    });
  };
  b.connect_one = add;
  auto one_emit = [&] {
    int const e = b.next_event++;
    bool const call = sim::choose(2, "operator()");
    b.emit(e, [&] {
      Payload p(e);
      std::string s = "s" + std::to_string(e);
      if (call) sig(std::move(p), int(e), std::move(s));
      else sig.emit(std::move(p), int(e), std::move(s));
    });
  };
  // (kind 4 knows the event by b.next_event only: no nesting while one is connected)
  for (int k = 2 + (int) sim::choose(9, "ops"); k-- > 0;) {
    if (sim::choose(2, "op")) add(-1);
    else one_emit();
  }
  one_emit();
}
SCENARIO(no_subject, 1) {
  sim::opt().alloc_permille = 40;
  Base b;
  b.thrower = (int) sim::choose(sim::choose(2, "few") ? 4 : 12, "thrower");
  cmdr::util::signal<> sig;
  auto add = [&](int) {
    b.connect([&](int id) { sig.connect([&b, id] { b.called(b.next_event - 1, id); }); });
  };
  b.connect_one = add;
  for (int k = 2 + (int) sim::choose(9, "ops"); k-- > 0;) {
    if (sim::choose(2, "op")) add(-1);
    else {
      int const e = b.next_event++;
      b.emit(e, [&] {
        if (sim::choose(2, "operator()")) sig();
        else sig.emit();
      });
    }
  }
}
SCENARIO(bindable, 2) {
  sim::opt().alloc_permille = 40;
  Base b;
  b.thrower = (int) sim::choose(sim::choose(2, "few") ? 4 : 12, "thrower");
  std::vector<std::unique_ptr<Receiver>> rs;
  cmdr::util::observable_bindable<Payload> o;
  auto add = [&](int) {
    unsigned const kind = sim::choose(4, "kind");
    bool const on = sim::choose(2, "on");
    b.connect([&](int id) {
      auto put = [&](auto &&...a) {
        if (on) o.on(std::forward<decltype(a)>(a)...);
        else o.add_callback(std::forward<decltype(a)>(a)...);
      };
      switch (kind) {
        case 0: put([&b, id](Payload const &p) { p.ok(p.n, "a callback"), b.called(p.n, id); }); break;
        case 1: put([&b, id](Payload p) { p.ok(p.n, "a callback taking a value"), b.called(p.n, id); }); break;
        case 2: put([&b, id](std::string const &bound, Payload const &p) {
          SIM_CHECK(bound == "bound-" + std::to_string(id), "bound", "the bound argument is '%s'", bound.c_str());
          p.ok(p.n, "a callback with a bound argument"), b.called(p.n, id);
        }, "bound-" + std::to_string(id)); break;
        default: {
          Receiver *r;
          {
            sim::Quiet q;
            rs.push_back(std::unique_ptr<Receiver>(new Receiver{b, id}));
            r = rs.back().get();
          }
          put(&Receiver::look, r);
        }
      }
    });
  };
  b.connect_one = add;
  auto one_emit = [&] {
    int const e = b.next_event++;
    b.emit(e, [&] {
      Payload const p(e);
      o.emit(p);
    });
  };
  b.emit_again = one_emit;
  for (int k = 2 + (int) sim::choose(9, "ops"); k-- > 0;) {
    if (sim::choose(2, "op")) add(-1);
    else one_emit();
  }
  one_emit();
}
