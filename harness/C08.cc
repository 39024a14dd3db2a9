// C08: emit reaches every live registered observer exactly once per registration, in registration order.
#include "cmdr11/cmdr_common.hh"
#include "common.h"
namespace {
  struct Event {
    int id;
    std::string text;
  };
  std::string text_of(int id) { return "payload-of-event-" + std::to_string(id) + "-----------------"; }
  struct Note {
    int event, observer;
    uint64_t at;
  };
  uint64_t stamp() {
    static uint64_t n = 0;
    sim::Quiet q;
    return ++n;  // one thread runs at a time: a strict global order
  }
  struct World {
    std::vector<uint64_t> dead_at = std::vector<uint64_t>(16, UINT64_MAX);
    std::vector<Note> notes;  // appended under the subject's lock anyway; own mutex for the emitters' order
    int const throw_at;       // observer that throws
    int const what = (int) sim::choose(3, "what-is-thrown");
    std::function<void(int)> react;  // what observers do when they are notified
    World(int t) : throw_at(t) {}
  };
  struct Obs : cmdr::util::observer<Event> {
    World &w;
    int id;
    std::string alive = "alive-and-well-alive-and-well";
    Obs(World &w_, int i) : w(w_), id(i) {}
    ~Obs() override {
      alive.assign("dead");
      sim::Quiet q;
      w.dead_at[id] = stamp();
    }
    void observe(Event const &e) override {
      SIM_CHECK(alive == "alive-and-well-alive-and-well", "dead-observer", "observer %d was notified after its destruction", id);
      SIM_CHECK(e.text == text_of(e.id), "event-changed", "event %d arrived changed", e.id);
      {
        sim::Quiet q;
        w.notes.push_back({e.id, id, stamp()});
      }
      sim::event("observe e%d o%d", e.id, id);
      sim::yield();
      if (w.react) {
        w.react(id);
        // it may have lost its last owner meanwhile: it must live on while it is being called
        SIM_CHECK(alive == "alive-and-well-alive-and-well", "dead-observer", "observer %d was destroyed while it was being notified", id);
      }
      if (id == w.throw_at) {
        if (w.what == 1) throw std::bad_alloc();
        if (w.what == 2) throw id;
        throw h::Boom(id);
      }
    }
  };
  // one change of an observer's registration count (made by one thread only)
  struct Change {
    uint64_t inv, ret;
    int after;
  };
  struct Life {
    std::vector<Change> ch;  // chronological
    uint64_t last_add_inv = 0, last_add_ret = 0;
    uint64_t released_inv = UINT64_MAX;  // owner dropped its reference
    void range(uint64_t a, uint64_t b, int &lo, int &hi) const {
      // counts possible at some instant of [a,b]
      int cur = 0;
      lo = 1 << 30;
      hi = -1;
      uint64_t since = 0;
      auto put = [&](uint64_t f, uint64_t t, int v) {
        if (t < a || f > b) return;
        if (v < lo) lo = v;
        if (v > hi) hi = v;
      };
      for (auto &c: ch) {
        put(since, c.ret, cur);
        since = c.inv;
        cur = c.after;
      }
      put(since, UINT64_MAX, cur);
    }
    bool stable(uint64_t a, uint64_t b) const {
      for (auto &c: ch)
        if (!(c.ret < a || c.inv > b)) return false;
      return released_inv > b;
    }
    // the add that made the count 1 before a (only if count was 0 before)
    bool single_add_before(uint64_t a, Change &out) const {
      int prev = 0;
      bool ok = false;
      for (auto &c: ch) {
        if (c.ret >= a) break;
        if (c.after == 1 && prev == 0) out = c, ok = true;
        else ok = false;
        prev = c.after;
      }
      return ok;
    }
  };
  struct Emit {
    uint64_t inv, ret;
    bool threw;
  };
  template<bool CNS>
  void go() {
    using O = cmdr::util::observable<Event, true, CNS>;
    using SP = std::shared_ptr<cmdr::util::observer<Event>>;
    int const N = 2 + (int) sim::choose(4, "observers"), EM = 1 + (int) sim::choose(3, "emitters"), CH = 1 + (int) sim::choose(2, "changers");
    World w(sim::chance(250, "throws") ? (int) sim::choose(N, "thrower") : -1);
    O subject;
    std::vector<SP> owner(N);
    std::vector<Life> life(N);
    int const per = 1 + (int) sim::choose(4, "per");
    std::vector<Emit> emits(EM * per);
    for (int i = 0; i < N; i++) owner[i] = std::make_shared<Obs>(w, i);
    auto change = [&](int o, bool add) {
      Life &l = life[o];
      int const cur = l.ch.empty() ? 0 : l.ch.back().after;
      uint64_t const i = stamp();
      if (add) subject.add_observer(owner[o]);
      else subject.remove_observer(owner[o]);
      l.ch.push_back({i, stamp(), add ? cur + 1 : 0});
      sim::event("%s o%d", add ? "add" : "remove", o);
    };
    for (int i = 0; i < N; i++)
      if (sim::chance(700, "initial")) change(i, true);
    std::vector<std::thread> ts;
    for (int e = 0; e < EM; e++)
      ts.push_back(h::spawn([&, e] {
        for (int j = 0; j < per; j++) {
          int const id = e * per + j;
          h::nap();
          emits[id].inv = stamp();
          emits[id].threw = false;
          sim::event("emit e%d", id);
          try {
            Event const ev{id, text_of(id)};
            subject.emit(ev);
          } catch (h::Boom const &) {
            emits[id].threw = true;
          } catch (std::bad_alloc const &) {
            emits[id].threw = true;
          } catch (int) {
            emits[id].threw = true;
          }
          if (emits[id].threw) sim::cover("observer-threw");
          emits[id].ret = stamp();
        }
      }));
    for (int c = 0; c < CH; c++)
      ts.push_back(h::spawn([&, c] {
        for (int k = (int) sim::choose(6, "changes"); k-- > 0;) {
          int o = (int) sim::choose(N, "who");
          if (o % CH != c || !owner[o]) continue;
          switch (sim::choose(5, "change")) {
            case 4:
              life[o].released_inv = stamp();
              owner[o].reset();
              sim::cover("owner-released");
              sim::event("release o%d", o);
              break;
            case 3:
            case 1: change(o, false); break;
            default: change(o, true);
          }
          h::nap();
        }
      }));
    for (auto &t: ts) t.join();
    // history check
    for (int id = 0; id < EM * per; id++) {
      std::vector<int> seq;
      std::vector<int> cnt(N, 0);
      for (auto &n: w.notes)
        if (n.event == id) {
          seq.push_back(n.observer), cnt[n.observer]++;
          int lo, hi;
          life[n.observer].range(n.at, n.at, lo, hi);
          SIM_CHECK(hi > 0, "unregistered-notified", "emit %d notified observer %d when its removal had returned", id, n.observer);
        }
      Emit const &E = emits[id];
      if (w.throw_at >= 0) SIM_CHECK(E.threw == (cnt[w.throw_at] > 0), "exception", "emit %d %s although the observer that throws was notified %d times", id, E.threw ? "threw" : "did not throw", cnt[w.throw_at]);
      else SIM_CHECK(!E.threw, "exception", "emit %d threw although no observer does", id);
      for (int o = 0; o < N; o++) {
        int lo, hi;
        life[o].range(E.inv, E.ret, lo, hi);
        SIM_CHECK(cnt[o] <= hi, "unregistered-notified", "emit %d notified observer %d %d times, it was registered at most %d times meanwhile", id, o, cnt[o], hi);
        // (a concurrent call may have kept a released observer alive for a while: its destruction counts)
        if (w.dead_at[o] < E.inv) SIM_CHECK(cnt[o] == 0, "dead-observer", "emit %d notified observer %d, destroyed before", id, o);
        if (!E.threw && life[o].released_inv > E.ret)
          SIM_CHECK(cnt[o] >= lo, "observer-missed", "emit %d notified observer %d %d times, it was registered at least %d times", id, o, cnt[o], lo);
        if (cnt[o]) sim::nontrivial();
      }
      for (size_t a = 0; a < seq.size(); a++)
        for (size_t b = a + 1; b < seq.size(); b++) {
          int const x = seq[a], y = seq[b];
          Change cx, cy;
          if (x == y || cnt[x] != 1 || cnt[y] != 1 || !life[x].stable(E.inv, E.ret) || !life[y].stable(E.inv, E.ret)) continue;
          if (!life[x].single_add_before(E.inv, cx) || !life[y].single_add_before(E.inv, cy)) continue;
          SIM_CHECK(!(cy.ret < cx.inv), "order", "emit %d notified observer %d before %d, which was registered earlier", id, x, y);
          sim::cover("order-checked");
        }
    }
    // still usable
    SP last = std::make_shared<Obs>(w, N);
    subject.add_observer(last);
    size_t const before = w.notes.size();
    try {
      subject.emit(Event{100000, text_of(100000)});
      SIM_CHECK(w.notes.size() > before && w.notes.back().observer == N, "observer-missed", "the last registered observer was not notified last");
    } catch (h::Boom const &) {
    } catch (std::bad_alloc const &) {
    } catch (int) {
    }
  }
  // exact single-threaded histories, all three policies
  template<bool LOCK, bool CNS>
  void seq() {
    using O = cmdr::util::observable<Event, LOCK, CNS>;
    using SP = std::shared_ptr<cmdr::util::observer<Event>>;
    World w(-1);
    O subject;
    int const N = 1 + (int) sim::choose(5, "n");
    w.dead_at.resize(16);
    std::vector<SP> owner;
    std::vector<int> model;
    for (int i = 0; i < N; i++) owner.push_back(std::make_shared<Obs>(w, i));
    int ev = 0;
    for (int k = 5 + (int) sim::choose(20, "k"); k-- > 0;) {
      int const o = (int) sim::choose(N, "o");
      switch (sim::choose(6, "op")) {
        case 1:
          if (!owner[o]) break;
          switch (sim::choose(4, "how-removed")) {
            case 1: subject - owner[o]; break;
            case 2: subject -= owner[o].get(); break;
            case 3: subject - owner[o].get(); break;
            default: subject -= owner[o];
          }
          model.erase(std::remove(model.begin(), model.end(), o), model.end());
          break;
        case 2:
          owner[o].reset();
          model.erase(std::remove(model.begin(), model.end(), o), model.end());
          break;
        case 3: {
          w.notes.clear();
          int const id = ev++;
          // some observers release an owner (perhaps their own) when they are notified
          int const rel = sim::chance(300, "react") ? (int) sim::choose(N, "releaser") : -1, victim = rel < 0 ? 0 : (int) sim::choose(N, "victim");
          if (rel >= 0) {
            bool done = false;
            std::vector<int> want;
            for (int o : model) {
              if (done && o == victim) continue;
              want.push_back(o);
              done = done || o == rel;
            }
            w.react = [&owner, rel, victim](int o) {
              if (o == rel) owner[victim].reset();
            };
            subject.emit(Event{id, text_of(id)});
            w.react = nullptr;
            std::vector<int> got;
            for (auto &n: w.notes) got.push_back(n.observer);
            SIM_CHECK(got == want, "chain", "emit notified %zu observers, expected %zu, or in another order (observer %d released %d meanwhile)", got.size(), want.size(), rel, victim);
            if (done) model.erase(std::remove(model.begin(), model.end(), victim), model.end()), sim::cover("released-by-an-observer");
            break;
          }
          subject.emit(Event{id, text_of(id)});
          std::vector<int> got;
          for (auto &n: w.notes) got.push_back(n.observer);
          SIM_CHECK(got == model, "chain", "emit notified %zu observers, expected %zu, or in another order", got.size(), model.size());
          sim::nontrivial();
          break;
        }
        default:
          if (!owner[o]) break;
          switch (sim::choose(5, "how-added")) {
            case 1: subject.add_observer(std::weak_ptr<cmdr::util::observer<Event>>(owner[o])); break;
            case 2: subject += std::weak_ptr<cmdr::util::observer<Event>>(owner[o]); break;
            case 3: subject + owner[o]; break;
            case 4: subject + std::weak_ptr<cmdr::util::observer<Event>>(owner[o]); break;
            default: subject += owner[o];
          }
          model.push_back(o);
      }
    }
  }
} // namespace
SCENARIO(concurrent_cns, 3) { go<true>(); }
SCENARIO(concurrent_locked, 3) { go<false>(); }
SCENARIO(seq_cns, 1) { seq<true, true>(); }
SCENARIO(seq_locked, 1) { seq<true, false>(); }
SCENARIO(seq_nolock, 1) { seq<false, false>(); }
