// C04: threaded_message_queue delivers each message to exactly one consumer, newest first; clear() wakes everybody.
#include "cmdr11/cmdr_pool.hh"
#include "common.h"
#include "lin.h"
using cmdr::pool::threaded_message_queue;
namespace {
  struct Msg {
    int id;
    std::string text;
    explicit Msg(int i) : id(i), text("message-number-" + std::to_string(i) + "-................") {}
  };
  using P = std::unique_ptr<Msg>;
  enum { PUSH, POP, CLEAR };
  struct Op {
    int kind, val;  // POP: -1 = empty optional
    uint64_t inv, ret;
  };
  struct Stack {
    std::vector<int> v;
    bool aborted = false;
    bool apply(Op const &o) {
      if (o.kind == PUSH) {
        v.push_back(o.val);
        return true;
      }
      if (o.kind == CLEAR) {
        aborted = true;
        v.clear();
        return true;
      }
      if (o.ret == UINT64_MAX) return false;
      if (o.val < 0) return aborted;
      if (aborted || v.empty() || v.back() != o.val) return false;
      v.pop_back();
      return true;
    }
    bool operator<(Stack const &b) const { return aborted != b.aborted ? aborted < b.aborted : v < b.v; }
  };
  struct Hist {
    std::vector<Op> ops;
    int begin(int kind, int val) {
      sim::Quiet q;
      ops.push_back({kind, val, sim::step() * 2 + 1, UINT64_MAX});
      return (int) ops.size() - 1;
    }
    void end(int i, int val) {
      sim::Quiet q;
      ops[i].ret = sim::step() * 2;
      ops[i].val = val;
    }
  };
  void go(bool lin_check) {
    Hist H;
    auto queue = std::make_unique<threaded_message_queue<P>>();
    auto &q = *queue;
    int const NP = 1 + (int) sim::choose(3, "producers"), NC = 1 + (int) sim::choose(3, "consumers");
    int const per = lin_check ? 1 + (int) sim::choose(3, "per") : 1 + (int) sim::choose(8, "per");
    int const early = (int) sim::choose(3, "abort");  // 0: after everything was consumed, 1: at a random time, 2: by the destructor
    bool const allocf = sim::chance(150, "alloc");
    std::vector<h::Cnt> seen(NP * per), accepted(NP * per);
    h::Cnt consumed, accepted_n, cleared, queue_gone;
    std::vector<std::thread> prod, cons;
    for (int c = 0; c < NC; c++)
      cons.push_back(h::spawn([&] {
        for (;;) {
          int const o = H.begin(POP, -2);
          std::optional<P> m = q.pop_front();
          if (!m) {
            H.end(o, -1);
            SIM_CHECK(cleared.get(), "empty-pop", "pop_front returned nothing although nobody called clear()");
            sim::event("empty");
            // every later pop is empty as well
            if (sim::chance(300, "again")) SIM_CHECK(!q.pop_front(), "pop-after-clear", "a message came out after an empty pop");
            return;
          }
          SIM_CHECK(*m, "damaged", "an empty message came out");
          int const id = (*m)->id;
          H.end(o, id);
          SIM_CHECK(id >= 0 && id < NP * per, "invented", "message %d was never sent", id);
          SIM_CHECK((*m)->text == "message-number-" + std::to_string(id) + "-................", "damaged", "message %d arrived changed", id);
          if (seen[id]++ != 0) sim::fail("duplicate", "message %d was delivered twice", id);
          sim::event("got %d", id);
          consumed++;
          sim::nontrivial();
        }
      }));
    for (int p = 0; p < NP; p++)
      prod.push_back(h::spawn([&, p] {
        for (int j = 0; j < per; j++) {
          int const id = p * per + j;
          h::nap();
          auto m = std::make_unique<Msg>(id);
          int const o = H.begin(PUSH, id);
          try {
            if (allocf) {
              sim::AllocFaults f;
              q.emplace_back(std::move(m));
            } else
              q.emplace_back(std::move(m));
            H.end(o, id);
            accepted[id].set(1);
            accepted_n++;
          } catch (std::bad_alloc const &) {
            sim::cover("emplace-bad_alloc");
            accepted[id].set(2);
            sim::Quiet qq;
            H.ops[o].kind = CLEAR + 1;
          }
        }
      }));
    if (early == 1) {
      h::nap();
      h::nap();
    } else {
      for (auto &t: prod) t.join();
      prod.clear();
      sim::wait_quiescent();  // all consumers have done what they can
      for (int i = 0; i < NP * per; i++) {
        if (accepted[i].get() == 1) SIM_CHECK(seen[i].get() == 1, "lost", "message %d was accepted and consumers wait, but nobody got it", i);
        if (accepted[i].get() == 2) SIM_CHECK(seen[i].get() == 0, "refused-delivered", "message %d was delivered although emplace_back threw", i);
      }
    }
    cleared.set(1);
    int const o = H.begin(CLEAR, 0);
    q.clear();
    H.end(o, 0);
    sim::event("cleared");
    for (auto &t: prod) t.join();
    for (auto &t: cons) t.join();
    SIM_CHECK(!q.pop_front(), "pop-after-clear", "a message came out after clear()");
    if (lin_check && H.ops.size() <= 26) {
      std::vector<Op> ops;
      for (auto &op: H.ops)
        if (op.kind <= CLEAR) ops.push_back(op);
      bool ok;
      {
        sim::Quiet qq;
        ok = lin::check(Stack{}, ops);
      }
      sim::cover("linearizability-checked");
      if (!ok) {
        std::string s;
        for (auto &op: ops) s += (op.kind == PUSH ? " push " : op.kind == POP ? " pop->" : " clear ") + std::to_string(op.val) + "[" + std::to_string(op.inv) + "," + std::to_string((long long) op.ret) + "]";
        sim::fail("not-newest-first", "no order of the operations explains the result of a newest-first queue:%s", s.c_str());
      }
    }
  }
} // namespace
SCENARIO(small_linearizable, 3) { go(true); }
SCENARIO(more_messages, 2) { go(false); }
SCENARIO(sequential, 1) {
  threaded_message_queue<P> q;
  std::vector<int> model;
  int next = 0;
  for (unsigned n = 5 + sim::choose(30, "n"); n-- > 0;) {
    if (sim::chance(550, "push")) {
      q.emplace_back(std::make_unique<Msg>(next));
      model.push_back(next++);
    } else if (!model.empty()) {
      auto m = q.pop_front();
      SIM_CHECK(m && *m && (*m)->id == model.back(), "not-newest-first", "got %d, the newest is %d", m && *m ? (*m)->id : -1, model.back());
      model.pop_back();
    }
    SIM_CHECK(q.empty() == model.empty(), "not-empty", "empty()=%d with %zu messages", q.empty(), model.size());
  }
  q.clear();
  SIM_CHECK(!q.pop_front(), "pop-after-clear", "a message came out after clear()");
  sim::nontrivial();
}
SCENARIO(destructor_wakes_nobody_left, 1) {  // destruction with messages still inside
  auto live = std::make_shared<int>(1);
  struct T {
    std::shared_ptr<int> p;
  };
  {
    threaded_message_queue<T> q;
    for (unsigned n = sim::choose(6, "n"); n-- > 0;) q.emplace_back(T{live});
    std::thread t = h::spawn([&] { auto m = q.pop_front(); });
    h::nap();
    q.clear();
    t.join();
  }
  SIM_CHECK(live.use_count() == 1, "leak", "%ld references left after the queue has gone", live.use_count() - 1);
  sim::nontrivial();
}

// as many messages as waiting consumers that take one each: nobody may sleep on while a message is there
SCENARIO(one_each, 3) {
  auto queue = std::make_unique<threaded_message_queue<P>>();
  auto &q = *queue;
  int const NC = 1 + (int) sim::choose(4, "consumers"), each = 1 + (int) sim::choose(2, "each"), NP = 1 + (int) sim::choose(2, "producers");
  int const total = NC * each;
  h::Cnt got;
  std::vector<h::Cnt> seen(total);
  std::vector<std::thread> ts, prod;
  for (int c = 0; c < NC; c++)
    ts.push_back(h::spawn([&] {
      for (int k = 0; k < each; k++) {
        auto m = q.pop_front();
        SIM_CHECK(m && *m, "empty-pop", "pop_front returned nothing although nobody called clear()");
        if (seen[(*m)->id]++ != 0) sim::fail("duplicate", "message %d was delivered twice", (*m)->id);
        got++;
        sim::event("got %d", (*m)->id);
      }
    }));
  if (sim::chance(500, "all-wait")) sim::wait_quiescent();
  bool const pause = sim::chance(300, "pause");
  for (int p = 0; p < NP; p++)
    prod.push_back(h::spawn([&, p] {
      for (int i = p; i < total; i += NP) {
        if (pause) h::nap();
        q.emplace_back(std::make_unique<Msg>(i));
      }
    }));
  for (auto &t: prod) t.join();
  sim::wait_quiescent();
  SIM_CHECK(got.get() == total, "consumer-not-woken", "%d of %d messages were consumed, the other consumers sleep", got.get(), total);
  sim::nontrivial();
  for (auto &t: ts) t.join();
}
