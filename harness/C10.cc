// C10: concurrent set/has/get_raw/subtree on one store behave as if executed one after another.
#include "cmdr11/cmdr_var_t.hh"
#include "common.h"
#include <map>
#include <set>
namespace {
  uint64_t stamp() {
    static uint64_t n = 0;
    sim::Quiet q;
    return ++n;
  }
  char const *const UNIV[] = {"a", "a.b", "a.b.c", "a.b.d", "a.e", "b", "b.a", "b.a.b", "c.c.c", "c.c", "d.x.y.z", "app.cli.verbose", "app.cli.v", "app.x", "app.config.file", "e", "f.g", "a.b.c.d.e", "d.x"};
  int const NU = sizeof UNIV / sizeof *UNIV;
  struct K {
    uint64_t set_inv = UINT64_MAX, set_ret = UINT64_MAX;  // first set
    int sets = 0;                                         // how often it will be set
    uint64_t seen_ret = UINT64_MAX;                       // earliest end of a lookup that found it
    std::string owner_val;
  };
  std::string val_of(int k, int n) { return std::string("value-") + std::to_string(n) + "-of-" + UNIV[k] + "------------------"; }
  bool is_prefix(std::string const &p, std::string const &k) { return k.size() > p.size() && k[p.size()] == '.' && k.compare(0, p.size(), p) == 0; }

  void go() {
    cmdr::vars::store s;
    auto &null = cmdr::vars::store::node::null_element();
    int const W = 1 + (int) sim::choose(3, "writers"), R = 1 + (int) sim::choose(3, "readers");
    int const span = 4 + (int) sim::choose(NU - 3, "span"), base = (int) sim::choose(NU, "base");
    auto pick = [&](char const *w) { return (base + (int) sim::choose(span, w)) % NU; };
    std::vector<K> key(NU);
    bool const overlap = sim::chance(300, "shared-keys");  // several writers may set the same key (its value is then not read)
    std::vector<std::vector<std::pair<int, int>>> prog(W);
    std::vector<int> owner(NU, -1);
    std::vector<bool> shared(NU, false);
    for (int w = 0; w < W; w++)
      for (int n = 1 + (int) sim::choose(5, "sets"); n-- > 0;) {
        int const k = pick("key");
        if (owner[k] != -1 && owner[k] != w) {
          if (!overlap) continue;
          shared[k] = true;
        }
        owner[k] = w;
        prog[w].push_back({k, key[k].sets++});
      }
    std::vector<std::thread> ts;
    for (int w = 0; w < W; w++)
      ts.push_back(h::spawn([&, w] {
        for (auto [k, n]: prog[w]) {
          h::nap();
          std::string const v = val_of(k, n);
          uint64_t const i = stamp();
          sim::event("set %s #%d", UNIV[k], n);
          switch (sim::choose(3, "how")) {
            case 1: {
              std::string const full = UNIV[k];
              auto const dot = full.find('.');
              if (dot == std::string::npos) s.set_raw_p("", UNIV[k], v);
              else s.set_raw_p(full.substr(0, dot).c_str(), full.c_str() + dot + 1, v);
              break;
            }
            case 2: {
              cmdr::vars::variable const var(v);
              s.set_raw(UNIV[k], var);
              break;
            }
            default: s.set_raw(UNIV[k], v);
          }
          uint64_t const r = stamp();
          sim::event("set %s #%d done", UNIV[k], n);
          sim::Quiet q;  // a key may have several writers
          if (i < key[k].set_inv) key[k].set_inv = i;
          if (r < key[k].set_ret) key[k].set_ret = r;
          key[k].owner_val = v;
        }
      }));
    struct Look {
      uint64_t inv, ret;
      int k;
      int kind;
      bool found;
    };
    struct Walk {
      uint64_t inv, ret;
      std::set<std::string> seen;
    };
    std::vector<std::vector<Look>> looks(R);
    std::vector<std::vector<Walk>> walks(R);
    // every key on the way is visited once, in order, with its value
    auto walk = [&](int r) {
      Walk w{stamp(), 0, {}};
      sim::event("walk");
      std::string last;
      s.walk_by_full_keys([&](std::pair<std::string, cmdr::vars::store::node_pointer> const &p) {
        sim::Quiet q;
        SIM_CHECK(w.seen.empty() || last < p.first, "walk-order", "walk visits %s after %s", p.first.c_str(), last.c_str());
        last = p.first;
        int k = 0;
        while (k < NU && p.first != UNIV[k]) k++;
        SIM_CHECK(k < NU, "invented", "walk visits %s", p.first.c_str());
        if (key[k].sets == 1) SIM_CHECK(p.second->type() == typeid(std::string) && p.second->as<std::string>() == val_of(k, 0), "half-built", "walk visits %s without its value", UNIV[k]);
        w.seen.insert(p.first);
      });
      w.ret = stamp();
      sim::event("walk done %zu", w.seen.size());
      if (!w.seen.empty()) sim::cover("walked");
      sim::Quiet q;
      walks[r].push_back(w);
    };
    for (int r = 0; r < R; r++)
      ts.push_back(h::spawn([&, r] {
        for (int n = 2 + (int) sim::choose(10, "looks"); n-- > 0;) {
          if (sim::chance(150, "walk")) {
            walk(r);
            continue;
          }
          int const k = pick("look");
          std::string const full = UNIV[k];
          Look l{stamp(), 0, k, (int) sim::choose(4, "kind"), false};
          bool const once = key[k].sets == 1;
          auto value = [&](cmdr::vars::variable const &v) {
            if (!once) return;  // its value may change under our eyes
            SIM_CHECK(v.has_value() && v.type() == typeid(std::string), "half-built", "key %s was found without its value", UNIV[k]);
            SIM_CHECK(v.as<std::string>() == val_of(k, 0), "wrong-value", "key %s has the value '%s'", UNIV[k], v.as<std::string>().c_str());
          };
          switch (l.kind) {
            case 0: {
              auto const dot = full.rfind('.');
              l.found = sim::choose(2, "split") && dot != std::string::npos ? s.has(full.substr(0, dot).c_str(), full.c_str() + dot + 1) : s.has("", UNIV[k]);
              break;
            }
            case 1: {
              auto &v = s.get_raw(UNIV[k]);
              l.found = &v != &null;
              if (l.found) value(v);
              else SIM_CHECK(!v.has_value(), "null-changed", "the null element has a value");
              break;
            }
            case 2: {  // through a subtree: prefix node found => the key is reachable from it
              auto const dot = full.find('.');
              if (dot == std::string::npos) {
                l.kind = 1;
                auto &v = s.get_raw(full);
                l.found = &v != &null;
                break;
              }
              auto node = s.subtree(full.substr(0, dot).c_str());
              if (node) {
                auto &v = node->get_raw(full.c_str() + dot + 1);
                l.found = &v != &null;
                if (l.found) value(v);
              }
              break;
            }
            default: {  // the node of the key or of an inner part of a longer key
              auto node = s.subtree(UNIV[k]);
              l.found = node != nullptr;
              if (node && once) {
                bool inner = false;
                for (int j = 0; j < NU; j++) inner = inner || (key[j].sets && is_prefix(full, UNIV[j]));
                if (!inner) value(*node);
              }
            }
          }
          l.ret = stamp();
          sim::event("look%d %s %d", l.kind, UNIV[k], l.found);
          looks[r].push_back(l);
          if (l.found) sim::nontrivial();
          h::nap();
        }
      }));
    for (auto &t: ts) t.join();
    // history
    for (auto &v: looks)
      for (auto &l: v)
        if (l.found && l.kind != 3 && l.ret < key[l.k].seen_ret) key[l.k].seen_ret = l.ret;
    for (auto &v: looks)
      for (auto &l: v) {
        uint64_t inv = key[l.k].set_inv, ret = key[l.k].set_ret;
        if (l.kind == 3)
          for (int j = 0; j < NU; j++)
            if (is_prefix(UNIV[l.k], UNIV[j])) inv = std::min(inv, key[j].set_inv), ret = std::min(ret, key[j].set_ret);
        if (l.found) SIM_CHECK(inv < l.ret, "invented", "lookup of %s found it before it was set", UNIV[l.k]);
        else {
          SIM_CHECK(ret > l.inv, "lost-key", "lookup (kind %d) of %s did not find it, although a set of it had returned", l.kind, UNIV[l.k]);
          if (l.kind != 3) SIM_CHECK(key[l.k].seen_ret >= l.inv, "lost-key", "lookup of %s did not find it, although an earlier lookup had", UNIV[l.k]);
        }
      }
    for (auto &v: walks)
      for (auto &w: v)
        for (int k = 0; k < NU; k++) {
          bool const seen = w.seen.count(UNIV[k]) > 0;
          if (seen) SIM_CHECK(key[k].set_inv < w.ret, "invented", "a walk visited %s before it was set", UNIV[k]);
          else SIM_CHECK(key[k].set_ret > w.inv && key[k].seen_ret >= w.inv, "lost-key", "a walk did not visit %s, although a set of it had returned or a lookup had found it", UNIV[k]);
        }
    // final state
    std::set<std::string> all;
    s.walk_by_full_keys([&](std::pair<std::string, cmdr::vars::store::node_pointer> const &p) {
      SIM_CHECK(all.insert(p.first).second, "walk-twice", "key %s visited twice", p.first.c_str());
      SIM_CHECK(&s.get_raw(p.first) == p.second.get(), "wrong-node", "key %s is indexed with another node", p.first.c_str());
    });
    for (int k = 0; k < NU; k++) {
      SIM_CHECK(all.count(UNIV[k]) == (key[k].sets ? 1u : 0u), "lost-key", "key %s: set %d times, in the index %d times", UNIV[k], key[k].sets, (int) all.count(UNIV[k]));
      if (!key[k].sets) continue;
      SIM_CHECK(s.has("", UNIV[k]), "lost-key", "key %s is gone", UNIV[k]);
      auto node = s.subtree(UNIV[k]);
      SIM_CHECK(node.get() == &s.get_raw(UNIV[k]), "wrong-node", "subtree(%s) and get_raw disagree", UNIV[k]);
      if (!shared[k]) SIM_CHECK(node->as<std::string>() == key[k].owner_val, "wrong-value", "key %s has the value '%s'", UNIV[k], node->as_string().c_str());
      for (int j = 0; j < NU; j++)
        if (key[j].sets && is_prefix(UNIV[k], UNIV[j]))
          SIM_CHECK(&node->get_raw(UNIV[j] + strlen(UNIV[k]) + 1) == &s.get_raw(UNIV[j]), "wrong-node", "below %s: %s is missing or another node", UNIV[k], UNIV[j]);
    }
    SIM_CHECK(all.size() == (size_t) std::count_if(key.begin(), key.end(), [](K const &k) { return k.sets > 0; }), "invented", "the index has extra keys");
  }
} // namespace
SCENARIO(store_threads, 1) { go(); }
