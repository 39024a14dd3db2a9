// C11: any history of set/reset/lookups agrees with a map of dotted keys, also when memory runs out in between.
#include "cmdr11/cmdr_var_t.hh"
#include "common.h"
#include <map>
#include <set>
namespace {
  using store = cmdr::vars::store;
  using cmdr::vars::variable;
  struct Val {
    int kind = 0;
    long n = 0;
    bool operator==(Val const &o) const { return kind == o.kind && n == o.n; }
  };
  std::string str(long n) { return n % 3 ? "s" + std::to_string(n) : "a-rather-long-string-value-number-" + std::to_string(n); }
  std::vector<int> vec(long n) {
    std::vector<int> v;
    for (long i = 0; i < n % 5; i++) v.push_back((int) (n + i));
    return v;
  }
  enum { BOOL, INT, LONG, DBL, STR, VEC, DUR, VSTR, NKIND, NONE };
  std::any make(Val const &v) {
    switch (v.kind) {
      case BOOL: return (v.n & 1) != 0;
      case INT: return (int) v.n;
      case LONG: return (long) v.n * 1000003L;
      case DBL: return (double) v.n / 8;
      case STR: return str(v.n);
      case VEC: return vec(v.n);
      case DUR: return std::chrono::milliseconds(v.n);
      default: return std::vector<std::string>{str(v.n), str(v.n + 1)};
    }
  }
  template<class F>
  void with(Val const &v, F &&f) {
    switch (v.kind) {
      case BOOL: f((v.n & 1) != 0); break;
      case INT: f((int) v.n); break;
      case LONG: f((long) v.n * 1000003L); break;
      case DBL: f((double) v.n / 8); break;
      case STR: f(str(v.n)); break;
      case VEC: f(vec(v.n)); break;
      case DUR: f(std::chrono::milliseconds(v.n)); break;
      default: f(std::vector<std::string>{str(v.n), str(v.n + 1)});
    }
  }
  bool is(variable const &x, Val const &v) {
    if (v.kind == NONE) return !x.has_value();
    bool ok = false;
    with(v, [&](auto const &want) {
      using T = std::decay_t<decltype(want)>;
      ok = x.has_value() && x.type() == typeid(T) && x.as<T>() == want;
    });
    return ok;
  }
  char const *const PART[] = {"a", "b", "c", "aa", "ab", "app", "cli", "long-name-beyond-small-string-size", "x1", "B", "a b", "_", ""};
  struct M {
    std::map<std::string, Val> map;
    std::set<std::string> unknown;  // a failed set: the key may or may not be there
    std::set<std::string> inner;    // failed sets may have left these nodes
  };
  std::string gen_key(int parts, int maxd) {
    std::string k;
    int const n = 1 + (int) sim::choose(maxd, "depth");
    for (int d = 0; d < n; d++) {
      if (d) k += '.';
      if (parts > 13) k += "k" + std::to_string(sim::choose((unsigned) parts, "part"));
      else k += PART[sim::choose((unsigned) parts, "part")];
    }
    return k;
  }
  bool below(std::string const &p, std::string const &k) { return k.size() > p.size() && k[p.size()] == '.' && k.compare(0, p.size(), p) == 0; }

  // a prefix is not empty
  size_t split_at(std::string const &k, size_t from = 0) {
    auto const p = k.find('.', from);
    return p == 0 ? k.find('.', 1) : p;
  }

  void check_key(store &s, M &m, std::string const &k) {
    if (m.unknown.count(k)) return;
    auto it = m.map.find(k);
    store const &cs = s;
    variable const *vs[4];
    auto const dot = split_at(k);
    std::string const pre = dot == std::string::npos ? "" : k.substr(0, dot), rest = dot == std::string::npos ? k : k.substr(dot + 1);
    vs[0] = &s.get_raw(k);
    vs[1] = &cs.get_raw(k.c_str());
    vs[2] = &s.get_raw_p(pre, rest);
    vs[3] = &cs.get_raw_p(pre.c_str(), rest.c_str());
    for (auto *v: vs) {
      if (it == m.map.end()) {
        SIM_CHECK(!v->has_value(), "ghost", "get_raw(%s) yields a value although the key was never set", k.c_str());
      } else {
        SIM_CHECK(is(*v, it->second), "wrong-value", "get_raw(%s) does not yield the value last set (kind %d, n %ld), but '%s'", k.c_str(), it->second.kind, it->second.n, v->as_string().c_str());
      }
    }
    // every split of the key into prefix and rest
    bool const want = it != m.map.end();
    SIM_CHECK(s.has("", k.c_str()) == want && s.has(nullptr, k.c_str()) == want, "has", "has(\"\", %s) is %d", k.c_str(), !want);
    for (auto p = split_at(k); p != std::string::npos; p = k.find('.', p + 1))
      SIM_CHECK(s.has(k.substr(0, p).c_str(), k.c_str() + p + 1) == want, "has", "has(%s, %s) is %d", k.substr(0, p).c_str(), k.c_str() + p + 1, !want);
  }
  void check_walk(store &s, M &m, std::string const &prefix) {
    store::node *start = nullptr;
    store::node_pointer keep;
    bool known_below = false, unknown_below = false;
    auto rel = [&](std::string const &k) { return prefix.empty() || below(prefix, k); };
    for (auto &[k, v]: m.map) known_below = known_below || k == prefix || rel(k);
    for (auto &k: m.unknown) unknown_below = unknown_below || k == prefix || rel(k);
    if (!prefix.empty()) {
      keep = s.subtree(prefix.c_str());
      start = keep.get();
      if (!unknown_below) SIM_CHECK((start != nullptr) == known_below, "subtree", "subtree(%s) is %s, keys exist there: %d", prefix.c_str(), start ? "a node" : "null", known_below);
      else if (known_below) SIM_CHECK(start != nullptr, "subtree", "subtree(%s) is null", prefix.c_str());
      if (!start) return;
    }
    std::vector<std::string> seen;
    s.walk_by_full_keys([&](std::pair<std::string, store::node_pointer> const &p) {
      std::string const full = prefix.empty() ? p.first : prefix + "." + p.first;
      seen.push_back(p.first);
      if (m.unknown.count(full)) return;
      auto it = m.map.find(full);
      SIM_CHECK(it != m.map.end(), "ghost", "walking '%s' visits %s, which was not set", prefix.c_str(), full.c_str());
      SIM_CHECK(is(*p.second, it->second), "wrong-value", "walking '%s' visits %s with another value", prefix.c_str(), full.c_str());
    }, start);
    for (size_t i = 1; i < seen.size(); i++) SIM_CHECK(seen[i - 1] < seen[i], "walk-order", "walk visits %s before %s", seen[i - 1].c_str(), seen[i].c_str());
    for (auto &[k, v]: m.map)
      if (rel(k)) {
        std::string const r = prefix.empty() ? k : k.substr(prefix.size() + 1);
        SIM_CHECK(std::find(seen.begin(), seen.end(), r) != seen.end(), "lost-key", "walking '%s' does not visit %s", prefix.c_str(), k.c_str());
      }
    if (start)
      for (auto &[k, v]: m.map)
        if (below(prefix, k)) SIM_CHECK(&start->get_raw(k.substr(prefix.size() + 1)) == &s.get_raw(k), "wrong-node", "subtree(%s) and the root disagree about %s", prefix.c_str(), k.c_str());
  }
  // a lookup that runs out of memory says so
  void check_key_oom(store &s, M &m, std::string const &k) {
    if (m.unknown.count(k)) return;
    bool unknown_below = false, want_sub = m.map.count(k) > 0;
    for (auto &u: m.unknown) unknown_below = unknown_below || below(k, u);
    for (auto &kv: m.map) want_sub = want_sub || below(k, kv.first);
    auto it = m.map.find(k);
    auto const dot = split_at(k);
    std::string const pre = dot == std::string::npos ? "" : k.substr(0, dot), rest = dot == std::string::npos ? k : k.substr(dot + 1);
    store const &cs = s;
    int const how = (int) sim::choose(7, "how-looked-up");
    try {
      variable const *v = nullptr;
      bool has = false;
      store::node_pointer sub;
      {
        sim::AllocFaults af;
        switch (how) {
          case 0: v = &s.get_raw(k.c_str()); break;
          case 1: v = &cs.get_raw_p(pre.c_str(), rest.c_str()); break;
          case 2: v = &s.get_raw_p(pre.c_str(), rest.c_str()); break;
          case 3: v = &s.get_raw_p(pre, rest); break;
          case 4: v = &cs.get_raw_p(pre, rest); break;
          case 5: has = s.has(pre.c_str(), rest.c_str()); break;
          default: sub = s.subtree(k.c_str());
        }
      }
      if (v) SIM_CHECK(it == m.map.end() ? !v->has_value() : is(*v, it->second), "wrong-value", "a lookup (%d) of %s while memory was short returned another value", how, k.c_str());
      else if (how == 5) SIM_CHECK(has == (it != m.map.end()), "has", "has(%s, %s) is %d while memory was short", pre.c_str(), rest.c_str(), has);
      else if (want_sub) {
        SIM_CHECK(sub && (it == m.map.end() || is(*sub, it->second)), "subtree", "subtree(%s) is null or another node while memory was short", k.c_str());
      } else if (!unknown_below && m.inner.empty())
        SIM_CHECK(!sub, "subtree", "subtree(%s) is a node while memory was short", k.c_str());
    } catch (std::bad_alloc const &) {
      sim::cover("lookup-failed-for-lack-of-memory");
    }
  }
  // the dumps list each key once with its value
  void check_dump(store &s, M &m) {
    if (!m.unknown.empty()) return;
    for (auto &kv: m.map)
      if (kv.first.empty() || kv.first[0] == '.') return;  // the filter sees such keys without their leading dot
    auto text = [](variable const &v) {
      std::ostringstream o;
      o << v;
      return o.str();
    };
    auto plain = [](std::string const &t) {
      std::string r;
      for (size_t i = 0; i < t.size(); i++)
        if (t[i] == '\033') i = t.find('m', i);
        else r += t[i];
      return r;
    };
    unsigned const drop = (unsigned) sim::choose(3, "filter");  // keys the filter leaves out
    auto dropped = [&](std::string const &k) { return drop && (k.size() + k[0]) % 3 == drop; };
    std::function<bool(std::pair<std::string, store::node_pointer> const &)> const filter = [&](std::pair<std::string, store::node_pointer> const &p) { return !dropped(p.first); };
    std::ostringstream full, tree;
    if (drop) s.dump_full_keys_f(full, filter, "title"), s.dump_tree_f(tree, filter, "title");
    else s.dump_full_keys(full, "title"), s.dump_tree(tree, "title");
    std::string want = "title\n";
    for (auto &[k, v]: m.map)
      if (!dropped(k)) want += " - " + k + " : " + text(s.get_raw(k)) + "\n";
    SIM_CHECK(plain(full.str()) == want, "dump", "dump_full_keys shows\n%s\nexpected\n%s", plain(full.str()).c_str(), want.c_str());
    // the tree: a line per node, whose path is its ancestors' parts
    std::set<std::string> nodes, seen;
    for (auto &kv: m.map)
      for (size_t p = kv.first.find('.');; p = kv.first.find('.', p + 1)) {
        std::string const k = kv.first.substr(0, p);
        if (dropped(k)) break;
        nodes.insert(k);
        if (p == std::string::npos) break;
      }
    std::istringstream in(plain(tree.str()));
    std::string line;
    std::vector<std::string> path;
    std::getline(in, line);
    SIM_CHECK(line == "title", "dump", "dump_tree starts with '%s'", line.c_str());
    while (std::getline(in, line)) {
      size_t const ind = std::min(line.find_first_not_of(' '), line.size()), colon = line.find(": ", ind);
      SIM_CHECK(ind % 2 == 0 && colon != std::string::npos && ind / 2 <= path.size(), "dump", "dump_tree has the line '%s'", line.c_str());
      path.resize(ind / 2);
      path.push_back(line.substr(ind, colon - ind));
      std::string k;
      for (auto &x: path) k += (k.empty() && &x == &path[0] ? "" : ".") + x;
      SIM_CHECK(seen.insert(k).second, "dump", "dump_tree shows %s twice", k.c_str());
      std::string v = line.substr(colon + 2);
      auto it = m.map.find(k);
      if (it != m.map.end()) {
        std::string const t = text(s.get_raw(k));
        SIM_CHECK(v.compare(0, t.size(), t) == 0, "dump", "dump_tree shows %s with the value '%s', it has '%s'", k.c_str(), v.c_str(), t.c_str());
      }
    }
    SIM_CHECK(seen == nodes, "dump", "dump_tree shows %zu nodes, there are %zu", seen.size(), nodes.size());
    sim::cover("dumped");
  }
  void go(bool oom) {
    store s;
    sim::opt().hard_steps = 2000000;  // (large stores: every shared_ptr copied is a step)
    M m;
    bool const large = sim::chance(40, "large");
    int const parts = large ? 100 + (int) sim::choose(200, "many-parts") : 2 + (int) sim::choose(12, "parts"), maxd = 1 + (int) sim::choose(sim::chance(100, "deep") ? 12 : 4, "maxd");
    sim::opt().alloc_permille = oom ? 15 + sim::choose(60, "oom-rate") : 0;
    for (int n = 5 + (int) sim::choose(large ? 400 : 40, "ops"); n-- > 0;) {
      std::string const k = gen_key(parts, maxd);
      switch (sim::choose(16, "op")) {
        case 14: check_key_oom(s, m, m.map.empty() || sim::choose(2, "unset") ? k : std::next(m.map.begin(), (long) sim::choose(m.map.size(), "which"))->first); break;
        case 15: check_dump(s, m); break;
        case 12:
        case 13: {
          // an existing value replaced through the reference that get_raw returns
          if (m.map.empty()) break;
          auto at = m.map.begin();
          std::advance(at, sim::choose(m.map.size(), "which"));
          std::string const ek = at->first;
          Val const v{(int) sim::choose(NKIND, "kind"), (long) sim::choose(60, "n")};
          unsigned const how = sim::choose(5, "how-assigned");
          sim::event("assign %s kind %d n %ld how %u", ek.c_str(), v.kind, v.n, how);
          std::any const any = make(v);
          variable const cvar(any);
          variable var(any), gone(any);
          bool failed = false;
          try {
            with(v, [&](auto const &x) {
              auto y = x;
              auto z = x;
              variable &to = s.get_raw(ek);
              {
                sim::AllocFaults af;
                switch (how) {
                  case 0: to = y; break;
                  case 1: to = std::move(z); break;
                  case 2: to = var; break;
                  case 3: to = cvar; break;
                  default: to = std::move(gone); break;
                }
              }
              SIM_CHECK(y == x, "source-changed", "assigning a value (kind %d, n %ld) to %s changed the value assigned from", v.kind, v.n, ek.c_str());
            });
          } catch (std::bad_alloc const &) {
            failed = true;
          }
          SIM_CHECK(is(var, v) && is(cvar, v), "source-changed", "assigning a variable (kind %d, n %ld) to %s changed the variable assigned from", v.kind, v.n, ek.c_str());
          if (failed) {
            SIM_CHECK(oom, "bad-alloc", "assignment threw bad_alloc");
            sim::cover("assign-failed-for-lack-of-memory");
            m.map.erase(ek);
            m.unknown.insert(ek);
          } else {
            m.map[ek] = v;
            sim::nontrivial();
            sim::cover("assigned");
            check_key(s, m, ek);
          }
          break;
        }
        case 7: {
          if (!sim::chance(200, "reset")) break;
          s.reset();
          m = M();
          sim::cover("reset");
          sim::event("reset");
          break;
        }
        case 8:
        case 9: check_key(s, m, k); break;
        case 10: check_walk(s, m, k); break;
        case 11: check_walk(s, m, ""); break;
        default: {
          if (sim::chance(30, "no-value")) {  // a key is set although it has no value
            sim::event("set %s to nothing", k.c_str());
            std::any const none;
            variable const empty(none);
            s.set_raw(k.c_str(), empty);
            m.unknown.erase(k);
            m.map[k] = Val{NONE, 0};
            check_key(s, m, k);
            break;
          }
          Val const v{(int) sim::choose(NKIND, "kind"), (long) sim::choose(60, "n")};
          unsigned const how = sim::choose(6, "how");
          auto const dot = split_at(k);
          std::string const pre = dot == std::string::npos ? "" : k.substr(0, dot), rest = dot == std::string::npos ? k : k.substr(dot + 1);
          sim::event("set %s kind %d n %ld how %u", k.c_str(), v.kind, v.n, how);
          std::any const any = make(v);
          variable const var(any);
          variable tmp(any);
          bool failed = false;
          try {
            with(v, [&](auto const &x) {
              auto y = x;
              sim::AllocFaults af;
              switch (how) {
                case 0: s.set_raw(k.c_str(), x); break;
                case 1: s.set_raw_p(pre.c_str(), rest.c_str(), y); break;
                case 2: s.set_raw(k.c_str(), var); break;
                case 3: s.set_raw(k.c_str(), std::move(tmp)); break;
                case 4: s.set_raw_p(pre.c_str(), rest.c_str(), var); break;
                default: s.set_raw_p(pre.c_str(), rest.c_str(), std::move(tmp)); break;
              }
            });
          } catch (std::bad_alloc const &) {
            failed = true;
          }
          if (failed) {
            SIM_CHECK(oom, "bad-alloc", "set threw bad_alloc");
            sim::cover("set-failed-for-lack-of-memory");
            m.map.erase(k);
            m.unknown.insert(k);
          } else {
            if (m.map.count(k)) sim::cover("overwritten");
            if (m.unknown.erase(k)) sim::cover("set-again-after-failure");
            m.map[k] = v;
            sim::nontrivial();
            check_key(s, m, k);
          }
        }
      }
    }
    for (auto &[k, v]: m.map) check_key(s, m, k);
    check_walk(s, m, "");
    std::set<std::string> pres;
    for (auto &[k, v]: m.map)
      for (auto p = split_at(k); p != std::string::npos; p = k.find('.', p + 1)) pres.insert(k.substr(0, p));
    for (auto &p: pres) check_walk(s, m, p), check_key(s, m, p);
  }
} // namespace
SCENARIO(history, 1) { go(false); }
SCENARIO(history_oom, 2) { go(true); }
