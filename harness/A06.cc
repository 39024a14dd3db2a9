// A06: registering commands and flags is all-or-nothing and takes effect at the next run.
#include "app_world.h"
namespace {
  struct W : ap::World {
    unsigned ghosts = 0;
    std::vector<std::pair<std::string, std::string>> rejected;  // key of the parent, a title only the rejected item had
    void setup() {
      install();
      cli->set_global_on_arg_added_handlers([this](cmdr::opt::arg *) { bomb.at("arg-added"); });
      cli->set_global_on_cmd_added_handlers([this](cmdr::opt::cmd *) { bomb.at("cmd-added"); });
    }
    cmdr::opt::cmd &real(ap::Cmd &k) {
      if (!k.parent) return *cli;
      auto &c = real(*k.parent)(k.l.c_str());
      SIM_CHECK(c.valid() && c.dotted_key() == k.key, "tree-changed", "%s is no longer found", k.key.c_str());
      return c;
    }
    ap::Cmd &any_cmd() {
      unsigned const i = sim::choose((unsigned) m.all.size() + 1, "under");
      return i ? *m.all[i - 1] : m.root;
    }
    ap::Strings path(ap::Cmd &k) {
      ap::Strings p;
      for (ap::Cmd *c = &k; c->parent; c = c->parent) p.insert(p.begin(), c->l);
      return p;
    }
    std::string help(ap::Cmd &k) {
      ap::Strings a = path(k);
      a.push_back("--help");
      ap::Capture c;
      invoked.clear();
      int const rc = ap::run(*cli, a);
      SIM_CHECK(rc == 0 && invoked.empty(), "help", "'%s' returned %d: %s", ap::line(a).c_str(), rc, c.err.str().c_str());
      return c.out.str();
    }
    std::string ghost() { return "ghost" + std::to_string(ghosts++); }
    // registers it in the app; how: 0 plainly, 1 memory exhaustion, 2 a handler throws. True if it is registered.
    template<class F>
    bool attempt(char const *what, std::string const &title, unsigned how, bool dup, F &&f) {
      char const *threw = nullptr;
      std::string msg;
      try {
        if (how == 1) {
          sim::AllocFaults af;
          sim::opt().alloc_permille = 5 + sim::choose(60, "alloc-rate");
          f();
        } else {
          bomb.where = what[0] == 'f' ? "arg-added" : "cmd-added";
          bomb.armed = how == 2;
          f();
        }
      } catch (std::bad_alloc const &) {
        threw = "bad_alloc";
      } catch (h::Boom const &) {
        threw = "handler";
      } catch (cmdr::exception::dup_error const &e) {
        threw = "dup";
      }
      sim::opt().alloc_permille = 0;
      bomb.armed = false;
      sim::event("register %s %s -> %s", what, title.c_str(), threw ? threw : "ok");
      if (dup) SIM_CHECK(threw && (!strcmp(threw, "dup") || !strcmp(threw, "bad_alloc")), "dup-accepted", "registering the %s %s did not report the duplicate (%s)", what, title.c_str(), threw ? threw : "no exception");
      else if (how == 0) SIM_CHECK(!threw, "refused", "registering the %s %s failed with %s", what, title.c_str(), threw);
      else if (how == 2) SIM_CHECK(threw, "no-handler", "registering the %s %s did not call the handler", what, title.c_str());
      if (threw) sim::cover(dup ? "duplicate-refused" : how == 1 ? "out-of-memory" : "handler-threw");
      return !threw;
    }
    int ghost_act() { sim::fail("invoked", "the action of a command that was refused has been called"); }
    void put_flag(ap::Cmd &k, ap::Flag f, unsigned how, bool dup) {
      ap::Flag g = f;
      bool ok = false;
      auto &c = real(k);
      for (int tries = 0; !ok; tries++) {
        ok = attempt("flag", "--" + g.l + " under " + k.key, tries > 2 ? 0 : how, dup, [&] {
          ap::add_flag(c, g);
        });
        if (dup || (!ok && sim::chance(300, "give-up"))) break;
      }
      if (!ok) return;
      k.flags.push_back(f);
      ap::Flag &n = k.flags.back();
      n.owner = &k;
      n.key = k.key + "." + n.l;
      n.def = ap::canon_text(n.def, n.t);
      m.flags.push_back(&n);
      sim::cover("flag-added-later");
    }
    void put_cmd(ap::Cmd &k, ap::Cmd s, unsigned how, bool dup) {
      bool ok = false;
      ap::Cmd *n = nullptr;
      if (!dup) {
        k.subs.push_back(s);
        n = &k.subs.back();
        n->parent = &k;
        n->key = k.key + "." + n->l;
      }
      auto &c = real(k);
      for (int tries = 0; !ok; tries++) {
        ok = attempt("command", s.l + " under " + k.key, tries > 2 ? 0 : how, dup, [&] {
          cmdr::opt::sub_cmd sc;
          ap::with_titles(sc, s.l, s.s, s.aliases);
          sc.description("a command");
          if (dup) sc.on_invoke([this](cmdr::opt::cmd const &, ::string_array const &) -> int { return ghost_act(); });
          else sc.on_invoke([this, n](cmdr::opt::cmd const &c2, ::string_array const &a) -> int { return act(*n, c2, a); });
          c += sc;
        });
        if (dup || (!ok && sim::chance(300, "give-up"))) break;
      }
      if (!n) return;
      if (!ok) {
        k.subs.pop_back();
        return;
      }
      m.all.push_back(n);
      sim::cover("command-added-later");
    }
    void new_flag(unsigned how) {
      ap::Cmd &k = any_cmd();
      ap::Cmd tmp;
      m.gen_flags(tmp, 1, false);
      for (auto &f: tmp.flags) put_flag(k, f, how, false);
    }
    void new_cmd(unsigned how) {
      ap::Cmd &k = any_cmd();
      ap::Cmd s;
      s.l = m.cname();
      if (sim::chance(500, "short")) s.s = s.l.substr(0, 2) + "x" + std::to_string(m.names++);
      if (sim::chance(400, "alias")) s.aliases.push_back(s.l + "-alias");
      put_cmd(k, s, how, false);
    }
    void dup_flag(unsigned how) {
      ap::Cmd &k = any_cmd();
      std::vector<std::string> longs, shorts;
      for (auto &f: k.flags) {
        longs.push_back(f.l);
        if (!f.s.empty()) shorts.push_back(f.s);
        for (auto &a: f.aliases) longs.push_back(a);
      }
      if (!k.parent) longs.insert(longs.end(), {"help", "version", "debug"}), shorts.push_back("h");
      if (longs.empty()) return;
      ap::Flag f;
      std::string const &taken = longs[sim::choose((unsigned) longs.size(), "taken")];
      f.t = (ap::Type) sim::choose(ap::NTypes, "type");
      f.def = f.t == ap::Bool ? "true" : ap::gen_value(f.t);
      f.required = sim::chance(500, "required");
      f.l = ghost();
      std::string const g = f.l;
      if (f.t == ap::Bool && sim::chance(500, "toggle"))
        for (auto &o: k.flags)
          if (!o.toggle.empty()) f.toggle = o.toggle;
      unsigned const kind = sim::choose(shorts.empty() ? 2 : 3, "dup");
      if (kind == 0) f.l = taken, f.aliases.push_back(g);
      else if (kind == 1) f.aliases.push_back(taken);
      else f.s = shorts[sim::choose((unsigned) shorts.size(), "taken")];
      std::string const before = help(k);
      put_flag(k, f, how, true);
      std::string const after = help(k);
      SIM_CHECK(before == after, "traces", "the help of %s changed after a flag was refused (%s):\n%s\n---- before:\n%s", k.key.c_str(), f.l.c_str(), after.c_str(), before.c_str());
      probe(k, "--" + g);
    }
    void dup_cmd(unsigned how) {
      ap::Cmd &k = any_cmd();
      std::vector<std::string> longs, shorts;
      for (auto &s: k.subs) {
        longs.push_back(s.l);
        if (!s.s.empty()) shorts.push_back(s.s);
        for (auto &a: s.aliases) longs.push_back(a);
      }
      if (!k.parent) longs.push_back("generate");
      if (longs.empty()) return;
      ap::Cmd s;
      std::string const taken = longs[sim::choose((unsigned) longs.size(), "taken")], g = ghost();
      s.l = g;
      unsigned const kind = sim::choose(shorts.empty() ? 2 : 3, "dup");
      if (kind == 0) s.l = taken, s.aliases.push_back(g);
      else if (kind == 1) s.aliases.push_back(taken);
      else s.s = shorts[sim::choose((unsigned) shorts.size(), "taken")];
      std::string const before = help(k);
      put_cmd(k, s, how, true);
      std::string const after = help(k);
      SIM_CHECK(before == after, "traces", "the help of %s changed after a command was refused (%s):\n%s\n---- before:\n%s", k.key.c_str(), s.l.c_str(), after.c_str(), before.c_str());
      if (!k.subs.empty()) probe(k, g);
    }
    // a title only a refused item has is unknown
    void probe(ap::Cmd &k, std::string const &title) {
      ap::Line L;
      L.argv = path(k);
      L.argv.push_back(title);
      L.at = &k;
      L.kind = ap::Line::Unknown;
      run_and_check(L);
    }
  };
}
SCENARIO(registration, 1) {
  W w;
  sim::opt().alloc_permille = 0;
  ap::clean_env();
  w.m.generate();
  w.cli = &ap::make_any();
  w.setup();
  int const n = 3 + (int) sim::choose(9, "steps");
  std::deque<ap::Model> old;
  for (int i = 0; i < n; i++) {
    unsigned const how = sim::chance(500, "hard") ? 1 + sim::choose(2, "how") : 0;
    switch (sim::choose(8, "op")) {
      case 0: w.new_flag(how); break;
      case 1: w.new_cmd(how); break;
      case 2: w.dup_flag(how); break;
      case 3: w.dup_cmd(how); break;
      case 4:
        if (sim::chance(300, "reset")) {
          w.cli->reset();
          old.emplace_back();
          std::swap(old.back(), w.m);
          w.m.generate();
          w.setup();
          sim::event("reset");
          sim::cover("reset");
          break;
        }
        [[fallthrough]];
      default: {
        ap::Line L = ap::gen_line(w.m);
        w.run_and_check(L);
      }
    }
  }
  for (int i = 0; i < 2; i++) {
    ap::Line L = ap::gen_line(w.m);
    w.run_and_check(L);
  }
  sim::Quiet q;
  w.check_tree(*w.cli, w.m.root);
}
