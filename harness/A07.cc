// A07: help screens list exactly what is there, whatever was printed before and however wide the terminal is.
#include "app_screens.h"
namespace {
  using ap::compact;
  using ap::count;
  struct W : ap::Screens {
    std::map<std::string, std::string> shown;  // what a screen looked like
    template<class T>
    void listed(std::string const &out, T const &x, bool want, std::string const &line) {
      std::string const m = marker(x.desc), full = item(x);
      unsigned const n = count(out, compact(m));
      SIM_CHECK(n == (want ? 1u : 0u), want ? "missing" : "hidden-shown", "'%s' lists %s %u times, it %s:\n%s", line.c_str(), x.key.c_str(), n, want ? "is visible there" : "does not belong there", out.c_str());
      if (want) SIM_CHECK(count(out, full) == 1, "garbled", "'%s' does not list %s as %s:\n%s", line.c_str(), x.key.c_str(), full.c_str(), out.c_str());
    }
    void tree_listed(std::string const &out, ap::Cmd &k, bool visible, bool all, std::string const &line) {
      for (auto &s: k.subs) {
        bool const there = visible && (all || !s.hidden);
        listed(out, s, there, line);
        tree_listed(out, s, there, all, line);
      }
    }
    void screen(ap::Cmd &k) {
      ap::Strings a;
      for (ap::Cmd *c = &k; c->parent; c = c->parent) {
        std::string const t = sim::chance(300, "short") && !c->s.empty() ? c->s : sim::chance(300, "alias") && !c->aliases.empty() ? c->aliases[0] : c->l;
        a.insert(a.begin(), t);
      }
      bool const tree = sim::chance(250, "tree"), usage = !tree && !k.subs.empty() && k.parent && sim::chance(200, "usage");
      std::string key0 = k.key + (tree ? " tree" : usage ? " usage" : "");
      bool const all = !usage && sim::chance(250, "hidden-ones-too");
      if (!usage) {
        static char const *const helps[] = {"--help", "-h", "--usages", "--info"}, *const thrice[] = {"-hhh", "--help --info -h", "-hh --usages", "-hhhh"};
        if (all) {
          std::istringstream is(thrice[sim::choose(4, "thrice")]);
          for (std::string x; is >> x;) a.push_back(x);
          if (tree) a.push_back("--tree");
        } else
          a.push_back(tree ? "--tree" : helps[sim::choose(4, "help")]);
      }
      std::string const line = ap::line(a);
      std::string const key = key0 + (all ? " all" : "");
      if (all) sim::cover("hidden-ones-too");
      bool const oom = sim::chance(100, "oom");
      ap::Capture c;
      invoked.clear();
      int rc = 0;
      try {
        if (oom) {
          sim::AllocFaults af;
          sim::opt().alloc_permille = 1 + sim::choose(20, "alloc-rate");
          rc = ap::run(*cli, a);
        } else
          rc = ap::run(*cli, a);
      } catch (std::bad_alloc const &) {
        if (!oom) throw;
      }
      sim::opt().alloc_permille = 0;
      SIM_CHECK(invoked.empty(), "invoked", "'%s' invoked %s", line.c_str(), invoked[0].cmd->key.c_str());
      if (oom) {
        sim::event("(out of memory) %s", line.c_str());
        sim::cover("out-of-memory");
        return;
      }
      sim::Quiet q;
      std::string const out = compact(c.out.str());
      sim::event("%s -> %d, %zu bytes", line.c_str(), rc, c.out.str().size());
      SIM_CHECK(rc == 0, "failed", "'%s' returned %d: %s", line.c_str(), rc, c.err.str().c_str());
      if (tree)
        tree_listed(out, k, true, all, line);
      else {
        for (auto *x: m.all)
          if (x != &k) listed(out, *x, x->parent == &k && (all || !x->hidden), line);  // its own description is there as well
        for (auto *f: m.flags) {
          bool in = false;
          for (ap::Cmd *p = &k; p; p = p->parent) in |= f->owner == p;
          listed(out, *f, in && (all || !f->hidden), line);
        }
      }
      // whatever was printed or run before: the same terminal, the same screen
      if (!usage) {
        auto &was = shown[key];
        std::string const now = c.out.str(), u1 = "Usage", u2 = "Options";
        // the usage line repeats the titles as they were given
        auto strip = [](std::string s) {
          auto const b = s.find("\nUsage\n"), e = b == s.npos ? s.npos : s.find('\n', b + 7);
          if (e != s.npos) s.erase(b, e - b);
          return s;
        };
        if (was.empty()) was = strip(now);
        else {
          SIM_CHECK(was == strip(now), "history", "the screen of '%s' differs from the one printed before:\n%s\n---- before:\n%s", line.c_str(), strip(now).c_str(), was.c_str());
          sim::cover("same-screen-again");
        }
      }
      sim::nontrivial();
    }
  };
}
SCENARIO(screens, 1) {
  W w;
  sim::opt().alloc_permille = 0;
  ap::clean_env();
  if (sim::chance(300, "xterm")) setenv("TERM", "xterm-256color", 1);
  if (sim::chance(200, "truecolor")) setenv("COLORTERM", "truecolor", 1);
  w.m.generate(4, true);
  w.decorate(w.m.root);
  w.cli = &ap::make_any();
  w.install();
  int const n = 2 + (int) sim::choose(7, "steps");
  unsigned const widths[] = {0, 80, 100, 40, 43, 44, 45, 46, 47, 50, 60, 132, 1, 20, 70, 200};
  auto resize = [&] {
    int const cols = sim::chance(300, "any") ? 1 + (int) sim::choose(160, "cols") : (int) widths[sim::choose(16, "cols")];
    sim::terminal(25, cols);
    w.shown.clear();
    sim::event("%d columns", cols);
  };
  if (sim::chance(700, "sized")) resize();
  for (int i = 0; i < n; i++) {
    switch (sim::choose(8, "op")) {
      case 0: {
        ap::Line L = ap::gen_line(w.m);
        w.run_and_check(L);
        break;
      }
      case 1: {
        ap::Line L = ap::gen_line(w.m);
        w.spoiled_run(L);
        break;
      }
      case 2:
        if (sim::chance(300, "resize")) resize();
        [[fallthrough]];
      default: {
        unsigned const k = sim::choose((unsigned) w.m.all.size() + 1, "of");
        w.screen(k ? *w.m.all[k - 1] : w.m.root);
      }
    }
  }
}
