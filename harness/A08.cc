// A08: what the shell completion is offered is exactly what can be typed next, whatever was run before.
#include "app_screens.h"
namespace {
  using Words = std::multiset<std::string>;
  std::string escaped(std::string const &s) {
    std::string r;
    for (char ch: s) {
      if (strchr("[]:()", ch)) r += '\\';
      r += ch;
    }
    return r;
  }
  // as the generated script does: awk -F'|' '{print $1}' | awk -F',' and blanks stripped
  Words offered(std::string const &out) {
    Words w;
    std::istringstream is(out);
    std::string l;
    while (std::getline(is, l)) {
      std::istringstream one(l.substr(0, l.find('|')));
      std::string x;
      while (std::getline(one, x, ',')) {
        auto const b = x.find_first_not_of(" \t"), e = x.find_last_not_of(" \t");
        if (b != x.npos) w.insert(x.substr(b, e - b + 1));
      }
    }
    return w;
  }
  Words lines(std::string const &out) {
    Words w;
    std::istringstream is(out);
    std::string l;
    while (std::getline(is, l)) w.insert(l);
    return w;
  }
  std::string differ(Words const &got, Words const &want) {
    std::string r;
    for (auto &x: want)
      if (got.count(x) < want.count(x)) r += " lacks '" + x + "'";
    for (auto &x: got)
      if (want.count(x) < got.count(x)) r += " has too much '" + x + "'";
    return r;
  }
  struct W : ap::Screens {
    Words builtin[2][2];  // of the application itself: hidden ones too, zsh
    static bool is_flag(std::string const &s) { return s[0] == '-'; }
    static void shell(bool zsh) {
      static char const *const others[] = {"/bin/bash", "bash", "/usr/bin/fish", "", nullptr};
      static char const *const z[] = {"/bin/zsh", "zsh", "/usr/local/bin/zsh"};
      char const *s = zsh ? z[sim::choose(3, "zsh")] : others[sim::choose(5, "shell")];
      if (s) setenv("SHELL", s, 1);
      else unsetenv("SHELL");
    }
    static void ask(ap::Strings &a, bool all) {
      if (all) a.insert(a.end(), {"--help", sim::chance(700, "as-the-script-does") ? "-hhncsc" : "-scnchh"});
      else {
        static char const *const hs[] = {"--help", "-h", "--info", "-hh"};
        static char const *const ns[] = {"-nc", "--no-color"}, *const ss[] = {"-sc", "--shell-completion"};
        ap::Strings x{hs[sim::choose(4, "help")], ns[sim::choose(2, "nc")], ss[sim::choose(2, "sc")]};
        for (int i = 2; i > 0; i--) std::swap(x[(size_t) i], x[sim::choose((unsigned) i + 1, "order")]);
        a.insert(a.end(), x.begin(), x.end());
      }
    }
    void learn() {
      for (int all = 0; all < 2; all++)
        for (int zsh = 0; zsh < 2; zsh++) {
          ap::Strings a;
          shell(zsh);
          ask(a, all);
          ap::Capture c;
          int const rc = ap::run(*cli, a);
          SIM_CHECK(rc == 0, "failed", "'%s' returned %d: %s", ap::line(a).c_str(), rc, c.err.str().c_str());
          sim::Quiet q;
          builtin[all][zsh] = zsh ? lines(c.out.str()) : offered(c.out.str());
        }
      SIM_CHECK(builtin[1][0].count("--help") == 1 && builtin[1][0].count("generate") == 1, "missing", "the built-in options and commands are not offered");
    }
    template<class T>
    static void add(Words &w, T const &x, bool flag, bool zsh) {
      std::string const d2 = flag ? "--" : "", d1 = flag ? "-" : "";
      if (zsh) {
        std::string const b = flag ? "[" : ":", e = flag ? "]" : "";
        w.insert(d2 + x.l + b + escaped(x.desc) + e);
        if (flag && !x.s.empty()) w.insert(d1 + x.s + b + escaped(x.desc) + e);
      } else {
        w.insert(d2 + x.l);
        if (!x.s.empty()) w.insert(d1 + x.s);
        for (auto &a: x.aliases) w.insert(d2 + a);
      }
    }
    void complete() {
      ap::Line L = ap::gen_line(m, false, 2);
      ap::Strings a = L.argv;
      if (auto const it = std::find(a.begin(), a.end(), "--"); it != a.end()) a.erase(it, a.end());  // no option is one after that
      ap::Cmd &k = *L.at;
      bool const all = !sim::chance(300, "visible-only"), zsh = sim::chance(300, "zsh");
      shell(zsh);
      if (sim::chance(200, "nothing-typed-but-commands")) {
        a.clear();
        for (ap::Cmd *c = &k; c->parent; c = c->parent) a.insert(a.begin(), c->l);
      }
      ask(a, all);
      std::string const line = ap::line(a);
      bool const oom = sim::chance(80, "oom");
      invoked.clear();
      ap::Capture c;
      int rc = 0;
      try {
        if (oom) {
          sim::AllocFaults af;
          sim::opt().alloc_permille = 1 + sim::choose(20, "alloc-rate");
          rc = ap::run(*cli, a);
        } else
          rc = ap::run(*cli, a);
      } catch (std::bad_alloc const &) {
        if (!oom) throw;
      }
      sim::opt().alloc_permille = 0;
      SIM_CHECK(invoked.empty(), "invoked", "'%s' invoked %s", line.c_str(), invoked[0].cmd->key.c_str());
      if (oom) {
        sim::event("(out of memory) %s", line.c_str());
        sim::cover("out-of-memory");
        return;
      }
      sim::Quiet q;
      std::string const out = c.out.str();
      sim::event("%s -> %d, %zu bytes", line.c_str(), rc, out.size());
      SIM_CHECK(rc == 0, "failed", "'%s' returned %d: %s", line.c_str(), rc, c.err.str().c_str());
      SIM_CHECK(out.find('\x1b') == out.npos, "coloured", "'%s' prints escape sequences: %s", line.c_str(), out.c_str());
      Words want;
      for (auto &x: builtin[all][zsh])
        if (is_flag(x) || !k.parent) want.insert(x);
      for (auto &s: k.subs)
        if (all || !s.hidden) add(want, s, false, zsh);
      for (ap::Cmd *p = &k; p; p = p->parent)
        for (auto &f: p->flags)
          if (all || !f.hidden) add(want, f, true, zsh);
      Words const got = zsh ? lines(out) : offered(out);
      SIM_CHECK(got == want, "offered", "'%s' in %s:%s\n%s", line.c_str(), zsh ? "zsh" : "bash", differ(got, want).c_str(), out.c_str());
      if (zsh) sim::cover("zsh");
      if (all) sim::cover("hidden-ones-too");
      sim::nontrivial();
    }
    void screen() {
      ap::Strings a;
      unsigned const k = sim::choose((unsigned) m.all.size() + 1, "of");
      if (k)
        for (ap::Cmd *c = m.all[k - 1]; c->parent; c = c->parent) a.insert(a.begin(), c->l);
      static char const *const hs[] = {"--help", "--tree", "-hhh", "--version"};
      a.push_back(hs[sim::choose(4, "screen")]);
      ap::Capture c;
      int const rc = ap::run(*cli, a);
      sim::event("%s -> %d, %zu bytes", ap::line(a).c_str(), rc, c.out.str().size());
    }
  };
}
SCENARIO(completion, 1) {
  W w;
  sim::opt().alloc_permille = 0;
  ap::clean_env();
  if (sim::chance(300, "xterm")) setenv("TERM", "xterm-256color", 1);
  w.m.generate(4, true);
  w.decorate(w.m.root);
  for (auto *f: w.m.flags)
    if (sim::chance(200, "marks")) f->desc += " (see: [x], a|b)";
  for (auto *s: w.m.all)
    if (sim::chance(200, "marks")) s->desc += " (see: [x], a|b)";
  w.cli = &ap::make_any();
  w.learn();
  w.install();
  int const n = 2 + (int) sim::choose(7, "steps");
  for (int i = 0; i < n; i++) {
    if (sim::chance(300, "resize")) sim::terminal(25, 1 + (int) sim::choose(160, "cols"));
    switch (sim::choose(8, "op")) {
      case 0: {
        ap::Line L = ap::gen_line(w.m);
        w.run_and_check(L);
        break;
      }
      case 1: {
        ap::Line L = ap::gen_line(w.m);
        w.spoiled_run(L);
        break;
      }
      case 2: w.screen(); break;
      default: w.complete();
    }
  }
}
