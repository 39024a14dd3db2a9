// A03: option values follow default < config < environment < command line.
#include "app_model.h"
namespace {
  std::string auto_env(std::string const &key) {
    std::string s;
    for (char c: key) s += c == '.' || c == '-' ? '_' : (char) toupper((unsigned char) c);
    return s;
  }
  std::string env_text(ap::Type t) {
    static char const *const trues[] = {"true", "1", "on", "yes", "t", "y", "TRUE"}, *const falses[] = {"false", "0", "off", "no", "f", "n", "OFF"};
    switch (t) {
      case ap::Bool: {
        std::string s = sim::choose(2, "bool") ? trues[sim::choose(7, "spelling")] : falses[sim::choose(7, "spelling")];
        if (s.size() > 1 && sim::chance(200, "upper")) s[0] = (char) toupper(s[0]);
        return s;
      }
      default: return ap::gen_value(t);
    }
  }
  bool truth_of(std::string const &v) { return strchr("ty1TY", v[0]) || v == "on" || v == "On"; }
  // a text that is none of the type, with a probability; then the variable is as good as not set
  bool spoil(ap::Flag &f, bool more, std::string &v) {
    if (!more || !sim::chance(200, "unreadable")) return false;
    static char const *const odd[] = {"maybe", "2", "yesterday", "nothing", "tru", "-"};
    std::string const bad = f.t == ap::Bool ? odd[sim::choose(6, "odd")] : ap::is_int(f.t) && sim::chance(300, "begins-well") ? "12x" : ap::gen_bad(f.t);
    if (bad.empty()) return false;
    v = bad;
    sim::cover("unreadable-env");
    return true;
  }
}
SCENARIO(sources, 1) {
  ap::clean_env();
  sim::opt().alloc_permille = 0;
  ap::Model m;
  m.more_types = sim::chance(700, "more-types");
  m.generate(4, true);
  std::vector<std::map<std::string, std::string>> conf(1 + sim::choose(2, "loaders"));
  std::map<std::string, std::string> env, base;
  std::map<std::string, bool> by_env;
  for (auto *f: m.flags) {
    if (!f->toggle.empty()) continue;
    for (auto &c: conf)
      if (sim::chance(350, "in-config")) base[f->key] = ap::canon_text(c[f->key] = ap::gen_value(f->t), f->t);
  }
  auto &cli = ap::make();
  ap::Invocation got;
  int calls = 0;
  auto act = [&](ap::Cmd &s, cmdr::opt::cmd const &c, ::string_array const &a) -> int {
    sim::Quiet q;
    ap::snapshot(cli, m, s, c, a, got);
    calls++;
    return 0;
  };
  ap::build_into(cli, m.root, act);
  cli.set_global_on_command_not_hooked([&](cmdr::opt::cmd const &c, ::string_array const &a) -> int {
    for (auto *k: m.all)
      if (k->key == c.dotted_key()) return act(*k, c, a);
    return -7;
  });
  for (size_t i = 0; i < conf.size(); i++)
    cli.set_global_on_loading_externals([&, i](cmdr::app &a) {
      for (auto *f: m.flags)
        if (conf[i].count(f->key)) a.store().set_raw(f->key.c_str(), ap::var_of(f->t, conf[i][f->key]));
    });
  // the environment: names generated from the key stay for all runs, the flag's own ones come and go
  for (auto *f: m.flags) {
    if (!f->toggle.empty() || !sim::chance(200, "auto-env")) continue;
    std::string v = env_text(f->t);
    if (!spoil(*f, m.more_types, v)) env[f->key] = v;
    setenv(auto_env(f->key).c_str(), v.c_str(), 1);
    sim::event("env %s=%s", auto_env(f->key).c_str(), v.c_str());
  }
  int const n = 1 + (int) sim::choose(4, "runs");
  for (int r = 0; r < n; r++) {
    std::map<std::string, std::string> want = base;
    by_env.clear();
    auto truth = [](ap::Flag *f, std::string const &v) { return f->t == ap::Bool ? std::string(truth_of(v) ? "true" : "false") : ap::canon_text(v, f->t); };
    for (auto *f: m.flags)
      if (env.count(f->key)) want[f->key] = truth(f, env[f->key]);
    for (auto *f: m.flags) {
      if (f->env.empty()) continue;
      unsetenv(f->env.c_str());
      if (env.count(f->key) || !sim::chance(400, "env")) continue;
      std::string v = env_text(f->t);
      if (!spoil(*f, m.more_types, v)) {
        want[f->key] = truth(f, v);
        by_env[f->key] = true;
      }
      setenv(f->env.c_str(), v.c_str(), 1);
      sim::event("env %s=%s for %s", f->env.c_str(), v.c_str(), f->key.c_str());
    }
    ap::Line L = ap::gen_line(m, false, 4, !sim::chance(100, "early"));
    if (L.kind == ap::Line::Invoke && ap::lacks_required(L, by_env)) L.kind = ap::Line::Missing;
    calls = 0;
    ap::Capture cap;
    int const rc = ap::run(cli, L.argv);
    sim::Quiet q;
    std::string const line = ap::line(L.argv);
    sim::event("%s -> %d", line.c_str(), rc);
    if (L.kind == ap::Line::Invoke) SIM_CHECK(calls == 1 && rc == 0, "not-invoked", "'%s' invoked %d actions, returned %d: %s", line.c_str(), calls, rc, cap.err.str().c_str());
    // the values in the store, whatever happened to the command
    for (auto &[k, v]: ap::expected(m, L, want)) {
      ap::Flag *f = nullptr;
      for (auto *x: m.flags)
        if (x->key == k) f = x;
      std::string const is = ap::canon(cli.store().get_raw(k), f->t);
      bool in_line = false, in_conf = false;
      for (auto &g: L.given) in_line |= g.f == f;
      for (auto &c: conf) in_conf |= c.count(k) != 0;
      char const *src = in_line ? "the command line" : by_env.count(k) || env.count(k) ? "the environment" : in_conf ? "the config" : "the default";
      SIM_CHECK(is == v, "value", "run %d '%s': %s is '%s', %s says '%s'", r, line.c_str(), k.c_str(), is.c_str(), src, v.c_str());
      if (in_line && (in_conf || by_env.count(k) || env.count(k))) sim::cover("line-over-others"), sim::nontrivial();
      else if ((by_env.count(k) || env.count(k)) && in_conf) sim::cover("env-over-config"), sim::nontrivial();
    }
  }
}
