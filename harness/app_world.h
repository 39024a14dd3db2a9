// a real app under a generated model: runs are compared with what the model says
#pragma once
#include "app_model.h"
namespace ap {
  struct Bomb {
    char const *where = "";
    bool armed = false;
    void at(char const *w) {
      if (armed && !strcmp(w, where)) {
        armed = false;
        sim::cover("a-hook-threw");
        throw h::Boom(1);
      }
    }
  };
  struct World {
    ap::Model m;
    cmdr::app *cli = nullptr;
    Bomb bomb;
    std::vector<ap::Invocation> invoked;
    int rc_of_action = 0, post_runs = 0;
    bool wide = false;  // more kinds of flags and lines
    void start() {
      ap::clean_env();
      m.shadowing = sim::chance(500, "shadowing");
      if (wide) {
        m.more_types = sim::chance(700, "more-types");
        m.tolerant = sim::chance(250, "tolerant");
        m.hooks = sim::chance(500, "on-hit-hooks");
      }
      m.generate();
      cli = &ap::make();
      if (m.tolerant) {
        cli->treat_unknown_input_command_as_error(false);
        cli->treat_unknown_input_flag_as_error(false);
        sim::cover("tolerant-app");
      }
      install();
    }
    // the calls of on_hit() hooks, as text
    ap::Strings hits;
    int stop_at = -1;
    cmdr::opt::Action stop_with = cmdr::opt::Action::Abortion;
    static std::string hit_text(ap::Cmd *c, ap::Flag *f, std::string const &value, ap::Strings const &rest) {
      return (f ? f->key + " = " + value + " after " + (c->parent ? c->key : "the app") : c->key) + " before [" + ap::line(rest) + "]";
    }
    cmdr::opt::Action on_hit(ap::Cmd *, ap::Flag *f, cmdr::opt::cmd const &c, cmdr::opt::arg const *a, ::string_array const &rest) {
      sim::Quiet q;
      ap::Cmd *k = &m.root;
      for (auto *x: m.all)
        if (x->key == c.dotted_key()) k = x;
      if (f) SIM_CHECK(a->dotted_key() == f->key, "hit-hook", "the hook of %s was called for %s", f->key.c_str(), a->dotted_key().c_str());
      hits.push_back(hit_text(k, f, f ? ap::canon(cli->store().get_raw(f->key), f->t) : "", ap::Strings(rest.begin(), rest.end())));
      return (int) hits.size() - 1 == stop_at ? stop_with : sim::choose(2, "go-on") ? cmdr::opt::Action::Continue : cmdr::opt::Action::OK;
    }
    void install() {
      ap::hit_hook() = [this](ap::Cmd *k, ap::Flag *f, cmdr::opt::cmd const &c, cmdr::opt::arg const *a, ::string_array const &rest) { return on_hit(k, f, c, a, rest); };
      ap::build_into(*cli, m.root, [this](ap::Cmd &s, cmdr::opt::cmd const &c, ::string_array const &a) { return act(s, c, a); });
      cli->set_global_on_command_not_hooked([this](cmdr::opt::cmd const &c, ::string_array const &a) -> int {
        for (auto *k: m.all)
          if (k->key == c.dotted_key()) return act(*k, c, a);
        sim::fail("invoked", "invoked the unknown command %s", c.dotted_key().c_str());
      });
      cli->set_global_on_arg_matched_handlers([this](cmdr::opt::arg *) { bomb.at("arg"); });
      cli->set_global_on_cmd_matched_handlers([this](cmdr::opt::cmd *) { bomb.at("cmd"); });
      cli->set_global_pre_invoke_handler([this](cmdr::opt::cmd const &, ::string_array const &) { bomb.at("pre"); return 0; });
      cli->set_global_on_loading_externals([this](cmdr::app &) { bomb.at("load"); });
      cli->set_global_on_post_run_handlers([this](cmdr::app const &) { post_runs++; });
    }
    int act(ap::Cmd &s, cmdr::opt::cmd const &c, ::string_array const &a) {
      {
        sim::Quiet q;
        ap::Invocation v;
        ap::snapshot(*cli, m, s, c, a, v);
        SIM_CHECK(c.dotted_key() == s.key, "invoked", "the action of %s was called for %s", s.key.c_str(), c.dotted_key().c_str());
        invoked.push_back(v);
      }
      bomb.at("action");
      return rc_of_action;
    }
    // the registered tree is what it was
    void check_tree(cmdr::opt::cmd &c, ap::Cmd &k) {
      for (auto &s: k.subs) {
        ap::Strings n{s.l};
        for (auto &x: n) {
          auto &f = c(x.c_str());
          SIM_CHECK(f.valid() && f.dotted_key() == s.key, "tree-changed", "'%s' is no longer found under %s", x.c_str(), k.key.c_str());
        }
        check_tree(c(s.l.c_str()), s);
      }
      for (auto &f: k.flags) {
        auto &a = c[f.l.c_str()];
        SIM_CHECK(a.valid() && a.dotted_key() == f.key, "tree-changed", "flag '%s' is no longer found under %s", f.l.c_str(), k.key.c_str());
        SIM_CHECK(a.required() == f.required && a.title_short() == f.s, "tree-changed", "flag '%s' has changed", f.l.c_str());
      }
    }
    void run_and_check(ap::Line &L) {
      if (L.kind == ap::Line::Invoke && ap::lacks_required(L)) L.kind = ap::Line::Missing;
      ap::Strings want_hits;
      for (auto &s: L.steps)
        if (s.flag ? s.flag->hook : s.cmd->hook) want_hits.push_back(hit_text(s.cmd, s.flag, s.value, ap::Strings(L.argv.begin() + (long) s.next, L.argv.end())));
      stop_at = sim::chance(150, "stop") && !want_hits.empty() ? (int) sim::choose((unsigned) want_hits.size(), "stop-at") : -1;
      stop_with = sim::choose(2, "with") ? cmdr::opt::Action::Abortion : (cmdr::opt::Action) -1;
      hits.clear();
      invoked.clear();
      post_runs = 0;
      rc_of_action = (int) sim::choose(3, "rc");
      ap::Capture c;
      int const rc = ap::run(*cli, L.argv);
      sim::Quiet q;
      std::string const line = ap::line(L.argv), err = c.err.str();
      sim::event("%s -> %d%s", line.c_str(), rc, invoked.empty() ? "" : (" invoked " + invoked[0].cmd->key).c_str());
      if (stop_at >= 0) want_hits.resize((size_t) stop_at + 1);
      for (size_t i = 0; i < std::max(hits.size(), want_hits.size()); i++) {
        std::string const is = i < hits.size() ? hits[i] : "nothing", want = i < want_hits.size() ? want_hits[i] : "nothing";
        SIM_CHECK(is == want, "hit-hook", "'%s': on_hit() number %zu was called for %s, expected %s", line.c_str(), i, is.c_str(), want.c_str());
      }
      if (!want_hits.empty()) sim::cover("hit-hooks");
      SIM_CHECK(post_runs == 1, "post-run", "'%s': the post-run hook was called %d times", line.c_str(), post_runs);
      if (stop_at >= 0) {
        SIM_CHECK(invoked.empty() && rc == 0, "invoked", "an on_hit() hook stopped '%s' but %s was invoked, returned %d", line.c_str(), invoked.empty() ? "nothing" : invoked[0].cmd->key.c_str(), rc);
        sim::cover("stopped-by-a-hit-hook");
        return;
      }
      if (L.kind != ap::Line::Invoke) {
        SIM_CHECK(invoked.empty(), "invoked", "'%s' must not invoke anything but invoked %s", line.c_str(), invoked[0].cmd->key.c_str());
        if (L.kind == ap::Line::Unknown) {
          SIM_CHECK(rc != 0 || err.find("nknown") != err.npos, "no-error", "'%s' has an unknown part but no error was reported: %s", line.c_str(), err.c_str());
          sim::cover("unknown");
        } else if (L.kind == ap::Line::Missing) {
          SIM_CHECK(rc != 0, "no-error", "'%s' lacks a required flag but run returned 0", line.c_str());
          sim::cover("required-missing");
        } else
          SIM_CHECK(rc == 0, "failed", "'%s' returned %d: %s", line.c_str(), rc, err.c_str());
        return;
      }
      SIM_CHECK(invoked.size() == 1, "not-invoked", "'%s' has to invoke %s, %zu invocations, returned %d: %s", line.c_str(), L.at->key.c_str(), invoked.size(), rc, err.c_str());
      auto &v = invoked[0];
      SIM_CHECK(v.cmd == L.at, "invoked", "'%s' has to invoke %s, invoked %s", line.c_str(), L.at->key.c_str(), v.cmd->key.c_str());
      SIM_CHECK(rc == rc_of_action, "result", "'%s' returned %d, its action %d", line.c_str(), rc, rc_of_action);
      SIM_CHECK(v.rest == L.rest, "arguments", "'%s' has the arguments [%s], the action got [%s]", line.c_str(), ap::line(L.rest).c_str(), ap::line(v.rest).c_str());
      for (auto &[k, want]: ap::expected(m, L))
        SIM_CHECK(v.values[k] == want, "value", "'%s': %s is '%s', expected '%s'", line.c_str(), k.c_str(), v.values[k].c_str(), want.c_str());
      for (auto &[k, want]: ap::expected_toggles(L))
        SIM_CHECK(v.toggles[k] == want, "toggle", "'%s': the choice of %s is '%s', expected '%s'", line.c_str(), k.c_str(), v.toggles[k].c_str(), want.c_str());
      for (auto &[k, want]: ap::expected_hits(m, L))
        SIM_CHECK(v.hits[k] == want, "hits", "'%s': %s is %s, expected %s", line.c_str(), k.c_str(), v.hits[k].c_str(), want.c_str());
      if (!L.refused.empty()) {
        SIM_CHECK(err.find("cannot parse") != err.npos, "no-error", "'%s' has a value that is none but nothing was said", line.c_str());
        sim::cover("invoked-without-bad-values");
      }
      sim::nontrivial();
    }
    // a run that goes wrong somewhere; whatever it returns or throws, the next ones must not notice
    void spoiled_run(ap::Line &L) {
      static char const *const at[] = {"alloc", "arg", "cmd", "pre", "load", "action"};
      unsigned const k = sim::choose(6, "where");
      invoked.clear();
      stop_at = -1;
      bomb.where = at[k];
      bomb.armed = k != 0;
      ap::Capture c;
      try {
        if (k == 0) {
          sim::AllocFaults af;
          sim::opt().alloc_permille = 1 + sim::choose(8, "alloc-rate");
          ap::run(*cli, L.argv);
        } else
          ap::run(*cli, L.argv);
      } catch (std::exception const &) {}
      sim::opt().alloc_permille = 0;
      bomb.armed = false;
      sim::event("(spoiled at %s) %s", at[k], ap::line(L.argv).c_str());
    }
  };
} // namespace ap
