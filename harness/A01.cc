// A01: app::run honours the hook life cycle under every failure.
#include "app_common.h"
namespace {
  enum Fate { Ok, NonZero, Throws, Biz, BadAlloc, Fates };
  struct Rec {
    std::string what;
    Fate f;
    int rc;
  };
  struct World {
    cmdr::app *cli = nullptr;
    std::vector<Rec> trace;
    std::map<std::string, Fate> plan;  // what each hook does in this run
    bool wants_biz = false, post_biz = false;
    int nloaders = 0, npost = 0;
    struct C {
      std::string path;
      bool pre, post, action;
    };
    std::vector<C> cmds;
    bool gpre = false, gpost = false;
    int call(std::string const &what, bool has_rc) {
      Fate f = Ok;
      int rc = 0;
      {
        sim::Quiet q;
        auto it = plan.find(what);
        if (it != plan.end()) f = it->second;
        if (f == NonZero && !has_rc) f = Ok;
        if (f == NonZero) rc = 3 + (int) what.size() % 5;
        trace.push_back({what, f, rc});
        sim::event("%s%s", what.c_str(), f == NonZero ? " returns non-zero" : f >= Throws ? " throws" : "");
      }
      if (f == Throws) throw h::Boom((int) trace.size());
      if (f == Biz) throw cmdr::exception::cmdr_biz_error(__FILE__, __LINE__, "biz");
      if (f == BadAlloc) throw std::bad_alloc();
      return rc;
    }
    void add(cmdr::opt::cmd &to, C const &c, std::string const &name) {
      cmdr::opt::sub_cmd s;
      s(name.c_str(), (name + "x").c_str()).description("x");
      std::string const p = c.path;
      if (c.pre) s.on_pre_invoke([this, p](cmdr::opt::cmd const &, ::string_array const &) { return call("pre:" + p, true); });
      if (c.post) s.on_post_invoke([this, p](cmdr::opt::cmd const &, ::string_array const &) { return call("post:" + p, false); });
      if (c.action) s.on_invoke([this, p](cmdr::opt::cmd const &, ::string_array const &) { return call("action:" + p, true); });
      to += s;
    }
    void build() {
      ap::clean_env();
      cli = &ap::make();
      wants_biz = sim::chance(400, "wants-biz");
      cli->set_no_catch_cmdr_biz_error(wants_biz);
      nloaders = (int) sim::choose(3, "loaders");
      npost = 1 + (int) sim::choose(3, "post-runs");
      for (int i = 0; i < nloaders; i++) cli->set_global_on_loading_externals([this, i](cmdr::app &) { call("load:" + std::to_string(i), false); });
      for (int i = 0; i < npost; i++) cli->set_global_on_post_run_handlers([this, i](cmdr::app const &) { call("end:" + std::to_string(i), false); });
      if ((gpre = sim::chance(700, "gpre"))) cli->set_global_pre_invoke_handler([this](cmdr::opt::cmd const &, ::string_array const &) { return call("gpre", true); });
      if ((gpost = sim::chance(700, "gpost"))) cli->set_global_post_invoke_handler([this](cmdr::opt::cmd const &, ::string_array const &) { return call("gpost", false); });
      cli->set_global_on_arg_matched_handlers([this](cmdr::opt::arg *) { call("arg", false); });
      cli->set_global_on_cmd_matched_handlers([this](cmdr::opt::cmd *) { call("cmd", false); });
      cli->set_global_on_command_not_hooked([this](cmdr::opt::cmd const &, ::string_array const &) { return call("default-action", true); });
      auto f = cmdr::opt::opt{};
      f("hooked", "H").description("x").on_hit([this](cmdr::opt::cmd const &, cmdr::opt::arg const &, ::string_array const &) {
        call("flag-hit", false);
        return cmdr::opt::Action::Continue;
      });
      *cli += f;
      auto f2 = cmdr::opt::opt{5};
      f2("number", "N").description("x");
      *cli += f2;
      for (int i = 0; i < 2 + (int) sim::choose(2, "cmds"); i++) {
        C c{"c" + std::to_string(i), sim::chance(650, "pre"), sim::chance(650, "post"), !sim::chance(150, "none")};
        cmds.push_back(c);
        add(*cli, c, c.path);
      }
      C c{"deep", sim::chance(650, "pre"), sim::chance(650, "post"), true};
      cmds.push_back(c);
      *cli += cmdr::opt::sub_cmd{}("grp", "grpx").description("x");
      add(*cli->last_added_command(), c, "deep");
      auto rq = cmdr::opt::opt{0};
      rq("must", "M").description("x").required();
      *cli += cmdr::opt::sub_cmd{}("strict", "strictx").description("x").on_invoke([this](cmdr::opt::cmd const &, ::string_array const &) { return call("action:strict", true); });
      *cli->last_added_command() += rq;
      cmds.push_back({"strict", false, false, true});
    }
    int count(std::string const &w) const {
      int n = 0;
      for (auto &r: trace) n += r.what == w;
      return n;
    }
    void one_run() {
      trace.clear();
      plan.clear();
      C const &c = cmds[sim::choose((unsigned) cmds.size(), "cmd")];
      ap::Strings a;
      if (sim::chance(300, "hit")) a.push_back("--hooked");
      if (sim::chance(200, "num")) a.insert(a.end(), {"-N", "7"});
      if (c.path == "deep") a.push_back("grp");
      a.push_back(c.path);
      bool missing = false, unknown = false, usage = false;
      if (c.path == "strict") {
        if (sim::chance(600, "given")) a.insert(a.end(), {"--must", "1"});
        else missing = true;
      }
      if (sim::chance(80, "unknown")) a.push_back("--zzz"), unknown = true, missing = false;
      if (!unknown && sim::chance(60, "usage")) a = {"grp"}, usage = true, missing = false;
      if (sim::chance(200, "args")) a.push_back("word"), unknown |= usage, usage = false;
      // what goes wrong
      std::vector<std::string> hooks = {"gpre", "gpost", "pre:" + c.path, "post:" + c.path, "action:" + c.path, "default-action", "arg", "cmd", "flag-hit"};
      for (int i = 0; i < nloaders; i++) hooks.push_back("load:" + std::to_string(i));
      for (int i = 0; i < npost; i++) hooks.push_back("end:" + std::to_string(i));
      unsigned const k = sim::choose(4, "failures");
      for (unsigned i = 0; i < k; i++) {
        auto const &w = hooks[sim::choose((unsigned) hooks.size(), "hook")];
        plan[w] = (Fate) (1 + sim::choose(Fates - 1, "fate"));
      }
      ap::Capture cap;
      int rc = -99;
      std::string escaped;
      try {
        rc = ap::run(*cli, a);
      } catch (cmdr::exception::cmdr_biz_error const &) {
        escaped = "biz";
      } catch (std::exception const &e) {
        escaped = std::string("std: ") + e.what();
      }
      sim::Quiet q;
      std::string const line = ap::line(a);
      sim::event("%s => %d %s", line.c_str(), rc, escaped.c_str());
      int thrown_std = 0, thrown_biz = 0, refused = 0;
      size_t act = trace.size(), acts = 0;
      for (size_t i = 0; i < trace.size(); i++) {
        auto &r = trace[i];
        if (r.f == Biz) thrown_biz++;
        else if (r.f >= Throws) thrown_std++;
        if (r.what.rfind("action:", 0) == 0 || r.what == "default-action") {
          acts++;
          act = i;
          SIM_CHECK(r.what == "default-action" ? !c.action : r.what == "action:" + c.path, "wrong-action", "%s called for '%s'", r.what.c_str(), line.c_str());
        }
      }
      // every post-run hook exactly once, and nothing after the first of them but others
      bool ended = false;
      for (auto &r: trace) {
        if (r.what.rfind("end:", 0) == 0) ended = true;
        else SIM_CHECK(!ended, "after-the-end", "'%s': %s was called after a post-run hook", line.c_str(), r.what.c_str());
      }
      for (int i = 0; i < npost; i++)
        SIM_CHECK(count("end:" + std::to_string(i)) == 1, "post-run", "'%s' (result %d%s): post-run hook %d was called %d times", line.c_str(), rc, escaped.c_str(), i, count("end:" + std::to_string(i)));
      SIM_CHECK(acts <= 1, "action-twice", "'%s': the action ran %zu times", line.c_str(), acts);
      for (size_t i = 0; i < trace.size(); i++) {
        auto &r = trace[i];
        bool const pre = r.what == "gpre" || r.what.rfind("pre:", 0) == 0, post = r.what == "gpost" || r.what.rfind("post:", 0) == 0;
        if (pre && acts) SIM_CHECK(i < act, "order", "'%s': %s ran after the action", line.c_str(), r.what.c_str());
        if (post && acts) SIM_CHECK(i > act, "order", "'%s': %s ran before the action", line.c_str(), r.what.c_str());
        if (pre && r.f == NonZero && !refused) refused = r.rc;
        if (pre && r.f != Ok) SIM_CHECK(!acts, "action-ran", "'%s': the action ran although %s %s", line.c_str(), r.what.c_str(), r.f == NonZero ? "returned non-zero" : "threw");
        if (i < act && acts && r.f >= Throws) sim::fail("action-ran", "'%s': the action ran although %s threw before", line.c_str(), r.what.c_str());
      }
      for (auto &w: {std::string("gpre"), "pre:" + c.path, std::string("gpost"), "post:" + c.path})
        SIM_CHECK(count(w) <= 1, "hook-twice", "'%s': %s ran %d times", line.c_str(), w.c_str(), count(w));
      int early = 0;  // something threw before the action could start
      for (auto &r: trace) {
        if (r.what.rfind("end:", 0) == 0 || r.what == "gpost" || r.what.rfind("post:", 0) == 0) break;
        if (r.what.rfind("action:", 0) == 0 || r.what == "default-action") break;
        early += r.f >= Throws;
      }
      if (!missing && !unknown && !usage && !early && !refused) {
        SIM_CHECK(acts == 1, "action-lost", "'%s': the action did not run", line.c_str());
        if (gpre) SIM_CHECK(count("gpre") == 1, "pre-lost", "'%s': the global pre-invoke hook did not run", line.c_str());
        if (c.pre) SIM_CHECK(count("pre:" + c.path) == 1, "pre-lost", "'%s': the pre-invoke hook did not run", line.c_str());
      }
      if ((missing || unknown || usage)) SIM_CHECK(!acts, "action-ran", "'%s' must not run an action", line.c_str());
      if (acts) {
        if (gpost) SIM_CHECK(count("gpost") == 1, "post-lost", "'%s': the global post-invoke hook ran %d times", line.c_str(), count("gpost"));
        if (c.post) SIM_CHECK(count("post:" + c.path) == 1, "post-lost", "'%s': the post-invoke hook ran %d times", line.c_str(), count("post:" + c.path));
        for (int i = 0; i < nloaders; i++) SIM_CHECK(count("load:" + std::to_string(i)) == 1, "loader-lost", "'%s': loader %d ran %d times", line.c_str(), i, count("load:" + std::to_string(i)));
        sim::nontrivial();
        if (trace[act].f >= Throws) sim::cover("action-threw");
      }
      // the result
      bool const biz_escapes = wants_biz && (thrown_biz || (missing && !early));
      if (!escaped.empty()) {
        SIM_CHECK(escaped == "biz" && biz_escapes, "escaped", "'%s': an exception (%s) escaped from run", line.c_str(), escaped.c_str());
        sim::cover("biz-escaped");
      } else if (thrown_std || thrown_biz || (missing && !early)) {
        SIM_CHECK(rc == -1, "result", "'%s': run returned %d although a hook, loader or action threw or a required flag is missing", line.c_str(), rc);
        SIM_CHECK(!(wants_biz && thrown_biz && !thrown_std && !missing), "swallowed", "'%s': the cmdr_biz_error the app asked for did not escape", line.c_str());
        sim::cover("exception-reported");
      } else if (refused) {
        SIM_CHECK(rc == refused, "result", "'%s': run returned %d, the pre-invoke hook %d", line.c_str(), rc, refused);
        sim::cover("refused");
      } else if (acts)
        SIM_CHECK(rc == trace[act].rc, "result", "'%s': run returned %d, the action %d", line.c_str(), rc, trace[act].rc);
      else if (usage)
        SIM_CHECK(rc == 0, "result", "'%s': run returned %d", line.c_str(), rc);
    }
  };
}
SCENARIO(runs, 1) {
  World w;
  sim::opt().alloc_permille = 0;
  w.build();
  int const n = 1 + (int) sim::choose(6, "runs");
  for (int i = 0; i < n; i++) w.one_run();
}
