// A02: concurrent app::run calls are serialised.
#include "app_model.h"
namespace {
  struct World {
    ap::Model m;
    cmdr::app *cli = nullptr;
    // owner of the run in progress, as seen from the hooks (oracle state, touched under Quiet)
    int inside = 0, runs = 0;
    std::vector<int> loads, posts;   // per thread
    struct Mine {
      ap::Line L;
      int rc = 0, fate = 0;
      unsigned pause = 0;
      std::vector<ap::Invocation> inv;
    };
    Mine *cur[16]{};
    void enter(char const *what) {
      sim::Quiet q;
      int const me = sim::tid();
      if (inside && inside != me) sim::fail("overlap", "%s of T%d while the run of T%d is not over", what, me, inside);
      inside = me;
    }
    void linger() {
      switch (sim::choose(4, "linger")) {
        case 1: sim::yield(); break;
        case 2: sim::sleep_ns(1 + sim::choose(3000000, "ns")); break;
        default: break;
      }
    }
  };
}
SCENARIO(threads, 1) {
  static World w;
  ap::clean_env();
  sim::opt().alloc_permille = 0;
  sim::opt().soft_steps = 400000;
  sim::opt().hard_steps = 4000000;
  w.m.generate(2);
  w.cli = &ap::make();
  int const T = 2 + (int) sim::choose(3, "threads");
  bool const biz = sim::chance(300, "wants-biz");
  w.cli->set_no_catch_cmdr_biz_error(biz);
  w.loads.assign(16, 0);
  w.posts.assign(16, 0);
  auto act = [](ap::Cmd &s, cmdr::opt::cmd const &c, ::string_array const &a) -> int {
    w.enter("the action");
    World::Mine *me;
    {
      sim::Quiet q;
      me = w.cur[sim::tid()];
    }
    w.linger();
    ap::Invocation v;
    ap::snapshot(*w.cli, w.m, s, c, a, v);
    {
      sim::Quiet q;
      me->inv.push_back(v);
    }
    w.linger();
    w.enter("the action's end");
    if (me->fate == 1) throw h::Boom(7);
    if (me->fate == 2) throw cmdr::exception::cmdr_biz_error(__FILE__, __LINE__, "biz");
    return me->rc;
  };
  ap::build_into(*w.cli, w.m.root, act);
  w.cli->set_global_on_command_not_hooked([act](cmdr::opt::cmd const &c, ::string_array const &a) -> int {
    for (auto *k: w.m.all)
      if (k->key == c.dotted_key()) return act(*k, c, a);
    sim::fail("invoked", "invoked the unknown command %s", c.dotted_key().c_str());
  });
  w.cli->set_global_on_loading_externals([](cmdr::app &) {
    w.enter("a loader");
    {
      sim::Quiet q;
      w.loads[sim::tid()]++;
    }
    w.linger();
    w.enter("a loader's end");
    World::Mine *me;
    {
      sim::Quiet q;
      me = w.cur[sim::tid()];
    }
    if (me->fate == 3) throw h::Boom(8);
  });
  w.cli->set_global_pre_invoke_handler([](cmdr::opt::cmd const &, ::string_array const &) { w.enter("a pre-invoke hook"); w.linger(); w.enter("a pre-invoke hook's end"); return 0; });
  w.cli->set_global_post_invoke_handler([](cmdr::opt::cmd const &, ::string_array const &) { w.enter("a post-invoke hook"); w.linger(); w.enter("a post-invoke hook's end"); return 0; });
  w.cli->set_global_on_arg_matched_handlers([](cmdr::opt::arg *) { w.enter("a flag"); w.linger(); w.enter("a flag's end"); });
  w.cli->set_global_on_post_run_handlers([](cmdr::app const &) {
    w.enter("a post-run hook");
    w.linger();
    w.enter("a post-run hook's end");
    sim::Quiet q;
    w.posts[sim::tid()]++;
    w.inside = 0;
    w.runs++;
  });
  ap::Capture cap;
  std::vector<std::thread> ts;
  int total = 0;
  for (int t = 0; t < T; t++) {
    int const n = 1 + (int) sim::choose(2, "runs");
    total += n;
    ts.push_back(h::spawn([n, biz] {
      for (int i = 0; i < n; i++) {
        World::Mine me;
        {
          sim::Quiet q;
          me.L = ap::gen_line(w.m, true, 2);
          me.rc = (int) sim::choose(4, "rc");
          me.fate = sim::chance(250, "fails") ? 1 + (int) sim::choose(3, "how") : 0;
          if (me.L.kind == ap::Line::Invoke && ap::lacks_required(me.L)) me.L.kind = ap::Line::Missing;
          w.cur[sim::tid()] = &me;
          sim::event("starts %s%s", ap::line(me.L.argv).c_str(), me.fate ? " (fails)" : "");
        }
        int rc = -99;
        std::string escaped;
        int const p0 = w.posts[sim::tid()];
        try {
          rc = ap::run(*w.cli, me.L.argv);
        } catch (cmdr::exception::cmdr_biz_error const &) {
          escaped = "biz";
        } catch (std::exception const &e) {
          escaped = e.what();
        }
        sim::Quiet q;
        std::string const line = ap::line(me.L.argv);
        sim::event("%s -> %d %s", line.c_str(), rc, escaped.c_str());
        SIM_CHECK(w.posts[sim::tid()] == p0 + 1, "post-run", "'%s': the post-run hook ran %d times", line.c_str(), w.posts[sim::tid()] - p0);
        bool const missing = me.L.kind == ap::Line::Missing;
        if (me.fate == 3) {
          SIM_CHECK(me.inv.empty() && rc == -1 && escaped.empty(), "result", "'%s': a loader threw, result %d %s", line.c_str(), rc, escaped.c_str());
        } else if (missing) {
          SIM_CHECK(me.inv.empty() && (biz ? escaped == "biz" : rc == -1), "result", "'%s': a required flag is missing, result %d %s", line.c_str(), rc, escaped.c_str());
        } else if (me.L.kind == ap::Line::Invoke) {
          SIM_CHECK(me.inv.size() == 1 && me.inv[0].cmd == me.L.at, "invoked", "'%s' invoked %zu commands or the wrong one", line.c_str(), me.inv.size());
          SIM_CHECK(me.inv[0].rest == me.L.rest, "arguments", "'%s': the action got [%s]", line.c_str(), ap::line(me.inv[0].rest).c_str());
          for (auto &[k, want]: ap::expected(w.m, me.L))
            SIM_CHECK(me.inv[0].values[k] == want, "value", "'%s': %s is '%s', expected '%s'", line.c_str(), k.c_str(), me.inv[0].values[k].c_str(), want.c_str());
          if (me.fate == 1) SIM_CHECK(rc == -1 && escaped.empty(), "result", "'%s': the action threw, result %d %s", line.c_str(), rc, escaped.c_str());
          else if (me.fate == 2) SIM_CHECK(biz ? escaped == "biz" : rc == -1 && escaped.empty(), "result", "'%s': the action threw a cmdr_biz_error, result %d %s", line.c_str(), rc, escaped.c_str());
          else SIM_CHECK(rc == me.rc && escaped.empty(), "result", "'%s': result %d %s, the action returned %d", line.c_str(), rc, escaped.c_str(), me.rc);
        } else {
          SIM_CHECK(me.inv.empty() && escaped.empty(), "invoked", "'%s' must not invoke anything", line.c_str());
        }
      }
    }));
  }
  for (auto &t: ts) t.join();
  SIM_CHECK(w.runs == total && !w.inside, "lost-run", "%d runs, %d post-run hooks", total, w.runs);
  sim::nontrivial();
}
