// I03: exec objects alive at the same time, in one or several threads, show only their own command's results.
#include "exec_common.h"
#include <set>
namespace {
  struct One {
    ex::Cmd c;
    std::unique_ptr<cmdr::process::exec> e;
    bool err_read = false;
  };
  void check(One &o) {
    if (sim::choose(2, "stdout-first")) ex::diff("stdout", ex::read_stdout(*o.e), o.c.out, o.c);
    ex::diff("stderr", ex::slurp(o.e->stderr_stream()), o.c.err, o.c, o.c.message);
    int const rc = o.e->ret_code();
    SIM_CHECK(o.c.killed ? rc != 0 : rc == o.c.rc, "wrong-status", "ret_code() is %d, the exit status was %d: %.200s", rc, o.c.rc, o.c.text.c_str());
  }
  void worker(int n, int base) {
    std::vector<One> alive;
    for (int i = 0; i < n; i++) {
      One o;
      o.c = ex::gen(false);
      // make every command's output distinguishable
      std::string const mark = "[" + std::to_string(base + i) + "]";
      o.c.text = "printf '%s' '" + mark + "'; printf '%s' '" + mark + "' >&2; " + o.c.text;
      o.c.out = mark + o.c.out;
      o.c.err = mark + o.c.err;
      sim::event("exec #%d rc %d", base + i, o.c.rc);
      o.e = std::make_unique<cmdr::process::exec>(o.c.text.c_str());
      sim::event("exec #%d done", base + i);
      h::nap();
      if (sim::choose(3, "check-now") == 1) {
        check(o);
        if (sim::choose(2, "drop")) continue;
        o.err_read = true;
      }
      alive.push_back(std::move(o));
    }
    if (sim::choose(2, "order"))
      for (auto &o: alive) {
        if (!o.err_read) check(o);
      }
    else
      for (size_t i = alive.size(); i-- > 0;)
        if (!alive[i].err_read) check(alive[i]);
    if (alive.size() > 1) sim::nontrivial();
  }
  // all run the same text; the output tells which process wrote it
  void same_text() {
    static const char *const cmd = "printf %010d $$; printf %010d $$ >&2";
    std::vector<std::thread> ts;
    std::set<std::string> seen;
    auto one = [&seen](cmdr::process::exec &e) {
      std::string const so = ex::read_stdout(e), se = ex::slurp(e.stderr_stream());
      SIM_CHECK(e.ret_code() == 0, "wrong-status", "ret_code() is %d, the exit status was 0", e.ret_code());
      SIM_CHECK(!so.empty(), "stdout", "nothing captured from stdout");
      SIM_CHECK(so == se, "mixed", "stdout comes from process '%s', stderr from '%s'", so.c_str(), se.c_str());
      sim::Quiet q;
      SIM_CHECK(seen.insert(so).second, "mixed", "two objects show the output of process %s", so.c_str());
    };
    for (int t = 2 + (int) sim::choose(2, "threads"); t-- > 0;)
      ts.push_back(h::spawn([one] {
        cmdr::process::exec a(cmd);
        h::nap();
        if (sim::choose(2, "two")) {
          cmdr::process::exec b(cmd);
          if (sim::choose(2, "order")) one(a), one(b);
          else one(b), one(a);
        } else
          one(a);
      }));
    for (auto &t: ts) t.join();
    sim::nontrivial();
  }
} // namespace
SCENARIO(same_command, 1) {
  sim::io::enable(true);
  ex::only_soft_faults();
  same_text();
}
SCENARIO(threads, 2) {
  sim::io::enable(true);
  ex::only_soft_faults();
  int const T = 2 + (int) sim::choose(2, "threads");
  std::vector<std::thread> ts;
  for (int t = 0; t < T; t++) {
    int const n = 1 + (int) sim::choose(2, "execs");
    ts.push_back(h::spawn([=] { worker(n, t * 10); }));
  }
  sim::nontrivial();
  for (auto &t: ts) t.join();
}
SCENARIO(sequential, 1) {
  sim::io::enable(true);
  ex::only_soft_faults();
  worker(2 + (int) sim::choose(3, "execs"), 0);
}
