// I01: exec captures stdout and stderr completely, however the pipe delivers.
#include "exec_common.h"
SCENARIO(capture, 1) {
  sim::io::enable(true);
  ex::only_soft_faults();
  for (int n = 1 + (int) sim::choose(3, "commands"); n-- > 0;) {
    ex::Cmd c = ex::gen(true);
    sim::event("exec %zu chars out %zu err %zu rc %d", c.text.size(), c.out.size(), c.err.size(), c.rc);
    cmdr::process::exec e(c.text.c_str());
    bool const err_first = sim::choose(2, "stderr-first");
    std::string so, se;
    if (err_first) se = ex::slurp(e.stderr_stream());
    so = ex::read_stdout(e);
    if (!err_first) se = ex::slurp(e.stderr_stream());
    ex::diff("stdout", so, c.out, c);
    ex::diff("stderr", se, c.err, c, c.message);
    if (c.message && se.find("yntax") == std::string::npos) sim::fail("stderr", "the shell's message about the syntax error is not in stderr: '%.200s'", se.c_str());
    if (!c.out.empty() || !c.err.empty()) sim::nontrivial();
    if (c.out.size() > 4096) sim::cover("larger-than-buffer");
  }
}
