// I02: exec never reports success for a command that failed; every process is reaped.
#include "exec_common.h"
namespace {
  void go(bool hard) {
    sim::io::enable(true);
    if (!hard) ex::only_soft_faults();
    sim::opt().alloc_permille = hard ? sim::choose(3, "alloc-rate") * 12 : 0;
    for (int n = 1 + (int) sim::choose(3, "commands"); n-- > 0;) {
      ex::Cmd c = ex::gen(false);
      unsigned const fails0 = sim::io::faults_injected();
      sim::event("exec rc %d killed %d", c.rc, c.killed);
      std::optional<cmdr::process::exec> e;
      bool threw = false;
      try {
        sim::AllocFaults af;
        e.emplace(c.text.c_str());
      } catch (std::exception const &) {
        threw = true;
      }
      SIM_CHECK(sim::io::procs_unreaped() == 0, "not-reaped", "after the constructor %s %d process(es) are not reaped", threw ? "threw" : "returned", sim::io::procs_unreaped());
      if (threw) {
        SIM_CHECK(hard, "threw", "the constructor threw without a fault");
        sim::cover("constructor-threw");
        continue;
      }
      bool const faulted = sim::io::faults_injected() != fails0;
      int const rc = e->ret_code();
      if (c.killed) SIM_CHECK(rc != 0, "false-success", "ret_code() is 0 for a command killed by a signal: %.200s", c.text.c_str());
      else if (c.rc) SIM_CHECK(rc != 0, "false-success", "ret_code() is 0, the exit status was %d: %.200s", c.rc, c.text.c_str());
      if (!faulted && !c.killed) SIM_CHECK(rc == c.rc, "wrong-status", "ret_code() is %d, the exit status was %d: %.200s", rc, c.rc, c.text.c_str());
      if (c.rc) sim::nontrivial();
      e.reset();
      SIM_CHECK(sim::io::open_fds() == 0, "fd-leak", "%d descriptors left open", sim::io::open_fds());
      SIM_CHECK(!sim::io::misuse(), "misuse", "%s", sim::io::misuse());
    }
  }
} // namespace
SCENARIO(status, 2) { go(false); }
SCENARIO(status_faults, 2) { go(true); }
// the status cannot be collected (SIGCHLD ignored elsewhere): never a success
SCENARIO(no_status, 1) {
  sim::io::enable(true);
  ex::only_soft_faults();
  sim::io::set_fault_rate("pclose", 1000);
  ex::Cmd c = ex::gen(false);
  unsigned const f0 = sim::io::faults_injected();
  cmdr::process::exec e(c.text.c_str());
  if (sim::io::faults_injected() != f0) {
    sim::cover("status-lost");
    sim::nontrivial();
    SIM_CHECK(e.ret_code() != 0, "false-success", "ret_code() is 0 although the status could not be collected");
  }
  SIM_CHECK(sim::io::procs_unreaped() == 0, "not-reaped", "not reaped");
}
SCENARIO(no_start, 1) {
  sim::io::enable(true);
  ex::only_soft_faults();
  sim::io::set_fault_rate("popen", 1000);
  ex::Cmd c = ex::gen(false);
  unsigned const f0 = sim::io::faults_injected();
  bool threw = false;
  try {
    cmdr::process::exec e(c.text.c_str());
  } catch (std::exception const &) {
    threw = true;
  }
  if (sim::io::faults_injected() != f0) {
    sim::cover("not-started");
    sim::nontrivial();
    SIM_CHECK(threw, "false-success", "the command could not be started, but the constructor did not throw");
  }
  SIM_CHECK(sim::io::procs_unreaped() == 0, "not-reaped", "not reaped");
}
