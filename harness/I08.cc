// I08: completion generation reports a script only when it is fully written.
#include "app_common.h"
namespace {
  char const *const calls[] = {"open", "fopen", "fclose", "write", "unlink", "stat", "fstat", "mkdir", "write-EINTR", "write-short", "lseek"};
  void rates(bool on) {
    for (auto f: calls) sim::io::set_fault_rate(f, on ? (int) sim::choose(200, "rate") : 0);
    if (on && sim::chance(300, "disk-full")) sim::io::set_fault_rate("write", 400 + (int) sim::choose(600, "rate"));
    if (on && sim::chance(200, "nothing-opens")) sim::io::set_fault_rate("open", 600 + (int) sim::choose(400, "rate")), sim::io::set_fault_rate("fopen", 900);
  }
  std::string on_disk(std::string const &p) {
    sim::Quiet q;
    long const n = sim::io::host_size(p.c_str());
    if (n < 0) return "<absent>";
    std::string s((size_t) n, 0);
    sim::io::host_read_all(p.c_str(), s.data(), n);
    return s;
  }
  struct Claim {
    int n = 0;
    std::string path;
  };
  Claim claims(std::string const &err) {
    Claim c;
    std::istringstream is(err);
    std::string l;
    while (std::getline(is, l)) {
      auto const p = l.find("$ source ");
      if (p == l.npos) continue;
      c.n++;
      c.path = l.substr(p + 9);
      for (size_t e; (e = c.path.find('\x1b')) != c.path.npos;) c.path.resize(e);
      while (!c.path.empty() && (c.path.back() == ' ' || c.path.back() == '\r')) c.path.pop_back();
    }
    return c;
  }
}
SCENARIO(generate, 1) {
  ap::clean_env();
  sim::io::enable(true);
  rates(false);
  sim::opt().alloc_permille = 0;
  auto &cli = ap::make("sim-app");
  std::vector<std::string> const dirs = {"/home/u/.linuxbrew/etc/bash_completion.d", "/opt/homebrew/etc/bash_completion.d", "/usr/local/etc/bash_completion.d", "/etc/bash_completion.d"};
  int const rounds = 1 + (int) sim::choose(3, "rounds");
  bool const blocked_cwd = sim::chance(150, "cwd-blocked");
  for (int r = 0; r < rounds; r++) {
    std::string const names[] = {"tool", "my-tool", "a_b"};
    std::string const name = names[sim::choose(3, "name")] + (sim::chance(300, "fresh") ? std::to_string(r) : "");
    std::string safe = name;
    if (auto const d = safe.find('-'); d != safe.npos) safe[d] = '_';
    if (blocked_cwd) sim::io::host_mkdir(("/work/" + safe).c_str());
    for (size_t i = 0; i < dirs.size(); i++) {
      switch (sim::choose(r ? 6 : 4, "dir")) {
        case 1: sim::io::host_mkdir(dirs[i].c_str()); break;
        case 2: sim::io::host_mkdir((dirs[i] + "/" + safe).c_str()); break;                     // the target is a directory
        case 3: {                                                                                // its parent is a file
          std::string const par = dirs[i].substr(0, dirs[i].rfind('/')), gp = par.substr(0, par.rfind('/'));
          if (!sim::io::host_exists(par.c_str())) {
            sim::io::host_mkdir(gp.c_str());
            sim::io::host_write(par.c_str(), "x", 1);
          }
          break;
        }
        default: break;
      }
    }
    auto usable = [&](std::string const &d, std::string const &t) { return sim::io::host_is_dir(d.c_str()) && !sim::io::host_is_dir(t.c_str()); };
    // the reference: what it prints is what it has to write
    std::string want;
    {
      ap::Capture c;
      int const rc = ap::run(cli, {"generate", "--dry-run", "--stdout", "shell", "--bash", "--name", name});
      SIM_CHECK(rc == 0, "dry-run-failed", "a dry run returned %d: %s", rc, c.err.str().c_str());
      SIM_CHECK(claims(c.err.str()).n == 0, "claims-written", "a dry run claims to have written %s", claims(c.err.str()).path.c_str());
      want = c.out.str();
      SIM_CHECK(want.size() > 500, "no-script", "a dry run printed only %zu bytes: %s", want.size(), want.c_str());
      want.pop_back();
      SIM_CHECK(want.find("complete -F _cmdr_cmd_" + safe) != want.npos, "no-script", "the script does not complete %s", name.c_str());
      SIM_CHECK(want.find("%{") == want.npos, "no-script", "the script for %s still has a placeholder: %.60s", name.c_str(), want.c_str() + want.find("%{"));
    }
    std::vector<std::string> cand;
    bool const bet = !sim::chance(200, "no-bet");
    if (bet) for (auto &d: dirs) cand.push_back(d + "/" + safe);
    cand.push_back("/work/" + safe);
    if (sim::chance(200, "old-file")) {
      auto const &t = cand[sim::choose((unsigned) cand.size(), "which")];
      std::string old = "an old script\n";  // shorter than the new one, as long or longer
      switch (sim::choose(3, "old-size")) {
        case 1: old.resize(want.size(), '#'); break;
        case 2: old = want + old; break;
        default: break;
      }
      if (usable(t.substr(0, t.rfind('/')), t)) sim::io::host_write(t.c_str(), old.data(), (long) old.size());
    }
    // files of others, which must not be touched
    std::map<std::string, std::string> others;
    for (auto &d: dirs)
      if (sim::io::host_is_dir(d.c_str()))
        for (auto *n: {"/git-prompt", "/README"}) others[d + n] = "of " + d + n;
    others["/work/notes"] = "notes";
    for (auto &[f, t]: others) sim::io::host_write(f.c_str(), t.data(), (long) t.size());
    std::map<std::string, std::string> before;
    for (auto &t: cand) before[t] = sim::io::host_is_dir(t.c_str()) ? "<dir>" : on_disk(t);
    unsigned viable = 0;
    std::string first;
    for (auto &t: cand)
      if (usable(t.substr(0, t.rfind('/')), t)) {
        if (!viable++) first = t;
      }
    unsigned const op = sim::choose(6, "op");
    bool const faults = !sim::chance(250, "no-faults");
    bool const also_print = sim::chance(250, "stdout");
    std::string printed;
    rates(faults);
    unsigned const f0 = sim::io::faults_injected();
    ap::Strings a{"generate"};
    if (bet) a.push_back(sim::chance(500, "short") ? "-bet" : "--feel-like");
    if (also_print) a.push_back("--stdout");
    a.insert(a.end(), {"shell", "--bash", "--name", name});
    if (op == 5) a.push_back("--drop");
    ap::Capture c;
    int const rc = ap::run(cli, a);
    unsigned const inj = sim::io::faults_injected() - f0;
    rates(false);
    std::string const err = c.err.str();
    Claim const cl = claims(err);
    sim::event("%s -> %d, %u faults, %u usable, claims '%s'", ap::line(a).c_str(), rc, inj, viable, cl.path.c_str());
    for (auto &[f, t]: others) SIM_CHECK(on_disk(f) == t, "others", "'%s' changed %s, which is none of its files", ap::line(a).c_str(), f.c_str());
    if (op == 5) {  // uninstall: no script may be claimed
      SIM_CHECK(cl.n == 0, "claims-written", "--drop claims to have written %s", cl.path.c_str());
      unsigned gone = 0, there = 0;
      for (auto &[t, was]: before) {
        std::string const is = sim::io::host_is_dir(t.c_str()) ? "<dir>" : on_disk(t);
        there += was != "<absent>";
        if (is == was) continue;
        SIM_CHECK(is == "<absent>", "drop-changed", "--drop changed %s", t.c_str());
        gone++;
        sim::cover("removed-a-script");
      }
      SIM_CHECK(gone == (rc == 0 ? 1u : 0u), "drop-result", "--drop returned %d and removed %u files", rc, gone);
      SIM_CHECK(rc == 0 || there <= inj, "false-failure", "--drop returned %d although %u files were there, %u faults", rc, there, inj);
      sim::cover("dropped");
      continue;
    }
    sim::nontrivial();
    SIM_CHECK(rc == 0 || cl.n == 0, "claims-written", "run returned %d (failure) but claims to have written %s", rc, cl.path.c_str());
    if (rc == 0) {
      SIM_CHECK(cl.n == 1, "claims", "run returned 0 with %d claims: %s", cl.n, err.c_str());
      std::string const p = cl.path[0] == '/' ? cl.path : "/work/" + cl.path;
      bool known = false;
      for (auto &t: cand) known |= t == p;
      SIM_CHECK(known, "claims", "claims to have written to %s, which is no candidate", p.c_str());
      std::string const got = on_disk(p);
      SIM_CHECK(got == want, "incomplete", "claims to have written %s, but it has %zu bytes of %zu or other ones: %.60s", p.c_str(), got.size(), want.size(), got.c_str());
      unsigned skipped = 0;
      for (auto &t: cand) {
        if (t == p) break;
        skipped += usable(t.substr(0, t.rfind('/')), t);
      }
      SIM_CHECK(skipped <= inj, "skipped", "%u usable locations before %s were skipped, %u faults", skipped, p.c_str(), inj);
      if (skipped) sim::cover("went-on-after-a-fault");
      if (p == cand.back()) sim::cover("fell-back-to-cwd");
    } else {
      SIM_CHECK(viable <= inj, "false-failure", "run returned %d although %u locations were usable, %u faults: %s", rc, viable, inj, err.c_str());
      sim::cover("reported-failure");
    }
    if (also_print) SIM_CHECK(c.out.str() == want + "\n", "printed", "--stdout printed %zu bytes, the script has %zu", c.out.str().size(), want.size());
  }
  SIM_CHECK(sim::io::open_fds() == 0, "fd-leak", "%d descriptors are left open", sim::io::open_fds());
}
