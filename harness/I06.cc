// I06: the file helpers report what really happened on disk.
#include "cmdr11/cmdr_path.hh"
#include "common.h"
#include <cstring>
#include <map>
namespace {
  namespace fs = std::filesystem;
  void start() {
    sim::io::enable(true);
    sim::opt().alloc_permille = 0;
    bool const none = sim::chance(300, "no-faults");
    for (auto f: {"open", "fopen", "fclose", "read", "write", "lseek", "mkdir", "unlink", "stat", "fstat"})
      sim::io::set_fault_rate(f, none ? 0 : (int) sim::choose(130, "rate"));
  }
  std::string content(unsigned n, unsigned salt) {
    std::string s(n, 0);
    for (unsigned i = 0; i < n; i++) s[i] = (char) ((i * 31 + salt * 7 + (i >> 8)) & 0xff);
    return s;
  }
  std::string on_disk(std::string const &p) {
    long const n = sim::io::host_size(p.c_str());
    if (n < 0) return "<absent>";
    std::string s((size_t) n, 0);
    sim::io::host_read_all(p.c_str(), s.data(), n);
    return s;
  }
  void at_end() {
    SIM_CHECK(sim::io::open_fds() == 0, "fd-leak", "%d descriptors are left open", sim::io::open_fds());
    SIM_CHECK(!sim::io::misuse(), "misuse", "%s", sim::io::misuse());
  }
  struct Model {
    std::map<std::string, std::string> file;  // exact contents
  };
  void history(Model &m, std::string const &base, int ops) {
    static char const *const names[] = {"/a", "/b.txt", "/dir with space", "/sub/c", "/no/such/dir/d"};
    while (ops-- > 0) {
      std::string const p = base + names[sim::choose(5, "name")];
      unsigned const before = sim::io::faults_injected();
      auto faulted = [&] { return sim::io::faults_injected() > before; };
      bool const was = sim::io::host_exists(p.c_str()), wasdir = sim::io::host_is_dir(p.c_str());
      bool const parent = sim::io::host_is_dir(p.substr(0, p.rfind('/')).c_str());
      std::string const old = was && !wasdir ? on_disk(p) : "";
      unsigned const op = sim::choose(6, "op");
      sim::event("op %u on %s", op, p.c_str());
      sim::nontrivial();
      switch (op) {
        case 0: {
          size_t const size = sim::choose(3, "big") == 1 ? 1 + (size_t) sim::choose(9000000, "size") : (size_t) sim::choose(9000, "size");
          bool const r = cmdr::io::create_sparse_file(p, size);
          if (r) {
            SIM_CHECK(sim::io::host_size(p.c_str()) == (long) size && !sim::io::host_is_dir(p.c_str()), "claims-created", "create_sparse_file(%zu) returned true but the file has %ld bytes", size, sim::io::host_size(p.c_str()));
            if (size < 20000) SIM_CHECK(on_disk(p) == std::string(size, 0), "not-zero", "a sparse file of %zu bytes does not read as zeros", size);
          } else {
            SIM_CHECK(faulted() || wasdir || !parent, "false-failure", "create_sparse_file(%zu) returned false although nothing failed", size);
            sim::cover("create-failed");
          }
          break;
        }
        case 1: {
          bool const r = cmdr::io::delete_file(p);
          bool const now = sim::io::host_exists(p.c_str());
          SIM_CHECK(r == (was && !now), "delete-lies", "delete_file returned %s, the file %s before and %s after", r ? "true" : "false", was ? "existed" : "was absent", now ? "exists" : "is absent");
          if (!r) SIM_CHECK(!was || faulted() || wasdir, "false-failure", "delete_file failed although nothing went wrong");
          else if (!wasdir) sim::cover("deleted");
          break;
        }
        case 2:
          try {
            bool const r = cmdr::path::ensure_directory(p);
            SIM_CHECK(sim::io::host_is_dir(p.c_str()), "no-directory", "ensure_directory returned %s but there is no directory", r ? "true" : "false");
            SIM_CHECK(r == !wasdir, "ensure-lies", "ensure_directory returned %s although the directory %s", r ? "true" : "false", wasdir ? "existed" : "was created");
          } catch (fs::filesystem_error const &) {
            SIM_CHECK(faulted() || (was && !wasdir) || sim::io::host_exists((base + "/sub").c_str()), "false-failure", "ensure_directory threw although nothing failed");
            sim::cover("ensure_directory-threw");
          }
          if (was && !wasdir) SIM_CHECK(on_disk(p) == old, "contents-changed", "ensure_directory changed a file");
          break;
        case 3: {
          bool const r = cmdr::path::ensure_file(p);
          bool const now = sim::io::host_exists(p.c_str());
          if (was && !wasdir) SIM_CHECK(now && on_disk(p) == old, "contents-changed", "ensure_file changed the contents of an existing file");
          SIM_CHECK(!r || now, "claims-created", "ensure_file returned true but there is no file");
          if (!now) SIM_CHECK(faulted() || !parent, "false-failure", "ensure_file did not create the file although nothing failed");
          if (!was && now) SIM_CHECK(on_disk(p).empty(), "not-empty", "ensure_file created a file that is not empty");
          if (!now) sim::cover("ensure_file-failed");
          break;
        }
        case 4: {
          if (was && wasdir) break;
          std::string const c = content(sim::choose(4, "len-class") ? sim::choose(300, "len") : sim::choose(40000, "len"), sim::choose(256, "salt"));
          if (parent) sim::io::host_write(p.c_str(), c.data(), (long) c.size());
          [[fallthrough]];
        }
        case 5: {
          if (!sim::io::host_exists(p.c_str()) || sim::io::host_is_dir(p.c_str())) break;
          if (sim::io::host_size(p.c_str()) > 200000) break;
          std::string const want = on_disk(p);
          std::ifstream ifs = cmdr::io::open_file(p);
          if (!ifs.is_open()) {
            SIM_CHECK(faulted(), "false-failure", "open_file failed although nothing went wrong");
            break;
          }
          bool empty = want.empty();
          std::string const got = cmdr::io::read_file_content(ifs);
          if (ifs.bad() || (ifs.fail() && !empty)) {
            SIM_CHECK(faulted(), "false-failure", "read_file_content left a failed stream although nothing went wrong");
            sim::cover("read-failed");
          } else {
            SIM_CHECK(got == want, "wrong-content", "read_file_content returned %zu bytes, the file has %zu, or other bytes", got.size(), want.size());
            sim::cover("read-back");
          }
          cmdr::io::close_file(ifs);
          break;
        }
      }
    }
    (void) m;
  }
} // namespace
SCENARIO(histories, 4) {
  start();
  sim::io::host_mkdir("/work/d");
  Model m;
  history(m, "/work/d", 3 + (int) sim::choose(15, "ops"));
  at_end();
}
SCENARIO(histories_in_threads, 2) {  // separate directories: nothing may leak from one to the other
  start();
  std::vector<std::thread> ts;
  int const T = 2 + (int) sim::choose(2, "threads");
  for (auto f: {"open", "fopen", "fclose", "read", "write", "lseek", "mkdir", "unlink", "stat", "fstat"}) sim::io::set_fault_rate(f, 0);
  for (int t = 0; t < T; t++) {
    std::string const base = "/work/t" + std::to_string(t);
    sim::io::host_mkdir(base.c_str());
    int const n = 2 + (int) sim::choose(6, "ops");
    ts.push_back(h::spawn([=] {
      Model m;
      history(m, base, n);
    }));
  }
  for (auto &t: ts) t.join();
  at_end();
}
// several threads make sure that the same directory and file exist, and then use them
SCENARIO(same_target_threads, 4) {
  start();
  for (auto f: {"open", "fopen", "fclose", "read", "write", "lseek", "mkdir", "unlink", "stat", "fstat"}) sim::io::set_fault_rate(f, 0);
  for (auto f: {"write-short", "write-EINTR"}) sim::io::set_fault_rate(f, 0);  // (the lines are appended by single writes)
  int const T = 2 + (int) sim::choose(3, "threads");
  int const files = 1 + (int) sim::choose(2, "files");
  std::vector<std::thread> ts;
  h::Cnt created;
  for (int t = 0; t < T; t++)
    ts.push_back(h::spawn([&, t] {
      for (int f = 0; f < files; f++) {
        h::nap();
        std::string const dir = "/work/shared/deep/er" + std::to_string(f % 2), p = dir + "/log" + std::to_string(f);
        cmdr::path::ensure_directory(dir);
        SIM_CHECK(sim::io::host_is_dir(dir.c_str()), "no-directory", "ensure_directory returned but there is no directory");
        if (cmdr::path::ensure_file(p)) created++;
        SIM_CHECK(sim::io::host_exists(p.c_str()), "no-file", "ensure_file returned but there is no file");
        sim::event("ensured %d by %d", f, t);
        std::ofstream o = cmdr::io::open_file_for_write(p, std::ios_base::out | std::ios_base::binary | std::ios_base::app);
        o << "line of " << t << "\n";
        cmdr::io::close_file(o);
        sim::event("wrote %d by %d", f, t);
      }
    }));
  for (auto &t: ts) t.join();
  for (int f = 0; f < files; f++) {
    std::string const s = on_disk("/work/shared/deep/er" + std::to_string(f % 2) + "/log" + std::to_string(f));
    for (int t = 0; t < T; t++)
      SIM_CHECK(s.find("line of " + std::to_string(t) + "\n") != std::string::npos, "contents-lost", "the line thread %d wrote after ensure_file() is gone from file %d, which holds: %s", t, f, s.c_str());
  }
  SIM_CHECK(created.get() >= files, "ensure-lies", "%d files created, %d reported", files, created.get());
  at_end();
  sim::nontrivial();
}
