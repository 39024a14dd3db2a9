// I05: mmap failures are reported and leak nothing; descriptors and mappings are released exactly once.
#include "mmap_common.h"
#include <fcntl.h>
#include <map>
namespace {
  char patt(int f, size_t i) { return (char) ('A' + (f * 7 + (int) i) % 23); }
  char *g_foreign;
  int g_ffd[3];
  void foreign_setup() {
    g_foreign = sim::io::host_map("/work/foreign.map", 8192);
    memset(g_foreign, 'F', 8192);
    for (int &f: g_ffd) f = sim::io::host_open("/work/foreign.map", O_RDONLY);
  }
  void at_end(int tmp_files) {
    SIM_CHECK(!sim::io::misuse(), "misuse", "%s", sim::io::misuse());
    SIM_CHECK(sim::io::open_fds() == 0, "fd-leak", "%d descriptors are left open", sim::io::open_fds());
    SIM_CHECK(sim::io::open_maps() == 0, "map-leak", "%d mappings are left", sim::io::open_maps());
    SIM_CHECK(sim::io::host_count("/tmp") == tmp_files, "file-left", "%d files are left in the temporary directory, expected %d", sim::io::host_count("/tmp"), tmp_files);
    for (int i = 0; i < 8192; i++) SIM_CHECK(g_foreign[i] == 'F', "foreign-damaged", "somebody else's mapping was changed");
    for (int f: g_ffd) {
      SIM_CHECK(fcntl(f, F_GETFD) >= 0, "foreign-closed", "somebody else's descriptor was closed");
      sim::io::host_close(f);
    }
  }
  template<bool W, bool S>
  void temp_object() {
    size_t const n = sim::choose(12, "zero") ? mm::pick_size() : 0;
    unsigned const before = sim::io::faults_injected();
    try {
      std::unique_ptr<cmdr::mmap::mmap<W, S>> p;
      {
        sim::AllocFaults af;
        p = std::make_unique<cmdr::mmap::mmap<W, S>>(n);
      }
      auto &m = *p;
      if (m.is_open()) {
        SIM_CHECK(n > 0 && m.size() == n, "size", "mmap(%zu) is open with size() %zu", n, m.size());
        long const fs = sim::io::host_size(m.underlying_filename().c_str());
        SIM_CHECK(fs == (long) n, "file-size", "mmap(%zu) is open but its file has %ld bytes", n, fs);
        mm::verify(m.data(), n, [](size_t) { return 0; }, "an open mmap object");
        if (W) m.data()[n - 1] = 'x';
        if (sim::io::faults_injected() == before) sim::nontrivial();
        sim::event("open");
      } else {
        SIM_CHECK(n == 0 || sim::io::faults_injected() > before, "not-open", "mmap(%zu) is not open although nothing failed", n);
        SIM_CHECK(m.size() == 0, "size-after-failure", "a failed mmap object has size() %zu", m.size());
        sim::cover("reported-not-open");
        sim::nontrivial();
        sim::event("failed");
      }
      std::string const name = m.underlying_filename().string();
      unsigned const before2 = sim::io::faults_injected();
      p.reset();
      if (sim::io::faults_injected() == before2) SIM_CHECK(!sim::io::host_exists(name.c_str()), "file-left", "the file is left behind");
      else sim::io::host_unlink(name.c_str()), sim::cover("unlink-failed");
    } catch (std::bad_alloc const &) {
      sim::cover("ctor-bad_alloc");
      sim::nontrivial();
    } catch (std::exception const &e) {
      SIM_CHECK(sim::io::faults_injected() > before, "exception", "mmap(%zu) threw %s although nothing failed", n, e.what());
      sim::cover("ctor-threw");
      sim::nontrivial();
    }
  }
  void some(int n) {
    for (int i = 0; i < n; i++) {
      switch (sim::choose(4, "kind")) {
        case 1: temp_object<true, false>(); break;
        case 2: temp_object<true, true>(); break;
        case 3: temp_object<false, true>(); break;
        default: temp_object<false, false>();
      }
    }
  }
  void start() {
    sim::io::enable(true);
    // deletion may fail when the constructor cleans up, too: not the object's fault
    sim::io::set_fault_rate("unlink", 0);
    for (auto f: {"open", "fopen", "fclose", "write", "lseek", "fstat", "mmap"}) sim::io::set_fault_rate(f, 10 + (int) sim::choose(150, "rate"));
    foreign_setup();
  }
} // namespace
SCENARIO(temporary_objects, 3) {
  start();
  some(1 + (int) sim::choose(4, "objects"));
  at_end(0);
}
SCENARIO(temporary_objects_threads, 3) {
  start();
  std::vector<std::thread> ts;
  for (int t = 2 + (int) sim::choose(2, "threads"); t-- > 0;) {
    int const n = 1 + (int) sim::choose(3, "objects");
    ts.push_back(h::spawn([=] { some(n); }));
  }
  for (auto &t: ts) t.join();
  at_end(0);
}
// mmaplib objects connected, moved, copied, assigned and closed in any order
namespace {
  using Lib = cmdr::mmap::detail::mmaplib;
  struct Slot {
    std::unique_ptr<Lib> p;
    int file = -1;  // what it shows when open
    bool w = false, sh = false;
    std::vector<char> want;
  };
  int const NF = 3;
  size_t g_len[NF];
  std::string path_of(int f) { return "/work/f" + std::to_string(f); }
  void check(Slot &s, int i) {
    if (!s.p) return;
    if (!s.p->is_open()) {
      SIM_CHECK(s.p->size() == 0, "size-after-failure", "object %d is not open but has size() %zu", i, s.p->size());
      return;
    }
    SIM_CHECK(s.file >= 0, "open", "object %d is open but was never connected", i);
    SIM_CHECK(s.p->size() == g_len[s.file], "size", "object %d has size() %zu, the file %zu", i, s.p->size(), g_len[s.file]);
    mm::verify(std::as_const(*s.p).data(), s.p->size(), [&](size_t k) { return patt(s.file, k); }, "a mapped file");
  }
} // namespace
SCENARIO(mmaplib_histories, 4) {
  start();
  for (int f = 0; f < NF; f++) {
    g_len[f] = f == 2 && sim::chance(300, "empty") ? 0 : mm::pick_size();
    std::string c(g_len[f], 0);
    for (size_t i = 0; i < c.size(); i++) c[i] = patt(f, i);
    sim::io::host_write(path_of(f).c_str(), c.data(), (long) c.size());
  }
  if (sim::chance(500, "no-faults")) sim::io::faults(false);
  std::vector<Slot> v(4);
  auto fresh = [&](Slot &s) {
    s.p.reset();
    s.file = -1;
  };
  for (int k = 3 + (int) sim::choose(15, "ops"); k-- > 0;) {
    unsigned const i = sim::choose(4, "slot"), j = sim::choose(4, "other"), f = sim::choose(NF + 1, "file");
    unsigned const before = sim::io::faults_injected();
    Slot &s = v[i], &o = v[j];
    bool const w = sim::choose(2, "writeable"), sh = sim::choose(2, "shareable");
    bool const existing = f < NF;
    std::string const pth = path_of((int) f);
    auto connected = [&] {
      bool const must = existing && g_len[f] > 0 && sim::io::faults_injected() == before;
      SIM_CHECK(!must || s.p->is_open(), "not-open", "mapping a file of %zu bytes failed without any fault", g_len[f]);
      SIM_CHECK(!s.p->is_open() || (existing && g_len[f] > 0), "open", "an object connected to %s file is open", existing ? "an empty" : "no");
      s.file = s.p->is_open() ? (int) f : -1;
      if (!s.p->is_open()) sim::cover("connect-failed");
    };
    unsigned const op = sim::choose(9, "op");
    switch (op) {
      case 0:
        fresh(s);
        s.p = std::make_unique<Lib>(pth.c_str(), w, sh);
        connected();
        break;
      case 1:
        if (!s.p) s.p = std::make_unique<Lib>();
        s.p->connect(w, sh, pth.c_str());
        connected();
        break;
      case 2: {
        if (!s.p) s.p = std::make_unique<Lib>();
        int const fd = cmdr::mmap::open_file(pth.c_str(), w, sh);
        s.p->connect(w, sh, fd);
        connected();
        break;
      }
      case 3:
        if (s.p) {
          s.p->close();
          s.file = -1;
          SIM_CHECK(!s.p->is_open(), "open-after-close", "open after close()");
        }
        break;
      case 4: fresh(s); break;
      case 5:
      case 6: {  // copy
        if (!o.p) break;
        bool const was = o.p->is_open();
        if (op == 5 && i != j) fresh(s), s.p = std::make_unique<Lib>(std::as_const(*o.p));
        else if (s.p) *s.p = std::as_const(*o.p);
        else break;
        SIM_CHECK(o.p->is_open() == was, "copy-changed-source", "copying closed the source");
        if (s.p->is_open()) SIM_CHECK(was, "open", "the copy of a closed object is open");
        else if (was) SIM_CHECK(sim::io::faults_injected() > before, "copy-failed", "the copy of an open object is not open although nothing failed");
        s.file = s.p->is_open() ? o.file : -1;
        sim::cover("copied");
        break;
      }
      case 7:
      case 8: {  // move
        if (!o.p) break;
        bool const was = o.p->is_open();
        int const file = o.file;
        if (op == 7 && i != j) fresh(s), s.p = std::make_unique<Lib>(std::move(*o.p));
        else if (s.p) *s.p = std::move(*o.p);
        else break;
        SIM_CHECK(s.p->is_open() == was, "move", "the target of a move is %s, the source was %s", s.p->is_open() ? "open" : "closed", was ? "open" : "closed");
        if (&s != &o) {
          SIM_CHECK(!o.p->is_open(), "move", "the source of a move is still open");
          o.file = -1;
        }
        s.file = was ? file : -1;
        sim::cover("moved");
        break;
      }
    }
    sim::event("op %u slot %u other %u", op, i, j);
    for (int q = 0; q < 4; q++) check(v[(size_t) q], q);
    SIM_CHECK(!sim::io::misuse(), "misuse", "%s", sim::io::misuse());
    sim::nontrivial();
  }
  v.clear();
  at_end(0);
}
SCENARIO(unmanaged, 1) {  // mmap_um takes over the descriptor
  start();
  g_len[0] = mm::pick_size();
  std::string c(g_len[0], 0);
  for (size_t i = 0; i < c.size(); i++) c[i] = patt(0, i);
  sim::io::host_write("/work/f0", c.data(), (long) c.size());
  for (int k = 1 + (int) sim::choose(4, "n"); k-- > 0;) {
    unsigned const before = sim::io::faults_injected();
    int const fd = cmdr::mmap::open_file("/work/f0");
    cmdr::mmap::mmap_um<> m(fd);
    SIM_CHECK(m.is_open() || sim::io::faults_injected() > before, "not-open", "mmap_um is not open although nothing failed");
    if (m.is_open()) {
      SIM_CHECK(m.size() == g_len[0], "size", "mmap_um has size() %zu, the file %zu", m.size(), g_len[0]);
      mm::verify(m.data(), m.size(), [&](size_t i) { return patt(0, i); }, "mmap_um");
    } else
      SIM_CHECK(m.size() == 0, "size-after-failure", "a failed mmap_um has size() %zu", m.size());
  }
  at_end(0);
  sim::nontrivial();
}
