// I04: every live mmap object has its own zero-filled temporary file of the right size.
#include "mmap_common.h"
namespace {
  h::Cnt g_live;
  char mark(int id, size_t i) { return (char) (1 + (id * 37 + (int) (i % 101)) % 120); }
  struct Any {  // one mmap object of any of the four kinds
    virtual ~Any() = default;
    virtual bool open() const = 0;
    virtual size_t size() const = 0;
    virtual char *data() = 0;
    virtual std::string name() const = 0;
    virtual bool writeable() const = 0;
    virtual bool shared() const = 0;
  };
  template<bool W, bool S>
  struct One : Any {
    cmdr::mmap::mmap<W, S> m;
    explicit One(size_t n) : m(n) {}
    bool open() const override { return m.is_open(); }
    size_t size() const override {
      SIM_CHECK(m.size() == m.length(), "size", "size() %zu differs from length() %zu", m.size(), m.length());
      return m.size();
    }
    char *data() override { return m.data(); }
    std::string name() const override { return m.underlying_filename().string(); }
    bool writeable() const override { return W; }
    bool shared() const override { return S; }
  };
  std::unique_ptr<Any> make(size_t n, int kind) {
    switch (kind) {
      case 1: return std::make_unique<One<true, false>>(n);
      case 2: return std::make_unique<One<true, true>>(n);
      case 3: return std::make_unique<One<false, true>>(n);
      default: return std::make_unique<One<false, false>>(n);
    }
  }
  struct Names {  // the files of the objects alive now
    std::multiset<std::string> s;
    void add(std::string const &n) {
      sim::Quiet q;
      SIM_CHECK(!s.count(n), "shared-file", "two live mmap objects use the same file %s", n.c_str());
      s.insert(n);
    }
    void del(std::string const &n) {
      sim::Quiet q;
      auto it = s.find(n);
      if (it != s.end()) s.erase(it);
    }
  } g_names;
  struct Obj {
    int id;
    size_t n;
    std::unique_ptr<Any> o;
    std::string name;
    bool written = false;
    void create(int id_) {
      id = id_;
      n = sim::chance(15, "huge") ? ((size_t) 1 << (31 + sim::choose(2, "bits"))) + sim::choose(5000, "more") : mm::pick_size();
      if (n >> 31) sim::cover("larger-than-2-GiB");
      o = make(n, (int) sim::choose(4, "kind"));
      SIM_CHECK(o->open(), "not-open", "mmap(%zu) is not open although nothing failed", n);
      SIM_CHECK(o->size() == n, "size", "mmap(%zu) has size() %zu", n, o->size());
      name = o->name();
      g_names.add(name);
      SIM_CHECK(sim::io::host_size(name.c_str()) == (long) n, "file-size", "the file of mmap(%zu) has %ld bytes", n, sim::io::host_size(name.c_str()));
      mm::verify(o->data(), n, [](size_t) { return 0; }, "a new mmap object");
      if (o->writeable() && sim::choose(4, "write")) {
        for (size_t i = 0; i < n; i++) {
          if (n > 300 && i == 100) i = n - 100;
          o->data()[i] = mark(id, i);
        }
        written = true;
      }
      sim::event("create %d size %zu", id, n);
    }
    void check() {
      SIM_CHECK(o->open() && o->size() == n, "size", "object %d of %zu bytes changed to %zu", id, n, o->size());
      SIM_CHECK(sim::io::host_size(name.c_str()) == (long) n, "file-size", "the file of the live object %d (%zu bytes) now has %ld bytes", id, n, sim::io::host_size(name.c_str()));
      mm::verify(o->data(), n, [&](size_t i) { return written ? mark(id, i) : 0; }, "a live mmap object");
      if (written && o->shared()) {
        std::vector<char> b(n >> 31 ? 200 : n + 1);
        long const r = sim::io::host_read_all(name.c_str(), b.data(), (long) b.size());
        SIM_CHECK(r == (long) (n >> 31 ? b.size() : n) && !memcmp(b.data(), o->data(), n < 100 ? n : 100), "not-in-file", "the file of a shareable writeable object does not hold what was written");
      }
    }
    void destroy() {
      check();
      g_names.del(name);
      o.reset();
      SIM_CHECK(!sim::io::host_exists(name.c_str()), "file-left", "the file %s is left behind", name.c_str());
      sim::event("destroy %d", id);
    }
  };
  void worker(int t, int n) {
    std::vector<Obj> v;
    for (int i = 0; i < n; i++) {
      v.emplace_back();
      v.back().create(t * 100 + i);
      if (sim::choose(2, "check")) v[sim::choose((unsigned) v.size(), "which")].check();
      if (sim::choose(3, "drop") == 1) {
        size_t const k = sim::choose((unsigned) v.size(), "which");
        v[k].destroy();
        v.erase(v.begin() + (long) k);
      }
      if (v.size() > 1) sim::nontrivial();
    }
    while (!v.empty()) {
      size_t const k = sim::choose((unsigned) v.size(), "which");
      v[k].destroy();
      v.erase(v.begin() + (long) k);
    }
  }
  void at_end(int others) {
    SIM_CHECK(sim::io::open_fds() == 0, "fd-leak", "%d descriptors are left open", sim::io::open_fds());
    SIM_CHECK(sim::io::open_maps() == 0, "map-leak", "%d mappings are left", sim::io::open_maps());
    SIM_CHECK(!sim::io::misuse(), "misuse", "%s", sim::io::misuse());
    SIM_CHECK(sim::io::host_count("/tmp") == others, "file-left", "%d files are left in the temporary directory, expected %d", sim::io::host_count("/tmp"), others);
  }
  void start() {
    sim::io::enable(true);
    sim::opt().alloc_permille = 0;
    for (auto f: {"open", "fopen", "fclose", "read", "write", "fstat", "stat", "mkdir", "unlink", "lseek", "mmap", "dup", "rename"}) sim::io::set_fault_rate(f, 0);
  }
} // namespace
SCENARIO(threads, 4) {
  start();
  g_names.s.clear();
  int const T = 2 + (int) sim::choose(3, "threads");
  // a file and a mapping of somebody else
  sim::io::host_write("/tmp/foreign.bin", "foreign", 7);
  char *fm = sim::io::host_map("/tmp/foreign.map", 5000);
  memset(fm, 'F', 5000);
  std::vector<std::thread> ts;
  for (int t = 0; t < T; t++) {
    int const n = 1 + (int) sim::choose(4, "objects");
    ts.push_back(h::spawn([=] { worker(t, n); }));
  }
  for (auto &t: ts) t.join();
  at_end(2);
  for (int i = 0; i < 5000; i++) SIM_CHECK(fm[i] == 'F', "foreign-damaged", "somebody else's mapping was changed");
  char b[16];
  SIM_CHECK(sim::io::host_read_all("/tmp/foreign.bin", b, 16) == 7 && !memcmp(b, "foreign", 7), "foreign-damaged", "somebody else's file was changed");
  sim::nontrivial();
}
SCENARIO(many_at_once, 1) {
  start();
  g_names.s.clear();
  sim::opt().hard_steps = 4000000;
  struct Kept {
    int i;
    std::unique_ptr<Any> o;
  };
  std::vector<Kept> v;
  int const N = 2 + (int) sim::choose(sim::chance(200, "many") ? 1200 : 150, "objects"), keep = 1 + (int) sim::choose(60, "kept");
  auto check = [](Kept &k) {
    mm::verify(k.o->data(), k.o->size(), [&](size_t n) { return k.o->writeable() && n == 0 ? mark(k.i, 0) : 0; }, "one of many live mmap objects");
  };
  for (int i = 0; i < N; i++) {
    Kept k{i, make(1 + (size_t) (i % 7), i % 4)};
    SIM_CHECK(k.o->open() && k.o->size() == 1 + (size_t) (i % 7), "not-open", "object %d is not open, or has another size, although nothing failed", i);
    mm::verify(k.o->data(), k.o->size(), [](size_t) { return 0; }, "one of many mmap objects");
    g_names.add(k.o->name());
    if (k.o->writeable()) k.o->data()[0] = mark(i, 0);
    if ((int) v.size() < keep) v.push_back(std::move(k));
    else g_names.del(k.o->name());
  }
  for (auto &k: v) check(k);
  if (N > 200) sim::cover("more-than-200-objects");
  v.clear();
  at_end(0);
  sim::nontrivial();
}
SCENARIO(sequential, 1) {
  start();
  g_names.s.clear();
  worker(0, 2 + (int) sim::choose(6, "objects"));
  at_end(0);
}
// two processes of the same program share the temporary directory
namespace {
  struct PeerArg {
    int objs;
    size_t n;
  };
  void peer(void *p) {
    auto *a = (PeerArg *) p;
    std::vector<std::unique_ptr<One<true, true>>> v;
    char buf[64];
    for (int i = 0; i < a->objs; i++) {
      v.push_back(std::make_unique<One<true, true>>(a->n));
      for (size_t k = 0; k < a->n; k++) v.back()->data()[k] = mark(i, k);
    }
    sim::io::peer_send("ready", 5);
    sim::io::peer_recv(buf, 64);
    bool ok = true;
    for (int i = 0; i < a->objs; i++) {
      ok &= sim::io::host_size(v[(size_t) i]->name().c_str()) == (long) a->n;
      if (ok)
        for (size_t k = 0; k < a->n; k++) ok &= v[(size_t) i]->data()[k] == mark(i, k);
    }
    sim::io::peer_send(ok ? "ok" : "damaged", ok ? 2 : 7);
    sim::io::peer_recv(buf, 64);
    if (ok) v.clear();
    sim::io::peer_send("end", 3);
  }
} // namespace
SCENARIO(two_processes, 1) {
  start();
  g_names.s.clear();
  PeerArg a{1 + (int) sim::choose(3, "peer-objects"), 1 + (size_t) sim::choose(9000, "peer-size")};
  sim::io::peer_start(peer, &a);
  char b[64];
  SIM_CHECK(sim::io::peer_recv(b, 64) == 5, "peer", "the other process failed");
  {
    std::vector<Obj> v((size_t) (1 + sim::choose(3, "objects")));
    int id = 0;
    for (auto &o: v) o.create(id++);
    sim::io::peer_send("go", 2);
    long n = sim::io::peer_recv(b, 64);
    SIM_CHECK(n == 2 && !memcmp(b, "ok", 2), "shared-file", "the files of another process's live mmap objects were changed or truncated");
    for (auto &o: v) o.check();
    sim::io::peer_send("go", 2);
    SIM_CHECK(sim::io::peer_recv(b, 64) == 3, "peer", "the other process failed");
    for (auto &o: v) o.check();
    for (auto &o: v) o.destroy();
  }
  sim::io::peer_end();
  at_end(0);
  sim::nontrivial();
}
// a process of the same id crashed earlier and left its files behind
SCENARIO(left_by_a_crash, 1) {
  start();
  g_names.s.clear();
  std::string name;
  {
    One<true, true> first(8);  // how the files are named now: the next ones probably differ in the last number
    name = first.name();
  }
  size_t e = name.size();
  while (e > 0 && !isdigit((unsigned char) name[e - 1])) e--;
  size_t b = e;
  while (b > 0 && isdigit((unsigned char) name[b - 1]) && e - b < 9) b--;
  std::set<std::string> left;
  unsigned const T = 1 + sim::choose(3, "threads"), per = 1 + sim::choose(3, "objects");
  std::vector<size_t> sizes;
  {
    sim::Quiet q;
    unsigned const no = (unsigned) atoi(name.substr(b, e - b).c_str());
    size_t const n = mm::pick_size();
    for (unsigned i = 0; b < e && i < T * per + 1; i++) {
      if (sim::chance(300, "not-this-one")) continue;
      char num[32];
      snprintf(num, sizeof num, "%0*u", (int) (e - b), no + i);
      std::string const f = name.substr(0, b) + num + name.substr(e);
      size_t const sz = sim::chance(600, "same-size") ? n : mm::pick_size();
      std::string const junk(sz, 'J');
      sim::io::host_write(f.c_str(), junk.data(), (long) sz);
      left.insert(f);
    }
    for (unsigned i = 0; i < T * per; i++) sizes.push_back(sim::chance(700, "same-size") ? n : mm::pick_size());
  }
  std::vector<std::thread> ts;
  std::set<std::string> used;
  for (unsigned t = 0; t < T; t++)
    ts.push_back(h::spawn([&, t] {
      std::vector<std::unique_ptr<Any>> v;
      for (unsigned i = 0; i < per; i++) {
        size_t const n = sizes[t * per + i];
        v.push_back(make(n, (int) sim::choose(4, "kind")));
        auto &o = *v.back();
        SIM_CHECK(o.open() && o.size() == n, "not-open", "mmap(%zu) is not open, or has another size, although nothing failed", n);
        SIM_CHECK(sim::io::host_size(o.name().c_str()) == (long) n, "file-size", "the file of mmap(%zu) has %ld bytes", n, sim::io::host_size(o.name().c_str()));
        std::string const nm = o.name();
        {
          sim::Quiet q;
          if (left.count(nm)) sim::cover("name-of-a-file-left-behind");
          used.insert(nm);
        }
        mm::verify(o.data(), n, [](size_t) { return 0; }, "a new mmap object on a file left behind");
        if (o.writeable())
          for (size_t k = 0; k < n && k < 64; k++) o.data()[k] = mark((int) t, k);
      }
    }));
  for (auto &t: ts) t.join();
  sim::Quiet q;
  int others = 0;
  for (auto &f: left) others += !used.count(f);
  at_end(others);
  sim::nontrivial();
}
