// A05: external configuration loading is all-or-error.
#include "app_model.h"
#include "loaders/yaml_loader.hh"
#include <set>
namespace {
  using cmdr::vars::variable;
  // ---- generated documents
  struct Doc {
    std::vector<std::pair<std::string, Doc>> kids;
    std::vector<std::string> items;
    std::string scalar;
    enum { Scalar, Map, Seq, Null } kind = Scalar;
    bool plain = false;
  };
  std::string quoted(std::string const &s) {
    std::string o = "\"";
    for (char c: s) {
      if (c == '"' || c == '\\') o += '\\', o += c;
      else if (c == '\t') o += "\\t";
      else if (c == '\n') o += "\\n";
      else o += c;
    }
    return o + "\"";
  }
  void render(Doc const &d, int ind, std::string &out) {
    for (auto &[k, v]: d.kids) {
      out += std::string((size_t) ind, ' ') + k + ":";
      switch (v.kind) {
        case Doc::Scalar: out += " " + (v.plain ? v.scalar : quoted(v.scalar)) + "\n"; break;
        case Doc::Null: out += " ~\n"; break;
        case Doc::Map: out += v.kids.empty() ? " {}\n" : "\n"; render(v, ind + 2, out); break;
        case Doc::Seq:
          out += " [";
          for (size_t i = 0; i < v.items.size(); i++) out += (i ? ", " : "") + quoted(v.items[i]);
          out += "]\n";
          break;
      }
    }
  }
  std::string gen_text() {
    static char const *const t[] = {"abc", "two words", "8s", "45.7min", "-12", "3.25", "0x1f", "a: b", "# no comment", "tab\there", "new\nline", "\"q\"", "\xc3\xa9t\xc3\xa9", "1", "[x]", "{y}", "$HOME", "a.b.c", "back\\slash"};
    return t[sim::choose(19, "text")];
  }
  Doc gen_map(int depth, std::string const &tag, int &serial) {
    Doc d;
    d.kind = Doc::Map;
    for (int i = (int) sim::choose(depth ? 4 : 5, "entries"); i > 0; i--) {
      Doc v;
      std::string const k = tag + (sim::chance(300, "dash") ? "-k" : "k") + std::to_string(serial++);
      unsigned const w = sim::choose(10, "kind");
      if (w < 2 && depth < 4) v = gen_map(depth + 1, tag, serial);
      else if (w == 2) {
        v.kind = Doc::Seq;
        for (int n = (int) sim::choose(4, "items"); n > 0; n--) v.items.push_back(gen_text());
      } else if (w == 3) v.kind = Doc::Null;
      else if (w == 4) {
        static char const *const b[] = {"true", "false", "yes", "no", "on", "off", "True", "FALSE", "y", "n"};
        v.scalar = b[sim::choose(10, "bool")];
        v.plain = true;
      } else v.scalar = gen_text();
      d.kids.emplace_back(k, v);
    }
    return d;
  }
  Doc &at(Doc &d, std::string const &dotted) {
    d.kind = Doc::Map;
    auto const p = dotted.find('.');
    std::string const h = dotted.substr(0, p);
    Doc *k = nullptr;
    for (auto &x: d.kids)
      if (x.first == h) k = &x.second;
    if (!k) {
      d.kids.emplace_back(h, Doc{});
      k = &d.kids.back().second;
    }
    return p == dotted.npos ? *k : at(*k, dotted.substr(p + 1));
  }
  // ---- what the text means (the YAML library itself is trusted)
  struct Val {
    std::string text;
    bool is_bool = false, b = false, seq = false;
    std::vector<Val> items;
  };
  Val val_of(YAML::Node const &n) {
    Val v;
    v.text = n.as<std::string>();
    bool b;
    if (YAML::convert<bool>::decode(n, b)) v.is_bool = true, v.b = b;
    return v;
  }
  void flatten(std::string const &pk, YAML::Node const &n, std::map<std::string, Val> &out) {
    for (auto it = n.begin(); it != n.end(); ++it) {
      std::string const k = (pk.empty() ? "" : pk + ".") + it->first.as<std::string>();
      if (it->second.IsMap()) flatten(k, it->second, out);
      else if (it->second.IsScalar()) out[k] = val_of(it->second);
      else if (it->second.IsSequence()) {
        Val v;
        v.seq = true;
        for (auto const &x: it->second) v.items.push_back(val_of(x));
        out[k] = v;
      }
    }
  }
  bool parse(std::string const &text, std::map<std::string, Val> &out) {
    try {
      flatten("", YAML::Load(text), out);
      return true;
    } catch (std::exception const &) {
      return false;
    }
  }
  bool same(variable const &x, Val const &v) {
    if (v.seq) {
      if (v.items.empty()) return x.type() == typeid(std::vector<std::string>) || (x.type() == typeid(std::vector<variable>) && x.as<std::vector<variable>>().empty());
      if (x.type() != typeid(std::vector<variable>)) return false;
      auto const &a = x.as<std::vector<variable>>();
      if (a.size() != v.items.size()) return false;
      for (size_t i = 0; i < a.size(); i++)
        if (!same(a[i], v.items[i])) return false;
      return true;
    }
    if (v.is_bool) return x.type() == typeid(bool) ? x.as<bool>() == v.b : x.type() == typeid(std::string) && x.as<std::string>() == v.text;
    if (x.type() == typeid(std::string)) return x.as<std::string>() == v.text;
    return x.as_string() == v.text;
  }
  struct File {
    std::string path;
    bool present = false, good = false, certain = false;
    std::string text;
    std::map<std::string, Val> vals;
  };
  std::map<std::string, std::string> dump(cmdr::app &cli) {
    std::map<std::string, std::string> m;
    cli.store().walk_by_full_keys([&](std::pair<std::string, cmdr::vars::store::node_pointer> const &v) {
      if (v.first.rfind("app.cli.", 0) != 0) {
        std::ostringstream os;
        os << cli.store().get_raw(v.first);
        m[v.first] = os.str();
      }
    });
    return m;
  }
  bool truth(std::string const &s) { return s == "true" || s == "yes" || s == "on"; }
}
SCENARIO(configs, 1) {
  ap::clean_env();
  sim::io::enable(true);
  static char const *const calls[] = {"open", "fopen", "read", "readv", "read-EINTR", "read-short", "fstat", "stat", "lseek", "fclose", "close", "mkdir", "write"};
  for (auto c: calls) sim::io::set_fault_rate(c, 0);
  sim::opt().alloc_permille = 0;
  ap::Model m;
  m.generate(2, false);
  for (auto *f: m.flags) f->required = false;
  auto &cli = ap::make();
  ap::Invocation got;
  int invoked = 0;
  auto act = [&](ap::Cmd &s, cmdr::opt::cmd const &c, ::string_array const &a) -> int {
    sim::Quiet q;
    ap::snapshot(cli, m, s, c, a, got);
    invoked++;
    return 0;
  };
  ap::build_into(cli, m.root, act);
  cli.set_global_on_command_not_hooked([&](cmdr::opt::cmd const &c, ::string_array const &a) -> int {
    for (auto *k: m.all)
      if (k->key == c.dotted_key()) return act(*k, c, a);
    return -7;
  });
  cli.set_global_on_loading_externals(cmdr::addons::loaders::yaml_loader{}());
  std::vector<std::string> const places = {"/etc/simapp/simapp.yml", "/opt/homebrew/etc/simapp/simapp.yml", "/usr/local/etc/simapp/simapp.yml", "/home/u/.config/simapp/simapp.yml", "/home/u/.simapp/simapp.yml", "/work/simapp.yml", "/work/.simapp.yml"};
  int const runs = 1 + (int) sim::choose(4, "runs");
  bool ever_loaded = false;
  std::set<std::string> ever;
  for (int r = 0; r < runs; r++) {
    // ---- the files of this run
    std::vector<File> files;
    unsetenv("CONFIG_FILE");
    std::string line_config;
    auto prepare = [&](std::string const &path, int permille) {
      File f;
      f.path = path;
      if (sim::io::host_exists(path.c_str())) sim::io::host_unlink(path.c_str());
      if (!sim::chance((unsigned) permille, "present")) {
        files.push_back(f);
        return;
      }
      Doc d;
      d.kind = Doc::Map;
      int serial = 0;
      std::string const tag = "f" + std::to_string(files.size());
      d = gen_map(0, tag, serial);
      std::map<std::string, Val> want_vals;
      for (auto *o: m.flags)
        if (o->toggle.empty() && sim::chance(250, "option")) {
          Doc &x = at(d, o->key);
          x.kind = Doc::Scalar;
          if (o->t == ap::Bool) {
            static char const *const b[] = {"true", "yes", "on", "false", "no", "off"};
            x.scalar = b[sim::choose(6, "bool")];
            x.plain = true;
          } else x.scalar = ap::gen_value(o->t);
        }
      if (sim::chance(200, "shared")) at(d, "shared.x").scalar = "from " + tag;
      render(d, 0, f.text);
      if (f.text.empty()) f.text = "# nothing here\n";
      f.present = true;
      f.good = parse(f.text, f.vals);
      if (!f.good) sim::fail("harness", "a generated document does not parse: %s", f.text.c_str());
      switch (sim::choose(10, "damage")) {
        case 0: {
          static char const *const bad[] = {"\nzz: [1, 2\n", "\nzz: \"never closed\n", "\nzz: b: c\n", "\nzz: *nobody\n", "\n  - x\n zz: 1\n", "\nzz: {a: 1\n"};
          f.text += bad[sim::choose(6, "how")];
          break;
        }
        case 1: f.text.resize(sim::choose((unsigned) f.text.size() + 1, "cut")); break;
        case 2:
          for (int n = 1 + (int) sim::choose(4, "bytes"); n > 0; n--) {
            static char const junk[] = "\"'[]{}:-\t*&%@`\x01\xff,!|>";
            f.text[sim::choose((unsigned) f.text.size(), "where")] = junk[sim::choose(sizeof junk - 1, "junk")];
          }
          break;
        default: f.certain = true; break;
      }
      if (!f.certain) {
        f.vals.clear();
        f.good = parse(f.text, f.vals);
        // a damaged document can name other keys and types: only whether it loads is judged
      }
      sim::io::host_mkdir(path.substr(0, path.rfind('/')).c_str());
      sim::io::host_write(path.c_str(), f.text.data(), (long) f.text.size());
      sim::event("%s %s %zu bytes", path.c_str(), f.good ? "good" : "bad", f.text.size());
      files.push_back(f);
    };
    unsigned const by_env = sim::choose(4, "CONFIG_FILE");
    if (by_env == 1) {
      setenv("CONFIG_FILE", "/cfg/main.yml", 1);
      prepare("/cfg/main.yml", 800);
    } else if (by_env == 2) {
      sim::io::host_mkdir("/cfg/d");
      setenv("CONFIG_FILE", "/cfg/d", 1);
      prepare("/cfg/d/simapp.yml", 1000);
    }
    for (auto &p: places) prepare(p, 250);
    ap::Line L = ap::gen_line(m, false, 2, true);
    L.given.clear();
    {  // the command only: options come from the files
      L.argv.clear();
      std::vector<std::string> rev;
      for (ap::Cmd *c = L.at; c && c->parent; c = c->parent) rev.push_back(c->l);
      L.argv.assign(rev.rbegin(), rev.rend());
    }
    bool const on_line = sim::chance(200, "--config");
    if (on_line) {
      line_config = "/cfg/line.yml";
      L.argv.insert(L.argv.begin(), "--config=/cfg/line.yml");
      prepare(line_config, 800);
    }
    // ---- run
    bool const faults = sim::chance(400, "faults");
    if (faults) {
      sim::io::set_fault_rate("open", (int) sim::choose(200, "rate"));
      sim::io::set_fault_rate("fopen", (int) sim::choose(200, "rate"));
      sim::io::set_fault_rate("read", (int) sim::choose(200, "rate"));
    }
    sim::io::set_fault_rate("read-EINTR", sim::chance(300, "eintr") ? 300 : 0);
    sim::io::set_fault_rate("read-short", sim::chance(300, "short") ? 500 : 0);
    std::map<std::string, std::string> before;
    std::vector<std::string> files_before;
    {
      sim::Quiet q;
      before = dump(cli);
    }
    unsigned const f0 = sim::io::faults_injected();
    int const fds0 = sim::io::open_fds();
    invoked = 0;
    ap::Capture cap;
    int const rc = ap::run(cli, L.argv);
    unsigned const inj = sim::io::faults_injected() - f0;
    for (auto c: calls) sim::io::set_fault_rate(c, 0);
    sim::Quiet q;
    std::string const line = ap::line(L.argv);
    sim::event("run %d '%s' -> %d, invoked %d, %u faults", r, line.c_str(), rc, invoked, inj);
    SIM_CHECK(sim::io::open_fds() == fds0, "leak", "%d descriptors stay open after the run", sim::io::open_fds() - fds0);
    // the missing ones count as given here
    File const *bad = nullptr;
    int present = 0;
    for (auto &f: files) {
      if (!f.present) continue;
      present++;
      if (!f.good && !bad) bad = &f;
    }
    auto loaded_flag = [&] { return cli.has("config.file.loaded") && cli.get("config.file.loaded").type() == typeid(bool) && cli.get("config.file.loaded").as<bool>(); };
    std::multiset<std::string> now;
    if (cli.has("config.file.files") && cli.get("config.file.files").type() == typeid(std::vector<std::string>))
      for (auto &s: cli.get("config.file.files").as<std::vector<std::string>>()) now.insert(s[0] == '/' ? s : "/work/" + (s.rfind("./", 0) == 0 ? s.substr(2) : s));
    auto listed = [&](std::string const &p) { return now.count(p) != 0; };
    if (bad || (inj && rc != 0)) {
      SIM_CHECK(rc == -1, "bad-accepted", "run returned %d although %s cannot be parsed:\n%s", rc, bad ? bad->path.c_str() : "?", bad ? bad->text.c_str() : "");
      SIM_CHECK(invoked == 0, "invoked", "the command was invoked although %s", bad ? (bad->path + " cannot be parsed").c_str() : "the run failed");
      if (bad && !ever.count(bad->path)) SIM_CHECK(!listed(bad->path), "listed", "%s is listed as loaded, but cannot be parsed", bad->path.c_str());
      if (!ever_loaded) {
        bool any_good_before = false;
        for (auto &f: files) {
          if (&f == bad) break;
          any_good_before |= f.present && f.good;
        }
        if (!any_good_before) SIM_CHECK(!loaded_flag(), "loaded-flag", "config.file.loaded is set, but no file could be loaded");
      }
      for (auto &s: now) ever.insert(s);
      if (loaded_flag()) ever_loaded = true;
      sim::cover(bad ? "bad-file" : "io-fault-reported");
      sim::nontrivial();
      continue;
    }
    SIM_CHECK(rc == 0 && invoked == 1, "false-failure", "run returned %d and invoked %d commands, every file is good, %u faults: %s", rc, invoked, inj, cap.err.str().c_str());
    if (inj) sim::cover("fault-survived");
    std::map<std::string, std::vector<Val>> want;
    bool uncertain = false;
    for (auto &f: files) {
      if (!f.present) continue;
      uncertain |= !f.certain;
      SIM_CHECK(listed(f.path), "not-listed", "%s is not among config.file.files after it was loaded", f.path.c_str());
      for (auto &[k, v]: f.vals) want[k].push_back(v);
    }
    if (present) SIM_CHECK(loaded_flag(), "loaded-flag", "config.file.loaded is not set after %d files", present);
    else {
      auto const after = dump(cli);
      for (auto &[k, v]: after) {
        auto it = before.find(k);
        SIM_CHECK(it != before.end() && it->second == v, "changed", "without any config file %s changed from %s to %s", k.c_str(), it == before.end() ? "<absent>" : it->second.c_str(), v.c_str());
      }
      SIM_CHECK(after.size() == before.size(), "changed", "without any config file %zu keys went away", before.size() - after.size());
      if (!ever_loaded) SIM_CHECK(!loaded_flag(), "loaded-flag", "config.file.loaded is set without any file");
      sim::cover("no-file");
    }
    ever_loaded |= loaded_flag();
    for (auto &s: now) ever.insert(s);
    if (uncertain) {
      sim::cover("damaged-but-readable");
      continue;
    }
    for (auto &[k, vs]: want) {
      ap::Flag *o = nullptr;
      for (auto *x: m.flags)
        if (x->key == k) o = x;
      SIM_CHECK(cli.store().has("", k.c_str()), "missing", "%s of the config file is not in the store", k.c_str());
      variable const &x = cli.store().get_raw(k);
      bool ok = false;
      for (auto &v: vs) {
        if (o) ok |= ap::canon(x, o->t) == (o->t == ap::Bool ? (truth(v.text) ? "true" : "false") : ap::canon_text(v.text, o->t));
        else ok |= same(x, v);
      }
      SIM_CHECK(ok, "value", "%s is %s (%s), the config file says '%s'", k.c_str(), x.as_string().c_str(), x.type().name(), vs.back().seq ? "a sequence" : vs.back().text.c_str());
      if (o) {
        sim::cover("option-from-file");
        SIM_CHECK(got.values[k] == ap::canon(x, o->t), "value", "the command saw %s = '%s'", k.c_str(), got.values[k].c_str());
      }
    }
    if (present) sim::nontrivial();
    if (on_line && files.back().present) sim::cover("--config");
  }
}
