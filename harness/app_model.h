// a generated command tree, the real app built from it, and what a command line has to mean
#pragma once
#include "app_common.h"
#include <deque>
#include <set>
#include <sstream>
#include <complex>
#include <cstdint>
namespace ap {
  enum Type { Bool, Int, Long, Dbl, Str, NTypes, I8 = NTypes, U8, I16, U16, U32, U64, Flt, VInt, VStr, Cplx, NAllTypes };
  struct Cmd;
  struct Flag {
    std::string l, s;
    Strings aliases;
    Type t = Bool;
    std::string def, def_text;  // canonical text of the value, and a text of it that can be read
    std::string env, toggle;
    bool required = false, hidden = false, hook = false;
    std::string desc = "a flag", group;
    Cmd *owner = nullptr;
    std::string key;
  };
  struct Cmd {
    std::string l, s;
    Strings aliases;
    Cmd *parent = nullptr;
    std::deque<Cmd> subs;
    std::deque<Flag> flags;
    bool action = true, hidden = false, hook = false;
    std::string desc = "a command", group;
    std::string key;
  };
  using Complex = std::complex<double>;
  using Ints = std::vector<int>;
  inline std::string text(Ints const &v) {
    std::ostringstream os;
    for (auto i: v) os << (os.tellp() > 0 ? "," : "") << i;
    return "[" + os.str() + "]";
  }
  inline std::string text(Strings const &v) {
    std::string s;
    for (auto &i: v) s += "<" + i + ">";
    return s;
  }
  inline std::string text(Complex c) {
    std::ostringstream os;
    os << c.real() << "," << c.imag() << "i";
    return os.str();
  }
  inline std::string text(std::string const &s) { return s; }
  inline std::string text(bool b) { return b ? "true" : "false"; }
  template<class T, std::enable_if_t<std::is_arithmetic_v<T> && !std::is_same_v<T, bool>, int> = 0>
  inline std::string text(T x) {
    std::ostringstream os;
    os << +x;
    return os.str();
  }
  // what a text means as a value of each type, read here without the code under test
  inline Strings items(std::string s) {
    if (!s.empty() && s[0] == '[') s = s.substr(1, s.size() - 2);
    Strings v;
    if (s.empty()) return v;
    for (size_t at = 0;;) {
      auto const to = s.find(',', at);
      v.push_back(s.substr(at, to == s.npos ? to : to - at));
      if (to == s.npos) return v;
      at = to + 1;
    }
  }
  template<class T>
  inline T value_of(std::string const &s) {
    if constexpr (std::is_same_v<T, bool>) return s == "true";
    else if constexpr (std::is_same_v<T, std::string>) return s;
    else if constexpr (std::is_same_v<T, Strings>) return items(s);
    else if constexpr (std::is_same_v<T, Ints>) {
      Ints v;
      for (auto &i: items(s)) v.push_back(std::stoi(i));
      return v;
    } else if constexpr (std::is_same_v<T, Complex>) {
      size_t n = 0;
      double const a = std::stod(s, &n);
      if (n == s.size()) return {a, 0};
      if (s[n] == 'i') return {0, a};
      return {a, std::stod(s.substr(n))};
    } else if constexpr (std::is_floating_point_v<T>) return (T) std::stod(s);
    else if constexpr (std::is_unsigned_v<T>) return (T) std::stoull(s);
    else return (T) std::stoll(s);
  }
  template<class F>
  inline auto with_type(Type t, F &&f) {
    switch (t) {
      case Bool: return f((bool *) nullptr);
      case Int: return f((int *) nullptr);
      case Long: return f((long *) nullptr);
      case Dbl: return f((double *) nullptr);
      case I8: return f((int8_t *) nullptr);
      case U8: return f((uint8_t *) nullptr);
      case I16: return f((int16_t *) nullptr);
      case U16: return f((uint16_t *) nullptr);
      case U32: return f((uint32_t *) nullptr);
      case U64: return f((uint64_t *) nullptr);
      case Flt: return f((float *) nullptr);
      case VInt: return f((Ints *) nullptr);
      case VStr: return f((Strings *) nullptr);
      case Cplx: return f((Complex *) nullptr);
      default: return f((std::string *) nullptr);
    }
  }
  inline std::string canon(cmdr::vars::variable const &v, Type t) {
    return with_type(t, [&](auto *p) -> std::string {
      using T = std::decay_t<decltype(*p)>;
      if (v.type() != typeid(T)) return "<no longer of its type>";
      return text(v.as<T>());
    });
  }
  inline std::string canon_text(std::string const &s, Type t) {
    return with_type(t, [&](auto *p) -> std::string { return text(value_of<std::decay_t<decltype(*p)>>(s)); });
  }
  inline bool is_int(Type t) { return t == Int || t == Long || (t >= I8 && t <= U64); }
  inline std::string gen_value(Type t) {
    static char const *const strs[] = {"abc", "two words", "k=v", "x", "tab\tinside", "trailing-", "a,b;c", "UPPER_lower.9", "0", "true", "comma, and  blanks", "--dashed", "=eq", "\xc3\xa9t\xc3\xa9"};
    static char const *const dbls[] = {"0.5", "-2.25", "1000", "3.14159", "-0.001", "1e10"};
    static char const *const cplx[] = {"3+4i", "-0.5-2i", "7", "0.25i", "-3i", "1e3+2e-1i"};
    static char const *const words[] = {"a", "b c", "x=y", "-z", "9", "long-word"};
    auto edge = [](long lo, long hi) -> std::string {
      switch (sim::choose(6, "class")) {
        case 0: return std::to_string(lo);
        case 1: return std::to_string(hi);
        default: return std::to_string(lo + (long) sim::choose((unsigned) (hi - lo), "n"));
      }
    };
    switch (t) {
      case Bool: return sim::choose(2, "bool") ? "true" : "false";
      case Int: return std::to_string((int) sim::choose(5, "class") ? (int) sim::choose(2000, "int") - 1000 : (int) (sim::choose(1u << 31, "int")));
      case Long: return sim::choose(5, "class") ? std::to_string((long) sim::choose(2000, "int") - 1000) : std::to_string((long) sim::choose(1u << 31, "hi") << 31);
      case I8: return edge(-128, 127);
      case U8: return edge(0, 255);
      case I16: return edge(-32768, 32767);
      case U16: return edge(0, 65535);
      case U32: return edge(0, 4294967295l);
      case U64: return sim::choose(5, "class") ? std::to_string(sim::choose(100000, "n")) : "18446744073709551615";
      case Dbl: case Flt: return dbls[sim::choose(6, "dbl")];
      case Cplx: return cplx[sim::choose(6, "cplx")];
      case VInt: case VStr: {
        unsigned const n = sim::choose(4, "items");
        std::string s;
        for (unsigned i = 0; i < n; i++) s += (i ? "," : "") + (t == VInt ? std::to_string((int) sim::choose(200, "int") - 100) : std::string(words[sim::choose(6, "word")]));
        return n == 0 || sim::chance(600, "brackets") ? "[" + s + "]" : s;
      }
      default: return strs[sim::choose(14, "str")];
    }
  }
  // a text that is no value of that type; empty if there is none
  inline std::string gen_bad(Type t) {
    static char const *const nan[] = {"abc", "x1", "twelve", ".", "+"};
    auto any = [&](std::initializer_list<char const *> more) -> std::string {
      unsigned const k = sim::choose(5 + (unsigned) more.size(), "bad");
      return k < 5 ? nan[k] : more.begin()[k - 5];
    };
    switch (t) {
      case Int: return any({"99999999999", "-2147483649", "2147483648"});
      case Long: return any({"9223372036854775808", "99999999999999999999"});
      case I8: return any({"128", "-129", "99999999999"});
      case U8: return any({"256", "-1", "1000"});
      case I16: return any({"32768", "-32769"});
      case U16: return any({"65536", "99999999999"});
      case U32: return any({"4294967296"});
      case U64: return any({"18446744073709551616"});
      case Dbl: case Flt: return any({"1e999", "e5"});
      case VInt: return any({"[1,x,3]", "[1,,2]", "[99999999999]", "1,2,three"});
      case Cplx: return any({"(1)"});
      default: return "";
    }
  }
  struct Model;
  struct Model {
    Cmd root;
    std::deque<Cmd *> all;    // without root
    std::vector<Flag *> flags;
    unsigned names = 0, shorts = 0, tog = 0;
    std::set<std::string> taken;
    bool shadowing = false;
    bool more_types = false;  // and values that are none of their type, and values inside combined short flags
    bool hooks = false;       // some commands and flags have on_hit() hooks
    bool tolerant = false;    // unknown parts are skipped
    static std::string fresh(unsigned i, char const *const *w, unsigned n) { return std::string(w[i % n]) + (i >= n ? std::to_string(i / n) : ""); }
    std::string cname() {
      static char const *const w[] = {"server", "start", "status", "list", "config", "build", "move", "run-all", "kv", "import"};
      return fresh(names++, w, 10);
    }
    std::string fname() {
      static char const *const w[] = {"port", "log", "log-file", "count", "ratio", "name", "in", "interval", "mode", "on", "once", "foreground", "size", "si"};
      std::string f = w[sim::choose(14, "name")];
      while (!taken.insert(f).second) f += std::to_string(names++ % 10);  // some are the beginning of others
      return f;
    }
    std::string sname() {  // single characters no built-in short name starts with
      static char const pool[] = "ABCEFGIJKLMNOPRSTUWXYabcdefgijklmopruwxy0123456789";
      if (shorts >= sizeof pool - 1) return "";
      return std::string(1, pool[shorts++]);
    }
    void gen_flags(Cmd &c, unsigned max, bool with_env) {
      unsigned const n = sim::choose(max + 1, "flags");
      for (unsigned i = 0; i < n; i++) {
        Flag f;
        f.t = (Type) sim::choose(more_types ? NAllTypes : NTypes, "type");
        f.l = fname();
        if (shadowing && c.parent && sim::chance(250, "shadows")) {  // the name of a flag of a command above
          Cmd *up = c.parent;
          while (up->parent && sim::choose(2, "higher")) up = up->parent;
          if (!up->flags.empty()) f.l = up->flags[sim::choose((unsigned) up->flags.size(), "which")].l;
          for (auto &o: c.flags)
            if (o.l == f.l) f.l = fname();
        }
        if (sim::chance(800, "short")) f.s = sname();
        if (sim::chance(300, "alias")) f.aliases.push_back("al-" + f.l);
        f.def = f.t == Bool ? (sim::chance(250, "true") ? "true" : "false") : gen_value(f.t);
        if (f.t == Str && f.def[0] == '-') f.def = "dflt";
        if (with_env && sim::chance(500, "env")) f.env = "SIMV_" + std::to_string(names++);
        if (hooks) f.hook = sim::chance(300, "hook");
        if (f.t != Bool || f.def == "false") f.required = sim::chance(80, "required");
        c.flags.push_back(f);
      }
      if (sim::chance(250, "toggle")) {
        unsigned const m = 2 + sim::choose(2, "n"), dflt = sim::choose(m + 1, "default");
        std::string const g = "group" + std::to_string(tog++);
        for (unsigned i = 0; i < m; i++) {
          Flag f;
          f.l = fname();
          if (sim::chance(500, "short")) f.s = sname();
          f.def = i == dflt ? "true" : "false";
          f.toggle = g;
          c.flags.push_back(f);
        }
      }
    }
    void gen_cmds(Cmd &c, int depth, unsigned maxflags, bool with_env) {
      unsigned const n = (depth == 0 ? 1 : 0) + sim::choose(depth == 0 ? 3 : depth == 1 ? 4 : 2, "subs");
      for (unsigned i = 0; i < n; i++) {
        c.subs.emplace_back();
        Cmd &s = c.subs.back();
        s.parent = &c;
        s.l = cname();
        if (sim::chance(700, "short")) s.s = s.l.substr(0, 2) + "x" + std::to_string(names++);
        if (sim::chance(400, "alias")) s.aliases.push_back(s.l + "-alias");
        if (sim::chance(150, "alias")) s.aliases.push_back("z" + s.l);
        if (hooks) s.hook = sim::chance(300, "hook");
        s.action = !sim::chance(150, "no-action");
        gen_flags(s, maxflags, with_env);
        if (depth < 3) gen_cmds(s, depth + 1, maxflags, with_env);
      }
    }
    void index(Cmd &c) {
      c.key = c.parent ? c.parent->key + "." + c.l : "app.cli";
      if (c.parent) all.push_back(&c);
      for (auto &f: c.flags) {
        f.owner = &c;
        f.key = c.key + "." + f.l;
        f.def_text = f.def;
        f.def = canon_text(f.def, f.t);
        flags.push_back(&f);
      }
      for (auto &s: c.subs) index(s);
    }
    void generate(unsigned maxflags = 3, bool with_env = false) {
      gen_flags(root, maxflags, with_env);
      gen_cmds(root, 0, maxflags, with_env);
      index(root);
    }
  };
  struct Given {
    Flag *f;
    std::string value;      // in canonical form
    std::string title;      // as it was named
    bool lng = true, special = false;
  };
  // a command or flag as it is found while a line is read
  struct Step {
    Cmd *cmd;               // the last command so far
    Flag *flag;             // or nullptr
    std::string value;
    size_t next;            // the first word behind it
  };
  struct Line {
    Strings argv;
    Cmd *at = nullptr;          // the last command named
    std::vector<Given> given;   // in order
    std::set<Flag *> refused;   // those given a value that is none
    std::vector<Step> steps;
    Strings cmd_titles;         // as the commands were named
    bool more = false, tolerant = false;
    Strings rest;
    enum Kind { Invoke, Usage, Unknown, Missing, Internal } kind = Invoke;
  };
  struct Invocation {
    Cmd *cmd = nullptr;
    Strings rest;
    std::map<std::string, std::string> values, toggles, hits;
    std::string prog;
  };
  // ---- the real app ------------------------------------------------------------------------------
  // called by on_hit(); true: go on
  using Hit = std::function<cmdr::opt::Action(Cmd *, Flag *, cmdr::opt::cmd const &, cmdr::opt::arg const *, ::string_array const &)>;
  inline Hit &hit_hook() {
    static Hit h;
    return h;
  }
  using Act = std::function<int(Cmd &, cmdr::opt::cmd const &, ::string_array const &)>;
  template<class A>
  inline auto with_titles(A &&o, std::string const &l, std::string const &s, Strings const &al) -> A && {
    switch (al.size()) {
      case 0: o(l.c_str(), s.empty() ? nullptr : s.c_str()); break;
      case 1: o(l.c_str(), s.empty() ? nullptr : s.c_str(), al[0].c_str()); break;
      case 2: o(l.c_str(), s.empty() ? nullptr : s.c_str(), al[0].c_str(), al[1].c_str()); break;
      default: o(l.c_str(), s.empty() ? nullptr : s.c_str(), al[0].c_str(), al[1].c_str(), al[2].c_str()); break;
    }
    return std::forward<A>(o);
  }
  template<class T>
  inline void add_flag_t(cmdr::opt::cmd &c, Flag &f, T dv) {
    cmdr::opt::opt o{std::move(dv)};
    with_titles(o, f.l, f.s, f.aliases);
    o.description(f.desc.c_str());
    if (f.hidden) o.hidden();
    if (!f.group.empty()) o.group(f.group.c_str());
    if (!f.env.empty()) o.env_vars(f.env.c_str());
    if (f.required) o.required();
    if (!f.toggle.empty()) o.toggle_group(f.toggle.c_str());
    if (f.hook) o.on_hit([&f](cmdr::opt::cmd const &c, cmdr::opt::arg const &a, ::string_array const &rest) { return hit_hook()(f.owner, &f, c, &a, rest); });
    c += o;
  }
  inline cmdr::vars::variable var_of(Type t, std::string const &s) {
    return with_type(t, [&](auto *p) { return cmdr::vars::variable{value_of<std::decay_t<decltype(*p)>>(s)}; });
  }
  inline void add_flag(cmdr::opt::cmd &c, Flag &f) {
    with_type(f.t, [&](auto *p) { add_flag_t(c, f, value_of<std::decay_t<decltype(*p)>>(f.def_text.empty() ? f.def : f.def_text)); });
  }
  inline void build_into(cmdr::opt::cmd &c, Cmd &m, Act const &act) {
    for (auto &f: m.flags) add_flag(c, f);
    for (auto &s: m.subs) {
      cmdr::opt::sub_cmd sc;
      with_titles(sc, s.l, s.s, s.aliases);
      sc.description(s.desc.c_str());
      if (s.hidden) sc.hidden();
      if (!s.group.empty()) sc.group(s.group.c_str());
      if (s.hook) sc.on_hit([&s](cmdr::opt::cmd const &c, ::string_array const &rest) { return hit_hook()(&s, nullptr, c, nullptr, rest); });
      if (s.action) sc.on_invoke([act, &s](cmdr::opt::cmd const &c, ::string_array const &a) -> int { return act(s, c, a); });
      c += sc;
      build_into(*c.last_added_command(), s, act);
    }
  }
  inline std::string hits_text(int n, std::string const &title, bool lng, bool special) {
    if (!n) return "not given";
    return title + " x" + std::to_string(n) + (special ? " special" : lng ? " long" : " short");
  }
  inline cmdr::opt::cmd const &real(cmdr::app &cli, Cmd &c) { return c.parent ? const_cast<cmdr::opt::cmd &>(real(cli, *c.parent))(c.l.c_str()) : cli; }
  inline std::string hits_of(cmdr::app &cli, Flag &f) {
    auto &a = const_cast<cmdr::opt::cmd &>(real(cli, *f.owner))[f.l.c_str()];
    SIM_CHECK(a.valid() && a.dotted_key() == f.key, "tree-changed", "flag '%s' is no longer found", f.key.c_str());
    return hits_text(a.hit_count(), a.hit_title(), a.hit_long(), a.hit_special());
  }
  inline void snapshot(cmdr::app &cli, Model &m, Cmd &cm, cmdr::opt::cmd const &hit, ::string_array const &rest, Invocation &v) {
    v.cmd = &cm;
    v.rest.assign(rest.begin(), rest.end());
    for (auto *f: m.flags) v.values[f->key] = canon(cli.store().get_raw(f->key), f->t);
    auto const *c = &hit;
    for (Cmd *k = &cm; k && c; k = k->parent, c = c->owner())
      for (auto &f: k->flags)
        if (!f.toggle.empty()) v.toggles[f.toggle] = c->toggle_group(f.toggle);
    c = &hit;
    for (Cmd *k = &cm; k->parent && c; k = k->parent, c = c->owner()) v.hits[k->key] = c->hit_title() + " x" + std::to_string(c->hit_count());
    for (auto *f: m.flags) v.hits[f->key] = hits_of(cli, *f);
  }
  // ---- command lines -----------------------------------------------------------------------------
  // is it this flag that the title means after command at?
  inline bool means(Cmd *at, std::string const &title, Flag const &f) {
    for (Cmd *c = at; c; c = c->parent)
      for (auto &g: c->flags) {
        bool is = g.l == title;
        for (auto &a: g.aliases) is |= a == title;
        if (is) {
          if (c != at && &g == &f) sim::cover("flag-of-a-parent");
          if (&g != &f) sim::cover("shadowed-flag");
          return &g == &f;
        }
      }
    return false;
  }
  inline void emit_flag(Line &L, Flag &f, Cmd *at) {
    std::string v = gen_value(f.t);
    std::string name;
    bool shrt = false;
    unsigned const w = sim::choose(4, "which-name");
    if (w == 1 && !f.s.empty()) name = "-" + f.s, shrt = true;
    else if (w == 2 && !f.aliases.empty()) name = "--" + f.aliases[sim::choose((unsigned) f.aliases.size(), "alias")];
    else if (w == 3 && f.t == Bool) name = "~~" + f.l;
    else name = "--" + f.l;
    if (!shrt && !means(at, name.substr(2), f)) return;
    Given g{&f, "", name.substr(shrt ? 1 : 2), !shrt, name[0] == '~'};
    if (f.t == Bool) {
      if (!f.toggle.empty()) v = "true";
      if (v == "false") name += "-";
      else if (sim::chance(200, "plus")) name += "+";
      L.argv.push_back(name);
    } else {
      if (L.more && sim::chance(150, "bad-value")) {
        std::string const bad = gen_bad(f.t);
        bool const apart = bad.empty() || (at->subs.empty() && bad[0] != '-' && sim::choose(2, "apart"));
        if (bad.empty()) {
          // anything is a string
        } else if (apart) {  // then it is a word like any other
          L.argv.push_back(name);
          L.argv.push_back(bad);
          L.rest.push_back(bad);
        } else
          L.argv.push_back(name + "=" + bad);
        if (!bad.empty()) {
          L.refused.insert(&f);
          sim::cover("no-value-of-the-type");
          return;
        }
      }
      bool const glue_ok = shrt && is_int(f.t) && v[0] != '-';
      switch (sim::choose(glue_ok ? 3 : 2, "form")) {
        case 0: L.argv.push_back(name + "=" + v); break;
        case 1:
          if (v[0] == '=') v = "noeq";
          L.argv.push_back(name);
          L.argv.push_back(v);
          break;
        default: L.argv.push_back(name + v); break;
      }
    }
    g.value = canon_text(v, f.t);
    L.given.push_back(g);
    L.steps.push_back({at, &f, g.value, L.argv.size()});
  }
  inline void emit_flags(Line &L, Cmd *at, unsigned max) {
    std::vector<Flag *> vis;
    for (Cmd *c = at; c; c = c->parent)
      for (auto &f: c->flags) vis.push_back(&f);
    if (vis.empty()) return;
    unsigned const n = sim::choose(max + 1, "given");
    for (unsigned i = 0; i < n; i++) {
      if (sim::chance(150, "combined")) {
        std::string s = "-";
        auto bools = [&](bool digits) {
          for (auto *f: vis)
            if (f->t == Bool && !f->s.empty() && sim::chance(500, "in")) {
              if (!digits && s.size() == 1) continue;
              if (!digits && isdigit((unsigned char) s.back()) && isdigit((unsigned char) f->s[0])) continue;
              bool const off = L.more && f->toggle.empty() && sim::chance(150, "off");
              s += f->s + (off ? "-" : "");
              L.given.push_back({f, off ? "false" : "true", f->s, false, false});
              L.steps.push_back({at, f, L.given.back().value, L.argv.size() + 1});
            }
        };
        bools(true);
        if (L.more && sim::chance(400, "with-value")) {
          std::vector<Flag *> can;
          for (auto *f: vis)
            if (is_int(f->t) && !f->s.empty()) can.push_back(f);
          if (!can.empty()) {
            Flag &f = *can[sim::choose((unsigned) can.size(), "valued")];
            std::string const v = gen_value(f.t);
            Given const g{&f, canon_text(v, f.t), f.s, false, false};
            s += f.s;
            switch (sim::choose(4, "form")) {
              case 0:
                L.argv.push_back(s);
                L.argv.push_back(v);
                L.given.push_back(g);
                L.steps.push_back({at, &f, g.value, L.argv.size()});
                sim::cover("combined-then-value");
                continue;
              case 1: {
                std::string const bad = gen_bad(f.t);
                L.refused.insert(&f);
                L.argv.push_back(s + "=" + bad);
                sim::cover("combined-bad-value");
                continue;
              }
              case 2: s += "="; break;
              default: break;
            }
            if (v[0] == '-' && s.back() != '=') s += "=";
            s += v;
            L.given.push_back(g);
            L.steps.push_back({at, &f, g.value, L.argv.size() + 1});
            bools(false);
            L.argv.push_back(s);
            sim::cover("combined-with-value");
            continue;
          }
        }
        if (s.size() > 1) {
          L.argv.push_back(s);
          sim::cover("combined-short-flags");
          continue;
        }
      }
      emit_flag(L, *vis[sim::choose((unsigned) vis.size(), "flag")], at);
    }
    if (L.more && !at->subs.empty() && sim::chance(120, "no-value")) {  // what follows is a command or nothing
      Flag &f = *vis[sim::choose((unsigned) vis.size(), "flag")];
      if (gen_bad(f.t).empty() || !means(at, f.l, f)) return;
      L.argv.push_back("--" + f.l);
      L.refused.insert(&f);
      sim::cover("value-missing");
    }
  }
  inline Line gen_line(Model &m, bool broken_ones = true, unsigned maxgiven = 3, bool always_leaf = false) {
    Line L;
    L.at = &m.root;
    L.more = m.more_types;
    L.tolerant = m.tolerant;
    unsigned const brk = broken_ones && sim::chance(250, "broken") ? 1 + sim::choose(3, "how") : 0;
    emit_flags(L, L.at, maxgiven);
    while (!L.at->subs.empty()) {
      if (!always_leaf && sim::chance(80, "stop")) break;
      if (brk == 1 && sim::chance(400, "here")) {
        L.argv.push_back(sim::choose(2, "w") ? "zzz-unknown" : "Server");
        if (!m.tolerant) {
          L.kind = Line::Unknown;
          if (sim::chance(500, "more")) L.argv.push_back("more");
          return L;
        }
        sim::cover("unknown-skipped");
      }
      Cmd &s = L.at->subs[sim::choose((unsigned) L.at->subs.size(), "sub")];
      unsigned const w = sim::choose(3, "name");
      L.argv.push_back(w == 1 && !s.s.empty() ? s.s : w == 2 && !s.aliases.empty() ? s.aliases[sim::choose((unsigned) s.aliases.size(), "a")] : s.l);
      L.cmd_titles.push_back(L.argv.back());
      L.at = &s;
      L.steps.push_back({&s, nullptr, "", L.argv.size()});
      emit_flags(L, L.at, maxgiven);
      if (brk == 2 && sim::chance(400, "here")) {
        L.argv.push_back(sim::choose(2, "w") ? "--zzz-unknown" : "-Z");
        if (!m.tolerant) {
          L.kind = Line::Unknown;
          if (sim::chance(500, "more")) L.argv.push_back("more");
          return L;
        }
        sim::cover("unknown-skipped");
      }
    }
    if (!L.at->subs.empty()) {
      L.kind = Line::Usage;
      return L;
    }
    static char const *const words[] = {"file.txt", "b c", "x", "", "server", "9"};
    unsigned n = sim::choose(4, "args");
    for (unsigned i = 0; i < n; i++) {
      std::string const a = words[sim::choose(6, "arg")];
      if (a.empty()) continue;
      L.argv.push_back(a);
      L.rest.push_back(a);
      if (sim::chance(300, "flag-after-arg")) emit_flags(L, L.at, 1);
    }
    if (sim::chance(200, "dashdash")) {
      L.argv.push_back("--");
      n = sim::choose(4, "args");
      static char const *const raw[] = {"-x", "--port=1", "plain", "--", "~~debug", "start"};
      for (unsigned i = 0; i < n; i++) {
        L.argv.push_back(raw[sim::choose(6, "raw")]);
        L.rest.push_back(L.argv.back());
      }
    } else if (brk == 3) {
      L.argv.push_back(sim::choose(2, "i") ? "--help" : "--version");
      L.kind = Line::Internal;
      return L;
    }
    return L;
  }
  // values expected in the store, given those that hold before the command line is looked at
  inline std::map<std::string, std::string> expected(Model &m, Line const &L, std::map<std::string, std::string> const &base = {}) {
    std::map<std::string, std::string> v;
    for (auto *f: m.flags) {
      auto it = base.find(f->key);
      v[f->key] = it == base.end() ? f->def : it->second;
    }
    for (auto &g: L.given) v[g.f->key] = g.value;
    return v;
  }
  inline std::map<std::string, std::string> expected_toggles(Line const &L) {
    std::map<std::string, std::string> v;
    for (Cmd *k = L.at; k; k = k->parent)
      for (auto &f: k->flags)
        if (!f.toggle.empty() && (!v.count(f.toggle) || f.def == "true")) v[f.toggle] = f.l;
    for (auto &g: L.given)
      if (!g.f->toggle.empty()) v[g.f->toggle] = g.f->l;
    return v;
  }
  // how often and by which name every command and flag was given
  inline std::map<std::string, std::string> expected_hits(Model &m, Line const &L) {
    std::map<std::string, std::string> v;
    for (auto *f: m.flags) {
      int n = 0;
      Given last{f, "", "", false, false};
      for (auto &g: L.given)
        if (g.f == f) n++, last.title = g.title, last.lng |= g.lng, last.special |= g.special;
      if (!n || !L.refused.count(f)) v[f->key] = hits_text(n, last.title, last.lng, last.special);
    }
    size_t i = L.cmd_titles.size();
    for (Cmd *k = L.at; k->parent; k = k->parent) v[k->key] = L.cmd_titles[--i] + " x1";
    return v;
  }
  inline bool lacks_required(Line const &L, std::map<std::string, bool> const &by_env = {}) {
    for (Cmd *k = L.at; k; k = k->parent)
      for (auto &f: k->flags) {
        if (!f.required) continue;
        bool have = by_env.count(f.key) != 0;
        for (auto &g: L.given) have |= g.f == &f;
        if (!have) return true;
      }
    return false;
  }
} // namespace ap
