// what A07 and A08 share: a model with descriptions, groups and hidden items, and how a listing shows them
#pragma once
#include "app_world.h"
namespace ap {
  // without escape sequences and white space: how it is laid out does not matter
  inline std::string compact(std::string const &s) {
    std::string r;
    for (size_t i = 0; i < s.size(); i++) {
      if (s[i] == '\x1b' && i + 1 < s.size() && s[i + 1] == '[') {
        while (i < s.size() && !(s[i] >= '@' && s[i] <= '~' && s[i] != '[')) i++;
        continue;
      }
      if (!isspace((unsigned char) s[i])) r += s[i];
    }
    return r;
  }
  inline unsigned count(std::string const &in, std::string const &what) {
    unsigned n = 0;
    for (size_t p = 0; (p = in.find(what, p)) != in.npos; p += what.size()) n++;
    return n;
  }
  struct Screens : ap::World {
    unsigned serial = 0;
    std::string describe(char const *kind) {
      std::string d = std::string("<") + kind + std::to_string(serial++) + ">";
      for (unsigned n = sim::choose(12, "words"); n > 0; n--) d += " word" + std::to_string(n);
      return d;
    }
    static std::string group() {
      static char const *const g[] = {"", "", "", "10.Alpha", "10.Beta", "9.Gamma", "Plain", "Other", "1230.Later", "30.a.b"};
      return g[sim::choose(10, "group")];
    }
    void decorate(ap::Cmd &k) {
      for (auto &f: k.flags) {
        f.desc = describe("F");
        if (sim::chance(150, "hidden")) f.hidden = true;
        if (f.toggle.empty() && sim::chance(500, "grouped")) f.group = group();
        if (sim::chance(150, "long-alias")) f.aliases.push_back("an-even-longer-alias-of-" + f.l);
      }
      for (auto &s: k.subs) {
        s.desc = describe("C");
        if (sim::chance(150, "hidden")) s.hidden = true;
        if (sim::chance(500, "grouped")) s.group = group();
        if (sim::chance(100, "long-alias")) s.aliases.push_back("the-other-title-of-" + s.l);
        decorate(s);
      }
    }
    static std::string marker(std::string const &desc) { return desc.substr(0, desc.find('>') + 1); }
    static std::string item(ap::Flag const &f) {
      std::string t = "--" + f.l;
      if (!f.s.empty()) t += ",-" + f.s;
      std::string al;
      for (auto &a: f.aliases) al += (al.empty() ? "--" : ",--") + a;
      if (!al.empty()) t += "," + al;
      t += f.desc;
      if (!f.env.empty()) t += " (ENV: " + f.env + ")";
      return compact(t);
    }
    static std::string item(ap::Cmd const &s) {
      std::string t = s.l;
      if (!s.s.empty()) t += "," + s.s;
      std::string al;
      for (auto &a: s.aliases) al += (al.empty() ? "" : ",") + a;
      if (!al.empty()) t += "," + al;
      return compact(t + s.desc);
    }
  };
} // namespace ap
