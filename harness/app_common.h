// helpers for the scenarios that run a whole cmdr::app
#pragma once
#include <cmdr-cxx.hh>
#include "common.h"
#include <cstdlib>
#include <iostream>
#include <map>
#include <sstream>
extern char **environ;
namespace ap {
  using Strings = std::vector<std::string>;
  // everything printed while it lives goes here
  struct Capture {
    std::ostringstream out, err;
    std::streambuf *o, *e;
    Capture() : o(std::cout.rdbuf(out.rdbuf())), e(std::cerr.rdbuf(err.rdbuf())) {}
    ~Capture() {
      std::cout.rdbuf(o);
      std::cerr.rdbuf(e);
      std::cout.clear();
      std::cerr.clear();
    }
  };
  inline void clean_env() {
    sim::Quiet q;
    Strings drop;
    for (char **p = environ; p && *p; p++) {
      std::string const s = *p, k = s.substr(0, s.find('='));
      if (k != "PATH" && k != "HOME" && k.rfind("SIM", 0) != 0) drop.push_back(k);
    }
    for (auto &k: drop) unsetenv(k.c_str());
    setenv("TERM", "dumb", 1);
  }
  inline cmdr::app &make(char const *name = "simapp") {
    return cmdr::cli(name, "1.2.3", "sim", "Copyright", "An app under simulation.", "$ ~ --help");
  }
  // any of what has a default may be left out
  inline cmdr::app &make_any(char const *name = "simapp") {
    auto some = [](char const *t) { return sim::chance(300, "left-out") ? nullptr : t; };
    auto const *a = some("sim"), *c = some("Copyright"), *d = some("An app under simulation."), *e = some("$ ~ --help");
    if (!a || !c || !d || !e) sim::cover("app-without-some-texts");
    return cmdr::cli(name, "1.2.3", a, c, d, e);
  }
  inline std::string line(Strings const &a) {
    std::string s;
    for (auto &x: a) s += (s.empty() ? "" : " ") + (x.find(' ') == x.npos && !x.empty() ? x : "'" + x + "'");
    return s;
  }
  inline int run(cmdr::app &cli, Strings a) {
    std::vector<char *> argv;
    static char name[] = "simapp";
    argv.push_back(name);
    for (auto &s: a) argv.push_back(s.data());
    argv.push_back(nullptr);
    return cli.run((int) a.size() + 1, argv.data());
  }
} // namespace ap
