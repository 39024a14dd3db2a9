#pragma once
#include "cmdr11/cmdr_mmap.hh"
#include "common.h"
#include <cstring>
#include <set>
#include <sys/mman.h>
namespace mm {
  // every byte readable, and equal to want(i)
  template<class F>
  void verify(const char *d, size_t n, F &&want, const char *what) {
    SIM_CHECK(d != nullptr && d != MAP_FAILED, "no-data", "%s is open but data() is null", what);
    for (size_t i = 0; i < n; i++) {
      if (n > 300 && i == 100) i = n - 100;  // both ends; the file's size is checked separately
      char const c = d[i], w = (char) want(i);
      SIM_CHECK(c == w, "wrong-bytes", "%s: byte %zu of %zu is %d, expected %d", what, i, n, c, w);
    }
  }
  inline size_t pick_size() {
    switch (sim::choose(6, "size-class")) {
      case 1: return 1 + sim::choose(4096, "size");
      case 2: return 4096;
      case 3: return 4097 + sim::choose(70000, "size");
      case 4: return 8192 * (1 + sim::choose(8, "pages"));
      default: return 1 + sim::choose(64, "size");
    }
  }
} // namespace mm
