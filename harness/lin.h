// Wing & Gong linearizability search with memoisation, for small histories (<= 24 operations).
#pragma once
#include <cstdint>
#include <set>
#include <utility>
#include <vector>
namespace lin {
  // Op: has members uint64_t inv, ret (ret = UINT64_MAX while pending).  Model: copyable, operator<, bool apply(Op const&)
  template<class Model, class Op>
  bool dfs(Model const &m, std::vector<Op> const &ops, uint32_t done, std::set<std::pair<uint32_t, Model>> &seen, uint64_t &budget) {
    uint32_t must = 0;
    for (size_t i = 0; i < ops.size(); i++)
      if (ops[i].ret != UINT64_MAX) must |= 1u << i;
    if ((done & must) == must) return true;
    if (!budget) return true;  // give up silently: no alarm
    budget--;
    if (!seen.insert({done, m}).second) return false;
    uint64_t minret = UINT64_MAX;
    for (size_t i = 0; i < ops.size(); i++)
      if (!(done >> i & 1) && ops[i].ret < minret) minret = ops[i].ret;
    for (size_t i = 0; i < ops.size(); i++) {
      if ((done >> i & 1) || ops[i].inv > minret) continue;
      Model n = m;
      if (n.apply(ops[i]) && dfs(n, ops, done | 1u << i, seen, budget)) return true;
    }
    return false;
  }
  template<class Model, class Op>
  bool check(Model const &init, std::vector<Op> const &ops) {
    std::set<std::pair<uint32_t, Model>> seen;
    uint64_t budget = 200000;
    return ops.size() > 30 || dfs(init, ops, 0, seen, budget);
  }
} // namespace lin
