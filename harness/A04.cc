// A04: a command line selects its command, flags and arguments regardless of history.
#include "app_world.h"
SCENARIO(histories, 5) {
  ap::World w;
  w.wide = true;
  w.start();
  sim::opt().alloc_permille = 0;
  std::vector<ap::Line> seen;
  int const n = 2 + (int) sim::choose(8, "runs");
  for (int i = 0; i < n; i++) {
    if (sim::chance(150, "spoil")) {
      ap::Line L = !seen.empty() && sim::chance(500, "again") ? seen[sim::choose((unsigned) seen.size(), "which")] : ap::gen_line(w.m);
      w.spoiled_run(L);
      continue;
    }
    bool const again = !seen.empty() && sim::chance(300, "again");
    ap::Line L = again ? seen[sim::choose((unsigned) seen.size(), "which")] : ap::gen_line(w.m);
    w.run_and_check(L);
    if (!again) seen.push_back(L);
    else sim::cover("same-line-again");
  }
  sim::Quiet q;
  w.check_tree(*w.cli, w.m.root);
}
