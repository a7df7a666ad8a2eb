#include "c02.hpp"
long Tracked::live = 0;
long Tracked::bad = 0;
void addB(vh::Harness &h);
void addK(vh::Harness &h);
int main(int argc, char **argv) {
  vg::farthest = 1000000000;
  Kokkos::initialize(argc, argv);
  int rc;
  {
    using namespace schnek;
    vh::Harness h(argc, argv);
    h.section("c-1", 400, 8000, [](vh::Case &c) { runHistory<double, 1, GridNoArgCheck, SingleArrayGridStorage, true>(c); });
    h.section("c-2", 600, 16000, [](vh::Case &c) { runHistory<double, 2, GridNoArgCheck, SingleArrayGridStorage, true>(c); });
    h.section("c-3-tracked", 400, 8000, [](vh::Case &c) { runHistory<Tracked, 3, GridNoArgCheck, SingleArrayGridStorage, true>(c); });
    h.section("c-4-assert", 200, 4000, [](vh::Case &c) { runHistory<int, 4, GridAssertCheck, SingleArrayGridStorage, true>(c); });
    addB(h); addK(h);
    for (const char *k : {"op:copy", "op:self-assign", "op:assign-sharer", "op:assign", "op:resize", "op:resize-shared", "op:destroy", "op:fill"}) h.require(k, 200);
    rc = h.finish();
  }
  Kokkos::finalize();
  return rc;
}
