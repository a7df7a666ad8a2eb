#include "c05.hpp"
void part2(vh::Harness &); void part3(vh::Harness &); void part4(vh::Harness &);
int main(int argc, char **argv) {
  vg::farthest = 1000000000;
  Kokkos::initialize();
  int rc;
  {
    vh::Harness h(argc, argv);
    part2(h); part3(h); part4(h);
    h.require("arith:same-storage", 200); h.require("arith:mixed-storage", 200); h.require("subgrids", 300); h.require("transforms", 100);
    for (const char *k : {"debug-in", "debug-out", "assert-in", "assert-out"}) h.require(std::string("policy:") + k, 10);
    h.require("window-policy:in", 10); h.require("window-policy:out", 10); h.require("window-policy:outside", 5);
    rc = h.finish();
  }
  Kokkos::finalize();
  return rc;
}
