#include "c01.hpp"
int main(int argc, char **argv) {
  vg::farthest = 1000000000;
  Kokkos::initialize(argc, argv);
  int rc;
  {
    vh::Harness h(argc, argv);
    addC(h); addF(h); addL(h); addK(h);
    for (int i = 0; i <= 7; ++i) h.require("ctor:" + std::to_string(i), 20);
    for (int i = 1; i <= 10; ++i) h.require("rank:" + std::to_string(i), 20);
    h.require("large", 10);
    rc = h.finish();
  }
  Kokkos::finalize();
  return rc;
}
