#include "c24.hpp"
int main(int argc, char **argv) {
  Kokkos::initialize(argc, argv);
  int rc;
  {
    vh::Harness h(argc, argv);
    addA(h); addB(h);
    h.require("distinct-writes", 400);
    h.require("windows", 100);
    h.require("read-only", 400);
    h.require("own-objects", 200);
    h.require("thread-switches", 200);
    h.require("interleavings", 20);
    rc = h.finish();
  }
  Kokkos::finalize();
  return rc;
}
