#include "c06.hpp"
void part2(vh::Harness &);
int main(int argc, char **argv) {
  Kokkos::initialize();
  int rc;
  {
    vh::Harness h(argc, argv);
    h.section("boundary-1", 300, 6000, boundaryCase<1, ArrayNoArgCheck>);
    h.section("boundary-2", 300, 6000, boundaryCase<2, ArrayNoArgCheck>);
    h.section("boundary-3", 300, 4000, boundaryCase<3, ArrayNoArgCheck>);
    h.section("boundary-3a", 100, 1000, boundaryCase<3, ArrayAssertArgCheck>);
    h.section("boundary-4", 100, 1500, boundaryCase<4, ArrayNoArgCheck>);
    part2(h);
    h.require("ghost-subgrids", 200); h.require("ghost-subfields", 100); h.require("fields-checked", 1000); h.require("exact-fields", 200);
    rc = h.finish();
  }
  Kokkos::finalize();
  return rc;
}
