#include "c03.hpp"
void part2(vh::Harness &);
void part3(vh::Harness &);
int main(int argc, char **argv) {
  vg::farthest = 1000000000;
  Kokkos::initialize();
  int rc;
  {
    vh::Harness h(argc, argv);
    C03_RANK(1, 400) C03_RANK(2, 500) C03_RANK(3, 400) C03_RANK(4, 300)
    h.section("extreme-int", 120, 600, [](vh::Case &c) { extremeCase<int, 1>(c); extremeCase<int, 2>(c); extremeCase<int, 3>(c); });
    h.section("extreme-unsigned", 60, 300, [](vh::Case &c) { extremeCase<unsigned, 1>(c); extremeCase<unsigned, 2>(c); extremeCase<unsigned, 3>(c); });
    h.section("extreme-long", 60, 300, [](vh::Case &c) { extremeCase<long, 1>(c); extremeCase<long, 2>(c); });
    h.section("extreme-short", 60, 300, [](vh::Case &c) { extremeCase<short, 1>(c); extremeCase<unsigned short, 2>(c); });
    h.section("extreme-char", 60, 300, [](vh::Case &c) { extremeCase<unsigned char, 1>(c); extremeCase<signed char, 1>(c); extremeCase<unsigned char, 3>(c); });
    h.require("extreme:highest", 500); h.require("extreme:lowest", 100);
    part2(h);
    part3(h);
    for (const char *k : {"iterator-preincrement", "iterator-postincrement", "range-for", "forEach-C", "forEach-Fortran", "forEach-Kokkos"}) h.require(std::string("visits:") + k, 10000);
    h.require("inside:true", 1000); h.require("inside:false", 1000); h.require("ranges:empty", 50); h.require("ranges:single", 20);
    rc = h.finish();
  }
  Kokkos::finalize();
  return rc;
}
