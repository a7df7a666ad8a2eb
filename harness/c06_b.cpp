#include "c06.hpp"
void part2(vh::Harness &h) {
  h.section("field-1", 300, 6000, fieldCase<double, 1, SingleArrayGridStorage>);
  h.section("field-2", 300, 6000, fieldCase<double, 2, SingleArrayGridStorage>);
  h.section("field-2f", 150, 3000, fieldCase<double, 2, SingleArrayGridStorageFortran>);
  h.section("field-3", 200, 3000, fieldCase<float, 3, SingleArrayGridStorage>);
  h.section("field-3l", 150, 3000, fieldCase<double, 3, LazyArrayGridStorage>);
  h.section("field-2k", 100, 2000, fieldCase<double, 2, KokkosDefaultGridStorage>);
  h.section("exact-1", 100, 2000, exactField<double, 1>); h.section("exact-2", 100, 2000, exactField<double, 2>); h.section("exact-3", 60, 1000, exactField<float, 3>);
  h.section("field-4", 60, 1000, fieldCase<int, 4, SingleArrayGridStorageFortran>);
}
