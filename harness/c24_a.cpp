#include "c24.hpp"
#define ALL(NAME, T, R, CH, ST, FLAT) \
  h.section("write-" NAME, 160, 6000, distinctElements<T, R, CH, ST, FLAT>); \
  h.section("read-" NAME, 160, 6000, readOnly<T, R, CH, ST, FLAT>); \
  h.section("own-" NAME, 90, 3000, ownObjects<T, R, CH, ST>);
void addA(vh::Harness &h) {
  ALL("double1", double, 1, GridNoArgCheck, SingleArrayGridStorage, true)
  ALL("double3", double, 3, GridAssertCheck, SingleArrayGridStorage, true)
  ALL("char2", char, 2, GridNoArgCheck, SingleArrayGridStorage, true)
}
