#include "c24.hpp"

#define ALL(NAME, T, R, CH, ST, FLAT) \
  h.section("write-" NAME, 160, 6000, distinctElements<T, R, CH, ST, FLAT>); \
  h.section("read-" NAME, 160, 6000, readOnly<T, R, CH, ST, FLAT>);
#define OWN(NAME, T, R, CH, ST) h.section("own-" NAME, 90, 3000, ownObjects<T, R, CH, ST>);
void addB(vh::Harness &h) {
  ALL("fortran", double, 2, GridAssertCheck, SingleArrayGridStorageFortran, true)
  OWN("fortran", double, 2, GridAssertCheck, SingleArrayGridStorageFortran)
  ALL("lazy", int, 2, GridNoArgCheck, LazyArrayGridStorage, true)
  OWN("lazy", int, 2, GridNoArgCheck, LazyArrayGridStorage)
  ALL("text", std::string, 2, GridNoArgCheck, SingleArrayGridStorage, true)
  OWN("text", std::string, 2, GridNoArgCheck, SingleArrayGridStorage)
  ALL("kokkos", double, 3, GridNoArgCheck, KokkosDefaultGridStorage, false)
}
