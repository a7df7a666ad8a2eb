#include "c01.hpp"
void addK(vh::Harness &h) {
  using namespace schnek;
  h.section("kokkos-1", 160, 3000, [](vh::Case &c) { runAccess<double, 1, GridNoArgCheck, KokkosDefaultGridStorage, KokkosOrder>(c); });
  h.section("kokkos-2", 260, 6000, [](vh::Case &c) { runAccess<double, 2, GridNoArgCheck, KokkosDefaultGridStorage, KokkosOrder>(c); });
  h.section("kokkos-3", 260, 6000, [](vh::Case &c) { runAccess<double, 3, GridNoArgCheck, KokkosDefaultGridStorage, KokkosOrder>(c); });
  h.section("kokkos-4", 100, 2000, [](vh::Case &c) { runAccess<double, 4, GridNoArgCheck, KokkosDefaultGridStorage, KokkosOrder>(c); });
  h.section("kokkos-5", 80, 1500, [](vh::Case &c) { runAccess<int, 5, GridNoArgCheck, KokkosDefaultGridStorage, KokkosOrder>(c); });
  h.section("kokkos-6", 80, 1500, [](vh::Case &c) { runAccess<double, 6, GridNoArgCheck, KokkosDefaultGridStorage, KokkosOrder>(c); });
  h.section("kokkos-7", 60, 1000, [](vh::Case &c) { runAccess<int, 7, GridNoArgCheck, KokkosDefaultGridStorage, KokkosOrder>(c); });
  h.section("kokkos-8", 60, 1000, [](vh::Case &c) { runAccess<double, 8, GridNoArgCheck, KokkosDefaultGridStorage, KokkosOrder>(c); });
  h.section("kokkos-assert-2", 60, 1500, [](vh::Case &c) { runAccess<int, 2, GridAssertCheck, KokkosDefaultGridStorage, KokkosOrder>(c); });
}
