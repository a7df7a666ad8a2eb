#include "c02.hpp"
void addK(vh::Harness &h) {
    using namespace schnek;
    h.section("kokkos-1", 300, 6000, [](vh::Case &c) { runHistory<double, 1, GridNoArgCheck, KokkosDefaultGridStorage, false>(c); });
    h.section("kokkos-2", 500, 12000, [](vh::Case &c) { runHistory<int, 2, GridNoArgCheck, KokkosDefaultGridStorage, false>(c); });
    h.section("kokkos-3", 300, 6000, [](vh::Case &c) { runHistory<double, 3, GridNoArgCheck, KokkosDefaultGridStorage, false>(c); });
}
