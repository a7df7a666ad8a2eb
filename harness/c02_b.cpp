#include "c02.hpp"
void addB(vh::Harness &h) {
    using namespace schnek;
    h.section("fortran-1", 200, 6000, [](vh::Case &c) { runHistory<int, 1, GridNoArgCheck, SingleArrayGridStorageFortran, true>(c); });
    h.section("fortran-2", 500, 12000, [](vh::Case &c) { runHistory<double, 2, GridNoArgCheck, SingleArrayGridStorageFortran, true>(c); });
    h.section("fortran-3-tracked", 300, 8000, [](vh::Case &c) { runHistory<Tracked, 3, GridNoArgCheck, SingleArrayGridStorageFortran, true>(c); });
    h.section("lazy-1", 400, 8000, [](vh::Case &c) { runHistory<double, 1, GridNoArgCheck, LazyArrayGridStorage, true>(c); });
    h.section("lazy-2", 600, 16000, [](vh::Case &c) { runHistory<double, 2, GridNoArgCheck, LazyArrayGridStorage, true>(c); });
    h.section("lazy-3-tracked", 300, 8000, [](vh::Case &c) { runHistory<Tracked, 3, GridNoArgCheck, LazyArrayGridStorage, true>(c); });
}
