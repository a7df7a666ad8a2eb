#include "c01.hpp"
void addF(vh::Harness &h) {
  using namespace schnek;
  h.section("fortran-1", 160, 3000, [](vh::Case &c) { runAccess<double, 1, GridNoArgCheck, SingleArrayGridStorageFortran, FOrder>(c); });
  h.section("fortran-2", 260, 6000, [](vh::Case &c) { runAccess<double, 2, GridNoArgCheck, SingleArrayGridStorageFortran, FOrder>(c); });
  h.section("fortran-3", 260, 6000, [](vh::Case &c) { runAccess<double, 3, GridNoArgCheck, SingleArrayGridStorageFortran, FOrder>(c); });
  h.section("fortran-4", 100, 2000, [](vh::Case &c) { runAccess<double, 4, GridNoArgCheck, SingleArrayGridStorageFortran, FOrder>(c); });
  h.section("fortran-5", 80, 1500, [](vh::Case &c) { runAccess<int, 5, GridNoArgCheck, SingleArrayGridStorageFortran, FOrder>(c); });
  h.section("fortran-6", 80, 1500, [](vh::Case &c) { runAccess<double, 6, GridNoArgCheck, SingleArrayGridStorageFortran, FOrder>(c); });
  h.section("fortran-7", 60, 1000, [](vh::Case &c) { runAccess<int, 7, GridNoArgCheck, SingleArrayGridStorageFortran, FOrder>(c); });
  h.section("fortran-8", 60, 1000, [](vh::Case &c) { runAccess<double, 8, GridNoArgCheck, SingleArrayGridStorageFortran, FOrder>(c); });
  h.section("fortran-9", 60, 1000, [](vh::Case &c) { runAccess<int, 9, GridNoArgCheck, SingleArrayGridStorageFortran, FOrder>(c); });
  h.section("fortran-10", 60, 1000, [](vh::Case &c) { runAccess<double, 10, GridNoArgCheck, SingleArrayGridStorageFortran, FOrder>(c); });
  h.section("fortran-assert-2", 60, 1500, [](vh::Case &c) { runAccess<float, 2, GridAssertCheck, SingleArrayGridStorageFortran, FOrder>(c); });
  h.section("fortran-debug-3", 60, 1500, [](vh::Case &c) { runAccess<float, 3, GridDebugCheck, SingleArrayGridStorageFortran, FOrder>(c); });
  h.section("fortran-string-2", 60, 1500, [](vh::Case &c) { runAccess<std::string, 2, GridNoArgCheck, SingleArrayGridStorageFortran, FOrder>(c); });
  h.section("fortran-big-3", 60, 1500, [](vh::Case &c) { runAccess<Big, 3, GridNoArgCheck, SingleArrayGridStorageFortran, FOrder>(c); });
}
