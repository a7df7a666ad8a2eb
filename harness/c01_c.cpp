#include "c01.hpp"
void addC(vh::Harness &h) {
  using namespace schnek;
  h.section("c-1", 160, 3000, [](vh::Case &c) { runAccess<double, 1, GridNoArgCheck, SingleArrayGridStorage, COrder>(c); });
  h.section("c-2", 260, 6000, [](vh::Case &c) { runAccess<double, 2, GridNoArgCheck, SingleArrayGridStorage, COrder>(c); });
  h.section("c-3", 260, 6000, [](vh::Case &c) { runAccess<double, 3, GridNoArgCheck, SingleArrayGridStorage, COrder>(c); });
  h.section("c-4", 100, 2000, [](vh::Case &c) { runAccess<double, 4, GridNoArgCheck, SingleArrayGridStorage, COrder>(c); });
  h.section("c-5", 80, 1500, [](vh::Case &c) { runAccess<int, 5, GridNoArgCheck, SingleArrayGridStorage, COrder>(c); });
  h.section("c-6", 80, 1500, [](vh::Case &c) { runAccess<double, 6, GridNoArgCheck, SingleArrayGridStorage, COrder>(c); });
  h.section("c-7", 60, 1000, [](vh::Case &c) { runAccess<int, 7, GridNoArgCheck, SingleArrayGridStorage, COrder>(c); });
  h.section("c-8", 60, 1000, [](vh::Case &c) { runAccess<double, 8, GridNoArgCheck, SingleArrayGridStorage, COrder>(c); });
  h.section("c-9", 60, 1000, [](vh::Case &c) { runAccess<int, 9, GridNoArgCheck, SingleArrayGridStorage, COrder>(c); });
  h.section("c-10", 60, 1000, [](vh::Case &c) { runAccess<double, 10, GridNoArgCheck, SingleArrayGridStorage, COrder>(c); });
  h.section("c-assert-2", 60, 1500, [](vh::Case &c) { runAccess<float, 2, GridAssertCheck, SingleArrayGridStorage, COrder>(c); });
  h.section("c-debug-3", 60, 1500, [](vh::Case &c) { runAccess<float, 3, GridDebugCheck, SingleArrayGridStorage, COrder>(c); });
  h.section("c-string-2", 60, 1500, [](vh::Case &c) { runAccess<std::string, 2, GridNoArgCheck, SingleArrayGridStorage, COrder>(c); });
  h.section("c-big-3", 60, 1500, [](vh::Case &c) { runAccess<Big, 3, GridNoArgCheck, SingleArrayGridStorage, COrder>(c); });
}
