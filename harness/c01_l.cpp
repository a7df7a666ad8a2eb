#include "c01.hpp"
void addL(vh::Harness &h) {
  using namespace schnek;
  h.section("lazy-1", 160, 3000, [](vh::Case &c) { runAccess<double, 1, GridNoArgCheck, LazyArrayGridStorage, COrder>(c); });
  h.section("lazy-2", 260, 6000, [](vh::Case &c) { runAccess<double, 2, GridNoArgCheck, LazyArrayGridStorage, COrder>(c); });
  h.section("lazy-3", 260, 6000, [](vh::Case &c) { runAccess<double, 3, GridNoArgCheck, LazyArrayGridStorage, COrder>(c); });
  h.section("lazy-4", 100, 2000, [](vh::Case &c) { runAccess<double, 4, GridNoArgCheck, LazyArrayGridStorage, COrder>(c); });
  h.section("lazy-5", 80, 1500, [](vh::Case &c) { runAccess<int, 5, GridNoArgCheck, LazyArrayGridStorage, COrder>(c); });
  h.section("lazy-6", 80, 1500, [](vh::Case &c) { runAccess<double, 6, GridNoArgCheck, LazyArrayGridStorage, COrder>(c); });
  h.section("lazy-7", 60, 1000, [](vh::Case &c) { runAccess<int, 7, GridNoArgCheck, LazyArrayGridStorage, COrder>(c); });
  h.section("lazy-8", 60, 1000, [](vh::Case &c) { runAccess<double, 8, GridNoArgCheck, LazyArrayGridStorage, COrder>(c); });
  h.section("lazy-9", 60, 1000, [](vh::Case &c) { runAccess<int, 9, GridNoArgCheck, LazyArrayGridStorage, COrder>(c); });
  h.section("lazy-10", 60, 1000, [](vh::Case &c) { runAccess<double, 10, GridNoArgCheck, LazyArrayGridStorage, COrder>(c); });
  h.section("lazy-assert-2", 60, 1500, [](vh::Case &c) { runAccess<float, 2, GridAssertCheck, LazyArrayGridStorage, COrder>(c); });
  h.section("lazy-debug-3", 60, 1500, [](vh::Case &c) { runAccess<float, 3, GridDebugCheck, LazyArrayGridStorage, COrder>(c); });
  h.section("lazy-string-2", 60, 1500, [](vh::Case &c) { runAccess<std::string, 2, GridNoArgCheck, LazyArrayGridStorage, COrder>(c); });
  h.section("lazy-big-3", 60, 1500, [](vh::Case &c) { runAccess<Big, 3, GridNoArgCheck, LazyArrayGridStorage, COrder>(c); });
}
