#include "c05.hpp"
void part3(vh::Harness &h) {
#define SB(T, R, S, C) h.section("subgrid-" #T #R #S #C, 80, 1500, subgrid<T, R, S, C>);
  SB(double, 1, CStore, GridNoArgCheck) SB(double, 2, CStore, GridNoArgCheck) SB(int, 3, CStore, GridNoArgCheck) SB(double, 2, FStore, GridNoArgCheck)
  SB(float, 3, FStore, GridAssertCheck) SB(double, 2, LStore, GridNoArgCheck) SB(double, 4, LStore, GridNoArgCheck) SB(double, 2, KStore, GridNoArgCheck)
  SB(double, 2, CStore, GridAssertCheck) SB(double, 2, CStore, GridDebugCheck) SB(double, 5, CStore, GridNoArgCheck)
}
