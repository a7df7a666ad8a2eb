#include "c05.hpp"
void part2(vh::Harness &h) {
#define AR(T1, T2, R, S1, S2) h.section("arith-" #T1 #T2 #R #S1 #S2, 60, 1500, arith<T1, T2, R, S1, S2>);
  AR(double, double, 1, CStore, CStore) AR(double, double, 2, CStore, CStore) AR(int, int, 3, CStore, CStore) AR(float, float, 4, CStore, CStore)
  AR(double, double, 2, FStore, FStore) AR(double, double, 3, FStore, FStore) AR(double, double, 3, LStore, LStore) AR(int, int, 5, CStore, CStore)
  AR(double, double, 2, CStore, FStore) AR(double, int, 2, CStore, CStore) AR(double, float, 3, FStore, CStore) AR(int, int, 1, FStore, LStore)
  AR(double, double, 3, LStore, FStore) AR(double, int, 4, LStore, FStore) AR(double, double, 2, CStore, KStore) AR(double, double, 3, KStore, CStore)
  AR(double, double, 2, KStore, FStore) AR(int, double, 2, CStore, CStore) AR(int, float, 3, FStore, CStore) AR(long, double, 1, LStore, CStore)
}
