#include "c05.hpp"
void part4(vh::Harness &h) {
#define TR(R, S) h.section("transform-" #R #S, 60, 1200, transform<R, S>);
  TR(1, CStore) TR(2, CStore) TR(3, FStore) TR(2, LStore) TR(4, CStore) TR(2, KStore)
  h.section("transform-pair-1", 4, 8, transformPair<1>); h.section("transform-pair-3", 4, 8, transformPair<3>);
#define PO(R, S) h.section("policy-" #R #S, 30, 300, policy<R, S>);
  PO(1, CStore) PO(2, CStore) PO(3, CStore) PO(2, FStore) PO(3, LStore) PO(4, CStore) PO(5, FStore)
#define PW(R, B, W) h.section("window-policy-" #R #B #W, 25, 250, policyWindow<R, B, W>);
  PW(1, GridAssertCheck, GridNoArgCheck) PW(2, GridAssertCheck, GridNoArgCheck) PW(1, GridNoArgCheck, GridAssertCheck) PW(2, GridNoArgCheck, GridAssertCheck) PW(3, GridNoArgCheck, GridAssertCheck)
  PW(2, GridAssertCheck, GridAssertCheck)
}
