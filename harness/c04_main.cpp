#include "c04.hpp"
#include <iomanip>
void cmp(vh::Case &k, const char *key, const char *name, size_t i, long double got, long double want, int precision) {
  ++k.events;
  if (got == want) return;
  long double eps = precision == 0 ? 0 : precision == 1 ? 1e-5L : 1e-12L;
  if (std::fabs(got - want) <= eps * std::max<long double>(1, std::max(std::fabs(got), std::fabs(want)))) return;
  std::ostringstream o;
  o << name << " element " << i << " is " << got << ", expected " << want;
  k.fail(key, o.str());
}
void cmpRel(vh::Case &k, const char *key, const char *name, size_t i, long double got, long double want, int precision) {
  ++k.events;
  if (got == want) return;
  long double eps = precision == 0 ? 0 : precision == 1 ? 1e-5L : 1e-13L;
  if (std::fabs(got - want) <= eps * std::max(std::fabs(got), std::fabs(want))) return;
  std::ostringstream o;
  o << std::setprecision(20) << name << " element " << i << " is " << got << ", expected " << want;
  k.fail(key, o.str());
}
void part2(vh::Harness &); void part3(vh::Harness &); void part4(vh::Harness &);
int main(int argc, char **argv) {
  vh::Harness h(argc, argv);
  part2(h); part3(h); part4(h);
  h.section("ctor-1", 20, 100, ctorCase<int, 1>); h.section("ctor-2", 20, 100, ctorCase<double, 2>); h.section("ctor-3", 20, 100, ctorCase<int, 3>);
  h.section("ctor-4", 20, 100, ctorCase<int, 4>); h.section("ctor-5", 20, 100, ctorCase<float, 5>); h.section("ctor-6", 20, 100, ctorCase<int, 6>);
  h.section("ctor-7", 20, 100, ctorCase<int, 7>); h.section("ctor-8", 20, 100, ctorCase<long, 8>); h.section("ctor-9", 20, 100, ctorCase<int, 9>);
  h.section("ctor-10", 20, 100, ctorCase<double, 10>);
  h.section("wide-int", 60, 600, [](vh::Case &k) { wideCase<int, 1>(k); wideCase<int, 3>(k); wideCase<int, 8>(k); });
  h.section("wide-long", 60, 600, [](vh::Case &k) { wideCase<long, 1>(k); wideCase<long, 4>(k); wideCase<long, 10>(k); });
  h.section("wide-double", 60, 600, [](vh::Case &k) { wideCase<double, 2>(k); wideCase<double, 5>(k); wideCase<double, 9>(k); });
  h.section("wide-float", 60, 600, [](vh::Case &k) { wideCase<float, 3>(k); wideCase<float, 7>(k); });
  h.section("unordered-double", 100, 600, [](vh::Case &k) { unorderedCase<double, 1>(k); unorderedCase<double, 2>(k); unorderedCase<double, 6>(k); });
  h.section("unordered-float", 60, 300, [](vh::Case &k) { unorderedCase<float, 3>(k); unorderedCase<float, 10>(k); });
  h.section("long-double", 20, 200, [](vh::Case &k) { direct<double, int, 16>(k); compareCase<double, int, 16>(k); exprSame<double, float, 16>(k); wideCase<double, 32>(k); });
  h.section("long-int", 20, 200, [](vh::Case &k) { direct<int, double, 33>(k); compareCase<int, long, 33>(k); exprSame<int, int, 33>(k); wideCase<long, 33>(k); });
  h.require("wide", 400); h.require("cmp:nan", 100);
  h.section("assert-1", 12, 100, assertCase<1>); h.section("assert-3", 20, 100, assertCase<3>); h.section("assert-10", 12, 100, assertCase<10>);
  h.require("cmp:eq", 50); h.require("cmp:lt", 50); h.require("cmp:notle", 50); h.require("assert:out", 5); h.require("assert:in", 5);
  return h.finish();
}
