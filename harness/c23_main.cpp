// C23: random numbers stay in their range and the numeric helpers compute what they say.
#include "common.hpp"
#include "functions.hpp"
#include "algo.hpp"
#include "grid/array.hpp"
#include "util/unique.hpp"
#include <list>
#include <limits>
using namespace schnek;

// A stand-in for the C library's generator: every value it may return is a legal input of drand and irand.
static vh::Rng *source = nullptr; static int style = 0; static long calls = 0;
extern "C" int rand() {
  ++calls;
  if (!source) return 7;
  vh::Rng &r = *source;
  switch (style) {
    case 0: return r.range(0, RAND_MAX);
    case 1: return r.chance(1, 3) ? RAND_MAX : r.chance(1, 2) ? 0 : r.range(0, RAND_MAX);
    case 2: return RAND_MAX;
    case 3: return 0;
    case 4: return RAND_MAX - r.range(0, 3);
    default: return r.range(0, 3);
  }
}

static void randomCase(vh::Case &c) {
  vh::Rng &r = c.rng; source = &r; style = int(c.index % 6);
  int range = r.chance(1, 4) ? r.range(1, 4) : r.chance(1, 3) ? r.range(1, 1000) : r.chance(1, 2) ? std::numeric_limits<int>::max() - r.range(0, 3) : r.range(1, std::numeric_limits<int>::max());
  c.desc << "generator " << style << " range " << range << " state " << r.s; c.crumb(c.desc.str());
  long before = calls; double lowest = 2, highest = -1; std::set<int> seen;
  for (int i = 0; i < 200; ++i) {
    double d = drand();
    c.check(d >= 0 && d <= 1, "drand-range", [&](std::ostream &o) { o.precision(20); o << "drand() gave " << d; });
    lowest = std::min(lowest, d); highest = std::max(highest, d);
    int k = irand(range); seen.insert(k);
    c.check(k >= 0 && k < range, "irand-range", [&](std::ostream &o) { o << "irand(" << range << ") gave " << k; });
  }
  if (style == 0) {
    c.check(lowest < .1 && highest > .9, "drand-spread", [&](std::ostream &o) { o << "200 numbers between " << lowest << " and " << highest; });
    if (range <= 4) c.check(int(seen.size()) == range, "irand-spread", [&](std::ostream &o) { o << seen.size() << " different values of irand(" << range << ") in 200"; });
    else if (range > 100000) c.check(seen.size() > 150, "irand-spread", [&](std::ostream &o) { o << seen.size() << " different values of irand(" << range << ") in 200"; });
  }
  c.count("drawn", 400); c.count("generator-calls", calls - before); source = nullptr;
}

template<class T> T some(vh::Rng &r) {
  if (r.chance(1, 5)) return T(0); if (r.chance(1, 6)) return std::numeric_limits<T>::max(); if (r.chance(1, 6)) return std::numeric_limits<T>::lowest();
  return std::is_floating_point<T>::value ? T(r.range(-100, 100) / 8.0) : T(r.range(std::is_signed<T>::value ? -6 : 0, 6));
}
template<class T> void compareCase(vh::Case &c) {
  vh::Rng &r = c.rng;
  for (int i = 0; i < 50; ++i) {
    T a = some<T>(r), b = some<T>(r); c.desc << +a << "," << +b << " ";
    c.check(schnek::min(a, b) == (a < b ? a : b) && schnek::max(a, b) == (a < b ? b : a), "min-max", [&](std::ostream &o) { o << +a << " " << +b << ": min " << +schnek::min(a, b) << " max " << +schnek::max(a, b); });
    c.check(signum0(a) == (a > 0 ? 1 : a == 0 ? 0 : -1), "signum0", [&](std::ostream &o) { o << "signum0(" << +a << ") = " << signum0(a); });
    c.check(signum(a) == (a < 0 ? -1 : 1), "signum", [&](std::ostream &o) { o << "signum(" << +a << ") = " << signum(a); });
  }
  c.count("compared", 50);
}
template<class T> void vectorCase(vh::Case &c) {
  vh::Rng &r = c.rng;
  Array<T, 3> a, b, x; for (int d = 0; d < 3; ++d) { a[d] = T(r.range(-40, 40)); b[d] = T(r.range(-40, 40)); x[d] = T(77); c.desc << a[d] << "," << b[d] << " "; }
  Array<T, 3> a0(a), b0(b); crossProduct(x, a, b);
  T w[3] = {T(a[1] * b[2] - a[2] * b[1]), T(a[2] * b[0] - a[0] * b[2]), T(a[0] * b[1] - a[1] * b[0])};
  for (int d = 0; d < 3; ++d) { c.check(x[d] == w[d], "cross-product", [&](std::ostream &o) { o << "component " << d << " is " << x[d] << ", expected " << w[d]; }); c.ok(a[d] == a0[d] && b[d] == b0[d], "cross-product-operands"); }
  // the mean of values whose sums are exact
  int n = r.range(1, 60); std::vector<double> v; std::list<float> l; double sum = 0;
  for (int i = 0; i < n; ++i) { double q = r.range(-1000, 1000) / 8.0; v.push_back(q); l.push_back(float(q)); sum += q; }
  double m = mean(v.begin(), v.end()); float mf = mean(l.begin(), l.end());
  c.check(std::fabs(m - sum / n) <= 1e-15 * (1 + std::fabs(sum)), "mean", [&](std::ostream &o) { o << "mean of " << n << " values is " << m << ", expected " << sum / n; });
  c.check(std::fabs(mf - sum / n) <= 1e-6 * (1 + std::fabs(sum / n)), "mean-float", [&](std::ostream &o) { o << "mean of " << n << " values is " << mf << ", expected " << sum / n; });
  c.count("vectors");
}
struct A {}; struct B {};
static void uniqueCase(vh::Case &c) {
  static std::set<long> ia, ib; int n = c.rng.range(1, 20); std::list<Unique<A>> ka;
  for (int i = 0; i < n; ++i) { Unique<A> a; Unique<B> b; ka.emplace_back(); long k = a.getId(); c.desc << k << " "; c.ok(ia.insert(k).second && ia.insert(ka.back().getId()).second && ib.insert(b.getId()).second, "id-reused"); c.ok(a.getId() == k, "id-changed"); }
  c.count("ids", 3 * n);
}

int main(int argc, char **argv) {
  vh::Harness h(argc, argv);
  h.section("random", 300, 20000, randomCase);
  h.section("compare-int", 40, 2000, compareCase<int>); h.section("compare-double", 40, 2000, compareCase<double>); h.section("compare-unsigned", 40, 1000, compareCase<unsigned>);
  h.section("compare-long", 40, 2000, compareCase<long>); h.section("compare-float", 40, 1000, compareCase<float>); h.section("compare-char", 40, 1000, compareCase<signed char>);
  h.section("vector-double", 150, 8000, vectorCase<double>); h.section("vector-int", 150, 8000, vectorCase<int>);
  h.section("unique", 50, 500, uniqueCase);
  h.require("drawn", 10000); h.require("compared", 1000); h.require("vectors", 100); h.require("ids", 100);
  return h.finish();
}
