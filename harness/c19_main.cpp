// C19: a number of processes is split into factors whose product is that number.
#include "common.hpp"
#include "util/factor.hpp"

// smallest sum of factor/weight over all ways to split n over the dimensions from d on
static double best(long n, size_t d, const std::vector<int> &w, long scale0) {
  if (d + 1 == w.size()) return double(n * (d == 0 ? scale0 : 1)) / w[d];
  double b = 1e300;
  for (long f = 1; f * f <= n; ++f) if (n % f == 0) for (int k = 0; k < 2; ++k) {
    long g = k ? n / f : f; if (k && g == f) break;
    b = std::min(b, double(g * (d == 0 ? scale0 : 1)) / w[d] + best(n / g, d + 1, w, scale0));
  }
  return b;
}
static void check(vh::Case &c, int number, int nfact, std::vector<int> weights) {
  std::vector<int> before = weights, f(c.rng.range(0, 6), c.rng.range(-3, 9)), again;
  c.desc << number << "/" << nfact; for (int w : weights) c.desc << "," << w; c.desc << " ";
  c.crumb(c.desc.str().substr(std::max<long>(0, long(c.desc.str().size()) - 200)));
  schnek::equalFactors(number, nfact, f, weights);
  auto show = [&](std::ostream &o) { o << "equalFactors(" << number << ", " << nfact << ", weights"; for (int w : before) o << " " << w; o << ") gave"; for (int k : f) o << " " << k; };
  if (!c.check(int(f.size()) == nfact, "number-of-factors", show)) return;
  long prod = 1; bool positive = true;
  for (int k : f) { positive = positive && k >= 1; prod *= k; if (prod > 4 * long(number) || prod < 0) break; }
  c.check(positive, "not-positive", show);
  c.check(prod == number, "product", show);
  c.check(weights == before, "weights-changed", show);
  // as even as possible: no split in which the first dimension takes the smallest prime factor is better
  long p = 1; if (number > 1) { p = 2; while (p * p <= number && number % p) ++p; if (number % p) p = number; }
  double got = 0; for (int k = 0; k < nfact; ++k) got += double(f[k]) / before[k];
  double opt = best(number / p, 0, before, p);
  c.check(got <= opt * (1 + 1e-9), "uneven", [&](std::ostream &o) { show(o); o << ": sum of factor/weight " << got << ", possible " << opt; });
  bool same = true; for (int w : before) same = same && w == before[0];
  if (same && nfact > 1) c.count("equal-weights");
  schnek::equalFactors(number, nfact, again, weights);
  c.check(again == f, "not-repeatable", show);
  c.count("calls", 2); if (nfact > 1 && number > 1) c.count("nontrivial");
  std::multiset<int> primes; for (int n = number, p = 2; n > 1; ++p) while (n % p == 0) { primes.insert(p); n /= p; }
  c.count(primes.size() == 1 ? "prime" : primes.size() > 5 ? "many-prime-factors" : "composite");
}

static std::vector<int> randomWeights(vh::Rng &r, int n) {
  std::vector<int> w(n);
  int style = r.range(0, 3), all = r.range(1, 1000);
  for (int &k : w) k = style == 0 ? all : style == 1 ? r.range(1, 8) : style == 2 ? r.range(1, 100000) : (r.chance(1, 2) ? 1 : 2000000);
  return w;
}

int main(int argc, char **argv) {
  vh::Harness h(argc, argv);
  // every number of processes up to the bound, in blocks of 16
  h.section("every", 160, 512, [&](vh::Case &c) {
    for (int k = 0; k < 16; ++k) { int number = int(c.index) * 16 + k + 1; for (int n = 1; n <= 4; ++n) check(c, number, n, randomWeights(c.rng, n)); }
  });
  h.section("structured", 400, 6000, [&](vh::Case &c) {
    // products of few small primes, prime powers, squares of primes and products of two close primes
    static const int P[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 101, 211, 499, 997};
    vh::Rng &r = c.rng; int number = 1, style = r.range(0, 4), terms = 0;
    if (style == 0) { int p = P[r.range(0, 5)]; while (terms < 11 && number < 100000 / p) { number *= p; ++terms; if (r.chance(1, 6)) break; } }
    else if (style == 1) { while (terms < 10 && number < 60000) { int p = P[r.range(0, 4)]; number *= p; ++terms; if (r.chance(1, 7)) break; } }
    else if (style == 2) { int p = P[r.range(0, 28)]; number = p * p; }
    else if (style == 3) { int i = r.range(0, 27); number = P[i] * P[i + 1]; }
    else number = r.range(1, 1000000);
    int n = number; terms = 0; for (int p = 2; n > 1; ++p) while (n % p == 0) { n /= p; ++terms; }
    int maxFact = terms > 12 ? 2 : terms > 9 ? 3 : 5;
    int nf = r.range(1, maxFact);
    check(c, number, nf, randomWeights(r, nf));
  });
  h.require("calls", 1000); h.require("nontrivial", 1000); h.require("prime", 100); h.require("equal-weights", 100); h.require("many-prime-factors", 100);
  return h.finish();
}
