// C20: text written for arrays and grids shows every element once, in the documented layout.
#include "gridcommon.hpp"
#include "datastream.hpp"
using namespace schnek;
using namespace vg;

template<class T> T value(vh::Rng &r) {
  if (std::is_floating_point<T>::value) return T(r.range(-4000, 4000) / 16.0);
  return T(r.range(std::is_signed<T>::value ? -100000 : 0, 100000));
}
template<class T> std::string one(const std::ios &like, T v) { std::ostringstream o; o.copyfmt(like); o << v; return o.str(); }

static void format(vh::Rng &r, std::ostream &o, std::string &desc) {
  if (r.chance(1, 2)) return;
  int p = r.range(3, 9); o.precision(p); desc += "precision " + std::to_string(p);
  if (r.chance(1, 3)) { o << std::fixed; desc += " fixed"; } else if (r.chance(1, 3)) { o << std::scientific; desc += " scientific"; }
  if (r.chance(1, 4)) { o << std::showpos; desc += " showpos"; }
}

template<class T, size_t R, template<class, size_t> class ST> void gridCase(vh::Case &c) {
  vh::Rng &r = c.rng;
  Box<R> b = randomBox<R>(r, 400, false);
  if (r.chance(1, 6)) { for (size_t d = 0; d < R; ++d) if (r.chance(1, 2)) b.hi[d] = b.lo[d]; }
  Grid<T, R, GridNoArgCheck, ST> g(arr<R>(b.lo), arr<R>(b.hi));
  std::map<std::vector<long>, T> model;
  each<R>(b, [&](const long *p) { T v = value<T>(r); g.get(arr<R>(p)) = v; model[std::vector<long>(p, p + R)] = v; });
  std::ostringstream o; std::string fm; format(r, o, fm);
  c.desc << "rank " << R << " " << b.str() << " " << fm << " " << model.begin()->second;
  c.crumb(c.desc.str());
  bool prefix = r.chance(1, 2); if (prefix) o << "<";
  std::ostream &back = (o << g);
  c.ok(&back == &o, "stream-returned");
  if (r.chance(1, 2)) { o << g; }   // a second grid continues right behind the first
  std::string got = o.str();
  // first index fastest; a row per line; a blank line after each two-dimensional slice
  std::ostringstream once;
  Box<R> rev; for (size_t d = 0; d < R; ++d) { rev.lo[d] = b.lo[R - 1 - d]; rev.hi[d] = b.hi[R - 1 - d]; }
  long n = 0, row = b.hi[0] - b.lo[0] + 1, slice = R > 1 ? row * (b.hi[R > 1 ? 1 : 0] - b.lo[R > 1 ? 1 : 0] + 1) : 0;
  each<R>(rev, [&](const long *p) {
    std::vector<long> q(R); for (size_t d = 0; d < R; ++d) q[d] = p[R - 1 - d];
    if (n % row) once << " ";
    once << one(o, model[q]);
    ++n;
    if (R > 1 && n % row == 0) once << "\n";
    if (R > 2 && n % slice == 0) once << "\n";
  });
  std::string pre = prefix ? "<" : "", w1 = pre + once.str(), w2 = w1 + once.str();
  c.check(got == w1 || got == w2, "grid-text", [&](std::ostream &e) { e << "grid " << b.str() << " written as\n" << got << "\nexpected\n" << w1; });
  bool same = true; each<R>(b, [&](const long *p) { same = same && g.get(arr<R>(p)) == model[std::vector<long>(p, p + R)]; });
  c.ok(same, "grid-changed");
  c.count("values", n); c.events += n;
}
template<class T, size_t N> void arrayCase(vh::Case &c) {
  vh::Rng &r = c.rng;
  Array<T, N> a; std::vector<T> m;
  for (size_t i = 0; i < N; ++i) { T v = value<T>(r); a[i] = v; m.push_back(v); }
  std::ostringstream o, w; std::string fm; format(r, o, fm);
  c.desc << "array of " << N << " " << fm; for (T v : m) c.desc << " " << v;
  o << a; for (size_t i = 0; i < N; ++i) w << (i ? " " : "") << one(o, m[i]);
  c.check(o.str() == w.str(), "array-text", [&](std::ostream &e) { e << "array written as '" << o.str() << "', expected '" << w.str() << "'"; });
  c.events += N; c.count("values", N);
}
template<size_t R> void rank(vh::Harness &h) {
  std::string n = "rank" + std::to_string(R);
  h.section(n + "-int", 120, 6000, gridCase<int, R, SingleArrayGridStorage>);
  h.section(n + "-double", 120, 6000, gridCase<double, R, SingleArrayGridStorage>);
  h.section(n + "-fortran", 80, 4000, gridCase<int, R, SingleArrayGridStorageFortran>);
  h.section(n + "-lazy", 80, 4000, gridCase<float, R, LazyArrayGridStorage>);
}
int main(int argc, char **argv) {
  vh::Harness h(argc, argv);
  rank<1>(h); rank<2>(h); rank<3>(h); rank<4>(h); rank<5>(h);
  h.section("array1", 50, 2000, arrayCase<int, 1>); h.section("array2", 50, 2000, arrayCase<double, 2>);
  h.section("array3", 100, 4000, arrayCase<int, 3>); h.section("array7", 100, 4000, arrayCase<float, 7>); h.section("array3u", 50, 2000, arrayCase<unsigned, 3>);
  h.require("values", 10000);
  return h.finish();
}
