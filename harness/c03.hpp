// C03: ranges denote exactly the index box lo..hi, and every iteration route visits it exactly once in order.
#ifndef C03_HPP
#define C03_HPP
#include "gridcommon.hpp"
#include "grid/iteration/range-iteration.hpp"
#include "grid/iteration/kokkos-iteration.hpp"
using namespace vg;
using namespace schnek;

template<class T, size_t R> Box<R> box3(vh::Rng &r, long cells) {
  Box<R> b = randomBox<R>(r, cells);
  if (std::is_unsigned<T>::value) for (size_t d = 0; d < R; ++d) { long s = b.lo[d] < 0 ? -b.lo[d] + r.range(0, 5) : 0; b.lo[d] += s; b.hi[d] += s; }
  else if (sizeof(T) == 8 && r.chance(1, 4)) for (size_t d = 0; d < R; ++d) { long s = (r.chance(1, 2) ? 1 : -1) * (5000000000L + r.range(0, 1000)); b.lo[d] += s; b.hi[d] += s; }
  int k = r.range(0, 14);
  // empty in one or several dimensions
  if (k == 0) { size_t d = r.range(0, int(R) - 1); b.hi[d] = b.lo[d] - 1; }
  else if (k == 1) { for (size_t d = 0; d < R; ++d) if (r.chance(1, 2)) b.hi[d] = b.lo[d] - 1; }
  else if (k == 2) { size_t d = r.range(0, int(R) - 1); b.hi[d] = b.lo[d] - r.range(1, 4); }
  if (std::is_unsigned<T>::value) for (size_t d = 0; d < R; ++d) while (b.hi[d] < 0) { b.lo[d]++; b.hi[d]++; }
  return b;
}
template<size_t R> std::vector<std::vector<long>> expectC(const Box<R> &b) {
  std::vector<std::vector<long>> v;
  each<R>(b, [&](const long *p) { v.push_back(std::vector<long>(p, p + R)); });
  return v;
}
template<size_t R> std::vector<std::vector<long>> expectF(const Box<R> &b) {
  Box<R> q;
  for (size_t d = 0; d < R; ++d) { q.lo[d] = b.lo[R - 1 - d]; q.hi[d] = b.hi[R - 1 - d]; }
  std::vector<std::vector<long>> v;
  each<R>(q, [&](const long *p) { std::vector<long> x(R); for (size_t d = 0; d < R; ++d) x[d] = p[R - 1 - d]; v.push_back(x); });
  return v;
}
template<size_t R> std::string show(const std::vector<std::vector<long>> &v, size_t i) {
  if (i >= v.size()) return "<none>";
  return pos<R>(v[i].data());
}
template<size_t R> void compareTrace(vh::Case &c, const char *key, const std::vector<std::vector<long>> &got, const std::vector<std::vector<long>> &want, const Box<R> &b) {
  c.events += long(want.size());
  c.count(std::string("visits:") + key, long(got.size()));
  if (got == want) { ++c.events; return; }
  size_t i = 0;
  while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
  std::ostringstream o;
  o << "range " << b.str() << ": visit " << i << " was " << show<R>(got, i) << ", expected " << show<R>(want, i) << " (visits " << got.size() << ", expected " << want.size() << ")";
  c.fail(key, o.str());
}
template<size_t R, class A> std::vector<long> vec(const A &a) { std::vector<long> v(R); for (size_t d = 0; d < R; ++d) v[d] = long(a[d]); return v; }

template<class RT, size_t R, class T, size_t... I> void growEach(RT &r, const T *d, std::index_sequence<I...>) { r.grow(d[I]...); }

template<class T, size_t R, template<size_t> class CP> void rangeCase(vh::Case &c) {
  typedef Range<T, R, CP> RT;
  typedef typename RT::LimitType LT;
  vh::Rng &r = c.rng;
  Box<R> b = box3<T, R>(r, c.h.thorough ? 3000 : 700);
  LT lo, hi;
  for (size_t d = 0; d < R; ++d) { lo[d] = T(b.lo[d]); hi[d] = T(b.hi[d]); }
  c.desc << "rank " << R << " " << typeid(T).name() << " " << b.str();
  RT rg = [&]() {
    switch (r.range(0, 4)) {
      case 0: { RT x; x.getLo() = lo; x.getHi() = hi; return x; }
      case 1: { RT x; for (size_t d = 0; d < R; ++d) { x.getLo(d) = lo[d]; x.getHi(d) = hi[d]; } return x; }
      case 2: { Array<T, R, ArrayAssertArgCheck> l2(lo), h2(hi); Range<T, R, ArrayAssertArgCheck> y(l2, h2); return RT(y); }
      case 3: { RT x(lo, hi); RT y; y = x; return y; }
      default: return RT(lo, hi);
    }
  }();
  const RT &cr = rg;
  for (size_t d = 0; d < R; ++d)
    c.check(long(cr.getLo(d)) == b.lo[d] && long(cr.getHi(d)) == b.hi[d] && long(cr.getLo()[d]) == b.lo[d] && long(cr.getHi()[d]) == b.hi[d] &&
                long(rg.getLo(d)) == b.lo[d] && long(rg.getHi(d)) == b.hi[d],
            "limits", [&](std::ostream &o) { o << "dim " << d << " of " << b.str(); });
  std::vector<std::vector<long>> wantC = expectC<R>(b), wantF = expectF<R>(b), got;
  long cap = b.size() + 10;
  for (typename RT::iterator it = cr.begin(), e = cr.end(); it != e && long(got.size()) < cap; ++it) got.push_back(vec<R>(*it));
  compareTrace<R>(c, "iterator-preincrement", got, wantC, b);
  got.clear();
  {
    typename RT::iterator it = rg.begin();
    const typename RT::iterator e = rg.end();
    while (!(it == e) && long(got.size()) < cap) {
      std::vector<long> before = vec<R>(it.getPos());
      typename RT::iterator old(it++);
      got.push_back(vec<R>(old.getPos()));
      c.ok(before == got.back(), "postincrement-result", "post-increment must return the position before the step");
    }
  }
  compareTrace<R>(c, "iterator-postincrement", got, wantC, b);
  got.clear();
  for (const auto &p : cr) { got.push_back(vec<R>(p)); if (long(got.size()) >= cap) break; }
  compareTrace<R>(c, "range-for", got, wantC, b);
  // iterators at the same step compare equal, at different steps differ
  if (b.size() > 1) {
    typename RT::iterator a = rg.begin(), z = rg.begin();
    long n = r.range(1, int(std::min<long>(b.size() - 1, 50)));
    bool differed = true;
    for (long i = 0; i < n; ++i) { ++a; differed = differed && (a != z) && !(a == z); }
    c.ok(differed, "iterator-compare", "iterators at different positions must differ");
    for (long i = 0; i < n; ++i) ++z;
    c.ok(a == z && !(a != z), "iterator-compare", "iterators at equal positions must be equal");
    typename RT::iterator copy(a);
    ++a;
    c.ok(vec<R>(*copy) == wantC[n] && (a == rg.end() || vec<R>(*a) == wantC[n + 1]), "iterator-copy", "a copied iterator moves independently");
  }
  got.clear();
  RangeCIterationPolicy<R>::forEach(cr, [&](const LT &p) { got.push_back(vec<R>(p)); });
  compareTrace<R>(c, "forEach-C", got, wantC, b);
  got.clear();
  RangeFortranIterationPolicy<R>::forEach(cr, [&](const LT &p) { got.push_back(vec<R>(p)); });
  compareTrace<R>(c, "forEach-Fortran", got, wantF, b);
  if constexpr (R <= 6 && !std::is_unsigned<T>::value) {
    std::vector<std::vector<long>> *g = &got;
    got.clear();
    RangeKokkosIterationPolicy<R>::forEach(cr, [=](const LT &p) { g->push_back(vec<R>(p)); });
    std::sort(got.begin(), got.end());
    std::vector<std::vector<long>> w = wantC;
    std::sort(w.begin(), w.end());
    compareTrace<R>(c, "forEach-Kokkos", got, w, b);
  }
  // membership, at and around every face
  for (int k = 0; k < 30; ++k) {
    LT p; bool in = true; std::vector<long> v(R);
    size_t odd = r.range(0, int(R) - 1);
    for (size_t d = 0; d < R; ++d) {
      long a;
      if (d != odd && b.hi[d] >= b.lo[d] && r.chance(3, 4)) a = r.range(0, 1) ? b.lo[d] : b.hi[d];
      else switch (r.range(0, 4)) { case 0: a = b.lo[d] - 1; break; case 1: a = b.hi[d] + 1; break; case 2: a = b.lo[d]; break; case 3: a = b.hi[d]; break;
                 default: a = b.lo[d] + r.range(-2, int(std::min<long>(b.hi[d] - b.lo[d] + 3, 30))); }
      if (std::is_unsigned<T>::value && a < 0) a = 0;
      v[d] = a; p[d] = T(a);
      if (a < b.lo[d] || a > b.hi[d]) in = false;
    }
    c.count(in ? "inside:true" : "inside:false");
    c.check(cr.inside(p) == in, "inside", [&](std::ostream &o) { o << pos<R>(v.data()) << " in " << b.str() << " reported " << cr.inside(p); });
  }
  // projections
  if constexpr (R > 1) {
    int dim = r.range(0, int(R) - 1);
    auto q = cr.projectDim(dim);
    bool ok = true;
    for (size_t d = 0, k = 0; d < R; ++d) if (int(d) != dim) { ok = ok && long(q.getLo(k)) == b.lo[d] && long(q.getHi(k)) == b.hi[d]; ++k; }
    c.check(ok, "projectDim", [&](std::ostream &o) { o << "dropping dim " << dim << " of " << b.str(); });
    auto q1 = cr.template project<1>();
    c.ok(long(q1.getLo(0)) == b.lo[0] && long(q1.getHi(0)) == b.hi[0], "project", "project<1>");
    auto q2 = cr.template project<int(R) - 1>();
    ok = true;
    for (size_t d = 0; d + 1 < R; ++d) ok = ok && long(q2.getLo(d)) == b.lo[d] && long(q2.getHi(d)) == b.hi[d];
    c.ok(ok, "project", "project<rank-1> of " + b.str());
  }
  // growth
  {
    long s = std::is_unsigned<T>::value ? 0 : r.range(-2, 4);
    if (std::is_unsigned<T>::value) { long m = 4; for (size_t d = 0; d < R; ++d) m = std::min(m, b.lo[d]); s = r.range(0, int(m)); }
    RT g(rg);
    g.grow(T(s));
    bool ok = true;
    for (size_t d = 0; d < R; ++d) ok = ok && long(g.getLo(d)) == b.lo[d] - s && long(g.getHi(d)) == b.hi[d] + s;
    c.check(ok, "grow", [&](std::ostream &o) { o << b.str() << " by " << s; });
    if constexpr (R > 1) {
      T dl[R]; long dd[R];
      for (size_t d = 0; d < R; ++d) { dd[d] = std::is_unsigned<T>::value ? r.range(0, int(std::min<long>(b.lo[d], 9))) : r.range(-3, 9); dl[d] = T(dd[d]); }
      RT g2(rg);
      growEach<RT, R, T>(g2, dl, std::make_index_sequence<R>());
      ok = true;
      for (size_t d = 0; d < R; ++d) ok = ok && long(g2.getLo(d)) == b.lo[d] - dd[d] && long(g2.getHi(d)) == b.hi[d] + dd[d];
      c.check(ok, "grow-each", [&](std::ostream &o) { o << b.str() << " grown per dimension"; for (size_t d = 0; d < R; ++d) o << " " << dd[d]; });
    }
    bool same = true;
    for (size_t d = 0; d < R; ++d) same = same && long(rg.getLo(d)) == b.lo[d] && long(rg.getHi(d)) == b.hi[d];
    c.ok(same, "copy-independent", "growing a copy must not change the original");
  }
  c.count(b.size() == 0 ? "ranges:empty" : b.size() == 1 ? "ranges:single" : "ranges:many");
}

// boxes that touch the smallest or the largest value their limit type has
template<class T, size_t R> void extremeCase(vh::Case &c) {
  typedef Range<T, R> RT;
  typedef typename RT::LimitType LT;
  vh::Rng &r = c.rng;
  const long tmin = long(std::numeric_limits<T>::min()), tmax = long(std::numeric_limits<T>::max());
  Box<R> b;
  LT lo, hi;
  for (size_t d = 0; d < R; ++d) {
    long n = r.range(0, R == 1 ? 60 : R == 2 ? 12 : 4);
    switch (r.range(0, 4)) {
      case 0: b.lo[d] = tmin; b.hi[d] = tmin + n; c.count("extreme:lowest"); break;
      case 1: b.lo[d] = tmin + 3; b.hi[d] = tmin + 3 + n; break;
      case 2: b.hi[d] = tmax - 2; b.lo[d] = tmax - 2 - n; break;
      default: b.hi[d] = tmax; b.lo[d] = tmax - n; c.count("extreme:highest");
    }
    if (sizeof(T) == 1 && R == 1 && r.chance(1, 4)) { b.lo[d] = tmin; b.hi[d] = tmax; }
    if (r.chance(1, 20) && b.lo[d] > tmin) { b.hi[d] = b.lo[d] - 1; }
    lo[d] = T(b.lo[d]); hi[d] = T(b.hi[d]);
  }
  c.desc << "extreme rank " << R << " " << typeid(T).name() << " " << b.str();
  const RT rg(lo, hi);
  std::vector<std::vector<long>> wantC = expectC<R>(b), wantF = expectF<R>(b), got;
  const size_t cap = wantC.size() + 10;
  struct TooMany {};
  for (typename RT::iterator it = rg.begin(), e = rg.end(); it != e && got.size() < cap; ++it) got.push_back(vec<R>(*it));
  compareTrace<R>(c, "extreme-iterator", got, wantC, b);
  got.clear();
  for (const auto &p : rg) { got.push_back(vec<R>(p)); if (got.size() >= cap) break; }
  compareTrace<R>(c, "extreme-range-for", got, wantC, b);
  got.clear();
  auto take = [&](const LT &p) { got.push_back(vec<R>(p)); if (got.size() >= cap) throw TooMany(); };
  try { RangeCIterationPolicy<R>::forEach(rg, take); } catch (TooMany &) {}
  compareTrace<R>(c, "extreme-forEach-C", got, wantC, b);
  got.clear();
  try { RangeFortranIterationPolicy<R>::forEach(rg, take); } catch (TooMany &) {}
  compareTrace<R>(c, "extreme-forEach-Fortran", got, wantF, b);
  for (int k = 0; k < 20; ++k) {
    LT p; bool in = true; std::vector<long> v(R);
    for (size_t d = 0; d < R; ++d) {
      long a = r.chance(1, 2) ? b.lo[d] : b.hi[d];
      if (r.chance(1, 5)) a = r.chance(1, 2) ? tmin : tmax;
      if (r.chance(1, 5) && a > tmin) --a; else if (r.chance(1, 5) && a < tmax) ++a;
      v[d] = a; p[d] = T(a);
      in = in && a >= b.lo[d] && a <= b.hi[d];
    }
    c.check(rg.inside(p) == in, "extreme-inside", [&](std::ostream &o) { o << pos<R>(v.data()) << " in " << b.str() << " reported " << rg.inside(p); });
  }
}

template<size_t R> void doubleRange(vh::Case &c) {
  vh::Rng &r = c.rng;
  Array<double, R> lo, hi;
  double l[R], h[R];
  c.desc << "real rank " << R;
  for (size_t d = 0; d < R; ++d) { l[d] = r.real(-10, 10); h[d] = l[d] + r.real(0, 5); lo[d] = l[d]; hi[d] = h[d]; c.desc << " [" << l[d] << "," << h[d] << "]"; }
  const Range<double, R> rg(lo, hi);
  for (int k = 0; k < 20; ++k) {
    Array<double, R> p; bool in = true;
    for (size_t d = 0; d < R; ++d) {
      double v;
      switch (r.range(0, 5)) { case 0: v = l[d]; break; case 1: v = h[d]; break; case 2: v = std::nextafter(l[d], -1e9); break; case 3: v = std::nextafter(h[d], 1e9); break; default: v = r.real(l[d], h[d]); }
      if (v < l[d] || v > h[d]) in = false;
      p[d] = v;
    }
    c.count(in ? "inside:true" : "inside:false");
    c.ok(rg.inside(p) == in, "inside-real", "membership of a point at the faces of a real valued range");
  }
  for (int k = 0; k < 6; ++k) {
    // unbounded and undefined coordinates
    Array<double, R> p; bool in = true;
    for (size_t d = 0; d < R; ++d) p[d] = r.real(l[d], h[d]);
    size_t odd = r.range(0, int(R) - 1);
    switch (k % 3) { case 0: p[odd] = std::numeric_limits<double>::quiet_NaN(); in = false; break; case 1: p[odd] = std::numeric_limits<double>::infinity(); in = false; break; default: p[odd] = -std::numeric_limits<double>::infinity(); in = false; }
    c.ok(rg.inside(p) == in, "inside-unordered", "a point with an infinite or undefined coordinate lies in no bounded range");
  }
  {
    // half open ranges
    Array<double, R> l2(lo), h2(hi), p; size_t odd = r.range(0, int(R) - 1); bool up = r.chance(1, 2);
    if (up) h2[odd] = std::numeric_limits<double>::infinity(); else l2[odd] = -std::numeric_limits<double>::infinity();
    const Range<double, R> half(l2, h2);
    for (size_t d = 0; d < R; ++d) p[d] = r.real(l[d], h[d]);
    p[odd] = up ? h[odd] + r.real(0, 1e12) : l[odd] - r.real(0, 1e12);
    c.ok(half.inside(p), "inside-unbounded", "a range may be unbounded");
    p[odd] = up ? std::nextafter(l[odd], -1e9) : std::nextafter(h[odd], 1e9);
    c.ok(!half.inside(p), "inside-unbounded", "a range may be unbounded on one side only");
  }
  double s = r.real(-1, 3);
  Range<double, R> g(rg);
  g.grow(s);
  for (size_t d = 0; d < R; ++d) c.ok(g.getLo(d) == l[d] - s && g.getHi(d) == h[d] + s, "grow-real", "");
}

#define C03_RANK(R, nq) \
  h.section("range-int-" #R, nq, nq * 12, rangeCase<int, R, ArrayNoArgCheck>); \
  h.section("range-long-" #R, nq / 3, nq * 3, rangeCase<long, R, ArrayAssertArgCheck>); \
  h.section("range-unsigned-" #R, nq / 4, nq * 3, rangeCase<unsigned, R, ArrayNoArgCheck>); \
  h.section("range-real-" #R, nq / 2, nq * 2, doubleRange<R>);
#endif
