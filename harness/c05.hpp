// C05: whole-grid operations, sub grids, transformed grids and index checking policies against a position-wise model.
#ifndef C05_HPP
#define C05_HPP
#include "gridcommon.hpp"
#include "grid/subgrid.hpp"
#include "grid/gridtransform.hpp"
#include <complex>
using namespace vg;
using namespace schnek;

template<class T, size_t R> using CStore = SingleArrayGridStorage<T, R>;
template<class T, size_t R> using FStore = SingleArrayGridStorageFortran<T, R>;
template<class T, size_t R> using LStore = LazyArrayGridStorage<T, R>;
template<class T, size_t R> using KStore = KokkosDefaultGridStorage<T, R>;

template<size_t R> struct Model {
  Box<R> b; std::vector<double> v;
  Model(const Box<R> &b_) : b(b_), v(b_.size()) {}
  double &at(const long *p) { return v[offC<R>(b, p)]; }
};
template<class G, size_t R> void put(G &g, Model<R> &m, vh::Rng &r) {
  each<R>(m.b, [&](const long *p) { double x = r.range(-50, 50); if (std::is_floating_point<typename G::value_type>::value) x += r.range(-3, 3) / 4.0; m.at(p) = x; g.get(arr<R>(p)) = typename G::value_type(x); });
}
template<class G, size_t R> void same(vh::Case &c, G &g, Model<R> &m, const char *key, const char *what) {
  each<R>(m.b, [&](const long *p) {
    double x = double(g.get(arr<R>(p))), y = m.at(p);
    c.check(x == y, key, [&](std::ostream &o) { o << what << " at " << pos<R>(p) << " of " << m.b.str() << " is " << x << ", expected " << y; });
  });
}
template<size_t R> Box<R> innerBox(vh::Rng &r, const Box<R> &b) {
  Box<R> s;
  for (size_t d = 0; d < R; ++d) { int a = r.range(0, int(b.hi[d] - b.lo[d])), e = r.range(0, int(b.hi[d] - b.lo[d])); if (a > e) std::swap(a, e); s.lo[d] = b.lo[d] + a; s.hi[d] = b.lo[d] + e; }
  return s;
}

// grid (+|-)= grid
template<class T1, class T2, size_t R, template<typename, size_t> class S1, template<typename, size_t> class S2> void arith(vh::Case &c) {
  vh::Rng &r = c.rng;
  Box<R> b = randomBox<R>(r, 400), b2 = b;
  constexpr bool sameStore = std::is_same<S1<T1, R>, S2<T2, R>>::value;
  if (!sameStore && r.chance(1, 2)) for (size_t d = 0; d < R; ++d) { b2.lo[d] -= r.range(0, 2); b2.hi[d] += r.range(0, 2); }
  bool plus = r.chance(1, 2);
  c.desc << "arith rank=" << R << " " << b.str() << (plus ? "+=" : "-=") << b2.str() << typeid(S1<T1, R>).hash_code() % 97 << typeid(S2<T2, R>).hash_code() % 97 << " #" << c.index;
  Grid<T1, R, GridNoArgCheck, S1> x(arr<R>(b.lo), arr<R>(b.hi));
  Grid<T2, R, GridNoArgCheck, S2> y(arr<R>(b2.lo), arr<R>(b2.hi));
  Model<R> mx(b), my(b2);
  put(x, mx, r); put(y, my, r);
  if (plus) x += y; else x -= y;
  each<R>(b, [&](const long *p) { T1 a = T1(mx.at(p)); T2 e = T2(my.at(p)); if (plus) a += e; else a -= e; mx.at(p) = double(a); });
  same(c, x, mx, plus ? "plus-assign" : "minus-assign", "result");
  same(c, y, my, "operand-unchanged", "right hand side");
  if constexpr (sameStore) {
    if (plus) x += x; else x -= x;
    each<R>(b, [&](const long *p) { mx.at(p) = plus ? 2 * mx.at(p) : 0; });
    same(c, x, mx, "self-arith", "result of combining a grid with itself");
  }
  checkExtent<decltype(x), R>(c, x, b, "after arithmetic");
  c.count(sameStore ? "arith:same-storage" : "arith:mixed-storage");
}

// sub grids are windows on their base
template<class T, size_t R, template<typename, size_t> class S, template<size_t> class Chk> void subgrid(vh::Case &c) {
  vh::Rng &r = c.rng;
  typedef Grid<T, R, Chk, S> G;
  typedef SubGrid<G> SG;
  typedef internal::GridBase<T, R, GridNoArgCheck<R>, SubGridStorage<T, R, G>> SGBase;
  Box<R> b = randomBox<R>(r, 500);
  int how = r.range(0, 2);
  if (how == 0) for (size_t d = 0; d < R; ++d) { b.lo[d] = -r.range(0, 3); b.hi[d] = b.lo[d] + std::max<long>(b.hi[d] - b.lo[d], -b.lo[d]); if (b.hi[d] - b.lo[d] > 12) b.hi[d] = b.lo[d] + 12; if (b.hi[d] < 0) b.hi[d] = 0; }
  Box<R> s = innerBox<R>(r, b);
  if (how == 0) for (size_t d = 0; d < R; ++d) { s.lo[d] = 0; s.hi[d] = r.range(0, int(b.hi[d])); }
  c.desc << "subgrid rank=" << R << " " << s.str() << " of " << b.str() << " ctor " << how << " #" << c.index;
  G g(arr<R>(b.lo), arr<R>(b.hi));
  Model<R> m(b);
  put(g, m, r);
  Array<int, R> lo = arr<R>(s.lo), hi = arr<R>(s.hi), size;
  for (size_t d = 0; d < R; ++d) size[d] = int(s.hi[d] - s.lo[d] + 1);
  SG sg = how == 0 ? SG(size, g) : how == 1 ? SG(lo, hi, g) : SG(Range<int, R>(lo, hi), g);
  const SG &csg = sg;
  bool ext = true;
  for (size_t d = 0; d < R; ++d) ext = ext && sg.getLo(int(d)) == s.lo[d] && sg.getHi(int(d)) == s.hi[d] && sg.getDims(int(d)) == s.hi[d] - s.lo[d] + 1 &&
    sg.getLo()[d] == s.lo[d] && sg.getHi()[d] == s.hi[d] && sg.getDims()[d] == s.hi[d] - s.lo[d] + 1;
  c.ok(ext, "subgrid-extent", s.str());
  each<R>(s, [&](const long *p) {
    Array<int, R> q = arr<R>(p);
    c.check(double(sg.get(q)) == m.at(p) && double(sg[q]) == m.at(p) && double(csg.get(q)) == m.at(p) && double(csg[q]) == m.at(p) && double(callOp<SG, R>(sg, p)) == m.at(p) && &sg.get(q) == &g.get(q),
            "subgrid-read", [&](std::ostream &o) { o << pos<R>(p) << " reads " << sg.get(q) << ", base has " << m.at(p); });
  });
  // iteration: last index fastest over the window, mutable and const
  {
    std::vector<double> want, got, cgot;
    each<R>(s, [&](const long *p) { want.push_back(m.at(p)); });
    long cap = s.size() + 5;
    for (auto it = sg.begin(), e = sg.end(); it != e && long(got.size()) < cap; ++it) got.push_back(double(*it));
    for (auto it = csg.cbegin(), e = csg.cend(); it != e && long(cgot.size()) < cap; ++it) cgot.push_back(double(*it));
    c.ok(got == want, "subgrid-iteration", s.str());
    c.ok(cgot == want, "subgrid-const-iteration", s.str());
  }
  int n = r.range(1, 6);
  for (int k = 0; k < n; ++k) {
    int op = r.range(0, 5);
    c.desc << " " << op;
    switch (op) {
      case 0: { T v = T(r.range(100, 200)); static_cast<SGBase &>(sg) = v; each<R>(s, [&](const long *p) { m.at(p) = double(v); }); break; }
      case 1: { for (auto it = sg.begin(), e = sg.end(); it != e; ++it) *it = T(*it) * T(2); each<R>(s, [&](const long *p) { m.at(p) *= 2; }); break; }
      case 2: { each<R>(s, [&](const long *p) { double v = r.range(-9, 9); if (r.chance(1, 2)) sg[arr<R>(p)] = T(v); else callOp<SG, R>(sg, p) = T(v); m.at(p) = v; }); break; }
      case 3: { Grid<T, R> other(arr<R>(s.lo), arr<R>(s.hi)); Model<R> mo(s); put(other, mo, r); bool plus = r.chance(1, 2); if (plus) sg += other; else sg -= other;
                each<R>(s, [&](const long *p) { if (plus) m.at(p) += mo.at(p); else m.at(p) -= mo.at(p); }); break; }
      case 4: { // a second window, overlapping: both see the base
                Box<R> s2 = innerBox<R>(r, b); SG o(arr<R>(s2.lo), arr<R>(s2.hi), g); T v = T(r.range(300, 400)); static_cast<SGBase &>(o) = v; each<R>(s2, [&](const long *p) { m.at(p) = double(v); }); break; }
      default: { // the base is written directly
                Box<R> s2 = innerBox<R>(r, b); each<R>(s2, [&](const long *p) { double v = r.range(500, 600); g[arr<R>(p)] = T(v); m.at(p) = v; }); }
    }
    same(c, g, m, "subgrid-base", "base grid");
    each<R>(s, [&](const long *p) { c.check(double(sg.get(arr<R>(p))) == m.at(p), "subgrid-window", [&](std::ostream &o) { o << "window at " << pos<R>(p); }); });
    if (c.failed) return;
  }
  if (r.chance(1, 2)) { // resizing the window moves it; the base stays
    Box<R> s2 = innerBox<R>(r, b);
    sg.resize(arr<R>(s2.lo), arr<R>(s2.hi));
    bool ok = true;
    for (size_t d = 0; d < R; ++d) ok = ok && sg.getLo(int(d)) == s2.lo[d] && sg.getHi(int(d)) == s2.hi[d] && sg.getDims(int(d)) == s2.hi[d] - s2.lo[d] + 1;
    c.ok(ok, "subgrid-resize", s2.str());
    std::vector<double> want, got;
    each<R>(s2, [&](const long *p) { want.push_back(m.at(p)); });
    for (auto it = sg.begin(), e = sg.end(); it != e; ++it) got.push_back(double(*it));
    c.ok(got == want, "subgrid-resize", "contents of the moved window");
    same(c, g, m, "subgrid-base", "base grid");
  } else { // the base is resized: the window follows it
    Box<R> b2 = b; for (size_t d = 0; d < R; ++d) { b2.lo[d] -= r.range(0, 2); b2.hi[d] += r.range(0, 2); }
    g.resize(arr<R>(b2.lo), arr<R>(b2.hi));
    Model<R> m2(b2);
    put(g, m2, r);
    each<R>(s, [&](const long *p) { c.check(double(sg.get(arr<R>(p))) == m2.at(p), "subgrid-after-base-resize", [&](std::ostream &o) { o << pos<R>(p); }); });
  }
  c.count("subgrids");
}

struct Affine { typedef double value_type; double f, o; Affine(double f_ = 1, double o_ = 0) : f(f_), o(o_) {} double operator()(double x) const { return f * x + o; } };
template<size_t R, template<typename, size_t> class S> void transform(vh::Case &c) {
  vh::Rng &r = c.rng;
  typedef Grid<double, R, GridNoArgCheck, S> G;
  typedef GridTransform<G, Affine> TG;
  typedef GridTransform<G, TypeCastTransform<double, int>> TI;
  Box<R> b = randomBox<R>(r, 300);
  G g(arr<R>(b.lo), arr<R>(b.hi));
  Model<R> m(b);
  put(g, m, r);
  double f = r.range(-4, 4), o = r.range(-9, 9);
  c.desc << "transform rank=" << R << " " << b.str() << " x*" << f << "+" << o << " #" << c.index;
  TG t(g);
  t.setTransformation(Affine(f, o));
  const TG &ct = t;
  TI ti(g);
  bool ext = true;
  for (size_t d = 0; d < R; ++d) ext = ext && t.getLo(int(d)) == b.lo[d] && t.getHi(int(d)) == b.hi[d] && t.getDims(int(d)) == b.hi[d] - b.lo[d] + 1 && t.getLo()[d] == b.lo[d] && t.getHi()[d] == b.hi[d] && t.getDims()[d] == b.hi[d] - b.lo[d] + 1;
  c.ok(ext, "transform-extent", b.str());
  auto readAll = [&](const char *key) {
    each<R>(b, [&](const long *p) {
      Array<int, R> q = arr<R>(p);
      double w = f * m.at(p) + o;
      double a1 = t.get(q), a2 = ct.get(q), a3 = t[q], a4 = ct[q];
      c.check(a1 == w && a2 == w && a3 == w && a4 == w && callOpC<TG, R>(ct, p) == w && ti.get(q) == int(m.at(p)), key,
              [&](std::ostream &os) { os << pos<R>(p) << " reads " << a1 << "/" << a2 << "/" << a3 << "/" << a4 << ", expected " << w; });
    });
  };
  readAll("transform-read");
  each<R>(b, [&](const long *p) { if (r.chance(1, 3)) { double v = r.range(-99, 99) + 0.5; g[arr<R>(p)] = v; m.at(p) = v; } });
  readAll("transform-follows-base");
  // a transformed grid may be added to a plain one
  Grid<double, R> sum(arr<R>(b.lo), arr<R>(b.hi));
  Model<R> ms(b);
  put(sum, ms, r);
  sum += t;
  each<R>(b, [&](const long *p) { ms.at(p) += f * m.at(p) + o; });
  same(c, sum, ms, "transform-as-operand", "grid += transformed grid");
  same(c, g, m, "transform-base-unchanged", "base");
  c.count("transforms");
}

// two elements of a transformed grid used in one expression
struct Rotate { typedef std::complex<double> value_type; std::complex<double> operator()(double x) const { return std::complex<double>(x, -2 * x); } };
template<size_t R> void transformPair(vh::Case &c) {
  vh::Rng &r = c.rng;
  typedef Grid<double, R> G;
  Box<R> b = randomBox<R>(r, 60);
  b.hi[0] += 1;
  G g(arr<R>(b.lo), arr<R>(b.hi));
  Model<R> m(b);
  put(g, m, r);
  g[arr<R>(b.lo)] = m.at(b.lo) = 3;
  g[arr<R>(b.hi)] = m.at(b.hi) = 11;
  c.desc << "transform-pair rank=" << R << " " << b.str() << " #" << c.index;
  GridTransform<G, Rotate> t(g);
  const GridTransform<G, Rotate> &ct = t;
  Rotate rot;
  Array<int, R> lo = arr<R>(b.lo), hi = arr<R>(b.hi);
  std::complex<double> want = rot(m.at(b.lo)) - rot(m.at(b.hi));
  c.ok(ct[lo] - ct[hi] == want, "transform-pair-const", "the difference of two elements of a constant transformed grid is wrong");
  c.ok(t[lo] - t[hi] == want, "transform-pair", "two elements of a transformed grid used in one expression read as the same element");
  c.count("transform-pairs");
}

// checking policies: valid indices pass through untouched; invalid ones stop the program or are pulled back and flagged
template<size_t R, template<typename, size_t> class S> void policy(vh::Case &c) {
  vh::Rng &r = c.rng;
  Box<R> b = randomBox<R>(r, 200, false, false);
  long p[R], q[R]; bool in = true; int badDim = -1; bool single = true;
  size_t odd = r.range(0, int(R) - 1);
  bool wantOut = r.chance(2, 3);
  for (size_t d = 0; d < R; ++d) {
    p[d] = b.lo[d] + r.range(0, int(b.hi[d] - b.lo[d]));
    if (wantOut && (d == odd || r.chance(1, 5))) p[d] = r.chance(1, 2) ? b.lo[d] - r.range(1, 3) : b.hi[d] + r.range(1, 3);
    q[d] = std::min(std::max(p[d], b.lo[d]), b.hi[d]);
    if (q[d] != p[d]) { if (!in) single = false; in = false; badDim = int(d); }
  }
  int route = r.range(0, 3);
  bool debug = r.chance(1, 2);
  c.desc << "policy rank=" << R << (debug ? " debug " : " assert ") << b.str() << " at " << pos<R>(p) << " route " << route;
  c.count(std::string("policy:") + (debug ? "debug-" : "assert-") + (in ? "in" : "out"));
  if (debug) {
    vh::ChildResult cr = vh::inChild([&]() {
      typedef Grid<double, R, GridDebugCheck, S> G;
      G g(arr<R>(b.lo), arr<R>(b.hi));
      const G &cg = g;
      each<R>(b, [&](const long *x) { g.get(arr<R>(x)) = double(offC<R>(b, x)); });
      each<R>(b, [&](const long *x) { if (g[arr<R>(x)] != double(offC<R>(b, x))) _exit(41); });
      if (GridDebugCheck<R>::getErrorFlag()) return 42;
      double v = route == 0 ? g[arr<R>(p)] : route == 1 ? callOp<G, R>(g, p) : route == 2 ? cg[arr<R>(p)] : callOpC<G, R>(cg, p);
      if (v != double(offC<R>(b, q))) return 43;
      if (GridDebugCheck<R>::getErrorFlag() != !in) return 44;
      if (!in) {
        Array<int, R, ArrayAssertArgCheck> off = GridDebugCheck<R>::getOffending();
        for (size_t d = 0; d < R; ++d) if (off[d] != p[d]) return 45;
        if (single && std::abs(GridDebugCheck<R>::getErrorInfo()) != badDim) return 46;
        if (single && badDim != 0 && (GridDebugCheck<R>::getErrorInfo() < 0) != (p[badDim] < b.lo[badDim])) return 47;
      }
      return 0;
    });
    c.check(cr.exited && cr.code == 0, "debug-policy", [&](std::ostream &o) { o << "ended with code " << cr.code << " signal " << cr.sig
      << " (41 valid index misread, 42 flagged without error, 43 wrong element, 44 flag wrong, 45 offending index wrong, 46/47 dimension wrong)"; });
  } else {
    vh::ChildResult cr = vh::inChild([&]() {
      typedef Grid<double, R, GridAssertCheck, S> G;
      G g(arr<R>(b.lo), arr<R>(b.hi));
      const G &cg = g;
      each<R>(b, [&](const long *x) { g[arr<R>(x)] = double(offC<R>(b, x)); });
      double v = route == 0 ? g[arr<R>(p)] : route == 1 ? callOp<G, R>(g, p) : route == 2 ? cg[arr<R>(p)] : callOpC<G, R>(cg, p);
      return in && v == double(offC<R>(b, p)) ? 0 : 43;
    });
    if (in) c.check(cr.exited && cr.code == 0, "assert-policy-in-range", [&](std::ostream &o) { o << "code " << cr.code << " signal " << cr.sig; });
    else c.check(!cr.exited && cr.sig == SIGABRT, "assert-policy-out-of-range", [&](std::ostream &o) { o << "must stop the program; exited " << cr.exited << " code " << cr.code << " signal " << cr.sig; });
  }
}

// windows are checked as well: by the policy of the base and by their own
template<size_t R, template<size_t> class BaseChk, template<size_t> class WinChk> void policyWindow(vh::Case &c) {
  vh::Rng &r = c.rng;
  Box<R> b = randomBox<R>(r, 200, false, false), s = innerBox<R>(r, b), w = s;
  const bool winAsserts = std::is_same<WinChk<R>, GridAssertCheck<R>>::value;
  bool outside = winAsserts && r.chance(1, 3);      // a window that sticks out of its base
  if (outside) { size_t d = r.range(0, int(R) - 1); if (r.chance(1, 2)) w.lo[d] = b.lo[d] - r.range(1, 3); else w.hi[d] = b.hi[d] + r.range(1, 3); }
  long p[R]; bool in = true; size_t odd = r.range(0, int(R) - 1); bool wantOut = r.chance(2, 3);
  for (size_t d = 0; d < R; ++d) {
    p[d] = s.lo[d] + r.range(0, int(s.hi[d] - s.lo[d]));
    if (wantOut && (d == odd || r.chance(1, 5))) p[d] = r.chance(1, 2) ? s.lo[d] - r.range(1, 3) : s.hi[d] + r.range(1, 3);
    in = in && p[d] >= s.lo[d] && p[d] <= s.hi[d];
  }
  int route = r.range(0, 3), how = r.range(1, 3);
  c.desc << "window policy rank=" << R << " " << w.str() << " of " << b.str() << " at " << pos<R>(p) << " route " << route << " how " << how;
  vh::ChildResult cr = vh::inChild([&]() {
    typedef Grid<double, R, BaseChk, SingleArrayGridStorage> G; typedef SubGrid<G, WinChk> SG;
    G g(arr<R>(b.lo), arr<R>(b.hi));
    each<R>(b, [&](const long *x) { g[arr<R>(x)] = double(offC<R>(b, x)); });
    SG sg;
    if (how == 1) sg = SG(arr<R>(w.lo), arr<R>(w.hi), g); else if (how == 2) sg = SG(Range<int, R>(arr<R>(w.lo), arr<R>(w.hi)), g);
    else { Array<int, R> n; bool zero = true; for (size_t d = 0; d < R; ++d) { n[d] = int(w.hi[d] + 1); zero = zero && w.lo[d] == 0; } sg = zero ? SG(n, g) : SG(arr<R>(w.lo), arr<R>(w.hi), g); }
    if (outside) return 44;
    const SG &csg = sg;
    each<R>(s, [&](const long *x) { if (sg[arr<R>(x)] != double(offC<R>(b, x))) _exit(41); });
    double v = route == 0 ? sg[arr<R>(p)] : route == 1 ? callOp<SG, R>(sg, p) : route == 2 ? csg[arr<R>(p)] : callOpC<SG, R>(csg, p);
    return in && v == double(offC<R>(b, p)) ? 0 : 43;
  });
  bool good = !outside && in;
  if (good) c.check(cr.exited && cr.code == 0, "window-policy-in-range", [&](std::ostream &o) { o << "code " << cr.code << " signal " << cr.sig; });
  else c.check(!cr.exited && cr.sig == SIGABRT, outside ? "window-outside-base" : "window-policy-out-of-range", [&](std::ostream &o) { o << "must stop the program; exited " << cr.exited << " code " << cr.code << " signal " << cr.sig; });
  c.count(good ? "window-policy:in" : outside ? "window-policy:outside" : "window-policy:out");
}
#endif
