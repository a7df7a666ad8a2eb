// C06: ghost-cell geometry of boundaries and the index/position geometry of fields.
#ifndef C06_HPP
#define C06_HPP
#include "gridcommon.hpp"
#include "grid/boundary.hpp"
#include "grid/field.hpp"
using namespace vg;
using namespace schnek;

template<size_t R, class RG> bool isBox(const RG &r, const Box<R> &b) { for (size_t d = 0; d < R; ++d) if (long(r.getLo()[d]) != b.lo[d] || long(r.getHi()[d]) != b.hi[d]) return false; return true; }
template<size_t R, class RG> std::string rangeStr(const RG &r) { Box<R> b; for (size_t d = 0; d < R; ++d) { b.lo[d] = r.getLo()[d]; b.hi[d] = r.getHi()[d]; } return b.str(); }

template<size_t R, template<size_t> class CP> void boundaryCase(vh::Case &c) {
  vh::Rng &r = c.rng;
  typedef Boundary<R, CP> B;
  typedef typename B::DomainType D;
  typedef typename B::LimitType L;
  int delta = r.chance(1, 8) ? r.range(5, R <= 2 ? 40 : 9) : r.range(0, 4);
  Box<R> in = randomBox<R>(r, 400), full = in;
  for (size_t d = 0; d < R; ++d) { if (r.chance(1, 2) && in.hi[d] - in.lo[d] + 1 < delta) in.hi[d] = in.lo[d] + delta - 1; full.lo[d] = in.lo[d] - delta; full.hi[d] = in.hi[d] + delta; }
  c.desc << "boundary rank=" << R << " " << full.str() << " delta=" << delta;
  L lo, hi;
  for (size_t d = 0; d < R; ++d) { lo[d] = int(full.lo[d]); hi[d] = int(full.hi[d]); }
  D dom(lo, hi);
  B b = r.chance(1, 2) ? B(lo, hi, delta) : B(dom, delta);
  if (r.chance(1, 3)) { B b2; b2 = b; b = b2; }
  c.ok(b.getDelta() == delta, "delta", "");
  c.ok(isBox<R>(b.getDomain(), full), "domain", rangeStr<R>(b.getDomain()));
  c.check(isBox<R>(b.getInnerDomain(), in), "inner-domain", [&](std::ostream &o) { o << rangeStr<R>(b.getInnerDomain()) << ", expected " << in.str(); });
  Grid<int, R> own(arr<R>(full.lo), arr<R>(full.hi));
  for (size_t d = 0; d < R; ++d) {
    Box<R> gmin = full, gmax = full, smin = full, smax = full;
    gmin.hi[d] = full.lo[d] + delta - 1; gmax.lo[d] = full.hi[d] - delta + 1;
    smin.lo[d] = in.lo[d]; smin.hi[d] = in.lo[d] + delta - 1;
    smax.hi[d] = in.hi[d]; smax.lo[d] = in.hi[d] - delta + 1;
    auto expect = [&](const char *key, const D &got, const Box<R> &want) {
      c.check(isBox<R>(got, want), key, [&](std::ostream &o) { o << "dim " << d << ": " << rangeStr<R>(got) << ", expected " << want.str(); });
    };
    expect("ghost-min", b.getGhostDomain(d, B::Min), gmin);
    expect("ghost-max", b.getGhostDomain(d, B::Max), gmax);
    expect("ghost-source-min", b.getGhostSourceDomain(d, B::Min), smin);
    expect("ghost-source-max", b.getGhostSourceDomain(d, B::Max), smax);
    expect("boundary-min", b.getBoundaryDomain(d, B::Min, false), gmin);
    expect("boundary-max", b.getBoundaryDomain(d, B::Max, false), gmax);
    Box<R> st = gmin; st.hi[d] -= 1;
    expect("boundary-min-staggered", b.getBoundaryDomain(d, B::Min, true), st);
    expect("boundary-max-staggered", b.getBoundaryDomain(d, B::Max, true), gmax);
    c.check(isBox<R>(b.getDomain(), full), "domain-unchanged", [&](std::ostream &o) { o << "after querying dim " << d; });
  }
  // partition along each dimension: ghosts and inner cells cover the domain once
  for (size_t d = 0; d < R; ++d) {
    D a = b.getGhostDomain(d, B::Min), z = b.getGhostDomain(d, B::Max), i = b.getInnerDomain();
    c.ok(a.getHi()[d] + 1 == i.getLo()[d] && i.getHi()[d] + 1 == z.getLo()[d], "partition", "ghost and inner cells must be adjacent");
  }
  // ghost sub grids
  if (delta > 0) {
    size_t d = r.range(0, int(R) - 1);
    bool max = r.chance(1, 2);
    Grid<double, R> g(arr<R>(full.lo), arr<R>(full.hi));
    g = 1.0;
    auto sg = b.getGhostBoundary(d, max ? B::Max : B::Min, g);
    for (auto it = sg.begin(), e = sg.end(); it != e; ++it) *it = 2.0;
    each<R>(full, [&](const long *p) {
      bool ghost = max ? p[d] > in.hi[d] : p[d] < in.lo[d];
      double v = g.get(arr<R>(p));
      c.check(v == (ghost ? 2.0 : 1.0), "ghost-subgrid", [&](std::ostream &o) { o << "dim " << d << (max ? " max" : " min") << " at " << pos<R>(p) << " value " << v; });
    });
    Array<bool, R> stag; for (size_t k = 0; k < R; ++k) stag[k] = r.chance(1, 2);
    Range<double, R> phys(Array<double, R>(0.0), Array<double, R>(1.0));
    Field<double, R> f(arr<R>(in.lo), arr<R>(in.hi), phys, stag, delta);
    f = 1.0;
    if (!(delta == 1 && stag[d] && !max)) {
      auto fg = b.getGhostBoundary(d, max ? B::Max : B::Min, f);
      for (auto it = fg.begin(), e = fg.end(); it != e; ++it) *it = 2.0;
      each<R>(full, [&](const long *p) {
        bool ghost = max ? p[d] > in.hi[d] : p[d] < in.lo[d] - (stag[d] ? 1 : 0);
        double v = f.get(arr<R>(p));
        c.check(v == (ghost ? 2.0 : 1.0), "ghost-subfield", [&](std::ostream &o) { o << "dim " << d << (max ? " max" : " min") << " staggered " << stag[d] << " at " << pos<R>(p) << " value " << v; });
      });
      c.count("ghost-subfields");
    }
    c.count("ghost-subgrids");
  }
}

template<size_t R> struct FieldModel { Box<R> in; int ghost; double lo[R], hi[R]; bool st[R]; };

template<class F, size_t R> void checkField(vh::Case &c, F &f, const FieldModel<R> &m, const char *what, vh::Rng &r) {
  Box<R> full = m.in;
  for (size_t d = 0; d < R; ++d) { full.lo[d] -= m.ghost; full.hi[d] += m.ghost; }
  checkExtent<F, R>(c, f, full, what);
  bool inner = true, stg = true, dom = true;
  auto il = f.getInnerLo(), ih = f.getInnerHi();
  auto ir = f.getInnerRange();
  for (size_t d = 0; d < R; ++d) {
    inner = inner && il[d] == m.in.lo[d] && ih[d] == m.in.hi[d] && ir.getLo(d) == m.in.lo[d] && ir.getHi(d) == m.in.hi[d];
    stg = stg && bool(f.getStagger(int(d))) == m.st[d] && bool(f.getStagger()[d]) == m.st[d];
    dom = dom && f.getDomain().getLo()[d] == m.lo[d] && f.getDomain().getHi()[d] == m.hi[d];
  }
  c.check(inner, "inner-range", [&](std::ostream &o) { o << what << ": inner range differs from " << m.in.str(); });
  c.ok(stg, "stagger", what);
  c.ok(dom, "domain", what);
  if (c.failed) return;
  for (size_t d = 0; d < R; ++d) {
    long n = m.in.hi[d] - m.in.lo[d] + 1;
    double dx = (m.hi[d] - m.lo[d]) / n, tol = 1e-9 * (std::fabs(m.lo[d]) + std::fabs(m.hi[d]) + dx);
    double prev = 0;
    for (long i = full.lo[d]; i <= full.hi[d]; ++i) {
      double want = m.lo[d] + (i - m.in.lo[d] + (m.st[d] ? 0.5 : 0.0)) * dx, got = f.indexToPosition(int(d), int(i));
      c.check(std::fabs(got - want) <= tol, "index-to-position", [&](std::ostream &o) { o << what << " dim " << d << " index " << i << " gives " << got << ", expected " << want; });
      if (i > full.lo[d]) c.check(got > prev, "position-monotonic", [&](std::ostream &o) { o << what << " dim " << d << " index " << i; });
      prev = got;
      // a position strictly between two grid points belongs to the left one
      double off = r.real(0.01, 0.99), pos_ = want + off * dx;
      int idx = -123456; double offset = -1;
      f.positionToIndex(int(d), pos_, idx, offset);
      int single = f.positionToIndex(int(d), pos_);
      c.check(idx == i && single == i && std::fabs(offset - off) < 1e-6, "position-to-index", [&](std::ostream &o) {
        o << what << " dim " << d << " position " << pos_ << " gives index " << idx << "/" << single << " offset " << offset << ", expected " << i << " + " << off; });
      // and the offset locates the position again
      c.check(std::fabs(f.indexToPosition(int(d), idx) + offset * dx - pos_) <= 1e-6 * dx + tol, "position-round-trip", [&](std::ostream &o) { o << what << " dim " << d << " position " << pos_; });
    }
  }
  c.count("fields-checked");
}

template<class F, size_t R> FieldModel<R> randomField(vh::Case &c) {
  vh::Rng &r = c.rng;
  FieldModel<R> m;
  m.in = randomBox<R>(r, 200, false, false);
  m.ghost = r.chance(1, 6) ? r.range(4, 9) : r.range(0, 3);
  for (size_t d = 0; d < R; ++d) { m.lo[d] = r.real(-20, 20); m.hi[d] = m.lo[d] + (r.chance(1, 5) ? r.real(1e-3, 1e-2) : r.real(0.5, 50)); m.st[d] = r.chance(1, 2); }
  return m;
}
template<size_t R> void args(const FieldModel<R> &m, Array<int, R> &lo, Array<int, R> &hi, Range<double, R> &dom, Array<bool, R> &st) {
  for (size_t d = 0; d < R; ++d) { lo[d] = int(m.in.lo[d]); hi[d] = int(m.in.hi[d]); dom.getLo()[d] = m.lo[d]; dom.getHi()[d] = m.hi[d]; st[d] = m.st[d]; }
}

// dyadic geometry, where every position is exact: grid points and their closest neighbours
template<class T, size_t R> void exactField(vh::Case &c) {
  vh::Rng &r = c.rng;
  typedef Field<T, R> F;
  Box<R> in = randomBox<R>(r, 100, false, false); int ghost = r.range(0, 4);
  Range<double, R> dom; Array<bool, R> st; double h[R], org[R];
  for (size_t d = 0; d < R; ++d) {
    in.hi[d] = in.lo[d] + (1l << r.range(0, R == 1 ? 8 : 4)) - 1;
    h[d] = std::ldexp(1.0, r.range(-12, 6)); org[d] = r.range(-64, 64) * h[d];
    dom.getLo()[d] = org[d]; dom.getHi()[d] = org[d] + h[d] * (in.hi[d] - in.lo[d] + 1); st[d] = r.chance(1, 2);
  }
  c.desc << "exact field " << in.str() << " ghost " << ghost << " h[0]=" << h[0] << " stagger[0]=" << st[0];
  F f(arr<R>(in.lo), arr<R>(in.hi), dom, st, ghost);
  for (size_t d = 0; d < R; ++d) for (long i = in.lo[d] - ghost; i <= in.hi[d] + ghost; ++i) {
    double x = org[d] + (i - in.lo[d] + (st[d] ? 0.5 : 0.0)) * h[d];
    c.check(f.indexToPosition(int(d), int(i)) == x, "exact-position", [&](std::ostream &o) { o << "dim " << d << " index " << i << " is at " << f.indexToPosition(int(d), int(i)) << ", expected " << x; });
    for (int k : {0, 30, -30, 2, -2}) {
      double e = k == 0 ? 0 : (k > 0 ? 1 : -1) * std::ldexp(1.0, -std::abs(k)); int idx = -12345; double off = -1;
      f.positionToIndex(int(d), x + e * h[d], idx, off); int single = f.positionToIndex(int(d), x + e * h[d]);
      long want = k < 0 ? i - 1 : i; double woff = k < 0 ? 1 + e : e;
      c.check(idx == want && single == want && off == woff, "exact-index", [&](std::ostream &o) { o << "dim " << d << " grid point " << i << " displaced by " << e << " cells gives " << idx << "/" << single << " + " << off << ", expected " << want << " + " << woff; });
    }
  }
  c.count("exact-fields");
}

template<class T, size_t R, template<typename, size_t> class S> void fieldCase(vh::Case &c) {
  vh::Rng &r = c.rng;
  typedef Field<T, R, GridNoArgCheck, S> F;
  FieldModel<R> m = randomField<F, R>(c);
  int how = r.range(0, 2);
  if (how == 0) for (size_t d = 0; d < R; ++d) { m.in.hi[d] -= m.in.lo[d]; m.in.lo[d] = 0; }
  Array<int, R> lo, hi, size; Range<double, R> dom; Array<bool, R> st;
  args<R>(m, lo, hi, dom, st);
  for (size_t d = 0; d < R; ++d) size[d] = hi[d] + 1;
  c.desc << "field rank=" << R << " " << m.in.str() << " ghost=" << m.ghost << " ctor=" << how << " domain[0]=" << m.lo[0] << ".." << m.hi[0] << " stagger[0]=" << m.st[0];
  F f = how == 0 ? F(size, dom, st, m.ghost) : how == 1 ? F(lo, hi, dom, st, m.ghost) : F(Range<int, R>(lo, hi), dom, st, m.ghost);
  checkField<F, R>(c, f, m, "constructed field", r);
  F copy(f), assigned;
  assigned = f;
  checkField<F, R>(c, copy, m, "copied field", r);
  checkField<F, R>(c, assigned, m, "assigned field", r);
  // copies share the data
  T one = T(11);
  copy.get(copy.getLo()) = one;
  c.ok(f.get(f.getLo()) == one && assigned.get(assigned.getLo()) == one, "field-copies-share", "");
  if constexpr (!std::is_same<S<T, R>, KokkosDefaultGridStorage<T, R>>::value) {
    f = T(5);
    bool all = true;
    for (auto it = assigned.begin(), e = assigned.end(); it != e; ++it) all = all && *it == T(5);
    c.ok(all, "field-value-assignment", "");
  }
  // resize through all three routes
  FieldModel<R> m2 = randomField<F, R>(c);
  int how2 = r.range(0, 2);
  if (how2 == 0) for (size_t d = 0; d < R; ++d) { m2.in.hi[d] -= m2.in.lo[d]; m2.in.lo[d] = 0; }
  args<R>(m2, lo, hi, dom, st);
  for (size_t d = 0; d < R; ++d) size[d] = hi[d] + 1;
  c.desc << " resize=" << how2 << " to " << m2.in.str() << " ghost " << m2.ghost;
  F fresh;
  F &target = r.chance(1, 2) ? fresh : f;
  bool sharedWithCopies = &target == &f;
  if (how2 == 0) target.resize(size, dom, st, m2.ghost); else if (how2 == 1) target.resize(lo, hi, dom, st, m2.ghost); else target.resize(Range<int, R>(lo, hi), dom, st, m2.ghost);
  checkField<F, R>(c, target, m2, "resized field", r);
  if (!sharedWithCopies) checkField<F, R>(c, f, m, "field that was not resized", r);
  if (sharedWithCopies) { // sharers follow the grid bounds of a resize
    bool same = true;
    for (size_t d = 0; d < R; ++d) same = same && copy.getLo(int(d)) == target.getLo(int(d)) && copy.getHi(int(d)) == target.getHi(int(d));
    c.ok(same, "field-copies-follow-resize", "");
  }
}
#endif
